package checks

import (
	"context"
	"fmt"
	"math/rand/v2"
	"slices"
	"time"

	"github.com/powerpuffpenguin/sessionid"

	"verif.local/h/lib"
)

// again performs one and the same call hundreds of times, on sessions in each state: what each of them keeps, takes or
// counts adds up. With a model (C21), they must leave all as it was; without (C18) they have to return.
func again(r *lib.R, n int, judged bool) {
	r.Bubble("again", n, func(c *lib.C) {
		kind := pickKind(c)
		o := lib.Opts{Access: time.Hour, Refresh: 24 * time.Hour}
		if c.P(0.5) {
			o.SetBatch, o.Batch = true, lib.Pick(c, []int{-1, 0, 1, 3, 128})
		}
		if kind == "redis" && c.P(0.5) {
			o.Skew = 100 * time.Hour
		}
		o.Own = kind == "bolt" && c.P(0.3)
		h := c.NewHist(kind, o)
		if judged {
			similar(h)
		}
		mk := func() string { return h.Create(lib.Pick(c, []string{"u", "v"}), lib.KV{K: "a", V: "1"}) }
		dead := mk()
		c.Sleep(h.M.Refresh - h.M.Access)
		expired := mk()
		c.Sleep(h.M.Access)
		live, gone, old := mk(), mk(), mk()
		h.Do(lib.Op{F: "DestroyByToken", Tok: gone})
		h.Refresh(old)
		names := []string{"live", "expired", "dead", "destroyed", "refreshed", "malformed", "unknown"}
		toks := []string{live, expired, dead, gone, old, lib.Pick(c, []string{"", "x", "a.b", "..", "a.b.c.d"}), h.Token("u")}
		var l *lib.Log
		do := func(o lib.Op) { h.Do(o) }
		if !judged {
			l = h.Record()
			do = func(o lib.Op) { l.Seq(o) }
		}
		closed := !judged && c.P(0.25)
		if closed {
			do(lib.Op{F: "Close"})
			c.Add("repeated_on_closed", 1)
		}
		over, cancel := context.WithCancel(context.Background())
		cancel()
		// Either a few calls, on sessions in various states, or every kind of call on a session in one state.
		i, kinds := c.Intn(len(toks)), c.Rng.Perm(14)
		one := c.P(0.6)
		times := lib.Pick(c, []int{20, 70, 200, 300, 700, 1500})
		most := 8000
		if kind != "memory" {
			most = 2500
		}
		if r.Thorough {
			most *= 4
		}
		if !one {
			kinds = kinds[:1+c.Intn(3)]
		}
		for _, k := range kinds {
			if !one {
				i = c.Intn(len(toks))
			}
			if most -= times; most < 0 {
				break
			}
			t := toks[i]
			ref := h.Refs[t]
			bad := "reserved?"
			if h.M.Reserved != "" {
				bad = h.M.Reserved
			} else if kind == "bolt" {
				bad = ""
			}
			var next func() lib.Op
			same := func(o lib.Op) { next = func() lib.Op { return o } }
			if judged && k == 13 || i != 0 && k >= 11 && k != 13 {
				most += times
				continue
			}
			switch k {
			case 0:
				same(lib.Op{F: "Check", Tok: t})
			case 1:
				same(lib.Op{F: "Get", Tok: t, Keys: []string{"a", "b"}})
			case 2:
				same(lib.Op{F: "Keys", Tok: t})
			case 3:
				if i == 0 {
					same(lib.Op{F: "Delete", Tok: t, Keys: []string{"absent"}})
				} else {
					same(lib.Op{F: "Delete", Tok: t, Keys: []string{"a"}})
				}
			case 4:
				same(lib.Op{F: "Put", Tok: t, Pairs: []lib.KV{{K: "a", V: "1"}}})
			case 5: // with a refresh token that is not its own
				next = func() lib.Op {
					x, _ := lib.SplitToken(t)
					return lib.Op{F: "Refresh", Tok: t, Ref: h.Token(x), NTok: h.Token(x), NRef: h.Token(x)}
				}
			case 6: // to another id
				next = func() lib.Op {
					return lib.Op{F: "Refresh", Tok: t, Ref: ref, NTok: h.Token("w"), NRef: h.Token("w")}
				}
			case 7:
				if i == 0 || i == 1 || i == 2 {
					same(lib.Op{F: "DestroyByToken", Tok: h.Token("u")})
				} else {
					same(lib.Op{F: "DestroyByToken", Tok: t})
				}
			case 8:
				same(lib.Op{F: "Destroy", ID: lib.Pick(c, []string{"nobody", "u1", "U"})})
			case 9:
				same(lib.Op{F: "Create", Tok: h.Token("u"), Ref: h.Token("v"), Pairs: []lib.KV{{K: "a", V: "1"}}})
			case 10:
				same(lib.Op{F: "Create", Tok: lib.Pick(c, []string{"x", "a.b", ""}), Ref: h.Token("v")})
			case 11:
				same(lib.Op{F: "Put", Tok: live, Pairs: []lib.KV{{K: "b", V: "1"}, {K: bad, V: "1"}}})
			case 12:
				same(lib.Op{F: "Get", Tok: live, Keys: []string{bad}})
			case 13: // with a context that is over
				what := lib.Pick(c, []string{"Check", "Get", "Keys", "Put", "Delete"})
				c.Do(what, func() {
					for range times {
						lib.CallCtx(over, h.E.P, lib.Op{F: what, Tok: t, Keys: []string{"absent"}, Pairs: []lib.KV{{K: "a", V: "1"}}})
					}
				})
				c.Add("repeated_with_contexts_that_are_over", times)
				continue
			}
			c.Sig(kind, k, names[i], times, closed)
			for range times {
				do(next())
			}
			c.Add("repeated_"+names[i], times)
		}
		if judged {
			h.LookLive(8)
			for _, t := range toks {
				h.Look(t)
			}
			h.End()
			return
		}
		rest(l, h, []string{live})
		rest(l, h, toks[:5])
		h.E.Close()
	})
}

// swarm lets up to 150 goroutines work at once, each with a session of its own, whose answers are known therefore, and all
// with one that is only read.
func swarm(r *lib.R, n int, judged bool) {
	r.Bubble("swarm", n, func(c *lib.C) {
		kind := pickKind(c)
		o := lib.Opts{Access: 1000 * time.Hour, Refresh: 2000 * time.Hour}
		if c.P(0.5) {
			o.SetBatch, o.Batch = true, lib.Pick(c, []int{-1, 0, 1, 3, 128})
		}
		if kind != "redis" && c.P(0.3) {
			o.Clear = 100 * time.Hour
		}
		e := c.Open(kind, o)
		clients := lib.Pick(c, []int{12, 30, 70, 150})
		if kind == "redis" {
			clients = min(clients, 70)
		}
		length := 2 + c.Intn(5)
		ctx := context.Background()
		m := lib.Manager(e.P, nil, []byte("key"), lib.Raw{})
		shared, _, err := m.Create(ctx, "shared", sessionid.Pair{Key: "a", Value: "shared"}, sessionid.Pair{Key: "b", Value: "too"})
		if err != nil {
			c.Failf("%s provider: Create: %v", kind, err)
		}

		oneID := c.P(0.5)
		reads := c.P(0.4) // hardly anything but reads of the shared one
		seeds := c.Rng.Uint64()
		var fs []func()
		for g := range clients {
			rng := rand.New(rand.NewPCG(seeds, uint64(g)))
			id := fmt.Sprint("g", g)
			if oneID {
				id = "g"
			}
			fs = append(fs, func() {
				wrong := func(what string, a ...any) {
					if judged {
						c.Failf("%s provider, %d goroutines, of which number %d is the only one to use its session: %s: %v", kind, clients, g, what, a)
					}
				}
				peek := func() {
					v, err := e.P.Get(ctx, shared.Token(), []string{"a", "x", "b"})
					if err != nil || len(v) != 3 || string(v[0].Bytes) != "shared" || v[1].Exists || string(v[2].Bytes) != "too" {
						wrong("Get of the shared session", v, err)
					}
				}
				if reads {
					for range length {
						peek()
						if err := shared.Check(ctx); err != nil {
							wrong("Check of the shared session", err)
						}
						if k, err := shared.Keys(ctx); err != nil || len(k) != 2 {
							wrong("Keys of the shared session", k, err)
						}
					}
				}
				s, ref, err := m.Create(ctx, id, sessionid.Pair{Key: "own", Value: fmt.Sprint(g)})
				if err != nil {
					wrong("Create", err)
					return
				}
				tok := s.Token()
				data := map[string]string{"own": fmt.Sprint(g)}
				for i := range length {
					switch rng.IntN(8) {
					case 0, 1:
						kv := []sessionid.PairBytes{{Key: fmt.Sprint("k", i%3), Value: []byte(fmt.Sprint(g, " ", i))}, {Key: "last", Value: []byte(fmt.Sprint(i))}}
						if err := e.P.Put(ctx, tok, kv); err != nil {
							wrong("Put", err)
						}
						data[fmt.Sprint("k", i%3)], data["last"] = fmt.Sprint(g, " ", i), fmt.Sprint(i)
					case 2:
						k := fmt.Sprint("k", rng.IntN(3))
						if err := e.P.Delete(ctx, tok, []string{k}); err != nil {
							wrong("Delete", err)
						}
						delete(data, k)
					case 3:
						na, nr, err := m.Refresh(ctx, tok, ref)
						if err != nil {
							wrong("Refresh", err)
							continue
						}
						if err := e.P.Check(ctx, tok); lib.ErrCode(err) != lib.Missing {
							wrong("Check of a token refreshed away", err)
						}
						tok, ref = na, nr
					case 4:
						peek()
					case 5:
						if err := e.P.Check(ctx, tok); err != nil {
							wrong("Check", err)
						}
					case 6:
						got, err := e.P.Keys(ctx, tok)
						slices.Sort(got)
						var want []string
						for k := range data {
							want = append(want, k)
						}
						slices.Sort(want)
						if err != nil || !slices.Equal(got, want) {
							wrong("Keys", got, err, "want", want)
						}
					case 7:
						if rng.IntN(3) > 0 {
							continue
						}
						if err := e.P.DestroyByToken(ctx, tok); err != nil {
							wrong("DestroyByToken", err)
						}
						if err := e.P.Check(ctx, tok); lib.ErrCode(err) != lib.Missing {
							wrong("Check of a destroyed session", err)
						}
						return
					}
					keys := []string{"own", "k0", "k1", "k2", "last"}
					v, err := e.P.Get(ctx, tok, keys)
					if err != nil || len(v) != len(keys) {
						wrong("Get", v, err)
						continue
					}
					for i, k := range keys {
						if w, ok := data[k]; v[i].Exists != ok || string(v[i].Bytes) != w {
							wrong("Get of "+k, v[i], "want", w, ok)
						}
					}
				}
			})
		}
		c.Sig(kind, clients, length, seeds)
		c.Add("goroutines_in_swarms", clients)
		if c.P(0.9) {
			c.Chaos(lib.Pick(c, []float64{0.02, 0.1, 0.5}), lib.Pick(c, []time.Duration{2, 1000, 100 * time.Microsecond}))
		}
		c.Par("concurrent calls", fs...)
		c.Calm()
		c.Settle()
		c.Do("Destroy", func() {
			err := m.Destroy(ctx, "g")
			if judged && err != nil {
				c.Failf("%s provider: Destroy: %v", kind, err)
			}
		})
		e.Close()
	})
}
