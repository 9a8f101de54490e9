package checks

import (
	"context"
	"fmt"
	"math/rand/v2"
	"slices"
	"sync/atomic"
	"time"

	"github.com/powerpuffpenguin/sessionid"

	"verif.local/h/lib"
)

func init() {
	all["C09"] = c09
}

// prelude makes sessions, some dead but not yet removed, some past their access lifetime, and returns their tokens.
func prelude(h *lib.Hist, ids []string) (live, expired, dead []string) {
	c := h.C
	for i, n := 0, c.Intn(3); i < n; i++ {
		dead = append(dead, h.Create(lib.Pick(c, ids), lib.KV{K: "a", V: "0"}))
	}
	if h.E.Opts.Skew > 0 { // redis keeps them for some longer
		for _, t := range dead {
			h.Do(lib.Op{F: "Put", Tok: t, Pairs: []lib.KV{{K: "a", V: "1"}}})
		}
	}
	if len(dead) > 0 {
		c.Sleep(h.M.Refresh - h.M.Access)
	}
	for i, n := 0, c.Intn(2); i < n; i++ {
		expired = append(expired, h.Create(lib.Pick(c, ids), lib.KV{K: "a", V: "0"}))
	}
	pad := min(time.Second, h.M.Access/10)
	c.Sleep(h.M.Access + pad)
	for i, n := 0, 1+c.Intn(3); i < n; i++ {
		live = append(live, h.Create(lib.Pick(c, ids), lib.KV{K: "a", V: "0"}, lib.KV{K: "b", V: "0"}))
		if c.P(0.3) {
			c.Sleep(pad)
		}
	}
	return
}

// scripts makes the calls of concurrent clients on few tokens.
func scripts(h *lib.Hist, ids, toks []string, clients, length int, closes, clears bool) (out [][]lib.Op) {
	c := h.C
	serial := 0
	target := map[string]bool{} // no session is refreshed onto the token of another
	pool := append([]string{}, toks...)
	refs := map[string]string{}
	for t, r := range h.Refs {
		refs[t] = r
	}
	// A Destroy by id acts on redis at one time for each session. Histories are judged by token there, so no token has
	// two sessions, one of them refreshed since, while one runs.
	recreate, byID := true, true
	if h.E.Kind == "redis" {
		recreate = c.P(0.4)
		byID = !recreate
	}
	value := func() string { serial++; return string(rune('0' + serial%75)) }
	some := func(all float64) (keys []string) {
		if c.P(all) {
			return []string{"a", "b", "c"}
		}
		for n := 1 + c.Intn(7); len(keys) < 3; n /= 2 {
			if n%2 == 1 {
				keys = append(keys, string(rune('a'+len(keys))))
			} else {
				keys = append(keys, "")
			}
		}
		return slices.DeleteFunc(keys, func(k string) bool { return k == "" })
	}
	wide := 0
	if c.P(0.02) {
		wide = 60 + c.Intn(lib.Pick(c, []int{300, 1200}))
	}
	pairs := func(all float64) (kv []lib.KV) {
		v := value()
		for _, k := range some(all) {
			if len(kv) > 0 { // more keys in between, so that a call in several parts is seen half done
				for i := 0; i < wide/2; i++ {
					kv = append(kv, lib.KV{K: fmt.Sprint(k, i), V: v})
				}
			}
			kv = append(kv, lib.KV{K: k, V: v})
		}
		return
	}
	stretch := func(keys []string) []string { // the same for calls that name keys alone
		if wide == 0 || c.P(0.3) {
			return keys
		}
		var out []string
		for n, k := range keys {
			if n > 0 {
				for i := 0; i < wide/2; i++ {
					out = append(out, fmt.Sprint(k, i))
				}
			}
			out = append(out, k)
		}
		return out
	}
	for i := 0; i < clients; i++ {
		var s []lib.Op
		var own []string
		for j := 0; j < length; j++ {
			var t string
			if len(own) > 0 && c.P(0.25) {
				t = lib.Pick(c, own)
			} else {
				t = pool[c.Intn(len(pool))]
			}
			id, _ := lib.SplitToken(t)
			switch c.Weighted(14, 12, 10, 6, 8, 20, 8, 6, 8, 4, 2) {
			case 0:
				s = append(s, lib.Op{F: "Put", Tok: t, Pairs: pairs(0.5)})
			case 1:
				s = append(s, lib.Op{F: "Get", Tok: t, Keys: stretch([]string{"a", "b", "c"})})
			case 2:
				s = append(s, lib.Op{F: "Check", Tok: t})
			case 3:
				s = append(s, lib.Op{F: "Keys", Tok: t})
			case 4:
				s = append(s, lib.Op{F: "Delete", Tok: t, Keys: stretch(some(0.3))})
			case 5: // several clients refresh the same pair
				nt, nr := h.Token(id), h.Token(id)
				s = append(s, lib.Op{F: "Refresh", Tok: t, Ref: refs[t], NTok: nt, NRef: nr})
				refs[nt] = nr
				target[nt] = true
				own = append(own, nt)
				if c.P(0.3) {
					pool = append(pool, nt)
				}
			case 6:
				s = append(s, lib.Op{F: "DestroyByToken", Tok: t})
			case 7:
				if byID {
					s = append(s, lib.Op{F: "Destroy", ID: lib.Pick(c, ids)})
				}
			case 8:
				if recreate && c.P(0.3) && !target[t] { // under a token in use
					r := h.Token(id)
					s = append(s, lib.Op{F: "Create", Tok: t, Ref: r, Pairs: pairs(0.2)})
					break
				}
				id = lib.Pick(c, ids)
				nt, nr := h.Token(id), h.Token(id)
				s = append(s, lib.Op{F: "Create", Tok: nt, Ref: nr, Pairs: pairs(0.5)})
				refs[nt] = nr
				own = append(own, nt)
				if c.P(0.3) {
					pool = append(pool, nt)
				}
			case 9:
				if closes {
					s = append(s, lib.Op{F: "Close"})
				}
			case 10:
				if clears && h.E.Kind == "bolt" {
					s = append(s, lib.Op{F: "Clear"})
				}
			}
		}
		out = append(out, s)
	}
	return
}

// observe ends a recorded history with calls that show the state it left.
func observe(l *lib.Log, h *lib.Hist, ss [][]lib.Op, toks []string) {
	c := h.C
	seen := map[string]bool{}
	var list []string
	add := func(t string) {
		if t != "" && !seen[t] {
			seen[t] = true
			list = append(list, t)
		}
	}
	refs := map[string]string{}
	for t, r := range h.Refs {
		refs[t] = r
	}
	for _, t := range toks {
		add(t)
	}
	for _, s := range ss {
		for _, o := range s {
			add(o.Tok)
			add(o.NTok)
			switch o.F {
			case "Create":
				refs[o.Tok] = o.Ref
			case "Refresh":
				refs[o.NTok] = o.NRef
			}
		}
	}
	var ok []string
	for _, t := range list {
		if l.Seq(lib.Op{F: "Get", Tok: t, Keys: []string{"a", "b", "c"}}).Err == lib.OK {
			ok = append(ok, t)
		}
	}
	switch c.Intn(4) {
	case 0: // eviction order
		if h.M.Max > 0 {
			for i := 0; i < h.M.Max; i++ {
				l.Seq(lib.Op{F: "Create", Tok: h.Token("last"), Ref: h.Token("last")})
				for _, t := range ok {
					l.Seq(lib.Op{F: "Check", Tok: t})
				}
			}
		}
	case 1: // the id index
		ids := map[string]bool{}
		for _, t := range ok {
			id, _ := lib.SplitToken(t)
			if !ids[id] {
				ids[id] = true
				l.Seq(lib.Op{F: "Destroy", ID: id})
				for _, t := range ok {
					l.Seq(lib.Op{F: "Check", Tok: t})
				}
			}
		}
	case 2: // refresh tokens
		for _, t := range list {
			id, _ := lib.SplitToken(t)
			nt := h.Token(id)
			if refs[t] == "" {
				continue
			}
			l.Seq(lib.Op{F: "Refresh", Tok: t, Ref: refs[t], NTok: nt, NRef: h.Token(id)})
			l.Seq(lib.Op{F: "Get", Tok: nt, Keys: []string{"a", "b", "c"}})
		}
	}
	c.Add("usable_sessions_after_concurrency", len(ok))
}

func concOpts(c *lib.C, kind string) lib.Opts {
	o := lib.Opts{Access: time.Hour, Refresh: 24 * time.Hour}
	if c.P(0.6) {
		o.SetBatch, o.Batch = true, lib.Pick(c, []int{-1, 0, 1, 2, 3, 128})
	}
	switch kind {
	case "redis":
		if c.P(0.6) {
			o.Skew = 10 * time.Hour
		}
	default:
		if c.P(0.4) {
			o.Max = 1 + c.Intn(4)
		}
		if c.P(0.4) { // clearing during the concurrent phase; short lifetimes, or there were very many ticks before it
			o.Clear = time.Duration(500+c.Intn(5000)) * time.Microsecond
			o.Access, o.Refresh = 500*time.Millisecond, time.Second
		}
	}
	return o
}

// C09: concurrent calls on few sessions, judged by a search for a sequential order.
func c09(r *lib.R) {
	r.Bubble("linearizable", r.N(15000, 400000), func(c *lib.C) {
		kind := pickKind(c)
		h := c.NewHist(kind, concOpts(c, kind))
		c.Add("histories_"+kind, 1)
		ids := []string{"u", "u1", "v"}[:1+c.Intn(3)]
		live, expired, dead := prelude(h, ids)
		toks := append(append(append([]string{}, live...), expired...), dead...)
		l := h.Record()
		ss := scripts(h, ids, toks, 2+c.Intn(4), 2+c.Intn(5), false, true)
		p := lib.Pick(c, []float64{0.02, 0.1, 0.3})
		l.Run(p, lib.Pick(c, []time.Duration{2, 1000, 100 * time.Microsecond}), ss...)
		observe(l, h, ss, toks)
		if kind == "redis" {
			l.Check(lib.ByLineage)
		} else {
			l.Check(nil)
		}
		h.E.Close()
	})
	swarm(r, r.N(240, 8000), true)
	halves(r, r.N(400, 12000))
}

// halves lets some clients write or delete one set of keys at a time, all with the same value, and others read all of them:
// whoever reads sees one of the values for all, or none at all.
func halves(r *lib.R, n int) {
	r.Bubble("halves", n, func(c *lib.C) {
		kind := pickKind(c)
		o := lib.Opts{Access: 1000 * time.Hour, Refresh: 2000 * time.Hour}
		e := c.Open(kind, o)
		width := 2 + c.Intn(lib.Pick(c, []int{5, 60, 300, 1500}))
		var keys []string
		for i := range width {
			keys = append(keys, fmt.Sprint("key", i))
		}
		pairs := func(v string) (kv []sessionid.PairBytes) {
			for _, k := range keys {
				kv = append(kv, sessionid.PairBytes{Key: k, Value: []byte(v)})
			}
			return
		}
		ctx := context.Background()
		if err := e.P.Create(ctx, "i.a0.x", "i.r0.x", pairs("0")); err != nil {
			c.Failf("%s provider: Create: %v", kind, err)
		}
		var tok atomic.Pointer[string] // the latest of the session's, or an earlier one
		first := "i.a0.x"
		tok.Store(&first)
		seeds := c.Rng.Uint64()
		rounds := 2 + c.Intn(4)
		deletes, refreshes, recreates := c.P(0.5), c.P(0.4), c.P(0.3)
		done := func(what string, err error) bool {
			if code := lib.ErrCode(err); code != lib.OK && code != lib.Missing {
				c.Failf("%s provider: %s of %d keys returned %v", kind, what, width, err)
			}
			return err == nil
		}
		read := func() {
			t := *tok.Load()
			v, err := e.P.Get(ctx, t, keys)
			if done("Get", err) {
				if len(v) != width {
					c.Failf("%s provider: Get of %d keys returned %d values", kind, width, len(v))
				}
				for i, x := range v {
					if x.Exists != v[0].Exists || string(x.Bytes) != string(v[0].Bytes) {
						c.Failf("%s provider: %d keys are written and deleted together only, Get sees %v %q for %q and %v %q for %q", kind, width, v[0].Exists, v[0].Bytes, keys[0], x.Exists, x.Bytes, keys[i])
					}
				}
				c.Add("wide_reads", 1)
			}
			if k, err := e.P.Keys(ctx, t); done("Keys", err) && len(k) != 0 && len(k) != width {
				c.Failf("%s provider: %d keys are written and deleted together only, Keys sees %d", kind, width, len(k))
			}
		}
		var fs []func()
		for g := range 1 + c.Intn(3) {
			rng := rand.New(rand.NewPCG(seeds, uint64(g)))
			fs = append(fs, func() {
				for i := range rounds {
					v := fmt.Sprint(g, "-", i)
					t := *tok.Load()
					switch rng.IntN(6) {
					case 0:
						if deletes {
							done("Delete", e.P.Delete(ctx, t, keys))
							continue
						}
					case 1:
						if recreates { // in place of the one that is
							done("Create", e.P.Create(ctx, t, "i.r0.x", pairs(v)))
							continue
						}
					}
					done("Put", e.P.Put(ctx, t, pairs(v)))
				}
			})
		}
		if refreshes && !recreates {
			fs = append(fs, func() {
				for i := range rounds {
					nt := fmt.Sprintf("i.a%d.x", i+1)
					if done("Refresh", e.P.Refresh(ctx, *tok.Load(), fmt.Sprintf("i.r%d.x", i), nt, fmt.Sprintf("i.r%d.x", i+1))) {
						tok.Store(&nt)
					}
				}
			})
		}
		for range 1 + c.Intn(3) {
			fs = append(fs, func() {
				for range 2 * rounds {
					read()
				}
			})
		}
		c.Sig(kind, width, rounds, len(fs), deletes, refreshes, recreates, seeds)
		if c.P(0.95) {
			c.Chaos(lib.Pick(c, []float64{0.02, 0.2, 0.5}), lib.Pick(c, []time.Duration{2, 1000, 100 * time.Microsecond}))
		}
		c.Par("concurrent calls", fs...)
		c.Calm()
		c.Settle()
		read()
		e.Close()
	})
}
