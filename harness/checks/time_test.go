package checks

import (
	"context"
	"fmt"
	"math"
	"regexp"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"

	"verif.local/h/lib"
)

func init() {
	all["C04"] = c04
	all["C08"] = c08
	all["C12"] = c12
	all["C20"] = c20
	all["C21"] = c21
	all["C19"] = c19
}

func lifetime(c *lib.C) time.Duration {
	if c.P(0.05) {
		return time.Duration(1+c.Intn(999)) * time.Millisecond
	}
	switch c.Intn(5) {
	case 0:
		return time.Duration(1+c.Intn(4)) * time.Second
	case 1:
		return time.Second + time.Duration(c.Intn(10000))*time.Millisecond
	case 2:
		return lib.Pick(c, []time.Duration{time.Hour, 24 * time.Hour, time.Hour - 1*time.Millisecond, 24*time.Hour + time.Millisecond, 25 * time.Hour, 1000 * time.Hour})
	case 3:
		return time.Duration(1+c.Intn(600)) * time.Minute
	}
	return time.Duration(1+c.Intn(40000))*time.Millisecond + time.Second
}

// C04: option lists in any order, and histories whose steps fall on the instants around the deadlines.
func c04(r *lib.R) {
	ages(r)
	r.Bubble("deadlines", r.N(12000, 400000), func(c *lib.C) {
		kind := pickKind(c)
		o := randomOpts(c, kind)
		o.Max = 0
		if c.P(0.6) {
			var l []lib.Life
			for i, n := 0, c.Intn(5); i < n; i++ {
				l = append(l, lib.Life{Refresh: c.P(0.5), D: lifetime(c)})
			}
			o = o.WithLife(append([]lib.Life{}, l...))
			c.Add("option_lists", 1)
		}
		longest := o.Refresh
		clear := func(o *lib.Opts) {
			if o.Clear > 0 {
				o.Clear = longest/time.Duration(1+c.Intn(100)) + time.Duration(c.Intn(int(time.Millisecond)))
			}
		}
		clear(&o)
		if kind == "redis" && c.P(0.4) {
			o.Coder = lib.Pick(c, []sessionid.Coder{sessionid.GOBCoder{}, sessionid.JSONCoder{}, sessionid.XMLCoder{}})
		}
		unaligned := c.P(0.4)
		if unaligned {
			c.Sleep(time.Duration(c.Intn(int(time.Second))))
		}
		h := c.NewHist(kind, o)
		h.StatusOnly()
		if unaligned && kind == "redis" {
			h.Avoid = time.Millisecond + time.Microsecond
		}
		maybeManager(h)
		p := lib.Profile{Create: 10, Recreate: 4, Refresh: 12, BadRefresh: 8, Put: 8, Get: 6, Keys: 6, Delete: 5, Check: 10, Destroy: 1, DestroyTok: 1, Pass: 40, Tick: 6, Look: 12, Glance: 6, DataSpent: 2,
			IDs: []string{"u", "u1", "v"}, KeyPool: c.KeyNames(4), MaxPairs: 3, Sessions: 8}
		again := 0.0
		if c.P(0.4) {
			again = 0.05
		}
		for i, n := 0, 30+c.Intn(40); i < n; i++ {
			h.Step(p)
			if kind != "memory" && c.P(again) {
				// the sessions stored keep their instants, a refresh gives those of the new options
				o := o
				o.Life = nil
				if x := randomOpts(c, kind); (x.Access < time.Minute) == (o.Access < time.Minute) {
					o.Access, o.Refresh = x.Access, x.Refresh
				}
				if c.P(0.3) {
					o = o.WithLife([]lib.Life{{Refresh: c.P(0.5), D: lifetime(c)}})
				}
				longest = max(longest, o.Refresh)
				clear(&o)
				h.Reopen(o)
			}
		}
		h.Sweep()
		h.FinaleDeadlines()
		h.End()
	})
}

// ages: lifetimes of centuries, up to the longest duration there is, whose ends lie beyond what counts of nanoseconds can hold.
func ages(r *lib.R) {
	const year = 365 * 24 * time.Hour
	r.Bubble("ages", r.N(240, 12000), func(c *lib.C) {
		kind := pickKind(c)
		o := randomOpts(c, kind)
		o.Access = lib.Pick(c, []time.Duration{time.Hour, year, 100 * year, 250 * year, math.MaxInt64})
		o.Refresh = max(o.Access, lib.Pick(c, []time.Duration{180 * year, 200 * year, 240 * year, 290 * year, math.MaxInt64 - 1, math.MaxInt64}))
		o.Clear = 0
		if kind == "redis" && c.P(0.4) {
			o.Coder = lib.Pick(c, []sessionid.Coder{sessionid.GOBCoder{}, sessionid.JSONCoder{}, sessionid.XMLCoder{}})
		}
		h := c.NewHist(kind, o)
		h.StatusOnly()
		maybeManager(h)
		p := lib.Profile{Create: 10, Recreate: 4, Refresh: 12, BadRefresh: 6, Put: 8, Get: 6, Keys: 6, Delete: 5, Check: 10, Destroy: 1, DestroyTok: 1, Look: 12, Glance: 6,
			IDs: []string{"u", "u1", "v"}, KeyPool: c.KeyNames(4), MaxPairs: 3, Sessions: 8}
		for i, n := 0, 20+c.Intn(30); i < n; i++ {
			h.Step(p)
			if c.P(0.1) {
				c.Sleep(lib.Pick(c, []time.Duration{time.Millisecond, time.Hour, year / 12, year, 4 * year}))
			}
			if kind == "bolt" && c.P(0.05) {
				h.Reopen(o)
			}
		}
		c.Sig(kind, o)
		c.Add("centuries", 1)
		h.Sweep()
		h.E.Close()
	})
}

// C08: sessions at the limit.
func c08(r *lib.R) {
	largeLimit(r)
	epochs(r)
	multitude(r)
	r.Bubble("limit", r.N(12000, 400000), func(c *lib.C) {
		kind := lib.Kinds[c.I/c.Shards%2]
		o := randomOpts(c, kind)
		limit := func() int { return lib.Pick(c, []int{1, 1, 2, 2, 3, 4, 5, 7, 10, 0, -1}) }
		o.Max = limit()
		h := c.NewHist(kind, o)
		h.StatusOnly()
		maybeManager(h)
		p := lib.Profile{Create: 40, Recreate: 8, Refresh: 14, BadRefresh: 3, Put: 6, Get: 3, Keys: 2, Delete: 3, Check: 4, Destroy: 3, DestroyTok: 6, Pass: 6, Tick: 4, Look: 4, Glance: 12,
			IDs: []string{"u", "u1", "v"}, KeyPool: c.KeyNames(4), MaxPairs: 2}
		for i, n := 0, 20+c.Intn(60); i < n; i++ {
			h.Step(p)
			if kind == "bolt" && h.Mgr == nil && c.P(0.04) {
				o.Max = limit()
				o.Own = c.P(0.3)
				h.Reopen(o)
			}
			if kind == "bolt" && c.P(0.01) {
				h.Do(lib.Op{F: "Clear"})
			}
		}
		c.Add("evictions", h.M.Evicted)
		h.Sweep()
		h.FinaleEvict()
		h.End()
	})
}

// needles of a session: its tokens' unique parts and its data. The harness makes every one of them unique.
type marked struct {
	tok, ref, id string
	words        []string // values and keys that only this session holds
}

var serials = regexp.MustCompile("s[0-9]+z")

// C12: after every way for a session to end, nothing of it is found in the storage; and the storage does not grow.
func c12(r *lib.R) {
	r.Bubble("remains", r.N(5000, 150000), func(c *lib.C) {
		kind := pickKind(c)
		o := randomOpts(c, kind)
		if o.Clear == 0 && kind != "redis" && c.P(0.3) {
			o.Clear = o.Refresh/time.Duration(1+c.Intn(20)) + time.Duration(c.Intn(int(time.Millisecond)))
		}
		if kind != "redis" && c.P(0.4) {
			o.Max = 1 + c.Intn(5)
		}
		o.Own = false // the storage is walked while the provider is open
		h := c.NewHist(kind, o)
		h.StatusOnly()
		live := map[string]*marked{}
		serial := 0
		word := func() string { serial++; return fmt.Sprintf("w%d-%s", serial, c.Word(10)) }
		create := func() {
			m := &marked{id: lib.Pick(c, []string{"sharedA", "sharedB"})}
			if c.P(0.5) {
				m.id = "id" + word()
			}
			m.tok, m.ref = h.Token(m.id), h.Token(m.id)
			var kv []lib.KV
			for i, n := 0, c.Intn(4); i < n; i++ {
				k, v := word(), word()
				kv = append(kv, lib.KV{K: k, V: v})
				m.words = append(m.words, k, v)
			}
			h.CreateAs(m.tok, m.ref, kv...)
			live[m.tok] = m
		}
		gone := func(m *marked, needles []string, how string) {
			c.Settle()
			items := h.E.Walk()
			c.Add("walks", 1)
			c.Add("items_walked", len(items))
			for _, n := range needles {
				if w := lib.Find(items, n); len(w) > 0 {
					c.Failf("%s provider (%v): after %s, %q of the session %q is still retained in %v", kind, h.E.Opts, how, n, m.tok, w)
				}
			}
			idUsed := false
			for _, s := range h.M.Order {
				idUsed = idUsed || s.ID == m.id
			}
			if !idUsed && strings.HasPrefix(m.id, "id") {
				if w := lib.Find(items, m.id); len(w) > 0 {
					c.Failf("%s provider (%v): after %s, the id %q is still retained in %v", kind, h.E.Opts, how, m.id, w)
				}
			}
			c.Add("ended_"+strings.Fields(how)[0], 1)
		}
		all := func(m *marked) []string {
			part := func(t string) string { return t[strings.IndexByte(t, '.')+1:] }
			return append([]string{part(m.tok), part(m.ref)}, m.words...)
		}
		// reap checks what the model dropped since last time.
		reap := func(how string) {
			var list []*marked
			for t, m := range live {
				if h.M.By[t] == nil {
					list = append(list, m)
					delete(live, t)
				}
			}
			sort.Slice(list, func(i, j int) bool { return list[i].tok < list[j].tok })
			for _, m := range list {
				gone(m, all(m), how)
			}
		}
		expired := func() (dead []string) { // tokens past their refresh lifetime
			for t := range live {
				if s := h.M.By[t]; s != nil && !s.R.After(time.Now()) {
					dead = append(dead, t)
				}
			}
			sort.Strings(dead)
			return
		}
		for i, n := 0, 15+c.Intn(30); i < n && !h.Over; i++ {
			h.M.Expire(time.Now()) // all that died was looked at
			toks := h.M.Order
			if len(toks) == 0 {
				create()
				reap("eviction") // with a limit of one
				continue
			}
			t := toks[c.Intn(len(toks))].Tok
			m := live[t]
			switch c.Weighted(30, 12, 10, 12, 8, 20, 8, 4) {
			case 0:
				create()
				reap("eviction by the limit")
			case 1:
				nt, res := h.Refresh(t)
				if res.Err == lib.OK {
					part := func(t string) string { return t[strings.IndexByte(t, '.')+1:] }
					gone(m, []string{part(m.tok), part(m.ref)}, "refresh")
					delete(live, t)
					live[nt] = &marked{tok: nt, ref: h.Refs[nt], id: m.id, words: m.words}
				}
				reap("refresh of others")
			case 2:
				h.Do(lib.Op{F: "Destroy", ID: m.id})
				reap("Destroy")
			case 3:
				h.Do(lib.Op{F: "DestroyByToken", Tok: t})
				reap("DestroyByToken")
			case 4:
				var kv []lib.KV
				var keys, words []string
				for range lib.Pick(c, []int{1, 1, 1, 2, 1 + c.Intn(40)}) {
					k, v := word(), word()
					kv, keys, words = append(kv, lib.KV{K: k, V: v}), append(keys, k), append(words, k, v)
				}
				res := h.Do(lib.Op{F: "Put", Tok: t, Pairs: kv})
				if res.Err == lib.OK {
					if c.P(0.5) {
						h.Do(lib.Op{F: "Delete", Tok: t, Keys: keys})
						gone(&marked{tok: t, id: "x"}, words, "Delete of the key")
					} else {
						m.words = append(m.words, words...)
					}
				}
				reap("Put")
			case 5: // let some die, and trigger their removal
				before := len(live)
				h.Pass()
				dead := expired()
				if len(dead) == 0 {
					continue
				}
				if o.Clear > 0 && c.P(0.6) {
					c.Sleep(o.Clear + 1)
					for _, t := range dead {
						m := live[t]
						delete(live, t)
						gone(m, all(m), "clearing (periodic)")
					}
					dead = expired()
				}
				if kind == "redis" && c.P(0.3) {
					h.M.Expire(time.Now())
					reap("expiry in the server")
					continue
				}
				many := c.P(0.5)
				for _, t := range dead {
					m := live[t]
					f := lib.Pick(c, []string{"Check", "Get", "Keys", "Put", "Delete", "Refresh"})
					op := lib.Op{F: f, Tok: t}
					switch f {
					case "Get", "Delete":
						op.Keys = []string{"k"}
					case "Put":
						op.Pairs = []lib.KV{{K: "k", V: "v"}}
					case "Refresh":
						op.Ref, op.NTok, op.NRef = m.ref, h.Token(m.id), h.Token(m.id)
					}
					h.Do(op)
					if !many {
						delete(live, t)
						gone(m, all(m), f+" after the refresh lifetime")
					}
				}
				if many {
					c.Settle()
					reap("removal of several after the refresh lifetime")
				}
				c.Add("died", before-len(live))
			case 6:
				if c.P(0.3) {
					h.Glance()
				}
				h.Look(t)
				c.Settle()
			case 7: // re-creation under a stored token
				h.Do(lib.Op{F: "Put", Tok: t, Pairs: []lib.KV{{K: "replaced", V: "r" + m.tok}}})
				ref := m.ref
				words := m.words
				m2 := &marked{tok: t, id: m.id, ref: h.Token(m.id)}
				if h.M.By[t] != nil {
					h.CreateAs(t, m2.ref)
					live[t] = m2
					gone(m, append([]string{ref[strings.IndexByte(ref, '.')+1:]}, words...), "re-creation")
				}
				reap("re-creation")
			}
		}
		h.End()
	})
	r.Bubble("growth", r.N(300, 6000), func(c *lib.C) {
		kind := pickKind(c)
		o := randomOpts(c, kind)
		o.Own = false
		if kind != "redis" && c.P(0.5) {
			o.Max = 2 + c.Intn(4)
		}
		c.NoLeak()
		h := c.NewHist(kind, o)
		h.StatusOnly()
		for i := 0; i < 2; i++ {
			h.Create("stay")
		}
		size := func() (n, b int) {
			c.Settle()
			for _, it := range h.E.Walk() {
				n++
				b += len(it.Text)
			}
			return
		}
		cycle := func(i int) {
			id := lib.Pick(c, []string{"stay", fmt.Sprintf("id%06d", i)})
			t := h.Create(id, lib.KV{K: "k", V: c.Word(20)})
			switch c.Intn(4) {
			case 0:
				h.Do(lib.Op{F: "DestroyByToken", Tok: t})
			case 1:
				if id != "stay" {
					h.Do(lib.Op{F: "Destroy", ID: id})
				}
				h.Do(lib.Op{F: "DestroyByToken", Tok: t})
			case 2:
				nt, _ := h.Refresh(t)
				h.Do(lib.Op{F: "DestroyByToken", Tok: nt})
			case 3:
				c.Sleep(h.M.Refresh)
				h.Do(lib.Op{F: lib.Pick(c, []string{"Check", "Keys", "Put", "Delete"}), Tok: t})
				for _, x := range h.Known[max(0, len(h.Known)-6):] {
					h.Do(lib.Op{F: "Check", Tok: x})
				}
				c.Settle()
				for len(h.M.Order) < 2 {
					h.Create("stay")
				}
			}
		}
		for i := 0; i < 10; i++ {
			cycle(i)
		}
		h.M.Expire(time.Now())
		// A known state: two fresh sessions, everything else destroyed.
		level := func() (int, int) {
			for _, t := range h.Known {
				h.Do(lib.Op{F: "DestroyByToken", Tok: t})
			}
			h.Known = nil
			for i := 0; i < 2; i++ {
				h.CreateAs("stay.AAAAAA000"+fmt.Sprint(i)+".AAAAAAAA", "stay.BBBBBB000"+fmt.Sprint(i)+".BBBBBBBB", lib.KV{K: "k", V: "v"})
			}
			return size()
		}
		n0, b0 := level()
		for i := 10; i < 60; i++ {
			cycle(i)
		}
		n1, b1 := level()
		c.Add("growth_sessions_ended", 60)
		if n1 > n0 || b1 > b0+64 {
			c.Failf("%s provider (%v): the storage in use grew from %d items, %d bytes to %d items, %d bytes over 50 sessions that ended", kind, o, n0, b0, n1, b1)
		}
		h.E.Close()
	})
	r.Bubble("crowd", r.N(60, 1500), func(c *lib.C) {
		// Many sessions that die together or one after the other, cleared at once.
		kind := lib.Kinds[c.I/c.Shards%2]
		o := lib.Opts{Access: time.Hour, Refresh: 2 * time.Hour}
		how := c.Intn(2)
		if how == 0 {
			o.Clear = 10 * time.Minute
		} else {
			o.SetBatch, o.Batch = true, lib.Pick(c, []int{0, 1, 2, 16, 128, 1000, 5000})
		}
		h := c.NewHist(kind, o)
		h.StatusOnly()
		n := 100 + c.Intn(lib.Pick(c, []int{900, 900, 3000}))
		var dying, staying []string
		for i := 0; i < n; i++ {
			dying = append(dying, h.Create(fmt.Sprint("user", i%37), lib.KV{K: "key", V: c.Word(c.Intn(60))}))
			if c.P(0.1) {
				c.Sleep(time.Second)
			}
		}
		c.Sleep(o.Access)
		for i := 0; i < 20; i++ {
			staying = append(staying, h.Create(fmt.Sprint("user", i%37)))
		}
		c.Sleep(o.Access + o.Clear + 1)
		if how == 1 && c.P(0.5) {
			// Many at once, faster than what removes them.
			if c.P(0.8) {
				c.Chaos(0.1, lib.Pick(c, []time.Duration{1000, 100 * time.Microsecond, 10 * time.Millisecond}))
			}
			at := 0
			var fs []func()
			for range 30 {
				from := at
				at += (n + 29) / 30
				part := dying[min(from, n):min(at, n)]
				fs = append(fs, func() {
					for _, t := range part {
						h.E.P.Check(context.Background(), t)
					}
				})
			}
			c.Par("Check of the dead", fs...)
			c.Calm()
			c.Sleep(time.Minute) // what was held up goes on
			h.M.Expire(time.Now())
			c.Settle()
			c.Add("crowds_checked_at_once", 1)
		} else if how == 1 {
			for _, t := range dying {
				h.Do(lib.Op{F: lib.Pick(c, []string{"Check", "Keys"}), Tok: t})
			}
			c.Settle()
		}
		items := h.E.Walk()
		text := map[string]string{}
		for _, it := range items {
			for _, t := range strings.FieldsFunc(it.Text, func(r rune) bool {
				return !strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.", r)
			}) {
				text[t] = it.Where
			}
		}
		for _, t := range dying {
			if w := text[t]; w != "" {
				c.Failf("%s provider (%v): %d sessions died and were to be removed, %q is still retained in %s", kind, o, n, t, w)
			}
		}
		for _, t := range staying {
			h.Do(lib.Op{F: "Check", Tok: t})
		}
		c.Add("crowds", 1)
		h.E.Close()
	})
	r.Bubble("company", r.N(90, 3000), func(c *lib.C) {
		// Many sessions of one id, which end one by one.
		kind := pickKind(c)
		o := lib.Opts{Access: time.Hour, Refresh: 24 * time.Hour}
		n := 10 + c.Intn(lib.Pick(c, []int{70, 300, 1300}))
		if kind != "redis" && c.P(0.3) {
			o.Max = n/2 + c.Intn(n/2)
		}
		e := c.Open(kind, o)
		ctx := context.Background()
		must := func(what string, err error) {
			if err != nil {
				c.Failf("%s provider (%v): %s of one of %d sessions of one id returned %v", kind, o, what, n, err)
			}
		}
		serial := 0
		name := func() string { serial++; return fmt.Sprintf("s%dz", serial) }
		type member struct{ t, r string } // the middle parts of its tokens, by which its remains are found
		var live []member
		ended := map[string]bool{}
		end := func(i int) {
			ended[live[i].t], ended[live[i].r] = true, true
			live = slices.Delete(live, i, i+1)
		}
		create := func() {
			m := member{name(), name()}
			must("Create", e.P.Create(ctx, "one."+m.t+".x", "one."+m.r+".x", []sessionid.PairBytes{{Key: m.t, Value: []byte(m.r)}}))
			live = append(live, m)
			if o.Max > 0 && len(live) > o.Max {
				end(0)
			}
		}
		for range n {
			create()
		}
		calls := 5 + c.Intn(40)
		if c.P(0.2) {
			calls = n
		}
		for range calls {
			if len(live) == 0 {
				create()
			}
			i := c.Intn(len(live))
			switch c.Intn(4) {
			case 0, 1:
				must("DestroyByToken", e.P.DestroyByToken(ctx, "one."+live[i].t+".x"))
				end(i)
			case 2:
				m := member{name(), name()}
				must("Refresh", e.P.Refresh(ctx, "one."+live[i].t+".x", "one."+live[i].r+".x", "one."+m.t+".x", "one."+m.r+".x"))
				must("Delete", e.P.Delete(ctx, "one."+m.t+".x", []string{live[i].t}))
				must("Put", e.P.Put(ctx, "one."+m.t+".x", []sessionid.PairBytes{{Key: m.t, Value: []byte(m.r)}}))
				end(i)
				live = append(live, m)
			case 3:
				create()
			}
		}
		look := func(after string) {
			c.Settle()
			for _, it := range e.Walk() {
				for _, s := range serials.FindAllString(it.Text, -1) {
					if ended[s] {
						c.Failf("%s provider (%v): of %d sessions of one id, %s of one that has ended is still retained in %s after %s", kind, o, n, s, it.Where, after)
					}
				}
			}
			for _, m := range live {
				must("Check", e.P.Check(ctx, "one."+m.t+".x"))
			}
			c.Add("companies_walked", 1)
		}
		look("the end of some")
		must("Destroy", e.P.Destroy(ctx, "one"))
		for len(live) > 0 {
			end(0)
		}
		look("Destroy of the id")
		c.Sig(kind, n, calls, o.Max)
		c.Add("sessions_in_companies", n)
		e.Close()
	})
	r.Bubble("relifetimes", r.N(300, 6000), func(c *lib.C) {
		// A bolt store reopened with shorter lifetimes: sessions die in another order than they were made.
		o := lib.Opts{Access: time.Hour, Refresh: 10 * time.Hour, Clear: time.Minute}
		h := c.NewHist("bolt", o)
		h.StatusOnly()
		for i, n := 0, 1+c.Intn(4); i < n; i++ {
			h.Create("long" + fmt.Sprint(i))
		}
		o.Access, o.Refresh = time.Minute, time.Duration(2+c.Intn(60))*time.Minute
		h.Reopen(o)
		if h.E.DB == nil {
			h.E.DB = h.E.OpenDB()
		}
		var short []string
		for i, n := 0, 1+c.Intn(4); i < n; i++ {
			short = append(short, h.Create("short"+fmt.Sprint(i), lib.KV{K: "key", V: "val"}))
		}
		c.Sleep(o.Refresh + o.Clear + 1)
		items := h.E.Walk()
		for _, t := range short {
			if w := lib.Find(items, t); len(w) > 0 {
				c.Failf("bolt provider (%v) on a store that holds sessions with longer lifetimes: after periodic clearing %q is still retained in %v", o, t, w)
			}
		}
		h.Sweep()
		h.E.Close()
	})
}

// C20: Clear in every state.
func c20(r *lib.R) {
	largeClear(r)
	r.Bubble("clear", r.N(6000, 200000), func(c *lib.C) {
		o := randomOpts(c, "bolt")
		if c.P(0.5) {
			o.Max = 1 + c.Intn(5)
		}
		h := c.NewHist("bolt", o)
		p := lib.Profile{Create: 30, Recreate: 4, Refresh: 10, BadRefresh: 2, Put: 8, Get: 3, Delete: 3, Destroy: 3, DestroyTok: 4, Pass: 8, Look: 4, Glance: 6,
			IDs: []string{"u", "u1", "v"}, KeyPool: c.KeyNames(4), MaxPairs: 4, Many: 0.03, Big: 0.03}
		clear := func() {
			var tokens []string
			for _, s := range h.M.Order {
				tokens = append(tokens, s.Tok, s.Ref)
			}
			h.Do(lib.Op{F: "Clear"})
			c.Add("clears", 1)
			if len(tokens) == 0 {
				c.Add("clears_of_an_empty_store", 1)
			}
			h.Glance()
			if h.E.DB != nil {
				items := h.E.Walk()
				for _, t := range tokens {
					if w := lib.Find(items, t); len(w) > 0 {
						c.Failf("bolt provider (%v): after Clear %q is still retained in %v", h.E.Opts, t, w)
					}
				}
			}
		}
		reopen := func() {
			o.Own = c.P(0.3)
			if c.P(0.6) {
				o.Max = lib.Pick(c, []int{0, 0, -1, 1, 2, 3, 5})
			}
			h.Reopen(o)
		}
		if c.P(0.3) {
			clear()
		}
		for i, n := 0, 20+c.Intn(50); i < n; i++ {
			h.Step(p)
			if c.P(0.06) {
				clear()
				if c.P(0.3) {
					clear()
				}
				if c.P(0.3) {
					reopen()
				}
				if c.P(0.3) {
					// the limit counts from zero
					for j := 0; j < h.M.Max; j++ {
						h.Create("fresh")
					}
					h.Glance()
				}
			}
			if c.P(0.03) {
				reopen()
			}
		}
		h.Finale()
		if c.P(0.7) {
			h.Do(lib.Op{F: "Close"})
			for i := 0; i < 2; i++ {
				h.Do(lib.Op{F: "Clear"})
				h.Do(lib.Op{F: "Close"})
				h.Do(lib.Op{F: "Check", Tok: "a.b.c"})
			}
			// the sessions of a closed provider's store are not cleared
			if c.P(0.5) {
				h.M.Closed = false
				h.E.Start(o)
				h.Sweep()
			}
		}
		h.E.Close()
	})
}

// C21: reads and calls that must fail, amid a little that changes things; the finale observes what they may have moved.
func c21(r *lib.R) {
	r.Bubble("inert", r.N(12000, 400000), func(c *lib.C) {
		kind := pickKind(c)
		o := randomOpts(c, kind)
		if kind != "redis" && c.P(0.6) {
			o.Max = 1 + c.Intn(5)
		}
		h := c.NewHist(kind, o)
		similar(h)
		p := lib.Profile{Create: 8, Recreate: 1, Refresh: 4, BadRefresh: 20, Put: 3, Get: 16, Keys: 10, Delete: 2, Check: 12, Destroy: 1, DestroyTok: 1, Pass: 5, Tick: 5, Look: 12, Malformed: 16, DataSpent: 12,
			IDs: []string{"u", "u1", "v"}, KeyPool: c.KeyNames(5), MaxPairs: 3, Sessions: 10}
		for i, n := 0, 30+c.Intn(40); i < n; i++ {
			h.Step(p)
			if c.P(0.08) && len(h.Known) > 0 {
				refused(h)
			}
		}
		h.End()
	})
	again(r, r.N(400, 12000), true)
	r.Bubble("unencodable", r.N(3000, 60000), func(c *lib.C) {
		kind := pickKind(c)
		o := randomOpts(c, kind)
		if kind != "redis" && c.P(0.6) {
			o.Max = 1 + c.Intn(5)
		}
		h := c.NewHist(kind, o)
		h.UseManager(lib.Pick(c, methods), []byte("key"))
		p := lib.Profile{Create: 20, Refresh: 4, Put: 10, Get: 6, Keys: 4, Check: 6, DestroyTok: 1, Pass: 3, Look: 6,
			IDs: []string{"u", "u1", ""}, KeyPool: []string{"a", "b", "c"}, MaxPairs: 3, Sessions: 8}
		if kind == "bolt" {
			p.IDs = p.IDs[:2]
		}
		for i, n := 0, 15+c.Intn(20); i < n && !h.Over; i++ {
			h.Step(p)
			if c.P(0.3) {
				unencodable(h)
			}
		}
		h.End()
	})
}

// C19: names that collide with the providers' own bookkeeping.
func c19(r *lib.R) {
	r.Bubble("names", r.N(12000, 400000), func(c *lib.C) {
		kind := pickKind(c)
		o := randomOpts(c, kind)
		if kind == "redis" && c.P(0.5) {
			o.MetaKey = ptr(lib.Pick(c, []string{"m", "metadata", "k", "\x00", "*", "a.b.c", "long" + strings.Repeat("x", 300)}))
		}
		if kind == "redis" && c.P(0.5) {
			o.Prefix = ptr(lib.Pick(c, []string{"", "p", "p.", "metadata.", "*", "[a]", "a.b."}))
		}
		if kind == "bolt" && c.P(0.3) {
			o.Bucket = lib.Pick(c, []string{"metadata", "data", "ids", "lru", "count", "b"})
		}
		h := c.NewHist(kind, o)
		similar(h)
		names := []string{"metadata", "data", "ids", "lru", "count", "__private_provider_redis", "sessionid", "sessionid.provider.redis.", "Access", "Refresh", "AccessDeadline", "RefreshDeadline", "LRU", "ID",
			"\x00\x00\x00\x00\x00\x00\x00\x01", "\x00\x00\x00\x00\x00\x00\x00\x02", "\x00"}
		if h.M.Reserved != "" {
			names = append(names, h.M.Reserved, h.M.Reserved, h.M.Reserved+"x", h.M.Reserved[:len(h.M.Reserved)-1], strings.ToUpper(h.M.Reserved), strings.Title(h.M.Reserved),
				" "+h.M.Reserved, h.M.Reserved+" ", " "+h.M.Reserved+" ", h.M.Reserved+"\n", "\t"+h.M.Reserved, h.M.Reserved+"\x00", h.M.Reserved+h.M.Reserved, h.M.Reserved[1:], "x"+h.M.Reserved)
		}
		if kind == "bolt" {
			names = append(names, "")
		}
		ids := []string{"metadata", "data", "ids", "lru", "count", "__private_provider_redis", "\x00\x00\x00\x00\x00\x00\x00\x01", "p", "", "sessionid"}
		p := lib.Profile{Create: 14, Recreate: 4, Refresh: 10, BadRefresh: 3, Put: 30, Get: 16, Keys: 10, Delete: 20, Check: 3, Destroy: 4, DestroyTok: 3, Pass: 4, Look: 16, Glance: 3, DataSpent: 3,
			IDs: ids, KeyPool: names, MaxPairs: 3, Sessions: 10}
		for i, n := 0, 30+c.Intn(40); i < n && !h.Over; i++ {
			// the session's own and others' tokens and ids as keys
			if len(h.Known) > 0 && c.P(0.3) {
				t := h.Known[c.Intn(len(h.Known))]
				id, _ := lib.SplitToken(t)
				p.KeyPool = append(names[:len(names):len(names)], t, h.Refs[t], id, o.KeyName(t))
			}
			if c.P(0.15) {
				// tokens made of internal names
				parts := func() string {
					return lib.Pick(c, ids) + "." + lib.Pick(c, names) + "." + lib.Pick(c, names)
				}
				t, id := parts(), ""
				if _, ok := lib.SplitToken(t); ok {
					id, _ = lib.SplitToken(t)
					if h.M.By[t] == nil {
						h.CreateAs(t, h.Token(id), lib.KV{K: "k", V: "v"})
					}
				}
			}
			h.Step(p)
			h.C.Add("hostile_names_used", 1)
		}
		h.End()
	})
}

func ptr[T any](v T) *T { return &v }
