package checks

import (
	"context"
	"fmt"
	"strings"
	"time"

	"verif.local/h/lib"
)

// large drives stores that hold many sessions, where an index, a page or an order of hundreds of entries matters.
func large(r *lib.R, n int, kinds []string, limited float64, focus func(c *lib.C, h *lib.Hist, o lib.Opts)) {
	r.Bubble("large", n, func(c *lib.C) {
		kind := lib.Pick(c, kinds)
		o := randomOpts(c, kind)
		o.Max, o.Clear = 0, 0
		n := 60 + c.Intn(500)
		if c.I/c.Shards%4 == 3 && c.I%c.Shards < 2 {
			n = 1000 + c.Intn(1500)
		}
		if kind != "redis" && c.P(limited) {
			o.Max = 1 + c.Intn(n)
		}
		h := c.NewHist(kind, o)
		ids := 1 + c.Intn(lib.Pick(c, []int{3, 40, 400}))
		id := func() string { return fmt.Sprint("user", c.Intn(ids)) }
		var toks []string
		for i := 0; i < n; i++ {
			var kv []lib.KV
			for j := c.Intn(3); j > 0; j-- {
				kv = append(kv, lib.KV{K: c.Word(1 + c.Intn(3)), V: c.Word(c.Intn(40))})
			}
			toks = append(toks, h.Create(id(), kv...))
			if c.P(0.2) {
				i := c.Intn(len(toks))
				if nt, res := h.Refresh(toks[i]); res.Err == lib.OK {
					toks[i] = nt
				}
			}
			if c.P(0.1) {
				h.Do(lib.Op{F: "DestroyByToken", Tok: lib.Pick(c, toks)})
			}
		}
		c.Sig(kind, n, ids)
		c.Add("large_stores", 1)
		c.Add("sessions_in_large_stores", len(h.M.Order))
		focus(c, h, o)
		h.Glance()
		for i := 0; i < 10; i++ {
			h.Look(lib.Pick(c, toks))
		}
		h.Create(id(), lib.KV{K: "k", V: "v"})
		h.Glance()
		h.E.Close()
	})
}

// The uses of it, by property.
func largeData(r *lib.R) {
	large(r, r.N(60, 3000), lib.Kinds, 0.1, func(c *lib.C, h *lib.Hist, o lib.Opts) { h.Sweep() })
}

func largeRefresh(r *lib.R) {
	large(r, r.N(60, 3000), lib.Kinds, 0.1, func(c *lib.C, h *lib.Hist, o lib.Opts) { h.FinaleRefresh() })
}

func largeDestroy(r *lib.R) {
	large(r, r.N(60, 3000), lib.Kinds, 0.1, func(c *lib.C, h *lib.Hist, o lib.Opts) {
		for i := 0; i < 4; i++ {
			id := "user" + fmt.Sprint(c.Intn(10))
			if c.P(0.7) && len(h.M.Order) > 0 {
				id = lib.Pick(c, h.M.Order).ID
			}
			h.Do(lib.Op{F: "Destroy", ID: id})
			h.Glance()
		}
	})
}

func largeLimit(r *lib.R) {
	large(r, r.N(60, 3000), []string{"memory", "bolt"}, 0.7, func(c *lib.C, h *lib.Hist, o lib.Opts) {
		for i := 1 + c.Intn(2); i > 0 && h.E.Kind == "bolt"; i-- {
			o.Max = 1 + c.Intn(len(h.M.Order)+1)
			h.Reopen(o)
			h.Create("next", lib.KV{K: "k", V: "v"})
			h.Glance()
		}
		h.FinaleEvict()
	})
}

func largeClear(r *lib.R) {
	large(r, r.N(60, 3000), []string{"bolt"}, 0.3, func(c *lib.C, h *lib.Hist, o lib.Opts) {
		h.Do(lib.Op{F: "Clear"})
		h.Glance()
		if h.E.DB != nil {
			items := h.E.Walk()
			for _, t := range h.Known {
				if w := lib.Find(items, t); len(w) > 0 {
					c.Failf("bolt provider (%v): after Clear %q is still retained in %v", h.E.Opts, t, w)
				}
			}
		}
		h.FinaleEvict()
	})
}

// rich drives sessions with thousands of pairs, values of megabytes and calls with as many keys.
func rich(r *lib.R, n int, refreshes float64) {
	r.Bubble("rich", n, func(c *lib.C) {
		kind := pickKind(c)
		o := randomOpts(c, kind)
		o.Access, o.Refresh, o.Clear = time.Hour, 24*time.Hour, 0
		h := c.NewHist(kind, o)
		maybeManager(h)
		most := lib.Pick(c, []int{300, 1100, 2100, 5000})
		pairs := func() (kv []lib.KV) {
			big := c.Intn(3)
			for i, n := 0, c.Intn(most); i < n; i++ {
				v := c.Word(c.Intn(12))
				if big > 0 && c.P(0.002) {
					big--
					v = string(c.Bytes(lib.Pick(c, []int{65535, 65536, 65537, 200000, 1<<20 + 1, 3 << 20})))
				}
				k := fmt.Sprint("key", c.Intn(2*most))
				if kind != "bolt" && c.P(0.0005) {
					k += strings.Repeat("-", lib.Pick(c, []int{65536, 1 << 20, 3 << 20}))
				}
				kv = append(kv, lib.KV{K: k, V: v})
			}
			return
		}
		keys := func(n int) (l []string) {
			for i := 0; i < n; i++ {
				l = append(l, fmt.Sprint("key", c.Intn(2*most)))
			}
			return
		}
		toks := []string{h.Create("u", pairs()...), h.Create("u", pairs()...), h.Create("v")}
		for i, n := 0, 4+c.Intn(8); i < n; i++ {
			t := c.Intn(len(toks))
			switch {
			case c.P(refreshes):
				if nt, res := h.Refresh(toks[t]); res.Err == lib.OK {
					toks[t] = nt
				}
			case c.P(0.4):
				h.Do(lib.Op{F: "Put", Tok: toks[t], Pairs: pairs()})
			case c.P(0.5):
				h.Do(lib.Op{F: "Delete", Tok: toks[t], Keys: keys(c.Intn(most))})
			case c.P(0.5):
				h.Do(lib.Op{F: "Get", Tok: toks[t], Keys: keys(c.Intn(2 * most))})
			case kind == "bolt" && c.P(0.3):
				h.Reopen(o)
			case c.P(0.3):
				toks[t] = h.Create(lib.Pick(c, []string{"u", "v"}), pairs()...)
			}
			h.Look(toks[t])
		}
		c.Sig(kind, most)
		c.Add("rich_sessions", 1)
		h.Sweep()
		h.E.Close()
	})
}

// epochs makes more sessions one after the other than counters of two bytes can tell apart, under a small limit.
func epochs(r *lib.R) {
	ctx := context.Background()
	r.Bubble("epochs", r.N(8, 32), func(c *lib.C) {
		kind := []string{"bolt", "memory"}[c.I%2]
		o := lib.Opts{Access: time.Hour, Refresh: 24 * time.Hour, Max: 3 + c.Intn(8)}
		h := c.NewHist(kind, o)
		n := lib.Pick(c, []int{65536, 65536, 131072, 66000}) - c.Intn(20)
		if kind == "bolt" && !r.Thorough {
			n = 65536 - c.Intn(20)
		}
		// a few destroyed and refreshed ones in between, the others evicted; all of it well before the history that is judged
		tok := func(i int) string { return fmt.Sprintf("u%d.e%d.x", i%7, i) }
		for i := 0; i < n; i++ {
			t := tok(i)
			if e := h.E.P.Create(ctx, t, t+"r", nil); e != nil {
				c.Failf("%s provider (%v): Create number %d returned %v", kind, o, i, e)
			}
		}
		for i := n - 2*o.Max; i < n; i++ {
			e := h.E.P.Check(ctx, tok(i))
			if (e == nil) != (i >= n-o.Max) {
				c.Failf("%s provider (%v): after %d creates, that of number %d is answered %v", kind, o, n, i, e)
			}
		}
		for i := 0; i < 7; i++ {
			if e := h.E.P.Destroy(ctx, fmt.Sprint("u", i)); e != nil {
				c.Failf("%s provider (%v): Destroy returned %v", kind, o, e)
			}
		}
		var toks []string
		for i := 0; i < 40; i++ {
			toks = append(toks, h.Create("u"))
			if c.P(0.3) {
				h.Refresh(lib.Pick(c, toks))
			}
			if kind == "bolt" && c.P(0.05) {
				h.Reopen(o)
			}
			h.Glance()
		}
		c.Sig(kind, n)
		c.Add("sessions_in_epochs", n)
		h.FinaleEvict()
		h.E.Close()
	})
}

// long drives one to three sessions through thousands of calls: a long life, kept by refreshes.
func long(r *lib.R, n int, refreshes, waits float64) {
	r.Bubble("long", n, func(c *lib.C) {
		kind := pickKind(c)
		o := randomOpts(c, kind)
		o.Clear = 0
		if c.P(0.3) && kind != "redis" {
			o.Clear = o.Refresh
		}
		h := c.NewHist(kind, o)
		maybeManager(h)
		calls := lib.Pick(c, []int{150, 500, 1200, 3500})
		if kind == "bolt" && !r.Thorough {
			calls = min(calls, 1200)
		}
		var pool []string
		for _, k := range c.KeyNames(6) {
			if len(k) < 1000 {
				pool = append(pool, k)
			}
		}
		pool = append(pool, "a", "b")
		var toks []string
		for i := 1 + c.Intn(3); i > 0; i-- {
			toks = append(toks, h.Create(lib.Pick(c, []string{"u", "v"}), lib.KV{K: "a", V: c.Word(3)}))
		}
		first := toks[0]
		for i := 0; i < calls; i++ {
			t := 0
			if c.P(0.3) {
				t = c.Intn(len(toks))
			}
			switch {
			case c.P(waits):
				h.C.Sleep(time.Duration(c.Rng.Int64N(int64(o.Access))).Truncate(h.Quantum()))
			case c.P(refreshes):
				old := toks[t]
				if nt, res := h.Refresh(old); res.Err == lib.OK {
					toks[t] = nt
					h.Do(lib.Op{F: "Check", Tok: old})
				} else if h.M.By[old] == nil {
					toks[t] = h.Create(lib.Pick(c, []string{"u", "v"}), lib.KV{K: "a", V: c.Word(3)})
				}
			case c.P(0.65):
				kv := []lib.KV{{K: lib.Pick(c, pool), V: c.Word(c.Intn(5))}}
				if c.P(0.2) {
					kv = append(kv, lib.KV{K: lib.Pick(c, pool), V: fmt.Sprint(i)})
				}
				h.Do(lib.Op{F: "Put", Tok: toks[t], Pairs: kv})
			case c.P(0.5):
				h.Do(lib.Op{F: "Delete", Tok: toks[t], Keys: []string{lib.Pick(c, pool)}})
			case c.P(0.1):
				h.Do(lib.Op{F: "Check", Tok: first})
			}
			h.Do(lib.Op{F: "Get", Tok: toks[t], Keys: pool})
			if c.P(0.1) {
				h.Look(toks[c.Intn(len(toks))])
			}
		}
		c.Sig(kind, calls, o)
		c.Add("calls_in_long_lives", h.Calls())
		if c.P(0.5) {
			h.FinaleDeadlines()
		} else {
			h.FinaleDestroy()
		}
		h.E.Close()
	})
}

// crowd puts hundreds or thousands of sessions under one id.
func crowd(r *lib.R, n int) {
	r.Bubble("crowd", n, func(c *lib.C) {
		kind := pickKind(c)
		o := randomOpts(c, kind)
		o.Max, o.Clear = 0, 0
		h := c.NewHist(kind, o)
		maybeManager(h)
		n := lib.Pick(c, []int{300, 700, 1100, 2600})
		if kind == "bolt" && !r.Thorough {
			n = min(n, 1100)
		}
		var toks []string
		h.Create("user1")
		for i := 0; i < n; i++ {
			toks = append(toks, h.Create("user", lib.KV{K: "k", V: c.Word(2)}))
		}
		h.Create("user2")
		for i := c.Intn(40); i > 0; i-- {
			// the latest ones, the first ones and any
			j := lib.Pick(c, []int{len(toks) - 1 - c.Intn(10), c.Intn(10), c.Intn(len(toks))})
			if c.P(0.5) {
				if nt, res := h.Refresh(toks[j]); res.Err == lib.OK {
					toks[j] = nt
				}
			} else {
				h.Do(lib.Op{F: "DestroyByToken", Tok: toks[j]})
			}
			h.Look(toks[c.Intn(len(toks))])
		}
		c.Sig(kind, n)
		c.Add("sessions_of_one_id", n)
		h.Glance()
		h.Do(lib.Op{F: "Destroy", ID: "user"})
		h.Glance()
		h.Create("user")
		h.Do(lib.Op{F: "Destroy", ID: "user"})
		h.Glance()
		h.E.Close()
	})
}

// multitude holds more sessions than the histories with a model can, without a limit or with one as large.
func multitude(r *lib.R) {
	ctx := context.Background()
	r.Bubble("multitude", r.N(8, 40), func(c *lib.C) {
		kind := []string{"memory", "bolt", "memory", "redis"}[c.I%4]
		o := lib.Opts{Access: time.Hour, Refresh: 24 * time.Hour}
		n := map[string]int{"memory": 70000, "bolt": 6000, "redis": 12000}[kind]
		if r.Thorough {
			n *= 1 + c.Intn(map[string]int{"memory": 4, "bolt": 12, "redis": 4}[kind])
		}
		n -= c.Intn(1000)
		if c.I%8 < 4 && kind != "redis" {
			o.Max = n/2 + c.Intn(n/2) - 2*(c.I%2)
		}
		e := c.Open(kind, o)
		gone := -1
		tok := func(i int) string { return fmt.Sprintf("u%d.m%d.x", i%(n/4), i) }
		kept := func(from, to int) {
			for i := 0; i < n; i++ {
				if e := e.P.Check(ctx, tok(i)); (e == nil) != (i >= from && i < to && i%(n/4) != gone) {
					c.Failf("%s provider (%v): of %d sessions, of which those from %d up to %d are left, the ones of a destroyed id apart, number %d is answered %v", kind, o, n, from, to, i, e)
				}
			}
		}
		for i := 0; i < n; i++ {
			t := tok(i)
			if e := e.P.Create(ctx, t, t+"r", nil); e != nil {
				c.Failf("%s provider (%v): Create number %d returned %v", kind, o, i, e)
			}
		}
		c.Sig(kind, n, o.Max)
		c.Add("sessions_in_multitudes", n)
		from := 0
		if o.Max > 0 {
			from = n - o.Max
		}
		kept(from, n)
		gone = c.Intn(n / 4)
		if err := e.P.Destroy(ctx, fmt.Sprint("u", gone)); err != nil {
			c.Failf("%s provider (%v): Destroy returned %v", kind, o, err)
		}
		kept(from, n)
		e.Close()
	})
}
