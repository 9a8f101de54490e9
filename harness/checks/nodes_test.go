package checks

import (
	"time"

	"github.com/powerpuffpenguin/sessionid"

	"verif.local/h/lib"
)

func init() {
	all["C23"] = c23
}

// nodeOpts makes the options of further providers on the storage of one: of their own, but with a limit on any of them
// the lifetimes are the same, so that the sessions that ended are the oldest.
func nodeOpts(c *lib.C, kind string, o lib.Opts, n int) (out []lib.Opts) {
	limits := kind == "bolt" && c.P(0.4)
	for i := 0; i <= n; i++ {
		x := randomOpts(c, kind)
		x.Own, x.Max = false, 0
		if (x.Access == time.Hour) != (o.Access == time.Hour) || limits {
			x.Access, x.Refresh = o.Access, o.Refresh
			if x.Clear > 0 {
				x.Clear = x.Refresh/time.Duration(1+c.Intn(100)) + time.Duration(c.Intn(int(time.Millisecond)))
			}
		}
		if limits && c.P(0.7) {
			x.Max = 2 + c.Intn(6)
		}
		x.Skew = o.Skew
		out = append(out, x)
	}
	return
}

// C23: several providers on one bucket or one server act as one.
func c23(r *lib.R) {
	r.Bubble("nodes", r.N(8000, 250000), func(c *lib.C) {
		c.NoLeak()
		kind := lib.Kinds[1+c.I/c.Shards%2]
		o := randomOpts(c, kind)
		o.Own, o.Max = false, 0
		if kind == "redis" && c.P(0.3) {
			o.Skew = time.Duration(c.Intn(20)) * time.Second
		}
		opts := nodeOpts(c, kind, o, 1+c.Intn(3))
		o = opts[0]
		h := c.NewHist(kind, o)
		h.Spread(opts[1:]...)
		if c.P(0.3) {
			h.SpreadManagers(lib.Pick(c, methods), c.Bytes(1+c.Intn(40)))
			c.Add("cases_through_managers", 1)
		}
		similar(h)
		p := lib.Profile{Create: 20, Recreate: 5, Refresh: 14, BadRefresh: 5, Put: 16, Get: 8, Keys: 4, Delete: 8, Check: 4, Destroy: 5, DestroyTok: 5, Pass: 7, Tick: 2, Look: 6, Glance: 3, DataSpent: 2,
			IDs: []string{"u", "u1", "v", "*"}, KeyPool: c.KeyNames(4), MaxPairs: 4, Big: 0.03, Many: 0.01, Sessions: 12}
		for i, n := 0, 25+c.Intn(50); i < n; i++ {
			switch {
			case c.P(0.03):
				j := c.Intn(len(h.Nodes))
				x := h.Nodes[j].Opts
				if c.P(0.5) {
					y := nodeOpts(c, kind, o, 0)[0]
					x.Batch, x.SetBatch = y.Batch, y.SetBatch
				}
				h.Restart(j, x)
			case kind == "bolt" && c.P(0.02):
				h.Do(lib.Op{F: "Clear"})
			default:
				h.Step(p)
			}
		}
		h.Finale()
		nodesReclaimed(h)
		h.CloseNodes()
	})
	r.Bubble("parallel", r.N(3000, 120000), func(c *lib.C) {
		kind := lib.Kinds[1+c.I/c.Shards%2]
		o := concOpts(c, kind)
		h := c.NewHist(kind, o)
		var opts []lib.Opts
		for i, n := 0, 1+c.Intn(3); i < n; i++ {
			x := concOpts(c, kind)
			x.Access, x.Refresh, x.Skew, x.Max = o.Access, o.Refresh, o.Skew, o.Max
			if o.Access == time.Hour {
				x.Clear = 0
			}
			opts = append(opts, x)
		}
		ids := []string{"u", "u1", "v"}[:1+c.Intn(3)]
		live, expired, dead := prelude(h, ids)
		h.Spread(opts...)
		nodes := h.Nodes
		h.Nodes = nil
		toks := append(append(append([]string{}, live...), expired...), dead...)
		l := h.Record()
		l.On = func(client int) *lib.Env { return nodes[client%len(nodes)] }
		ss := scripts(h, ids, toks, 2+c.Intn(4), 2+c.Intn(5), false, true)
		if c.P(0.4) {
			l.Beside = func() { // one comes and goes, reading
				e := nodes[0].Share(nodes[0].Opts)
				x := lib.Opts{Access: o.Access, Refresh: o.Refresh, SetBatch: true, Batch: c.I % 4}
				var p sessionid.Provider
				var err error
				if kind == "redis" {
					p, err = lib.NewRedis(e.NewClient(), x)
				} else {
					p, err = lib.NewBolt(nodes[0].DB, "", x)
				}
				if err != nil {
					c.Failf("%s provider beside others at work: New: %v", kind, err)
				}
				for _, t := range toks {
					r := lib.Call(p, lib.Op{F: "Get", Tok: t, Keys: []string{"a", "b"}})
					switch r.Err {
					case lib.OK, lib.Missing, lib.Expired:
					default:
						c.Failf("%s provider beside others at work: Get(%q) returned %v", kind, t, r)
					}
				}
				if e := p.Close(); e != nil {
					c.Failf("%s provider beside others at work: Close: %v", kind, e)
				}
			}
			c.Add("providers_that_come_and_go", 1)
		}
		l.Run(lib.Pick(c, []float64{0.02, 0.1, 0.3}), lib.Pick(c, []time.Duration{2, 1000, 100 * time.Microsecond}), ss...)
		observe(l, h, ss, toks)
		if kind == "redis" {
			l.Check(lib.ByLineage)
		} else {
			l.Check(nil)
		}
		h.Nodes = nodes
		h.CloseNodes()
	})
}

// nodesReclaimed lets all lifetimes end and looks for what is left of the sessions once some provider has seen it.
func nodesReclaimed(h *lib.Hist) {
	c := h.C
	if h.Over {
		return
	}
	longest := time.Duration(0)
	for _, e := range h.Nodes {
		longest = max(longest, e.Opts.Refresh)
	}
	c.Sleep(longest + h.Nodes[0].Opts.Skew + time.Second)
	for _, t := range h.Known {
		h.Do(lib.Op{F: "Check", Tok: t})
	}
	c.Settle()
	items := h.Nodes[0].Walk()
	for _, t := range h.Known {
		for _, x := range []string{t, h.Refs[t]} {
			if w := lib.Find(items, x); x != "" && len(w) > 0 {
				c.Failf("%s providers (%v) on one storage: past all lifetimes %s is still retained in %v", h.E.Kind, h.E.Opts, x, w)
			}
		}
	}
	c.Add("walks", 1)
}
