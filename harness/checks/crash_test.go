package checks

import (
	"fmt"
	"time"

	"verif.local/h/lib"
)

func init() {
	all["C13"] = c13
}

func boltOpts(c *lib.C) lib.Opts {
	o := lib.Opts{Access: time.Hour + time.Duration(c.Intn(1000))*time.Second}
	o.Refresh = o.Access + time.Duration(c.Intn(10))*time.Hour
	if c.P(0.5) {
		o.Max = 1 + c.Intn(6)
	}
	if c.P(0.3) {
		o.Clear = 20*time.Minute + time.Duration(c.Intn(3600))*time.Second
	}
	if c.P(0.3) {
		o.SetBatch, o.Batch = true, c.Intn(3)
	}
	o.Own = c.P(0.4)
	return o
}

// C13: histories on a bolt file; at crash points inside and between the operations the file is rebuilt as the crash
// leaves it and opened again.
func c13(r *lib.R) {
	r.Bubble("crash", r.N(2200, 60000), func(c *lib.C) {
		o := boltOpts(c)
		e := c.Storage("bolt", o)
		rec := e.Record()
		h := c.Adopt(e, o)
		// examine opens what a crash after n events since the mark leaves.
		examine := func(n int, power bool, what string, cands []*lib.Model, names []string) {
			var img []byte
			if power {
				img = rec.Power(n)
				what = fmt.Sprintf("after a loss of power %s (after %d of %d file operations)", what, n, rec.Events())
				c.Add("power_loss_images", 1)
			} else {
				img = rec.Kill(n)
				what = fmt.Sprintf("after a kill %s (after %d of %d file operations)", what, n, rec.Events())
				c.Add("kill_images", 1)
			}
			for i := range cands {
				cands[i] = cands[i].Clone()
			}
			ie := e.Image(img)
			io := e.Opts
			io.Own = c.P(0.4)
			if c.P(0.2) {
				io.Max = c.Intn(6)
			}
			for _, x := range cands {
				x.Max = io.Max
			}
			ie.Start(io)
			m := h.Fork(ie, what, cands, names)
			m.Sweep()
			m.Finale(c.P(0.06))
			if c.P(0.5) {
				m.Sweep()
			}
			if len(cands) == 2 && len(m.Names) == 1 {
				c.Add("images_"+m.Names[0], 1)
			}
			ie.Discard()
		}
		points := func(what string, before, after *lib.Model) {
			n := rec.Events()
			c.Add("crash_points", n)
			if n > 0 && before != nil {
				for i, k := 0, 1+c.Intn(2); i < k; i++ {
					examine(c.Intn(n), c.P(0.6), "during "+what, []*lib.Model{before, after}, []string{"without_it", "with_it"})
				}
			}
			if c.P(0.4) {
				examine(n, c.P(0.8), "after "+what, []*lib.Model{after}, []string{"with_all"})
			}
			rec.Mark()
		}
		rec.Mark() // crashes while the database file is first created are bolt's own business
		p := lib.Profile{Create: 25, Recreate: 6, Refresh: 16, BadRefresh: 3, Put: 18, Delete: 8, Destroy: 5, DestroyTok: 7, Pass: 2, Tick: 3,
			IDs: []string{"u", "u1", "v"}, KeyPool: c.KeyNames(4), MaxPairs: 4, Big: 0.05, Many: 0.02, Sessions: 12}
		for i, n := 0, 12+c.Intn(20); i < n; i++ {
			h.M.Expire(time.Now())
			before := h.M.Clone()
			calls := h.Calls()
			now := time.Now()
			switch {
			case c.P(0.04):
				h.Do(lib.Op{F: "Clear"})
			case c.P(0.05):
				// an orderly restart; sometimes the database changes hands or the limit changes
				o.Own = c.P(0.4)
				if c.P(0.3) {
					o.Max = c.Intn(6)
				}
				h.Reopen(o)
				h.Sweep()
				points("a reopening", h.M.Clone(), h.M)
				continue
			default:
				h.Step(p)
			}
			c.Settle()
			switch {
			case h.Calls() == calls+1 && time.Now().Equal(now):
				points(fmt.Sprint(h.Last()), before, h.M)
			default:
				points("several steps", nil, h.M)
			}
		}
		h.Finale()
		// a kill after all, and the history goes on where it leaves the file
		points("all", nil, h.M)
		h.E.Close()
	})
	r.Bubble("restart", r.N(1500, 50000), func(c *lib.C) {
		// orderly closes and reopenings only, many of them
		// With lifetimes that differ, what is dead and not yet cleared need not be the oldest, and may count towards a limit.
		o := boltOpts(c)
		mixed := c.P(0.3)
		if mixed {
			o.Max = 0
		}
		h := c.NewHist("bolt", o)
		p := lib.Profile{Create: 25, Recreate: 5, Refresh: 16, BadRefresh: 4, Put: 14, Delete: 6, Destroy: 4, DestroyTok: 5, Pass: 8, Tick: 6, Look: 4,
			IDs: []string{"u", "u1", "v"}, KeyPool: c.KeyNames(4), MaxPairs: 4, Big: 0.05, Many: 0.02, Sessions: 12}
		for i, n := 0, 20+c.Intn(40); i < n; i++ {
			h.Step(p)
			if c.P(0.2) {
				o.Own = c.P(0.5)
				switch {
				case !mixed && c.P(0.2):
					o.Max = c.Intn(6)
				case mixed && c.P(0.5):
					x := boltOpts(c)
					o.Access, o.Refresh, o.Clear = x.Access, x.Refresh, x.Clear
				}
				h.Reopen(o)
				if c.P(0.3) {
					h.Sweep()
				}
			}
		}
		h.End()
	})
}
