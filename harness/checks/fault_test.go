package checks

import (
	"errors"
	"fmt"
	"time"

	"github.com/powerpuffpenguin/sessionid"

	"verif.local/h/lib"
)

func init() {
	all["C17"] = c17
}

// failing is a coder that can be made to fail.
type failing struct {
	sessionid.GOBCoder
	enc, dec, fired bool
}

var errCoder = errors.New("injected coder failure")

func (f *failing) Encode(v interface{}) ([]byte, error) {
	if f.enc {
		f.fired = true
		return nil, errCoder
	}
	return f.GOBCoder.Encode(v)
}

func (f *failing) Decode(b []byte, v interface{}) error {
	if f.dec {
		f.fired = true
		return errCoder
	}
	return f.GOBCoder.Decode(b, v)
}

// C17: histories with faults at every command of the redis server and every modification of the bolt file.
func c17(r *lib.R) {
	contexts(r)
	r.Bubble("faults", r.N(12000, 400000), func(c *lib.C) {
		c.NoLeak()
		kind := lib.Kinds[1+c.I/c.Shards%2]
		o := randomOpts(c, kind)
		o.NoBackoff = true
		var coder *failing
		if kind == "redis" && c.P(0.4) {
			coder = &failing{}
			o.Coder = coder
		}
		h := c.NewHist(kind, o)
		rate := lib.Pick(c, []float64{0.2, 0.5, 0.9})
		h.Fault = func(op lib.Op) func() (bool, bool) {
			if !c.P(rate) {
				return nil
			}
			if coder != nil && c.P(0.3) {
				coder.fired = false
				coder.enc, coder.dec = c.P(0.6), c.P(0.6)
				return func() (bool, bool) {
					coder.enc, coder.dec = false, false
					if coder.fired {
						c.Add("faults_coder", 1)
					}
					return coder.fired, false
				}
			}
			return h.E.RandomFault()
		}
		p := lib.Profile{Create: 20, Recreate: 8, Refresh: 18, BadRefresh: 4, Put: 18, Get: 6, Keys: 4, Delete: 10, Check: 6, Destroy: 6, DestroyTok: 6, Pass: 8, Tick: 3,
			IDs: []string{"u", "u1", "v"}, KeyPool: c.KeyNames(4), MaxPairs: 4, Big: 0.03, Many: 0.02, Sessions: 10}
		for i, n := 0, 15+c.Intn(30); i < n && !h.Over; i++ {
			if c.P(0.05) {
				// a fault while only background work is under way
				off := h.E.RandomFault()
				d := time.Duration(c.Intn(int(h.M.Refresh/time.Millisecond))+1) * time.Millisecond
				c.Logf("a fault while time passes: %v", d)
				c.Sleep(d)
				off()
				continue
			}
			if kind == "bolt" && c.P(0.03) {
				h.Do(lib.Op{F: "Clear"})
				continue
			}
			if kind == "bolt" && c.P(0.03) {
				h.Reopen(h.E.Opts)
				h.Glance()
			}
			h.Step(p)
		}
		h.Fault = nil
		if !h.Over {
			h.Finale()
		}
		reclaimed(h, "after the faults")
		h.E.Close()
	})
	r.Bubble("opening", r.N(1200, 30000), func(c *lib.C) {
		// faults while a bolt provider is opened: an error, and nothing kept
		c.NoLeak()
		o := boltOpts(c)
		o.Own = c.P(0.6)
		e := c.Storage("bolt", o)
		if o.Own || c.P(0.7) { // bolt itself keeps the lock of a file that it cannot initialise
			h := c.Adopt(e, o)
			h.Create("u", lib.KV{K: "k", V: "v"})
			c.Do("Close", func() { e.P.Close() })
			if e.DB != nil {
				e.DB.Close()
				e.DB = nil
			}
			e.P = nil
		}
		if !o.Own {
			e.DB = e.OpenDB()
		}
		if c.P(0.5) {
			o.Bucket = "another"
		}
		for i := 0; i < 4; i++ {
			off := e.RandomFault()
			var p sessionid.Provider
			var err error
			c.Do("bolt.New", func() { p, err = lib.NewBolt(e.DB, e.Path, o) })
			fired, _ := off()
			c.Logf("New -> %v (fault fired: %v)", err, fired)
			c.Add("openings", 1)
			if err == nil {
				c.Do("Close", func() { err = p.Close() })
				if err != nil {
					c.Failf("Close of a provider that was opened amid faults: %v", err)
				}
				continue
			}
			if !fired {
				c.Failf("bolt provider (%v): New fails without a fault: %v", o, err)
			}
			c.Add("openings_failed", 1)
			c.Sig(fmt.Sprint(err))
		}
		// Nothing stops a good New now; with a file of its own, nobody holds its lock.
		h := c.Adopt(e, o)
		t := h.Create("w", lib.KV{K: "k", V: "v"})
		h.Look(t)
		h.E.Close()
	})
}

// contexts: histories of calls whose contexts are over, or end while the storage is slow.
func contexts(r *lib.R) {
	r.Bubble("contexts", r.N(3000, 100000), func(c *lib.C) {
		c.NoLeak()
		kind := pickKind(c)
		o := randomOpts(c, kind)
		o.Access, o.Refresh, o.Clear, o.NoBackoff = 100*time.Hour, 300*time.Hour, 0, c.P(0.5)
		h := c.NewHist(kind, o)
		c.Add("histories_"+kind, 1)
		h.Slow, h.Avoid = true, time.Hour
		rate := lib.Pick(c, []float64{0.3, 0.8})
		h.Fault = func(op lib.Op) (disarm func() (bool, bool)) {
			if !c.P(rate) {
				return nil
			}
			h.Ctx, disarm = h.E.RandomContext()
			return
		}
		p := lib.Profile{Create: 20, Recreate: 6, Refresh: 18, BadRefresh: 4, Put: 18, Get: 8, Keys: 4, Delete: 10, Check: 6, Destroy: 6, DestroyTok: 6,
			IDs: []string{"u", "u1", "v"}, KeyPool: c.KeyNames(4), MaxPairs: 4, Big: 0.03, Many: 0.01, Sessions: 10}
		for i, n := 0, 15+c.Intn(30); i < n && !h.Over; i++ {
			if c.P(0.06) {
				c.Sleep(time.Duration(c.Intn(120)) * time.Hour)
			}
			h.Step(p)
		}
		h.Fault, h.Ctx = nil, nil
		if !h.Over {
			h.Sweep()
			if c.P(0.5) {
				h.FinaleRefresh()
			} else {
				h.FinaleDestroy()
			}
			h.Sweep()
		}
		h.E.Close()
	})
}

// reclaimed lets all lifetimes end and looks for what is left of the sessions in the storage.
func reclaimed(h *lib.Hist, when string) {
	c := h.C
	if h.Over {
		return
	}
	c.Sleep(h.M.Refresh + time.Second)
	if h.E.Opts.Clear > 0 && h.E.Kind != "redis" {
		c.Sleep(h.E.Opts.Clear)
	} else {
		for _, t := range h.Known {
			h.Do(lib.Op{F: "Check", Tok: t})
		}
	}
	c.Settle()
	if h.E.Opts.Own && h.E.Kind == "bolt" {
		c.Do("Close", func() { h.E.P.Close() })
	}
	items := h.E.Walk()
	for _, t := range h.Known {
		for _, x := range []string{t, h.Refs[t]} {
			if w := lib.Find(items, x); x != "" && len(w) > 0 {
				c.Failf("%s provider (%v): %s and past all lifetimes, the provider still retains %s in %v", h.E.Kind, h.E.Opts, when, x, w)
			}
		}
	}
	c.Add("walks", 1)
}
