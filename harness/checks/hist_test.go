package checks

import (
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"

	"verif.local/h/lib"
)

func init() {
	all["C05"] = c05
	all["C06"] = c06
	all["C07"] = c07
}

func randomOpts(c *lib.C, kind string) lib.Opts {
	o := lib.Opts{Access: time.Second + time.Duration(c.Intn(5000))*time.Millisecond}
	o.Refresh = o.Access + time.Duration(c.Intn(8000))*time.Millisecond
	switch c.Intn(5) {
	case 0, 1:
		o.Access, o.Refresh = time.Hour, 24*time.Hour
	case 2:
		o.Refresh = o.Access
	}
	if c.P(0.3) {
		o.SetBatch, o.Batch = true, c.Intn(4)-1
	}
	if kind != "redis" && c.P(0.3) {
		o.Clear = o.Refresh/time.Duration(1+c.Intn(100)) + time.Duration(c.Intn(int(time.Millisecond)))
	}
	if kind == "bolt" && c.P(0.2) {
		o.Own = true
	}
	if kind != "redis" && c.P(0.15) {
		o.Max = 3 + c.Intn(8)
	}
	return o
}

func pickKind(c *lib.C) string { return lib.Kinds[c.I/c.Shards%3] }

var methods = []cryptoer.SigningMethod{cryptoer.SigningMethodHMD5, cryptoer.SigningMethodHS1, cryptoer.SigningMethodHS256, cryptoer.SigningMethodHS384, cryptoer.SigningMethodHS512}

func maybeManager(h *lib.Hist) {
	if h.C.P(0.25) {
		h.UseManager(lib.Pick(h.C, methods), h.C.Bytes(1+h.C.Intn(40)))
		h.C.Add("cases_through_a_manager", 1)
		return
	}
	similar(h)
}

// similar makes some of the tokens differ in a detail only.
func similar(h *lib.Hist) {
	h.Near = lib.Pick(h.C, []float64{0, 0.1, 0.4})
	if _, ok := h.E.Opts.Coder.(sessionid.XMLCoder); ok {
		h.Near = 0 // XML has no control characters
	}
}

// C05: data histories on few sessions with keys related by prefix, odd bytes, empty, big and many values.
func c05(r *lib.R) {
	largeData(r)
	rich(r, r.N(120, 6000), 0.1)
	long(r, r.N(36, 2000), 0.03, 0.002)
	r.Bubble("data", r.N(12000, 400000), func(c *lib.C) {
		kind := pickKind(c)
		o := randomOpts(c, kind)
		h := c.NewHist(kind, o)
		maybeManager(h)
		p := lib.Profile{Create: 12, Recreate: 6, Refresh: 5, Put: 34, Get: 20, Keys: 10, Delete: 18, Destroy: 1, DestroyTok: 1, Pass: 2, Look: 10, DataSpent: 2,
			IDs: []string{"u", "u1", "v"}, KeyPool: c.KeyNames(4 + c.Intn(6)), MaxPairs: 5, Big: 0.03, Many: 0.02, Sessions: 8}
		for i, n := 0, 30+c.Intn(50); i < n; i++ {
			h.Step(p)
			if c.P(0.02) && len(h.Known) > 0 {
				refused(h)
			}
		}
		h.End()
	})
}

// C06: refreshes with right, stale, crossed, foreign and swapped tokens amid data, time and destroys.
func c06(r *lib.R) {
	largeRefresh(r)
	rich(r, r.N(72, 3000), 0.6)
	long(r, r.N(36, 2000), 0.6, 0.1)
	r.Bubble("refresh", r.N(12000, 400000), func(c *lib.C) {
		kind := pickKind(c)
		o := randomOpts(c, kind)
		h := c.NewHist(kind, o)
		maybeManager(h)
		p := lib.Profile{Create: 12, Recreate: 3, Refresh: 25, BadRefresh: 25, Put: 8, Get: 2, Delete: 2, Destroy: 3, DestroyTok: 2, Pass: 12, Tick: 3, Look: 8, Glance: 3, DataSpent: 8,
			IDs: []string{"u", "u1", "v", "w"}, KeyPool: c.KeyNames(4), MaxPairs: 4, Big: 0.04, Many: 0.02, Sessions: 10}
		for i, n := 0, 30+c.Intn(40); i < n; i++ {
			h.Step(p)
		}
		h.Sweep()
		// The id of every session, refreshed or not, still ends it.
		if c.P(0.5) {
			for _, id := range p.IDs {
				h.Do(lib.Op{F: "Destroy", ID: id})
				h.Glance()
			}
		}
		h.End()
	})
}

// C07: destroys by id and token among ids related by prefix and full of pattern characters.
func c07(r *lib.R) {
	largeDestroy(r)
	crowd(r, r.N(24, 1000))
	r.Bubble("destroy", r.N(12000, 400000), func(c *lib.C) {
		kind := pickKind(c)
		o := randomOpts(c, kind)
		h := c.NewHist(kind, o)
		maybeManager(h)
		ids := c.IDNames(3 + c.Intn(5))
		if c.P(0.4) {
			ids = append(ids, "")
		}
		p := lib.Profile{Create: 25, Recreate: 3, Refresh: 14, BadRefresh: 2, Put: 5, Destroy: 14, DestroyTok: 10, Pass: 6, Look: 6, Glance: 8, DataSpent: 2,
			IDs: ids, KeyPool: c.KeyNames(4), MaxPairs: 3, Many: 0.01, Sessions: 30}
		extra := append([]string{"nobody", "u.", "u.*", ".", "."}, ids...)
		for i, n := 0, 30+c.Intn(40); i < n; i++ {
			h.Step(p)
			if c.P(0.05) {
				h.Do(lib.Op{F: "Destroy", ID: lib.Pick(c, extra)})
				h.Glance()
			}
		}
		h.Sweep()
		for _, t := range h.Known { // nothing that was destroyed can be refreshed
			if c.P(0.5) {
				h.Refresh(t)
			}
		}
		h.End()
	})
}
