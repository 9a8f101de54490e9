package checks

import (
	"context"
	"fmt"
	"reflect"
	"time"

	"github.com/boltdb/bolt"
	goredis "github.com/go-redis/redis/v8"
	"github.com/powerpuffpenguin/sessionid"
	predis "github.com/powerpuffpenguin/sessionid/provider/redis"

	"verif.local/h/fakeredis"
	"verif.local/h/lib"
)

func init() {
	all["C11"] = c11
	all["C18"] = c18
}

// onClosed performs every operation on a closed provider.
func onClosed(l *lib.Log, h *lib.Hist, toks []string) {
	c := h.C
	t, r := h.Token("u"), h.Token("u")
	if len(toks) > 0 && c.P(0.7) {
		t = lib.Pick(c, toks)
		if h.Refs[t] != "" {
			r = h.Refs[t]
		}
	}
	id, _ := lib.SplitToken(t)
	ops := []lib.Op{{F: "Create", Tok: h.Token(id), Ref: h.Token(id)}, {F: "Create", Tok: t, Ref: r, Pairs: []lib.KV{{K: "a", V: "x"}}},
		{F: "Destroy", ID: id}, {F: "DestroyByToken", Tok: t}, {F: "Check", Tok: t}, {F: "Put", Tok: t, Pairs: []lib.KV{{K: "a", V: "x"}}},
		{F: "Put", Tok: t}, {F: "Get", Tok: t, Keys: []string{"a"}}, {F: "Get", Tok: t}, {F: "Keys", Tok: t}, {F: "Delete", Tok: t, Keys: []string{"a"}},
		{F: "Delete", Tok: t}, {F: "Refresh", Tok: t, Ref: r, NTok: h.Token(id), NRef: h.Token(id)}, {F: "Close"}, {F: "Close"}}
	if h.E.Kind == "bolt" {
		ops = append(ops, lib.Op{F: "Clear"})
	}
	c.Rng.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for _, o := range ops {
		l.Seq(o)
	}
	c.Add("calls_on_closed_providers", len(ops))
}

// C11: closes racing with calls and with each other.
func c11(r *lib.R) {
	r.Bubble("close", r.N(7000, 250000), func(c *lib.C) {
		c.NoLeak()
		kind := pickKind(c)
		o := concOpts(c, kind)
		own := kind == "bolt" && c.P(0.4)
		o.Own = own
		h := c.NewHist(kind, o)
		c.Add("histories_"+kind, 1)
		var app *bolt.DB
		if kind == "bolt" && !own {
			app = h.E.DB
			err := app.Update(func(t *bolt.Tx) error {
				b, err := t.CreateBucket([]byte("application"))
				if err == nil {
					err = b.Put([]byte("k"), []byte("v"))
				}
				return err
			})
			if err != nil {
				c.Inconclusive("application data: %v", err)
			}
		}
		ids := []string{"u", "u1", "v"}[:1+c.Intn(3)]
		live, expired, dead := prelude(h, ids)
		toks := append(append(append([]string{}, live...), expired...), dead...)
		l := h.Record()
		l.Doubt = kind == "redis"
		ss := scripts(h, ids, toks, 2+c.Intn(4), 1+c.Intn(5), c.P(0.5), true)
		at := c.Intn(len(ss))
		i := c.Intn(len(ss[at]) + 1)
		ss[at] = append(ss[at][:i:i], append([]lib.Op{{F: "Close"}}, ss[at][i:]...)...)
		for i, n := 0, c.Intn(3); i < n; i++ {
			ss = append(ss, []lib.Op{{F: "Close"}})
		}
		l.Run(lib.Pick(c, []float64{0.02, 0.1, 0.3}), lib.Pick(c, []time.Duration{2, 1000, 100 * time.Microsecond}), ss...)
		onClosed(l, h, toks)
		if kind == "redis" {
			l.Check(lib.ByLineage)
		} else {
			l.Check(nil)
		}
		c.Settle()
		switch {
		case own:
			// released: it opens at once
			c.Do("bolt.Open", func() {
				db, err := bolt.Open(h.E.Path, 0o600, &bolt.Options{Timeout: time.Millisecond})
				if err != nil {
					c.Failf("bolt provider (%v): its own file cannot be opened after Close: %v", o, err)
				}
				db.Close()
			})
			c.Add("own_files_reopened", 1)
		case app != nil:
			look := func() (items []lib.Item, id int) {
				items = lib.WalkBolt(app, nil)
				app.View(func(t *bolt.Tx) error { id = t.ID(); return nil })
				return
			}
			c.Do("use of the application's database", func() {
				before, txid := look()
				// clearing ticks and queued removals come and go
				c.Sleep(5*o.Clear + 2*h.M.Refresh)
				after, txid2 := look()
				if !reflect.DeepEqual(before, after) || txid != txid2 {
					c.Failf("bolt provider (%v): the application's database changed after Close (transaction %d, then %d)", o, txid, txid2)
				}
				err := app.Update(func(t *bolt.Tx) error {
					b := t.Bucket([]byte("application"))
					if b == nil || string(b.Get([]byte("k"))) != "v" {
						return fmt.Errorf("the application's data is gone")
					}
					return b.Put([]byte("k"), []byte("w"))
				})
				if err != nil {
					c.Failf("bolt provider (%v): the application's database after Close: %v", o, err)
				}
			})
			c.Add("application_databases_watched", 1)
		default:
			c.Sleep(5*o.Clear + time.Second)
		}
		c.Sleep(time.Second)
		// only the storage is closed now: whatever the provider started must have ended by itself
		h.E.CloseStorage()
	})
	r.Bubble("idle", r.N(1500, 50000), func(c *lib.C) {
		// a provider closed without having been used, or used alone
		c.NoLeak()
		kind := pickKind(c)
		o := randomOpts(c, kind)
		if c.P(0.3) {
			o.Clear = -time.Second
		}
		o.Own = kind == "bolt" && (o.Own || c.P(0.6))
		h := c.NewHist(kind, o)
		var toks []string
		for i, n := 0, c.Intn(4); i < n; i++ {
			toks = append(toks, h.Create("u", lib.KV{K: "a", V: "1"}))
		}
		if c.P(0.5) {
			c.Sleep(h.M.Refresh)
			for _, t := range toks {
				h.Do(lib.Op{F: "Check", Tok: t})
			}
		}
		if c.P(0.3) && h.E.Kind == "bolt" {
			h.Do(lib.Op{F: "Clear"})
		}
		l := h.Record()
		if o.Own && c.P(0.7) {
			// released by the time Close returns
			var cerr, err error
			c.Do("Close and open", func() {
				cerr = h.E.P.Close()
				var db *bolt.DB
				db, err = bolt.Open(h.E.Path, 0o600, &bolt.Options{Timeout: time.Nanosecond})
				if err == nil {
					db.Close()
				}
			})
			if cerr != nil || err != nil {
				c.Failf("bolt provider (%v): Close returned %v, then its own file could not be opened at once: %v", o, cerr, err)
			}
			l.Closed()
			c.Add("own_files_reopened_at_once", 1)
		} else {
			l.Seq(lib.Op{F: "Close"})
		}
		onClosed(l, h, toks)
		l.Check(nil)
		c.Sleep(time.Hour)
		h.E.CloseStorage()
	})
}

// C18: every call ends, whatever is queued, closed, cleared or failing beside it.
func c18(r *lib.R) {
	batches := []int{-1000000, -1, 0, 1, 2, 3, 128, 5000}
	r.Bubble("busy", r.N(6000, 200000), func(c *lib.C) {
		kind := pickKind(c)
		o := concOpts(c, kind)
		o.SetBatch, o.Batch = true, lib.Pick(c, batches)
		o.Own = kind == "bolt" && c.P(0.3)
		h := c.NewHist(kind, o)
		ids := []string{"u", "u1", "v"}
		var dead []string
		for i, n := 0, 5+c.Intn(60); i < n; i++ {
			dead = append(dead, h.Create(lib.Pick(c, ids)))
		}
		if o.Skew > 0 {
			for _, t := range dead {
				h.Do(lib.Op{F: "Put", Tok: t, Pairs: []lib.KV{{K: "a", V: "1"}}})
			}
		}
		c.Sleep(h.M.Refresh)
		live, _, _ := prelude(h, ids)
		toks := append([]string{}, live...)
		for i := 0; i < 8; i++ {
			toks = append(toks, lib.Pick(c, dead))
		}
		l := h.Record()
		ss := scripts(h, ids, toks, 2+c.Intn(5), 2+c.Intn(6), c.P(0.4), true)
		for i, n := 0, 1+c.Intn(4); i < n; i++ { // readers of dead sessions
			var s []lib.Op
			for j := 0; j < 3+c.Intn(30); j++ {
				t := lib.Pick(c, dead)
				s = append(s, lib.Pick(c, []lib.Op{{F: "Check", Tok: t}, {F: "Get", Tok: t, Keys: []string{"a"}}, {F: "Keys", Tok: t}, {F: "Put", Tok: t}, {F: "Delete", Tok: t}}))
				c.Add("calls_on_dead_sessions", 1)
			}
			ss = append(ss, s)
		}
		l.Run(lib.Pick(c, []float64{0, 0.02, 0.1, 0.3}), lib.Pick(c, []time.Duration{2, 1000, 100 * time.Microsecond}), ss...)
		rest(l, h, toks)
		h.E.Close()
	})
	again(r, r.N(300, 10000), false)
	swarm(r, r.N(120, 4000), false)
	r.Cases("connections", r.N(120, 4000), scarce)
	r.Bubble("alone", r.N(2500, 80000), func(c *lib.C) {
		// one client, any number of dead sessions, faults of the storage in between
		kind := pickKind(c)
		o := randomOpts(c, kind)
		o.Access, o.Refresh = time.Hour, 2*time.Hour
		o.Max = 0
		if o.Clear > 0 {
			o.Clear = lib.Pick(c, []time.Duration{10 * time.Minute, time.Hour, -1})
		}
		o.SetBatch, o.Batch = true, lib.Pick(c, batches)
		if kind == "redis" && c.P(0.6) {
			o.Skew = 100 * time.Hour
		}
		h := c.NewHist(kind, o)
		var dead []string
		for i, n := 0, 1+c.Intn(200); i < n; i++ {
			dead = append(dead, h.Create("u"))
		}
		if o.Skew > 0 {
			for _, t := range dead {
				h.Do(lib.Op{F: "Put", Tok: t, Pairs: []lib.KV{{K: "a", V: "1"}}})
			}
		}
		c.Sleep(h.M.Refresh)
		l := h.Record()
		fault := 0
		if c.P(0.3) {
			fault = 1 + c.Intn(30)
		}
		plan(h, fault)
		for i, n := 0, c.Intn(2*len(dead)+1); i < n; i++ {
			t := lib.Pick(c, dead)
			l.Seq(lib.Pick(c, []lib.Op{{F: "Check", Tok: t}, {F: "Get", Tok: t, Keys: []string{"a"}}, {F: "Keys", Tok: t}}))
			if c.P(0.02) {
				l.Seq(lib.Op{F: "Destroy", ID: "u"})
			}
			if c.P(0.01) && kind == "bolt" {
				l.Seq(lib.Op{F: "Clear"})
				l.Seq(lib.Op{F: "Clear"})
			}
			if c.P(0.01) {
				c.Sleep(time.Minute)
			}
		}
		plan(h, 0)
		rest(l, h, dead)
		if c.P(0.5) {
			l.Seq(lib.Op{F: "Close"})
			rest(l, h, dead)
		}
		h.E.Close()
	})
}

// scarce: on the real clock, a redis client with fewer connections than callers. A call that holds a connection while it
// waits for another one, or for background work that needs one, can wait forever.
func scarce(c *lib.C) {
	srv := fakeredis.New()
	srv.Skew = time.Hour // dead sessions stay in the server until the provider removes them
	n := 1 + c.Intn(3)
	client := goredis.NewClient(&goredis.Options{Dialer: srv.Dial, PoolSize: n, PoolTimeout: time.Hour, IdleTimeout: -1, IdleCheckFrequency: -1})
	batch := lib.Pick(c, []int{-1, 0, 1, 2, 128})
	life := time.Duration(2+c.Intn(20)) * time.Millisecond
	p, err := predis.New(predis.WithClient(client), predis.WithRefresh(life), predis.WithCheckBatch(batch))
	if err != nil {
		c.Failf("redis provider: %v", err)
	}
	ctx := context.Background()
	tok := func(i int) string { return fmt.Sprintf("u%d.a%d.x", i%3, i) }
	ref := func(i int) string { return fmt.Sprintf("u%d.r%d.x", i%3, i) }
	dead := 3 + c.Intn(30)
	for i := range dead {
		if err := p.Create(ctx, tok(i), ref(i), nil); err != nil {
			c.Failf("redis provider with %d connections: Create: %v", n, err)
		}
		p.Put(ctx, tok(i), []sessionid.PairBytes{{Key: "a", Value: []byte("1")}})
	}
	time.Sleep(life)
	what := fmt.Sprintf("calls of a redis provider with %d connections, batch %d and %d dead sessions", n, batch, dead)
	end := c.Watchdog(what)
	workers(c, what, 2+c.Intn(8), func(w *worker, g int) {
		for i := range 20 {
			k := w.rng.IntN(dead + 5)
			switch f := w.rng.IntN(9); f {
			case 0, 1:
				w.call("Check", func() error { return p.Check(ctx, tok(k)) })
			case 2:
				w.call("Get", func() error { _, err := p.Get(ctx, tok(k), []string{"a"}); return err })
			case 3:
				w.call("Keys", func() error { _, err := p.Keys(ctx, tok(k)); return err })
			case 4:
				w.call("Put", func() error { return p.Put(ctx, tok(k), []sessionid.PairBytes{{Key: "a", Value: []byte("1")}}) })
			case 5:
				w.call("Delete", func() error { return p.Delete(ctx, tok(k), []string{"a"}) })
			case 6:
				w.call("Create", func() error { return p.Create(ctx, tok(k), ref(k), nil) })
			case 7:
				w.call("Refresh", func() error {
					return p.Refresh(ctx, tok(k), ref(k), tok(k+3*(g*20+i+100)), ref(k+3*(g*20+i+100)))
				})
			default:
				w.call("Destroy", func() error {
					if i%2 == 0 {
						return p.Destroy(ctx, fmt.Sprintf("u%d", k%3))
					}
					return p.DestroyByToken(ctx, tok(k))
				})
			}
		}
	})
	p.Close()
	end()
	c.Add("histories_scarce_connections", 1)
}

// plan makes every n-th command or write of the storage fail.
func plan(h *lib.Hist, n int) { h.E.FailEvery(n) }

// rest performs one of every call afterwards.
func rest(l *lib.Log, h *lib.Hist, toks []string) {
	t := lib.Pick(h.C, toks)
	id, _ := lib.SplitToken(t)
	for _, o := range []lib.Op{{F: "Check", Tok: t}, {F: "Get", Tok: t, Keys: []string{"a"}}, {F: "Keys", Tok: t}, {F: "Put", Tok: t, Pairs: []lib.KV{{K: "a", V: "x"}}},
		{F: "Delete", Tok: t, Keys: []string{"a"}}, {F: "Create", Tok: h.Token(id), Ref: h.Token(id)}, {F: "DestroyByToken", Tok: t}, {F: "Destroy", ID: id}} {
		l.Seq(o)
	}
	if h.E.Kind == "bolt" {
		l.Seq(lib.Op{F: "Clear"})
	}
	h.C.Add("calls_after", 8)
}
