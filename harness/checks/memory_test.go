package checks

import (
	"context"
	"os"
	"runtime"

	"github.com/powerpuffpenguin/sessionid"

	"verif.local/h/lib"
)

func init() {
	all["C14"] = c14
}

// C14: data histories by callers that overwrite all they passed in and either overwrite or keep all they got.
func c14(r *lib.R) {
	r.Bubble("buffers", r.N(9000, 300000), func(c *lib.C) {
		kind := pickKind(c)
		o := randomOpts(c, kind)
		h := c.NewHist(kind, o)
		a := c.NewAlias()
		h.Alias = a
		maybeManager(h)
		p := lib.Profile{Create: 12, Recreate: 4, Refresh: 8, Put: 30, Get: 30, Keys: 10, Delete: 12, Destroy: 2, DestroyTok: 2, Pass: 3, Look: 8,
			IDs: []string{"u", "u1", "v"}, KeyPool: c.KeyNames(5), MaxPairs: 5, Big: 0.1, Many: 0.03, Sessions: 8}
		for i, n := 0, 25+c.Intn(40); i < n; i++ {
			h.Step(p)
			if c.P(0.1) {
				a.Compare("later")
			}
			if kind == "bolt" && c.P(0.02) {
				h.Do(lib.Op{F: "Clear"})
				a.Compare("after Clear")
			}
			if kind == "bolt" && c.P(0.03) {
				h.Reopen(h.E.Opts)
				a.Compare("after the provider was reopened")
			}
		}
		h.Sweep()
		c.Do("Close", func() { h.E.P.Close() })
		a.Compare("after Close")
		h.E.CloseStorage()
		if h.E.Path != "" {
			os.Truncate(h.E.Path, 0)
			os.Remove(h.E.Path)
		}
		runtime.GC()
		a.Compare("after the database was closed and removed")
	})
	r.Bubble("session", r.N(2000, 60000), func(c *lib.C) {
		// one Session whose coder hands bytes through: neither its cache nor the provider shares memory with the caller
		kind := pickKind(c)
		e := c.Open(kind, lib.Opts{})
		m := lib.Manager(e.P, nil, nil, lib.Raw{})
		ctx := context.Background()
		want := map[string]string{}
		var s *sessionid.Session
		type kept struct {
			b    []byte
			want string
		}
		var ks []kept
		keys := []string{"k", "l", "m"}
		make1 := func() ([]byte, string) {
			b := c.Bytes(1 + c.Intn(12))
			return b, string(b)
		}
		c.Do("Create", func() {
			b, v := make1()
			pairs := []sessionid.Pair{{Key: "k", Value: b}}
			var err error
			s, _, err = m.Create(ctx, "u", pairs...)
			if err != nil {
				c.Failf("Create: %v", err)
			}
			want["k"] = v
			b[0]++
			pairs[0].Key = "x"
			c.Logf("Create k=%q", v)
		})
		for i, n := 0, 10+c.Intn(30); i < n; i++ {
			k := lib.Pick(c, keys)
			c.Do("Session", func() {
				switch c.Intn(5) {
				case 0, 1:
					b, v := make1()
					pairs := []sessionid.Pair{{Key: k, Value: b}}
					if c.P(0.3) { // the same buffer for two keys
						k2 := lib.Pick(c, keys)
						pairs = append(pairs, sessionid.Pair{Key: k2, Value: b})
						want[k2] = v
					}
					if err := s.Put(ctx, pairs...); err != nil {
						c.Failf("Put: %v", err)
					}
					want[k] = v
					for i := range b {
						b[i] ^= 0xff
					}
					pairs[0] = sessionid.Pair{}
					c.Logf("Put %q=%q", k, v)
				case 2:
					l := []string{k, lib.Pick(c, keys)}
					if err := s.Prepare(ctx, l...); err != nil {
						c.Failf("Prepare: %v", err)
					}
					c.Logf("Prepare %q", l)
					l[0], l[1] = "x", "y"
				default:
					t := s
					if c.P(0.3) {
						t, _ = m.Get(ctx, s.Token())
					}
					var b []byte
					if c.P(0.5) {
						b = c.Bytes(8)
					}
					err := t.Get(ctx, k, &b)
					v, ok := want[k]
					c.Logf("Get %q -> %q %v", k, b, err)
					if (err == nil) != ok || (ok && string(b) != v) {
						c.Failf("%s provider: Session.Get(%q) = %q, %v, want %q (stored: %v); every buffer passed in or returned before was overwritten or kept by the caller", kind, k, b, err, v, ok)
					}
					if c.P(0.5) {
						for i := range b {
							b[i] ^= 0xff
						}
					} else if ok {
						ks = append(ks, kept{b, v})
					}
				}
				for _, x := range ks {
					if string(x.b) != x.want {
						c.Failf("%s provider: a slice that Session.Get returned changed from %q to %q", kind, x.want, x.b)
					}
				}
				c.Add("operations", 1)
				c.Add("kept_results_compared", len(ks))
				c.Sig(k, len(ks))
			})
		}
		e.Close()
	})
}
