package checks

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/boltdb/bolt"

	"verif.local/h/lib"
)

func init() {
	all["C16"] = c16
}

// neighbours is several stores on one database or server, each with a twin that is alone.
type neighbours struct {
	c       *lib.C
	base    *lib.Env
	hs      []*lib.Hist
	foreign string
}

var prefixFamily = []string{"a", "ab", "a.", "a.b.", "a.b.c.", "a*", "a?", "a[b]", "", "a\\", "A", "sessionid.provider.redis.", "sessionid.provider.redis.x.", "*", "[ab]", "a.*."}
var bucketFamily = []string{"sessionid", "sessionid2", "session", "ids", "data", "lru", "metadata", "a", "ab", "sessionid.ids", "x\x00", "\xff"}

func newNeighbours(c *lib.C, kind string, opts func() lib.Opts) *neighbours {
	n := &neighbours{c: c}
	k := 2 + c.Intn(3)
	base := c.Storage(kind, opts())
	n.base = base
	names := bucketFamily
	if kind == "redis" {
		names = prefixFamily
		if c.P(0.4) {
			names = []string{"a\\", "a.", "a", "a*", "a?", "ab"}
		}
	}
	var meta *string
	if c.P(0.3) {
		m := lib.Pick(c, []string{"m", "key", "k"})
		meta = &m
	}
	perm := c.Rng.Perm(len(names))
	for i := 0; i < k; i++ {
		o := opts()
		o.Own = false
		name := names[perm[i]]
		switch kind {
		case "redis":
			o.Prefix = &name
			o.MetaKey = meta
		case "bolt":
			o.Bucket = name
			if base.DB == nil {
				base.DB = base.OpenDB()
				if c.P(0.9) {
					n.plantBolt(names[perm[k:][0]])
				}
			}
		}
		var e *lib.Env
		if kind == "memory" {
			e = c.Storage(kind, o)
		} else {
			e = base.Share(o)
		}
		h := c.Adopt(e, o)
		h.Serials(i * 100000)
		h.Twin = c.Open(kind, o)
		n.hs = append(n.hs, h)
	}
	if kind == "redis" && c.P(0.9) {
		n.plantRedis()
	}
	n.foreign = n.others()
	return n
}

func (n *neighbours) plantBolt(name string) {
	n.base.DB.Update(func(t *bolt.Tx) error {
		for _, x := range []string{name, "application", "sessionid-"} {
			b, err := t.CreateBucketIfNotExists([]byte(x))
			if err != nil {
				return err
			}
			b.Put([]byte("u.x.y"), []byte("mine"))
			in, _ := b.CreateBucketIfNotExists([]byte("ids"))
			in.Put([]byte("u"), []byte("mine"))
			in, _ = b.CreateBucketIfNotExists([]byte("data"))
			in.Put([]byte("u.x.y"), []byte("mine"))
		}
		return nil
	})
}

// under tells whether a key of the server is under the prefix of one of the stores.
func (n *neighbours) under(key string) bool {
	for _, h := range n.hs {
		if strings.HasPrefix(key, *h.E.Opts.Prefix) {
			return true
		}
	}
	return false
}

func (n *neighbours) plantRedis() {
	c := n.c
	for _, k := range []string{"a", "abc.u.x.y", "ax.u.x.y", "ab.u.x.y", "xa.u.x.y", "u.x.y", "b", "A.u.x.y", "sessionid.provider.redis", "sessionid.provider.redisXu.x.y", "zz", "a\\.u.x.y", "aa.u.x.y"} {
		if n.under(k) || c.P(0.3) {
			continue
		}
		if c.P(0.5) {
			n.base.Srv.Set(k, "mine")
		} else {
			n.base.Srv.HSet(k, map[string]string{"k": "mine", "__private_provider_redis": "mine"})
		}
	}
}

// others renders all data outside the stores.
func (n *neighbours) others() string {
	var out []string
	switch n.base.Kind {
	case "redis":
		for k, v := range n.base.Srv.Dump() {
			if !n.under(k) {
				out = append(out, fmt.Sprintf("%q=%v", k, v))
			}
		}
	case "bolt":
		mine := map[string]bool{}
		for _, h := range n.hs {
			mine[h.E.Opts.Bucket] = true
		}
		n.base.DB.View(func(t *bolt.Tx) error {
			return t.ForEach(func(name []byte, b *bolt.Bucket) error {
				if !mine[string(name)] {
					out = append(out, fmt.Sprintf("%q", name))
				}
				return nil
			})
		})
		var names []string
		for _, x := range out {
			names = append(names, x)
		}
		for _, it := range lib.WalkBolt(n.base.DB, nil) {
			top := strings.SplitN(it.Where, "/", 2)[0]
			for _, x := range names {
				if fmt.Sprintf("%q", top) == x {
					out = append(out, fmt.Sprintf("%q %q", it.Where, it.Text))
				}
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func (n *neighbours) look() {
	n.c.Add("foreign_data_compared", 1)
	if now := n.others(); now != n.foreign {
		n.c.Failf("%s: data outside the stores changed from\n%s\nto\n%s", n.base.Kind, n.foreign, now)
	}
}

func (n *neighbours) close() {
	for _, h := range n.hs {
		h.E.Close()
		h.Twin.Close()
	}
	n.look()
	n.base.Close()
}

// cross asks a store for what a neighbour holds: the same token, or, for redis, the token that would name the same key.
func (n *neighbours) cross() {
	c := n.c
	a, b := lib.Pick(c, n.hs), lib.Pick(c, n.hs)
	if a == b || len(b.Known) == 0 {
		return
	}
	t := b.Tok()
	if n.base.Kind == "redis" && c.P(0.6) {
		key := b.E.Opts.KeyName(t)
		if p := *a.E.Opts.Prefix; strings.HasPrefix(key, p) {
			t = key[len(p):]
		}
	}
	r := b.Refs[t]
	id, ok := lib.SplitToken(t)
	if !ok {
		return
	}
	if r == "" {
		r = a.Token(id)
	}
	c.Add("operations_with_tokens_of_neighbours", 1)
	switch c.Intn(8) {
	case 0:
		a.Do(lib.Op{F: "Check", Tok: t})
	case 1:
		a.Do(lib.Op{F: "Put", Tok: t, Pairs: []lib.KV{{K: "intruder", V: "x"}}})
	case 2:
		a.Do(lib.Op{F: "Get", Tok: t, Keys: []string{"k"}})
	case 3:
		a.Do(lib.Op{F: "Keys", Tok: t})
	case 4:
		a.Do(lib.Op{F: "Delete", Tok: t, Keys: []string{"k"}})
	case 5:
		a.Do(lib.Op{F: "DestroyByToken", Tok: t})
	case 6:
		a.RefreshAny(t, r, a.Token(id), a.Token(id))
	case 7:
		a.Do(lib.Op{F: "Destroy", ID: id})
	}
	b.Look(b.Tok())
}

// adopt creates the very token of a neighbour in a store; with redis only if that is another key.
func (n *neighbours) adopt() {
	c := n.c
	a, b := lib.Pick(c, n.hs), lib.Pick(c, n.hs)
	if a == b || len(b.Known) == 0 {
		return
	}
	t := b.Tok()
	r := b.Refs[t]
	if _, ok := lib.SplitToken(t); !ok || r == "" || strings.Count(t, ".") != 2 {
		return
	}
	a.CreateAs(t, r, lib.KV{K: "k", V: "other"})
	b.Look(t)
}

// C16: several stores on one database or server, with a twin each; every answer must be the twin's.
func c16(r *lib.R) {
	r.Bubble("neighbours", r.N(6000, 200000), func(c *lib.C) {
		c.NoLeak()
		kind := pickKind(c)
		long := c.P(0.4)
		n := newNeighbours(c, kind, func() lib.Opts {
			for { // of one time scale, so that the clearing of one does not run for ever within the lifetimes of another
				if o := randomOpts(c, kind); (o.Access == time.Hour) == long {
					return o
				}
			}
		})
		p := lib.Profile{Create: 22, Recreate: 4, Refresh: 12, BadRefresh: 3, Put: 12, Get: 4, Keys: 2, Delete: 5, Destroy: 8, DestroyTok: 5, Pass: 5, Look: 4,
			IDs: append([]string{"u", "b", "a", "ab", "bu", "*", "b.c", "x"}, c.IDNames(2)...), KeyPool: c.KeyNames(4), MaxPairs: 3, Many: 0.01, Sessions: 10}
		for i := range p.IDs {
			if strings.Contains(p.IDs[i], ".") {
				p.IDs[i] = "c"
				if kind != "bolt" && c.P(0.5) {
					p.IDs[i] = ""
				}
			}
		}
		for i, m := 0, 30+c.Intn(60); i < m; i++ {
			h := lib.Pick(c, n.hs)
			switch {
			case c.P(0.2):
				n.cross()
			case c.P(0.07):
				n.adopt()
			case kind == "bolt" && c.P(0.03):
				h.Do(lib.Op{F: "Clear"})
				c.Add("clears", 1)
			case kind != "memory" && c.P(0.03):
				h.Reopen(h.E.Opts)
			case c.P(0.02):
				lib.Pick(c, n.hs).Do(lib.Op{F: "Destroy", ID: lib.Pick(c, []string{"", "*", "a.b", "b.c", "u.x"})})
			default:
				h.Step(p)
			}
			if c.P(0.2) {
				x := lib.Pick(c, n.hs)
				if len(x.Known) > 0 {
					x.Look(x.Tok())
				}
			}
			if c.P(0.03) {
				for _, x := range n.hs {
					x.Glance()
				}
				n.look()
			}
		}
		// one is closed for good
		x := c.Intn(len(n.hs))
		gone := n.hs[x]
		c.Logf("close store %d", x)
		c.Do("Close", func() { gone.E.P.Close(); gone.Twin.P.Close() })
		for i, h := range n.hs {
			if i != x {
				h.Finale()
			}
		}
		n.look()
		if kind != "memory" {
			gone.E.Start(gone.E.Opts)
			gone.Twin.Start(gone.E.Opts)
			gone.Sweep()
		}
		n.close()
	})
	r.Bubble("parallel", r.N(2500, 80000), func(c *lib.C) {
		c.NoLeak()
		// the stores work at the same time
		kind := pickKind(c)
		n := newNeighbours(c, kind, func() lib.Opts {
			o := randomOpts(c, kind)
			o.Access, o.Refresh = 100*time.Hour, 1000*time.Hour
			if o.Clear > 0 {
				o.Clear = time.Duration(100+c.Intn(2000)) * time.Microsecond
			}
			return o
		})
		for round := 0; round < 1+c.Intn(3); round++ {
			var fs []func()
			type rec struct {
				op  lib.Op
				res lib.Res
			}
			scripts := make([][]rec, len(n.hs))
			for i, h := range n.hs {
				for j, m := 0, 3+c.Intn(10); j < m; j++ {
					scripts[i] = append(scripts[i], rec{op: parallelOp(h)})
				}
				fs = append(fs, func() {
					for j := range scripts[i] {
						scripts[i][j].res = lib.Call(h.E.P, scripts[i][j].op)
					}
				})
			}
			c.Chaos(0.05, 20*time.Microsecond)
			c.Par("stores in parallel", fs...)
			c.Calm()
			c.Settle()
			for i, h := range n.hs {
				for _, s := range scripts[i] {
					var want lib.Res
					c.Do(s.op.F, func() { want = lib.Call(h.Twin.P, s.op) })
					c.Add("operations", 1)
					c.Add("operations_in_parallel", 1)
					c.Logf("store %d: %v -> %v", i, s.op, s.res)
					c.Sig(i, s.op.F, s.res.Err)
					if !lib.Same(s.res, []lib.Res{want}) {
						c.Failf("%s provider (%v), with others on the same storage at work: %v returned %v; alone, %v", kind, h.E.Opts, s.op, s.res, want)
					}
				}
			}
			for _, h := range n.hs {
				h.Glance()
			}
			n.look()
		}
		n.close()
	})
}

// parallelOp makes an operation without looking at its outcome.
func parallelOp(h *lib.Hist) lib.Op {
	c := h.C
	id := lib.Pick(c, []string{"u", "b", "a", "*"})
	known := func() string {
		if len(h.Known) == 0 || c.P(0.05) {
			return h.Token(id)
		}
		return h.Known[c.Intn(len(h.Known))]
	}
	k := lib.Pick(c, []string{"k", "l", "m1"})
	switch c.Weighted(30, 12, 20, 15, 10, 5, 8, 8, 8) {
	case 0:
		t, r := h.Token(id), h.Token(id)
		h.Known = append(h.Known, t)
		h.Refs[t] = r
		return lib.Op{F: "Create", Tok: t, Ref: r, Pairs: []lib.KV{{K: k, V: h.Value(0)}}}
	case 1:
		t := known()
		id, _ := lib.SplitToken(t)
		nt, nr := h.Token(id), h.Token(id)
		h.Known = append(h.Known, nt)
		h.Refs[nt] = nr
		r := h.Refs[t]
		if r == "" {
			r = h.Token(id)
		}
		return lib.Op{F: "Refresh", Tok: t, Ref: r, NTok: nt, NRef: nr}
	case 2:
		return lib.Op{F: "Put", Tok: known(), Pairs: []lib.KV{{K: k, V: h.Value(0)}}}
	case 3:
		return lib.Op{F: "Get", Tok: known(), Keys: []string{"k", "l", "m1"}}
	case 4:
		return lib.Op{F: "Keys", Tok: known()}
	case 5:
		return lib.Op{F: "Delete", Tok: known(), Keys: []string{k}}
	case 6:
		return lib.Op{F: "Check", Tok: known()}
	case 7:
		return lib.Op{F: "DestroyByToken", Tok: known()}
	}
	return lib.Op{F: "Destroy", ID: id}
}
