package checks

import (
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/boltdb/bolt"
	"github.com/powerpuffpenguin/sessionid"
	pbolt "github.com/powerpuffpenguin/sessionid/provider/bolt"
	predis "github.com/powerpuffpenguin/sessionid/provider/redis"

	"verif.local/h/fakeredis"
	"verif.local/h/lib"
)

func init() {
	all["C24"] = c24
}

// slack is by how much waiting for a file may differ from its timeout.
const slack = 500 * time.Millisecond

// C24: opening stores.
func c24(r *lib.R) {
	r.Bubble("locked", r.N(1500, 40000), func(c *lib.C) {
		// several providers want one file, with timeouts of their own
		c.NoLeak()
		o := boltOpts(c)
		o.Own, o.Clear, o.Max = true, 0, 0
		o.Access, o.Refresh, o.Life = time.Hour, 24*time.Hour, nil
		h := c.NewHist("bolt", o)
		t := h.Create("u", lib.KV{K: "k", V: "v"})
		type waiter struct {
			timeout, took time.Duration
			err           error
			check         string
			nilP          bool
		}
		var ws []*waiter
		var fs []func()
		hold := time.Duration(c.Intn(60000)) * time.Millisecond
		free := hold
		for i, n := 0, 1+c.Intn(3); i < n; i++ {
			w := &waiter{timeout: time.Duration(c.Intn(60000)) * time.Millisecond}
			switch c.Intn(6) {
			case 0:
				w.timeout = time.Duration(-c.Intn(2)) * time.Second // without end
			case 1:
				w.timeout = hold + time.Duration(c.Intn(4000)-2000)*time.Millisecond
			case 2:
				w.timeout = time.Duration(1+c.Intn(1000)) * time.Millisecond
			}
			ws = append(ws, w)
			deflt := c.P(0.1)
			if deflt {
				w.timeout = 30 * time.Second
			}
			fs = append(fs, func() {
				at := time.Now()
				opt := []pbolt.Option{pbolt.WithFilename(h.E.Path), pbolt.WithBucket([]byte(bucketOf(o))), pbolt.WithClear(0)}
				if !deflt {
					opt = append(opt, pbolt.WithTimeout(w.timeout))
				}
				p, err := pbolt.New(opt...)
				w.took, w.err, w.nilP = time.Since(at), err, p == nil
				if err != nil {
					return
				}
				w.check = lib.Call(p, lib.Op{F: "Check", Tok: t}).Err
				if err := p.Close(); err != nil {
					c.Failf("Close of a provider that waited for its file: %v", err)
				}
			})
		}
		fs = append(fs, func() {
			time.Sleep(hold)
			if r := lib.Call(h.E.P, lib.Op{F: "Check", Tok: t}); r.Err != lib.OK {
				c.Failf("bolt provider: Check returned %v while others wait for its file", r)
			}
			h.E.P.Close()
		})
		c.Par("bolt.New of a file in use", fs...)
		for _, w := range ws {
			c.Logf("timeout %v, file free after %v: New returned %v after %v", w.timeout, free, w.err, w.took)
			c.Sig(w.err == nil, w.took)
			switch {
			case w.err == nil && w.took < hold:
				c.Failf("bolt.New returned a provider after %v, its file was in use until %v", w.took, hold)
			case w.err == nil && w.took > hold+slack:
				c.Failf("bolt.New returned after %v, its file was free after %v", w.took, hold)
			case w.err == nil && w.check != lib.OK:
				c.Failf("bolt.New that waited for its file opened a store in which Check of a live session returns %v", w.check)
			case w.err == nil && w.timeout > 0 && w.took > w.timeout+slack:
				c.Failf("bolt.New with timeout %v returned a provider after %v", w.timeout, w.took)
			case w.err != nil && w.timeout <= 0:
				c.Failf("bolt.New without a timeout returned %v", w.err)
			case w.err != nil && (w.took < w.timeout-slack || w.took > w.timeout+slack):
				c.Failf("bolt.New with timeout %v failed after %v: %v", w.timeout, w.took, w.err)
			case w.err != nil && w.timeout > hold+slack:
				c.Failf("bolt.New with timeout %v failed, its file was free after %v: %v", w.timeout, hold, w.err)
			case w.err != nil && !w.nilP:
				c.Failf("bolt.New returned a provider and %v", w.err)
			}
			if w.err == nil {
				c.Add("files_waited_for", 1)
			} else {
				c.Add("timeouts", 1)
			}
		}
		// whatever happened, the file is free and the store as it was
		h.E.P = nil
		n := c.Adopt(h.E, o)
		n.M, n.Known, n.Refs = h.M, h.Known, h.Refs
		n.Serials(1000)
		n.Sweep()
		n.End()
	})
	r.Bubble("files", r.N(1500, 40000), func(c *lib.C) {
		c.NoLeak()
		dir := c.TempDir()
		path := filepath.Join(dir, lib.Pick(c, []string{"s.db", "名.db", "a b", ".x", "sessionid.db"}))
		mode := lib.Pick(c, []os.FileMode{0o600, 0o640, 0o644, 0o660, 0o666, 0o400})
		umask := os.FileMode(0o022)
		other := filepath.Join(dir, "other.db")
		db, err := bolt.Open(other, 0o600, &bolt.Options{Timeout: time.Second})
		if err != nil {
			c.Inconclusive("bolt.Open: %v", err)
		}
		defer db.Close()
		fails := func(what string, opt ...pbolt.Option) {
			var p *pbolt.Provider
			var err error
			c.Do("bolt.New", func() { p, err = pbolt.New(opt...) })
			if err == nil || p != nil {
				c.Failf("bolt.New with %s returned %v, %v", what, p, err)
			}
			c.Add("openings_refused", 1)
		}
		open := func(opt ...pbolt.Option) (p *pbolt.Provider) {
			var err error
			c.Do("bolt.New", func() { p, err = pbolt.New(opt...) })
			if err != nil {
				c.Failf("bolt.New: %v", err)
			}
			c.Add("openings", 1)
			return
		}
		closeP := func(p sessionid.Provider) {
			var err error
			c.Do("Close", func() { err = p.Close() })
			if err != nil {
				c.Failf("Close: %v", err)
			}
		}
		name, modeO := pbolt.WithFilename(path), pbolt.WithFileMode(mode)
		for i, n := 0, 1+c.Intn(6); i < n; i++ {
			before, _ := os.ReadDir(dir)
			_, statErr := os.Stat(path)
			k := c.Intn(6)
			c.Logf("step %d", k)
			c.Sig(k, mode, path[len(path)-3:])
			switch k {
			case 0: // the file, with its mode
				p := open(name, modeO, pbolt.WithTimeout(time.Second))
				st, err := os.Stat(path)
				if err != nil {
					c.Failf("bolt.New did not make its file: %v", err)
				}
				if want := mode &^ umask; statErr != nil && st.Mode().Perm() != want {
					c.Failf("bolt.New with mode %v made a file of mode %v", mode, st.Mode().Perm())
				}
				if r := lib.Call(p, lib.Op{F: "Create", Tok: "u.x.y", Ref: "u.z.y"}); r.Err != lib.OK {
					c.Failf("Create on a provider just opened: %v", r)
				}
				closeP(p)
				c.Add("modes_compared", 1)
			case 1: // a bucket without a name: refused, and the file is free
				fails("an empty bucket name", name, modeO, pbolt.WithBucket(nil))
				if db, err := bolt.Open(path, 0o600, &bolt.Options{Timeout: time.Millisecond}); err != nil {
					c.Failf("a bolt.New that failed keeps its file: %v", err)
				} else {
					db.Close()
				}
				os.Remove(path)
			case 2:
				fails("a directory for a file", pbolt.WithFilename(dir), pbolt.WithTimeout(time.Second))
			case 3:
				fails("a file in no directory", pbolt.WithFilename(filepath.Join(dir, "none", "s.db")))
			case 4: // a database of the caller: no file is made, the database stays open
				opt := []pbolt.Option{pbolt.WithDB(db), name, modeO}
				if c.P(0.5) {
					opt[0], opt[2] = opt[2], opt[0]
				}
				p := open(opt...)
				after, _ := os.ReadDir(dir)
				if len(after) != len(before) {
					c.Failf("bolt.New with a database made a file: %v, then %v", before, after)
				}
				lib.Call(p, lib.Op{F: "Create", Tok: "u.x.y", Ref: "u.z.y"})
				closeP(p)
				if err := db.View(func(t *bolt.Tx) error {
					if t.Bucket([]byte("sessionid")) == nil {
						return fmt.Errorf("the default bucket is not there")
					}
					return nil
				}); err != nil {
					c.Failf("the caller's database after Close: %v", err)
				}
			case 5: // the same options once more, and others after them
				short := []pbolt.Option{pbolt.WithAccess(time.Second), pbolt.WithRefresh(2 * time.Second), pbolt.WithMaxSize(1), pbolt.WithClear(0), pbolt.WithBucket([]byte("b")), pbolt.WithDB(db), pbolt.WithCheckBatch(-1)}
				a := open(short...)
				b := open(pbolt.WithDB(db), pbolt.WithBucket([]byte("d")))
				d := open(append(short, pbolt.WithBucket([]byte("e")), pbolt.WithMaxSize(2))...)
				for j := 0; j < 3; j++ {
					for _, p := range []sessionid.Provider{a, b, d} {
						if r := lib.Call(p, lib.Op{F: "Create", Tok: fmt.Sprintf("u.x%d.y", j), Ref: "u.z.y"}); r.Err != lib.OK {
							c.Failf("Create: %v", r)
						}
					}
				}
				see := func(want ...string) {
					got := []string{}
					for _, p := range []sessionid.Provider{a, b, d} {
						for j := 0; j < 3; j++ {
							r := lib.Call(p, lib.Op{F: "Check", Tok: fmt.Sprintf("u.x%d.y", j)})
							got = append(got, map[string]string{lib.OK: "+", lib.Missing: "-", lib.Expired: "e"}[r.Err])
						}
					}
					if g := strings.Join(got, ""); g != strings.Join(want, "") {
						c.Failf("sessions of three providers with options of their own after %v are %s, want %v", time.Since(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)), g, want)
					}
				}
				see("--+", "+++", "-++")
				c.Sleep(time.Second)
				see("--e", "+++", "-ee")
				c.Sleep(time.Second)
				see("---", "+++", "---")
				c.Sleep(time.Hour - 2*time.Second)
				see("---", "eee", "---")
				for _, p := range []*pbolt.Provider{a, b, d} {
					c.Do("Clear", func() { p.Clear() })
					closeP(p)
				}
				c.Add("options_reused", 1)
			}
			after, _ := os.ReadDir(dir)
			if len(after) > 2 {
				c.Failf("bolt.New made other files than its own: %v", after)
			}
		}
	})
	r.Bubble("options", r.N(3000, 60000), func(c *lib.C) {
		// the options of one memory provider are not those of the next
		c.NoLeak()
		mk := func(opt ...sessionid.ProviderOption) (p sessionid.Provider) {
			c.Do("NewProvider", func() { p = sessionid.NewProvider(opt...) })
			return
		}
		life := time.Duration(1+c.Intn(100)) * time.Second
		limit := 1 + c.Intn(4)
		shared := []sessionid.ProviderOption{sessionid.WithProviderAccess(life), sessionid.WithProviderRefresh(2 * life),
			sessionid.WithProviderMaxSize(limit), sessionid.WithProviderClear(time.Duration(c.Intn(3)-1) * life), sessionid.WithProviderCheckBatch(c.Intn(4) - 1)}
		ps := []sessionid.Provider{mk(shared...), mk(), mk(shared...), mk(sessionid.WithProviderMaxSize(0))}
		n := limit + 1 + c.Intn(3)
		for _, p := range ps {
			for j := 0; j < n; j++ {
				lib.Call(p, lib.Op{F: "Create", Tok: fmt.Sprintf("u.x%d.y", j), Ref: "u.z.y"})
			}
		}
		see := func(i, j int, want string) {
			var r lib.Res
			c.Do("Check", func() { r = lib.Call(ps[i], lib.Op{F: "Check", Tok: fmt.Sprintf("u.x%d.y", j)}) })
			c.Add("operations", 1)
			if r.Err != want {
				c.Failf("four memory providers, the first and third with lifetimes %v, %v and limit %d, the second with defaults, the fourth with no limit: session %d of %d in number %d is %v, want %s", life, 2*life, limit, j, n, i, r, want)
			}
		}
		look := func(short, long string) {
			for j := 0; j < n; j++ {
				for i := range ps {
					switch {
					case i%2 == 1:
						see(i, j, long)
					case j < n-limit:
						see(i, j, lib.Missing)
					default:
						see(i, j, short)
					}
				}
			}
		}
		c.Sig(life, limit, n)
		look(lib.OK, lib.OK)
		c.Sleep(life - 1)
		look(lib.OK, lib.OK)
		c.Sleep(1)
		look(lib.Expired, lib.OK)
		c.Sleep(life)
		look(lib.Missing, lib.OK)
		c.Sleep(time.Hour - 2*life)
		look(lib.Missing, lib.Expired)
		c.Sleep(23 * time.Hour)
		look(lib.Missing, lib.Missing)
		for _, p := range ps {
			c.Do("Close", func() { p.Close() })
		}
		c.Add("options_reused", 1)
	})
	r.Cases("urls", r.N(160, 2000), func(c *lib.C) {
		// servers, databases and users named by URL; on the real clock, over loopback
		srv, wrong := fakeredis.New(), fakeredis.New()
		l, err := lib.ListenRedis(srv)
		if err != nil {
			c.Inconclusive("loopback: %v", err)
		}
		defer l.Close()
		defer srv.CloseAll()
		addr := l.Addr().String()
		user := ""
		if c.P(0.6) {
			srv.Auth = [2]string{"default", lib.Pick(c, []string{"pw", "p%w", "p@w", "x:y"})}
			name := ""
			if c.P(0.5) {
				srv.Auth[0], name = "someone", "someone"
			}
			user = name + ":" + strings.NewReplacer("%", "%25", "@", "%40", ":", "%3A").Replace(srv.Auth[1]) + "@"
		}
		n := lib.Pick(c, []string{"0", "0", "1", "3", "15"})
		url := "redis://" + user + addr + "/" + n
		c.Logf("%s", url)
		c.Sig(n, srv.Auth)
		prefix := lib.Pick(c, []string{"", "a.", defaultRedisPrefix})
		opt := []predis.Option{predis.WithURL(url)}
		if prefix != defaultRedisPrefix {
			opt = append(opt, predis.WithKeyPrefix(prefix))
		}
		w := (&lib.Env{Srv: wrong}).NewClient()
		if c.P(0.3) { // a client takes precedence
			w.Close()
			srv.Auth = [2]string{}
			w = (&lib.Env{Srv: srv.DB(n)}).NewClient()
			opt[0] = predis.WithURL("redis://127.0.0.1:1/0")
			opt = append(opt, predis.WithClient(w))
		}
		defer w.Close()
		var p sessionid.Provider
		c.Do("redis.New", func() { p, err = predis.New(opt...) })
		if err != nil {
			c.Failf("redis.New with %s: %v", url, err)
		}
		tok := fmt.Sprintf("u.x%d.y", c.I)
		if r := lib.Call(p, lib.Op{F: "Create", Tok: tok, Ref: "u.z.y", Pairs: []lib.KV{{K: "k", V: "v"}}}); r.Err != lib.OK {
			c.Failf("redis provider of %s: Create returned %v", url, r)
		}
		for i := 0; i < 16; i++ {
			x := fmt.Sprint(i)
			keys := 0
			for k := range srv.DB(x).Dump() {
				keys++
				if x != n || k != prefix+tok {
					c.Failf("redis provider of %s with prefix %q keeps %q in database %s", url, prefix, k, x)
				}
			}
			if x == n && keys != 1 {
				c.Failf("redis provider of %s keeps nothing in database %s", url, n)
			}
		}
		if r := lib.Call(p, lib.Op{F: "Get", Tok: tok, Keys: []string{"k"}}); r.Err != lib.OK || r.Vals[0].B != "v" {
			c.Failf("redis provider of %s: Get returned %v", url, r)
		}
		if err := p.Close(); err != nil {
			c.Failf("redis provider of %s: Close returned %v", url, err)
		}
		c.Add("urls_opened", 1)
	})
	r.Bubble("metadata coder", r.N(800, 20000), func(c *lib.C) {
		// each redis provider writes and reads its own records with the coder it was given
		coders := []*marking{{mark: "a" + c.Word(2)}, {mark: "b" + c.Word(2)}, nil}
		var ps []*lib.Hist
		first := (*lib.Env)(nil)
		for i, m := range coders[:2+c.Intn(2)] {
			o := lib.Opts{Access: time.Hour, Refresh: 2 * time.Hour, Prefix: ptr(fmt.Sprint("p", i, "."))}
			if m != nil {
				o.Coder = m
			}
			if first == nil {
				h := c.NewHist("redis", o)
				first = h.E
				ps = append(ps, h)
				continue
			}
			ps = append(ps, c.Adopt(first.Share(o), o))
		}
		prof := lib.Profile{Create: 20, Recreate: 4, Refresh: 12, BadRefresh: 3, Put: 10, Get: 10, Keys: 4, Delete: 4, Check: 10, DestroyTok: 3, Look: 10,
			IDs: []string{"u", "u1"}, KeyPool: c.KeyNames(3), MaxPairs: 3, Sessions: 6}
		look := func() {
			dump := first.Srv.Dump()
			for i, h := range ps {
				for _, s := range h.M.Order {
					md := dump[*h.E.Opts.Prefix+s.Tok].Hash[h.M.Reserved]
					for j, m := range coders {
						if m != nil && strings.HasPrefix(md, m.mark) != (i == j) {
							c.Failf("redis provider with the coder number %d keeps the record %q; the marks of the coders are %q and %q", i, md, coders[0].mark, coders[1].mark)
						}
					}
					c.Add("records_compared_with_coders", 1)
				}
			}
		}
		for i, n := 0, 10+c.Intn(20); i < n; i++ {
			lib.Pick(c, ps).Step(prof)
			look()
		}
		// what the coder cannot do fails
		h, m := ps[0], coders[0]
		t, id := h.Create("u", lib.KV{K: "k", V: "v"}), "u"
		m.broken = true
		n := h.Token(id)
		for _, o := range []lib.Op{{F: "Check", Tok: t}, {F: "Get", Tok: t, Keys: []string{"k"}}, {F: "Keys", Tok: t}, {F: "Put", Tok: t, Pairs: []lib.KV{{K: "k", V: "w"}}},
			{F: "Refresh", Tok: t, Ref: h.Refs[t], NTok: n, NRef: h.Token(id)}, {F: "Create", Tok: n, Ref: h.Token(id)}, {F: "Delete", Tok: t, Keys: []string{"k"}}} {
			var r lib.Res
			c.Do(o.F, func() { r = lib.Call(h.E.P, o) })
			c.Logf("with a broken coder %v -> %v", o, r)
			if r.Err == lib.OK {
				c.Failf("redis provider: %v with a coder that fails returns %v", o, r)
			}
		}
		m.broken = false
		h.Look(t)
		h.Do(lib.Op{F: "Check", Tok: n})
		for _, x := range ps[1:] {
			x.Sweep()
			c.Do("Close", func() { x.E.P.Close() })
			x.E.Client.Close()
		}
		h.Sweep()
		h.E.Close()
	})
	r.Cases("default url", r.N(3, 24), func(c *lib.C) {
		// providers without a URL and a client: each has a connection of its own to the server on the default port
		srv := fakeredis.New()
		var l net.Listener
		var err error
		for i := 0; i < 400; i++ {
			if l, err = lib.ListenRedisAt("127.0.0.1:6379", srv); err == nil {
				break
			}
			time.Sleep(25 * time.Millisecond)
		}
		if err != nil {
			c.Inconclusive("the default port is in use: %v", err)
		}
		defer l.Close()
		defer srv.CloseAll()
		var ps []*predis.Provider
		serial := 0
		toks := map[int]string{}
		use := func(i int) {
			if t := toks[i]; t != "" {
				if r := lib.Call(ps[i], lib.Op{F: "Get", Tok: t, Keys: []string{"k"}}); r.Err != lib.OK || r.Vals[0].B != "v" {
					c.Failf("redis provider %d without a URL: Get returned %v", i, r)
				}
			}
			serial++
			t := fmt.Sprintf("u.x%d.y", serial)
			if r := lib.Call(ps[i], lib.Op{F: "Create", Tok: t, Ref: "u.z.y", Pairs: []lib.KV{{K: "k", V: "v"}}}); r.Err != lib.OK {
				c.Failf("redis provider %d without a URL: Create returned %v", i, r)
			}
			toks[i] = t
			if _, ok := srv.DB("0").Dump()[defaultRedisPrefix+t]; !ok {
				c.Failf("redis provider %d without a URL keeps its sessions elsewhere", i)
			}
		}
		for step := 0; step < 12; step++ {
			var p *predis.Provider
			k := c.Intn(3)
			c.Sig(k)
			switch {
			case len(ps) == 0 || k == 0:
				c.Do("redis.New", func() { p, err = predis.New() })
				if err != nil {
					c.Failf("redis.New without options: %v", err)
				}
				ps = append(ps, p)
				c.Add("default_urls_opened", 1)
			case k == 1:
				i := c.Intn(len(ps))
				if err := ps[i].Close(); err != nil {
					c.Failf("redis provider without a URL: Close returned %v", err)
				}
				if r := lib.Call(ps[i], lib.Op{F: "Check", Tok: "u.x.y"}); r.Err != lib.Closed {
					c.Failf("redis provider without a URL: Check after Close returned %v", r)
				}
				ps = append(ps[:i], ps[i+1:]...)
				toks = map[int]string{}
			}
			for i := range ps {
				use(i)
			}
		}
		for _, p := range ps {
			p.Close()
		}
	})
	r.Cases("bad urls", r.N(60, 600), func(c *lib.C) {
		before := runtime.NumGoroutine()
		for _, url := range []string{"", "localhost:6379", "http://127.0.0.1:6379/0", "redis://127.0.0.1:6379/x", "redis://127.0.0.1:6379/0/1", "redis://[::1", "://", "redis://127.0.0.1:6379/-"} {
			var p *predis.Provider
			var err error
			c.Do("redis.New", func() { p, err = predis.New(predis.WithURL(url)) })
			if err == nil || p != nil {
				c.Failf("redis.New with the URL %q returned %v, %v", url, p, err)
			}
			c.Sig(url)
			c.Add("urls_refused", 1)
		}
		for i := 0; runtime.NumGoroutine() > before; i++ {
			if i == 2000 {
				c.Failf("goroutines are left after redis.New failed: %d, before %d", runtime.NumGoroutine(), before)
			}
			time.Sleep(time.Millisecond)
		}
	})
}

const defaultRedisPrefix = "sessionid.provider.redis."

func bucketOf(o lib.Opts) string {
	if o.Bucket == "" {
		return "sessionid"
	}
	return o.Bucket
}

// marking is a coder whose output tells which one it is.
type marking struct {
	mark   string
	broken bool
}

func (m *marking) Encode(v interface{}) ([]byte, error) {
	if m.broken {
		return nil, errors.New(m.mark)
	}
	b, err := sessionid.GOBCoder{}.Encode(v)
	return append([]byte(m.mark), b...), err
}

func (m *marking) Decode(b []byte, v interface{}) error {
	if m.broken || !strings.HasPrefix(string(b), m.mark) {
		return errors.New(m.mark)
	}
	return sessionid.GOBCoder{}.Decode(b[len(m.mark):], v)
}
