package checks

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
	pbolt "github.com/powerpuffpenguin/sessionid/provider/bolt"
	predis "github.com/powerpuffpenguin/sessionid/provider/redis"

	"verif.local/h/fakeredis"
	"verif.local/h/lib"
	"verif.local/h/vsched"
)

func init() {
	all["C10"] = c10
}

// What the caller does with its own slices once a call has returned. The race detector names these functions.

//go:noinline
func callerOwnedScribble(b []byte) {
	for i := range b {
		b[i]++
	}
}

//go:noinline
func callerOwnedScribbleKeys(s []string) {
	for i := range s {
		s[i] = "scribbled"
	}
}

//go:noinline
func callerOwnedScribblePairs(p []sessionid.PairBytes) {
	for i := range p {
		p[i] = sessionid.PairBytes{Key: "scribbled"}
	}
}

//go:noinline
func callerOwnedScribbleAny(p []sessionid.Pair) {
	for i := range p {
		if b, ok := p[i].Value.([]byte); ok {
			callerOwnedScribble(b)
		}
		if s, ok := p[i].Value.([]string); ok {
			callerOwnedScribbleKeys(s)
		}
		p[i] = sessionid.Pair{Key: "scribbled"}
	}
}

//go:noinline
func callerOwnedScribbleValues(v []sessionid.Value) {
	for i := range v {
		callerOwnedScribble(v[i].Bytes)
		v[i] = sessionid.Value{}
	}
}

//go:noinline
func callerOwnedRead(kept [][]byte) (n int) {
	for _, b := range kept {
		for _, x := range b {
			n += int(x)
		}
	}
	return
}

// span is one call as its goroutine saw it. The goroutines share nothing while they run: what the harness synchronised
// would hide races of the library.
type span struct {
	from, to time.Time
	f        string
}

type worker struct {
	rng   *rand.Rand
	spans []span
	errs  map[string]int
	sum   int
}

func (w *worker) call(f string, call func() error) {
	t := time.Now()
	err := call()
	w.spans = append(w.spans, span{t, time.Now(), f})
	e := lib.ErrCode(err)
	if strings.HasPrefix(e, "error: ") {
		e = "other"
	}
	w.errs[e]++
}

// workers runs n functions at once and counts what they did.
func workers(c *lib.C, what string, n int, f func(w *worker, g int)) {
	ws := make([]*worker, n)
	var fs []func()
	for g := range ws {
		ws[g] = &worker{rng: rand.New(rand.NewPCG(c.Rng.Uint64(), 1)), errs: map[string]int{}}
		fs = append(fs, func() { f(ws[g], g) })
	}
	vsched.Configure(vsched.Real, 0.03, 20*time.Microsecond, c.Rng.Uint64())
	c.Par(what, fs...)
	vsched.Configure(vsched.Off, 0, 1, 1)
	type ev struct {
		span
		g int
	}
	var evs []ev
	for g, w := range ws {
		for _, s := range w.spans {
			evs = append(evs, ev{s, g})
		}
		for e, k := range w.errs {
			c.Add("result_"+e, k)
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].from.Before(evs[j].from) })
	var order strings.Builder
	overlaps := 0
	for i, e := range evs {
		fmt.Fprintf(&order, "%d%s ", e.g, e.f)
		for j := i - 1; j >= 0 && j > i-50; j-- {
			if evs[j].g != e.g && evs[j].to.After(e.from) {
				overlaps++
			}
		}
	}
	c.Add("operations", len(evs))
	c.Add("overlapping_pairs", overlaps)
	c.Sig(order.String())
	s := order.String()
	c.Logf("%s: %d goroutines, %d calls, %d overlapping pairs; order of the first: %s", what, n, len(evs), overlaps, s[:min(len(s), 300)])
}

func raceOpts(c *lib.C, kind string) lib.Opts {
	o := lib.Opts{Access: time.Duration(3+c.Intn(20)) * time.Millisecond}
	o.Refresh = o.Access + time.Duration(c.Intn(20))*time.Millisecond
	if c.P(0.3) {
		o.Access, o.Refresh = time.Hour, time.Hour
	}
	o.SetBatch, o.Batch = true, c.Intn(4)
	if kind != "redis" {
		if c.P(0.7) {
			o.Clear = time.Duration(200+c.Intn(3000)) * time.Microsecond
		}
		if c.P(0.4) {
			o.Max = 3 + c.Intn(6)
		}
	}
	if kind == "bolt" && c.P(0.3) {
		o.Own = true
	}
	return o
}

// open makes a provider for use on the real clock; redis over the loopback network now and then.
func openReal(c *lib.C, kind string, o lib.Opts) (sessionid.Provider, func()) {
	if kind == "redis" && c.P(0.3) {
		srv := fakeredis.New()
		l, err := lib.ListenRedis(srv)
		if err != nil {
			c.Inconclusive("loopback network: %v", err)
		}
		p, err := predis.New(predis.WithURL("redis://"+l.Addr().String()+"/0"), predis.WithAccess(o.Access), predis.WithRefresh(o.Refresh), predis.WithCheckBatch(o.Batch))
		if err != nil {
			c.Failf("redis provider at %v: %v", l.Addr(), err)
		}
		c.Add("providers_over_tcp", 1)
		return p, func() { p.Close(); l.Close(); srv.CloseAll() }
	}
	e := c.Open(kind, o)
	return e.P, e.Close
}

// tokens makes well-formed tokens of few ids, and what they may be refreshed to.
func raceTokens(c *lib.C, n int) (toks, refs []string) {
	for i := range n {
		id := lib.Pick(c, []string{"u", "v"})
		toks = append(toks, fmt.Sprintf("%s.s%d.%s", id, i, c.Word(4)))
		refs = append(refs, fmt.Sprintf("%s.r%d.%s", id, i, c.Word(4)))
	}
	return
}

// anyCall makes a random provider call and scribbles on everything that passed.
func anyCall(w *worker, p sessionid.Provider, toks, refs []string, kept *[][]byte) {
	ctx := context.Background()
	i := w.rng.IntN(len(toks))
	t := toks[i]
	keys := []string{"a", "b", "c", "d"}
	pairs := func() (out []sessionid.PairBytes) {
		for range 1 + w.rng.IntN(3) {
			out = append(out, sessionid.PairBytes{Key: keys[w.rng.IntN(4)], Value: []byte{1, 2, 3, byte(w.rng.Uint32())}})
		}
		return
	}
	switch w.rng.IntN(14) {
	case 0, 1:
		kv := pairs()
		w.call("Create", func() error { return p.Create(ctx, t, refs[i], kv) })
		for _, x := range kv {
			callerOwnedScribble(x.Value)
		}
		callerOwnedScribblePairs(kv)
	case 2, 3, 4:
		kv := pairs()
		w.call("Put", func() error { return p.Put(ctx, t, kv) })
		for _, x := range kv {
			callerOwnedScribble(x.Value)
		}
		callerOwnedScribblePairs(kv)
	case 5, 6, 7:
		ks := append([]string{}, keys[:1+w.rng.IntN(4)]...)
		var vals []sessionid.Value
		w.call("Get", func() (err error) { vals, err = p.Get(ctx, t, ks); return })
		callerOwnedScribbleKeys(ks)
		if w.rng.IntN(2) == 0 {
			callerOwnedScribbleValues(vals)
		} else {
			for _, v := range vals {
				*kept = append(*kept, v.Bytes)
			}
			w.sum += callerOwnedRead(*kept)
		}
	case 8:
		var ks []string
		w.call("Keys", func() (err error) { ks, err = p.Keys(ctx, t); return })
		callerOwnedScribbleKeys(ks)
	case 9:
		ks := append([]string{}, keys[:w.rng.IntN(3)]...)
		w.call("Delete", func() error { return p.Delete(ctx, t, ks) })
		callerOwnedScribbleKeys(ks)
	case 10:
		w.call("Check", func() error { return p.Check(ctx, t) })
	case 11:
		j := w.rng.IntN(len(toks))
		if t[0] != toks[j][0] {
			j = i
		}
		w.call("Refresh", func() error { return p.Refresh(ctx, t, refs[i], toks[j], refs[j]) })
	case 12:
		w.call("DestroyByToken", func() error { return p.DestroyByToken(ctx, t) })
	case 13:
		if w.rng.IntN(3) == 0 {
			w.call("Destroy", func() error { return p.Destroy(ctx, t[:1]) })
		}
		if x, ok := p.(interface{ Clear() error }); ok && w.rng.IntN(4) == 0 {
			w.call("Clear", x.Clear)
		}
	}
}

type Rich struct {
	Name string
	Tags []string
	B    []byte
}

// C10 runs in a build with the race detector, on the real clock and several processors.
func c10(r *lib.R) {
	r.Cases("provider", r.N(600, 24000), func(c *lib.C) {
		kind := lib.Kinds[c.I/c.Shards%3]
		o := raceOpts(c, kind)
		c.Logf("%s provider: %v", kind, o)
		p, end := openReal(c, kind, o)
		toks, refs := raceTokens(c, 3+c.Intn(4))
		closer := -1
		n := 3 + c.Intn(5)
		if c.P(0.5) {
			closer = c.Intn(n)
		}
		each := 60
		if kind == "memory" {
			each = 300
		}
		workers(c, kind, n, func(w *worker, g int) {
			var kept [][]byte
			for i := range each {
				if g == closer && i == each*2/3 {
					w.call("Close", p.Close)
				}
				anyCall(w, p, toks, refs, &kept)
				if len(kept) > 40 {
					kept = kept[20:]
				}
			}
			w.sum += callerOwnedRead(kept)
		})
		c.Add("provider_runs_"+kind, 1)
		end()
	})

	r.Cases("manager", r.N(360, 16000), func(c *lib.C) {
		kind := lib.Kinds[c.I/c.Shards%3]
		o := raceOpts(c, kind)
		o.Access, o.Refresh = max(o.Access, 15*time.Millisecond), max(o.Refresh, 30*time.Millisecond)
		p, end := openReal(c, kind, o)
		coder := lib.Pick(c, []sessionid.Coder{sessionid.GOBCoder{}, sessionid.JSONCoder{}, lib.Raw{}})
		_, raw := coder.(lib.Raw)
		m := lib.Manager(p, lib.Pick(c, methods), []byte("key"), coder)
		c.Logf("manager over %s provider: %v, coder %T", kind, o, coder)
		ctx := context.Background()
		// sessions that everybody uses, each through a Session of its own
		var shared, sharedRef []string
		for range 3 {
			s, ref, err := m.Create(ctx, lib.Pick(c, []string{"u", "v"}), sessionid.Pair{Key: "a", Value: []byte("initial")})
			if err != nil {
				c.Failf("Create: %v", err)
			}
			shared, sharedRef = append(shared, s.Token()), append(sharedRef, ref)
		}
		workers(c, "manager", 3+c.Intn(4), func(w *worker, g int) {
			toks, rfs := append([]string{}, shared...), append([]string{}, sharedRef...)
			value := func() any {
				if raw || w.rng.IntN(2) == 0 {
					return []byte{1, 2, byte(w.rng.Uint32())}
				}
				return []string{"x", fmt.Sprint(w.rng.IntN(9))}
			}
			pairs := func() (out []sessionid.Pair) {
				for range 1 + w.rng.IntN(3) {
					out = append(out, sessionid.Pair{Key: string(rune('a' + w.rng.IntN(4))), Value: value()})
				}
				return
			}
			sessions := map[string]*sessionid.Session{}
			for range 50 {
				i := w.rng.IntN(len(toks))
				s := sessions[toks[i]]
				if s == nil || w.rng.IntN(4) == 0 {
					w.call("manager.Get", func() (err error) { s, err = m.Get(ctx, toks[i]); return })
					sessions[toks[i]] = s
				}
				key := string(rune('a' + w.rng.IntN(5)))
				switch w.rng.IntN(12) {
				case 0:
					kv := pairs()
					var ref string
					w.call("manager.Create", func() (err error) { s, ref, err = m.Create(ctx, "u", kv...); return })
					callerOwnedScribbleAny(kv)
					if s != nil {
						sessions[s.Token()] = s
						toks, rfs = append(toks, s.Token()), append(rfs, ref)
					}
				case 1, 2, 3:
					kv := pairs()
					w.call("Put", func() error { return s.Put(ctx, kv...) })
					callerOwnedScribbleAny(kv)
				case 4, 5, 6:
					switch w.rng.IntN(3) {
					case 0:
						var b []byte
						w.call("Get", func() error { return s.Get(ctx, key, &b) })
						callerOwnedScribble(b)
					case 1:
						var l []string
						w.call("Get", func() error { return s.Get(ctx, key, &l) })
						callerOwnedScribbleKeys(l)
					case 2:
						var x Rich
						w.call("Get", func() error { return s.Get(ctx, key, &x) })
					}
				case 7:
					ks := []string{"a", key}
					w.call("Prepare", func() error { return s.Prepare(ctx, ks...) })
					callerOwnedScribbleKeys(ks)
				case 8:
					w.call("Keys", func() error { _, err := s.Keys(ctx); return err })
					w.call("Check", func() error { return s.Check(ctx) })
				case 9:
					ks := []string{key}
					w.call("Delete", func() error { return s.Delete(ctx, s.Token(), ks...) })
					callerOwnedScribbleKeys(ks)
				case 10:
					var a, b string
					w.call("manager.Refresh", func() (err error) { a, b, err = m.Refresh(ctx, toks[i], rfs[i]); return })
					if a != "" {
						toks[i], rfs[i] = a, b
					}
				case 11:
					switch w.rng.IntN(6) {
					case 0:
						w.call("Session.Destroy", func() error { return s.Destroy(ctx) })
					case 1:
						w.call("manager.DestroyByToken", func() error { return m.DestroyByToken(ctx, toks[i]) })
					case 2:
						w.call("manager.Destroy", func() error { return m.Destroy(ctx, "v") })
					}
				}
			}
		})
		c.Add("manager_runs_"+kind, 1)
		end()
	})

	r.Cases("registry", r.N(150, 5000), func(c *lib.C) {
		workers(c, "registry", 4+c.Intn(5), func(w *worker, g int) {
			for i := range 60 {
				n := fmt.Sprint("race", w.rng.IntN(4))
				switch w.rng.IntN(8) {
				case 0, 1:
					x := keyed{n}
					cryptoer.RegisterSigningMethod(n, func() cryptoer.SigningMethod { return x })
					w.call("Register", func() error { return nil })
				case 2, 3:
					if x := cryptoer.GetSigningMethod(n); x != nil && x.Alg() != "keyed"+n {
						c.Failf("GetSigningMethod(%q) gives %v", n, x)
					}
					w.call("Lookup", func() error { return nil })
				case 4, 5:
					a := algs[w.rng.IntN(len(algs))]
					x := cryptoer.GetSigningMethod(a.name)
					key := []byte{1, byte(i), byte(g)}
					w.call("Sign", func() error {
						t, err := cryptoer.Encode(x, key, n, "s")
						if err == nil {
							_, _, err = cryptoer.Decode(x, key, t)
						}
						if err != nil {
							c.Failf("%s: Decode of an encoded token beside others: %v", a.name, err)
						}
						return err
					})
				case 6:
					w.call("SessionID", func() error {
						_, err := cryptoer.SessionID()
						if err == nil {
							_, _, err = sessionid.CreateToken(algs[i%5].m, []byte("k"), "id")
						}
						return err
					})
				case 7:
					w.call("NewManager", func() error {
						d := sessionid.NewManager(sessionid.WithKey([]byte(n)))
						s, _, err := d.Create(context.Background(), fmt.Sprint(g), sessionid.Pair{Key: "k", Value: i})
						if err == nil {
							err = s.Destroy(context.Background())
						}
						return err
					})
				}
			}
		})
	})

	// stores that come and go on one database, and providers used while they are being closed
	r.Cases("stores", r.N(180, 7500), func(c *lib.C) {
		kind := lib.Kinds[c.I/c.Shards%3]
		o := raceOpts(c, kind)
		o.Own = false
		es := []*lib.Env{c.Open(kind, o)}
		if c.P(0.6) {
			es = append(es, c.Open(kind, o)) // and another that has nothing to do with it
		}
		toks, refs := raceTokens(c, 4)
		workers(c, "stores on "+kind, 3+c.Intn(3), func(w *worker, g int) {
			e := es[g%len(es)]
			var kept [][]byte
			for i := range 4 {
				var p sessionid.Provider
				var err error
				w.call("New", func() error {
					switch kind {
					case "memory":
						p = lib.NewMemory(o)
					case "bolt":
						p, err = pbolt.New(pbolt.WithDB(e.DB), pbolt.WithBucket([]byte(fmt.Sprint("bucket", g))), pbolt.WithClear(o.Clear), pbolt.WithAccess(o.Access), pbolt.WithRefresh(o.Refresh), pbolt.WithCheckBatch(o.Batch))
					case "redis":
						p, err = predis.New(predis.WithClient(e.Client), predis.WithKeyPrefix(fmt.Sprint("prefix", g, ".")), predis.WithAccess(o.Access), predis.WithRefresh(o.Refresh), predis.WithCheckBatch(o.Batch))
					}
					return err
				})
				if err != nil {
					continue
				}
				for range 8 {
					anyCall(w, p, toks, refs, &kept)
					anyCall(w, e.P, toks, refs, &kept)
				}
				if i%2 == 0 {
					w.call("Close", p.Close)
					anyCall(w, p, toks, refs, &kept)
				}
				w.call("Close", p.Close)
			}
		})
		for _, e := range es {
			e.Close()
		}
	})
}
