package checks

import (
	"context"
	"encoding/base64"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"

	"verif.local/h/lib"
)

func init() {
	all["C03"] = c03
	all["C03race"] = c03race
}

// mint collects what was issued.
type mint struct {
	c    *lib.C
	mu   sync.Mutex
	toks map[string]string
	sess map[string]string
	ids  map[string]string
}

func newMint(c *lib.C) *mint {
	return &mint{c: c, toks: map[string]string{}, sess: map[string]string{}, ids: map[string]string{}}
}

// token takes a token that was issued for an id.
func (m *mint) token(from, id, t string) {
	p := strings.Split(t, ".")
	if len(p) != 3 || p[0] != lib.EncID(id) || p[1] == "" || p[2] == "" {
		m.c.Failf("%s issued %q, which does not consist of the id part %q, a session part and a signature", from, t, lib.EncID(id))
	}
	eid, s, sig, err := sessionid.Split(t)
	if err != nil || eid != p[0] || s != p[1] || sig != p[2] {
		m.c.Failf("Split(%q) gives %q, %q, %q, %v", t, eid, s, sig, err)
	}
	if b, err := base64.RawURLEncoding.DecodeString(eid); err != nil || string(b) != id {
		m.c.Failf("the id part of %q decodes to %q, %v; it was issued by %s for %q", t, b, err, from, id)
	}
	if err := sessionid.IsToken(t); err != nil {
		m.c.Failf("IsToken(%q), an issued token: %v", t, err)
	}
	m.mu.Lock() // nothing of the library runs under it
	defer m.mu.Unlock()
	if was, ok := m.toks[t]; ok {
		m.c.Failf("the token %q was issued twice: by %s and by %s", t, was, from)
	}
	m.toks[t] = from
	if was, ok := m.sess[p[1]]; ok {
		m.c.Failf("the session part %q was issued twice: by %s and by %s", p[1], was, from)
	}
	m.sess[p[1]] = from
	m.c.Add("tokens_issued", 1)
}

func (m *mint) sessionID(from, s string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if was, ok := m.ids[s]; ok {
		m.c.Failf("the session id %q was issued twice: by %s and by %s", s, was, from)
	}
	if s == "" || strings.Contains(s, ".") {
		m.c.Failf("%s gives the session id %q", from, s)
	}
	m.ids[s] = from
	m.c.Add("session_ids_issued", 1)
}

// issuers makes goroutines that issue tokens through managers, CreateToken and SessionID.
func (m *mint) issuers(ms []*sessionid.LocalManager, ids []string, n, each int, pause func(g int)) (fs []func()) {
	c := m.c
	ctx := context.Background()
	for g := range n {
		type step struct {
			k   int
			mgr int
			id  string
			alg cryptoer.SigningMethod
		}
		var steps []step
		for range each {
			steps = append(steps, step{c.Weighted(4, 4, 2, 1), c.Intn(len(ms)), lib.Pick(c, ids), lib.Pick(c, methods)})
		}
		fs = append(fs, func() {
			type pair struct {
				id, a, r string
				mgr      int
			}
			var live []pair
			for i, s := range steps {
				from := fmt.Sprintf("call %d of goroutine %d", i, g)
				switch {
				case s.k == 0 || (s.k == 1 && len(live) == 0):
					x, ref, err := ms[s.mgr].Create(ctx, s.id, sessionid.Pair{Key: "id", Value: s.id})
					if err != nil {
						c.Failf("Create(%q): %v", s.id, err)
					}
					if x.ID() != lib.EncID(s.id) {
						c.Failf("the session created for %q has the id %q", s.id, x.ID())
					}
					m.token(from+" (Create)", s.id, x.Token())
					m.token(from+" (Create, refresh token)", s.id, ref)
					live = append(live, pair{s.id, x.Token(), ref, s.mgr})
				case s.k == 1:
					p := &live[i%len(live)]
					a, r, err := ms[p.mgr].Refresh(ctx, p.a, p.r)
					if err != nil {
						c.Failf("Refresh(%q, %q): %v", p.a, p.r, err)
					}
					m.token(from+" (Refresh)", p.id, a)
					m.token(from+" (Refresh, refresh token)", p.id, r)
					p.a, p.r = a, r
				case s.k == 2:
					a, r, err := sessionid.CreateToken(s.alg, []byte("key"), lib.EncID(s.id))
					if err != nil {
						c.Failf("CreateToken: %v", err)
					}
					m.token(from+" (CreateToken)", s.id, a)
					m.token(from+" (CreateToken, refresh token)", s.id, r)
				case s.k == 3:
					x, err := cryptoer.SessionID()
					if err != nil {
						c.Failf("SessionID: %v", err)
					}
					m.sessionID(from, x)
				}
				if pause != nil {
					pause(i)
				}
			}
		})
	}
	return
}

func mintManagers(c *lib.C, p sessionid.Provider) (ms []*sessionid.LocalManager) {
	for i := 0; i < 1+c.Intn(3); i++ {
		key := []byte("key")
		if c.P(0.3) {
			key = c.Bytes(16)
		}
		ms = append(ms, lib.Manager(p, lib.Pick(c, methods), key, lib.Raw{}))
	}
	return
}

func someIDs(c *lib.C) (ids []string) {
	pool := []string{"", "u", "u1", "a.b", "...", "\x00", "\xff\xfe", "名前", "*", strings.Repeat("long", 100), "Zg", "Zm9v", " "}
	for range 1 + c.Intn(4) {
		if c.P(0.03) {
			ids = append(ids, string(c.Bytes(lib.Pick(c, []int{64, 255, 256, 1000, 4097, 70000}))))
		} else if c.P(0.6) {
			ids = append(ids, lib.Pick(c, pool))
		} else {
			ids = append(ids, string(c.Bytes(c.Intn(12))))
		}
	}
	return
}

// C03: what several goroutines and managers issue while the clock stands still or moves; malformed strings everywhere.
func c03(r *lib.R) {
	r.Bubble("issued", r.N(1200, 40000), func(c *lib.C) {
		kind := lib.Kinds[c.Weighted(6, 1, 1)]
		e := c.Open(kind, lib.Opts{})
		ids := someIDs(c)
		if kind == "bolt" {
			ids = append(ids[:0:0], "u", "u1", "a.b")
		}
		m := newMint(c)
		n := 1 + c.Intn(6)
		var pause func(int)
		if c.P(0.3) {
			pause = func(i int) {
				if i%3 == 0 {
					time.Sleep(time.Nanosecond * 50)
				}
			}
		}
		fs := m.issuers(mintManagers(c, e.P), ids, n, 15, pause)
		if c.P(0.7) {
			c.Chaos(0.15, 200)
		}
		c.Sig(kind, ids, n)
		c.Par("issuing", fs...)
		c.Calm()
		e.Close()
	})

	// a lot at one instant of the clock
	r.Bubble("burst", r.N(16, 200), func(c *lib.C) {
		m := newMint(c)
		p := lib.NewMemory(lib.Opts{})
		ids := someIDs(c)
		fs := m.issuers(mintManagers(c, p), ids, 4, 1500, nil)
		c.Sig(ids)
		c.Par("issuing", fs...)
		c.Do("Close", func() { p.Close() })
	})

	r.Bubble("split", r.N(3000, 100000), func(c *lib.C) {
		for range 40 {
			// exactly three parts
			p := []string{part(c), part(c), part(c)}
			t := strings.Join(p, ".")
			if x := sessionid.Join(p...); x != t {
				c.Failf("Join(%q) = %q", p, x)
			}
			id, s, sig, err := sessionid.Split(t)
			if err != nil || id != p[0] || s != p[1] || sig != p[2] {
				c.Failf("Split(%q) gives %q, %q, %q, %v", t, id, s, sig, err)
			}
			x, err := sessionid.NewSession(t, nil, nil)
			if err != nil || x == nil || x.Token() != t || x.ID() != p[0] {
				c.Failf("NewSession(%q) gives %v, %v", t, x, err)
			}
			// fewer
			bad := part(c)
			switch c.Intn(4) {
			case 0:
				bad += "." + part(c)
			case 1:
				bad = lib.Pick(c, lib.Malforms)
			}
			c.Sig(bad)
			if id, s, sig, err := sessionid.Split(bad); err != sessionid.ErrTokenInvalid {
				c.Failf("Split(%q) gives %q, %q, %q, %v", bad, id, s, sig, err)
			}
			if x, err := sessionid.NewSession(bad, nil, nil); err != sessionid.ErrTokenInvalid || x != nil {
				c.Failf("NewSession(%q) gives %v, %v", bad, x, err)
			}
			var list []string
			for range c.Intn(5) {
				list = append(list, part(c)+"."+part(c)+"."+part(c))
			}
			if err := sessionid.IsToken(list...); err != nil {
				c.Failf("IsToken(%q) = %v", list, err)
			}
			i := c.Intn(len(list) + 1)
			list = append(list[:i:i], append([]string{bad}, list[i:]...)...)
			if err := sessionid.IsToken(list...); err != sessionid.ErrTokenInvalid {
				c.Failf("IsToken(%q) = %v", list, err)
			}
			c.Add("strings_split", 1)
		}
	})

	r.Bubble("malformed", r.N(6000, 200000), func(c *lib.C) {
		kind := pickKind(c)
		h := c.NewHist(kind, randomOpts(c, kind))
		p := lib.Profile{Create: 10, Refresh: 5, Put: 5, Malformed: 40, Pass: 2, Look: 6, Glance: 2,
			IDs: []string{"u", "u1", "a", "abc", "m"}, KeyPool: []string{"k", "l"}, MaxPairs: 3, Sessions: 12}
		mgr := lib.Manager(h.E.P, nil, []byte("key"), lib.Raw{})
		ctx := context.Background()
		for i, n := 0, 25+c.Intn(25); i < n && !h.Over; i++ {
			h.Step(p)
			if c.P(0.2) {
				t := lib.Pick(c, lib.Malforms)
				c.Do("manager calls with a malformed token", func() {
					if s, err := mgr.Get(ctx, t); err != sessionid.ErrTokenInvalid || s != nil {
						c.Failf("manager Get(%q) gives %v, %v", t, s, err)
					}
					if err := mgr.DestroyByToken(ctx, t); err != sessionid.ErrTokenInvalid {
						c.Failf("manager DestroyByToken(%q) gives %v", t, err)
					}
					if a, r, err := mgr.Refresh(ctx, t, t); err != sessionid.ErrTokenInvalid || a != "" || r != "" {
						c.Failf("manager Refresh(%q, %q) gives %q, %q, %v", t, t, a, r, err)
					}
					s, err := sessionid.NewSession(h.Token("u"), h.E.P, lib.Raw{})
					if err == nil {
						err = s.Delete(ctx, t, "k")
					}
					if err != sessionid.ErrTokenInvalid {
						c.Failf("Session.Delete of the token %q gives %v", t, err)
					}
				})
				c.Add("manager_calls_with_malformed_tokens", 4)
			}
		}
		h.End()
	})
}

func part(c *lib.C) string {
	if c.P(0.5) {
		return c.Word(1 + c.Intn(12))
	}
	s := strings.ReplaceAll(string(c.Bytes(1+c.Intn(10))), ".", "-")
	return s
}

// C03, on several processors and the real clock.
func c03race(r *lib.R) {
	r.Cases("at-once", r.N(24, 800), func(c *lib.C) {
		m := newMint(c)
		p := lib.NewMemory(lib.Opts{})
		ids := someIDs(c)
		fs := m.issuers(mintManagers(c, p), ids, 8, 400, nil)
		c.Sig(ids)
		c.Par("issuing", fs...)
		c.Do("Close", func() { p.Close() })
	})
}
