package checks

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"

	"verif.local/h/lib"
)

func init() {
	all["C22"] = c22
}

// stamped is a coder whose output tells which coder made it.
type stamped struct{ mark string }

func (m stamped) Encode(v interface{}) ([]byte, error) {
	if f, ok := v.(float64); ok {
		return nil, fmt.Errorf("%s: no floats: %v", m.mark, f)
	}
	return []byte(fmt.Sprintf("%s:%T:%v", m.mark, v, v)), nil
}

func (m stamped) Decode(b []byte, v interface{}) error {
	p, ok := v.(*string)
	if !ok || len(b) < len(m.mark) || string(b[:len(m.mark)]) != m.mark {
		return fmt.Errorf("%s: cannot decode %q into %T", m.mark, b, v)
	}
	*p = string(b[len(m.mark):])
	return nil
}

// ownMethod is a signing method as a user may write one. It fails at the n-th call when told to.
type ownMethod struct {
	c                    *lib.C
	key                  []byte
	mark                 string
	signed, verified     int
	failSign, failVerify int
	err                  error
	failed, asked        bool
}

func (m *ownMethod) Alg() string { return "own" + m.mark }

func (m *ownMethod) sig(s string) string {
	h := sha256.Sum256([]byte(m.mark + "\x00" + string(m.key) + "\x00" + s))
	return "=/+ " + hex.EncodeToString(h[:6])
}

func (m *ownMethod) theKey(what string, key interface{}) {
	if b, ok := key.([]byte); !ok || !bytes.Equal(b, m.key) {
		m.c.Failf("%s of the signing method gets the key %v, want % x", what, key, m.key)
	}
}

func (m *ownMethod) Sign(s string, key interface{}) (string, error) {
	m.theKey("Sign", key)
	m.signed++
	if m.signed == m.failSign {
		m.failed = true
		return "", m.err
	}
	return m.sig(s), nil
}

func (m *ownMethod) Verify(s, sig string, key interface{}) error {
	m.theKey("Verify", key)
	m.verified++
	if m.verified == m.failVerify {
		m.failed = true
		return m.err
	}
	if sig != m.sig(s) {
		if !m.asked {
			m.c.Failf("Verify of the signing method gets %q with the signature %q, which no token has", s, sig)
		}
		return cryptoer.ErrInvalidToken
	}
	return nil
}

type ctxKey struct{}

var otherErr = errors.New("some error of a provider")

func someErr(c *lib.C) error {
	if c.P(0.5) {
		return nil
	}
	return lib.Pick(c, []error{sessionid.ErrTokenExpired, sessionid.ErrTokenInvalid, sessionid.ErrTokenNotExists, sessionid.ErrTokenIDNotMatched,
		sessionid.ErrRefreshTokenNotMatched, sessionid.ErrProviderClosed, sessionid.ErrKeyNotExists, otherErr, context.Canceled, fmt.Errorf("wrapped: %w", sessionid.ErrTokenExpired)})
}

// sameErr: the very error, not one like it.
func sameErr(a, b error) bool { return a == b }

// side is a manager and what it was configured with.
type side struct {
	m      *sessionid.LocalManager
	rec    *lib.Recording
	coder  sessionid.Coder
	method cryptoer.SigningMethod
	key    []byte
	toks   [][3]string                // access, refresh, id
	vals   map[string]sessionid.Value // what Get answers
	live   []*sessionid.Session       // sessions that were used before
	last   []sessionid.Pair           // what the last Put was given
}

// newSide makes a manager with a subset of the options, in any order, some given twice: the later one wins.
func newSide(c *lib.C, rec *lib.Recording) *side {
	s := &side{rec: rec, coder: sessionid.GOBCoder{}}
	var opts []sessionid.Option
	coders := []sessionid.Coder{sessionid.GOBCoder{}, sessionid.JSONCoder{}, stamped{"m" + c.Word(2)}, lib.Raw{}}
	add := []func(){
		func() { s.rec = rec; opts = append(opts, sessionid.WithProvider(rec)) },
		func() { s.coder = lib.Pick(c, coders); opts = append(opts, sessionid.WithCoder(s.coder)) },
		func() { s.method = lib.Pick(c, methods); opts = append(opts, sessionid.WithMethod(s.method)) },
		func() {
			s.key = c.Bytes(8 + c.Intn(9))
			if c.P(0.3) {
				s.key = append([]byte{}, c.Word(lib.Pick(c, []int{0, 1, 3, 38, 64, 65, 129}))...)
			}
			opts = append(opts, sessionid.WithKey(append([]byte{}, s.key...)))
		},
	}
	add[0]()
	for i := c.Intn(5); i > 0; i-- {
		add[1+c.Intn(3)]()
	}
	if c.P(0.5) { // the provider option last, or given twice
		opts = append(opts[1:], opts[0])
	}
	if c.P(0.2) {
		opts = append([]sessionid.Option{sessionid.WithProvider(&lib.Recording{Reply: func(r lib.Rec) lib.Answer {
			c.Failf("a call reaches a provider that a later option replaced: %v", r.Op)
			return lib.Answer{}
		}})}, opts...)
	}
	s.m = sessionid.NewManager(opts...)
	c.Sig(s.coder, s.method, s.key, len(opts))
	c.Logf("manager with coder %T %v, method %v, key %x", s.coder, s.coder, s.method, s.key)
	return s
}

func someKeys(c *lib.C) []string {
	if c.P(0.03) { // a lot of them
		var keys []string
		for i := range lib.Pick(c, []int{17, 33, 70, 300, 1100}) {
			keys = append(keys, fmt.Sprint("key", i))
		}
		return keys
	}
	return lib.Pick(c, [][]string{{"a"}, {"b", "a"}, {"", "x", "y"}})
}

// c22: scripted providers: every call must arrive as it was made and its answer come back as it was given.
func c22(r *lib.R) {
	r.Bubble("scripted", r.N(6000, 200000), func(c *lib.C) {
		var sides []*side
		for range 1 + c.Intn(3) {
			sides = append(sides, newSide(c, &lib.Recording{}))
		}
		seen := map[string]bool{}
		tag := 0
		for range 40 {
			s := lib.Pick(c, sides)
			tag++
			ctx := context.WithValue(context.Background(), ctxKey{}, tag)
			if c.P(0.2) { // a context that is over: what that means is up to the provider
				over, cancel := context.WithCancel(ctx)
				cancel()
				ctx = over
			}
			perr := someErr(c)
			var ans lib.Answer
			ans.Err = perr
			s.vals = map[string]sessionid.Value{}
			s.rec.Reply = func(r lib.Rec) lib.Answer {
				a := ans
				for _, k := range r.Op.Keys {
					a.Vals = append(a.Vals, s.vals[k])
				}
				return a
			}
			// arrived takes the calls that reached any of the providers: want, and nothing else
			arrived := func(what string, f string) lib.Op {
				for _, x := range sides {
					if x.rec != s.rec {
						if l := x.rec.Take(); len(l) > 0 {
							c.Failf("%s reaches the provider of another manager: %v", what, l[0].Op)
						}
					}
				}
				l := s.rec.Take()
				c.Add("calls_recorded", len(l))
				if len(l) != 1 || l[0].Op.F != f {
					c.Failf("%s makes %d calls of the provider %v, want one of %s", what, len(l), l, f)
				}
				if l[0].Ctx == nil || l[0].Ctx.Value(ctxKey{}) != tag {
					c.Failf("%s: %s gets another context", what, f)
				}
				return l[0].Op
			}
			nothing := func(what string) {
				for _, x := range sides {
					if l := x.rec.Take(); len(l) > 0 {
						c.Failf("%s reaches a provider: %v", what, l[0].Op)
					}
				}
			}
			// pairs made of values the coder can encode, and what they are encoded to
			pairs := func(least int) (out []sessionid.Pair, want []lib.KV, bad bool) {
				n := least + c.Intn(4)
				if c.P(0.01) { // a lot of them
					n = lib.Pick(c, []int{17, 33, 70, 300, 1100})
				}
				for i := n; i > 0; i-- {
					var v any = c.Word(c.Intn(5))
					if c.P(0.01) && n < 5 {
						v = strings.Repeat(c.Word(5), lib.Pick(c, []int{20, 60, 200, 800, 14000}))
					}
					switch s.coder.(type) {
					case lib.Raw:
						if c.P(0.5) {
							v = c.Bytes(c.Intn(4))
						}
					default:
						v = lib.Pick(c, []any{v, c.Intn(9), []string{"a"}, true, 0, "", false, []string{}, map[string]int{}, []byte{}, struct{ A string }{}})
						if _, ok := s.coder.(sessionid.GOBCoder); !ok && c.P(0.1) { // which cannot encode them
							v = lib.Pick(c, []any{nil, (*int)(nil), []string(nil), map[string]int(nil), []byte(nil)})
						}
					}
					if c.P(0.06) && i < 5 {
						v = lib.Pick(c, []any{func() {}, make(chan int)})
						if _, ok := s.coder.(stamped); ok {
							v = 1.5
						}
					}
					k := lib.Pick(c, []string{"k", "k1", "", "k", "名", "__private"})
					if n > 5 {
						k = fmt.Sprint("key", i)
					}
					out = append(out, sessionid.Pair{Key: k, Value: v})
					b, err := s.coder.Encode(v)
					if err != nil {
						bad = true
					}
					want = append(want, lib.KV{K: k, V: string(b)})
				}
				return
			}
			verify := func(what, t, id string) {
				p, err := s.splitVerify(t)
				if err != nil || p != id {
					c.Failf("%s: the token %q has the id part %q, want %q, signature: %v", what, t, p, id, err)
				}
				if seen[t] {
					c.Failf("%s: the token %q is not fresh", what, t)
				}
				seen[t] = true
			}
			c.Do("manager and session calls", func() {
				k := c.Intn(14)
				if len(s.toks) == 0 && k > 3 {
					k = 0
				}
				c.Sig(k, lib.ErrCode(perr))
				c.Add("scripted_calls", 1)
				switch k {
				case 0, 1, 2, 3:
					id := lib.Pick(c, []string{"u", "u.1", "", "\xff", c.Word(3), "a.b.c", lib.EncID("u"), " u"})
					if c.P(0.03) {
						id = string(c.Bytes(lib.Pick(c, []int{64, 255, 256, 1000, 4097, 70000})))
					}
					if len(s.toks) > 0 && c.P(0.2) { // an id that looks like a token
						id = lib.Pick(c, s.toks)[c.Intn(2)]
					}
					if k == 3 {
						what := fmt.Sprintf("Destroy(%q)", id)
						err := s.m.Destroy(ctx, id)
						if o := arrived(what, "Destroy"); o.ID != lib.EncID(id) || !sameErr(err, perr) {
							c.Failf("%s destroys the id %q and returns %v; provider: %v", what, o.ID, err, perr)
						}
						return
					}
					in, want, bad := pairs(0)
					what := fmt.Sprintf("Create(%q, %v)", id, in)
					x, ref, err := s.m.Create(ctx, id, in...)
					if bad {
						nothing(what + " with a value the coder refuses")
						if err == nil || x != nil {
							c.Failf("%s with a value the coder refuses returns %v, %v", what, x, err)
						}
						return
					}
					o := arrived(what, "Create")
					if !samePairs(o.Pairs, want) || !sameErr(err, perr) || (err == nil) != (x != nil) {
						c.Failf("%s stores %q, want %q, and returns %v, %v; provider: %v", what, o.Pairs, want, x, err, perr)
					}
					verify(what, o.Tok, lib.EncID(id))
					verify(what, o.Ref, lib.EncID(id))
					if err == nil {
						if x.Token() != o.Tok || x.ID() != lib.EncID(id) || ref != o.Ref {
							c.Failf("%s stores %q and %q, but returns the session %q of %q and %q", what, o.Tok, o.Ref, x.Token(), x.ID(), ref)
						}
						s.toks = append(s.toks, [3]string{o.Tok, o.Ref, id})
						s.session(c, x, false, ctx, perr, &ans, arrived, pairs, nothing)
					}
				case 4:
					t := lib.Pick(c, []string{s.toks[0][0], "a.b.c", "malformed", ""})
					err := s.m.DestroyByToken(ctx, t)
					if o := arrived("DestroyByToken", "DestroyByToken"); o.Tok != t || !sameErr(err, perr) {
						c.Failf("DestroyByToken(%q) destroys %q and returns %v; provider: %v", t, o.Tok, err, perr)
					}
				case 5, 6:
					i := c.Intn(len(s.toks))
					t := &s.toks[i]
					a, rf := t[0], t[1]
					if c.P(0.2) { // not its refresh token: the provider decides
						for _, u := range s.toks {
							if u[2] == t[2] {
								rf = u[1]
							}
						}
					}
					na, nr, err := s.m.Refresh(ctx, a, rf)
					what := fmt.Sprintf("Refresh(%q, %q)", a, rf)
					o := arrived(what, "Refresh")
					if o.Tok != a || o.Ref != rf || !sameErr(err, perr) {
						c.Failf("%s arrives as %v and returns %v; provider: %v", what, o, err, perr)
					}
					verify(what, o.NTok, lib.EncID(t[2]))
					verify(what, o.NRef, lib.EncID(t[2]))
					if err == nil {
						if na != o.NTok || nr != o.NRef {
							c.Failf("%s stores %q, %q and returns %q, %q", what, o.NTok, o.NRef, na, nr)
						}
						t[0], t[1] = na, nr
					}
				default:
					if len(s.live) > 0 && c.P(0.4) { // a Session with a past
						s.session(c, lib.Pick(c, s.live), true, ctx, perr, &ans, arrived, pairs, nothing)
						return
					}
					t := lib.Pick(c, s.toks)
					var x *sessionid.Session
					var err error
					if c.P(0.7) {
						x, err = s.m.Get(ctx, t[0])
					} else {
						x, err = sessionid.NewSession(t[0], s.rec, s.coder)
					}
					nothing("obtaining a session")
					if err != nil || x == nil || x.Token() != t[0] || x.ID() != lib.EncID(t[2]) {
						c.Failf("the session of %q: %v, %v", t[0], x, err)
					}
					s.session(c, x, false, ctx, perr, &ans, arrived, pairs, nothing)
				}
			})
		}
	})

	// managers at work side by side: every call arrives with its own arguments
	r.Bubble("parallel", r.N(2500, 80000), func(c *lib.C) {
		var mu sync.Mutex
		got := map[int]lib.Op{}
		owner := map[int]int{}
		mk := func(n int) *lib.Recording {
			return &lib.Recording{Reply: func(r lib.Rec) lib.Answer {
				t, _ := r.Ctx.Value(ctxKey{}).(int)
				mu.Lock()
				if o, ok := got[t]; ok {
					c.Failf("the provider got both %v and %v for one call", o, r.Op)
				}
				got[t], owner[t] = r.Op, n
				mu.Unlock()
				if t%5 == 4 {
					return lib.Answer{Err: fmt.Errorf("error %d", t)}
				}
				a := lib.Answer{Keys: []string{fmt.Sprint("key", t)}}
				for _, k := range r.Op.Keys {
					a.Vals = append(a.Vals, sessionid.Value{Exists: true, Bytes: []byte(fmt.Sprint(k, "=", t))})
				}
				return a
			}}
		}
		var sides []*side
		for i := range 1 + c.Intn(2) {
			x := &side{rec: mk(i), coder: lib.Raw{}, method: lib.Pick(c, methods), key: c.Bytes(8)}
			x.m = lib.Manager(x.rec, x.method, x.key, lib.Raw{})
			c.Sig(x.method, x.key)
			sides = append(sides, x)
		}
		take := func(t int, f string, n int) lib.Op {
			mu.Lock()
			defer mu.Unlock()
			o, ok := got[t]
			if !ok || o.F != f || owner[t] != n {
				c.Failf("a %s call beside others arrived as %v at provider %d, want provider %d", f, o, owner[t], n)
			}
			return o
		}
		var fs []func()
		for g := range 2 + c.Intn(3) {
			n := c.Intn(len(sides))
			s := sides[n]
			ids := []string{"same", fmt.Sprint("g", g)}
			id := lib.Pick(c, ids)
			fs = append(fs, func() {
				tag := g * 1000
				ctx := func() context.Context {
					tag++
					return context.WithValue(context.Background(), ctxKey{}, tag)
				}
				wrong := func(what string, a ...any) {
					c.Failf("beside other goroutines, goroutine %d, call %d: %s: %v", g, tag, what, a)
				}
				errOK := func(what string, err error) bool {
					if tag%5 == 4 {
						if err == nil || err.Error() != fmt.Sprintf("error %d", tag) {
							wrong(what+" returns not the error of the provider", err)
						}
						return false
					}
					if err != nil {
						wrong(what, err)
					}
					return true
				}
				for i := range 3 {
					v := fmt.Sprint("v", g, "-", i)
					x, ref, err := s.m.Create(ctx(), id, sessionid.Pair{Key: v, Value: v}, sessionid.Pair{Key: "2", Value: v})
					o := take(tag, "Create", n)
					if !samePairs(o.Pairs, []lib.KV{{K: v, V: v}, {K: "2", V: v}}) {
						wrong("Create stores other pairs", o)
					}
					if !errOK("Create", err) {
						continue
					}
					if x.Token() != o.Tok || ref != o.Ref {
						wrong("Create returns other tokens", x.Token(), ref, o)
					}
					for _, t := range []string{o.Tok, o.Ref} {
						if p, err := s.splitVerify(t); err != nil || p != lib.EncID(id) {
							wrong("Create with a bad token", t, err)
						}
					}
					err = x.Put(ctx(), sessionid.Pair{Key: v, Value: v + "p"})
					if o := take(tag, "Put", n); o.Tok != x.Token() || !samePairs(o.Pairs, []lib.KV{{K: v, V: v + "p"}}) {
						wrong("Put arrives as", o)
					}
					errOK("Put", err)
					var b string
					err = x.Get(ctx(), v+"g", &b)
					if o := take(tag, "Get", n); o.Tok != x.Token() || len(o.Keys) != 1 || o.Keys[0] != v+"g" {
						wrong("Get arrives as", o)
					}
					if errOK("Get", err) && b != fmt.Sprint(v+"g", "=", tag) {
						wrong("Get gives", b)
					}
					ks, err := x.Keys(ctx())
					take(tag, "Keys", n)
					if errOK("Keys", err) && (len(ks) != 1 || ks[0] != fmt.Sprint("key", tag)) {
						wrong("Keys gives", ks)
					}
					na, nr, err := s.m.Refresh(ctx(), x.Token(), ref)
					if o := take(tag, "Refresh", n); o.Tok != x.Token() || o.Ref != ref || (err == nil && (o.NTok != na || o.NRef != nr)) {
						wrong("Refresh arrives as", o, na, nr)
					}
					errOK("Refresh", err)
					err = s.m.Destroy(ctx(), v)
					if o := take(tag, "Destroy", n); o.ID != lib.EncID(v) {
						wrong("Destroy arrives as", o)
					}
					errOK("Destroy", err)
				}
				c.Add("calls_beside_others", 18)
			})
		}
		c.Chaos(0.25, 1000)
		c.Par("managers", fs...)
		c.Calm()
	})

	// options: managers made before and after others keep their own
	r.Cases("options", r.N(3000, 60000), func(c *lib.C) {
		ctx := context.Background()
		d1 := sessionid.NewManager()
		s1, ref, err := d1.Create(ctx, "default", sessionid.Pair{Key: "k", Value: "v"})
		if err != nil {
			c.Failf("Create of a manager without options: %v", err)
		}
		var sides []*side
		for range 1 + c.Intn(4) {
			sides = append(sides, newSide(c, &lib.Recording{}))
		}
		shared := sessionid.WithKey([]byte("shared key"))
		var users []*sessionid.LocalManager
		for range c.Intn(3) {
			users = append(users, sessionid.NewManager(shared, sessionid.WithProvider(&lib.Recording{})))
		}
		// each has its own
		for i, s := range sides {
			x, _, err := s.m.Create(ctx, "u", sessionid.Pair{Key: "k", Value: "v"})
			if err != nil {
				c.Failf("Create: %v", err)
			}
			l := s.rec.Take()
			want, _ := s.coder.Encode("v")
			if len(l) != 1 || len(l[0].Op.Pairs) != 1 || l[0].Op.Pairs[0].V != string(want) {
				c.Failf("manager %d (coder %T %v) among others stores %v, want %q", i, s.coder, s.coder, l, want)
			}
			if p, err := s.splitVerify(x.Token()); err != nil || p != lib.EncID("u") {
				c.Failf("manager %d issues %q, which does not verify under its key and method: %v", i, x.Token(), err)
			}
			for j, o := range sides {
				if i != j {
					if l := o.rec.Take(); len(l) > 0 {
						c.Failf("a call of manager %d reaches the provider of manager %d", i, j)
					}
				}
			}
			_, err = d1.Get(ctx, x.Token())
			if p, e2 := (&side{}).splitVerify(x.Token()); (err == nil) != (e2 == nil && p != "") && (s.key != nil || s.method != nil) {
				c.Failf("the default manager answers %v to a token of a manager with its own key or method", err)
			}
		}
		d2 := sessionid.NewManager()
		for i, d := range []*sessionid.LocalManager{d1, d2} {
			x, err := d.Get(ctx, s1.Token())
			if err != nil {
				c.Failf("default manager %d refuses a token of the default manager: %v", i, err)
			}
			var v string
			if err := x.Get(ctx, "k", &v); err != nil || v != "v" {
				c.Failf("default manager %d does not find the session of the default manager: %q, %v", i, v, err)
			}
		}
		if a, _, err := d2.Refresh(ctx, s1.Token(), ref); err != nil {
			c.Failf("Refresh at another default manager: %v", err)
		} else if err := d1.DestroyByToken(ctx, a); err != nil {
			c.Failf("DestroyByToken at the default manager: %v", err)
		}
		for _, u := range users {
			x, _, err := u.Create(ctx, "u")
			if err == nil {
				_, err = users[0].Get(ctx, x.Token())
			}
			if err != nil {
				c.Failf("managers made with one and the same option do not share the key: %v", err)
			}
		}
		c.Add("managers_side_by_side", len(sides)+len(users)+2)
	})

	// methods of the user: what they are asked, and what comes of a refusal
	r.Bubble("methods", r.N(3000, 80000), func(c *lib.C) {
		ctx := context.Background()
		rec := &lib.Recording{}
		key := c.Bytes(c.Intn(20))
		m := &ownMethod{c: c, key: append([]byte{}, key...), mark: c.Word(2)}
		x := lib.Manager(rec, m, key, lib.Raw{})
		other := &ownMethod{c: c, key: c.Bytes(3), mark: m.mark + "o"}
		y := lib.Manager(&lib.Recording{}, other, other.key, lib.Raw{})
		c.Sig(key, m.mark)
		var toks [][3]string
		for i := 0; i < 30; i++ {
			m.failSign, m.failVerify = 0, 0
			m.err = lib.Pick(c, []error{otherErr, sessionid.ErrTokenExpired, cryptoer.ErrHashUnavailable, fmt.Errorf("no %d", i)})
			m.signed, m.verified = 0, 0
			id := lib.Pick(c, []string{"u", "", "a.b", c.Word(4)})
			k := c.Intn(4)
			if len(toks) == 0 {
				k = 0
			}
			refused := func(what string, err error) {
				if l := rec.Take(); len(l) > 0 {
					c.Failf("%s, which the signing method refuses, reaches the provider: %v", what, l[0].Op)
				}
				if err == nil {
					c.Failf("%s, which the signing method refuses, returns nil", what)
				}
				c.Add("refused_by_method", 1)
			}
			one := func(what, f string) lib.Op {
				l := rec.Take()
				if len(l) != 1 || l[0].Op.F != f {
					c.Failf("%s arrives as %v, want one %s", what, l, f)
				}
				return l[0].Op
			}
			good := func(what, t, id string) {
				p, sid, sig, err := sessionid.Split(t)
				if err != nil || p != lib.EncID(id) || sig != m.sig(p+"."+sid) {
					c.Failf("%s issues %q: id part %q of %q, signature %q", what, t, p, id, sig)
				}
			}
			switch k {
			case 0:
				m.failSign = c.Intn(4)
				what := fmt.Sprintf("Create(%q) with Sign failing at call %d", id, m.failSign)
				s, ref, err := x.Create(ctx, id, sessionid.Pair{Key: "k", Value: "v"})
				if m.failed {
					m.failed = false
					refused(what, err)
					if s != nil {
						c.Failf("%s returns a session", what)
					}
					continue
				}
				o := one(what, "Create")
				if err != nil || s == nil || s.Token() != o.Tok || ref != o.Ref {
					c.Failf("%s returns %v, %q, %v; stored: %v", what, s, ref, err, o)
				}
				good(what, s.Token(), id)
				good(what, ref, id)
				toks = append(toks, [3]string{s.Token(), ref, id})
			case 1:
				t := lib.Pick(c, toks)
				m.failVerify = c.Intn(2)
				what := fmt.Sprintf("Get(%q) with Verify failing at call %d", t[0], m.failVerify)
				s, err := x.Get(ctx, t[0])
				if m.failed {
					m.failed = false
					refused(what, err)
					if s != nil {
						c.Failf("%s returns a session", what)
					}
					continue
				}
				if err != nil || s == nil || s.Token() != t[0] || m.verified == 0 {
					c.Failf("%s returns %v, %v after %d calls of Verify", what, s, err, m.verified)
				}
			case 2:
				n := c.Intn(len(toks))
				t := toks[n]
				if c.P(0.5) {
					m.failVerify = c.Intn(4)
				} else {
					m.failSign = c.Intn(4)
				}
				what := fmt.Sprintf("Refresh(%q, %q) with Verify failing at call %d, Sign at %d", t[0], t[1], m.failVerify, m.failSign)
				a, b, err := x.Refresh(ctx, t[0], t[1])
				if m.failed {
					m.failed = false
					refused(what, err)
					continue
				}
				o := one(what, "Refresh")
				if err != nil || o.Tok != t[0] || o.Ref != t[1] || o.NTok != a || o.NRef != b || m.verified < 2 {
					c.Failf("%s returns %q, %q, %v after %d calls of Verify; arrived: %v", what, a, b, err, m.verified, o)
				}
				good(what, a, t[2])
				good(what, b, t[2])
				toks[n] = [3]string{a, b, t[2]}
			case 3:
				t := lib.Pick(c, toks)
				other.failed = false
				other.asked = true // about strings signed by another
				_, e1 := y.Get(ctx, t[0])
				_, _, e2 := y.Refresh(ctx, t[0], t[1])
				other.asked = false
				if e1 == nil || e2 == nil {
					c.Failf("a manager with another method takes %q: %v, %v", t[0], e1, e2)
				}
			}
			c.Sig(k, m.signed, m.verified)
			c.Add("signed_by_own_methods", m.signed)
			c.Add("verified_by_own_methods", m.verified)
		}
	})

	// the same over the real providers
	r.Bubble("history", r.N(4000, 120000), func(c *lib.C) {
		kind := pickKind(c)
		h := c.NewHist(kind, randomOpts(c, kind))
		h.UseManager(lib.Pick(c, methods), c.Bytes(1+c.Intn(40)))
		p := lib.Profile{Create: 14, Refresh: 8, BadRefresh: 5, Put: 14, Get: 12, Keys: 8, Delete: 8, Check: 4, Destroy: 3, DestroyTok: 3, Pass: 5, Look: 8, DataSpent: 4,
			IDs: []string{"u", "u1", "v"}, KeyPool: c.KeyNames(4), MaxPairs: 4, Sessions: 10}
		for i, n := 0, 25+c.Intn(30); i < n; i++ {
			h.Step(p)
		}
		h.End()
	})
}

func samePairs(a, b []lib.KV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// splitVerify returns the id part of a token and whether the manager's method accepts its signature. Without options
// only the parts are looked at.
func (s *side) splitVerify(t string) (string, error) {
	id, _, sig, err := sessionid.Split(t)
	if err != nil {
		return "", err
	}
	m, k := s.method, s.key
	if m == nil || k == nil { // a default, which is not ours to know: a manager of the same options tells
		var o []sessionid.Option
		if m != nil {
			o = append(o, sessionid.WithMethod(m))
		}
		if k != nil {
			o = append(o, sessionid.WithKey(k))
		}
		_, err := sessionid.NewManager(o...).Get(context.Background(), t)
		return id, err
	}
	return id, m.Verify(t[:len(t)-len(sig)-1], sig, k)
}

// session makes one call on a Session. What a used one reads may come from what it knows.
func (s *side) session(c *lib.C, x *sessionid.Session, used bool, ctx context.Context, perr error, ans *lib.Answer, arrived func(string, string) lib.Op,
	pairs func(int) ([]sessionid.Pair, []lib.KV, bool), nothing func(string)) {
	t := x.Token()
	check := func(what string, o lib.Op, err error) {
		if o.Tok != t || !sameErr(err, perr) {
			c.Failf("%s on the session %q arrives as %v and returns %v; provider: %v", what, t, o, err, perr)
		}
	}
	enc := func(v string) []byte {
		b, err := s.coder.Encode(v)
		if err != nil {
			c.Failf("Encode: %v", err)
		}
		return b
	}
	if !used {
		s.live = append(s.live, x)
	} else {
		c.Add("calls_of_used_sessions", 1)
	}
	k := c.Intn(8)
	if used && k >= 6 {
		var v string
		if k == 6 {
			x.Get(ctx, lib.Pick(c, []string{"k", "k1", "a"}), &v)
		} else {
			x.Prepare(ctx, "k", "k1")
		}
		s.rec.Take()
		return
	}
	switch k {
	case 0:
		err := x.Check(ctx)
		check("Check", arrived("Check", "Check"), err)
	case 1:
		err := x.Destroy(ctx)
		check("Destroy", arrived("Destroy", "DestroyByToken"), err)
	case 2, 3:
		in, want, bad := pairs(1)
		if len(s.last) > 0 && c.P(0.4) { // the same again, by this Session or another one
			in, want, bad = s.last, nil, false
			for _, p := range in {
				b, err := s.coder.Encode(p.Value)
				bad = bad || err != nil
				want = append(want, lib.KV{K: p.Key, V: string(b)})
			}
		}
		s.last = in
		err := x.Put(ctx, in...)
		if bad {
			nothing("Put with a value the coder refuses")
			if err == nil {
				c.Failf("Put with a value the coder refuses returns nil")
			}
			return
		}
		o := arrived("Put", "Put")
		check("Put", o, err)
		if !samePairs(o.Pairs, want) {
			c.Failf("Put(%v) stores %q, want %q", in, o.Pairs, want)
		}
	case 4:
		if perr == nil || c.P(0.3) {
			ans.Keys = lib.Pick(c, [][]string{nil, {}, {"a"}, {"b", "a", "", "a"}})
		}
		given := append([]string{}, ans.Keys...)
		k, err := x.Keys(ctx)
		check("Keys", arrived("Keys", "Keys"), err)
		if err == nil {
			if !(len(k) == 0 && len(given) == 0) && !reflect.DeepEqual(k, given) {
				c.Failf("Keys gives %q; provider: %q", k, given)
			}
			if len(given) > 0 && !reflect.DeepEqual(ans.Keys, given) {
				c.Failf("Keys leaves the provider's slice as %q; it was %q", ans.Keys, given)
			}
		}
	case 5:
		keys := someKeys(c)
		d := t
		if c.P(0.3) {
			d = lib.Pick(c, []string{"a.b.c", "malformed", s.toks[0][0]})
		}
		err := x.Delete(ctx, d, keys...)
		o := arrived("Delete", "Delete")
		if o.Tok != d || !reflect.DeepEqual(o.Keys, keys) || !sameErr(err, perr) {
			c.Failf("Delete(%q, %q) arrives as %v and returns %v; provider: %v", d, keys, o, err, perr)
		}
	case 6:
		k := lib.Pick(c, []string{"a", "", "名"})
		v := c.Word(3)
		exists := c.P(0.7)
		s.vals[k] = sessionid.Value{}
		if exists {
			s.vals[k] = sessionid.Value{Exists: true, Bytes: enc(v)}
		}
		var got string
		err := x.Get(ctx, k, &got)
		o := arrived("Get", "Get")
		if perr == nil && !exists {
			perr = sessionid.ErrKeyNotExists
		}
		check("Get", o, err)
		if len(o.Keys) != 1 || o.Keys[0] != k {
			c.Failf("Get(%q) asks for %q", k, o.Keys)
		}
		if err == nil {
			var want string
			if e2 := s.coder.Decode(enc(v), &want); e2 != nil || got != want {
				c.Failf("Get(%q) gives %q, want %q", k, got, want)
			}
		}
	case 7:
		keys := someKeys(c)
		want := map[string]sessionid.Value{}
		for _, k := range keys {
			v := sessionid.Value{Exists: c.P(0.7)}
			if v.Exists {
				v.Bytes = enc(k + c.Word(2))
			}
			s.vals[k], want[k] = v, v
		}
		err := x.Prepare(ctx, keys...)
		o := arrived("Prepare", "Get")
		check("Prepare", o, err)
		ks := append([]string{}, o.Keys...)
		sort.Strings(ks)
		ws := append([]string{}, keys...)
		sort.Strings(ws)
		if !reflect.DeepEqual(ks, ws) {
			c.Failf("Prepare(%q) asks for %q", keys, o.Keys)
		}
		if err != nil {
			return
		}
		// what was prepared is there, whatever the provider would answer now
		for _, k := range keys {
			var got, w string
			v := want[k]
			ans.Err = nil
			err := x.Get(ctx, k, &got)
			s.rec.Take()
			if !v.Exists {
				if !sameErr(err, sessionid.ErrKeyNotExists) {
					c.Failf("after Prepare, Get of the absent key %q returns %v", k, err)
				}
				continue
			}
			if e2 := s.coder.Decode(v.Bytes, &w); err != nil || e2 != nil || got != w {
				c.Failf("after Prepare, Get(%q) gives %q, %v, want %q", k, got, err, w)
			}
		}
	}
}
