package checks

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"

	"verif.local/h/lib"
)

func init() {
	all["C25"] = c25
}

var exported = map[string]error{
	"ErrTokenExpired": sessionid.ErrTokenExpired, "ErrTokenInvalid": sessionid.ErrTokenInvalid, "ErrTokenNotExists": sessionid.ErrTokenNotExists,
	"ErrTokenIDNotMatched": sessionid.ErrTokenIDNotMatched, "ErrRefreshTokenNotMatched": sessionid.ErrRefreshTokenNotMatched,
	"ErrProviderReturnNotMatch": sessionid.ErrProviderReturnNotMatch, "ErrProviderClosed": sessionid.ErrProviderClosed,
	"ErrNeedsPointer": sessionid.ErrNeedsPointer, "ErrPointerToPointer": sessionid.ErrPointerToPointer, "ErrKeyNotExists": sessionid.ErrKeyNotExists,
}

// why names an error and sees that it says one thing only.
func why(c *lib.C, what string, e error) string {
	if e == nil {
		if sessionid.IsTokenExpired(e) {
			c.Failf("%s: IsTokenExpired(nil)", what)
		}
		return lib.OK
	}
	var is []string
	for n, x := range exported {
		if errors.Is(e, x) {
			is = append(is, n)
		}
	}
	sort.Strings(is)
	if len(is) > 1 {
		c.Failf("%s: the error %q is taken for all of %v", what, e, is)
	}
	exp := len(is) == 1 && is[0] == "ErrTokenExpired"
	for _, x := range []error{e, fmt.Errorf("wrapped: %w", e), errors.Join(otherErr, e)} {
		if sessionid.IsTokenExpired(x) != exp {
			c.Failf("%s: IsTokenExpired of %q, which is %v, is %v", what, x, is, !exp)
		}
	}
	c.Add("errors_told_apart", 1)
	if len(is) == 0 {
		return "other"
	}
	return is[0]
}

// rows are providers of several kinds that get the same calls.
type rows struct {
	c     *lib.C
	envs  []*lib.Env
	o     lib.Opts
	toks  []row
	spent []row
	keys  []string
	ids   []string
	n     int
}

type row struct {
	id, acc, ref string
	born         time.Time
}

// newRows makes the providers. What says nothing about answers is chosen for each.
func newRows(c *lib.C) *rows {
	kinds := []string{"memory", "bolt", "redis"}
	w := &rows{c: c, keys: c.KeyNames(4), ids: c.IDNames(3)}
	w.o.Access = time.Duration(1000+c.Intn(60000)) * time.Millisecond
	w.o.Refresh = w.o.Access + time.Duration(c.Intn(90000))*time.Millisecond
	if c.P(0.3) {
		w.o.Max = 1 + c.Intn(5)
		kinds = kinds[:2]
	}
	// whole milliseconds, as redis knows no others
	time.Sleep(time.Until(time.Now().Truncate(time.Millisecond).Add(time.Millisecond)))
	for _, k := range kinds {
		o := w.o
		o.SetBatch, o.Batch = c.P(0.5), lib.Pick(c, []int{-1, 0, 1, 2, 128})
		if k != "redis" && c.P(0.5) {
			o.Clear = max(w.o.Refresh/time.Duration(1+c.Intn(50)), 7*time.Millisecond)
		}
		if k == "bolt" {
			o.Own = c.P(0.3)
		}
		w.envs = append(w.envs, c.Open(k, o))
	}
	c.Logf("%d providers with %v", len(kinds), w.o)
	c.Sig(w.o.String(), w.keys, w.ids)
	return w
}

func (w *rows) token(id string) string {
	w.n++
	return fmt.Sprintf("%s.%s%d.%s", id, w.c.Word(5), w.n, w.c.Word(6))
}

// all makes the call everywhere.
func (w *rows) all(o lib.Op) (r lib.Res) {
	c := w.c
	for i, e := range w.envs {
		var x lib.Res
		c.Do(o.F+" on "+e.Kind, func() {
			rec := &catch{Provider: e.P}
			x = lib.Call(rec, o)
			x.Err = why(c, o.String()+" on "+e.Kind, rec.err)
		})
		if i == 0 {
			r = x
			c.Logf("%v = %v", o, x)
		} else if !lib.Same(x, []lib.Res{r}) {
			c.Failf("%v: %s answers %v, %s answers %v", o, w.envs[0].Kind, r, e.Kind, x)
		}
	}
	c.Add("answers_compared", len(w.envs))
	c.Add("answers_"+r.Err, 1)
	c.Add("operations", len(w.envs))
	c.Sig(o.F, r.Err)
	return
}

// catch keeps the error of a call as it is.
type catch struct {
	sessionid.Provider
	err error
}

func (p *catch) Create(ctx context.Context, a, r string, kv []sessionid.PairBytes) error {
	p.err = p.Provider.Create(ctx, a, r, kv)
	return p.err
}
func (p *catch) Destroy(ctx context.Context, id string) error {
	p.err = p.Provider.Destroy(ctx, id)
	return p.err
}
func (p *catch) DestroyByToken(ctx context.Context, t string) error {
	p.err = p.Provider.DestroyByToken(ctx, t)
	return p.err
}
func (p *catch) Check(ctx context.Context, t string) error {
	p.err = p.Provider.Check(ctx, t)
	return p.err
}
func (p *catch) Put(ctx context.Context, t string, kv []sessionid.PairBytes) error {
	p.err = p.Provider.Put(ctx, t, kv)
	return p.err
}
func (p *catch) Get(ctx context.Context, t string, keys []string) (v []sessionid.Value, e error) {
	v, e = p.Provider.Get(ctx, t, keys)
	p.err = e
	return
}
func (p *catch) Keys(ctx context.Context, t string) (k []string, e error) {
	k, e = p.Provider.Keys(ctx, t)
	p.err = e
	return
}
func (p *catch) Delete(ctx context.Context, t string, keys []string) error {
	p.err = p.Provider.Delete(ctx, t, keys)
	return p.err
}
func (p *catch) Refresh(ctx context.Context, a, r, na, nr string) error {
	p.err = p.Provider.Refresh(ctx, a, r, na, nr)
	return p.err
}
func (p *catch) Close() error {
	p.err = p.Provider.Close()
	return p.err
}

func (w *rows) pairs() (kv []lib.KV) {
	c := w.c
	for range c.Intn(4) {
		kv = append(kv, lib.KV{K: lib.Pick(c, w.keys), V: lib.Pick(c, []string{"", c.Word(3), string(c.Bytes(5)), c.Word(600)})})
	}
	return
}

func (w *rows) someKeys() (k []string) {
	for range w.c.Intn(4) {
		k = append(k, lib.Pick(w.c, w.keys))
	}
	return
}

// tok picks a token: mostly one in use.
func (w *rows) tok() string {
	c := w.c
	switch {
	case len(w.toks) > 0 && c.P(0.4):
		return w.toks[len(w.toks)-1].acc
	case len(w.toks) > 0 && c.P(0.75):
		return lib.Pick(c, w.toks).acc
	case len(w.toks) > 0 && c.P(0.3):
		return lib.Pick(c, w.toks).ref
	case len(w.spent) > 0 && c.P(0.6):
		return lib.Pick(c, w.spent).acc
	case c.P(0.5):
		return lib.Pick(c, []string{"", ".", "x", "a.b", "a", "\x00"})
	}
	return w.token(lib.Pick(c, w.ids))
}

// wait lets time pass, often to an edge of some session's life.
func (w *rows) wait() {
	c := w.c
	d := time.Duration(c.Intn(int(w.o.Access/time.Millisecond)/3)+1) * time.Millisecond
	if len(w.toks) > 0 && c.P(0.5) {
		at := lib.Pick(c, w.toks).born.Add(lib.Pick(c, []time.Duration{w.o.Access, w.o.Refresh}) + time.Duration(c.Intn(3)-1)*time.Millisecond)
		if x := time.Until(at); x > 0 {
			d = x
		}
	}
	c.Logf("%v pass", d)
	c.Sleep(d)
}

func (w *rows) step() {
	c := w.c
	switch c.Weighted(16, 3, 12, 8, 18, 18, 9, 9, 9, 2, 2, 6) {
	case 0:
		if len(w.toks) > 12 {
			w.toks, w.spent = w.toks[1:], append(w.spent, w.toks[0])
		}
		id := lib.Pick(c, w.ids)
		t := row{id, w.token(id), w.token(id), time.Now()}
		if c.P(0.1) { // of two ids
			w.all(lib.Op{F: "Create", Tok: lib.Pick(c, []string{t.acc, w.tok()}), Ref: w.token(id + "x"), Pairs: w.pairs()})
			return
		}
		if w.all(lib.Op{F: "Create", Tok: t.acc, Ref: t.ref, Pairs: w.pairs(), NilVals: c.P(0.3)}).Err == lib.OK {
			w.toks = append(w.toks, t)
		}
	case 1: // a stored or a spent token once more
		l := w.toks
		if c.P(0.5) {
			l = w.spent
		}
		if len(l) == 0 {
			return
		}
		t := &l[c.Intn(len(l))]
		ref := t.ref
		if c.P(0.5) {
			ref = w.token(t.id)
		}
		if w.all(lib.Op{F: "Create", Tok: t.acc, Ref: ref, Pairs: w.pairs()}).Err == lib.OK {
			t.ref, t.born = ref, time.Now()
		}
	case 2:
		if len(w.toks) == 0 {
			return
		}
		i := c.Intn(len(w.toks))
		t := w.toks[i]
		n := row{t.id, w.token(t.id), w.token(t.id), time.Now()}
		if c.P(0.1) { // onto tokens in use, its own among them
			o := lib.Pick(c, w.toks)
			if o.id != t.id || c.P(0.5) {
				o = t
			}
			n.acc = o.acc
			if c.P(0.5) {
				n.ref = o.ref
			}
			if c.P(0.2) {
				n.ref = n.acc
			}
		}
		if w.all(lib.Op{F: "Refresh", Tok: t.acc, Ref: t.ref, NTok: n.acc, NRef: n.ref}).Err == lib.OK {
			w.toks[i] = n
			w.spent = append(w.spent, t)
		}
	case 3: // with one thing wrong
		if len(w.toks) == 0 {
			return
		}
		t := lib.Pick(c, w.toks)
		o := lib.Op{F: "Refresh", Tok: t.acc, Ref: t.ref, NTok: w.token(t.id), NRef: w.token(t.id)}
		switch c.Intn(5) {
		case 0:
			o.Ref = w.token(t.id)
		case 1:
			if len(w.spent) == 0 {
				return
			}
			s := lib.Pick(c, w.spent)
			o = lib.Op{F: "Refresh", Tok: s.acc, Ref: s.ref, NTok: w.token(s.id), NRef: w.token(s.id)}
			for _, t := range w.toks { // it may have been created again
				if t.acc == s.acc {
					return
				}
			}
			// a spent token that was created again is used up by this
			if r := w.all(o); r.Err == lib.OK {
				w.toks = append(w.toks, row{s.id, o.NTok, o.NRef, time.Now()})
			}
			return
		case 2, 3: // of a session in use
			if r := w.all(lib.Op{F: "Check", Tok: t.acc}); r.Err != lib.OK {
				return
			}
			*lib.Pick(c, []*string{&o.Ref, &o.NTok, &o.NRef}) = lib.Pick(c, []string{"", "x", "x.y", w.token(t.id + "x"), w.token("x" + t.id)})
		case 4:
			o.Tok, o.Ref = o.Ref, o.Tok
		}
		w.all(o)
	case 4:
		w.all(lib.Op{F: "Put", Tok: w.tok(), Pairs: w.pairs(), NilVals: c.P(0.3)})
	case 5:
		w.all(lib.Op{F: "Get", Tok: w.tok(), Keys: w.someKeys()})
	case 6:
		w.all(lib.Op{F: "Keys", Tok: w.tok()})
	case 7:
		w.all(lib.Op{F: "Delete", Tok: w.tok(), Keys: w.someKeys()})
	case 8:
		w.all(lib.Op{F: "Check", Tok: w.tok()})
	case 9:
		w.all(lib.Op{F: "Destroy", ID: lib.Pick(c, append([]string{"nobody", "a.b"}, w.ids...))})
	case 10:
		w.all(lib.Op{F: "DestroyByToken", Tok: w.tok()})
	case 11:
		w.wait()
	}
}

// c25: the same program on providers of different kinds.
func c25(r *lib.R) {
	r.Bubble("calls", r.N(6000, 200000), func(c *lib.C) {
		w := newRows(c)
		for range 60 + c.Intn(60) {
			w.step()
		}
		for _, l := range [][]row{w.toks, w.spent} {
			for _, t := range l {
				for _, x := range []string{t.acc, t.ref} {
					w.all(lib.Op{F: "Check", Tok: x})
					w.all(lib.Op{F: "Keys", Tok: x})
					w.all(lib.Op{F: "Get", Tok: x, Keys: w.keys})
				}
			}
		}
		w.all(lib.Op{F: "Close"})
		t := w.token("u")
		w.all(lib.Op{F: "Check", Tok: t})
		w.all(lib.Op{F: "Create", Tok: t, Ref: w.token("u")})
		w.all(lib.Op{F: "Keys", Tok: t})
		w.all(lib.Op{F: "Get", Tok: t, Keys: []string{"k"}})
		w.all(lib.Op{F: "Put", Tok: t, Pairs: []lib.KV{{K: "k", V: "v"}}})
		w.all(lib.Op{F: "Delete", Tok: t, Keys: []string{"k"}})
		w.all(lib.Op{F: "Destroy", ID: "u"})
		w.all(lib.Op{F: "DestroyByToken", Tok: t})
		w.all(lib.Op{F: "Refresh", Tok: t, Ref: w.token("u"), NTok: w.token("u"), NRef: w.token("u")})
		w.all(lib.Op{F: "Close"})
	})

	// the same through managers: their tokens differ, so sessions are named by their place in a list
	r.Bubble("sessions", r.N(4000, 120000), func(c *lib.C) {
		w := newRows(c)
		type one struct {
			acc, ref string
			s        []*sessionid.Session
		}
		coder := lib.Pick(c, []sessionid.Coder{sessionid.GOBCoder{}, sessionid.JSONCoder{}, sessionid.XMLCoder{}})
		var ms []*sessionid.LocalManager
		var lists [][]one // per provider
		method, key := lib.Pick(c, append([]cryptoer.SigningMethod{nil}, methods...)), c.Bytes(5)
		for _, e := range w.envs {
			ms = append(ms, lib.Manager(&catch{Provider: e.P}, method, key, coder))
			lists = append(lists, nil)
		}
		ctx := context.Background()
		// every calls f for each of them; what it returns must be the same
		every := func(what string, f func(i int, m *sessionid.LocalManager) (any, error)) (string, any) {
			var first string
			var ret any
			for i, e := range w.envs {
				var v any
				var s string
				c.Do(what+" over "+e.Kind, func() {
					x, err := f(i, ms[i])
					s, v = why(c, what+" over "+e.Kind, err), x
				})
				if i == 0 {
					first, ret = s, v
					c.Logf("%s = %v, %v", what, v, s)
				} else if s != first || !reflect.DeepEqual(v, ret) {
					c.Failf("%s: over %s %#v, %s; over %s %#v, %s", what, w.envs[0].Kind, ret, first, e.Kind, v, s)
				}
			}
			c.Add("answers_compared", len(w.envs))
			c.Add("operations", len(w.envs))
			c.Sig(what, first)
			return first, ret
		}
		value := func() any {
			return lib.Pick(c, []any{1, "text", c.Word(3), true, []string{"a", "b"}, User{Name: "n", Tags: []string{"t"}}, 2.5, []byte("bytes"), func() {}})
		}
		vpairs := func() (p []sessionid.Pair) {
			for range c.Intn(4) {
				p = append(p, sessionid.Pair{Key: lib.Pick(c, w.keys), Value: value()})
			}
			return
		}
		for range 50 + c.Intn(40) {
			n := len(lists[0])
			k := c.Weighted(8, 6, 3, 1, 1, 14, 20, 5, 5, 6, 3, 4, 4)
			if n == 0 && k != 0 && k != 11 {
				k = 0
			}
			j := 0
			if n > 0 {
				j = c.Intn(n)
				if c.P(0.6) { // the latest
					j = n - 1
				}
			}
			name := fmt.Sprintf("session %d", j)
			session := func(i int) *sessionid.Session { return lists[i][j].s[len(lists[i][j].s)-1] }
			switch k {
			case 0:
				if n > 15 {
					continue
				}
				id, kv := lib.Pick(c, w.ids), vpairs()
				every(fmt.Sprintf("Create(%q, %v)", id, kv), func(i int, m *sessionid.LocalManager) (any, error) {
					s, ref, err := m.Create(ctx, id, kv...)
					if err != nil {
						return s == nil, err
					}
					lists[i] = append(lists[i], one{s.Token(), ref, []*sessionid.Session{s}})
					return s.ID(), nil
				})
			case 1:
				every("Refresh of "+name, func(i int, m *sessionid.LocalManager) (any, error) {
					x := &lists[i][j]
					a, b, err := m.Refresh(ctx, x.acc, x.ref)
					if err == nil {
						s, err := m.Get(ctx, a)
						if err != nil {
							return "Get", err
						}
						*x = one{a, b, append(x.s, s)}
					}
					return nil, err
				})
			case 2:
				o := c.Intn(n)
				every(fmt.Sprintf("Refresh of %s with the refresh token of session %d", name, o), func(i int, m *sessionid.LocalManager) (any, error) {
					a, b, err := m.Refresh(ctx, lists[i][j].acc, lists[i][o].ref)
					if err == nil {
						s, err := m.Get(ctx, a)
						if err != nil {
							return "Get", err
						}
						x := &lists[i][j]
						*x = one{a, b, append(x.s, s)}
					}
					return nil, err
				})
			case 3:
				id := lib.Pick(c, w.ids)
				every(fmt.Sprintf("Destroy(%q)", id), func(i int, m *sessionid.LocalManager) (any, error) { return nil, m.Destroy(ctx, id) })
			case 4:
				if c.P(0.5) {
					every("DestroyByToken of "+name, func(i int, m *sessionid.LocalManager) (any, error) {
						return nil, m.DestroyByToken(ctx, lists[i][j].acc)
					})
				} else {
					every("Destroy of "+name, func(i int, m *sessionid.LocalManager) (any, error) { return nil, session(i).Destroy(ctx) })
				}
			case 5:
				kv := vpairs()
				every(fmt.Sprintf("Put(%v) of %s", kv, name), func(i int, m *sessionid.LocalManager) (any, error) { return nil, session(i).Put(ctx, kv...) })
			case 6:
				key := lib.Pick(c, w.keys)
				t := c.Intn(8)
				every(fmt.Sprintf("Get(%q) of %s as type %d", key, name, t), func(i int, m *sessionid.LocalManager) (any, error) {
					p := []any{new(int), new(string), new(bool), new([]string), new(User), new(float64), new([]byte), new(*int)}[t]
					err := session(i).Get(ctx, key, p)
					return p, err
				})
			case 7:
				every("Keys of "+name, func(i int, m *sessionid.LocalManager) (any, error) {
					k, err := session(i).Keys(ctx)
					k = append([]string{}, k...)
					sort.Strings(k)
					return k, err
				})
			case 8:
				every("Check of "+name, func(i int, m *sessionid.LocalManager) (any, error) { return nil, session(i).Check(ctx) })
			case 9:
				keys := w.someKeys()
				every(fmt.Sprintf("Delete(%q) of %s", keys, name), func(i int, m *sessionid.LocalManager) (any, error) {
					return nil, session(i).Delete(ctx, session(i).Token(), keys...)
				})
			case 10:
				keys := w.someKeys()
				every(fmt.Sprintf("Prepare(%q) of %s", keys, name), func(i int, m *sessionid.LocalManager) (any, error) {
					return nil, session(i).Prepare(ctx, keys...)
				})
			case 11:
				w.wait()
			case 12: // another Session for the same, which knows nothing yet
				every("Get of "+name, func(i int, m *sessionid.LocalManager) (any, error) {
					s, err := m.Get(ctx, lists[i][j].acc)
					if err == nil {
						x := &lists[i][j]
						x.s = append(x.s, s)
					}
					return nil, err
				})
			}
		}
		every("Close", func(i int, _ *sessionid.LocalManager) (any, error) { return nil, w.envs[i].P.Close() })
		every("Create", func(i int, m *sessionid.LocalManager) (any, error) {
			s, _, err := m.Create(ctx, "u")
			return s == nil, err
		})
	})

	// what the errors are taken for
	r.Cases("errors", r.N(300, 3000), func(c *lib.C) {
		for n, a := range exported {
			if a == nil || a.Error() == "" {
				c.Failf("%s says nothing", n)
			}
			for m, b := range exported {
				if (n == m) != errors.Is(a, b) {
					c.Failf("errors.Is(%s, %s) is %v", n, m, n != m)
				}
			}
			e := a
			for range c.Intn(4) {
				switch c.Intn(3) {
				case 0:
					e = fmt.Errorf("%s: %w", c.Word(3), e)
				case 1:
					e = errors.Join(errors.New(c.Word(3)), e)
				case 2:
					e = hidden{e}
				}
			}
			if got := why(c, n, e); got != n {
				c.Failf("%s, wrapped as %q, is taken for %v", n, e, got)
			}
			for _, e := range []error{errors.New(a.Error()), fmt.Errorf("%v", a), errors.New(c.Word(4))} {
				if got := why(c, "an error with the text of "+n, e); got != "other" {
					c.Failf("an error with the text of %s is taken for %s", n, got)
				}
			}
			// handed back by a manager over a provider that wraps
			rec := &lib.Recording{Reply: func(lib.Rec) lib.Answer { return lib.Answer{Err: e} }}
			m := lib.Manager(rec, nil, nil, nil)
			if _, _, err := m.Create(context.Background(), "u"); why(c, "manager Create", err) != n {
				c.Failf("manager Create over a provider that answers %q returns %v", e, err)
			}
			if err := m.Destroy(context.Background(), "u"); why(c, "manager Destroy", err) != n {
				c.Failf("manager Destroy over a provider that answers %q returns %v", e, err)
			}
		}
		c.Sig(c.Word(8))
	})
}

// hidden says something else than what it wraps.
type hidden struct{ e error }

func (h hidden) Error() string { return "something else" }
func (h hidden) Unwrap() error { return h.e }
