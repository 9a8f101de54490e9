package checks

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"

	"verif.local/h/lib"
)

func init() {
	all["C15"] = c15
}

// The reference coders are the standard ones, used directly.
type refCoder struct {
	name string
	c    sessionid.Coder
	enc  func(v any) ([]byte, error)
	dec  func(b []byte, v any) error
}

var refCoders = []refCoder{
	{"gob", sessionid.GOBCoder{}, func(v any) ([]byte, error) {
		var b bytes.Buffer
		err := gob.NewEncoder(&b).Encode(v)
		return b.Bytes(), err
	}, func(b []byte, v any) error { return gob.NewDecoder(bytes.NewReader(b)).Decode(v) }},
	{"json", sessionid.JSONCoder{}, json.Marshal, json.Unmarshal},
	{"xml", sessionid.XMLCoder{}, xml.Marshal, xml.Unmarshal},
}

type User struct {
	Name string
	Age  int
	Tags []string
	Ok   bool
}

type Deep struct {
	ID    uint64
	Owner *User
	Inner struct{ A, B int }
	List  []User
	At    time.Time
	Blob  []byte
}

type WithMap struct {
	Name string
	M    map[string]int
}

type Sparse struct {
	A *int
	B *string `json:",omitempty"`
	C int     `json:",omitempty"`
}

type Named int
type NamedS string

// Types that decode themselves: what a string or a number is to them is not what it is to others of their kind.
type Shout string

func (s *Shout) UnmarshalText(b []byte) error { *s = Shout("!" + string(b)); return nil }

type Tally int

func (t *Tally) UnmarshalJSON(b []byte) error { *t = Tally(100 + len(b)); return nil }
func (t *Tally) UnmarshalText(b []byte) error { *t = Tally(200 + len(b)); return nil }

type Yes bool

func (y *Yes) UnmarshalText(b []byte) error { *y = true; return nil }
func (y *Yes) UnmarshalJSON(b []byte) error { *y = true; return nil }

type Coded string

func (s Coded) GobEncode() ([]byte, error)   { return []byte("coded:" + string(s)), nil }
func (s *Coded) GobDecode(b []byte) error    { *s = Coded("de" + string(b)); return nil }
func (s Coded) MarshalText() ([]byte, error) { return []byte("text:" + string(s)), nil }

type Recoded string

func (s *Recoded) GobDecode(b []byte) error  { *s = Recoded("re" + string(b)); return nil }
func (s Recoded) GobEncode() ([]byte, error) { return []byte(s), nil }

// someValue makes a value to store.
func someValue(c *lib.C) any {
	s := func() string {
		if c.P(0.002) { // long ones, too
			return strings.Repeat(c.Word(5), lib.Pick(c, []int{20, 60, 200, 800, 2000, 14000}))
		}
		return c.Word(c.Intn(6))
	}
	u := func() User {
		u := User{Name: s(), Age: c.Intn(3), Ok: c.P(0.5)}
		for i := c.Intn(3); i > 0; i-- {
			u.Tags = append(u.Tags, s())
		}
		return u
	}
	switch c.Intn(29) {
	case 0, 1:
		return c.Intn(3) - 1
	case 2:
		return s()
	case 3:
		return c.P(0.5)
	case 4:
		return float64(c.Intn(8)) / 4
	case 5:
		if c.P(0.02) {
			return c.Bytes(lib.Pick(c, []int{100, 255, 256, 1000, 4097, 70000}))
		}
		return c.Bytes(c.Intn(6))
	case 6, 7:
		return u()
	case 8:
		x := u()
		return &x
	case 9, 10:
		d := Deep{ID: c.Rng.Uint64() % 3, At: time.Unix(int64(c.Intn(1000)), 0).UTC(), Blob: c.Bytes(c.Intn(3))}
		if c.P(0.5) {
			x := u()
			d.Owner = &x
		}
		d.Inner.A = c.Intn(2)
		for i := c.Intn(3); i > 0; i-- {
			d.List = append(d.List, u())
		}
		return d
	case 11:
		m := map[string]int{}
		for i := c.Intn(4); i > 0; i-- {
			m[s()] = c.Intn(5)
		}
		return m
	case 12:
		var l []string
		for i := c.Intn(4); i > 0; i-- {
			l = append(l, s())
		}
		return l
	case 13:
		return WithMap{s(), map[string]int{s(): 1}}
	case 14:
		x := Sparse{C: c.Intn(2)}
		if c.P(0.5) {
			n := c.Intn(3)
			x.A = &n
		}
		if c.P(0.3) {
			n := s()
			x.B = &n
		}
		return x
	case 15:
		return [3]int{c.Intn(2), c.Intn(2), 0}
	case 16:
		return map[string][]int{s(): {1, 2}, s(): {c.Intn(4)}}
	case 17:
		return Named(c.Intn(4))
	case 18:
		return NamedS(s())
	case 19:
		return uint8(c.Intn(256))
	case 20:
		return int64(c.Rng.Uint64())
	case 21:
		return complex(float64(c.Intn(3)), 1)
	case 22:
		return []User{u(), u()}
	case 23:
		return time.Unix(int64(c.Intn(100000)), 0).UTC()
	case 24:
		return [2][]byte{c.Bytes(1 + c.Intn(3)), c.Bytes(c.Intn(3))}
	case 25:
		return [2]User{u(), u()}
	case 26:
		return new(big.Int).Lsh(big.NewInt(int64(c.Intn(1000))), uint(c.Intn(200)))
	case 28:
		return Coded(s())
	case 27:
		return json.RawMessage(fmt.Sprintf(`{"Name": %q}`, s()))
	}
	return 0
}

var destinations = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(true), reflect.TypeOf(0.5), reflect.TypeOf([]byte(nil)), reflect.TypeOf(User{}), reflect.TypeOf(Deep{}),
	reflect.TypeOf(map[string]int{}), reflect.TypeOf([]string{}), reflect.TypeOf(WithMap{}), reflect.TypeOf(Sparse{}), reflect.TypeOf([3]int{}), reflect.TypeOf(map[string][]int{}),
	reflect.TypeOf(Named(0)), reflect.TypeOf(NamedS("")), reflect.TypeOf(uint8(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(complex(1, 1)), reflect.TypeOf([]User{}),
	reflect.TypeOf(time.Time{}), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(struct{ Name string }{}), reflect.TypeOf(float32(0)), reflect.TypeOf(uint(0)), reflect.TypeOf([]any{}),
	reflect.TypeOf(map[string]any{}), reflect.TypeOf([2][]byte{}), reflect.TypeOf([2]User{}), reflect.TypeOf(big.Int{}), reflect.TypeOf(json.RawMessage{}),
	reflect.TypeOf(Shout("")), reflect.TypeOf(Tally(0)), reflect.TypeOf(Yes(true)), reflect.TypeOf(Coded("")), reflect.TypeOf(Recoded("")),
	reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(struct{}{}), reflect.TypeOf(struct{ x int }{}),
}

// unsuitable destinations whatever is stored.
func unsuitable(c *lib.C) (any, string) {
	var np *int
	var nu *User
	var e error
	x := 1
	px := &x
	pu := &User{Name: "p"}
	var nm map[string]int
	switch c.Intn(12) {
	case 0:
		return nil, lib.NeedsPtr
	case 1:
		return np, lib.NeedsPtr
	case 2:
		return 5, lib.NeedsPtr
	case 3:
		return User{}, lib.NeedsPtr
	case 4:
		return &px, lib.PtrPtr
	case 5:
		return &pu, lib.PtrPtr
	case 6:
		return nu, lib.NeedsPtr
	case 7:
		return e, lib.NeedsPtr
	case 8:
		return map[string]int{"a": 1}, lib.NeedsPtr
	case 9:
		return []byte("abc"), lib.NeedsPtr
	case 10:
		return &np, lib.PtrPtr
	}
	return nm, lib.NeedsPtr
}

// scramble changes everything a value reaches.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			return
		}
		if v.CanAddr() && v.Type() == reflect.TypeOf(big.Int{}) {
			b := v.Addr().Interface().(*big.Int).Bits()
			for i := range b {
				b[i] ^= 5
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			scramble(v.Field(i))
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scramble(v.MapIndex(k))
		}
		if !v.IsNil() && v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("scrambled").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
			for _, k := range v.MapKeys()[:1] {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 7)
		}
	case reflect.Uint8, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x33)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "scrambled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

var errRefused = errors.New("injected refusal")

// refusing is a provider whose Put can be made to fail without effect.
type refusing struct {
	sessionid.Provider
	put, get, del bool
}

func (p *refusing) Put(ctx context.Context, t string, pair []sessionid.PairBytes) error {
	if p.put {
		return errRefused
	}
	return p.Provider.Put(ctx, t, pair)
}

func (p *refusing) Get(ctx context.Context, t string, keys []string) ([]sessionid.Value, error) {
	if p.get {
		return nil, errRefused
	}
	return p.Provider.Get(ctx, t, keys)
}

func (p *refusing) Delete(ctx context.Context, t string, keys []string) error {
	if p.del {
		return errRefused
	}
	return p.Provider.Delete(ctx, t, keys)
}

// C15: one Session against a map of encoded values that are decoded afresh by the standard coders.
func c15(r *lib.R) {
	r.Bubble("session", r.N(24000, 800000), func(c *lib.C) {
		kind := pickKind(c)
		e := c.Open(kind, lib.Opts{})
		rc := refCoders[c.I/c.Shards/3%3]
		p := &refusing{Provider: e.P}
		m := lib.Manager(p, nil, nil, rc.c)
		ctx := context.Background()
		stored := map[string][]byte{}
		what := map[string]string{}
		lastRead := map[string]reflect.Type{} // what a key was read into
		keys := []string{"k", "l", "m", "n"}
		wide := 0
		if c.P(0.006) { // a session of many keys, which come and go many at a time
			wide = lib.Pick(c, []int{20, 70, 150, 400, 1500})
			for i := range wide {
				keys = append(keys, fmt.Sprint("wide", i))
			}
			c.Add("wide_sessions", 1)
		}
		many := func(least int) int {
			if wide > 0 && c.P(0.7) {
				return wide/2 + c.Intn(wide)
			}
			return least
		}
		var s *sessionid.Session
		fail := func(format string, a ...any) {
			c.Failf("%s provider, %s coder: %s", kind, rc.name, fmt.Sprintf(format, a...))
		}
		// pairs makes pairs that can be encoded, and their reference encoding.
		pairs := func() (out []sessionid.Pair, enc [][]byte) {
			for n := many(1 + c.Intn(3)); len(out) < n; {
				v := someValue(c)
				if len(out) > 20 {
					v = c.Word(3)
				}
				b, err := rc.enc(v)
				if err != nil {
					if c.P(0.1) {
						v = "x"
						b, _ = rc.enc(v)
					} else {
						continue
					}
				}
				out = append(out, sessionid.Pair{Key: lib.Pick(c, keys), Value: v})
				enc = append(enc, b)
			}
			return
		}
		note := func(ps []sessionid.Pair, enc [][]byte) {
			for i, x := range ps {
				stored[x.Key], what[x.Key] = enc[i], fmt.Sprintf("%T %+v", x.Value, x.Value)
			}
		}
		c.Do("manager Create", func() {
			ps, enc := pairs()
			if c.P(0.2) {
				ps, enc = nil, nil
			}
			note(ps, enc)
			c.Logf("%s, %s: Create %+v", kind, rc.name, ps)
			var err error
			s, _, err = m.Create(ctx, "u", ps...)
			if err != nil {
				fail("Create of %+v: %v", ps, err)
			}
			switch c.Intn(3) {
			case 1:
				s, err = m.Get(ctx, s.Token())
			case 2:
				s, err = sessionid.NewSession(s.Token(), p, rc.c)
			}
			if err != nil {
				fail("a Session of the token: %v", err)
			}
		})
		for i, n := 0, 15+c.Intn(50); i < n; i++ {
			c.Add("operations", 1)
			k := lib.Pick(c, keys)
			c.Do("Session", func() {
				switch c.Weighted(12, 4, 6, 40, 6, 5, 3, 4, 4) {
				case 0:
					ps, enc := pairs()
					c.Logf("Put %+v", ps)
					if err := s.Put(ctx, ps...); err != nil {
						fail("Put of %+v: %v", ps, err)
					}
					note(ps, enc)
					c.Add("puts", 1)
					if c.P(0.5) {
						for _, x := range ps {
							if v := reflect.ValueOf(x.Value); v.Kind() == reflect.Pointer || v.Kind() == reflect.Slice || v.Kind() == reflect.Map {
								scramble(v)
							}
						}
					}
				case 1: // the value cannot be encoded, or the provider refuses
					ps, _ := pairs()
					if c.P(0.5) {
						bad := sessionid.Pair{Key: lib.Pick(c, keys), Value: make(chan int)}
						if c.P(0.3) {
							bad.Value = func() {}
						}
						at := c.Intn(len(ps) + 1)
						ps = append(ps[:at:at], append([]sessionid.Pair{bad}, ps[at:]...)...)
					} else {
						p.put = true
					}
					c.Logf("failing Put %+v", ps)
					if err := s.Put(ctx, ps...); err == nil {
						fail("Put of %+v succeeds", ps)
					}
					p.put = false
					c.Add("failed_puts", 1)
				case 2:
					ks := []string{k}
					for n := many(0); len(ks) < n || c.P(0.5); {
						ks = append(ks, lib.Pick(c, append(keys, "absent")))
					}
					if p.get = c.P(0.2); p.get {
						s.Prepare(ctx, ks...)
						p.get = false
						return
					}
					if err := s.Prepare(ctx, ks...); err != nil {
						fail("Prepare(%q): %v", ks, err)
					}
					c.Logf("Prepare %q", ks)
					c.Add("prepares", 1)
				case 3, 4:
					if k == "n" && c.P(0.2) {
						k = "absent"
					}
					c15read(c, rc, s, k, stored, what, lastRead, fail)
				case 5:
					d, want := unsuitable(c)
					c.Logf("Get %q into %T", k, d)
					if err := s.Get(ctx, k, d); lib.ErrCode(err) != want {
						fail("Get(%q) into %T returned %v, want %s", k, d, err, want)
					}
					c.Add("reads_into_no_pointer", 1)
				case 6:
					got, err := s.Keys(ctx)
					if err != nil || len(got) != len(stored) {
						fail("Keys returned %q, %v; stored are %v", got, err, what)
					}
					for _, g := range got {
						if _, ok := stored[g]; !ok {
							fail("Keys returned %q, %v; stored are %v", got, err, what)
						}
					}
				case 7:
					ks := []string{k}
					for n := many(0); len(ks) < n || c.P(0.4); {
						ks = append(ks, lib.Pick(c, append(keys, "absent")))
					}
					if p.del = c.P(0.15); p.del {
						s.Delete(ctx, s.Token(), ks...)
						p.del = false
						return
					}
					c.Logf("Delete %q", ks)
					if err := s.Delete(ctx, s.Token(), ks...); err != nil {
						fail("Delete(%q): %v", ks, err)
					}
					for _, x := range ks {
						delete(stored, x)
					}
					c.Add("deletes", 1)
				case 8:
					if p.get = true; c.P(0.5) {
						var x any
						s.Get(ctx, k, &x)
					}
					p.get = false
					if err := s.Check(ctx); err != nil {
						fail("Check: %v", err)
					}
				}
			})
		}
		// a Session of its own sees the same
		c.Do("Session", func() {
			t, err := m.Get(ctx, s.Token())
			if err != nil {
				fail("manager Get: %v", err)
			}
			if wide > 0 { // a sample of them
				c.Rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
				keys = keys[:min(len(keys), 60)]
			}
			for _, k := range append(keys, "absent") {
				for i := 0; i < 2; i++ {
					c15read(c, rc, s, k, stored, what, lastRead, fail)
					c15read(c, rc, t, k, stored, what, lastRead, fail)
				}
			}
		})
		e.Close()
	})
}

// c15read reads a key into a destination of some type and some previous content.
func c15read(c *lib.C, rc refCoder, s *sessionid.Session, k string, stored map[string][]byte, what map[string]string, lastRead map[string]reflect.Type, fail func(string, ...any)) {
	b, ok := stored[k]
	t := lib.Pick(c, destinations)
	if last := lastRead[k]; last != nil && c.P(0.3) { // of the kind of the last one
		for i := 0; i < 30 && t.Kind() != last.Kind(); i++ {
			t = lib.Pick(c, destinations)
		}
	} else if ok && c.P(0.6) { // a type that fits
		for i := 0; i < 30; i++ {
			if x := lib.Pick(c, destinations); rc.dec(b, reflect.New(x).Interface()) == nil {
				t = x
				break
			}
		}
	}
	lastRead[k] = t
	d := reflect.New(t)
	dirty := c.P(0.6)
	if dirty {
		for i := 0; i < 20; i++ { // something of the type was there before
			if x, err := rc.enc(someValue(c)); err == nil && rc.dec(x, d.Interface()) == nil {
				break
			}
		}
		scramble(d)
	}
	before := fmt.Sprintf("%+v", d.Elem())
	err := s.Get(context.Background(), k, d.Interface())
	c.Logf("Get %q into %v (%v) -> %+v, %v", k, t, before, d.Elem(), err)
	c.Sig(rc.name, t, dirty, err == nil)
	c.Add("reads", 1)
	if !ok {
		if lib.ErrCode(err) != lib.NoKey {
			fail("Get(%q) returned %v (%+v), but nothing is stored under it", k, err, d.Elem())
		}
		c.Add("reads_of_absent_keys", 1)
		return
	}
	w := reflect.New(t)
	werr := rc.dec(b, w.Interface())
	if werr != nil {
		c.Add("reads_into_unsuitable_types", 1)
		if errors.Is(err, sessionid.ErrKeyNotExists) {
			fail("Get(%q) into %v returned %v; stored is %s", k, t, err, what[k])
		}
		if err == nil {
			fail("Get(%q) into %v succeeded with %+v; stored is %s, which the coder does not decode into it: %v", k, t, d.Elem(), what[k], werr)
		}
		return
	}
	if err != nil {
		fail("Get(%q) into %v failed: %v; stored is %s", k, t, err, what[k])
	}
	x, y := d.Elem().Interface(), w.Elem().Interface()
	if s := fmt.Sprintf("%#v", x); !reflect.DeepEqual(x, y) && !(strings.Contains(s, "NaN") && s == fmt.Sprintf("%#v", y)) {
		fail("Get(%q) into %v that held %s yields %+v; stored is %s, which decodes to %+v", k, t, before, d.Elem(), what[k], w.Elem())
	}
	c.Add("reads_compared", 1)
	if c.P(0.6) {
		scramble(d)
	}
}
