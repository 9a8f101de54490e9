package checks

import (
	"bytes"
	"context"
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"hash"
	"strings"
	"sync"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"

	"verif.local/h/lib"
)

func init() {
	all["C01"] = c01
	all["C02"] = c02
}

// The reference: the standard HMACs, used directly.
type alg struct {
	name string
	m    cryptoer.SigningMethod
	h    func() hash.Hash
}

var algs = []alg{
	{"HMD5", cryptoer.SigningMethodHMD5, md5.New}, {"HS1", cryptoer.SigningMethodHS1, sha1.New}, {"HS256", cryptoer.SigningMethodHS256, sha256.New},
	{"HS384", cryptoer.SigningMethodHS384, sha512.New384}, {"HS512", cryptoer.SigningMethodHS512, sha512.New},
}

func (a alg) mac(key []byte, s string) []byte {
	h := hmac.New(a.h, key)
	h.Write([]byte(s))
	return h.Sum(nil)
}

func (a alg) sign(key []byte, s string) string {
	return base64.RawURLEncoding.EncodeToString(a.mac(key, s))
}

// keyed is a signing method of an application.
type keyed struct{ salt string }

var errKeyed = errors.New("keyed: wrong signature")

func (k keyed) Alg() string { return "keyed" + k.salt }
func (k keyed) Sign(s string, key interface{}) (string, error) {
	b, ok := key.([]byte)
	if !ok {
		return "", errKeyed
	}
	x := sha256.Sum256([]byte(fmt.Sprintf("%q %q %q", k.salt, b, s)))
	return hex.EncodeToString(x[:12]), nil
}
func (k keyed) Verify(s, sig string, key interface{}) error {
	x, err := k.Sign(s, key)
	if err != nil {
		return err
	}
	if x != sig {
		return errKeyed
	}
	return nil
}

var oddBytes = ".\n\r=-_+/ \x00\xffAZaz09"

// variants of a text: every single byte changed, removed or added, cut and extended; and for a base64 text its other
// spellings.
func variants(c *lib.C, s string, dense bool) (out []string) {
	add := func(x string) {
		if x != s {
			out = append(out, x)
		}
	}
	for i := range len(s) {
		b := []byte(s)
		var alt []byte
		if dense {
			for x := 0; x < 256; x++ {
				alt = append(alt, byte(x))
			}
		} else {
			alt = append(alt, b[i]^0x20, b[i]+1, b[i]-1, byte(c.Intn(256)), oddBytes[c.Intn(len(oddBytes))], lib.Word64(c))
		}
		for _, x := range alt {
			b[i] = x
			add(string(b))
		}
		add(s[:i] + s[i+1:])
		add(s[:i] + string(s[i]) + s[i:])
		add(s[:i] + string(oddBytes[c.Intn(len(oddBytes))]) + s[i:])
		if i+1 < len(s) {
			add(s[:i] + string(s[i+1]) + string(s[i]) + s[i+2:])
		}
		if c.P(0.3) {
			add(s[:i])
			add(s[i:])
		}
	}
	// every byte after the last position: the spare bits of the last base64 character and what follows
	if n := len(s); n > 0 {
		for x := 0; x < 256; x++ {
			add(s[:n-1] + string([]byte{byte(x)}))
			add(s + string([]byte{byte(x)}))
		}
	}
	for _, x := range []string{"=", "==", "===", "\n", "\r\n", " ", "A", "AA", "AAAA", ".", "..", s, "\x00"} {
		add(s + x)
		add(x + s)
	}
	for range 4 {
		i, j := c.Intn(len(s)+1), c.Intn(len(s)+1)
		add(s[:i] + "\n" + s[i:])
		add(s[:min(i, j)] + s[max(i, j):])
	}
	add(strings.ToUpper(s))
	add(strings.ToLower(s))
	add(strings.TrimRight(s, string(s[max(0, len(s)-1):])))
	add(strings.NewReplacer("-", "+", "_", "/").Replace(s))
	add("")
	return
}

// otherKeys are keys near the given one under which the algorithm gives another signature.
func otherKeys(c *lib.C, a alg, key []byte) (out [][]byte) {
	add := func(k []byte) {
		if !hmac.Equal(a.mac(k, "probe"), a.mac(key, "probe")) {
			out = append(out, k)
		}
	}
	flip := func(i int, x byte) []byte {
		b := append([]byte(nil), key...)
		b[i] ^= x
		return b
	}
	if n := len(key); n > 0 {
		add(flip(0, 1))
		add(flip(n-1, 0x80))
		add(flip(c.Intn(n), 0x20))
		add(key[:n-1])
		add(key[1:])
		add(append(append([]byte(nil), key...), key...))
		b := append([]byte(nil), key...)
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		add(b)
		if n > 64 {
			add(key[:64])
		}
		if n > 128 {
			add(key[:128])
		}
	}
	add(append(append([]byte(nil), key...), 1))
	add(append(append([]byte(nil), key...), 'x'))
	for _, x := range []string{" ", "\n", "\r\n", "\t"} {
		add([]byte(string(key) + x))
		add([]byte(x + string(key)))
	}
	add(bytes.ToLower(key))
	add(bytes.ToUpper(key))
	add(bytes.TrimSpace(key))
	add(nil)
	add([]byte(base64.RawURLEncoding.EncodeToString(key)))
	add([]byte(hex.EncodeToString(key)))
	add(c.Bytes(1 + c.Intn(70)))
	h := a.h()
	h.Write([]byte("x"))
	h.Write(key)
	add(h.Sum(nil))
	return
}

func someKey(c *lib.C) []byte {
	n := lib.Pick(c, []int{1, 2, 8, 16, 31, 32, 37, 63, 64, 65, 127, 128, 129, 200})
	if c.P(0.4) {
		n = 1 + c.Intn(140)
	}
	if c.P(0.2) { // as people write them
		return []byte(lib.Pick(c, []string{"", " ", "Secret "}) + c.Word(n) + lib.Pick(c, []string{"", "\n", " ", "\x00\n"}))
	}
	return c.Bytes(n)
}

// C01: every string near the tokens in circulation against managers over recording providers.
func c01(r *lib.R) {
	r.Bubble("tokens", r.N(400, 20000), func(c *lib.C) {
		ctx := context.Background()
		a := algs[c.I/c.Shards%5]
		key := someKey(c)
		if c.P(0.06) {
			key = []byte{}
		}
		custom := c.P(0.1)
		method := a.m
		if custom {
			method = keyed{"1"}
		} else if c.P(0.3) {
			method = cryptoer.GetSigningMethod(a.name)
		}
		inner := lib.NewMemory(lib.Opts{})
		rec := &lib.Recording{P: inner}
		twin := &lib.Recording{P: inner}
		mgr := func(p sessionid.Provider, m cryptoer.SigningMethod, k []byte) *sessionid.LocalManager {
			return lib.Manager(p, m, append([]byte{}, k...), lib.Raw{})
		}
		m1, m2 := mgr(rec, method, key), mgr(twin, method, key)
		c.Sig(a.name, custom, key)
		c.Logf("method %s, key %x", method.Alg(), key)
		type pair struct{ a, r string }
		var live []pair
		valid := map[string]bool{}
		issue := func(m *sessionid.LocalManager) {
			id := lib.Pick(c, []string{"u", "u1", "", "a.b", "\x00\xff", strings.Repeat("long", 40), c.Word(3)})
			s, ref, err := m.Create(ctx, id, sessionid.Pair{Key: "k", Value: id})
			if err != nil {
				c.Failf("Create: %v", err)
			}
			live = append(live, pair{s.Token(), ref})
			valid[s.Token()], valid[ref] = true, true
			c.Logf("issued %s and %s for %q", s.Token(), ref, id)
		}
		for i := 0; i < 4; i++ {
			issue([]*sessionid.LocalManager{m1, m2}[i%2])
		}
		accept := func(m *sessionid.LocalManager, name, t string) {
			s, err := m.Get(ctx, t)
			if err != nil || s == nil || s.Token() != t {
				c.Failf("%s: Get(%q), a token issued under its key and method, returns %v, %v", name, t, s, err)
			}
			c.Add("accepted", 1)
		}
		// issued tokens pass in every manager of the key, after refreshes too
		for n := 0; n < 6; n++ {
			for t := range valid {
				accept(m1, "the manager", t)
				accept(m2, "another manager of the same key and method", t)
			}
			i := c.Intn(len(live))
			m, rc := m1, rec
			if c.P(0.5) {
				m, rc = m2, twin
			}
			rc.Take()
			na, nr, err := m.Refresh(ctx, live[i].a, live[i].r)
			if err != nil || len(rc.Take()) != 1 {
				c.Failf("Refresh(%q, %q) with issued tokens returns %v", live[i].a, live[i].r, err)
			}
			live[i] = pair{na, nr}
			valid[na], valid[nr] = true, true
		}
		rejects := func(m *sessionid.LocalManager, rc *lib.Recording, why, t string) {
			rc.Take()
			s, err := m.Get(ctx, t)
			if err == nil || s != nil {
				c.Failf("Get(%q) (%s) returns %v, %v", t, why, s, err)
			}
			c.Add("strings_rejected", 1)
			if n := rc.Take(); len(n) != 0 {
				c.Failf("Get(%q) (%s) reaches the provider: %v", t, why, n[0].Op)
			}
		}
		rejectsRefresh := func(m *sessionid.LocalManager, rc *lib.Recording, why, x, y string) {
			rc.Take()
			na, nr, err := m.Refresh(ctx, x, y)
			if err == nil || na != "" || nr != "" {
				c.Failf("Refresh(%q, %q) (%s) returns %q, %q, %v", x, y, why, na, nr, err)
			}
			c.Add("refreshes_rejected", 1)
			if n := rc.Take(); len(n) != 0 {
				c.Failf("Refresh(%q, %q) (%s) reaches the provider: %v", x, y, why, n[0].Op)
			}
		}
		try := func(why, t string) {
			if valid[t] {
				return
			}
			rejects(m1, rec, why, t)
			switch c.Intn(12) {
			case 0:
				rejectsRefresh(m1, rec, why, t, live[0].r)
			case 1:
				rejectsRefresh(m1, rec, why, live[0].a, t)
			case 2:
				rejectsRefresh(m1, rec, why, t, t)
			case 3:
				rejects(m2, twin, why, t)
			}
		}
		c.Do("Get and Refresh with strings that were not issued", func() {
			p := live[c.Intn(len(live))]
			for _, t := range variants(c, p.a, c.P(0.04)) {
				try("a changed token", t)
			}
			for _, t := range variants(c, p.r, false) {
				try("a changed refresh token", t)
			}
			// parts recombined
			var ids, sess, sigs []string
			for t := range valid {
				id, s, sig, err := sessionid.Split(t)
				if err != nil {
					c.Failf("Split(%q): %v", t, err)
				}
				ids, sess, sigs = append(ids, id), append(sess, s), append(sigs, sig)
			}
			for i := 0; i < 60; i++ {
				x, y, z := lib.Pick(c, ids), lib.Pick(c, sess), lib.Pick(c, sigs)
				try("parts of several tokens", x+"."+y+"."+z)
				try("parts of several tokens", x+"."+z)
				try("parts of several tokens", x+"."+y+"."+lib.Pick(c, sess)+"."+z)
				try("parts of several tokens", y+"."+x+"."+z)
				try("parts of several tokens", x+"."+y+"."+z+"."+lib.Pick(c, sigs))
				try("parts of several tokens", lib.EncID(c.Word(2))+"."+y+"."+z)
				try("no signature", x+"."+y+".")
				try("no signature", x+"."+y)
			}
			// a manager that is given no key has one of its own
			std := sessionid.NewManager(sessionid.WithProvider(inner), sessionid.WithMethod(method))
			if s, ref, err := std.Create(ctx, live[0].a[:4]); err != nil {
				c.Failf("Create of a manager that was given no key: %v", err)
			} else {
				try("of a manager that was given no key", s.Token())
				rejectsRefresh(m1, rec, "of a manager that was given no key", s.Token(), ref)
				c.Add("tokens_of_the_default_key", 2)
			}
			if custom {
				return
			}
			// signed, but not with this key and method
			id, s, _, _ := sessionid.Split(p.a)
			ss := id + "." + s
			for _, k := range otherKeys(c, a, key) {
				try("signed with another key", ss+"."+a.sign(k, ss))
				m3 := lib.Recording{P: inner}
				m := mgr(&m3, a.m, k)
				rejects(m, &m3, "at a manager of another key", p.a)
				rejectsRefresh(m, &m3, "at a manager of another key", p.a, p.r)
			}
			for _, b := range algs {
				if b.name == a.name {
					continue
				}
				try("signed with another method", ss+"."+b.sign(key, ss))
				m3 := lib.Recording{P: inner}
				m := mgr(&m3, b.m, key)
				rejects(m, &m3, "at a manager of another method", p.a)
				rejectsRefresh(m, &m3, "at a manager of another method", p.a, p.r)
			}
			mac := a.mac(key, ss)
			raw := a.h()
			raw.Write([]byte(ss))
			for why, sig := range map[string]string{
				"the signature in hex":           hex.EncodeToString(mac),
				"the signature in raw bytes":     string(mac),
				"the signature in padded base64": base64.URLEncoding.EncodeToString(mac) + "=",
				"half of the signature":          base64.RawURLEncoding.EncodeToString(mac[:len(mac)/2]),
				"most of the signature":          base64.RawURLEncoding.EncodeToString(mac[:len(mac)-1]),
				"one byte of the signature":      base64.RawURLEncoding.EncodeToString(mac[:1]),
				"the signature and more":         base64.RawURLEncoding.EncodeToString(append(append([]byte{}, mac...), 0)),
				"twice the signature":            base64.RawURLEncoding.EncodeToString(append(append([]byte{}, mac...), mac...)),
				"a hash without a key":           base64.RawURLEncoding.EncodeToString(raw.Sum(nil)),
				"a signature of the session":     a.sign(key, s),
				"a signature of the id":          a.sign(key, id),
				"a signature of nothing":         a.sign(key, ""),
				"zeros":                          base64.RawURLEncoding.EncodeToString(make([]byte, len(mac))),
			} {
				try(why, ss+"."+sig)
			}
		})
		c.Do("Close", func() { inner.Close() })
	})

	// several goroutines at managers of different keys at once
	r.Bubble("parallel", r.N(1500, 60000), func(c *lib.C) {
		ctx := context.Background()
		inner := lib.NewMemory(lib.Opts{})
		type mk struct {
			m     *sessionid.LocalManager
			s     []string
			refs  map[string]string
			other int
		}
		var ms []*mk
		n := 2 + c.Intn(2)
		same := c.P(0.5)
		al := lib.Pick(c, algs)
		for i := 0; i < n; i++ {
			if !same {
				al = algs[(c.I+i)%5]
			}
			m := &mk{m: lib.Manager(inner, al.m, c.Bytes(8+c.Intn(40)), lib.Raw{}), refs: map[string]string{}}
			for j := 0; j < 3; j++ {
				s, ref, err := m.m.Create(ctx, lib.Pick(c, []string{"u", "v"}))
				if err != nil {
					c.Failf("Create: %v", err)
				}
				m.s = append(m.s, s.Token())
				m.refs[s.Token()] = ref
			}
			ms = append(ms, m)
		}
		var fs []func()
		for g := 0; g < 2+c.Intn(3); g++ {
			type step struct {
				m       *mk
				t, ref  string
				ok      bool
				refresh bool
			}
			var steps []step
			for k := 0; k < 8; k++ {
				i, j := c.Intn(n), c.Intn(n)
				t := lib.Pick(c, ms[j].s)
				ref := ms[j].refs[t]
				ok := i == j
				if c.P(0.3) {
					v := variants(c, t, false)
					t = v[c.Intn(len(v))]
					ok = false
				}
				c.Sig(i, j, t)
				steps = append(steps, step{ms[i], t, ref, ok, c.P(0.2)})
			}
			fs = append(fs, func() {
				for _, s := range steps {
					if s.refresh && !s.ok {
						na, nr, err := s.m.m.Refresh(ctx, s.t, s.ref)
						if err == nil || na != "" || nr != "" {
							c.Failf("beside other goroutines, Refresh(%q, %q) of tokens that are not the manager's returns %q, %q, %v", s.t, s.ref, na, nr, err)
						}
						continue
					}
					x, err := s.m.m.Get(ctx, s.t)
					if s.ok != (err == nil) || s.ok != (x != nil) {
						c.Failf("beside other goroutines, Get(%q) returns %v, %v; issued by this manager: %v", s.t, x, err, s.ok)
					}
				}
				c.Add("calls_beside_others", len(steps))
			})
		}
		c.Chaos(0.2, 1000)
		c.Par("Get and Refresh", fs...)
		c.Calm()
		c.Do("Close", func() { inner.Close() })
	})
}

func someText(c *lib.C) string {
	switch c.Intn(6) {
	case 0:
		return ""
	case 1:
		return c.Word(c.Intn(8)) + "." + c.Word(c.Intn(30))
	case 2:
		return string(c.Bytes(lib.Pick(c, []int{55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 1000, 5000})))
	}
	return string(c.Bytes(c.Intn(70)))
}

// C02: the signing methods, the token codec and the registry against the standard HMACs and a map.
func c02(r *lib.R) {
	r.Bubble("sign", r.N(3000, 100000), func(c *lib.C) {
		a := algs[c.I/c.Shards%5]
		var key []byte
		if c.P(0.05) {
			key = lib.Pick(c, [][]byte{nil, {}})
		} else {
			key = someKey(c)
		}
		s := someText(c)
		c.Sig(a.name, key, s)
		c.Logf("%s, key %x, string %q", a.name, key, s)
		want := a.sign(key, s)
		must := func(what string, ok bool, got ...any) {
			c.Add("verdicts", 1)
			if !ok {
				c.Failf("%s with key %x on %q: %s: %v", a.name, key, s, what, got)
			}
		}
		c.Do("Sign and Verify", func() {
			k := append([]byte(nil), key...)
			for i := 0; i < 2; i++ {
				got, err := a.m.Sign(s, k)
				must("Sign gives something else than "+want, err == nil && got == want, got, err)
				must("Verify refuses the signature", a.m.Verify(s, want, k) == nil)
			}
			must("the key was changed", string(k) == string(key))
			must("Alg", a.m.Alg() == a.name, a.m.Alg())
			for _, v := range variants(c, want, c.P(0.01)) {
				if c.P(0.5) {
					must("Verify accepts a signature text that Sign does not give", a.m.Verify(s, v, key) != nil, fmt.Sprintf("%q", v))
				}
			}
			mac := a.mac(key, s)
			must("Verify accepts hex", a.m.Verify(s, hex.EncodeToString(mac), key) != nil)
			must("Verify accepts raw bytes", a.m.Verify(s, string(mac), key) != nil)
			for _, k := range otherKeys(c, a, key) {
				must("Verify accepts under another key", a.m.Verify(s, want, k) != nil, fmt.Sprintf("%x", k))
			}
			if s != "" {
				vs := variants(c, s, false)
				for i := 0; i < 30; i++ {
					v := vs[c.Intn(len(vs))]
					must("Verify accepts for another string", a.m.Verify(v, want, key) != nil, fmt.Sprintf("%q", v))
				}
			}
			for _, b := range algs {
				if b.name != a.name {
					must("Verify of "+b.name+" accepts", b.m.Verify(s, want, key) != nil)
					must(b.name+" accepted", a.m.Verify(s, b.sign(key, s), key) != nil)
				}
			}
			for _, k := range []any{nil, string(key), &key, 5, []string{"k"}} {
				got, err := a.m.Sign(s, k)
				must(fmt.Sprintf("Sign takes a key of type %T", k), err != nil && got == "", got, err)
				must(fmt.Sprintf("Verify takes a key of type %T", k), a.m.Verify(s, want, k) != nil)
			}
		})
	})

	r.Bubble("long", r.N(60, 1000), func(c *lib.C) {
		a := algs[c.I/c.Shards%5]
		n := lib.Pick(c, []int{1 << 12, 1 << 15, 1 << 16, 1 << 17, 1 << 20}) + c.Intn(200) - 100
		key, b := someKey(c), c.Bytes(n)
		if c.P(0.3) {
			key = c.Bytes(1<<lib.Pick(c, []int{8, 12, 16, 20}) + c.Intn(3) - 1)
		}
		s := string(b)
		c.Sig(a.name, len(key), n)
		want := a.sign(key, s)
		c.Do("Sign and Verify", func() {
			if got, err := a.m.Sign(s, key); err != nil || got != want {
				c.Failf("%s with a key of %d bytes on a string of %d: Sign gives %q, %v instead of %q", a.name, len(key), n, got, err, want)
			}
			if err := a.m.Verify(s, want, key); err != nil {
				c.Failf("%s with a key of %d bytes on a string of %d: Verify gives %v", a.name, len(key), n, err)
			}
			for i := 0; i < 12; i++ {
				j, k := lib.Pick(c, []int{0, n - 1, c.Intn(n), n - 1 - c.Intn(100)}), append([]byte(nil), key...)
				b[j] ^= byte(1 + c.Intn(255))
				x := string(b)
				if c.P(0.2) {
					x = s[:j]
				}
				if c.P(0.4) {
					x = s
					if j := c.Intn(len(k)); len(k) > 200 || c.P(0.5) {
						k[len(k)-1-j%min(len(k), 70)] ^= 1
					} else {
						k[j] ^= 1
					}
				}
				if a.m.Verify(x, want, k) == nil && (x != s || a.sign(k, s) != want) {
					c.Failf("%s: Verify takes the signature of a string of %d bytes for one that differs at %d", a.name, n, j)
				}
				c.Add("verdicts", 1)
				copy(b, s)
			}
		})
	})
	r.Bubble("codec", r.N(2000, 60000), func(c *lib.C) {
		a := algs[c.I/c.Shards%5]
		key := someKey(c)
		id := lib.Pick(c, []string{"", "u", "a.b", "..", ".", "a.", ".a", "\x00", someText(c), c.Word(5) + "." + c.Word(5)})
		sess := strings.ReplaceAll(lib.Pick(c, []string{"", "s", someText(c), c.Word(20)}), ".", "_")
		if c.P(0.3) {
			x, err := cryptoer.SessionID()
			if err != nil || strings.Contains(x, ".") {
				c.Failf("SessionID gives %q, %v", x, err)
			}
			sess = x
		}
		c.Sig(a.name, key, id, sess)
		c.Logf("%s, key %x, id %q, session %q", a.name, key, id, sess)
		c.Do("Encode and Decode", func() {
			t, err := cryptoer.Encode(a.m, key, id, sess)
			if err != nil {
				c.Failf("Encode(%q, %q): %v", id, sess, err)
			}
			i, s, err := cryptoer.Decode(a.m, key, t)
			if err != nil || i != id || s != sess {
				c.Failf("%s, key %x: Decode of Encode(%q, %q) = %q gives %q, %q, %v", a.name, key, id, sess, t, i, s, err)
			}
			bad := func(why string, m cryptoer.SigningMethod, k []byte, x string) {
				c.Add("verdicts", 1)
				if i, s, err := cryptoer.Decode(m, k, x); err == nil {
					c.Failf("%s, key %x: Decode(%q) (%s) gives %q, %q; the token is %q", m.Alg(), k, x, why, i, s, t)
				}
			}
			vs := variants(c, t, false)
			for n := 0; n < 300; n++ {
				if x := vs[c.Intn(len(vs))]; x != t {
					bad("a changed token", a.m, key, x)
				}
			}
			for _, k := range otherKeys(c, a, key) {
				bad("another key", a.m, k, t)
			}
			for _, b := range algs {
				if b.name != a.name {
					bad("another method", b.m, key, t)
				}
			}
			for _, x := range append([]string{"a.b.", "..", "a..", ".b."}, lib.Malforms...) {
				if x != t {
					bad("not a token", a.m, key, x)
				}
			}
			// tokens of the application's own methods
			m := keyed{c.Word(2)}
			t, err = cryptoer.Encode(m, key, id, sess)
			i, s, err2 := cryptoer.Decode(m, key, t)
			if err != nil || err2 != nil || i != id || s != sess {
				c.Failf("with an application's method, Decode of Encode(%q, %q) = %q gives %q, %q, %v, %v", id, sess, t, i, s, err, err2)
			}
		})
	})

	// the registry: sequences of registrations and lookups, the built-in names and aliases included
	registered := map[string]func() cryptoer.SigningMethod{}
	for _, a := range algs {
		registered[a.name] = func() cryptoer.SigningMethod { return a.m }
	}
	r.Bubble("registry", r.N(1000, 20000), func(c *lib.C) {
		pool := []string{"HMD5", "HS1", "HS256", "HS384", "HS512", "hs256", "HS", "", "none", "HS2566", "x", c.Word(3)}
		made := 0
		for i := 0; i < 40; i++ {
			n := lib.Pick(c, pool)
			if c.P(0.4) {
				m := keyed{fmt.Sprint(c.I, ".", i)}
				f := func() cryptoer.SigningMethod { return m }
				if c.P(0.2) { // another name for a method looked up when needed
					to := lib.Pick(c, []string{"HS256", "HS512"})
					if n == "HS256" || n == "HS512" {
						continue
					}
					f = func() cryptoer.SigningMethod { return cryptoer.GetSigningMethod(to) }
				}
				c.Logf("register %q", n)
				c.Do("RegisterSigningMethod", func() { cryptoer.RegisterSigningMethod(n, f) })
				registered[n] = f
				made++
			}
			n = lib.Pick(c, pool)
			var got, want cryptoer.SigningMethod
			c.Do("GetSigningMethod", func() { got = cryptoer.GetSigningMethod(n) })
			c.Add("lookups", 1)
			if f := registered[n]; f != nil {
				c.Do("GetSigningMethod", func() { want = f() })
			}
			if got != want {
				c.Failf("GetSigningMethod(%q) = %v, want %v, the method registered last", n, got, want)
			}
			c.Sig(n, got == nil)
		}
		for _, a := range algs {
			cryptoer.RegisterSigningMethod(a.name, func() cryptoer.SigningMethod { return a.m })
			registered[a.name] = func() cryptoer.SigningMethod { return a.m }
		}
	})

	// the registry beside others: each lookup gives a method that was the latest one at some moment during it
	type version struct {
		keyed
		name string
		v    int
	}
	r.Bubble("registry-parallel", r.N(2500, 80000), func(c *lib.C) {
		prefix := fmt.Sprintf("p%d-%d-", c.Shard, c.I)
		names := []string{prefix + "a", prefix + "b", prefix + "c"}
		if c.P(0.3) {
			names[0] = "HS256"
		}
		alias := prefix + "alias"
		aliases := c.P(0.5)
		if aliases {
			cryptoer.RegisterSigningMethod(alias, func() cryptoer.SigningMethod { return cryptoer.GetSigningMethod(names[1]) })
		}
		var mu sync.Mutex
		begun, done := map[string]int{}, map[string]int{}
		var fs []func()
		for _, n := range names { // one writer of each name
			k := 1 + c.Intn(4)
			fs = append(fs, func() {
				for v := 1; v <= k; v++ {
					m := version{name: n, v: v}
					mu.Lock()
					begun[n] = v
					mu.Unlock()
					cryptoer.RegisterSigningMethod(n, func() cryptoer.SigningMethod { return m })
					mu.Lock()
					done[n] = v
					mu.Unlock()
				}
			})
		}
		for g := 0; g < 2+c.Intn(3); g++ {
			var list []string
			for i := 0; i < 5; i++ {
				n := lib.Pick(c, append(names, prefix+"unknown"))
				if aliases && c.P(0.3) {
					n = alias
				}
				list = append(list, n)
			}
			fs = append(fs, func() {
				for _, n := range list {
					real := n
					if n == alias {
						real = names[1]
					}
					mu.Lock()
					lo := done[real]
					mu.Unlock()
					m := cryptoer.GetSigningMethod(n)
					mu.Lock()
					hi := begun[real]
					mu.Unlock()
					v := 0
					switch x := m.(type) {
					case nil:
					case version:
						v = x.v
						if x.name != real {
							c.Failf("GetSigningMethod(%q) gives the method of %q", n, x.name)
						}
					default:
						if n != "HS256" || m != cryptoer.SigningMethod(cryptoer.SigningMethodHS256) {
							c.Failf("GetSigningMethod(%q) gives %v", n, m)
						}
					}
					if v < lo || v > hi {
						c.Failf("GetSigningMethod(%q) gives registration %d beside others, but %d had been completed before it and %d begun until its end", n, v, lo, hi)
					}
					if n == "HS256" && m == nil {
						c.Failf("GetSigningMethod(%q) gives nothing", n)
					}
					c.Add("lookups_beside_others", 1)
					c.Sig(n, v, lo, hi)
				}
			})
		}
		c.Chaos(0.3, 1000)
		c.Par("registrations and lookups", fs...)
		c.Calm()
		for _, n := range names {
			if m, ok := cryptoer.GetSigningMethod(n).(version); !ok || m.v != done[n] {
				c.Failf("afterwards GetSigningMethod(%q) gives %v, want registration %d", n, cryptoer.GetSigningMethod(n), done[n])
			}
		}
		cryptoer.RegisterSigningMethod("HS256", func() cryptoer.SigningMethod { return cryptoer.SigningMethodHS256 })
	})

	// sequences of calls: few strings, keys that are parts of one buffer which the caller overwrites, all methods
	r.Bubble("sequence", r.N(3000, 100000), func(c *lib.C) {
		buf := c.Bytes(300)
		texts := []string{someText(c), someText(c), "", "a.b"}
		type given struct {
			a    int
			key  []byte
			text string
			sig  string
		}
		var old []given
		off, size := 0, 1+c.Intn(70)
		for i := 0; i < 40; i++ {
			if c.P(0.3) {
				off, size = c.Intn(100), lib.Pick(c, []int{0, 1, 16, 32, 63, 64, 65, 128, 129, 200})
			}
			switch c.Intn(6) {
			case 0:
				copy(buf, c.Bytes(len(buf)))
			case 1:
				buf[c.Intn(len(buf))]++
			case 2:
				if len(old) != 0 { // a key used before, in the same place
					o := lib.Pick(c, old)
					size = copy(buf[off:], o.key)
				}
			}
			k := buf[off : off+size]
			n := c.Intn(len(algs))
			a := algs[n]
			text := lib.Pick(c, texts)
			c.Logf("%s with key %x of %q", a.name, k, text)
			c.Sig(a.name, k, text)
			c.Do("Sign and Verify", func() {
				before := string(k)
				want := a.sign(k, text)
				if c.P(0.7) {
					if got, err := a.m.Sign(text, k); err != nil || got != want {
						c.Failf("%s with key %x signs %q as %q, %v, want %q", a.name, k, text, got, err, want)
					}
				}
				if err := a.m.Verify(text, want, k); err != nil {
					c.Failf("%s with key %x refuses its signature of %q: %v", a.name, k, text, err)
				}
				for range 3 {
					if len(old) == 0 {
						break
					}
					o := lib.Pick(c, old)
					sig, tx := o.sig, text
					if c.P(0.5) {
						tx = o.text
					}
					if err := a.m.Verify(tx, sig, k); (err == nil) != (a.sign(k, tx) == sig) {
						c.Failf("%s with key %x on %q and the signature %q given by %s with key %x for %q: %v", a.name, k, tx, sig, algs[o.a].name, o.key, o.text, err)
					}
					c.Add("verdicts", 1)
				}
				if string(k) != before {
					c.Failf("the key was changed from %x to %x", before, k)
				}
				old = append(old, given{n, []byte(before), text, want})
			})
		}
	})

	// signing and verifying beside others
	r.Bubble("sign-parallel", r.N(2000, 60000), func(c *lib.C) {
		var fs []func()
		a := lib.Pick(c, algs)
		key := someKey(c)
		for g := 0; g < 2+c.Intn(4); g++ {
			b, k := a, key
			if c.P(0.4) {
				b = lib.Pick(c, algs)
			}
			if c.P(0.4) {
				k = someKey(c)
			}
			var ss []string
			for i := 0; i < 4; i++ {
				ss = append(ss, someText(c))
			}
			c.Sig(b.name, k, ss)
			fs = append(fs, func() {
				for i, s := range ss {
					want := b.sign(k, s)
					if got, err := b.m.Sign(s, k); err != nil || got != want {
						c.Failf("beside others, %s with key %x signs %q as %q, %v, want %q", b.name, k, s, got, err, want)
					}
					if err := b.m.Verify(s, want, k); err != nil {
						c.Failf("beside others, %s with key %x refuses its signature of %q: %v", b.name, k, s, err)
					}
					if b.m.Verify(s+"x", want, k) == nil || b.m.Verify(s, b.sign(k, s+"y"), k) == nil {
						c.Failf("beside others, %s with key %x accepts a wrong signature of %q", b.name, k, s)
					}
					id, sess := fmt.Sprint("i.", i), "s"
					t, err := cryptoer.Encode(b.m, k, id, sess)
					i2, s2, err2 := cryptoer.Decode(b.m, k, t)
					if err != nil || err2 != nil || i2 != id || s2 != sess {
						c.Failf("beside others, Decode(%q) = %q, %q, %v, %v", t, i2, s2, err, err2)
					}
					c.Add("signatures_beside_others", 1)
				}
			})
		}
		c.Chaos(0.3, 1000)
		c.Par("Sign and Verify", fs...)
		c.Calm()
	})
}
