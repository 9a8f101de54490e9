package lib

import (
	"strings"
	"time"
)

// Profile weighs the steps of a random history.
type Profile struct {
	Create, Recreate, Refresh, BadRefresh, Put, Get, Keys, Delete, Check, Destroy, DestroyTok, Pass, Tick, Look, Glance, Malformed, DataSpent int

	IDs      []string
	KeyPool  []string
	MaxPairs int
	Big      float64 // probability of a big value
	Many     float64 // probability of very many pairs
	Sessions int     // no more creates once so many are known
}

// KeyNames makes a pool of key names: related by prefix, odd bytes, long.
func (c *C) KeyNames(n int) []string {
	base := []string{"k", "kk", "k.", "K", "key", "key\x00", "\x00", "key\xff", "名前", "a b", "*", "k*", "data", "lru", "ids", "metadata", "count",
		strings.Repeat("long", 100), "k1", "k10", "k2", "\n", "-", "__private"}
	if c.P(0.05) { // long, and later ones differ in the last byte alone
		base = append(base, strings.Repeat("long", Pick(c, []int{16, 64, 256, 1000, 4096, 8000})))
	}
	out := make([]string, 0, n)
	seen := map[string]bool{}
	for len(out) < n {
		var k string
		switch {
		case c.P(0.6):
			k = Pick(c, base)
		case c.P(0.5) && len(out) > 0:
			k = Pick(c, out) + string(c.Bytes(1))
		case c.P(0.3): // like another one with something at an end
			k = "k"
			if len(out) > 0 {
				k = Pick(c, out)
			}
			if c.P(0.5) {
				k = Pick(c, marks) + k
			} else {
				k += Pick(c, marks)
			}
		default:
			k = string(c.Bytes(1 + c.Intn(12)))
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

// IDNames makes a pool of ids without dots, related by prefix and full of pattern characters.
func (c *C) IDNames(n int) []string {
	base := []string{"u", "u1", "u10", "u*", "*", "?", "u?", "[u]", "[a-z]", "[^u]", "u\\", "\\*", "U", "Zg", "Zm9v", "名", "u-", "_", "u[", "]", "**", "u\x00", "\xff", "u u"}
	out := make([]string, 0, n)
	seen := map[string]bool{}
	for len(out) < n {
		var k string
		switch {
		case c.P(0.7):
			k = Pick(c, base)
		case c.P(0.6) && len(out) > 0:
			k = Pick(c, out) + Pick(c, []string{"*", "1", "?", "x", "\\", "]"})
		case c.P(0.3) && len(out) > 0:
			m := strings.ReplaceAll(Pick(c, marks), ".", "")
			if k = Pick(c, out) + m; c.P(0.5) {
				k = m + Pick(c, out)
			}
		default:
			k = c.Word(1 + c.Intn(5))
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

// Value makes a value, unique most of the time.
func (h *Hist) Value(big float64) string {
	c := h.C
	switch {
	case c.P(0.12):
		return ""
	case c.P(big):
		return string(c.Bytes(Pick(c, []int{255, 256, 1023, 4096, 4097, 9000, 33000})))
	case c.P(0.1):
		return Pick(c, []string{"\x00", "0", "nil", "\xff\xfe", "\r\n", "+OK", "$-1"})
	case c.P(0.06): // with a beginning and an end that mean something somewhere
		v := Pick(c, marks) + c.Word(c.Intn(4)) + Pick(c, marks)
		return v[:min(len(v), 60)]
	}
	h.serial++
	return string(c.Bytes(c.Intn(10))) + c.Word(4)
}

var marks = []string{"", "", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x1f\x8b\x08", "\x00", "\x00\x00\x00\x00", "\xff", "\x80", "\n", "\r\n", " ", "\t", "\v", "\u00a0", "\u2028", "\u0085", "\ufffd",
	"\"", "'", "{", "}", "[]", "null", "true", "<", ">", "&amp;", "%00", "%s", "\\", "\\n", "$", "=", "==", ".", ",", ";", "0", "-", "+", "~", "*", "\x7f", "\x1b[0m", "/", "//", "../", "./", "a", "A", "é", "e\u0301", "ß", "ﬁ", "ı", "gob:", "json:", "__private"}

// Pairs makes the pairs of a Create or Put, duplicates included.
func (h *Hist) Pairs(p Profile) []KV {
	c := h.C
	n := c.Intn(p.MaxPairs + 1)
	many := c.P(p.Many)
	if many {
		n = 40 + c.Intn(Pick(c, []int{200, 200, 200, 200, 2500}))
	}
	var out []KV
	for i := 0; i < n; i++ {
		k := Pick(c, p.KeyPool)
		if many {
			k += c.Word(2)
		}
		out = append(out, KV{k, h.Value(p.Big)})
	}
	return out
}

// SomeKeys makes a key list: present, absent and repeated ones.
func (h *Hist) SomeKeys(p Profile, tok string) []string {
	c := h.C
	var out []string
	var have []string
	if s := h.M.By[tok]; s != nil {
		have = s.KeyList()
	}
	for i, n := 0, c.Intn(5); i < n; i++ {
		switch {
		case len(have) > 0 && c.P(0.6):
			out = append(out, Pick(c, have))
		case len(out) > 0 && c.P(0.2):
			out = append(out, Pick(c, out))
		default:
			out = append(out, Pick(c, p.KeyPool))
		}
	}
	if c.P(0.1) {
		out = append(out, have...)
	}
	return out
}

// Step performs one random step.
func (h *Hist) Step(p Profile) {
	if h.Over {
		return
	}
	c := h.C
	w := []int{p.Create, p.Recreate, p.Refresh, p.BadRefresh, p.Put, p.Get, p.Keys, p.Delete, p.Check, p.Destroy, p.DestroyTok, p.Pass, p.Tick, p.Look, p.Glance, p.Malformed, p.DataSpent}
	k := c.Weighted(w...)
	if k == 0 && p.Sessions > 0 && len(h.Known) >= p.Sessions && len(h.M.Order) > 0 {
		k = c.Weighted(0, p.Recreate, p.Refresh, p.BadRefresh, p.Put, p.Get, p.Keys, p.Delete, p.Check, p.Destroy, p.DestroyTok, p.Pass, p.Tick, p.Look, p.Glance, p.Malformed, p.DataSpent)
	}
	if len(h.Known) == 0 && k != 0 {
		k = 0
	}
	if len(h.Known) > 60 && (k == 14) {
		k = 13
	}
	switch k {
	case 0:
		h.Create(Pick(c, p.IDs), h.Pairs(p)...)
	case 1:
		// under a token already used; its refresh token is new or the old one
		t := h.Known[c.Intn(len(h.Known))]
		id, _ := SplitToken(t)
		r := h.Token(id)
		if c.P(0.4) {
			r = h.Refs[t]
		}
		h.CreateAs(t, r, h.Pairs(p)...)
	case 2:
		t := h.Tok()
		if h.Mgr == nil && c.P(0.08) {
			h.refreshOnto(t)
			break
		}
		h.Refresh(t)
	case 3:
		h.BadRefresh(p)
	case 4:
		h.Do(Op{F: "Put", Tok: h.Tok(), Pairs: h.Pairs(p), NilVals: c.P(0.5)})
	case 5:
		t := h.Tok()
		h.Do(Op{F: "Get", Tok: t, Keys: h.SomeKeys(p, t)})
	case 6:
		h.Do(Op{F: "Keys", Tok: h.Tok()})
	case 7:
		t := h.Tok()
		h.Do(Op{F: "Delete", Tok: t, Keys: h.SomeKeys(p, t)})
	case 8:
		h.Do(Op{F: "Check", Tok: h.Tok()})
	case 9:
		h.Do(Op{F: "Destroy", ID: Pick(c, p.IDs)})
	case 10:
		t := h.Tok()
		if c.P(h.Near) {
			t = h.Resemble(t)
		}
		h.Do(Op{F: "DestroyByToken", Tok: t})
	case 11:
		h.Pass()
	case 12:
		d := time.Duration(1+c.Intn(int(h.M.Access/h.Quantum())/8+1)) * h.Quantum()
		c.Logf("sleep %v", d)
		c.Sleep(d)
	case 13:
		h.Look(h.Tok())
	case 14:
		h.Glance()
	case 15:
		h.Malformed()
	case 16:
		// data operations with a refresh token or a token that was refreshed away
		t := h.Refs[h.Known[c.Intn(len(h.Known))]]
		if len(h.Spent) > 0 && c.P(0.5) {
			kv := Pick(c, h.Spent)
			t = Pick(c, []string{kv.K, kv.V})
		}
		if h.Near > 0 && c.P(0.5) {
			t = h.Resemble(Pick(c, []string{h.Tok(), t}))
		}
		switch c.Intn(5) {
		case 0:
			h.Do(Op{F: "Check", Tok: t})
		case 1:
			h.Do(Op{F: "Put", Tok: t, Pairs: []KV{{"intruder", "x"}}})
		case 2:
			h.Do(Op{F: "Get", Tok: t, Keys: p.KeyPool[:1]})
		case 3:
			h.Do(Op{F: "Keys", Tok: t})
		case 4:
			h.Do(Op{F: "Delete", Tok: t, Keys: p.KeyPool[:1]})
		}
	}
	c.Settle()
}

// refreshOnto refreshes to a token in use already: its own, that of another session, which ends like one that is
// created again, or one of a session that ended.
func (h *Hist) refreshOnto(t string) {
	c := h.C
	id, _ := SplitToken(t)
	var same []string
	for _, x := range h.Known {
		if y, _ := SplitToken(x); y == id && (x != t || c.P(0.2)) {
			same = append(same, x)
		}
	}
	if len(same) == 0 {
		return
	}
	nt := Pick(c, same)
	nr := h.Token(id)
	if c.P(0.3) {
		nr = Pick(c, []string{h.Refs[nt], h.Refs[t]})
	}
	if x := h.M.By[nt]; x != nil && nt != t {
		c.Add("refreshes_onto_live_sessions", 1)
	}
	h.RefreshAny(t, h.Refs[t], nt, nr)
}

// BadRefresh performs a Refresh that must be refused: stale, crossed, foreign, swapped tokens or other ids.
func (h *Hist) BadRefresh(p Profile) {
	c := h.C
	t := h.Tok()
	id, _ := SplitToken(t)
	r := h.Refs[t]
	nt, nr := h.Token(id), h.Token(id)
	other := func() string { return h.Refs[h.Known[c.Intn(len(h.Known))]] }
	switch c.Intn(9) {
	case 0: // a pair refreshed away
		if len(h.Spent) > 0 {
			kv := Pick(c, h.Spent)
			t, r = kv.K, kv.V
			id, _ := SplitToken(t)
			nt, nr = h.Token(id), h.Token(id)
		} else {
			r = h.Token(id)
		}
	case 1: // the old refresh token with the present access token
		if len(h.Spent) > 0 {
			r = Pick(c, h.Spent).V
		} else {
			r = other()
		}
	case 2: // the refresh token of another session
		r = other()
	case 3: // swapped
		t, r = r, t
	case 4: // the access token twice, the refresh token twice
		if c.P(0.5) {
			r = t
		} else {
			t = r
		}
	case 5: // other ids in the new tokens
		x := h.Token(id + "x")
		if c.P(0.5) {
			nt = x
		} else {
			nr = x
		}
	case 6: // an unknown refresh token close to the right one
		r = h.Resemble(r)
	case 7: // the refresh token's text shortened or extended
		if c.P(0.5) && len(r) > 2 {
			r = r[:len(r)-1]
		} else {
			r += "x"
		}
	case 8: // malformed members
		bad := Pick(c, Malforms)
		switch c.Intn(4) {
		case 0:
			t = bad
		case 1:
			r = bad
		case 2:
			nt = bad
		case 3:
			nr = bad
		}
	}
	h.RefreshAny(t, r, nt, nr)
}

// RefreshAny performs any Refresh and keeps the books of tokens.
func (h *Hist) RefreshAny(t, r, nt, nr string) Res {
	res := h.Do(Op{F: "Refresh", Tok: t, Ref: r, NTok: nt, NRef: nr})
	if res.Err == OK {
		nt, nr = h.last.NTok, h.last.NRef
		if h.Refs[nt] == "" {
			h.Known = append(h.Known, nt)
		}
		h.Refs[nt] = nr
		h.Spent = append(h.Spent, KV{t, r})
	} else if h.Mgr != nil {
		return res
	} else if _, ok := SplitToken(nt); ok && h.C.P(0.3) {
		h.Do(Op{F: "Check", Tok: nt}) // the new token of a refused refresh is no token
	}
	return res
}

// Malforms are strings without three dot-separated parts.
var Malforms = []string{"", ".", "abc", "abc.def", "a.", ".b", "no dots at all", "x\x00y", "名.前", strings.Repeat("y", 300) + ".z"}

// Malformed calls some operation with a malformed token.
func (h *Hist) Malformed() {
	c := h.C
	t := Pick(c, Malforms)
	if c.P(0.3) {
		// a known token cut down to two parts
		k := h.Known[c.Intn(len(h.Known))]
		if c.P(0.5) {
			t = k[:strings.LastIndexByte(k, '.')]
		} else {
			t = k[strings.IndexByte(k, '.')+1:]
		}
		if _, ok := SplitToken(t); ok {
			return
		}
	}
	switch c.Intn(8) {
	case 0:
		h.Do(Op{F: "Check", Tok: t})
	case 1:
		h.Do(Op{F: "Put", Tok: t, Pairs: []KV{{"k", "v"}}})
	case 2:
		h.Do(Op{F: "Get", Tok: t, Keys: []string{"k"}})
	case 3:
		h.Do(Op{F: "Keys", Tok: t})
	case 4:
		h.Do(Op{F: "Delete", Tok: t, Keys: []string{"k"}})
	case 5:
		h.Do(Op{F: "DestroyByToken", Tok: t})
	case 6:
		if c.P(0.3) { // two ids, perhaps under a token in use
			x := Pick(c, []string{h.Token("m"), h.Known[c.Intn(len(h.Known))]})
			id, _ := SplitToken(x)
			h.Do(Op{F: "Create", Tok: x, Ref: Pick(c, []string{h.Token(id + "n"), h.Token("n" + id), h.Token("n")}), Pairs: []KV{{"k", "intruder"}}})
			h.Do(Op{F: "Check", Tok: x})
		} else if c.P(0.5) {
			h.Do(Op{F: "Create", Tok: t, Ref: h.Token("m")})
		} else {
			x := h.Token("m")
			h.Do(Op{F: "Create", Tok: x, Ref: t})
			h.Do(Op{F: "Check", Tok: x})
		}
	case 7:
		k := h.Known[c.Intn(len(h.Known))]
		id, _ := SplitToken(k)
		a := []string{k, h.Refs[k], h.Token(id), h.Token(id)}
		a[c.Intn(4)] = t
		h.Do(Op{F: "Refresh", Tok: a[0], Ref: a[1], NTok: a[2], NRef: a[3]})
	}
}

// End observes everything once more, closes and ends the case.
func (h *Hist) End() {
	h.Finale()
	h.E.Close()
}

// Word64 is one character of the base64 alphabet.
func Word64(c *C) byte { return b64[c.Intn(64)] }
