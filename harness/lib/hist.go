package lib

import (
	"context"
	"encoding/base64"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
)

// Hist runs operations one by one against a provider and the model.
type Hist struct {
	C      *C
	E      *Env
	M      *Model
	Known  []string // every access token ever used
	Refs   map[string]string
	Spent  []KV // access and refresh tokens of pairs refreshed away
	IDs    []string
	Keys   []string
	serial int
	// Judge, if set, tells whether a divergence belongs to the property that is checked; others end the case.
	Judge func(o Op, got Res) bool
	Over  bool // the case ended on a divergence that is not judged
	ops   int
	last  Op
	want  []Res
	// Avoid keeps calls this far away from every deadline.
	Avoid time.Duration
	// Mgr, if set, makes all calls go through a manager and sessions it returns.
	Mgr    *sessionid.LocalManager
	issued map[string]bool
	kept   map[string]*sessionid.Session
	remake func()
	// Nodes, if set, are several providers on one storage: every call goes to one of them, whose options then hold. Mgrs
	// are managers over them.
	Nodes []*Env
	Mgrs  []*sessionid.LocalManager
	// Twin, if set, is a provider with storage of its own that gets the same calls; its results are what is expected, not
	// the model's.
	Twin *Env
	// Alias, if set, makes the calls.
	Alias *Alias
	// Fault, if set, arms a fault before a call; the function it returns disarms it and tells whether it fired and
	// whether the outcome of the call was lost after it took effect.
	Fault func(o Op) func() (fired, doubt bool)
	// Near is the probability that a new token is like one known already but for a detail.
	Near float64
	// Ctx, if set, is the context of calls with a fault; Slow allows them to take time.
	Ctx  context.Context
	Slow bool
}

// NewHist opens a provider and its model.
func (c *C) NewHist(kind string, o Opts) *Hist {
	h := &Hist{C: c, E: c.Open(kind, o), M: NewModel(kind, o), Refs: map[string]string{}}
	c.Logf("%s provider: %v", kind, o)
	c.Sig(kind, o)
	return h
}

// Adopt is NewHist on storage made before.
func (c *C) Adopt(e *Env, o Opts) *Hist {
	e.Start(o)
	h := &Hist{C: c, E: e, M: NewModel(e.Kind, o), Refs: map[string]string{}}
	c.Logf("%s provider: %v", e.Kind, o)
	c.Sig(e.Kind, o)
	return h
}

// Calls returns how many calls were made, and Last the latest one.
func (h *Hist) Calls() int { return h.ops }
func (h *Hist) Last() Op   { return h.last }

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

func (c *C) Word(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = b64[c.Intn(64)]
	}
	return string(b)
}

// Token makes a fresh well-formed token of an id.
func (h *Hist) Token(id string) string {
	h.serial++
	if h.Near > 0 && h.Mgr == nil && len(h.Known) > 0 && h.C.P(h.Near) {
		t := h.Known[h.C.Intn(len(h.Known))]
		if h.C.P(0.3) && h.Refs[t] != "" {
			t = h.Refs[t]
		}
		t = h.Resemble(t)
		if x, ok := SplitToken(t); ok && x == id && !h.used(t) {
			h.C.Add("similar_tokens", 1)
			return t
		}
	}
	return fmt.Sprintf("%s.%s%d.%s", id, h.C.Word(6), h.serial, h.C.Word(8))
}

func (h *Hist) used(t string) bool {
	for x, r := range h.Refs {
		if x == t || r == t {
			return true
		}
	}
	for _, kv := range h.Spent {
		if kv.K == t || kv.V == t {
			return true
		}
	}
	return h.M.By[t] != nil
}

// Resemble returns a token of the same id that differs in a detail.
func (h *Hist) Resemble(t string) string {
	c := h.C
	i, j := strings.IndexByte(t, '.'), strings.LastIndexByte(t, '.')
	if i < 0 || i == j {
		return t
	}
	id, sess, sig := t[:i], t[i+1:j], t[j+1:]
	alter := func(s string) string {
		b := []byte(s)
		if len(b) == 0 {
			return "A"
		}
		k := c.Intn(len(b))
		switch c.Intn(9) {
		case 0:
			b[k] ^= 0x20
		case 1:
			return strings.ToLower(s)
		case 2:
			return strings.ToUpper(s)
		case 3:
			return s[:len(s)-1]
		case 4:
			return s[1:]
		case 5:
			return s + Pick(c, []string{" ", "\x00", "=", "A", "\n", "*", "/", ":", s})
		case 6:
			return Pick(c, []string{" ", "\x00", "A", "\n"}) + s
		case 7:
			b[k] ^= 1
		case 8:
			b[k], b[len(b)-1] = b[len(b)-1], b[k]
		}
		for i, x := range b {
			if x == '.' {
				b[i] = '_'
			}
		}
		return string(b)
	}
	switch c.Intn(6) {
	case 0:
		sess, sig = sig, sess
	case 1:
		sess, sig = alter(sess), alter(sig)
	case 2, 3:
		sess = alter(sess)
	default:
		sig = alter(sig)
	}
	return id + "." + sess + "." + sig
}

// Do performs an operation on both sides and compares.
func (h *Hist) Do(o Op) Res {
	if h.Over {
		return Res{}
	}
	if h.Avoid > 0 {
		h.stepAside()
	}
	if len(h.Nodes) > 0 {
		h.Node(h.C.Intn(len(h.Nodes)))
	}
	var got Res
	before := time.Now()
	if h.Fault != nil {
		if disarm := h.Fault(o); disarm != nil {
			return h.doFaulty(o, before, disarm)
		}
	}
	h.C.Do(o.F, func() {
		if h.Mgr != nil {
			got = h.viaManager(&o)
		} else if h.Alias != nil {
			got = h.Alias.Call(h.E.P, o)
		} else {
			got = Call(h.E.P, o)
		}
	})
	h.C.Logf("+%v %v -> %v", before.Sub(epoch), o, got)
	var want []Res
	if h.Mgr != nil && !h.signed(o) {
		want = one("*")
	} else {
		want = h.M.Apply(o, before, got)
	}
	if h.Twin != nil {
		h.C.Do(o.F, func() { want = []Res{Call(h.Twin.P, o)} })
	}
	h.last = o
	h.ops++
	h.C.Add("operations", 1)
	h.C.Add("op_"+o.F, 1)
	h.C.Add("result_"+strings.SplitN(got.Err, ":", 2)[0], 1)
	h.C.Sig(o.F, got.Err)
	if !Same(got, want) {
		h.want = want
		h.Diverge(o, got, fmt.Sprintf("%v returned %v, want %v", o, full(got), fulls(want)))
	}
	return got
}

// Node makes one of the providers the one that is called.
func (h *Hist) Node(i int) {
	h.E = h.Nodes[i]
	o := h.E.Opts
	h.M.Max, h.M.Access, h.M.Refresh = o.Max, o.Access, o.Refresh
	if h.Mgrs != nil {
		h.Mgr = h.Mgrs[i]
	}
	h.C.Logf("(node %d)", i)
	h.C.Sig("node", i)
	h.C.Add(fmt.Sprintf("calls_of_node_%d", i), 1)
}

// Spread makes h a history of several providers on its storage, with the given options; its own is the first. A bolt
// provider needs a database of its caller.
func (h *Hist) Spread(opts ...Opts) {
	first := h.E
	if len(h.Nodes) == 0 {
		h.Nodes = []*Env{first}
	}
	for _, o := range opts {
		e := first.Share(o)
		e.Start(o)
		h.Nodes = append(h.Nodes, e)
		h.C.Logf("node %d: %v", len(h.Nodes)-1, o)
		h.C.Sig("node", o)
	}
}

// SpreadManagers puts a manager before each provider, all with the same key and method.
func (h *Hist) SpreadManagers(m cryptoer.SigningMethod, key []byte) {
	h.issued, h.kept = map[string]bool{}, map[string]*sessionid.Session{}
	for _, e := range h.Nodes {
		h.Mgrs = append(h.Mgrs, Manager(e.P, m, key, Raw{}))
	}
	h.Mgr = h.Mgrs[0]
	h.remake = func() {
		h.kept = map[string]*sessionid.Session{}
		for i, e := range h.Nodes {
			h.Mgrs[i] = Manager(e.P, m, key, Raw{})
		}
	}
}

// Restart closes one of the providers, makes calls on it, and opens it again with other options.
func (h *Hist) Restart(i int, o Opts) {
	e := h.Nodes[i]
	h.C.Logf("close node %d and open it again with %v", i, o)
	h.C.Do("Close", func() { e.P.Close() })
	if len(h.Known) > 0 {
		var r Res
		h.C.Do("Check", func() { r = Call(e.P, Op{F: "Check", Tok: h.Known[0]}) })
		if _, ok := SplitToken(h.Known[0]); ok && r.Err != Closed {
			h.C.Failf("%s provider (%v): Check after Close returned %v", e.Kind, e.Opts, r)
		}
	}
	if h.C.P(0.5) && len(h.Nodes) > 1 {
		// the others go on meanwhile
		nodes, mgrs := h.Nodes, h.Mgrs
		h.Nodes = append(append([]*Env{}, nodes[:i]...), nodes[i+1:]...)
		if mgrs != nil {
			h.kept = map[string]*sessionid.Session{}
			h.Mgrs = append(append([]*sessionid.LocalManager{}, mgrs[:i]...), mgrs[i+1:]...)
		}
		h.LookLive(4)
		h.Nodes, h.Mgrs = nodes, mgrs
	}
	if e.Kind == "redis" {
		e.Client.Close()
	}
	e.Start(o)
	if h.remake != nil {
		h.remake()
	}
	h.C.Add("node_restarts", 1)
}

// CloseNodes closes all providers and the storage.
func (h *Hist) CloseNodes() {
	for _, e := range h.Nodes[1:] {
		h.C.Do("Close", func() { e.P.Close() })
		if e.Client != nil {
			e.Client.Close()
		}
	}
	h.Nodes[0].Close()
}

// doFaulty performs a call with a fault armed: it either took full effect and says so, or it failed and has no effect
// or, where its outcome was lost, its full effect.
func (h *Hist) doFaulty(o Op, before time.Time, disarm func() (fired, doubt bool)) Res {
	var got Res
	ctx := h.Ctx
	if ctx == nil {
		ctx = context.Background()
	}
	h.C.Do(o.F, func() { got = CallCtx(ctx, h.E.P, o) })
	h.C.Settle()
	fired, doubt := disarm()
	h.C.Logf("+%v %v -> %v (fault fired: %v, outcome lost: %v)", before.Sub(epoch), o, got, fired, doubt)
	h.last = o
	h.ops++
	h.C.Add("operations", 1)
	h.C.Add("op_"+o.F, 1)
	h.C.Sig(o.F, got.Err, fired, doubt)
	h.C.Logf("  (looking)")
	if time.Now() != before && !h.Slow {
		h.C.Inconclusive("a call with a fault took time")
	}
	infra := strings.HasPrefix(got.Err, "error: ")
	if fired {
		h.C.Add("operations_with_fault", 1)
		if infra {
			h.C.Add("operations_failed_by_fault", 1)
		}
	}
	pre, post := h.M.Clone(), h.M.Clone()
	want := post.Apply(o, before, got)
	if infra && fired {
		cands, names := []*Model{pre}, []string{"without_effect"}
		if doubt {
			h.C.Add("outcomes_in_doubt", 1)
			// only the call that would have succeeded has an effect
			post = h.M.Clone()
			post.Apply(o, before, Res{Err: OK})
			cands, names = append(cands, post), append(names, "with_effect")
		}
		h.resolve(o, got, cands, names)
		return got
	}
	if Same(got, want) {
		h.M = post
		return got
	}
	if doubt && fired {
		// repeated under the hood, the call may report what it found the second time
		again := h.M.Clone()
		again.Apply(o, before, Res{Err: OK})
		if Same(got, again.Apply(o, before, got)) {
			h.resolve(o, got, []*Model{pre, again}, []string{"without_effect", "with_effect"})
			return got
		}
	}
	h.want = want
	h.Diverge(o, got, fmt.Sprintf("%v returned %v amid a fault, want an error of the storage or %v", o, full(got), fulls(want)))
	return got
}

// resolve finds out which of the candidate states holds; if reading cannot tell, the history ends with operations that do.
func (h *Hist) resolve(o Op, got Res, cands []*Model, names []string) {
	arm := h.Fault
	h.Fault = nil
	defer func() { h.Fault = arm }()
	m := h.Fork(h.E, fmt.Sprintf("after %v failed with %q", o, got.Err), cands, names)
	for _, t := range []string{o.Tok, o.NTok} {
		if t != "" {
			m.Known = append(m.Known, t)
		}
	}
	m.Sweep()
	if len(m.Cands) == 2 && m.Cands[0].key() == m.Cands[1].key() {
		m.Cands = m.Cands[:1]
	}
	if len(m.Cands) == 1 {
		h.C.Add("failed_"+m.Names[0], 1)
		h.M = m.Cands[0]
		return
	}
	m.Finale(!h.Slow && h.C.P(0.5))
	m.Sweep()
	h.Over = true
}

var epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// Diverge reports a divergence if it is judged, else ends the history.
func (h *Hist) Diverge(o Op, got Res, msg string) {
	if h.Judge != nil && !h.Judge(o, got) {
		h.C.Add("divergences_outside_the_property", 1)
		h.C.Skip()
		h.Over = true
		return
	}
	h.C.Failf("%s provider (%v): %s", h.E.Kind, h.E.Opts, msg)
}

// StatusOnly leaves divergences of values and key lists to other properties.
func (h *Hist) StatusOnly() {
	h.Judge = func(o Op, got Res) bool {
		for _, w := range h.want {
			if w.Err == got.Err {
				return false
			}
		}
		return true
	}
}

func full(r Res) string { return fmt.Sprint(r) }
func fulls(rs []Res) string {
	var a []string
	for _, r := range rs {
		if r.Err == "*" {
			a = append(a, "an error")
		} else {
			a = append(a, full(r))
		}
	}
	return strings.Join(a, " or ")
}

// UseManager puts a manager with a raw coder in front of the provider. The ids of the model are then the encoded ones.
func (h *Hist) UseManager(m cryptoer.SigningMethod, key []byte) {
	h.remake = func() { h.Mgr = Manager(h.E.P, m, key, Raw{}) }
	h.remake()
	h.issued = map[string]bool{}
	h.kept = map[string]*sessionid.Session{}
}

// Raw is a coder of byte slices and strings.
type Raw struct{}

func (Raw) Encode(v interface{}) ([]byte, error) {
	switch v := v.(type) {
	case []byte:
		return v, nil
	case string:
		return []byte(v), nil
	}
	return nil, fmt.Errorf("raw coder: %T", v)
}

func (Raw) Decode(b []byte, v interface{}) error {
	switch v := v.(type) {
	case *[]byte:
		*v = b
	case *string:
		*v = string(b)
	default:
		return fmt.Errorf("raw coder: %T", v)
	}
	return nil
}

// signed tells whether every token of the call that a manager verifies was issued by it.
func (h *Hist) signed(o Op) bool {
	switch o.F {
	case "Check", "Put", "Get", "Keys", "Delete":
		return h.issued[o.Tok]
	case "Refresh":
		return h.issued[o.Tok] && h.issued[o.Ref]
	}
	return true
}

// viaManager performs the call through the manager. Tokens that it issues are written to the operation.
func (h *Hist) viaManager(o *Op) (r Res) {
	ctx := context.Background()
	var e error
	var pairs []sessionid.Pair
	keyList := o.Keys
	if a := h.Alias; a != nil {
		pairs = a.anyPairs(*o)
		keyList = a.keys(*o)
		defer a.overwrite()
	} else {
		for _, p := range o.Pairs {
			pairs = append(pairs, sessionid.Pair{Key: p.K, Value: []byte(p.V)})
		}
	}
	switch o.F {
	case "Create":
		var s *sessionid.Session
		var ref string
		s, ref, e = h.Mgr.Create(ctx, o.ID, pairs...)
		if e == nil {
			o.Tok, o.Ref = s.Token(), ref
			h.issued[o.Tok], h.issued[ref] = true, true
			h.kept[o.Tok] = s
		}
		return Res{Err: ErrCode(e)}
	case "Refresh":
		o.NTok, o.NRef, e = h.Mgr.Refresh(ctx, o.Tok, o.Ref)
		if e == nil {
			h.issued[o.NTok], h.issued[o.NRef] = true, true
		} else if o.NTok == "" || o.NRef == "" {
			id, _ := SplitToken(o.Tok)
			o.NTok, o.NRef = id+".x.x", id+".y.y"
		}
		return Res{Err: ErrCode(e)}
	case "Destroy":
		e = h.Mgr.Destroy(ctx, o.ID)
		o.ID = EncID(o.ID)
		return Res{Err: ErrCode(e)}
	case "DestroyByToken":
		if s := h.kept[o.Tok]; s != nil && h.C.P(0.5) {
			return Res{Err: ErrCode(s.Destroy(ctx))}
		}
		return Res{Err: ErrCode(h.Mgr.DestroyByToken(ctx, o.Tok))}
	case "Check", "Put", "Get", "Keys", "Delete":
		s, e := h.Mgr.Get(ctx, o.Tok)
		if e != nil {
			return Res{Err: ErrCode(e)}
		}
		// a session obtained earlier does the same, whatever it read or stored before; what it reads may be older
		if old := h.kept[o.Tok]; o.F != "Get" && old != nil && h.C.P(0.5) {
			s = old
		} else if old == nil || h.C.P(0.3) {
			h.kept[o.Tok] = s
		}
		switch o.F {
		case "Check":
			e = s.Check(ctx)
		case "Put":
			if len(pairs) == 0 { // a Put of nothing asks nothing
				e = s.Check(ctx)
			} else {
				e = s.Put(ctx, pairs...)
			}
		case "Get":
			if e = s.Check(ctx); e != nil {
				break
			}
			if h.C.P(0.5) {
				e = s.Prepare(ctx, keyList...)
				if h.Alias != nil {
					h.Alias.overwrite()
				}
			}
			r.Vals = []Val{}
			var bs [][]byte
			for _, k := range o.Keys {
				var b []byte
				switch g := s.Get(ctx, k, &b); ErrCode(g) {
				case OK:
					r.Vals = append(r.Vals, Val{true, string(b)})
					bs = append(bs, b)
				case NoKey:
					r.Vals = append(r.Vals, Val{})
				default:
					e = g
				}
			}
			if h.Alias != nil {
				h.Alias.got(o.String(), bs, nil)
				// and again from the session, whose results these were
				for i, k := range o.Keys {
					var b []byte
					if g := s.Get(ctx, k, &b); g == nil && i < len(r.Vals) && string(b) != r.Vals[i].B {
						h.C.Failf("%s provider (%v): Session.Get(%q) returned %q, and once the caller changed that, %q", h.E.Kind, h.E.Opts, k, r.Vals[i].B, b)
					}
				}
			}
		case "Keys":
			var keys []string
			keys, e = s.Keys(ctx)
			if e == nil {
				r.Keys = append([]string{}, keys...)
				sort.Strings(r.Keys)
				if h.Alias != nil {
					h.Alias.got(o.String(), nil, keys)
				}
			}
		case "Delete":
			e = s.Delete(ctx, o.Tok, keyList...)
		}
		r.Err = ErrCode(e)
		return r
	}
	return Call(h.E.P, *o)
}

// Create makes a session.
func (h *Hist) Create(id string, pairs ...KV) string {
	if h.Mgr != nil {
		h.CreateVia(id, pairs...)
		return h.last.Tok
	}
	t, r := h.Token(id), h.Token(id)
	h.CreateAs(t, r, pairs...)
	return t
}

// CreateVia makes a session through the manager.
func (h *Hist) CreateVia(id string, pairs ...KV) Res {
	res := h.Do(Op{F: "Create", ID: id, Pairs: pairs})
	if res.Err == OK && h.last.Tok != "" {
		h.Known = append(h.Known, h.last.Tok)
		h.Refs[h.last.Tok] = h.last.Ref
	}
	return res
}

// CreateAs makes a session under the given tokens.
func (h *Hist) CreateAs(t, r string, pairs ...KV) Res {
	if h.Mgr != nil {
		id, _ := SplitToken(t)
		b, _ := base64.RawURLEncoding.DecodeString(id)
		return h.CreateVia(string(b), pairs...)
	}
	res := h.Do(Op{F: "Create", Tok: t, Ref: r, Pairs: pairs})
	if h.Refs[t] == "" {
		h.Known = append(h.Known, t)
	}
	if s := h.M.By[t]; s != nil {
		r = s.Ref
	}
	h.Refs[t] = r
	return res
}

// Refresh refreshes a session with its right refresh token.
func (h *Hist) Refresh(t string) (string, Res) {
	id, _ := SplitToken(t)
	return h.RefreshWith(t, h.Refs[t], h.Token(id), h.Token(id))
}

func (h *Hist) RefreshWith(t, r, nt, nr string) (string, Res) {
	res := h.Do(Op{F: "Refresh", Tok: t, Ref: r, NTok: nt, NRef: nr})
	if h.Over || h.last.F != "Refresh" {
		return nt, res
	}
	nt, nr = h.last.NTok, h.last.NRef
	if h.Mgr != nil && res.Err != OK {
		return nt, res
	}
	if h.Refs[nt] == "" {
		h.Known = append(h.Known, nt)
	}
	h.Refs[nt] = nr
	if res.Err == OK {
		h.Spent = append(h.Spent, KV{t, r})
	}
	return nt, res
}

// Tok picks a known token, mostly of a live session.
func (h *Hist) Tok() string {
	if n := len(h.M.Order); n > 0 && h.C.P(0.75) {
		return h.M.Order[h.C.Intn(n)].Tok
	}
	if len(h.Known) == 0 {
		return h.Token("nobody")
	}
	return h.Known[h.C.Intn(len(h.Known))]
}

// Sweep observes every token: status, key list and all data.
func (h *Hist) Sweep() {
	for _, t := range h.Known {
		h.Look(t)
	}
}

// Look observes one token.
func (h *Hist) Look(t string) {
	if h.Over {
		return
	}
	r := h.Do(Op{F: "Check", Tok: t})
	if r.Err == OK {
		if s := h.M.By[t]; s != nil {
			h.Do(Op{F: "Keys", Tok: t})
			if keys := s.KeyList(); len(keys) > 0 {
				h.Do(Op{F: "Get", Tok: t, Keys: append(keys, "absent!")})
			}
		}
	}
}

// Glance is Sweep with Check alone.
func (h *Hist) Glance() {
	for _, t := range h.Known {
		h.Do(Op{F: "Check", Tok: t})
	}
}

// Quantum is the resolution of lifetimes.
func (h *Hist) Quantum() time.Duration {
	if h.E.Kind == "redis" {
		return time.Millisecond
	}
	return 1
}

// Pass lets time pass: to an instant around some deadline, or by a random amount.
func (h *Hist) Pass() {
	now := time.Now()
	q := h.Quantum()
	var d time.Duration
	if n := len(h.M.Order); n > 0 && h.C.P(0.7) {
		s := h.M.Order[h.C.Intn(n)]
		at := s.A
		if h.C.P(0.4) || !at.After(now) {
			at = s.R
		}
		d = at.Sub(now) + time.Duration(h.C.Intn(3)-1)*q
	} else {
		d = time.Duration(h.C.Rng.Int64N(int64(h.M.Access)))
	}
	d = d.Truncate(q)
	if d <= 0 {
		d = q
	}
	h.C.Logf("sleep %v", d)
	h.C.Sleep(d)
	h.C.Add("sleeps", 1)
}

// Live returns the tokens of usable sessions.
func (h *Hist) Live() (out []string) {
	now := time.Now()
	h.M.Expire(now)
	for _, s := range h.M.Order {
		if s.A.After(now) {
			out = append(out, s.Tok)
		}
	}
	return
}

// EncID is how the manager writes an id into tokens.
func EncID(id string) string { return base64.RawURLEncoding.EncodeToString([]byte(id)) }

// Manager makes a manager over a provider.
func Manager(p sessionid.Provider, m cryptoer.SigningMethod, key []byte, coder sessionid.Coder) *sessionid.LocalManager {
	opt := []sessionid.Option{sessionid.WithProvider(p)}
	if m != nil {
		opt = append(opt, sessionid.WithMethod(m))
	}
	if key != nil {
		opt = append(opt, sessionid.WithKey(key))
	}
	if coder != nil {
		opt = append(opt, sessionid.WithCoder(coder))
	}
	return sessionid.NewManager(opt...)
}

// FinaleRefresh refreshes every live session with its right refresh token, in creation order.
func (h *Hist) FinaleRefresh() {
	h.C.Logf("finale: refresh all")
	for _, s := range append([]*Sess(nil), h.M.Order...) {
		nt, _ := h.Refresh(s.Tok)
		h.Look(nt)
		h.Do(Op{F: "Check", Tok: s.Tok})
	}
}

// FinaleDestroy destroys every id there is, one by one, and observes all tokens each time.
func (h *Hist) FinaleDestroy() {
	h.C.Logf("finale: destroy all ids")
	ids := map[string]bool{}
	var list []string
	for _, s := range h.M.Order {
		if !ids[s.ID] {
			ids[s.ID] = true
			list = append(list, s.ID)
		}
	}
	if len(list) > 6 {
		list = list[:6]
	}
	for _, id := range list {
		if h.Mgr != nil {
			b, _ := base64.RawURLEncoding.DecodeString(id)
			id = string(b)
		}
		h.Do(Op{F: "Destroy", ID: id})
		h.LookLive(12)
	}
}

// LookLive checks tokens the model holds, and some others.
func (h *Hist) LookLive(n int) {
	for i, s := range append([]*Sess(nil), h.M.Order...) {
		if i >= n {
			break
		}
		h.Do(Op{F: "Check", Tok: s.Tok})
	}
	for i := 0; i < n && len(h.Known) > 0; i++ {
		h.Do(Op{F: "Check", Tok: h.Known[h.C.Intn(len(h.Known))]})
	}
}

// FinaleDeadlines steps through every deadline that is left: just before, at and just after it.
func (h *Hist) FinaleDeadlines() {
	h.C.Logf("finale: every deadline")
	q := h.Quantum()
	var at []time.Time
	for _, s := range h.M.Order {
		at = append(at, s.A, s.R)
	}
	sort.Slice(at, func(i, j int) bool { return at[i].Before(at[j]) })
	if len(at) > 10 {
		at = at[:10]
	}
	for _, t := range at {
		for _, x := range []time.Duration{-q, 0, q} {
			if d := t.Add(x).Sub(time.Now()); d > 0 {
				h.C.Sleep(d.Truncate(q))
				h.C.Add("deadline_instants_observed", 1)
				h.LookLive(6)
			}
		}
	}
}

// FinaleEvict creates sessions until the limit has pushed out every old one, observing all after each.
func (h *Hist) FinaleEvict() {
	if h.M.Max <= 0 {
		return
	}
	h.C.Logf("finale: evict all")
	for i := 0; i < h.M.Max+1 && i < 12; i++ {
		h.Create("evictor")
		h.LookLive(h.M.Max + 2)
	}
}

// Finale ends a history by observing what Check, Get and Keys do not show: refresh tokens, id membership, deadlines
// and eviction order.
func (h *Hist) Finale() {
	h.Sweep()
	switch h.C.Intn(4) {
	case 0:
		h.FinaleRefresh()
	case 1:
		h.FinaleDestroy()
	case 2:
		h.FinaleDeadlines()
	case 3:
		h.FinaleEvict()
		h.FinaleRefresh()
	}
	h.Sweep()
}

// stepAside sleeps until no deadline is near.
func (h *Hist) stepAside() {
	for again := true; again; {
		again = false
		now := time.Now()
		for _, s := range h.M.Order {
			for _, t := range []time.Time{s.A, s.R} {
				if d := t.Sub(now); d > -h.Avoid && d < h.Avoid {
					h.C.Sleep(d + h.Avoid)
					again = true
				}
			}
			if again {
				break
			}
		}
	}
}

// Reopen closes the provider, and sometimes the storage, and opens a provider with other options on it.
func (h *Hist) Reopen(o Opts) {
	e := h.E
	h.C.Logf("close and reopen with %v", o)
	h.C.Do("Close", func() { e.P.Close() })
	if e.DB != nil && !e.Shared && (o.Own || h.C.P(0.5)) {
		h.C.Do("bolt DB.Close", func() { e.DB.Close() })
		e.DB = nil
	}
	e.Start(o)
	if h.remake != nil {
		h.remake()
		h.kept = map[string]*sessionid.Session{}
	}
	if h.Twin != nil {
		h.C.Do("Close", func() { h.Twin.P.Close() })
		h.Twin.Start(o)
	}
	h.M.Max, h.M.Access, h.M.Refresh = o.Max, o.Access, o.Refresh
	h.C.Add("reopenings", 1)
	h.C.Sig("reopen", o)
}

// Serials makes the tokens of this history differ from those of others.
func (h *Hist) Serials(n int) { h.serial = n }
