package lib

import (
	"sort"
	"strings"
	"time"
)

// Sess is one session of the model.
type Sess struct {
	ID, Tok, Ref string
	A, R         time.Time // deadlines
	Data         map[string]string
}

// Model is the sequential specification of a provider: what a call made now must return and what it changes.
type Model struct {
	Kind     string
	Access   time.Duration
	Refresh  time.Duration
	Max      int
	Order    []*Sess // oldest first
	By       map[string]*Sess
	Closed   bool
	Reserved string // metadata key of a redis provider
	Evicted  int
	Dead     []string // tokens of sessions that ended
}

func NewModel(kind string, o Opts) *Model {
	a, r := o.Access, o.Refresh
	return &Model{Kind: kind, Access: a, Refresh: r, Max: o.Max, By: map[string]*Sess{}, Reserved: o.metaKey(kind)}
}

// SplitToken is the specification of a well-formed token: id, session part and signature around two dots, the first
// and the last.
func SplitToken(t string) (id string, ok bool) {
	i, j := strings.IndexByte(t, '.'), strings.LastIndexByte(t, '.')
	if i < 0 || i == j {
		return "", false
	}
	return t[:i], true
}

// Expire drops the sessions whose refresh lifetime is over.
func (m *Model) Expire(now time.Time) {
	for i := 0; i < len(m.Order); i++ {
		if s := m.Order[i]; !s.R.After(now) {
			m.drop(s)
			i--
		}
	}
}

func (m *Model) drop(s *Sess) {
	delete(m.By, s.Tok)
	m.Dead = append(m.Dead, s.Tok)
	for i, x := range m.Order {
		if x == s {
			m.Order = append(m.Order[:i:i], m.Order[i+1:]...)
			return
		}
	}
}

func one(e string) []Res { return []Res{{Err: e}} }

// hostile reports whether the call names something a provider may either refuse or treat as plain data: the metadata
// key of redis, and the empty and very long keys bolt does not have.
func (m *Model) hostile(o Op) bool {
	if m.Kind == "bolt" && o.F == "Create" {
		if id, _ := SplitToken(o.Tok); id == "" {
			return true
		}
	}
	if m.Kind == "bolt" && (o.F == "Create" || o.F == "Refresh" || o.F == "Destroy") && len(o.Tok)+len(o.NTok)+len(o.ID) > 15000 {
		return true
	}
	odd := func(k string) bool {
		return (m.Reserved != "" && k == m.Reserved) || (m.Kind == "bolt" && (k == "" || len(k) > 32768))
	}
	for _, p := range o.Pairs {
		if odd(p.K) {
			return true
		}
	}
	for _, k := range o.Keys {
		if odd(k) {
			return true
		}
	}
	return false
}

// Apply returns the allowed results of a call made at the instant now that returned got, and performs its effect.
func (m *Model) Apply(o Op, now time.Time, got Res) []Res {
	m.Expire(now)
	if !m.Closed && m.hostile(o) && got.Err != OK {
		// refused, and without effect; only an answer about the session itself must still be a right one
		for _, t := range o.tokens() {
			if _, ok := SplitToken(t); !ok {
				return one("*")
			}
		}
		if got.Err == Missing || got.Err == Expired {
			if s := m.By[o.Tok]; o.F != "Create" && (s == nil || !s.A.After(now)) {
				return m.Clone().Apply(Op{F: "Check", Tok: o.Tok}, now, got)
			}
			return one(OK)
		}
		return one("*")
	}
	for _, t := range o.tokens() {
		if _, ok := SplitToken(t); !ok {
			if m.Closed {
				return []Res{{Err: Invalid}, {Err: Closed}}
			}
			if o.F == "Refresh" || o.F == "Create" {
				return m.refreshErrs(o)
			}
			return one(Invalid)
		}
	}
	if m.Closed {
		if o.F == "Refresh" || o.F == "Create" {
			r := one(Closed)
			if !m.sameIDs(o) {
				r = append(r, Res{Err: IDDiff})
			}
			return r
		}
		return one(Closed)
	}
	switch o.F {
	case "Close":
		m.Closed = true
		return one(OK)
	case "Clear":
		for len(m.Order) > 0 {
			m.drop(m.Order[0])
		}
		return one(OK)
	case "Destroy":
		for i := 0; i < len(m.Order); i++ {
			if m.Order[i].ID == o.ID {
				m.drop(m.Order[i])
				i--
			}
		}
		return one(OK)
	case "DestroyByToken":
		if s := m.By[o.Tok]; s != nil {
			m.drop(s)
		}
		return one(OK)
	case "Create":
		id, _ := SplitToken(o.Tok)
		if !m.sameIDs(o) {
			return one(IDDiff)
		}
		if !now.Add(m.Refresh).After(now) {
			return one(OK)
		}
		if s := m.By[o.Tok]; s != nil {
			m.drop(s)
		}
		if m.Max > 0 {
			for len(m.Order) >= m.Max {
				m.drop(m.Order[0])
				m.Evicted++
			}
		}
		s := &Sess{ID: id, Tok: o.Tok, Ref: o.Ref, A: now.Add(m.Access), R: now.Add(m.Refresh), Data: map[string]string{}}
		for _, p := range o.Pairs {
			s.Data[p.K] = p.V
		}
		m.Order = append(m.Order, s)
		m.By[s.Tok] = s
		return one(OK)
	case "Refresh":
		s := m.By[o.Tok]
		if s == nil || !m.sameIDs(o) || s.Ref != o.Ref {
			return m.refreshErrs(o)
		}
		m.drop(s)
		if x := m.By[o.NTok]; x != nil {
			m.drop(x)
		}
		n := &Sess{ID: s.ID, Tok: o.NTok, Ref: o.NRef, A: now.Add(m.Access), R: now.Add(m.Refresh), Data: s.Data}
		m.Order = append(m.Order, n)
		m.By[n.Tok] = n
		return one(OK)
	}
	s := m.By[o.Tok]
	if s == nil {
		return one(Missing)
	}
	if !s.A.After(now) {
		return one(Expired)
	}
	switch o.F {
	case "Check":
		return one(OK)
	case "Put":
		for _, p := range o.Pairs {
			s.Data[p.K] = p.V
		}
		return one(OK)
	case "Delete":
		for _, k := range o.Keys {
			delete(s.Data, k)
		}
		return one(OK)
	case "Get":
		r := Res{Err: OK, Vals: []Val{}}
		for _, k := range o.Keys {
			v, ok := s.Data[k]
			r.Vals = append(r.Vals, Val{ok, v})
		}
		return []Res{r}
	case "Keys":
		return []Res{{Err: OK, Keys: s.KeyList()}}
	}
	panic("model: " + o.F)
}

func (s *Sess) KeyList() []string {
	keys := []string{}
	for k := range s.Data {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func (o Op) tokens() []string {
	switch o.F {
	case "Create":
		return []string{o.Tok, o.Ref}
	case "Refresh":
		return []string{o.Tok, o.Ref, o.NTok, o.NRef}
	case "Destroy", "Close", "Clear":
		return nil
	}
	return []string{o.Tok}
}

func (m *Model) sameIDs(o Op) bool {
	id, _ := SplitToken(o.Tok)
	for _, t := range o.tokens() {
		if x, _ := SplitToken(t); x != id {
			return false
		}
	}
	return true
}

// refreshErrs: every error that applies to a Refresh (or a malformed Create) may be the one reported.
func (m *Model) refreshErrs(o Op) (r []Res) {
	bad, diff := false, false
	first, have := "", false
	for _, t := range o.tokens() {
		id, ok := SplitToken(t)
		switch {
		case !ok:
			bad = true
		case !have:
			first, have = id, true
		case id != first:
			diff = true
		}
	}
	if bad {
		r = append(r, Res{Err: Invalid})
	}
	if diff {
		r = append(r, Res{Err: IDDiff})
	}
	if o.F == "Create" {
		return
	}
	if !bad {
		s := m.By[o.Tok]
		if s == nil {
			r = append(r, Res{Err: Missing})
		} else if s.Ref != o.Ref {
			r = append(r, Res{Err: RefDiff})
		}
	}
	return
}

// Status is what Check must answer now.
func (m *Model) Status(tok string, now time.Time) string {
	return m.Clone().Apply(Op{F: "Check", Tok: tok}, now, Res{})[0].Err
}

// Clone copies the model.
func (m *Model) Clone() *Model {
	n := *m
	n.By = map[string]*Sess{}
	n.Order = nil
	n.Dead = append([]string(nil), m.Dead...)
	for _, s := range m.Order {
		c := *s
		c.Data = map[string]string{}
		for k, v := range s.Data {
			c.Data[k] = v
		}
		n.Order = append(n.Order, &c)
		n.By[c.Tok] = &c
	}
	return &n
}
