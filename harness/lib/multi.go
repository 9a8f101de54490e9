package lib

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// Multi compares a provider with several candidate states, of which at least one must explain all it answers: after a
// crash or a fault, with and without the operation that was under way.
type Multi struct {
	C     *C
	E     *Env
	What  string // for the report
	Cands []*Model
	Names []string
	Known []string
	Refs  map[string]string
	tok   func(id string) string
	log   []string
}

// Fork makes a comparison of an environment with candidate states of this history.
func (h *Hist) Fork(e *Env, what string, cands []*Model, names []string) *Multi {
	return &Multi{C: h.C, E: e, What: what, Cands: cands, Names: names, Known: append([]string(nil), h.Known...), Refs: h.Refs, tok: h.Token}
}

// Do performs a call and drops the candidates that do not explain its result.
func (m *Multi) Do(o Op) Res {
	var got Res
	now := time.Now()
	m.C.Do(o.F, func() { got = Call(m.E.P, o) })
	m.C.Add("operations", 1)
	m.log = append(m.log, fmt.Sprintf("+%v %v -> %v", now.Sub(epoch), o, got))
	var cands []*Model
	var names, wants []string
	for i, c := range m.Cands {
		want := c.Apply(o, now, got)
		if Same(got, want) {
			cands, names = append(cands, c), append(names, m.Names[i])
		} else {
			wants = append(wants, fmt.Sprintf("%s the answer is %s", m.Names[i], fulls(want)))
		}
	}
	if len(cands) == 0 {
		t := m.log
		if len(t) > 60 {
			t = t[len(t)-60:]
		}
		for _, s := range t {
			m.C.Logf("  observed: %s", s)
		}
		m.C.Failf("%s provider (%v): %s, %v returned %v; %s", m.E.Kind, m.E.Opts, m.What, o, got, strings.Join(wants, "; "))
	}
	m.Cands, m.Names = cands, names
	return got
}

func (m *Multi) tokens() []string {
	seen := map[string]bool{}
	var out []string
	add := func(t string) {
		if t != "" && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, t := range m.Known {
		add(t)
	}
	for _, c := range m.Cands {
		for _, s := range c.Order {
			add(s.Tok)
		}
	}
	return out
}

// Sweep observes the status and data of every token.
func (m *Multi) Sweep() {
	keys := map[string]bool{"absent!": true}
	for _, c := range m.Cands {
		for _, s := range c.Order {
			for k := range s.Data {
				keys[k] = true
			}
		}
	}
	var list []string
	for k := range keys {
		list = append(list, k)
	}
	sort.Strings(list)
	for _, t := range m.tokens() {
		if m.Do(Op{F: "Check", Tok: t}).Err == OK {
			m.Do(Op{F: "Keys", Tok: t})
			m.Do(Op{F: "Get", Tok: t, Keys: list})
		}
	}
}

func (m *Multi) glance() {
	for _, t := range m.tokens() {
		m.Do(Op{F: "Check", Tok: t})
	}
}

// Finale observes the rest: refresh tokens, id membership, eviction order or, if time may pass, deadlines.
func (m *Multi) Finale(time_ bool) {
	n := 3
	if time_ {
		n = 4
	}
	switch m.C.Intn(n) {
	case 0:
		type sess struct{ tok, ref string }
		seen := map[sess]bool{}
		var list []sess
		for _, c := range m.Cands {
			for _, s := range c.Order {
				if x := (sess{s.Tok, s.Ref}); !seen[x] {
					seen[x] = true
					list = append(list, x)
				}
			}
		}
		for _, s := range list {
			id, _ := SplitToken(s.tok)
			nt, nr := m.tok(id), m.tok(id)
			m.Do(Op{F: "Refresh", Tok: s.tok, Ref: s.ref, NTok: nt, NRef: nr})
			m.Do(Op{F: "Check", Tok: s.tok})
			m.Do(Op{F: "Keys", Tok: nt})
		}
	case 1:
		ids := map[string]bool{}
		var list []string
		for _, t := range m.tokens() {
			id, _ := SplitToken(t)
			if !ids[id] {
				ids[id] = true
				list = append(list, id)
			}
		}
		for _, id := range list {
			m.Do(Op{F: "Destroy", ID: id})
			m.glance()
		}
	case 2:
		if m.Cands[0].Max > 0 {
			for i := 0; i <= m.Cands[0].Max; i++ {
				m.Do(Op{F: "Create", Tok: m.tok("evictor"), Ref: m.tok("evictor")})
				m.glance()
			}
		}
	case 3:
		q := time.Duration(1)
		if m.E.Kind == "redis" {
			q = time.Millisecond
		}
		var at []time.Time
		for _, c := range m.Cands {
			for _, s := range c.Order {
				at = append(at, s.A, s.R)
			}
		}
		sort.Slice(at, func(i, j int) bool { return at[i].Before(at[j]) })
		for _, t := range at {
			for _, x := range []time.Duration{-q, 0} {
				if d := t.Add(x).Sub(time.Now()); d > 0 {
					m.C.Sleep(d.Truncate(q))
					m.glance()
				}
			}
		}
	}
}
