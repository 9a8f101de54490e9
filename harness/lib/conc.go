package lib

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"
)

// Log is a concurrent history: calls with logical times of invocation and return.
type Log struct {
	h    *Hist
	mu   sync.Mutex
	seq  int64
	ops  []porcupine.Operation
	now  time.Time // the instant for the model: no deadline passes during the history
	init *Model
	text []string
	// Doubt: a call that returned ErrProviderClosed may have taken effect all the same (its connection was closed
	// under it).
	Doubt bool
	// On, if set, says which provider a client calls.
	On func(client int) *Env
	// Beside, if set, runs beside the scripts.
	Beside func()
}

func (l *Log) doubt(init *Model) porcupine.Model {
	nm := porcupine.NondeterministicModel{
		Init: func() []any { return []any{init} },
		Step: func(state, in, out any) (next []any) {
			r := out.(Res)
			m := state.(*Model).Clone()
			if Same(r, m.Apply(in.(Op), l.now, r)) {
				m.Dead = nil
				next = append(next, m)
			}
			if o := in.(Op); r.Err == Closed && o.F != "Close" && !state.(*Model).Closed {
				m := state.(*Model).Clone()
				m.Apply(o, l.now, r)
				m.Dead = nil
				next = append(next, m, state)
			}
			return
		},
		Equal: func(a, b any) bool { return a.(*Model).key() == b.(*Model).key() },
	}
	return nm.ToModel()
}

// Record begins a concurrent history from the present state of the model.
func (h *Hist) Record() *Log {
	h.M.Expire(time.Now())
	return &Log{h: h, now: time.Now(), init: h.M.Clone()}
}

func (l *Log) tick() int64 {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.seq++
	return l.seq
}

// Do performs a call as the given client.
func (l *Log) Do(client int, o Op) Res {
	call := l.tick()
	e := l.h.E
	if l.On != nil {
		e = l.On(client)
	}
	r := Call(e.P, o)
	l.mu.Lock()
	defer l.mu.Unlock()
	l.seq++
	l.ops = append(l.ops, porcupine.Operation{ClientId: client, Input: o, Call: call, Output: r, Return: l.seq})
	l.h.C.Logf("+%v [%d] %d..%d %v -> %v", time.Since(epoch), client, call, l.seq, o, r)
	return r
}

// Run performs the scripts concurrently, with yield points on.
func (l *Log) Run(p float64, delay time.Duration, scripts ...[]Op) {
	c := l.h.C
	var fs []func()
	for i, s := range scripts {
		fs = append(fs, func() {
			for _, o := range s {
				l.Do(i+1, o)
			}
		})
		c.Add("concurrent_operations", len(s))
	}
	if l.Beside != nil {
		fs = append(fs, l.Beside)
	}
	c.Chaos(p, delay)
	c.Par("concurrent calls", fs...)
	c.Calm()
	c.Settle()
	c.Add("concurrent_phases", 1)
}

// Seq performs a call alone, as part of the history.
func (l *Log) Seq(o Op) Res {
	var r Res
	l.h.C.Do(o.F, func() { r = l.Do(0, o) })
	return r
}

// Closed records a Close that returned nil.
func (l *Log) Closed() {
	call := l.tick()
	ret := l.tick()
	l.ops = append(l.ops, porcupine.Operation{Input: Op{F: "Close"}, Call: call, Output: Res{Err: OK}, Return: ret})
}

// Overlaps counts the pairs of calls that overlapped.
func (l *Log) Overlaps() (n int) {
	for i, a := range l.ops {
		for _, b := range l.ops[:i] {
			if a.Call < b.Return && b.Call < a.Return {
				n++
			}
		}
	}
	return
}

func (m *Model) key() string {
	var b strings.Builder
	fmt.Fprint(&b, m.Closed)
	for _, s := range m.Order {
		fmt.Fprintf(&b, "|%q %q %d %d", s.Tok, s.Ref, s.A.UnixNano(), s.R.UnixNano())
		for _, k := range s.KeyList() {
			fmt.Fprintf(&b, " %q=%q", k, s.Data[k])
		}
	}
	return b.String()
}

// Judge decides after the case, on the real clock, whether the history is linearizable; partition, if set, makes a
// list of histories to be judged each on its own.
func (l *Log) Check(partition func(ops []porcupine.Operation, init *Model) (parts [][]porcupine.Operation, inits []*Model)) {
	c := l.h.C
	now := time.Now()
	for _, s := range l.init.Order {
		for _, t := range []time.Time{s.A, s.R} {
			if t.After(l.now) && !t.After(now) {
				c.Skip() // the phase took so long that a deadline passed
				return
			}
		}
	}
	c.Add("overlapping_pairs", l.Overlaps())
	var order []string
	for _, o := range l.ops {
		order = append(order, fmt.Sprint(o.ClientId))
	}
	c.Sig("order", strings.Join(order, ""))
	c.Cleanup(func() {
		parts, inits := [][]porcupine.Operation{l.ops}, []*Model{l.init}
		if partition != nil {
			parts, inits = partition(l.ops, l.init)
		}
		for i, ops := range parts {
			init := inits[i]
			init.Dead = nil
			model := porcupine.Model{
				Init: func() any { return init },
				Step: func(state, in, out any) (bool, any) {
					m := state.(*Model).Clone()
					ok := Same(out.(Res), m.Apply(in.(Op), l.now, out.(Res)))
					m.Dead = nil
					return ok, m
				},
				Equal: func(a, b any) bool { return a.(*Model).key() == b.(*Model).key() },
			}
			if l.Doubt {
				model = l.doubt(init)
			}
			switch porcupine.CheckOperationsTimeout(model, ops, time.Minute) {
			case porcupine.Illegal:
				c.Failf("%s provider (%v): no order of the calls, one by one, explains what they returned%s", l.h.E.Kind, l.h.E.Opts, explain(ops, init))
			case porcupine.Unknown:
				c.Inconclusive("the search for an order of the calls of %s:%d did not end", c.Name, c.I)
			}
			c.Add("histories_judged", 1)
			c.Add("operations", len(ops))
		}
	})
}

func explain(ops []porcupine.Operation, init *Model) string {
	var b strings.Builder
	b.WriteString("; sessions before:")
	for _, s := range init.Order {
		fmt.Fprintf(&b, "\n  %s refresh %s, access until +%v, refresh until +%v, data %q", s.Tok, s.Ref, s.A.Sub(epoch), s.R.Sub(epoch), s.Data)
	}
	b.WriteString("\n calls:")
	ops = append([]porcupine.Operation(nil), ops...)
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	for _, o := range ops {
		fmt.Fprintf(&b, "\n  [%d] %d..%d %v -> %v", o.ClientId, o.Call, o.Return, o.Input, o.Output)
	}
	return b.String()
}

// ByLineage splits a history into one per session, through its refreshes; Destroy by id belongs to every one of its id.
func ByLineage(ops []porcupine.Operation, init *Model) (parts [][]porcupine.Operation, inits []*Model) {
	root := map[string]string{}
	find := func(t string) string {
		for root[t] != "" {
			t = root[t]
		}
		return t
	}
	for _, o := range ops {
		if x := o.Input.(Op); x.F == "Refresh" && x.Tok != x.NTok && find(x.NTok) == x.NTok && find(x.Tok) != x.NTok {
			root[x.NTok] = x.Tok
		}
	}
	names := map[string]bool{}
	for _, o := range ops {
		if x := o.Input.(Op); x.Tok != "" {
			names[find(x.Tok)] = true
		}
	}
	for _, s := range init.Order {
		names[find(s.Tok)] = true
	}
	var list []string
	for n := range names {
		list = append(list, n)
	}
	sort.Strings(list)
	for _, n := range list {
		id, _ := SplitToken(n)
		var p []porcupine.Operation
		for _, o := range ops {
			x := o.Input.(Op)
			if (x.Tok != "" && find(x.Tok) == n) || (x.F == "Destroy" && x.ID == id) || x.F == "Close" {
				p = append(p, o)
			}
		}
		m := init.Clone()
		for _, s := range append([]*Sess(nil), m.Order...) {
			if find(s.Tok) != n {
				m.drop(s)
			}
		}
		parts, inits = append(parts, p), append(inits, m)
	}
	return
}
