package lib

import (
	"context"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/powerpuffpenguin/sessionid"
)

// Alias makes calls as a caller does who goes on using its buffers: what was passed in is overwritten as soon as the call
// has returned; what came out is either overwritten or kept and compared later.
type Alias struct {
	c     *C
	bufs  [][]byte
	pairs [][]sessionid.Pair
	raws  [][]sessionid.PairBytes
	lists [][]string
	kept  []keptSlice
}

type keptSlice struct {
	b    []byte
	l    []string
	want string
	wl   []string
	from string
}

func (c *C) NewAlias() *Alias { return &Alias{c: c} }

// buf is a buffer with this content, sometimes with room behind it.
func (a *Alias) buf(s string) []byte {
	b := make([]byte, len(s), len(s)+a.c.Intn(3)*4)
	copy(b, s)
	if len(b) > 0 {
		a.bufs = append(a.bufs, b)
	}
	return b
}

func (a *Alias) rawPairs(o Op) []sessionid.PairBytes {
	out := pairBytes(o)
	for i, p := range o.Pairs {
		if out[i].Value != nil {
			out[i].Value = a.buf(p.V)
		}
	}
	a.raws = append(a.raws, out)
	return out
}

func (a *Alias) anyPairs(o Op) []sessionid.Pair {
	var out []sessionid.Pair
	for _, p := range o.Pairs {
		out = append(out, sessionid.Pair{Key: p.K, Value: a.buf(p.V)})
	}
	a.pairs = append(a.pairs, out)
	return out
}

func (a *Alias) keys(o Op) []string {
	if o.Keys == nil {
		return nil
	}
	l := append([]string(nil), o.Keys...)
	a.lists = append(a.lists, l)
	return l
}

func flip(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

// overwrite changes everything that was passed in.
func (a *Alias) overwrite() {
	debug.SetPanicOnFault(true)
	for _, b := range a.bufs {
		flip(b)
		a.c.Add("buffers_overwritten_after_the_call", 1)
	}
	for _, l := range a.lists {
		for i := range l {
			l[i] = "overwritten"
		}
	}
	for _, l := range a.pairs {
		for i := range l {
			l[i] = sessionid.Pair{Key: "overwritten", Value: []byte("overwritten")}
		}
	}
	for _, l := range a.raws {
		for i := range l {
			l[i] = sessionid.PairBytes{Key: "overwritten", Value: []byte("overwritten")}
		}
	}
	a.bufs, a.lists, a.pairs, a.raws = nil, nil, nil, nil
}

// got takes the slices one call returned.
func (a *Alias) got(from string, bs [][]byte, l []string) {
	debug.SetPanicOnFault(true)
	for _, b := range bs {
		if a.c.P(0.5) && len(a.kept) < 300 {
			if len(b) > 0 {
				a.kept = append(a.kept, keptSlice{b: b, want: string(b), from: from})
			}
			continue
		}
		flip(b)
		// append writes here
		if r := b[len(b):min(cap(b), len(b)+64)]; len(r) > 0 {
			flip(r)
			a.c.Add("results_appended_to", 1)
		}
		a.c.Add("results_overwritten", 1)
	}
	if len(l) > 0 && a.c.P(0.5) && len(a.kept) < 300 {
		// the strings, too, may lie in memory that is not the caller's
		wl := make([]string, len(l))
		for i := range l {
			wl[i] = strings.Clone(l[i])
		}
		a.kept = append(a.kept, keptSlice{l: l, wl: wl, from: from})
		return
	}
	l = l[:min(cap(l), len(l)+8)]
	for i := range l {
		l[i] = "overwritten"
	}
}

// Compare reads everything that was kept.
func (a *Alias) Compare(when string) {
	a.c.Do("reading slices returned earlier "+when, func() {
		debug.SetPanicOnFault(true)
		for _, k := range a.kept {
			a.c.Add("kept_results_compared", 1)
			if string(k.b) != k.want || !eqStr(k.l, k.wl) {
				a.c.Failf("a slice that %s returned was %q%q and reads %q%q %s", k.from, k.want, k.wl, k.b, k.l, when)
			}
		}
	})
}

// Call is the call of an operation on a provider.
func (a *Alias) Call(p sessionid.Provider, o Op) (r Res) {
	ctx := context.Background()
	var e error
	switch o.F {
	case "Create":
		e = p.Create(ctx, o.Tok, o.Ref, a.rawPairs(o))
	case "Put":
		e = p.Put(ctx, o.Tok, a.rawPairs(o))
	case "Get":
		var vals []sessionid.Value
		vals, e = p.Get(ctx, o.Tok, a.keys(o))
		a.overwrite()
		if e == nil {
			r.Vals = []Val{}
			var bs [][]byte
			for _, v := range vals {
				r.Vals = append(r.Vals, Val{v.Exists, string(v.Bytes)})
				bs = append(bs, v.Bytes)
			}
			a.c.Rng.Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
			a.got(o.String(), bs, nil)
			for i := range vals { // the list belongs to the caller as well
				vals[i] = sessionid.Value{Exists: true, Bytes: []byte("overwritten")}
			}
		}
	case "Keys":
		var keys []string
		keys, e = p.Keys(ctx, o.Tok)
		if e == nil {
			r.Keys = append([]string{}, keys...)
			sort.Strings(r.Keys)
			a.got(o.String(), nil, keys)
		}
	case "Delete":
		e = p.Delete(ctx, o.Tok, a.keys(o))
	default:
		return Call(p, o)
	}
	a.overwrite()
	r.Err = ErrCode(e)
	return
}
