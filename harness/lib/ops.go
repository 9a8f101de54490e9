package lib

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/powerpuffpenguin/sessionid"
)

// Outcomes of calls.
const (
	OK       = "ok"
	Expired  = "ErrTokenExpired"
	Invalid  = "ErrTokenInvalid"
	Missing  = "ErrTokenNotExists"
	IDDiff   = "ErrTokenIDNotMatched"
	RefDiff  = "ErrRefreshTokenNotMatched"
	Closed   = "ErrProviderClosed"
	NoKey    = "ErrKeyNotExists"
	NeedsPtr = "ErrNeedsPointer"
	PtrPtr   = "ErrPointerToPointer"
)

var sentinels = []struct {
	e error
	s string
}{
	{sessionid.ErrTokenExpired, Expired}, {sessionid.ErrTokenInvalid, Invalid}, {sessionid.ErrTokenNotExists, Missing},
	{sessionid.ErrTokenIDNotMatched, IDDiff}, {sessionid.ErrRefreshTokenNotMatched, RefDiff},
	{sessionid.ErrProviderClosed, Closed}, {sessionid.ErrKeyNotExists, NoKey}, {sessionid.ErrNeedsPointer, NeedsPtr},
	{sessionid.ErrPointerToPointer, PtrPtr},
}

// ErrCode names an error by the sentinel it is.
func ErrCode(e error) string {
	if e == nil {
		return OK
	}
	for _, s := range sentinels {
		if errors.Is(e, s.e) {
			return s.s
		}
	}
	return "error: " + e.Error()
}

// KV is a pair of a Create or Put.
type KV struct{ K, V string }

// Op is one provider call.
type Op struct {
	F          string // Create Destroy DestroyByToken Check Put Get Keys Delete Refresh Close Clear
	Tok, Ref   string
	NTok, NRef string
	ID         string
	Pairs      []KV
	Keys       []string
	NilVals    bool // empty values are passed as nil
}

// Val is one result of Get.
type Val struct {
	Exists bool
	B      string
}

// Res is what a call returned.
type Res struct {
	Err  string
	Vals []Val
	Keys []string // sorted
}

func short(s string) string {
	if len(s) > 48 {
		return fmt.Sprintf("%q..(%d)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func (o Op) String() string {
	var b strings.Builder
	b.WriteString(o.F)
	b.WriteByte('(')
	var a []string
	if o.Tok != "" || (o.F != "Destroy" && o.F != "Close" && o.F != "Clear") {
		a = append(a, short(o.Tok))
	}
	if o.F == "Destroy" {
		a = append(a, "id="+short(o.ID))
	}
	if o.F == "Create" || o.F == "Refresh" {
		a = append(a, short(o.Ref))
	}
	if o.F == "Refresh" {
		a = append(a, short(o.NTok), short(o.NRef))
	}
	for i, p := range o.Pairs {
		if i == 6 {
			a = append(a, fmt.Sprintf("...%d pairs", len(o.Pairs)))
			break
		}
		a = append(a, short(p.K)+"="+short(p.V))
	}
	for i, k := range o.Keys {
		if i == 8 {
			a = append(a, fmt.Sprintf("...%d keys", len(o.Keys)))
			break
		}
		a = append(a, short(k))
	}
	b.WriteString(strings.Join(a, ", "))
	b.WriteByte(')')
	return b.String()
}

func (r Res) String() string {
	if r.Err != OK {
		return r.Err
	}
	var a []string
	for i, v := range r.Vals {
		if i == 8 {
			a = append(a, "...")
			break
		}
		if v.Exists {
			a = append(a, short(v.B))
		} else {
			a = append(a, "-")
		}
	}
	if r.Keys != nil {
		for i, k := range r.Keys {
			if i == 10 {
				a = append(a, "...")
				break
			}
			a = append(a, short(k))
		}
		return "keys[" + strings.Join(a, " ") + "]"
	}
	if r.Vals != nil {
		return "vals[" + strings.Join(a, " ") + "]"
	}
	return OK
}

func pairBytes(o Op) []sessionid.PairBytes {
	if o.Pairs == nil {
		return nil
	}
	out := make([]sessionid.PairBytes, len(o.Pairs))
	for i, p := range o.Pairs {
		out[i] = sessionid.PairBytes{Key: p.K, Value: []byte(p.V)}
		if o.NilVals && p.V == "" {
			out[i].Value = nil
		}
	}
	return out
}

type clearer interface{ Clear() error }

// Call performs the operation on a provider.
func Call(p sessionid.Provider, o Op) (r Res) { return CallCtx(context.Background(), p, o) }

// CallCtx is Call with a context.
func CallCtx(ctx context.Context, p sessionid.Provider, o Op) (r Res) {
	var e error
	switch o.F {
	case "Create":
		e = p.Create(ctx, o.Tok, o.Ref, pairBytes(o))
	case "Destroy":
		e = p.Destroy(ctx, o.ID)
	case "DestroyByToken":
		e = p.DestroyByToken(ctx, o.Tok)
	case "Check":
		e = p.Check(ctx, o.Tok)
	case "Put":
		e = p.Put(ctx, o.Tok, pairBytes(o))
	case "Get":
		var vals []sessionid.Value
		vals, e = p.Get(ctx, o.Tok, o.Keys)
		if e == nil {
			r.Vals = []Val{}
			for _, v := range vals {
				r.Vals = append(r.Vals, Val{v.Exists, string(v.Bytes)})
			}
		}
	case "Keys":
		var keys []string
		keys, e = p.Keys(ctx, o.Tok)
		if e == nil {
			r.Keys = append([]string{}, keys...)
			sort.Strings(r.Keys)
		}
	case "Delete":
		e = p.Delete(ctx, o.Tok, o.Keys)
	case "Refresh":
		e = p.Refresh(ctx, o.Tok, o.Ref, o.NTok, o.NRef)
	case "Close":
		e = p.Close()
	case "Clear":
		e = p.(clearer).Clear()
	default:
		panic("unknown operation " + o.F)
	}
	r.Err = ErrCode(e)
	return
}

// Same reports whether a result is one of those allowed. An allowed Err "*" stands for any error at all.
func Same(got Res, allowed []Res) bool {
	for _, w := range allowed {
		if w.Err == "*" {
			if got.Err != OK {
				return true
			}
			continue
		}
		if got.Err != w.Err {
			continue
		}
		if got.Err != OK || (eqVals(got.Vals, w.Vals) && eqStr(got.Keys, w.Keys)) {
			return true
		}
	}
	return false
}

func eqVals(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqStr(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
