package lib

import (
	"context"
	"sync"

	"github.com/powerpuffpenguin/sessionid"
)

// Rec is one call that reached a provider.
type Rec struct {
	Ctx  context.Context
	Op   Op
	Nil  bool // the pairs or keys were nil
	Kind string
}

// Answer is what a Recording without a provider behind it replies.
type Answer struct {
	Err  error
	Vals []sessionid.Value
	Keys []string
}

// Recording is a provider that records the calls it gets and passes them on or replies as told.
type Recording struct {
	P     sessionid.Provider // may be nil
	Reply func(r Rec) Answer
	mu    sync.Mutex
	calls []Rec
}

// Take returns the calls recorded since the last Take.
func (r *Recording) Take() []Rec {
	r.mu.Lock()
	defer r.mu.Unlock()
	c := r.calls
	r.calls = nil
	return c
}

func (r *Recording) add(ctx context.Context, o Op) Answer {
	x := Rec{Ctx: ctx, Op: o}
	r.mu.Lock()
	r.calls = append(r.calls, x)
	r.mu.Unlock()
	if r.Reply != nil {
		return r.Reply(x)
	}
	return Answer{}
}

func kvs(pair []sessionid.PairBytes) (out []KV) {
	for _, p := range pair {
		out = append(out, KV{p.Key, string(p.Value)})
	}
	return
}

func (r *Recording) Create(ctx context.Context, access, refresh string, pair []sessionid.PairBytes) error {
	a := r.add(ctx, Op{F: "Create", Tok: access, Ref: refresh, Pairs: kvs(pair)})
	if r.P != nil {
		return r.P.Create(ctx, access, refresh, pair)
	}
	return a.Err
}

func (r *Recording) Destroy(ctx context.Context, id string) error {
	a := r.add(ctx, Op{F: "Destroy", ID: id})
	if r.P != nil {
		return r.P.Destroy(ctx, id)
	}
	return a.Err
}

func (r *Recording) DestroyByToken(ctx context.Context, token string) error {
	a := r.add(ctx, Op{F: "DestroyByToken", Tok: token})
	if r.P != nil {
		return r.P.DestroyByToken(ctx, token)
	}
	return a.Err
}

func (r *Recording) Check(ctx context.Context, token string) error {
	a := r.add(ctx, Op{F: "Check", Tok: token})
	if r.P != nil {
		return r.P.Check(ctx, token)
	}
	return a.Err
}

func (r *Recording) Put(ctx context.Context, token string, pair []sessionid.PairBytes) error {
	a := r.add(ctx, Op{F: "Put", Tok: token, Pairs: kvs(pair)})
	if r.P != nil {
		return r.P.Put(ctx, token, pair)
	}
	return a.Err
}

func (r *Recording) Get(ctx context.Context, token string, keys []string) ([]sessionid.Value, error) {
	a := r.add(ctx, Op{F: "Get", Tok: token, Keys: append([]string(nil), keys...)})
	if r.P != nil {
		return r.P.Get(ctx, token, keys)
	}
	return a.Vals, a.Err
}

func (r *Recording) Keys(ctx context.Context, token string) ([]string, error) {
	a := r.add(ctx, Op{F: "Keys", Tok: token})
	if r.P != nil {
		return r.P.Keys(ctx, token)
	}
	return a.Keys, a.Err
}

func (r *Recording) Delete(ctx context.Context, token string, keys []string) error {
	a := r.add(ctx, Op{F: "Delete", Tok: token, Keys: append([]string(nil), keys...)})
	if r.P != nil {
		return r.P.Delete(ctx, token, keys)
	}
	return a.Err
}

func (r *Recording) Refresh(ctx context.Context, access, refresh, newAccess, newRefresh string) error {
	a := r.add(ctx, Op{F: "Refresh", Tok: access, Ref: refresh, NTok: newAccess, NRef: newRefresh})
	if r.P != nil {
		return r.P.Refresh(ctx, access, refresh, newAccess, newRefresh)
	}
	return a.Err
}

func (r *Recording) Close() error {
	a := r.add(nil, Op{F: "Close"})
	if r.P != nil {
		return r.P.Close()
	}
	return a.Err
}
