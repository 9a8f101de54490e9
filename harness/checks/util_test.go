package checks

import (
	"context"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"

	"verif.local/h/lib"
)

// refused performs calls that a provider refuses as a whole: keys it reserves or does not have, among good ones.
func refused(h *lib.Hist) {
	c := h.C
	t := h.Tok()
	bad := lib.Pick(c, []string{"", strings.Repeat("x", 32767), strings.Repeat("y", 32768), strings.Repeat("z", 32769), strings.Repeat("w", 70000)})
	if h.M.Reserved != "" && c.P(0.6) {
		bad = h.M.Reserved
	}
	kv := []lib.KV{{K: "good1", V: "x"}, {K: bad, V: "y"}, {K: "good2", V: "z"}}
	if c.P(0.5) {
		kv[0], kv[1] = kv[1], kv[0]
	}
	switch c.Intn(7) {
	case 0:
		h.Do(lib.Op{F: "Put", Tok: t, Pairs: kv})
	case 1:
		h.Do(lib.Op{F: "Get", Tok: t, Keys: []string{"good1", bad}})
	case 2:
		h.Do(lib.Op{F: "Delete", Tok: t, Keys: append([]string{bad}, keysOf(h, t)...)})
	case 3:
		id, _ := lib.SplitToken(t)
		n := h.Token(id)
		res := h.CreateAs(n, h.Token(id), kv...)
		if res.Err != lib.OK && h.M.Max <= 0 {
			h.Do(lib.Op{F: "Check", Tok: n})
		}
	case 4: // under a token in use, whose session a refused call leaves alone
		id, _ := lib.SplitToken(t)
		h.CreateAs(t, lib.Pick(c, []string{h.Token(id), h.Refs[t]}), kv...)
	case 5: // tokens too long for some
		id, _ := lib.SplitToken(t)
		n, r := h.Token(id), h.Token(id)
		long := strings.Repeat("L", lib.Pick(c, []int{16000, 16384, 32000, 32740, 32768, 33000, 70000}))
		if c.P(0.7) {
			n += long
		} else {
			r += long
		}
		if c.P(0.5) {
			h.CreateAs(n, r, kv[0])
		} else {
			h.RefreshAny(t, h.Refs[t], n, r)
		}
		h.Do(lib.Op{F: "Check", Tok: n})
	case 6: // ids too long for some
		id := strings.Repeat("I", lib.Pick(c, []int{16000, 32700, 32768, 40000}))
		n := h.Token(id)
		h.CreateAs(n, h.Token(id), kv[0])
		h.Do(lib.Op{F: "Check", Tok: n})
		h.Do(lib.Op{F: "Destroy", ID: id})
		h.Do(lib.Op{F: "Check", Tok: n})
	}
	h.Look(t)
	h.LookLive(2)
	c.Add("refused_calls", 1)
}

func keysOf(h *lib.Hist, t string) []string {
	if s := h.M.By[t]; s != nil {
		return s.KeyList()
	}
	return nil
}

// unencodable performs manager and session calls with a value the coder rejects, at any place of the list. The model
// is not told: they must leave no trace.
func unencodable(h *lib.Hist) {
	c := h.C
	ctx := context.Background()
	pairs := []sessionid.Pair{{Key: "a", Value: "intruder"}, {Key: "b", Value: "intruder"}, {Key: "c", Value: "intruder"}}
	pairs = append(pairs[:c.Intn(4)], sessionid.Pair{Key: "bad", Value: 3.5}, sessionid.Pair{Key: "d", Value: "x"})
	c.Do("call with an unencodable value", func() {
		if c.P(0.4) || len(h.Known) == 0 {
			s, ref, err := h.Mgr.Create(ctx, "u", pairs...)
			if err == nil {
				c.Failf("manager Create with a value the coder rejects returns %v, %q, nil", s, ref)
			}
			c.Add("failed_manager_creates", 1)
			return
		}
		t := h.Tok()
		s, err := h.Mgr.Get(ctx, t)
		if err != nil {
			c.Failf("manager Get of an issued token: %v", err)
		}
		if s.Put(ctx, pairs...) == nil {
			c.Failf("Session.Put with a value the coder rejects returns nil")
		}
		c.Add("failed_session_puts", 1)
		// and the Session itself answers as before
		st := h.M.Status(t, time.Now())
		for _, k := range []string{"a", "b", "c", "d"} {
			var b []byte
			err := s.Get(ctx, k, &b)
			if st != lib.OK {
				if lib.ErrCode(err) != st {
					c.Failf("after a failed Put, Session.Get(%q) = %v, want %v", k, err, st)
				}
				continue
			}
			want, ok := h.M.By[t].Data[k]
			if ok != (err == nil) || (err != nil && lib.ErrCode(err) != lib.NoKey) || string(b) != want {
				c.Failf("after a failed Put, Session.Get(%q) = %q, %v, want %q, stored %v", k, b, err, want, ok)
			}
		}
	})
	if n := len(h.M.Order); n > 0 {
		h.Look(h.M.Order[c.Intn(n)].Tok)
		h.LookLive(n)
	}
}
