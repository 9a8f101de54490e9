package lib

import (
	"context"
	"errors"
	"os"
	"sync"
	"time"

	"github.com/boltdb/bolt"

	"verif.local/h/fakeredis"
)

// ErrIO is the injected error of bolt file operations.
var ErrIO = errors.New("injected I/O error")

// FailEvery makes every n-th command (redis) or file modification (bolt) from now on fail; 0 ends it.
func (e *Env) FailEvery(n int) {
	switch e.Kind {
	case "redis":
		if n == 0 {
			e.Srv.SetPlan(nil)
			return
		}
		e.Srv.SetPlan(func(i int, name string, args []string) fakeredis.Fault {
			if i%n == n-1 {
				e.c.Add("faults_injected", 1)
				return fakeredis.Fault(1 + (i/n)%4)
			}
			return fakeredis.None
		})
	case "bolt":
		if n == 0 {
			e.IO(nil)
			return
		}
		i := 0
		e.IO(func(kind string, b []byte, off int64) error {
			i++
			if i%n == 0 {
				e.c.Add("faults_injected", 1)
				return ErrIO
			}
			return nil
		})
	}
}

// writing lists the redis commands that change something on their own.
var writing = map[string]bool{"EXEC": true, "DEL": true, "UNLINK": true, "HSET": true, "HMSET": true, "HDEL": true, "RENAME": true, "RENAMENX": true,
	"HSETNX": true, "SET": true, "SETNX": true, "EXPIRE": true, "EXPIREAT": true, "PEXPIRE": true, "PEXPIREAT": true, "PERSIST": true, "HINCRBY": true,
	"SADD": true, "SREM": true, "EVAL": true, "EVALSHA": true, "FLUSHDB": true, "FLUSHALL": true}

// RandomFault arms a fault at some command or file operation of the next call, for one or several of them. The function
// it returns disarms it and tells whether it fired and whether the outcome of a modification was lost.
func (e *Env) RandomFault() func() (fired, doubt bool) {
	c := e.c
	at, n := c.Intn(8), 1
	if c.P(0.3) {
		n = 1 + c.Intn(12)
	}
	var fired, doubt bool
	var mu sync.Mutex
	switch e.Kind {
	case "redis":
		if c.P(0.08) {
			e.Srv.Down(true)
			c.Settle()
			c.Add("faults_server_down", 1)
			return func() (bool, bool) {
				e.Srv.Down(false)
				// use up the broken connections: over TCP the client would notice them by itself
				c.Do("Ping", func() {
					for i := e.Client.PoolStats().IdleConns + 1; i > 0; i-- {
						e.Client.Ping(context.Background())
					}
				})
				return true, false
			}
		}
		kind := 1 + c.Intn(4)
		mixed := c.P(0.3)
		multi := false
		e.Srv.SetPlan(func(i int, name string, args []string) fakeredis.Fault {
			mu.Lock()
			defer mu.Unlock()
			in := multi
			switch name {
			case "MULTI":
				multi = true
			case "EXEC", "DISCARD":
				multi = false
			}
			if i < at || i >= at+n {
				return fakeredis.None
			}
			f := fakeredis.Fault(kind)
			if mixed {
				f = fakeredis.Fault(1 + c.Intn(4))
			}
			if (name == "MULTI" || name == "UNWATCH") && f != fakeredis.DropBefore && f != fakeredis.DropAfter {
				return fakeredis.None
			}
			fired = true
			c.Logf("  fault %d at command %d %s", f, i, name)
			c.Add("faults_redis_"+map[fakeredis.Fault]string{fakeredis.DropBefore: "drop_before", fakeredis.DropAfter: "drop_after",
				fakeredis.ErrReply: "error_reply", fakeredis.Loading: "loading"}[f], 1)
			if f == fakeredis.DropAfter && writing[name] && (!in || name == "EXEC") {
				doubt = true
			}
			return f
		})
		return func() (bool, bool) {
			e.Srv.SetPlan(nil)
			mu.Lock()
			defer mu.Unlock()
			return fired, doubt
		}
	case "bolt":
		i, meta := 0, false
		e.IO(func(kind string, b []byte, off int64) error {
			if kind == "synced" {
				return nil
			}
			defer func() { i++; meta = kind == "write" && off < 2*int64(os.Getpagesize()) }()
			if i < at || i >= at+n {
				return nil
			}
			fired = true
			c.Logf("  fault at file operation %d %s %d", i, kind, off)
			c.Add("faults_bolt_"+kind, 1)
			if kind == "sync" && meta {
				doubt = true
			}
			return ErrIO
		})
		return func() (bool, bool) {
			e.IO(nil)
			return fired, doubt
		}
	}
	return func() (bool, bool) { return false, false }
}

// RandomContext makes a context that is or will be cancelled, or has a deadline, for the next call, and makes the redis
// server slow at some of its commands. What it returns is as with RandomFault.
func (e *Env) RandomContext() (context.Context, func() (fired, doubt bool)) {
	c := e.c
	ctx, cancel := context.Background(), func() {}
	cut := time.Duration(0)
	switch c.Intn(5) {
	case 0:
		ctx, cancel = context.WithCancel(ctx)
		cancel()
		c.Add("contexts_cancelled_before", 1)
	case 1:
		var f context.CancelFunc
		ctx, f = context.WithCancel(ctx)
		cut = time.Duration(1 + c.Intn(3000))
		if c.P(0.5) {
			cut *= time.Millisecond
		}
		t := time.AfterFunc(cut, f)
		cancel = func() { t.Stop(); f() }
		c.Add("contexts_cancelled_meanwhile", 1)
	case 2:
		cut = time.Duration(1 + c.Intn(3000))
		if c.P(0.5) {
			cut *= time.Millisecond
		}
		ctx, cancel = context.WithTimeout(ctx, cut)
		c.Add("contexts_with_deadline", 1)
	case 3:
		ctx, cancel = context.WithDeadline(ctx, time.Now().Add(-time.Second))
		c.Add("contexts_past_their_deadline", 1)
	}
	stalled, wrote, slow := false, false, c.P(0.8)
	stall := time.Duration(1+c.Intn(4000)) * time.Millisecond
	if c.P(0.3) {
		stall = time.Duration(50+c.Intn(30)) * time.Second // also longer than the client waits
	}
	if e.Kind == "redis" {
		at, n := c.Intn(8), 1
		if c.P(0.3) {
			n = 1 + c.Intn(12)
		}
		e.Srv.Stall = stall
		e.Srv.SetPlan(func(i int, name string, args []string) fakeredis.Fault {
			if writing[name] {
				wrote = true
			}
			if !slow || i < at || i >= at+n {
				return fakeredis.None
			}
			stalled = true
			f := fakeredis.LateReply
			if c.P(0.5) {
				f = fakeredis.LateEffect
			}
			c.Logf("  command %d %s is slow (%d) by %v", i, name, f, stall)
			return f
		})
	} else if cut > 0 && c.P(0.7) { // the call takes time, at its statements
		c.Chaos(0.2, cut)
	}
	return ctx, func() (bool, bool) {
		over := ctx.Err() != nil
		cancel()
		c.Calm()
		c.Sleep(cut) // what sleeps at a statement ends
		if e.Kind == "redis" {
			slow = false
			if stalled {
				c.Sleep(13 * stall) // the server is done with all it was sent
				c.Add("slow_calls", 1)
			}
			c.Settle()
			e.Srv.SetPlan(nil)
		}
		if over {
			c.Add("contexts_over_before_the_call", 1)
		}
		return over || stalled, (over || stalled) && wrote
	}
}

// hook dispatches the file events of bolt databases; it is installed once, for all databases.
type hook struct {
	mu sync.Mutex
	m  map[string]func(kind string, b []byte, off int64) error
}

var hooks = &hook{m: map[string]func(string, []byte, int64) error{}}

func init() { bolt.VerifHook = hooks }

// IO makes f see every modification of the bolt file of the environment before it happens: "write", "truncate" (off
// is the size), "sync", and "synced" after it. An error from it is returned in place of the operation.
func (e *Env) IO(f func(kind string, b []byte, off int64) error) {
	hooks.mu.Lock()
	defer hooks.mu.Unlock()
	if f == nil {
		delete(hooks.m, e.Path)
	} else {
		hooks.m[e.Path] = f
	}
}

func (h *hook) call(path, kind string, b []byte, off int64) error {
	h.mu.Lock()
	f := h.m[path]
	h.mu.Unlock()
	if f == nil {
		return nil
	}
	return f(kind, b, off)
}

func (h *hook) Write(path string, b []byte, off int64) error { return h.call(path, "write", b, off) }
func (h *hook) Truncate(path string, size int64) error       { return h.call(path, "truncate", nil, size) }
func (h *hook) Sync(path string) error                       { return h.call(path, "sync", nil, 0) }
func (h *hook) Synced(path string)                           { h.call(path, "synced", nil, 0) }
