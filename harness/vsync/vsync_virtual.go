//go:build !vreal

// Package vsync stands in for package sync in the build-time copy of the code under test. Its locks block on channels,
// so that inside a synctest bubble a goroutine waiting for a lock is durably blocked: the virtual clock can advance
// while a lock is held, and a lock that is never released shows as a call that never finishes in virtual time.
// With the build tag vreal the package is only a set of aliases of the real one.
package vsync

import (
	"sync"

	"verif.local/h/vsched"
)

type waiter struct {
	ch    chan struct{}
	write bool
}

// RWMutex has the semantics of sync.RWMutex, waiting writers holding off new readers included.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	q       []waiter
}

func (m *RWMutex) writersWaiting() bool {
	for _, w := range m.q {
		if w.write {
			return true
		}
	}
	return false
}

func (m *RWMutex) wait(write bool) {
	ch := make(chan struct{})
	m.q = append(m.q, waiter{ch, write})
	m.mu.Unlock()
	<-ch
}

func (m *RWMutex) Lock() {
	m.mu.Lock()
	if !m.writer && m.readers == 0 {
		m.writer = true
		m.mu.Unlock()
		return
	}
	m.wait(true)
}

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer && m.readers == 0 {
		m.writer = true
		return true
	}
	return false
}

func (m *RWMutex) RLock() {
	m.mu.Lock()
	if !m.writer && !m.writersWaiting() {
		m.readers++
		m.mu.Unlock()
		return
	}
	m.wait(false)
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer && !m.writersWaiting() {
		m.readers++
		return true
	}
	return false
}

// pass hands a free lock to waiters; called with m.mu held.
func (m *RWMutex) pass(afterWrite bool) {
	if m.writer || len(m.q) == 0 {
		return
	}
	// After a write section readers that wait go first, as in package sync.
	if afterWrite {
		some := false
		rest := m.q[:0:0]
		for _, w := range m.q {
			if w.write {
				rest = append(rest, w)
			} else {
				some = true
				m.readers++
				close(w.ch)
			}
		}
		m.q = rest
		if some {
			return
		}
	}
	if m.readers == 0 {
		var ws []int
		for i, w := range m.q {
			if w.write {
				ws = append(ws, i)
			}
		}
		if len(ws) > 0 {
			i := ws[vsched.Intn(len(ws))]
			w := m.q[i]
			m.q = append(m.q[:i:i], m.q[i+1:]...)
			m.writer = true
			close(w.ch)
		}
	}
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.pass(true)
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.pass(false)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
