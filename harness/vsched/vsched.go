// Package vsched holds the yield points that the instrumenter inserts before every statement of the code under test.
package vsched

import (
	"runtime"
	"time"
)

// Modes of the yield points.
const (
	Off     = iota // count only
	Virtual        // sleep on the virtual clock of the bubble
	Real           // yield the processor, sometimes sleep for real
)

// Plain variables on purpose: synchronised counters would hide data races of the code under test from the race
// detector. Set them only while no goroutine of the code under test runs.
var (
	mode     int
	prob     uint32 // of 1<<16
	maxDelay int64
	state    uint64
	steps    uint64
	limit    uint64
	onLimit  func()
	hits     [1 << 14]uint32
)

//go:norace
func next() uint64 {
	s := state + 0x9e3779b97f4a7c15
	state = s
	s = (s ^ (s >> 30)) * 0xbf58476d1ce4e5b9
	s = (s ^ (s >> 27)) * 0x94d049bb133111eb
	return s ^ (s >> 31)
}

//go:norace
func Configure(m int, probability float64, delay time.Duration, seed uint64) {
	mode, prob, maxDelay, state = m, uint32(probability*65536), int64(delay), seed
}

// Limit makes the n-th yield point passed from now on call f: a bound on the steps of the calls under way.
//
//go:norace
func Limit(n uint64, f func()) { steps, limit, onLimit = 0, n, f }

//go:norace
func Steps() uint64 { return steps }

//go:norace
func Intn(n int) int { return int(next() % uint64(n)) }

// P is a yield point.
//
//go:norace
func P(id int) {
	hits[id&(1<<14-1)]++
	steps++
	if limit != 0 && steps > limit {
		limit = 0
		onLimit()
	}
	switch mode {
	case Virtual:
		r := next()
		if uint32(r&0xffff) < prob {
			time.Sleep(time.Duration(1 + int64(r>>20)%maxDelay))
		}
	case Real:
		r := next()
		if uint32(r&0xffff) < prob {
			switch {
			case r>>16&15 == 0:
				time.Sleep(time.Duration(1 + int64(r>>20)%maxDelay))
			default:
				runtime.Gosched()
			}
		}
	}
}

// Delay is a yield point of the harness' own parts (the redis server), active in Virtual mode only.
func Delay() {
	if mode == Virtual {
		r := next()
		if uint32(r&0xffff) < prob {
			time.Sleep(time.Duration(1 + int64(r>>20)%maxDelay))
		}
	}
}

// Covered returns how many distinct yield points were passed and how often in all.
//
//go:norace
func Covered() (points int, total uint64) {
	for _, h := range hits {
		if h != 0 {
			points++
			total += uint64(h)
		}
	}
	return
}
