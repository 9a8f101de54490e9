//go:build vreal

package vsync

import "sync"

type (
	RWMutex = sync.RWMutex
	Mutex   = sync.Mutex
	Once    = sync.Once
)
