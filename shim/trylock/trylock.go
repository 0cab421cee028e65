// Package trylock stands in for github.com/lk4d4/trylock (a sync.Mutex plus
// TryLock) under the scheduler: a failed TryLock gives up the processor, so that
// polling loops are explored as waiting.
package trylock

import sync "verif/vsync"

// Mutex is simple sync.Mutex + ability to try to Lock.
type Mutex struct {
	in sync.Mutex
}

func (m *Mutex) Lock()         { m.in.Lock() }
func (m *Mutex) Unlock()       { m.in.Unlock() }
func (m *Mutex) TryLock() bool { return m.in.TryLock() }
