// Package simsync stands in for package sync in generated code, so that waiting is known to the scheduler.
package simsync

import (
	"simrt"
	"sync"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	simrt.Y(-3)
	for m.locked {
		simrt.Wait()
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	simrt.Y(-3)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	simrt.Y(-3)
}

type RWMutex struct {
	writer  bool
	readers int
}

func (m *RWMutex) Lock() {
	simrt.Y(-3)
	for m.writer || m.readers > 0 {
		simrt.Wait()
	}
	m.writer = true
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	simrt.Y(-3)
}

func (m *RWMutex) RLock() {
	simrt.Y(-3)
	for m.writer {
		simrt.Wait()
	}
	m.readers++
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	simrt.Y(-3)
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	return func() { once.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var once Once
	var value T
	return func() T {
		once.Do(func() { value = f() })
		return value
	}
}

// Pool hands out the last value that was put into it.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	simrt.Y(-3)
	if n := len(p.items); n > 0 {
		item := p.items[n-1]
		p.items = p.items[:n-1]
		return item
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(item any) {
	p.items = append(p.items, item)
	simrt.Y(-3)
}

type WaitGroup struct{ n int }

func (g *WaitGroup) Add(n int) { g.n += n }
func (g *WaitGroup) Done()     { g.n--; simrt.Y(-3) }
func (g *WaitGroup) Wait() {
	for g.n > 0 {
		simrt.Wait()
	}
}
