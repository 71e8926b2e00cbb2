// Package zzsync is package sync for threads run by zzsched.
package zzsync

import (
	"sync"
	"sync/atomic"

	"github.com/go-latex/latex/internal/zzsched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Map       = sync.Map
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) TryLock() bool { zzsched.S(); return m.m.TryLock() }

func (m *Mutex) Lock() {
	zzsched.S()
	for !m.m.TryLock() {
		if !zzsched.Block() {
			m.m.Lock()
			return
		}
	}
}

func (m *Mutex) Unlock() {
	zzsched.S()
	m.m.Unlock()
	zzsched.Wake()
	zzsched.S()
}

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) TryLock() bool  { zzsched.S(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { zzsched.S(); return m.m.TryRLock() }
func (m *RWMutex) Lock() {
	zzsched.S()
	for !m.m.TryLock() {
		if !zzsched.Block() {
			m.m.Lock()
			return
		}
	}
}
func (m *RWMutex) Unlock() { zzsched.S(); m.m.Unlock(); zzsched.Wake(); zzsched.S() }
func (m *RWMutex) RLock() {
	zzsched.S()
	for !m.m.TryRLock() {
		if !zzsched.Block() {
			m.m.RLock()
			return
		}
	}
}
func (m *RWMutex) RUnlock() { zzsched.S(); m.m.RUnlock(); zzsched.Wake(); zzsched.S() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	zzsched.S()
	if o.done.Load() == 0 {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

// Pool hands out what was put last, so that whatever is put back too early is
// reused at once.
type Pool struct {
	New func() any
	m   sync.Mutex
	l   []any
}

func (p *Pool) Get() any {
	zzsched.S()
	p.m.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	zzsched.S()
	if x == nil {
		return
	}
	p.m.Lock()
	p.l = append(p.l, x)
	p.m.Unlock()
	zzsched.S()
}

func OnceFunc(f func()) func() {
	var o Once
	var valid bool
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	once := OnceFunc(func() { r = f() })
	return func() T { once(); return r }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	once := OnceFunc(func() { a, b = f() })
	return func() (A, B) { once(); return a, b }
}
