package simrt

import (
	"fmt"
	"hash/maphash"
	"iter"
	"sort"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// ---- Pool ----

const poolCap = 64

// PoolMode is drawn per run by the scenario: 0 = always reuse the most recently
// released object, 1 = any pooled object or a fresh one with equal chance,
// 2 = never reuse.
var PoolMode uint32

// Pool counters, read by the harness after a run.
var PoolHits, PoolMisses, PoolPurges int64

var (
	pools  [64]*Pool
	nPools int
)

// Pool replaces sync.Pool. The simulator decides what Get returns.
type Pool struct {
	New   func() any
	items [poolCap]any
	toks  [poolCap]*byte
	n     int
	reg   bool
}

//go:norace
func (p *Pool) register() {
	for i := 0; i < nPools; i++ {
		if pools[i] == p {
			return
		}
	}
	if nPools < len(pools) {
		pools[nPools] = p
		nPools++
	}
}

//go:norace
func (p *Pool) Get() any {
	Y(1 << 20)
	p.register()
	if p.n > 0 && PoolMode != 2 {
		k := 0
		if PoolMode == 1 {
			k = int(Draw(SPool, uint32(p.n+1)))
		}
		if k < p.n {
			i := p.n - 1 - k
			it, tok := p.items[i], p.toks[i]
			for j := i; j+1 < p.n; j++ {
				p.items[j], p.toks[j] = p.items[j+1], p.toks[j+1]
			}
			p.n--
			p.items[p.n], p.toks[p.n] = nil, nil
			PoolHits++
			raceAcquire(unsafe.Pointer(tok))
			return it
		}
	}
	PoolMisses++
	if p.New == nil {
		return nil
	}
	return p.New()
}

//go:norace
func (p *Pool) Put(x any) {
	Y(1<<20 + 1)
	if x == nil {
		return
	}
	p.register()
	if p.n == poolCap {
		return
	}
	tok := new(byte)
	raceReleaseMerge(unsafe.Pointer(tok))
	p.items[p.n], p.toks[p.n] = x, tok
	p.n++
}

// PurgePools drops every pooled object, as a garbage collection under memory
// pressure does.
//
//go:norace
func PurgePools() {
	for i := 0; i < nPools; i++ {
		p := pools[i]
		for j := 0; j < p.n; j++ {
			p.items[j], p.toks[j] = nil, nil
		}
		p.n = 0
	}
	PoolPurges++
}

//go:norace
func SetPoolMode(m uint32) { PoolMode = m }

// ---- Mutex and friends ----

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	Y(1<<20 + 2)
	for !m.mu.TryLock() {
		block()
	}
	progress()
}
func (m *Mutex) TryLock() bool { Y(1<<20 + 3); return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); progress(); Y(1<<20 + 4) }

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	Y(1<<20 + 5)
	for !m.mu.TryLock() {
		block()
	}
	progress()
}
func (m *RWMutex) RLock() {
	Y(1<<20 + 6)
	for !m.mu.TryRLock() {
		block()
	}
	progress()
}
func (m *RWMutex) TryLock() bool        { Y(1<<20 + 7); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool       { Y(1<<20 + 8); return m.mu.TryRLock() }
func (m *RWMutex) Unlock()              { m.mu.Unlock(); progress(); Y(1<<20 + 9) }
func (m *RWMutex) RUnlock()             { m.mu.RUnlock(); progress(); Y(1<<20 + 10) }
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	Y(1<<20 + 11)
	if o.done.Load() == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	var ok bool
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// ---- Map ----

type mapEntry struct {
	key, val any
	tok      *byte
	dead     bool
	next     *mapEntry
}

// Map replaces sync.Map: same semantics, with exactly the happens-before edges
// the memory model grants (a read observes the write of the value it returns).
type Map struct {
	tab   []*mapEntry
	n     int
	order []*mapEntry
}

var mapSeed = maphash.MakeSeed()

//go:norace
func (m *Map) find(key any) *mapEntry {
	if len(m.tab) == 0 {
		return nil
	}
	h := maphash.Comparable(mapSeed, key) % uint64(len(m.tab))
	for e := m.tab[h]; e != nil; e = e.next {
		if e.key == key {
			return e
		}
	}
	return nil
}

//go:norace
func (m *Map) insert(key any) *mapEntry {
	if m.n >= len(m.tab)*2 {
		nt := make([]*mapEntry, len(m.tab)*2+16)
		for i := range m.tab {
			for e := m.tab[i]; e != nil; {
				nx := e.next
				h := maphash.Comparable(mapSeed, e.key) % uint64(len(nt))
				e.next = nt[h]
				nt[h] = e
				e = nx
			}
		}
		m.tab = nt
	}
	if len(m.order) == cap(m.order) {
		no := make([]*mapEntry, len(m.order), 2*cap(m.order)+16)
		for i := range m.order {
			no[i] = m.order[i]
		}
		m.order = no
	}
	e := &mapEntry{key: key, dead: true}
	h := maphash.Comparable(mapSeed, key) % uint64(len(m.tab))
	e.next = m.tab[h]
	m.tab[h] = e
	m.order = m.order[:len(m.order)+1]
	m.order[len(m.order)-1] = e
	m.n++
	return e
}

//go:norace
func (m *Map) set(e *mapEntry, val any) {
	e.tok = new(byte)
	raceReleaseMerge(unsafe.Pointer(e.tok))
	e.val, e.dead = val, false
}

//go:norace
func (m *Map) Load(key any) (any, bool) {
	Y(1<<20 + 20)
	e := m.find(key)
	if e == nil || e.dead {
		return nil, false
	}
	raceAcquire(unsafe.Pointer(e.tok))
	return e.val, true
}

//go:norace
func (m *Map) Store(key, val any) {
	Y(1<<20 + 21)
	e := m.find(key)
	if e == nil {
		e = m.insert(key)
	}
	m.set(e, val)
}

//go:norace
func (m *Map) LoadOrStore(key, val any) (any, bool) {
	Y(1<<20 + 22)
	e := m.find(key)
	if e != nil && !e.dead {
		raceAcquire(unsafe.Pointer(e.tok))
		return e.val, true
	}
	if e == nil {
		e = m.insert(key)
	}
	m.set(e, val)
	return val, false
}

//go:norace
func (m *Map) LoadAndDelete(key any) (any, bool) {
	Y(1<<20 + 23)
	e := m.find(key)
	if e == nil || e.dead {
		return nil, false
	}
	raceAcquire(unsafe.Pointer(e.tok))
	v := e.val
	e.dead, e.val = true, nil
	return v, true
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

//go:norace
func (m *Map) Swap(key, val any) (any, bool) {
	Y(1<<20 + 24)
	e := m.find(key)
	if e == nil {
		e = m.insert(key)
	}
	var old any
	ok := !e.dead
	if ok {
		raceAcquire(unsafe.Pointer(e.tok))
		old = e.val
	}
	m.set(e, val)
	return old, ok
}

//go:norace
func (m *Map) CompareAndSwap(key, old, new any) bool {
	Y(1<<20 + 25)
	e := m.find(key)
	if e == nil || e.dead || e.val != old {
		return false
	}
	raceAcquire(unsafe.Pointer(e.tok))
	m.set(e, new)
	return true
}

//go:norace
func (m *Map) CompareAndDelete(key, old any) bool {
	Y(1<<20 + 26)
	e := m.find(key)
	if e == nil || e.dead || e.val != old {
		return false
	}
	raceAcquire(unsafe.Pointer(e.tok))
	e.dead, e.val = true, nil
	return true
}

//go:norace
func (m *Map) Range(f func(key, val any) bool) {
	Y(1<<20 + 27)
	for i := 0; i < len(m.order); i++ {
		e := m.order[i]
		if e.dead {
			continue
		}
		raceAcquire(unsafe.Pointer(e.tok))
		if !f(e.key, e.val) {
			return
		}
	}
}

//go:norace
func (m *Map) Clear() {
	Y(1<<20 + 28)
	m.tab, m.order, m.n = nil, nil, 0
}

// ---- map iteration ----

// RangeMap iterates over m in an order drawn by the simulator.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		type kn struct {
			k K
			n string
		}
		ks := make([]kn, 0, len(m))
		for k := range m {
			ks = append(ks, kn{k, fmt.Sprintf("%v", k)})
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].n < ks[j].n })
		for len(ks) > 0 {
			i := int(Draw(SMap, uint32(len(ks))))
			k := ks[i].k
			ks = append(ks[:i], ks[i+1:]...)
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// ---- clock ----

var simNow = time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() time.Time                  { return simNow }
func SetNow(t time.Time)              { simNow = t }
func Since(t time.Time) time.Duration { return simNow.Sub(t) }
