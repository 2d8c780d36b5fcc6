// Package vsync replaces the locks of package sync in the code under test while
// it runs on a virtual clock. A goroutine that waits for a sync.Mutex keeps the
// clock of a testing/synctest bubble from advancing, one that waits for a
// channel does not: these locks wait on channels, so that locks that are held
// over a sleep behave like they do in real time. They have the semantics of
// package sync (a waiting writer keeps new readers out, unlocking an unlocked
// lock is fatal) and give the race detector the same happens-before edges.
package vsync

import (
	"sync"
	"sync/atomic"
	"time"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

// A perturbation lets other goroutines run after a lock is taken: some of the
// locks are kept for some ms before what is done with them. It is only for code
// in a bubble.
var (
	perturbMu sync.Mutex
	share     int // of 16
	random    uint64
)

// Perturb sets how many of 16 locks are kept, and how they are chosen.
//
//go:norace
func Perturb(of16 int, seed uint64) {
	raceDisable()
	perturbMu.Lock()
	share, random = of16, seed
	perturbMu.Unlock()
	raceEnable()
}

//go:norace
func dwell() {
	d := time.Duration(0)
	raceDisable()
	perturbMu.Lock()
	if share > 0 {
		random = random*6364136223846793005 + 1442695040888963407
		if int(random>>33)%16 < share {
			d = time.Duration(1+(random>>40)%3000) * time.Microsecond
		}
	}
	perturbMu.Unlock()
	raceEnable()
	if d > 0 {
		time.Sleep(d)
	}
}

// epoch is the number of the bubble. The goroutines of a bubble that has ended
// stand still for ever, and so would everybody who waits for a lock that one of
// them has: a lock that outlives its bubble (a variable of a package) is free
// for the next one.
var epoch atomic.Uint64

// NewBubble says that the bubbles before have ended.
func NewBubble() { epoch.Add(1) }

// here is the number of the bubble, or 0 in real time. The clock of a bubble
// starts in the year 2000.
//
//go:norace
func here() uint64 {
	if time.Now().Unix() < 1300000000 {
		return epoch.Load()
	}
	return 0
}

type waiter struct {
	read  bool
	ready chan struct{}
	next  *waiter
}

// state is the queue behind both kinds of locks. The race detector sees neither
// its fields nor its mutex, only the channel that hands over the lock: that is
// an edge real locks have too.
type state struct {
	mu      sync.Mutex
	epoch   uint64 // of those who have it
	writer  bool
	readers int
	first   *waiter
	last    *waiter
}

// renew frees a lock that a bubble has that has ended.
//
//go:norace
func (s *state) renew() {
	if s.epoch != 0 && s.epoch != epoch.Load() {
		s.writer, s.readers, s.first, s.last = false, 0, nil, nil
	}
	if !s.writer && s.readers == 0 && s.first == nil {
		s.epoch = here()
	}
}

//go:norace
func (s *state) lock(read, try bool) bool {
	w := &waiter{read: read, ready: make(chan struct{})}

	raceDisable()
	s.mu.Lock()
	s.renew()
	free := !s.writer && s.first == nil
	got := false
	if read && free {
		s.readers++
		got = true
	} else if !read && free && s.readers == 0 {
		s.writer = true
		got = true
	} else if !try {
		if s.last == nil {
			s.first = w
		} else {
			s.last.next = w
		}
		s.last = w
	}
	s.mu.Unlock()
	raceEnable()

	if got || try {
		return got
	}
	<-w.ready
	return true
}

//go:norace
func (s *state) unlock(read bool) {
	raceDisable()
	s.mu.Lock()
	bad := read && s.readers == 0 || !read && !s.writer
	var wake *waiter
	if !bad {
		if read {
			s.readers--
		} else {
			s.writer = false
			// Like sync.RWMutex: all readers that waited for the writer go first
			first := s.first
			s.first, s.last = nil, nil
			for w := first; w != nil; {
				next := w.next
				if w.read {
					s.readers++
					w.next = wake
					wake = w
				} else {
					w.next = nil
					if s.last == nil {
						s.first = w
					} else {
						s.last.next = w
					}
					s.last = w
				}
				w = next
			}
		}
		if s.readers == 0 && !s.writer && s.first != nil {
			w := s.first
			s.first = w.next
			if s.first == nil {
				s.last = nil
			}
			s.writer = true
			w.next = nil
			wake = w
		}
	}
	s.mu.Unlock()
	raceEnable()

	if bad {
		panic("sync: unlock of unlocked lock")
	}
	for wake != nil {
		next := wake.next
		close(wake.ready)
		wake = next
	}
}

// Mutex is a sync.Mutex
type Mutex struct {
	s state
}

func (m *Mutex) Lock() {
	m.s.lock(false, false)
	raceAcquire(&m.s)
	dwell()
}

func (m *Mutex) TryLock() bool {
	if !m.s.lock(false, true) {
		return false
	}
	raceAcquire(&m.s)
	return true
}

func (m *Mutex) Unlock() {
	raceRelease(&m.s)
	m.s.unlock(false)
}

// RWMutex is a sync.RWMutex
type RWMutex struct {
	s       state
	readSem byte // what readers wait for
	wrteSem byte // what writers wait for
}

func (m *RWMutex) Lock() {
	m.s.lock(false, false)
	raceAcquireB(&m.readSem)
	raceAcquireB(&m.wrteSem)
	dwell()
}

func (m *RWMutex) TryLock() bool {
	if !m.s.lock(false, true) {
		return false
	}
	raceAcquireB(&m.readSem)
	raceAcquireB(&m.wrteSem)
	return true
}

func (m *RWMutex) Unlock() {
	raceReleaseB(&m.readSem)
	m.s.unlock(false)
}

func (m *RWMutex) RLock() {
	m.s.lock(true, false)
	raceAcquireB(&m.readSem)
	dwell()
}

func (m *RWMutex) TryRLock() bool {
	if !m.s.lock(true, true) {
		return false
	}
	raceAcquireB(&m.readSem)
	return true
}

func (m *RWMutex) RUnlock() {
	raceReleaseMergeB(&m.wrteSem)
	m.s.unlock(true)
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a sync.Once
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
