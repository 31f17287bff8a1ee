// Package vsync replaces package sync in the instrumented sources: its locks
// block on channels, so that they block durably in a synctest bubble, and
// choose the next owner at random.  Yield is a scheduling point: it sleeps for
// a short random virtual time.  Outside of a bubble (Enable not called) locks
// work as well and Yield does nothing.
package vsync

import (
	"sync"
	"sync/atomic"
	"time"
)

// aliases
type (
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
	Locker    = sync.Locker
)

// NewCond is sync.NewCond
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

var rngMutex sync.Mutex
var rngState uint64 = 88172645463325252
var level int32 // one yield in level sleeps, 0 for none
var maxSleep int32 = 1

// The short sleeps last, together, at most credit microseconds, plus one third of the time elapsed
var (
	creditMutex sync.Mutex
	credit      time.Duration
	creditAt    time.Time
)

const maxCredit = 3 * time.Millisecond

// take d from the credit, if there is enough
func take(d time.Duration) bool {
	creditMutex.Lock()
	defer creditMutex.Unlock()
	var now = time.Now()
	credit += now.Sub(creditAt) / 3
	creditAt = now
	if credit > maxCredit {
		credit = maxCredit
	}
	if credit < d {
		return false
	}
	credit -= d
	return true
}

// Enable yields: about one in lvl sleeps for at most max microseconds (never if 0).
func Enable(seed uint64, lvl int, max int) {
	rngMutex.Lock()
	rngState = seed*2685821657736338717 + 88172645463325252
	rngMutex.Unlock()
	atomic.StoreInt32(&maxSleep, int32(max))
	atomic.StoreInt32(&level, int32(lvl))
	creditMutex.Lock()
	credit, creditAt = maxCredit, time.Now()
	creditMutex.Unlock()
	Long(0, 1, 2)
}

var longMutex sync.Mutex
var countdown []int // long yields to come, in numbers of yields
var longSleep time.Duration

// Long makes n of the next h yields, chosen at random, sleep for up to max microseconds
func Long(n int, h int, max int) {
	longMutex.Lock()
	defer longMutex.Unlock()
	countdown = nil
	for ; n > 0; n-- {
		countdown = append(countdown, rnd(h))
	}
	longSleep = time.Duration(max) * time.Microsecond
}

func long() (d time.Duration) {
	longMutex.Lock()
	defer longMutex.Unlock()
	for i := 0; i < len(countdown); i++ {
		if countdown[i]--; countdown[i] < 0 {
			countdown = append(countdown[:i], countdown[i+1:]...)
			return longSleep - time.Duration(rnd(int(longSleep/2)))
		}
	}
	return 0
}

func rnd(n int) int {
	rngMutex.Lock()
	defer rngMutex.Unlock()
	rngState ^= rngState << 13
	rngState ^= rngState >> 7
	rngState ^= rngState << 17
	return int((rngState >> 11) % uint64(n))
}

// Yield is a scheduling point
func Yield() {
	var l = int(atomic.LoadInt32(&level))
	if d := long(); d > 0 {
		time.Sleep(d)
	} else if l > 0 && rnd(l) == 0 {
		if d = time.Duration(1+rnd(int(atomic.LoadInt32(&maxSleep)))) * time.Microsecond; take(d) {
			time.Sleep(d)
		}
	}
}

// Mutex is a mutual exclusion lock
type Mutex struct {
	mu      sync.Mutex
	locked  bool
	waiters []chan struct{}
}

// Lock m
func (m *Mutex) Lock() {
	Yield()
	m.mu.Lock()
	if !m.locked {
		m.locked = true
		m.mu.Unlock()
		return
	}
	var ch = make(chan struct{})
	m.waiters = append(m.waiters, ch)
	m.mu.Unlock()
	<-ch
}

// TryLock m
func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock m
func (m *Mutex) Unlock() {
	m.mu.Lock()
	if !m.locked {
		m.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	if n := len(m.waiters); n > 0 {
		var i = rnd(n)
		var ch = m.waiters[i]
		m.waiters = append(m.waiters[:i:i], m.waiters[i+1:]...)
		close(ch)
	} else {
		m.locked = false
	}
	m.mu.Unlock()
	Yield()
}

// RWMutex is a reader/writer mutual exclusion lock, waiting writers go before new readers
type RWMutex struct {
	mu      sync.Mutex
	readers int
	writer  bool
	rq, wq  []chan struct{}
}

// RLock for reading
func (m *RWMutex) RLock() {
	Yield()
	m.mu.Lock()
	if !m.writer && len(m.wq) == 0 {
		m.readers++
		m.mu.Unlock()
		return
	}
	var ch = make(chan struct{})
	m.rq = append(m.rq, ch)
	m.mu.Unlock()
	<-ch
}

// TryRLock for reading
func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || len(m.wq) > 0 {
		return false
	}
	m.readers++
	return true
}

// RUnlock after reading
func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.readers == 0 {
		m.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 && len(m.wq) > 0 {
		m.grantWriter()
	}
	m.mu.Unlock()
	Yield()
}

func (m *RWMutex) grantWriter() {
	var i = rnd(len(m.wq))
	var ch = m.wq[i]
	m.wq = append(m.wq[:i:i], m.wq[i+1:]...)
	m.writer = true
	close(ch)
}

// Lock for writing
func (m *RWMutex) Lock() {
	Yield()
	m.mu.Lock()
	if !m.writer && m.readers == 0 {
		m.writer = true
		m.mu.Unlock()
		return
	}
	var ch = make(chan struct{})
	m.wq = append(m.wq, ch)
	m.mu.Unlock()
	<-ch
}

// TryLock for writing
func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

// Unlock after writing
func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if !m.writer {
		m.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	if len(m.rq) > 0 {
		for _, ch := range m.rq {
			m.readers++
			close(ch)
		}
		m.rq = nil
	} else if len(m.wq) > 0 {
		m.grantWriter()
	}
	m.mu.Unlock()
	Yield()
}

// RLocker is a Locker of RLock and RUnlock
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once performs exactly one action
type Once struct {
	m    Mutex
	done uint32
}

// Do f once
func (o *Once) Do(f func()) {
	if atomic.LoadUint32(&o.done) == 0 {
		o.m.Lock()
		defer o.m.Unlock()
		if o.done == 0 {
			defer atomic.StoreUint32(&o.done, 1)
			f()
		}
	}
}

// OnceFunc calls f once
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
