package v

// Native counterpart of the interleaving mode. Real synchronisation operations are
// intercepted through hooks (see the overlay of package sync) and serialised by a
// scheduler goroutine that picks among the parked goroutines pseudo-randomly from a seed.

import (
	"math/rand"
	rand2 "math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"sync/atomic"
	"testing/synctest"
)

var (
	schedOn   bool
	schedMu   spin
	active    bool
	parked    []*parkedG
	quiescers []chan struct{}
	arrive    chan struct{}
	rng       *rand.Rand
)

type parkedG struct {
	ch      chan struct{}
	enabled func() bool
}

func init() {
	if s := os.Getenv("VERIF_SCHED"); s != "" && os.Getenv("VERIF_RACE") == "" {
		n, _ := strconv.Atoi(s)
		schedOn = true
		rng = rand.New(rand.NewSource(int64(n)))
	}
}

func schedActive() bool { return schedOn && active }

func startSched(p int) {
	if active {
		return
	}
	arrive = make(chan struct{}, 1024)
	active = true
	go schedLoop()
}

func stopSched() {
	if !active {
		return
	}
	schedMu.Lock()
	active = false
	for _, p := range parked {
		close(p.ch)
	}
	parked = nil
	schedMu.Unlock()
}

func schedLoop() {
	for {
		synctest.Wait()
		schedMu.Lock()
		var en []int
		for i, p := range parked {
			if p.enabled == nil || p.enabled() {
				en = append(en, i)
			}
		}
		if len(en) == 0 {
			if len(quiescers) > 0 {
				q := quiescers[0]
				quiescers = quiescers[1:]
				schedMu.Unlock()
				close(q)
				continue
			}
			schedMu.Unlock()
			<-arrive
			continue
		}
		k := en[rng.Intn(len(en))]
		p := parked[k]
		parked = append(parked[:k], parked[k+1:]...)
		schedMu.Unlock()
		close(p.ch)
	}
}

// SchedPoint parks the goroutine until the scheduler picks it.
func SchedPoint() { SchedPark(nil) }

// SchedPark parks until the scheduler picks it while enabled holds.
func SchedPark(enabled func() bool) {
	if !schedActive() {
		lockWait(enabled)
		return
	}
	p := &parkedG{ch: make(chan struct{}), enabled: enabled}
	schedMu.Lock()
	parked = append(parked, p)
	schedMu.Unlock()
	select {
	case arrive <- struct{}{}:
	default:
	}
	<-p.ch
}

func schedWait() {
	c := make(chan struct{})
	schedMu.Lock()
	quiescers = append(quiescers, c)
	schedMu.Unlock()
	select {
	case arrive <- struct{}{}:
	default:
	}
	<-c
}

// spin is a lock that is invisible to the synchronisation hooks.
type spin struct{ v int32 }

func (s *spin) Lock() {
	for !atomic.CompareAndSwapInt32(&s.v, 0, 1) {
		runtime.Gosched()
	}
}
func (s *spin) Unlock() { atomic.StoreInt32(&s.v, 0) }

// Outside the interleaving mode a contended lock is awaited on a channel, so that virtual time
// goes on (a goroutine blocked on a mutex keeps it from advancing).
var (
	lockMu   spin
	lockFree chan struct{}
)

func lockWait(enabled func() bool) {
	if enabled == nil {
		return
	}
	for {
		lockMu.Lock()
		if enabled() {
			lockMu.Unlock()
			return
		}
		if lockFree == nil {
			lockFree = make(chan struct{})
		}
		c := lockFree
		lockMu.Unlock()
		<-c
	}
}

// Unlocked is called after a lock was released.
func Unlocked() {
	lockMu.Lock()
	if lockFree != nil {
		close(lockFree)
		lockFree = nil
	}
	lockMu.Unlock()
}

// Delay lets other goroutines run for a while, without synchronising with them. It varies the
// schedule of race detector runs.
func Delay(func() bool) {
	n := 0
	switch r := rand2.Uint32() & 15; {
	case r < 8:
	case r < 12:
		n = 3
	case r < 15:
		n = 40
	default:
		n = 400
	}
	for ; n > 0; n-- {
		runtime.Gosched()
	}
}
