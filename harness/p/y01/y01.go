// Package y01: mutex with timed TryLock.
//
//vsym:outside more than 3 goroutines; fairness between waiters
package y01

import (
	"time"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/utils/sync"
)

// H_TryLock: concurrent Lock, TryLock and Unlock in every interleaving, with
// the timeout free to fire at any point.
//
//vsym:all race=1
//vsym:quick time=90
//vsym:thorough time=400
func H_TryLock() {
	var m sync.Mutex
	n := vsym.Bound("goroutines", 2, 3)
	inside, got := 0, 0
	done := make(chan bool, n)
	crit := func() {
		inside++
		vsym.Assert(inside == 1, "one holder at a time")
		vsym.Yield()
		vsym.Assert(inside == 1, "one holder at a time (2)")
		inside--
		got++
		m.Unlock()
	}
	block := vsym.Choice("first takes it with Lock", 2) == 1
	for g := 0; g < n; g++ {
		g := g
		go func() {
			if g == 0 && block {
				m.Lock()
				crit()
			} else if m.TryLock(10 * time.Millisecond) {
				crit()
			}
			done <- true
		}()
	}
	for g := 0; g < n; g++ {
		<-done
	}
	// the mutex is free now, whatever timed out
	m.Lock()
	vsym.Assert(inside == 0, "one holder at a time (3)")
	m.Unlock()
	if got == n {
		vsym.Reach("both")
	} else {
		vsym.Reach("timeout")
	}
}

// H_Held: while another goroutine holds the mutex TryLock gives up after its
// timeout, returns false and leaves no lock behind.
//
//vsym:all race=1
func H_Held() {
	var m sync.Mutex
	m.Lock()
	d := time.Duration(vsym.Choice("ms", 2)) * 5 * time.Millisecond
	t0 := vsym.ClockNow()
	vsym.Assert(!m.TryLock(d), "TryLock fails while the mutex is held")
	vsym.Assert(vsym.ClockNow()-t0 >= d, "TryLock waits for its timeout")
	if vsym.Choice("again", 2) == 1 {
		vsym.Assert(!m.TryLock(d), "TryLock fails while the mutex is held (second call)")
	}
	m.Unlock()
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nobody is left waiting after a timeout once the mutex is free")
	m.Lock() // would block forever if a timed out call had kept it
	m.Unlock()
	vsym.Reach("end")
}

// H_Free: the mutex is free: TryLock may only fail by its timeout; when it
// succeeds the mutex is held until Unlock.
//
//vsym:all race=1
func H_Free() {
	var m sync.Mutex
	if m.TryLock(time.Hour) {
		held := true
		other := make(chan bool, 1)
		go func() {
			m.Lock()
			vsym.Assert(!held, "a successful TryLock holds the mutex until Unlock")
			other <- true
			m.Unlock()
		}()
		vsym.Quiesce()
		held = false
		m.Unlock()
		<-other
		vsym.Reach("got")
	} else {
		vsym.Assert(vsym.ClockNow() >= time.Hour, "TryLock on a free mutex gives up only after its timeout")
		vsym.Reach("timeout")
	}
	vsym.Reach("end")
}

// H_Released: the mutex is released while TryLock waits.
//
//vsym:all race=1
func H_Released() {
	var m sync.Mutex
	m.Lock()
	held := true
	go func() {
		held = false
		m.Unlock()
	}()
	if m.TryLock(50 * time.Millisecond) {
		vsym.Assert(!held, "TryLock succeeds only once the holder has released")
		m.Unlock()
		vsym.Reach("got")
	} else {
		vsym.Reach("timeout")
	}
	vsym.Quiesce()
	m.Lock()
	m.Unlock()
	vsym.Reach("end")
}

// H_Prompt: TryLock does not give up before it has to: if whoever can go on
// does so before its timeout, and the mutex becomes free, it gets it.
//
//vsym:all race=1 lazy=1
func H_Prompt() {
	var m sync.Mutex
	n := vsym.Choice("others", 3)
	done := make(chan bool, 2)
	for i := 0; i < n; i++ {
		i := i
		go func() {
			if i == 0 {
				m.Lock()
			} else if !m.TryLock(time.Hour) {
				vsym.Fail("the mutex becomes free (other)")
			}
			m.Unlock()
			done <- true
		}()
	}
	vsym.Assert(m.TryLock(time.Hour), "the mutex becomes free")
	m.Unlock()
	for i := 0; i < n; i++ {
		<-done
	}
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nobody is left waiting")
	vsym.Reach("end")
}

// H_Metrics: MetricsMutex is a mutex too (at most two preemptions, most of
// the code between is logging).
//
//vsym:all race=1
//vsym:quick preempt=2 time=40
//vsym:thorough time=120
func H_Metrics() {
	var m sync.MetricsMutex
	inside := 0
	done := make(chan bool, 2)
	for g := 0; g < 2; g++ {
		go func() {
			m.Lock()
			inside++
			vsym.Assert(inside == 1, "one holder of the metrics mutex at a time")
			vsym.Yield()
			vsym.Assert(inside == 1, "one holder of the metrics mutex at a time (2)")
			inside--
			m.Unlock()
			done <- true
		}()
	}
	<-done
	<-done
	vsym.Reach("end")
}
