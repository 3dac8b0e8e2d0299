// Package s01: graceful shutdown coordination.
//
//vsym:assume signals are delivered in the order they are sent
//vsym:outside more than 3 holders or 3 signals (many only in fixed orders); the process wide signal plumbing of the runtime
package s01

import (
	"context"
	"time"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/shutdown"
)

func isClosed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// H_Holds: completion is signalled only when nothing is held, and it is once
// everything is released.
//
//vsym:all race=1
//vsym:quick time=60
//vsym:thorough time=200
func H_Holds() {
	n := vsym.Bound("holders", 2, 3)
	held := 0
	var rel []shutdown.ReleaseFn
	for i := 0; i < n; i++ {
		rel = append(rel, shutdown.Hold())
		held++
	}
	begin := vsym.Choice("begin", 2) == 1
	if begin {
		shutdown.Begin()
	}
	done := shutdown.Done()
	late := vsym.Choice("late watcher", 2) == 1
	for i := 0; i < n; i++ {
		vsym.Yield()
		vsym.Assert(!isClosed(done), "shutdown is not complete while something is held")
		held--
		rel[i].Release()
	}
	<-done
	vsym.Assert(held == 0, "shutdown completes when everything is released")
	if late {
		<-shutdown.Done()
	}
	vsym.Assert(isClosed(shutdown.Started()) == begin, "completion does not start a shutdown by itself")
	vsym.Reach("end")
}

// H_HoldsConcurrent: the same with a goroutine per holder.
//
//vsym:all race=1
//vsym:quick time=60
//vsym:thorough time=300
func H_HoldsConcurrent() {
	n := vsym.Bound("holders", 2, 3)
	held := make([]bool, n)
	for i := 0; i < n; i++ {
		rel := shutdown.Hold()
		held[i] = true
		i := i
		go func() {
			vsym.Yield()
			held[i] = false
			rel()
		}()
	}
	<-shutdown.Done()
	for i := range held {
		vsym.Assert(!held[i], "shutdown completes only after every holder released")
	}
	vsym.Reach("end")
}

// H_Begin: starting is idempotent and concurrent starts are fine; the start
// channel closes with the first and the five second channel five seconds
// later, not earlier.
//
//vsym:all race=1 native=0
func H_Begin() {
	vsym.Assert(!isClosed(shutdown.Started()), "not started before anyone starts it")
	vsym.Assert(!isClosed(shutdown.Started5Sec()), "nor five seconds past its start")
	watch := shutdown.Started()
	t0 := vsym.ClockNow()
	done := make(chan bool, 2)
	n := 1 + vsym.Choice("starters", 2)
	for i := 0; i < n; i++ {
		go func() {
			shutdown.Begin()
			vsym.Assert(isClosed(shutdown.Started()), "started once Begin returns")
			vsym.Assert(isClosed(watch), "also for those that asked before")
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	wait := vsym.Choice("again", 2) == 1
	if wait {
		vsym.Advance(3 * time.Second)
		shutdown.Begin()
	}
	<-shutdown.Started5Sec()
	vsym.Assert(vsym.ClockNow()-t0 >= 5*time.Second, "the grace period lasts at least five seconds")
	vsym.Assert(vsym.ClockNow()-t0 < 6*time.Second, "and no longer, also when started again meanwhile")
	vsym.Quiesce()
	vsym.Reach("end")
}

// H_HoldAndWait: holds at once and returns only when the shutdown has started.
//
//vsym:all race=1
func H_HoldAndWait() {
	var started, returned, released bool
	out := make(chan shutdown.ReleaseFn, 1)
	entered := make(chan bool, 1)
	go func() {
		entered <- true
		r := shutdown.HoldAndWait()
		vsym.Assert(isClosed(shutdown.Started()), "waits for the shutdown to start")
		out <- r
	}()
	<-entered
	vsym.Quiesce()
	vsym.Assert(!returned && len(out) == 0, "does not return before the shutdown starts")
	done := shutdown.Done()
	vsym.Quiesce()
	vsym.Assert(!isClosed(done), "already holds while it waits")
	started = true
	shutdown.Begin()
	r := <-out
	vsym.Quiesce()
	vsym.Assert(started && !isClosed(done), "still holds until released")
	released = true
	r.Release()
	<-done
	vsym.Assert(released, "completes when released")
	vsym.Reach("end")
}

// H_Reuse: holds may come and go while others watch for completion.
//
//vsym:all race=1
//vsym:quick time=60
//vsym:thorough time=200
func H_Reuse() {
	r1 := shutdown.Hold()
	done := shutdown.Done()
	two := vsym.Choice("watchers", 2) == 1
	var done2 <-chan struct{}
	if two {
		done2 = shutdown.Done()
	}
	fin := make(chan bool, 1)
	go func() {
		r2 := shutdown.Hold()
		vsym.Yield()
		r2()
		fin <- true
	}()
	r1()
	r2 := shutdown.Hold()
	r2()
	<-fin
	<-done
	if two {
		<-done2
	}
	<-shutdown.Done()
	vsym.Reach("end")
}

// H_Signals: the first signal starts the shutdown, the second cancels the root
// context, the third exits; WaitForSignal returns when nothing is held.
//
//vsym:all race=1 native=0
//vsym:quick time=60 preempt=1
//vsym:thorough time=300 preempt=2
func H_Signals() {
	n := vsym.Choice("signals", 4)
	exits := 0
	vsym.OnExit(func(code int) {
		exits++
		vsym.Assert(code != 0, "a forced exit is not a success")
		vsym.Assert(n == 3, "only the third signal exits")
		vsym.Reach("exit")
		vsym.Done()
	})
	c, cancel := ctx.Background()
	rel := shutdown.Hold()
	ret := make(chan bool, 1)
	go func() {
		shutdown.WaitForSignal(c, cancel)
		ret <- true
	}()
	vsym.Quiesce()
	for i := 0; i < n; i++ {
		vsym.Assert(len(ret) == 0, "keeps waiting while something is held")
		vsym.Assert(isClosed(shutdown.Started()) == (i >= 1), "the first signal starts the shutdown")
		vsym.Assert((c.Err() != nil) == (i >= 2), "the second signal cancels the root context")
		vsym.Signal([]int{2, 15, 3}[vsym.Choice("sig", 3)])
		vsym.Quiesce()
	}
	vsym.Assert(n < 3, "the third signal exits")
	vsym.Assert(isClosed(shutdown.Started()) == (n >= 1), "the first signal starts the shutdown (2)")
	vsym.Assert((c.Err() != nil) == (n >= 2), "the second signal cancels the root context (2)")
	vsym.Assert(n < 2 || context.Cause(c) != nil, "with a cause")
	vsym.Assert(len(ret) == 0, "keeps waiting while something is held (2)")
	rel()
	<-ret
	vsym.Reach("returned")
}

// H_SignalsBurst: no signal is lost, also if they arrive at once.
//
//vsym:all race=1 native=0
//vsym:quick time=60 preempt=0
//vsym:thorough time=300 preempt=1
func H_SignalsBurst() {
	n := vsym.Choice("signals", 4)
	vsym.OnExit(func(code int) {
		vsym.Assert(n == 3, "only the third signal exits")
		vsym.Reach("exit")
		vsym.Done()
	})
	c, cancel := ctx.Background()
	rel := shutdown.Hold()
	ret := make(chan bool, 1)
	go func() {
		shutdown.WaitForSignal(c, cancel)
		ret <- true
	}()
	vsym.Quiesce()
	for i := 0; i < n; i++ {
		vsym.Signal([]int{2, 15, 3}[i])
	}
	vsym.Quiesce()
	vsym.Assert(n < 3, "the third signal exits")
	vsym.Assert(isClosed(shutdown.Started()) == (n >= 1), "the first signal starts the shutdown")
	vsym.Assert((c.Err() != nil) == (n >= 2), "the second signal cancels the root context")
	rel()
	<-ret
	vsym.Reach("returned")
}

// H_Idle: with nothing held the shutdown is complete at once, at any time, and
// what is not held can't be released.
//
//vsym:all race=1
func H_Idle() {
	vsym.Assert(isClosed(shutdown.Done()), "complete if nothing was ever held")
	if vsym.Choice("begin", 2) == 1 {
		shutdown.Begin()
	}
	vsym.Assert(isClosed(shutdown.Done()), "also once it has started")
	rel := shutdown.Hold()
	vsym.Assert(!isClosed(shutdown.Done()), "not while held")
	rel()
	vsym.Assert(isClosed(shutdown.Done()), "complete again")
	if vsym.Choice("twice", 2) == 1 {
		_, p := vsym.Panics(func() { rel() })
		vsym.Assert(p, "a hold can't be released more than once if there is no other")
		rel2 := shutdown.Hold()
		vsym.Assert(!isClosed(shutdown.Done()), "which does not affect those that follow")
		rel2()
	}
	vsym.Reach("end")
}

// H_Watch: asking for completion while holds come and go.
//
//vsym:all race=1
func H_Watch() {
	fin := make(chan bool, 1)
	go func() {
		rel := shutdown.Hold()
		vsym.Yield()
		rel()
		fin <- true
	}()
	<-shutdown.Done()
	<-fin
	vsym.Assert(isClosed(shutdown.Done()), "complete if nothing is held")
	vsym.Reach("end")
}

// H_SignalsIdle: WaitForSignal does not wait if nothing is held.
//
//vsym:all race=1 native=0
func H_SignalsIdle() {
	c, cancel := ctx.Background()
	shutdown.WaitForSignal(c, cancel)
	vsym.Assert(c.Err() == nil && !isClosed(shutdown.Started()), "and nothing is cancelled or started")
	vsym.Reach("end")
}

// H_Many: nor does it matter how many there are, or in which order they go.
//
//vsym:all native=4 preempt=0 timers=0
func H_Many() {
	n := []int{4, 17, 300}[vsym.Choice("n", 3)]
	order := vsym.Choice("order", 3)
	var rel []shutdown.ReleaseFn
	for i := 0; i < n; i++ {
		rel = append(rel, shutdown.Hold())
	}
	done := shutdown.Done()
	if vsym.Bool("begin") {
		shutdown.Begin()
	}
	for i := 0; i < n; i++ {
		vsym.Assert(!isClosed(done) && !isClosed(shutdown.Done()), "not before everything is released")
		switch order {
		case 0:
			rel[i].Release()
		case 1:
			rel[n-1-i].Release()
		default: // others come and go meanwhile
			h := shutdown.Hold()
			rel[i].Release()
			vsym.Assert(!isClosed(done), "not before everything is released")
			if i < n-1 {
				h.Release()
			} else {
				defer func() {
					h.Release()
					<-shutdown.Done()
				}()
			}
		}
	}
	if order < 2 {
		<-done
		<-shutdown.Done()
	}
	vsym.Reach("end")
}
