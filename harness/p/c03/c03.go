// Package c03: the request cache (single flight with time to live).
//
//vsym:assume the monotonic clock does not go backwards
//vsym:outside more than 3 concurrent callers, histories longer than stated, evictions while a load is running
package c03

import (
	"errors"
	"time"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils/caches"
)

var errLoad = errors.New("load")

// H_History: sequential requests with symbolic time to live, failures and
// elapsed time.
//
//vsym:quick time=60
//vsym:thorough time=400
func H_History() {
	c := ctx.TODO()
	ops := vsym.Bound("ops", 3, 4)
	const unit = 20 * time.Millisecond
	loads := 0
	var next int
	var ttl time.Duration
	var fail error
	rc := caches.NewRequestLRU(c, 2, func(_ ctx.C, k int) (int, time.Duration, error) {
		loads++
		next = vsym.Int("value", 0, 100)
		// odd multiples, so that nothing expires at the very instant of a request
		ttl = time.Duration(2*vsym.Choice("ttl", 4)-1) * unit
		fail = nil
		if vsym.Choice("fail", 2) == 1 {
			fail = errLoad
		}
		return next, ttl, fail
	})
	type known struct {
		v      int
		err    error
		expire time.Duration
		ok     bool
	}
	var m [2]known
	now := time.Duration(0)
	for i := 0; i < ops; i++ {
		d := time.Duration(vsym.Choice("elapsed", 3)) * 2 * unit
		vsym.Advance(d)
		now += d
		k := 0
		if i > 0 { // the two keys are interchangeable
			k = vsym.Choice("key", 2)
		}
		if vsym.Choice("invalidate", 2) == 1 {
			rc.Invalidate(c, k)
			m[k].ok = false
			continue
		}
		n := loads
		v, hm, err := rc.Request(c, k)
		if m[k].ok && now < m[k].expire {
			vsym.Assert(loads == n, "a value that has not expired is not loaded again")
			vsym.Assert(hm == caches.HIT, "a value that has not expired is a hit")
			vsym.Assert(v == m[k].v && err == m[k].err, "a hit returns the result of the last load, also when it was an error")
			vsym.Reach("hit")
		} else {
			vsym.Assert(loads == n+1, "an absent or expired value is loaded once")
			vsym.Assert(v == next && err == fail, "the result of the load is returned")
			if fail != nil {
				vsym.Assert(hm == caches.ERR, "a failed load is reported as such")
			} else {
				vsym.Assert(hm == caches.MISS, "a load is reported as a miss")
			}
			m[k] = known{next, fail, now + ttl, ttl > 0}
		}
	}
	vsym.Reach("end")
}

// H_Expiry: at the nanosecond: a result is served only up to its time to live.
//
//vsym:all native=0
func H_Expiry() {
	c := ctx.TODO()
	ttl := time.Duration(vsym.Int64("ttl", -1000, 1000000))
	wait := time.Duration(vsym.Int64("wait", 0, 2000000))
	slow := time.Duration(vsym.Choice("load", 3)) * 700000 // as long as a load takes
	loads := 0
	rc := caches.NewRequestLRU(c, 2, func(_ ctx.C, k int) (int, time.Duration, error) {
		loads++
		vsym.Advance(slow)
		return loads, ttl, nil
	})
	v, _, _ := rc.Request(c, 1)
	vsym.Assert(v == 1, "first load")
	vsym.Advance(wait)
	v, hm, _ := rc.Request(c, 1)
	if wait+20000 < ttl { // reading the clock takes a few (virtual) nanoseconds
		vsym.Assert(v == 1 && hm == caches.HIT, "served until the time to live has passed")
	}
	if wait > ttl || ttl <= 0 {
		vsym.Assert(v == 2 && hm == caches.MISS, "never served after the time to live, nor with none")
	}
	vsym.Reach("end")
}

// H_SingleFlight: concurrent requests for the same and for different keys.
//
//vsym:all race=1
//vsym:quick time=60
//vsym:thorough time=300
func H_SingleFlight() {
	c := ctx.TODO()
	n := vsym.Bound("callers", 2, 3)
	var loads, running [2]int
	fail := vsym.Choice("fail", 2) == 1
	rc := caches.NewRequestLRU(c, 2, func(_ ctx.C, k int) (int, time.Duration, error) {
		loads[k]++
		running[k]++
		vsym.Yield()
		vsym.Assert(running[k] == 1, "a key is loaded by one caller at a time")
		running[k]--
		if fail {
			return 0, time.Hour, errLoad
		}
		return 10*k + loads[k], time.Hour, nil
	})
	done := make(chan bool, n)
	for g := 0; g < n; g++ {
		k := 0
		if g == n-1 {
			k = vsym.Choice("key", 2)
		}
		go func() {
			v, hm, err := rc.Request(c, k)
			if fail {
				vsym.Assert(err == errLoad, "every caller gets the error of the load")
			} else {
				vsym.Assert(err == nil && v == 10*k+1, "every caller gets the result of the one load of its key")
				vsym.Assert(hm == caches.HIT || hm == caches.MISS, "hit or miss")
			}
			done <- true
		}()
	}
	for g := 0; g < n; g++ {
		<-done
	}
	vsym.Assert(loads[0] <= 1 && loads[1] <= 1, "concurrent requests of a key share one load")
	vsym.Reach("end")
}

// H_Independent: a load of one key in progress does not delay another key.
//
//vsym:all race=1
func H_Independent() {
	c := ctx.TODO()
	gate := make(chan bool)
	inside := make(chan bool)
	rc := caches.NewRequestLRU(c, 4, func(_ ctx.C, k int) (int, time.Duration, error) {
		if k == 0 {
			inside <- true
			<-gate
		}
		return k, time.Hour, nil
	})
	done := make(chan int)
	go func() {
		v, _, _ := rc.Request(c, 0)
		done <- v
	}()
	<-inside
	v, _, err := rc.Request(c, 1)
	vsym.Assert(v == 1 && err == nil, "another key is served while a load is in progress")
	if vsym.Choice("invalidate", 2) == 1 {
		rc.Invalidate(c, 0)
	}
	close(gate)
	vsym.Assert(<-done == 0, "the load in progress completes")
	vsym.Reach("end")
}

// H_InvalidateInFlight: what a load started before an invalidation produced is
// not served to a request made after it.
//
//vsym:all race=1
func H_InvalidateInFlight() {
	c := ctx.TODO()
	gate := make(chan bool, 1)
	inside := make(chan bool, 2)
	loads := 0
	rc := caches.NewRequestLRU(c, 4, func(_ ctx.C, k int) (int, time.Duration, error) {
		loads++
		n := loads
		if n == 1 {
			inside <- true
			<-gate
		}
		return n, time.Hour, nil
	})
	done := make(chan int, 1)
	go func() {
		v, _, _ := rc.Request(c, 0)
		done <- v
	}()
	<-inside
	rc.Invalidate(c, 0)
	gate <- true
	v, hm, err := rc.Request(c, 0)
	vsym.Assert(v == 2 && hm == caches.MISS && err == nil, "a request made after an invalidation is loaded anew")
	vsym.Assert(<-done == 1, "the earlier caller gets its own load")
	v, hm, _ = rc.Request(c, 0)
	vsym.Assert(v == 2 && hm == caches.HIT, "and the new result is the one retained")
	vsym.Reach("end")
}

// H_Coarse: with no time to live a result is never served again, even if the
// clock has not moved.
//
//vsym:all native=0
func H_Coarse() {
	vsym.SymClock(10)
	c := ctx.TODO()
	ttl := time.Duration(-vsym.Choice("ttl", 3))
	first := vsym.Choice("first", 2) == 1
	loads := 0
	rc := caches.NewRequestLRU(c, 2, func(_ ctx.C, k int) (int, time.Duration, error) {
		loads++
		if first && loads == 1 {
			return loads, 5, nil
		}
		return loads, ttl, nil
	})
	for i := 1; i <= 3; i++ {
		n := loads
		v, _, err := rc.Request(c, 1)
		vsym.Assert(err == nil && v == loads, "the result of the last load")
		if !first || n > 1 {
			vsym.Assert(loads == n+1, "loaded each time")
		}
	}
	vsym.Reach("end")
}

// H_Many: as many results are kept as the size says.
//
//vsym:all native=4 timers=0
func H_Many() {
	c := ctx.TODO()
	size := []int{1, 3, 70, 300}[vsym.Choice("size", 4)]
	loads := make([]int, size+1)
	base := vsym.Int("base", -9, 9)
	cache := caches.NewRequestLRU(c, size, func(_ ctx.C, k int) (int, time.Duration, error) {
		loads[k]++
		if k%5 == 4 {
			return base + k, time.Hour, errLoad
		}
		return base + k, time.Hour, nil
	})
	check := func(k int, hm caches.HitMiss, times int) {
		v, got, err := cache.Request(c, k)
		vsym.Assert(v == base+k && (err == errLoad) == (k%5 == 4), "each key has its result")
		vsym.Assert(got == hm || err != nil && hm == caches.MISS && got == caches.ERR, "loaded or not")
		vsym.Assert(loads[k] == times, "as often as it has to be")
	}
	for k := 0; k < size; k++ {
		check(k, caches.MISS, 1)
	}
	for k := 0; k < size; k++ {
		check(k, caches.HIT, 1)
	}
	check(size, caches.MISS, 1) // the oldest has to go
	for k := 1; k <= size; k++ {
		check(k, caches.HIT, 1)
	}
	check(0, caches.MISS, 2)
	vsym.Reach("end")
}

// H_Panic: a loader that panics takes its caller with it, but neither the cache
// nor what it knows.
func H_Panic() {
	c := ctx.TODO()
	loads := 0
	bad := false
	rc := caches.NewRequestLRU(c, 3, func(_ ctx.C, k int) (int, time.Duration, error) {
		loads++
		if bad {
			panic("loader")
		}
		return 10*k + loads, time.Hour, nil
	})
	known := map[int]int{}
	n := vsym.Bound("ops", 4, 5)
	for i := 0; i < n; i++ {
		k := vsym.Choice("key", 2)
		bad = vsym.Bool("panic")
		before := loads
		var v int
		var hm caches.HitMiss
		var err error
		panicked := func() (out any) {
			defer func() { out = recover() }()
			v, hm, err = rc.Request(c, k)
			return nil
		}()
		want, ok := known[k]
		switch {
		case ok:
			vsym.Assert(panicked == nil && err == nil && hm == caches.HIT && v == want && loads == before, "what is cached is a hit")
		case bad:
			vsym.Assert(panicked == nil || panicked == "loader", "the panic is that of the loader")
			vsym.Assert(panicked != nil || err != nil, "what was not loaded is not returned")
		default:
			vsym.Assert(panicked == nil && err == nil && loads == before+1 && v == 10*k+loads, "it is loaded again")
			known[k] = v
		}
	}
	vsym.Reach("end")
}
