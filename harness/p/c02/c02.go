// Package c02: the unbounded memo cache.
//
//vsym:outside every history longer than the stated number of calls or over more than 3 keys (longer ones and many keys only in fixed patterns), loaders that call back into the cache
package c02

import (
	"errors"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils/caches"
)

var errLoad = errors.New("load")

// H_History: any history of lookups and invalidations, with symbolic values
// and failures.
//
//vsym:quick time=40
//vsym:thorough time=300
func H_History() {
	c := ctx.TODO()
	ops := vsym.Bound("ops", 5, 6)
	loads, lastKey := 0, -1
	var next int
	var fail bool
	cache := caches.Mem(c, func(_ ctx.C, k int) (int, error) {
		loads++
		lastKey = k
		next = vsym.Int("value", -5, 5)
		fail = vsym.Bool("fail")
		if fail {
			return next, errLoad
		}
		return next, nil
	})
	known := map[int]int{}
	for i := 0; i < ops; i++ {
		k := vsym.Choice("key", 3)
		if vsym.Choice("invalidate", 2) == 1 {
			cache.Invalidate(c, k)
			delete(known, k)
			continue
		}
		n := loads
		v, hm, err := cache.Get(c, k)
		if want, ok := known[k]; ok {
			vsym.Assert(loads == n, "the loader is not run again for a known key")
			vsym.Assert(hm == caches.HIT && err == nil, "a known key is a hit")
			vsym.Assert(v == want, "a hit returns the value first loaded")
			vsym.Reach("hit")
		} else {
			vsym.Assert(loads == n+1 && lastKey == k, "an unknown key is loaded once, with that key")
			if fail {
				vsym.Assert(hm == caches.ERR && err == errLoad && v == next, "a failure is reported as it is")
				vsym.Reach("fail")
			} else {
				vsym.Assert(hm == caches.MISS && err == nil && v == next, "a miss returns what was loaded")
				known[k] = next
			}
		}
	}
	vsym.Reach("end")
}

// H_Zero: the zero value is cached like any other.
func H_Zero() {
	c := ctx.TODO()
	loads := 0
	val := vsym.Int("value", -1, 1)
	cache := caches.Mem(c, func(_ ctx.C, k string) (int, error) {
		loads++
		return val, nil
	})
	k := vsym.String("key", 0, 2)
	v, _, _ := cache.Get(c, k)
	vsym.Assert(v == val, "loaded value")
	v, hm, _ := cache.Get(c, k)
	vsym.Assert(v == val && hm == caches.HIT && loads == 1, "every value, also the zero one, is loaded once")
	vsym.Reach("end")
}

// H_Concurrent: lookups and invalidations from three goroutines: the loader
// runs once per key between invalidations and never twice at a time for a key.
//
//vsym:all race=1
//vsym:quick time=40
//vsym:thorough time=200
func H_Concurrent() {
	c := ctx.TODO()
	n := vsym.Bound("goroutines", 2, 3)
	var loads, running [2]int
	inv := vsym.Choice("invalidate", 2) == 1
	cache := caches.Mem(c, func(_ ctx.C, k int) (int, error) {
		loads[k]++
		running[k]++
		vsym.Yield()
		vsym.Assert(running[k] == 1, "a key is loaded by one caller at a time")
		running[k]--
		return 10*k + loads[k], nil
	})
	done := make(chan bool, n)
	for g := 0; g < n; g++ {
		k1, k2 := vsym.Choice("k1", 2), vsym.Choice("k2", 2)
		g := g
		go func() {
			for i, k := range []int{k1, k2} {
				if inv && g == 0 && i == 1 {
					cache.Invalidate(c, k)
					continue
				}
				v, _, err := cache.Get(c, k)
				vsym.Assert(err == nil && v/10 == k, "the value is the one of the key")
				vsym.Assert(inv || v == 10*k+1, "all callers see the value of the single load")
			}
			done <- true
		}()
	}
	for g := 0; g < n; g++ {
		<-done
	}
	vsym.Assert(loads[0] <= 2 && loads[1] <= 2, "at most one load per key and invalidation")
	vsym.Assert(inv || (loads[0] <= 1 && loads[1] <= 1), "at most one load per key")
	vsym.Reach("end")
}

// H_Nil: a loader may give nothing, of any kind, and that is remembered too.
func H_Nil() {
	c := ctx.TODO()
	loads := 0
	kind := vsym.Choice("value", 6)
	val := []any{nil, (*int)(nil), "", 0, []int(nil), error(nil)}[kind]
	cache := caches.Mem(c, func(_ ctx.C, k any) (any, error) {
		loads++
		return val, nil
	})
	errs := caches.Mem(c, func(_ ctx.C, k string) (error, error) {
		loads++
		return nil, nil
	})
	key := []any{nil, "", 0, (*int)(nil), struct{}{}}[vsym.Choice("key", 5)]
	n := vsym.Bound("calls", 3, 4)
	for i := 0; i < n; i++ {
		v, hm, err := cache.Get(c, key)
		vsym.Assert(err == nil && loads == 1, "every value is loaded once, also nil")
		vsym.Assert((v == nil) == (val == nil), "as it was loaded")
		vsym.Assert((hm == caches.MISS) == (i == 0) && (hm == caches.HIT) == (i > 0), "and it is a hit from then on")
	}
	cache.Invalidate(c, key)
	_, hm, _ := cache.Get(c, key)
	vsym.Assert(hm == caches.MISS && loads == 2, "until invalidated")
	for i := 0; i < n; i++ {
		_, hm, err := errs.Get(c, "")
		vsym.Assert(err == nil && loads == 3 && (hm == caches.HIT) == (i > 0), "every value is loaded once, also nil")
	}
	vsym.Reach("end")
}

// H_Many: nor does it matter how many keys there are.
//
//vsym:all native=4
func H_Many() {
	c := ctx.TODO()
	n := []int{1, 20, 140, 1100}[vsym.Choice("n", 4)]
	bad := vsym.Choice("bad", 3) * 9 // this one fails at first
	loads := make([]int, n)
	base := vsym.Int("base", -9, 9)
	cache := caches.Mem(c, func(_ ctx.C, k int) (int, error) {
		loads[k]++
		if k == bad && loads[k] == 1 {
			return -1, errLoad
		}
		return base + k*10 + loads[k], nil
	})
	for k := 0; k < n; k++ {
		_, hm, err := cache.Get(c, k)
		if k == bad {
			vsym.Assert(hm == caches.ERR && err == errLoad, "a failure is reported")
		} else {
			vsym.Assert(hm == caches.MISS && err == nil && loads[k] == 1, "each key is loaded")
		}
	}
	for k := 0; k < n; k += 3 {
		cache.Invalidate(c, k)
	}
	for round := 0; round < 2; round++ {
		for k := 0; k < n; k++ {
			want := 1
			if k%3 == 0 || k == bad {
				want = 2
			}
			v, hm, err := cache.Get(c, k)
			vsym.Assert(err == nil && loads[k] == want && v == base+k*10+want, "each key has the value last loaded for it")
			vsym.Assert(hm == caches.HIT || round == 0 && want == 2, "and is loaded no more often than it has to")
		}
	}
	vsym.Reach("end")
}

// H_Panic: a loader that panics takes its caller with it, but neither the cache
// nor what it knows.
func H_Panic() {
	c := ctx.TODO()
	loads := 0
	bad := false
	cache := caches.Mem(c, func(_ ctx.C, k int) (int, error) {
		loads++
		if bad {
			panic("loader")
		}
		return 10*k + loads, nil
	})
	known := map[int]int{}
	n := vsym.Bound("ops", 4, 5)
	for i := 0; i < n; i++ {
		k := vsym.Choice("key", 2)
		bad = vsym.Bool("panic")
		before := loads
		var v int
		var hm caches.HitMiss
		var err error
		panicked := func() (out any) {
			defer func() { out = recover() }()
			v, hm, err = cache.Get(c, k)
			return nil
		}()
		want, ok := known[k]
		switch {
		case ok:
			vsym.Assert(panicked == nil && err == nil && hm == caches.HIT && v == want && loads == before, "a known key is a hit, with the value first loaded")
		case bad:
			vsym.Assert(panicked == nil || panicked == "loader", "the panic is that of the loader")
			vsym.Assert(loads == before+1, "an unknown key is loaded once")
			vsym.Assert(panicked != nil || err != nil, "what was not loaded is not returned")
		default:
			vsym.Assert(panicked == nil && err == nil && hm == caches.MISS && loads == before+1, "an unknown key is loaded once")
			vsym.Assert(v == 10*k+loads, "a miss returns what was loaded")
			known[k] = v
		}
	}
	vsym.Reach("end")
}
