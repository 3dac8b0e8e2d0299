// Package c01: the size-bounded LRU cache against a reference model.
//
//vsym:assume limit and loader sizes are not negative; two calls never happen at the same clock reading
//vsym:outside every history longer than the stated number of calls, over more than 12 distinct keys, loaders that call back into the cache
package c01

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils/caches"
)

var errLoad = errors.New("load")

type ent struct {
	key, val, size int
}

// model: most recently used last
type model struct {
	max  int
	list []ent
}

func (m *model) find(k int) int {
	for i, e := range m.list {
		if e.key == k {
			return i
		}
	}
	return -1
}

func (m *model) remove(i int) ent {
	e := m.list[i]
	m.list = append(append([]ent{}, m.list[:i]...), m.list[i+1:]...)
	return e
}

func (m *model) total() (n int) {
	for _, e := range m.list {
		n += e.size
	}
	return
}

func history(ops, nkeys, maxMax int, withErr bool) {
	c := ctx.TODO()
	max := vsym.Int("max", 0, maxMax)
	m := &model{max: max}
	calls := 0
	var nextSize int
	var nextErr bool
	version := 0
	cache := caches.NewLRU(c, max, func(c ctx.C, k int) (int, int, error) {
		calls++
		version++
		if nextErr {
			return -1, nextSize, errLoad
		}
		return k*100 + version, nextSize, nil
	})
	lru := cache.(*caches.LRU[int, int])
	for i := 0; i < ops; i++ {
		vsym.Advance(time.Millisecond)
		k := vsym.Choice("key", nkeys)
		if vsym.Bool("invalidate") {
			cache.Invalidate(c, k)
			if j := m.find(k); j >= 0 {
				m.remove(j)
			}
		} else {
			nextSize = vsym.Int("size", 0, maxMax+1)
			nextErr = withErr && vsym.Bool("fail")
			before := calls
			v, hm, err := cache.Get(c, k)
			if j := m.find(k); j >= 0 {
				e := m.remove(j)
				m.list = append(m.list, e)
				vsym.Assert(hm == caches.HIT, "a retained key is reported as a hit")
				vsym.Assert(err == nil && v == e.val, "a hit returns the value loaded for that key")
				vsym.Assert(calls == before, "a hit does not call the loader")
				vsym.Reach("hit")
			} else {
				vsym.Assert(calls == before+1, "a key that is not retained is loaded exactly once")
				if nextErr {
					vsym.Assert(hm == caches.ERR && err == errLoad && v == -1, "a failed load is reported as it is")
				} else {
					vsym.Assert(err == nil && v == k*100+version, "a miss returns what the loader produced")
					if nextSize == 0 {
						vsym.Assert(hm == caches.NO, "a value of size zero is reported as not cached")
					} else {
						vsym.Assert(hm == caches.MISS, "a load is reported as a miss")
						m.list = append(m.list, ent{k, v, nextSize})
						for m.total() > max {
							m.remove(0)
							vsym.Reach("evict")
						}
					}
				}
			}
		}
		// what is retained
		keys := lru.Keys()
		vsym.Assert(len(keys) == len(m.list), "the retained set is the one least-recently-used eviction gives (count)")
		for _, e := range m.list {
			ok := false
			for _, k := range keys {
				if k == e.key {
					ok = true
				}
			}
			vsym.Assert(ok, "the retained set is the one least-recently-used eviction gives")
		}
	}
	vsym.Assert(m.total() <= max, "retained size within the limit")
	vsym.Reach("end")
}

// H_History: every history of Get and Invalidate calls, keys, sizes and limits
// within the bounds.
//
//vsym:quick time=60
//vsym:thorough time=500
func H_History() {
	history(vsym.Bound("ops", 4, 5), 3, 4, false)
}

// H_Errors: the same with failing loaders, shorter.
//
//vsym:quick time=30
//vsym:thorough time=200
func H_Errors() {
	history(vsym.Bound("ops", 3, 4), 2, 3, true)
}

// H_Wide: a filled cache of up to four unit-size entries, then any sequence of
// lookups and invalidations: which key is evicted depends on the whole history
// of uses, and entries leave from every position of the internal order.
//
//vsym:quick time=60
//vsym:thorough time=400
func H_Wide() {
	c := ctx.TODO()
	max := 1 + vsym.Choice("max", 4)
	fill := vsym.Choice("fill", 5)
	ops := vsym.Bound("ops", 4, 5)
	loads := 0
	cache := caches.NewLRU(c, max, func(c ctx.C, k int) (int, int, error) {
		loads++
		return k, 1, nil
	})
	var used []int
	for i := 0; i < fill+ops; i++ {
		vsym.Advance(time.Millisecond)
		k, inv := i, false
		if i >= fill {
			k = vsym.Choice("key", 5)
			inv = vsym.Choice("invalidate", 2) == 1
		}
		retained := false
		for j, u := range used {
			if u == k {
				retained = true
				used = append(append([]int{}, used[:j]...), used[j+1:]...)
				break
			}
		}
		if inv {
			cache.Invalidate(c, k)
			continue
		}
		used = append(used, k)
		if len(used) > max {
			used = used[1:]
		}
		n := loads
		v, hm, err := cache.Get(c, k)
		vsym.Assert(v == k && err == nil, "the value is the one of the key")
		vsym.Assert(retained == (hm == caches.HIT), "exactly the most recently used keys are hits")
		vsym.Assert(retained == (loads == n), "the loader runs exactly for keys that are not retained")
	}
	lru := cache.(*caches.LRU[int, int])
	vsym.Assert(len(lru.Keys()) == len(used), "as many keys are listed as are retained")
	if fill != max { // one way to get there is enough
		vsym.Reach("end")
		return
	}
	text := lru.String()
	if len(used) == 0 {
		vsym.Assert(strings.Contains(text, "empty"), "an empty cache says so")
	} else {
		vsym.Assert(strings.Contains(text, fmt.Sprintf("%d/%d", len(used), max)) && strings.Contains(text, fmt.Sprintf("oldest %d}", used[0])), "the cache describes what it retains")
	}
	vsym.Reach("end")
}

// H_Deep: with many entries as well, whatever was used or invalidated meanwhile,
// they are dropped from the least recently used one on.
//
//vsym:quick time=60
//vsym:thorough time=400
func H_Deep() {
	deep([]int{7, 9, 12}[vsym.Choice("max", 3)], vsym.Bound("hits", 1, 2), 2)
}

// H_Order: the same for fewer entries, used again in any order.
//
//vsym:quick time=60
//vsym:thorough time=400
func H_Order() {
	deep(6+vsym.Choice("max", 2), vsym.Bound("uses", 3, 4), 1)
}

func deep(max, hits, invalid int) {
	c := ctx.TODO()
	cache := caches.NewLRU(c, max, func(c ctx.C, k int) (int, int, error) { return k, 1, nil })
	var used []int
	drop := func(k int) {
		for j, u := range used {
			if u == k {
				used = append(append([]int{}, used[:j]...), used[j+1:]...)
				return
			}
		}
	}
	get := func(k int) {
		vsym.Advance(time.Millisecond)
		_, _, err := cache.Get(c, k)
		vsym.Assert(err == nil, "loaded")
		drop(k)
		used = append(used, k)
		if len(used) > max {
			used = used[1:]
		}
	}
	for k := 0; k < max; k++ {
		get(k)
	}
	for i := 0; i < hits; i++ {
		get(vsym.Choice("hit", max))
	}
	for i := 0; i < invalid; i++ {
		k := vsym.Choice("invalidate", max)
		cache.Invalidate(c, k)
		drop(k)
	}
	for k := 100; len(used) > 0 && used[0] < 100; k++ {
		get(k)
		keys := cache.(*caches.LRU[int, int]).Keys()
		vsym.Assert(len(keys) == len(used), "as many as fit")
		old := map[int]bool{}
		for _, k := range keys {
			old[k] = true
		}
		for _, u := range used {
			vsym.Assert(old[u], "the least recently used entry is dropped first")
		}
	}
	vsym.Reach("end")
}

// H_Unlimited: a limit that is never reached, and a limit of nothing.
func H_Unlimited() {
	c := ctx.TODO()
	max := []int{math.MaxInt, 1 << 40, 0}[vsym.Choice("max", 3)]
	loads := 0
	cache := caches.NewLRU(c, max, func(c ctx.C, k int) (int, int, error) {
		loads++
		return k * 10, 1 + k, nil
	})
	n := vsym.Choice("keys", 4)
	for i := 0; i < 2*n; i++ {
		v, hm, err := cache.Get(c, i%n)
		vsym.Assert(err == nil && v == i%n*10, "the value is the one of the key")
		vsym.Assert((hm == caches.HIT) == (max > 0 && i >= n), "whatever fits is retained, and nothing else")
	}
	keys := cache.(*caches.LRU[int, int]).Keys()
	vsym.Assert(len(keys) == n || max <= 0 && len(keys) == 0, "whatever fits is retained, and nothing else")
	vsym.Reach("end")
}

// H_Concurrent: two goroutines share a cache.
//
//vsym:all race=1 time=40
func H_Concurrent() {
	c := ctx.TODO()
	max := 1 + vsym.Choice("max", 2)
	cache := caches.NewLRU(c, max, func(c ctx.C, k int) (int, int, error) {
		return k * 10, 1, nil
	})
	lru := cache.(*caches.LRU[int, int])
	done := make(chan bool, 2)
	op := func(k int, inv bool) {
		if inv {
			cache.Invalidate(c, k)
			return
		}
		v, hm, err := cache.Get(c, k)
		vsym.Assert(err == nil && v == k*10, "concurrent lookups return the value of the key asked for")
		vsym.Assert(hm == caches.HIT || hm == caches.MISS, "concurrent lookups are hits or misses")
	}
	for g := 0; g < 2; g++ {
		k1, i1 := vsym.Choice("k1", 2), vsym.Choice("inv", 2) == 1
		k2 := vsym.Choice("k2", 2)
		go func() {
			op(k1, i1)
			op(k2, false)
			done <- true
		}()
	}
	<-done
	<-done
	keys := lru.Keys()
	vsym.Assert(len(keys) <= max, "retained size within the limit after concurrent use")
	vsym.Assert(len(keys) >= 1, "something is retained after concurrent lookups")
	vsym.Reach("end")
}

// H_Look: looking at the cache while it is used.
//
//vsym:all race=1 time=40
func H_Look() {
	c := ctx.TODO()
	cache := caches.NewLRU(c, 2, func(c ctx.C, k int) (int, int, error) {
		return k, 1, nil
	})
	lru := cache.(*caches.LRU[int, int])
	cache.Get(c, 0)
	done := make(chan bool, 1)
	inv := vsym.Choice("invalidate", 2) == 1
	go func() {
		if inv {
			cache.Invalidate(c, 0)
		}
		cache.Get(c, 1)
		done <- true
	}()
	if vsym.Choice("look", 2) == 0 {
		keys := lru.Keys()
		vsym.Assert(len(keys) <= 2, "never more keys than fit")
		vsym.Assert(len(keys) < 2 || keys[0] != keys[1], "each once")
	} else {
		vsym.Assert(lru.String() != "", "printed")
	}
	<-done
	vsym.Reach("end")
}

// H_Panic: a loader that panics takes its caller with it, but neither the cache
// nor what it knows.
func H_Panic() {
	c := ctx.TODO()
	loads := 0
	bad := false
	cache := caches.NewLRU(c, 3, func(_ ctx.C, k int) (int, int, error) {
		loads++
		if bad {
			panic("loader")
		}
		return 10*k + loads, 1, nil
	})
	m := &model{max: 3}
	n := vsym.Bound("ops", 4, 5)
	for i := 0; i < n; i++ {
		k := vsym.Choice("key", 2)
		bad = vsym.Bool("panic")
		before := loads
		var v int
		var hm caches.HitMiss
		var err error
		panicked := func() (out any) {
			defer func() { out = recover() }()
			v, hm, err = cache.Get(c, k)
			return nil
		}()
		at := m.find(k)
		switch {
		case at >= 0:
			vsym.Assert(panicked == nil && err == nil && hm == caches.HIT && v == m.list[at].val && loads == before, "what is cached is a hit")
		case bad:
			vsym.Assert(panicked == nil || panicked == "loader", "the panic is that of the loader")
			vsym.Assert(panicked != nil || err != nil, "what was not loaded is not returned")
		default:
			vsym.Assert(panicked == nil && err == nil && hm == caches.MISS && v == 10*k+loads, "a miss returns what was loaded")
			m.list = append(m.list, ent{k, v, 1})
		}
	}
	vsym.Assert(len(cache.(*caches.LRU[int, int]).Keys()) == len(m.list), "only what was loaded is cached")
	vsym.Reach("end")
}

// H_Rapid: what was used last is known also if nothing happens between the
// calls, which are all decided on before the first one.
//
//vsym:all native=40
func H_Rapid() {
	c := ctx.TODO()
	const max = 2
	cache := caches.NewLRU(c, max, func(_ ctx.C, k int) (int, int, error) { return k, 1, nil })
	keys := make([]int, vsym.Bound("ops", 6, 7))
	for i := range keys {
		keys[i] = vsym.Choice("key", 3)
	}
	got := make([]caches.HitMiss, len(keys))
	for i, k := range keys {
		_, got[i], _ = cache.Get(c, k)
	}
	m := &model{max: max}
	for i, k := range keys {
		if at := m.find(k); at >= 0 {
			vsym.Assert(got[i] == caches.HIT, "what is cached is a hit")
			e := m.remove(at)
			m.list = append(m.list, e)
			continue
		}
		vsym.Assert(got[i] == caches.MISS, "the least recently used entry is dropped first")
		m.list = append(m.list, ent{k, k, 1})
		if len(m.list) > max {
			m.remove(0)
		}
	}
	vsym.Reach("end")
}
