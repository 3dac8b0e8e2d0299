// Package y02: the concurrent typed map and set.
//
//vsym:outside more than 3 distinct keys or histories longer than stated, other than in fixed patterns; more than 2 concurrent goroutines
package y02

import (
	"errors"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/utils/lists"
	"github.com/Aize-Public/forego/utils/sync"
)

// H_MapHistory: every history of operations against a builtin map.
//
//vsym:quick time=60
//vsym:thorough time=300
func H_MapHistory() {
	var m sync.Map[int, int]
	ref := map[int]int{}
	ops := vsym.Bound("ops", 4, 5)
	for i := 0; i < ops; i++ {
		k := 0
		if i > 0 {
			k = vsym.Choice("key", 2)
		}
		old, had := ref[k]
		switch vsym.Choice("op", 7) {
		case 0:
			v := vsym.Int("v", -3, 3)
			m.Store(k, v)
			ref[k] = v
		case 1:
			m.Delete(k)
			delete(ref, k)
		case 2:
			v, ok := m.Load(k)
			vsym.Assert(ok == had && v == old, "Load gives what is stored")
		case 3:
			nv := vsym.Int("v", -3, 3)
			v, loaded := m.LoadOrStore(k, nv)
			vsym.Assert(loaded == had, "LoadOrStore tells whether the key was there")
			if had {
				vsym.Assert(v == old, "LoadOrStore keeps and returns the existing value")
			} else {
				vsym.Assert(v == nv, "LoadOrStore stores and returns the new value")
				ref[k] = nv
			}
		case 4:
			v, loaded := m.LoadAndDelete(k)
			vsym.Assert(loaded == had && v == old, "LoadAndDelete returns what it removes")
			delete(ref, k)
		case 5:
			nv := vsym.Int("v", -3, 3)
			v := m.GetOrStore(k, nv)
			if had {
				vsym.Assert(v == old, "GetOrStore keeps and returns the existing value")
			} else {
				vsym.Assert(v == nv, "GetOrStore stores and returns the new value")
				ref[k] = nv
			}
		case 6:
			vsym.Assert(m.Get(k) == old, "Get gives what is stored or the zero value")
		}
	}
	vsym.Assert(m.IsEmpty() == (len(ref) == 0), "IsEmpty")
	out := m.Map()
	vsym.Assert(len(out) == len(ref), "Map has every key once")
	for k, v := range ref {
		got, ok := out[k]
		vsym.Assert(ok && got == v, "Map gives the content")
		vsym.Assert(m.Get(k) == v, "content")
	}
	n := 0
	m.Range(func(k, v int) bool {
		vsym.Assert(ref[k] == v, "Range visits stored pairs")
		n++
		return true
	})
	vsym.Assert(n == len(ref), "Range visits every pair once")
	vsym.Reach("end")
}

// H_Stop: Range and RangeErr stop when told to.
func H_Stop() {
	var m sync.Map[int, string]
	n := vsym.Choice("n", 4)
	for i := 0; i < n; i++ {
		m.Store(i, "x")
	}
	stop := vsym.Choice("stop", 4)
	boom := errors.New("boom")
	calls := 0
	m.Range(func(int, string) bool { calls++; return calls < stop+1 })
	want := n
	if stop+1 < n {
		want = stop + 1
	}
	vsym.Assert(calls == want, "Range stops when the callback says so")
	calls = 0
	err := m.RangeErr(func(int, string) error {
		calls++
		if calls == stop+1 {
			return boom
		}
		return nil
	})
	vsym.Assert(calls == want, "RangeErr stops at the first error")
	vsym.Assert((err == boom) == (stop+1 <= n), "RangeErr returns the error of the callback")
	vsym.Assert(err == nil || err == boom, "RangeErr returns nothing else")
	vsym.Reach("end")
}

// H_NilValues: nil is a value like any other, for pointer and interface types.
func H_NilValues() {
	var m sync.Map[string, any]
	var e sync.Map[string, error]
	which := vsym.Choice("store", 3)
	switch which {
	case 0:
		m.Store("k", nil)
		e.Store("k", nil)
	case 1:
		_, l := m.LoadOrStore("k", nil)
		vsym.Assert(!l, "LoadOrStore of nil on an empty map stores")
		e.LoadOrStore("k", nil)
	case 2:
		vsym.Assert(m.GetOrStore("k", nil) == nil, "GetOrStore nil")
		e.GetOrStore("k", nil)
	}
	v, ok := m.Load("k")
	vsym.Assert(ok && v == nil, "a stored nil is found")
	vsym.Assert(m.Get("k") == nil, "a stored nil is given")
	_, ok = m.Load("other")
	vsym.Assert(!ok, "an absent key is not")
	vsym.Assert(!m.IsEmpty(), "a map holding nil is not empty")
	n := 0
	m.Range(func(k string, v any) bool { n++; return v == nil && k == "k" })
	vsym.Assert(n == 1, "Range visits a nil value")
	n = 0
	err := e.RangeErr(func(k string, v error) error { n++; return v })
	vsym.Assert(n == 1 && err == nil, "RangeErr visits a nil value")
	mm := m.Map()
	vv, ok := mm["k"]
	vsym.Assert(len(mm) == 1 && ok && vv == nil, "Map includes a nil value")
	x := vsym.Int("x", 0, 9)
	v, ok = m.LoadOrStore("k", x)
	vsym.Assert(ok && v == nil, "LoadOrStore finds a nil value")
	vsym.Assert(m.GetOrStore("k", x) == nil, "GetOrStore finds a nil value")
	er, ok := e.LoadOrStore("k", errors.New("x"))
	vsym.Assert(ok && er == nil && e.GetOrStore("k", errors.New("x")) == nil, "also of another type")
	v, ok = m.Load("k")
	vsym.Assert(ok && v == nil, "and it stays")
	v, ok = m.LoadAndDelete("k")
	vsym.Assert(ok && v == nil, "LoadAndDelete of a nil value")
	vsym.Assert(m.IsEmpty(), "and it is gone")
	vsym.Reach("end")
}

// H_Codec: a map survives marshal and unmarshal.
func H_Codec() {
	c := ctx.TODO()
	var m, m2 sync.Map[string, int]
	n := vsym.Choice("n", 3)
	var ks [2]string
	var vs [2]int
	for i := 0; i < n; i++ {
		ks[i] = vsym.String("k", 0, 1)
		vs[i] = vsym.Int("v", -1000, 1000)
		vsym.Assume(i == 0 || ks[0] != ks[1])
		m.Store(ks[i], vs[i])
	}
	node, err := enc.Marshal(c, &m)
	vsym.Assert(err == nil, "a map marshals")
	vsym.Assert(enc.Unmarshal(c, node, &m2) == nil, "a map unmarshals")
	vsym.Assert(len(m2.Map()) == n, "as many keys after the round trip")
	for i := 0; i < n; i++ {
		v, ok := m2.Load(ks[i])
		vsym.Assert(ok && v == vs[i], "same content after the round trip")
	}
	vsym.Reach("end")
}

// H_CodecAny: what is read replaces what was there, null too.
func H_CodecAny() {
	c := ctx.TODO()
	var m sync.Map[string, any]
	m.Store("k", "old")
	m.Store("other", "kept")
	var n enc.Node = enc.Nil{}
	var want any
	switch vsym.Choice("value", 4) {
	case 0:
	case 1:
		b := vsym.Bool("b")
		n, want = enc.Bool(b), b
	case 2:
		s := vsym.String("s", 0, 2)
		n, want = enc.String(s), s
	case 3:
		n, want = enc.String("new"), "new"
	}
	vsym.Assert(enc.Unmarshal(c, enc.Map{"k": n}, &m) == nil, "any value is read")
	v, ok := m.Load("k")
	vsym.Assert(ok && v == want, "it is the value now")
	v, ok = m.Load("other")
	vsym.Assert(ok && v == "kept", "what was not given is kept")
	vsym.Assert(len(m.Map()) == 2, "nothing else")
	node, err := enc.Marshal(c, &m)
	vsym.Assert(err == nil, "it marshals")
	x, ok := node.(enc.Map)
	vsym.Assert(ok && len(x) == 2 && x["k"] == n && x["other"] == enc.String("kept"), "to the same again")
	vsym.Reach("end")
}

// H_CodecError: what is not such a map is an error, and changes nothing.
func H_CodecError() {
	c := ctx.TODO()
	var m sync.Map[string, int]
	m.Store("k", 7)
	x := vsym.Int("x", -9, 9)
	nodes := []enc.Node{
		enc.List{enc.Integer(x)},
		enc.String("k"),
		enc.Bool(true),
		enc.Map{"k": enc.String("x")},
		enc.Map{"k": enc.List{enc.Integer(x)}},
	}
	i := vsym.Choice("node", len(nodes)+2)
	if i >= len(nodes) {
		n := enc.Map{"new": enc.Integer(x)}
		if i > len(nodes) {
			n["k"] = enc.Integer(x)
		}
		vsym.Assert(enc.Unmarshal(c, n, &m) == nil, "a map is read")
		vsym.Assert(m.Get("new") == x, "its entries are stored")
		vsym.Assert(i > len(nodes) && m.Get("k") == x || m.Get("k") == 7, "the others are kept")
		vsym.Reach("read")
		return
	}
	vsym.Assert(enc.Unmarshal(c, nodes[i], &m) != nil, "not a map of numbers")
	vsym.Assert(m.Get("k") == 7 && len(m.Map()) == 1, "nothing changed")
	vsym.Reach("end")
}

// H_Once: of several concurrent LoadOrStore and LoadAndDelete on one key
// exactly one wins.
//
//vsym:all race=1 time=60
func H_Once() {
	var m sync.Map[int, int]
	n := vsym.Bound("goroutines", 2, 3)
	del := vsym.Choice("delete", 2) == 1
	if del {
		m.Store(1, 7)
	}
	wins := make(chan int, n)
	for g := 0; g < n; g++ {
		g := g
		go func() {
			if del {
				v, ok := m.LoadAndDelete(1)
				if ok {
					vsym.Assert(v == 7, "the winner gets the value")
					wins <- 1
				} else {
					wins <- 0
				}
				return
			}
			v, loaded := m.LoadOrStore(1, g)
			vsym.Assert(loaded || v == g, "the winner stores its own value")
			if !loaded {
				wins <- 1
			} else {
				wins <- 0
			}
			vsym.Assert(m.Get(1) == v, "all see the value of the winner")
		}()
	}
	sum := 0
	for g := 0; g < n; g++ {
		sum += <-wins
	}
	vsym.Assert(sum == 1, "exactly one wins")
	vsym.Reach("end")
}

// H_Set: every history of set operations against a builtin map.
//
//vsym:quick time=60
//vsym:thorough time=300
func H_Set() {
	var s lists.Set[string]
	ref := map[string]bool{}
	ops := vsym.Bound("ops", 5, 6)
	ks := []string{"", "a"}
	for i := 0; i < ops; i++ {
		k := ks[vsym.Choice("key", 2)]
		switch vsym.Choice("op", 3) {
		case 0:
			vsym.Assert(s.Add(k) == !ref[k], "Add tells whether the element is new")
			ref[k] = true
		case 1:
			vsym.Assert(s.Remove(k) == ref[k], "Remove tells whether the element was there")
			delete(ref, k)
		case 2:
			vsym.Assert(s.Has(k) == ref[k], "Has")
		}
		all := s.All()
		vsym.Assert(len(all) == len(ref), "All lists every element once")
		for _, e := range all {
			vsym.Assert(ref[e], "All lists the elements")
		}
	}
	vsym.Reach("end")
}

// H_SetMany: nor does it matter how many elements there are.
func H_SetMany() {
	var s lists.Set[int]
	n := []int{1, 9, 70, 600}[vsym.Choice("n", 4)]
	for i := 0; i < n; i++ {
		vsym.Assert(s.Add(i), "Add tells whether the element is new")
	}
	seen := make([]int, n)
	for _, e := range s.All() {
		seen[e]++
	}
	for i := range seen {
		vsym.Assert(seen[i] == 1 && s.Has(i), "All lists every element once")
	}
	vsym.Reach("end")
}

// H_SetConcurrent: exactly one of several concurrent Add (Remove) wins.
//
//vsym:all race=1
func H_SetConcurrent() {
	var s lists.Set[int]
	rem := vsym.Choice("remove", 2) == 1
	if rem {
		s.Add(1)
	}
	wins := make(chan bool, 2)
	for g := 0; g < 2; g++ {
		go func() {
			if rem {
				wins <- s.Remove(1)
			} else {
				wins <- s.Add(1)
			}
		}()
	}
	a, b := <-wins, <-wins
	vsym.Assert(a != b, "exactly one Add (Remove) of an element succeeds")
	vsym.Assert(s.Has(1) == !rem, "and the set is as if they ran one after the other")
	vsym.Reach("end")
}

// H_MapMany: nor does it matter how many keys there are.
//
//vsym:all native=4
func H_MapMany() {
	c := ctx.TODO()
	var m sync.Map[int, int]
	n := []int{1, 9, 100, 600}[vsym.Choice("n", 4)]
	step := 2 + vsym.Choice("step", 2)
	x := vsym.Int("x", -100, 100)
	for k := 0; k < n; k++ {
		if k%2 == 0 {
			m.Store(k, x+k)
		} else {
			v, there := m.LoadOrStore(k, x+k)
			vsym.Assert(!there && v == x+k, "what is new is stored")
		}
	}
	for k := 0; k < n; k += step {
		if k%4 == 0 {
			m.Delete(k)
		} else {
			v, there := m.LoadAndDelete(k)
			vsym.Assert(there && v == x+k, "what is removed was there")
		}
	}
	left := 0
	for k := 0; k < n; k++ {
		v, there := m.Load(k)
		vsym.Assert(there == (k%step != 0) && (!there || v == x+k), "the others are there")
		if there {
			left++
		}
	}
	seen := map[int]int{}
	m.Range(func(k, v int) bool {
		seen[k] = v
		return true
	})
	all := m.Map()
	vsym.Assert(len(seen) == left && len(all) == left, "none is left out")
	for k := 0; k < n; k++ {
		if k%step != 0 {
			vsym.Assert(seen[k] == x+k && all[k] == x+k, "all with their values")
		}
	}
	node, err := enc.Marshal(c, &m)
	var m2 sync.Map[int, int]
	vsym.Assert(err == nil && enc.Unmarshal(c, node, &m2) == nil, "a map marshals")
	for k := 0; k < n; k++ {
		v, there := m2.Load(k)
		vsym.Assert(there == (k%step != 0) && (!there || v == x+k), "and all is there after the round trip")
	}
	vsym.Reach("end")
}
