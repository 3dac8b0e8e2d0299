// Package l01: slice helpers.
//
//vsym:outside slices longer than the stated bounds
package l01

import (
	"verif/harness/vsym"

	"github.com/Aize-Public/forego/utils"
	"github.com/Aize-Public/forego/utils/lists"
	"github.com/Aize-Public/forego/utils/maps"
)

func ints(name string, max int) []int {
	n := vsym.Choice("len("+name+")", max+1)
	out := make([]int, n)
	for i := range out {
		out[i] = vsym.Int(name, -2, 2)
	}
	return out
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		if a[i] != b[i] {
			ok = false
		}
	}
	return ok
}

// H_Split: chunks are non-empty, at most the limit, balanced within one chunk
// size, and concatenate to the input.
func H_Split() {
	n := vsym.Choice("n", vsym.Bound("n", 14, 24)+1)
	max := vsym.Int("max", 1, 1<<62)
	in := make([]int, n)
	for i := range in {
		in[i] = vsym.Int("x", -9, 9)
	}
	cp := append([]int{}, in...)
	out := lists.Split(in, max)
	for _, g := range out {
		vsym.Assert(len(g) <= max, "no chunk is longer than the limit")
		vsym.Assert(n == 0 || len(g) > 0, "no chunk is empty")
		vsym.Assert(len(g) <= len(out[0]), "the first chunk is the longest")
	}
	vsym.Assert(n == 0 || (len(out)-1)*max < n, "no more chunks than needed")
	vsym.Assert(same(lists.Flatten(out), cp), "the chunks concatenate to the input")
	vsym.Assert(same(in, cp), "the input is left as it was")
	vsym.Reach("end")
}

// H_SplitInvalid: a limit below one is refused.
func H_SplitInvalid() {
	in := ints("x", 2)
	max := vsym.Int("max", -1<<62, 0)
	_, p := vsym.Panics(func() { lists.Split(in, max) })
	vsym.Assert(p, "a limit below one is refused")
	vsym.Reach("end")
}

// H_Flatten: concatenation in order.
func H_Flatten() {
	a, b, c := ints("a", 2), ints("b", 2), ints("c", 2)
	want := append(append(append([]int{}, a...), b...), c...)
	vsym.Assert(same(lists.Flatten([][]int{a, b, c}), want), "Flatten concatenates in order")
	vsym.Assert(len(lists.Flatten([][]int{})) == 0, "Flatten of nothing is empty")
	// also if they are parts of one list
	d := ints("d", 4)
	cp := append([]int{}, d...)
	i := vsym.Choice("i", len(d)+1)
	j := i + vsym.Choice("j", len(d)-i+1)
	x := vsym.Int("x", -2, 2)
	out := lists.Flatten([][]int{d[:i], {x}, d[i:j]})
	vsym.Assert(same(d, cp), "Flatten leaves what it is given alone")
	vsym.Assert(same(out, append(append(append([]int{}, cp[:i]...), x), cp[i:j]...)), "Flatten concatenates in order, also parts of one list")
	for k := range out {
		out[k] = 9
	}
	vsym.Assert(same(d, cp), "what Flatten gives is a list of its own")
	vsym.Reach("end")
}

// H_Reverse: in place mirror image.
func H_Reverse() {
	xs := ints("x", vsym.Bound("n", 7, 9))
	ys := append([]int{}, xs...)
	lists.Reverse(xs)
	for i := range xs {
		vsym.Assert(xs[i] == ys[len(ys)-1-i], "Reverse gives the mirror image")
	}
	vsym.Reach("end")
}

// H_Contains: Contains, AddUnique and Copy.
func H_Contains() {
	xs := ints("x", 4)
	v := vsym.Int("v", -3, 3)
	in := false
	for _, x := range xs {
		if x == v {
			in = true
		}
	}
	vsym.Assert(lists.Contains(xs, v) == in, "Contains tells membership")
	cp := lists.Copy(xs)
	vsym.Assert(same(cp, xs), "Copy has the same elements")
	out := lists.AddUnique(cp, v)
	if in {
		vsym.Assert(same(out, xs), "AddUnique leaves a list that has the element as it is")
	} else {
		vsym.Assert(same(out, append(append([]int{}, xs...), v)), "AddUnique appends a new element at the end")
	}
	with := append(lists.Copy(xs[:0]), 77)
	vsym.Assert(len(with) == 1 && (len(xs) == 0 || xs[0] != 77), "also the copy of an empty part")
	if len(cp) > 0 {
		cp[0] = 99
		vsym.Assert(xs[0] != 99, "Copy is independent of the original")
	}
	vsym.Reach("end")
}

type item struct{ k, id int }

// H_Sort: Sort and SortFunc order and permute.
//
//vsym:quick time=60
//vsym:thorough time=300
func H_Sort() {
	n := vsym.Choice("n", vsym.Bound("n", 4, 5)+1)
	xs := make([]item, n)
	ks := make([]int, n)
	for i := range xs {
		ks[i] = vsym.Int("k", -3, 3)
		xs[i] = item{ks[i], i}
	}
	switch vsym.Choice("by", 3) {
	case 0:
		lists.Sort(xs, func(a, b item) bool { return a.k < b.k })
	case 1:
		lists.SortFunc(xs, func(a item) int { return a.k })
	case 2:
		lists.SortFunc(xs, func(a item) string { return string(rune('d' + a.k)) })
	}
	seen := make([]bool, n)
	for i := range xs {
		if i > 0 {
			vsym.Assert(xs[i-1].k <= xs[i].k, "the result is in order")
		}
		vsym.Assert(!seen[xs[i].id], "the result is a permutation of the input")
		seen[xs[i].id] = true
		vsym.Assert(xs[i].k == ks[xs[i].id], "elements are left as they are")
	}
	vsym.Reach("end")
}

// H_Permute: every permutation exactly once, the given order first.
func H_Permute() {
	n := vsym.Choice("n", vsym.Bound("n", 5, 6)+1)
	xs := make([]int, n)
	vals := make([]int, n)
	for i := range xs {
		vals[i] = vsym.Int("x", 0, 1000)
		for j := 0; j < i; j++ {
			vsym.Assume(vals[i] != vals[j])
		}
		xs[i] = vals[i]
	}
	fact := 1
	for i := 2; i <= n; i++ {
		fact *= i
	}
	seen := map[int]bool{}
	next := lists.Permute(xs)
	count := 0
	for next() {
		count++
		if count == 1 {
			vsym.Assert(same(xs, vals), "the first arrangement is the given one")
		}
		code, used := 0, 0
		for _, x := range xs {
			for j, v := range vals {
				if x == v {
					code = code*10 + j
					used |= 1 << j
				}
			}
		}
		vsym.Assert(used == 1<<n-1, "every arrangement has all elements")
		vsym.Assert(!seen[code], "no arrangement is repeated")
		seen[code] = true
		if count > fact {
			break
		}
	}
	vsym.Assert(count == fact, "all arrangements are produced")
	vsym.Assert(!next(), "and then there are no more")
	vsym.Reach("end")
}

// H_OrderedMap: every history against a list of pairs.
//
//vsym:quick time=60
//vsym:thorough time=300
func H_OrderedMap() {
	m := utils.NewOrderedMap[int, int]()
	type pair struct{ k, v int }
	var ref []pair
	find := func(k int) int {
		for i, p := range ref {
			if p.k == k {
				return i
			}
		}
		return -1
	}
	ops := vsym.Bound("ops", 5, 6)
	for i := 0; i < ops; i++ {
		k := vsym.Choice("key", 3)
		j := find(k)
		switch vsym.Choice("op", 2) {
		case 0:
			v := vsym.Int("v", 0, 9)
			old := m.Put(k, v)
			if j >= 0 {
				vsym.Assert(old.Found && old.Value == ref[j].v, "Put returns what it replaces")
				ref[j].v = v
			} else {
				vsym.Assert(!old.Found && old.Value == 0, "Put of a new key replaces nothing")
				ref = append(ref, pair{k, v})
			}
		case 1:
			old := m.Delete(k)
			if j >= 0 {
				vsym.Assert(old.Found && old.Value == ref[j].v, "Delete returns what it removes")
				ref = append(append([]pair{}, ref[:j]...), ref[j+1:]...)
			} else {
				vsym.Assert(!old.Found, "Delete of an absent key removes nothing")
			}
		}
		for k := 0; k < 3; k++ {
			e := m.Get(k)
			if j := find(k); j >= 0 {
				vsym.Assert(e.Found && e.Value == ref[j].v, "Get finds the value last put")
			} else {
				vsym.Assert(!e.Found && e.Value == 0, "Get does not find an absent key")
			}
		}
	}
	ks, vs := m.Keys(), m.Values()
	vsym.Assert(m.Len() == len(ref) && len(ks) == len(ref) && len(vs) == len(ref), "Len, Keys and Values count the keys")
	for i, p := range ref {
		vsym.Assert(ks[i] == p.k && vs[i] == p.v, "Keys and Values come in the order of first insertion")
	}
	stop := vsym.Choice("stop", 4)
	n := 0
	err := m.Range(func(k, v int) error {
		vsym.Assert(ref[n].k == k && ref[n].v == v, "Range visits in the order of first insertion")
		n++
		if n == stop+1 {
			return utils.EOD{}
		}
		return nil
	})
	vsym.Assert((err != nil) == (stop+1 <= len(ref)), "Range returns the error of the callback")
	vsym.Assert(err == nil && n == len(ref) || err != nil && n == stop+1, "Range stops at the first error")
	vsym.Reach("end")
}

// H_OrderedDelete: keys may be deleted while ranging, like those of a map.
func H_OrderedDelete() {
	m := utils.NewOrderedMap[int, int]()
	n := vsym.Bound("keys", 4, 5)
	for i := 0; i < n; i++ {
		m.Put(i, 10*i)
	}
	gone := map[int]bool{}
	var got []int
	err := m.Range(func(k, v int) error {
		vsym.Assert(!gone[k], "what is deleted is not visited any more")
		vsym.Assert(v == 10*k, "its value")
		got = append(got, k)
		d := vsym.Choice("delete", n+1)
		if d < n {
			e := m.Delete(d)
			vsym.Assert(e.Found == !gone[d] && (gone[d] || e.Value == 10*d), "what is deleted")
			gone[d] = true
		}
		return nil
	})
	vsym.Assert(err == nil, "no error")
	i := 0
	for k := 0; k < n; k++ {
		if i < len(got) && got[i] == k {
			i++
			continue
		}
		vsym.Assert(gone[k], "the others are visited, once, in order")
	}
	vsym.Assert(i == len(got) && m.Len() == n-len(gone), "and nothing else")
	vsym.Reach("end")
}

// H_Pairs: Pairs lists a map's entries; Keys and Values run in parallel.
func H_Pairs() {
	n := vsym.Choice("n", 4)
	in := map[int]int{}
	for i := 0; i < n; i++ {
		in[i] = vsym.Int("v", -5, 5)
	}
	vsym.MapOrder(true)
	ps := maps.Pairs(in)
	vsym.MapOrder(false)
	ks, vs := ps.Keys(), ps.Values()
	vsym.Assert(len(ps) == n && len(ks) == n && len(vs) == n, "one pair per entry")
	seen := map[int]bool{}
	for i := range ps {
		v, ok := in[ks[i]]
		vsym.Assert(ok && !seen[ks[i]], "every key is listed once")
		seen[ks[i]] = true
		vsym.Assert(vs[i] == v, "Keys and Values run in parallel")
	}
	vsym.Reach("end")
}

// H_Large: all of it, for longer lists.
//
//vsym:all native=4
//vsym:quick time=60
func H_Large() {
	n := []int{13, 33, 300, 1100}[vsym.Choice("n", 4)]
	xs := make([]int, n)
	for i := range xs {
		xs[i] = (i*i*7 + i*3) % 101
	}
	at := vsym.Choice("at", 4) * (n - 1) / 3
	xs[at] = vsym.Int("x", 1000, 2000)
	ref := append([]int{}, xs...)
	v := vsym.Int("v", 1000, 2000)
	switch vsym.Choice("what", 6) {
	case 0:
		vsym.Assert(lists.Contains(xs, v) == (v == ref[at]), "Contains tells membership")
		out := lists.AddUnique(lists.Copy(xs), v)
		if v == ref[at] {
			vsym.Assert(same(out, ref), "AddUnique leaves a list that has the element as it is")
		} else {
			vsym.Assert(same(out, append(append([]int{}, ref...), v)), "AddUnique appends a new element at the end")
		}
	case 1:
		lists.Reverse(xs)
		for i := range xs {
			vsym.Assert(xs[i] == ref[n-1-i], "mirrored")
		}
	case 2:
		max := []int{1, 2, 7, n - 1, n, n + 1}[vsym.Choice("max", 6)]
		var all []int
		short, long := n, 0
		for _, c := range lists.Split(xs, max) {
			vsym.Assert(len(c) > 0 && len(c) <= max, "chunks are not empty and fit")
			all = append(all, c...)
			if len(c) > long {
				long = len(c)
			}
			if len(c) < short {
				short = len(c)
			}
		}
		vsym.Assert(same(all, ref), "chunks concatenate to the list")
		vsym.Assert(len(lists.Split(xs, max)) == (n+max-1)/max, "no more than needed")
	case 3:
		var in [][]int
		for i := 0; i < n; i += 1 + i%4 {
			j := i + 1 + i%4
			if j > n {
				j = n
			}
			in = append(in, xs[i:j:j], nil)
		}
		vsym.Assert(same(lists.Flatten(in), ref), "concatenated in order")
	case 4:
		items := make([]item, n)
		for i := range items {
			items[i] = item{xs[i], i}
		}
		if vsym.Bool("func") {
			lists.SortFunc(items, func(a item) int { return a.k })
		} else {
			lists.Sort(items, func(a, b item) bool { return a.k < b.k })
		}
		seen := make([]bool, n)
		for i, e := range items {
			vsym.Assert(i == 0 || items[i-1].k <= e.k, "in order")
			vsym.Assert(!seen[e.id] && e.k == ref[e.id], "the same elements")
			seen[e.id] = true
		}
	default:
		m := utils.NewOrderedMap[int, int]()
		step := 2 + vsym.Choice("step", 3)
		for i, x := range xs {
			vsym.Assert(!m.Put(i, x).Found, "new")
		}
		for i := range xs {
			if i%step != 0 {
				old := m.Delete(i)
				vsym.Assert(old.Found && old.Value == ref[i], "removed")
			}
		}
		vsym.Assert(!m.Put(1, 5).Found && m.Put(0, 6).Found && m.Put(2*n, 7).Found == false, "added after it was removed, or changed in place")
		var ks, vs []int
		for i := 0; i < n; i += step {
			ks, vs = append(ks, i), append(vs, ref[i])
		}
		vs[0] = 6
		ks, vs = append(ks, 1, 2*n), append(vs, 5, 7)
		vsym.Assert(m.Len() == len(ks) && same(m.Keys(), ks) && same(m.Values(), vs), "what is left, in order")
		for i, k := range ks {
			e := m.Get(k)
			vsym.Assert(e.Found && e.Value == vs[i], "is found")
		}
		vsym.Assert(!m.Get(step+1).Found, "what was removed is not")
	}
	vsym.Reach("end")
}

// H_PermuteLong: the same for more elements.
//
//vsym:all native=1 fuel=400000000
//vsym:quick time=60
func H_PermuteLong() {
	n := vsym.Bound("n", 7, 8)
	x := vsym.Int("x", 0, 9)
	xs := make([]int, n)
	fact := 1
	for i := range xs {
		xs[i] = x + i
		fact *= i + 1
	}
	seen := make(map[int]bool, fact)
	next := lists.Permute(xs)
	count := 0
	for count <= fact && next() {
		code, used := 0, 0
		for _, v := range xs {
			code = code*10 + v - x
			used |= 1 << (v - x)
		}
		if used != 1<<n-1 || seen[code] {
			vsym.Fail("every arrangement has all elements, and comes once")
		}
		seen[code] = true
		count++
	}
	vsym.Assert(count == fact, "all arrangements are produced")
	vsym.Reach("end")
}
