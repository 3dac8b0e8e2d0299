package t01

import (
	"testing"

	"github.com/Aize-Public/forego/test"
	"verif/harness/vsym"
)

// H_Empty: what is empty.
//
//vsym:all native=16 preempt=0
func H_Empty() {
	n := vsym.Choice("n", 2)
	s := vsym.StringIn("s", 0, 1, "a ")
	var p *int
	if n > 0 {
		p = &n
	}
	m := map[int]bool{}
	ch := make(chan int, 2)
	for i := 0; i < n; i++ {
		m[i] = false
		ch <- i
	}
	all := []struct {
		v     any
		empty bool
	}{
		{nil, true},
		{s, s == ""},
		{make([]int, n), n == 0},
		{[]int(nil), true},
		{m, n == 0},
		{map[int]int(nil), true},
		{ch, n == 0},
		{(chan int)(nil), true},
		{p, n == 0},
		{pair{}, true},
		{pair{A: n}, n == 0},
		{pair{B: s}, s == ""},
		{[]any{nil}, false},
	}
	x := all[vsym.Choice("value", len(all))]
	if vsym.Bool("not") {
		check(!x.empty, func(t *testing.T) { test.NotEmpty(t, x.v) })
	} else {
		check(x.empty, func(t *testing.T) { test.Empty(t, x.v) })
	}
	vsym.Reach("empty")
}
