package t01

import (
	"github.com/Aize-Public/forego/utils/ast"
	"verif/harness/vsym"
)

// src is the source of argument n.
func src(n int, args ...any) string { return ast.Assignment(0, n) }

type receiver struct{ r *receiver }

func (receiver) src(n int, args ...any) string { return ast.Assignment(0, n) }

func generic[T any](n int, args ...T) string { return ast.Assignment(0, n) }

func one(x ...int) int { return 1 }

func nothing() {}

// H_Source: the source of the argument, or of what was assigned to it.
//
//vsym:all native=32 preempt=0
func H_Source() {
	r := receiver{&receiver{}}
	got, want := "", ""
	switch vsym.Choice("shape", 16) {
	case 0:
		got, want = src(1, one(2, 3)), "one(2, 3)"
	case 1:
		x := one(4)
		got, want = src(1, x), "one(4)"
	case 2:
		x := one(4)
		got, want = src(2, one(5), x), "one(4)"
	case 3:
		x, y := one(6), one(7)
		got, want = src(1, y), "one(6), one(7)"
		_ = x
	case 4:
		x := 1
		x = one(8)
		got, want = src(1, x), "one(8)"
	case 5:
		x := one(9)
		if x > 0 {
			got, want = src(1, x), "one(9)"
		}
	case 6:
		if x := one(10); x > 0 {
			got, want = src(1, x), "one(10)"
		}
	case 7:
		x := one(11)
		got, want = src(1, x+0), "x+0"
	case 8:
		got, want = r.src(1, one(12)), "one(12)"
	case 9:
		got, want = r.r.src(1, "a,)b"), `"a,)b"`
	case 10:
		got = src(1,
			one(13))
		want = "one(13)"
	case 11:
		got, want = src(1, func() { one(14) }), "one(14)"
	case 12:
		got, want = generic(1, one(15)), "one(15)"
	case 13:
		got, want = r.src(1, func() { nothing(); one(16) }), "nothing(); one(16)"
	case 14:
		x := one(17)
		func() {
			x := one(18)
			_ = x
		}()
		got, want = src(1, x), "one(17)"
	case 15:
		for _, x := range []int{1} {
			_ = x
		}
		x := []int{one(19)}
		got, want = src(1, x[0]), "x[0]"
	}
	vsym.ObserveStr("source", got)
	vsym.Assert(got == want, "the source")
	vsym.Reach("source")
}

// H_EmptyFunc: a function with nothing in it is an argument like any other.
//
//vsym:all native=8 preempt=0
func H_EmptyFunc() {
	r := receiver{}
	which := vsym.Choice("which", 2)
	_, p := vsym.Panics(func() {
		if which == 0 {
			src(1, func() {})
		} else {
			r.src(1, func() {})
		}
	})
	vsym.Assert(!p, "never a panic")
	vsym.Reach("empty function")
}
