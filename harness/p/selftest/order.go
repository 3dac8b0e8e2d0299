package selftest

import "verif/harness/vsym"

type acc struct{ n int }

func (a *acc) set(x int) error { a.n = x; return nil }

func orderRet(x int) (acc, error) {
	var a acc
	return a, a.set(x)
}

func orderRet2(x int) (int, error) {
	var a acc
	y := a.n
	return y, a.set(x)
}

// H_Order: evaluation order as the compiler has it.
func H_Order() {
	x := vsym.Int("x", 1, 9)
	a, _ := orderRet(x)
	vsym.Assert(a.n == x, "variables are read after the calls")
	y, _ := orderRet2(x)
	vsym.Assert(y == 0, "but not what was read before")
	vsym.Reach("end")
}
