package t01

import (
	"testing"

	"github.com/Aize-Public/forego/test"
	"verif/harness/vsym"
	"verif/harness/vtest"
)

// H_Unlocated: if the source of the call can't be found, only the message
// suffers.
//
//vsym:all native=16 preempt=0
func H_Unlocated() {
	n := vsym.Choice("n", 2)
	list := make([]int, n)
	var p *int
	if n > 0 {
		p = &n
	}
	ok := n == 0
	run := func(f func(t *testing.T)) (failed, panicked bool) {
		failed = vtest.Run(func(t *testing.T) {
			_, panicked = vsym.Panics(func() { f(t) })
		})
		return
	}
	var failed, panicked bool
	switch vsym.Choice("what", 4) {
	case 0:
		f := test.Assert
		failed, panicked = run(func(t *testing.T) { f(t, n == 0) })
		vsym.Assert(!panicked, "Assert")
	case 1:
		f := test.EqualsGo
		failed, panicked = run(func(t *testing.T) { f(t, n, 0) })
		vsym.Assert(!panicked, "EqualsGo")
	case 2:
		f := test.Nil
		failed, panicked = run(func(t *testing.T) { f(t, p) })
		vsym.Assert(!panicked, "Nil must not panic if its call can't be found in the source")
	case 3:
		f := test.Empty
		failed, panicked = run(func(t *testing.T) { f(t, list) })
		vsym.Assert(!panicked, "Empty must not panic if its call can't be found in the source")
	}
	vsym.Assert(failed == !ok, "the test fails exactly if it is not so")
	vsym.Reach("unlocated")
}
