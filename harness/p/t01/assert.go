// Package t01: assertions of tests.
//
//vsym:assume the source code of the test is where it was compiled
//vsym:outside the text of the messages, other than the source of arguments; functions and unsafe pointers as nil; larger values than stated; two calls of the same function in one line
package t01

import (
	"testing"

	"github.com/Aize-Public/forego/test"
	"verif/harness/vsym"
	"verif/harness/vtest"
)

// check runs f as a test, which must fail exactly if it is not ok, and end
// there.
func check(ok bool, f func(t *testing.T)) {
	ended, panicked := false, false
	failed := vtest.Run(func(t *testing.T) {
		_, panicked = vsym.Panics(func() {
			f(t)
			ended = true
		})
	})
	vsym.Assert(!panicked, "never a panic")
	vsym.Assert(failed == !ok, "the test fails exactly if it is not so")
	vsym.Assert(ended == ok, "and ends there")
}

// H_Assert: a test fails exactly if what is asserted is not true.
//
//vsym:all native=16 preempt=0
func H_Assert() {
	a, b := vsym.Int("a", -9, 9), vsym.Int("b", -9, 9)
	switch vsym.Choice("what", 4) {
	case 0:
		check(a < b, func(t *testing.T) { test.Assert(t, a < b) })
	case 1:
		check(a == b, func(t *testing.T) {
			same := a == b
			test.Assert(t, same)
		})
	case 2:
		check(true, func(t *testing.T) { test.OK(t, "%d", a) })
	case 3:
		check(false, func(t *testing.T) { test.Fail(t, "%d", a) })
	}
	vsym.Reach("assert")
}
