package t01

import (
	"context"
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/test"
	"verif/harness/vsym"
	"verif/harness/vtest"
)

// H_Context: the context of a test ends with it, and knows it.
//
//vsym:all native=8 preempt=0
func H_Context() {
	fail := vsym.Bool("fail")
	var c ctx.C
	var inner, outer *testing.T
	var during error
	failed := vtest.Run(func(t *testing.T) {
		outer = t
		c = test.Context(t)
		inner = test.ExtractTester(c)
		during = c.Err()
		if fail {
			test.Fail(test.ExtractTester(ctx.WithTag(c, "k", 1)), "x")
		}
	})
	vsym.Assert(failed == fail, "fails if told")
	vsym.Assert(inner == outer, "the test")
	vsym.Assert(during == nil, "not cancelled meanwhile")
	vsym.Assert(!vsym.Symbolic() == (c.Err() != nil) || vsym.Symbolic(), "cancelled afterwards")
	vsym.Assert(test.ExtractTester(context.Background()) == nil && test.ExtractTester(nil) == nil, "no test")
	vsym.Reach("context")
}
