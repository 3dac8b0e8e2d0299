package t01

import (
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/test"
	"verif/harness/vsym"
)

type failure struct{}

func (*failure) Error() string { return "failure" }

// H_Nil: what is nil, and what is an error.
//
//vsym:all native=16 preempt=0
func H_Nil() {
	n := vsym.Choice("n", 2)
	var p *int
	if n > 0 {
		p = &n
	}
	var nothing error
	all := []struct {
		v   any
		nil bool
	}{
		{nil, true},
		{nothing, true},
		{p, n == 0},
		{n, false},
		{"", false},
		{[]int(nil), true},
		{[]int{}, false},
		{map[string]int(nil), true},
		{map[string]int{}, false},
		{(chan int)(nil), true},
		{make(chan int), false},
		{pair{}, false},
		{&pair{}, false},
		{false, false},
	}
	errs := []struct {
		e  error
		is bool
	}{
		{nil, false},
		{nothing, false},
		{(*failure)(nil), false},
		{&failure{}, true},
		{errors.New("e"), true},
		{fmt.Errorf("e: %w", io.EOF), true},
		{ctx.NewErrorf(nil, "e"), true},
	}
	how := vsym.Choice("how", 4)
	x, e := all[0], errs[0]
	if how < 2 {
		x = all[vsym.Choice("value", len(all))]
	} else {
		e = errs[vsym.Choice("error", len(errs))]
	}
	switch how {
	case 0:
		check(x.nil, func(t *testing.T) { test.Nil(t, x.v) })
	case 1:
		check(!x.nil, func(t *testing.T) { test.NotNil(t, x.v) })
	case 2:
		check(!e.is, func(t *testing.T) { test.NoError(t, e.e) })
	case 3:
		check(e.is, func(t *testing.T) { test.Error(t, e.e) })
	}
	vsym.Reach("nil")
}
