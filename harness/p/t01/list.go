package t01

import (
	"fmt"
	"testing"

	"github.com/Aize-Public/forego/test"
	"verif/harness/vsym"
)

// H_List: elements are taken off either end, if there are any.
//
//vsym:all native=16 preempt=0
func H_List() {
	var list, all []int
	n := vsym.Choice("n", vsym.Bound("elements", 3, 4))
	for i := 0; i < n; i++ {
		all = append(all, vsym.Int(fmt.Sprint("e", i), 0, 9))
	}
	list = append(list, all...)
	array, was := list, all
	for i := 0; i < 2; i++ {
		first := vsym.Bool("first")
		got := 0
		check(len(all) > 0, func(t *testing.T) {
			if first {
				got = test.Shift(t, &list)
			} else {
				got = test.Pop(t, &list)
			}
		})
		if len(all) == 0 {
			break
		}
		if first {
			vsym.Assert(got == all[0], "the first")
			all = all[1:]
		} else {
			vsym.Assert(got == all[len(all)-1], "the last")
			all = all[:len(all)-1]
		}
		vsym.Assert(len(list) == len(all), "and it is gone")
		for i := range all {
			vsym.Assert(list[i] == all[i], "the others stay")
		}
	}
	for i := range was {
		vsym.Assert(array[i] == was[i], "the array itself is not touched")
	}
	vsym.Reach("list")
}
