package t01

import (
	"testing"

	"github.com/Aize-Public/forego/test"
	"verif/harness/vsym"
)

type pair struct {
	A int
	B string
}

type other pair

// long has a text which does not tell it all.
type long struct{ a, b string }

func (long) String() string { return "long" }

// H_Go: equal if of the same type and value.
//
//vsym:all native=16 preempt=0
func H_Go() {
	a, b := vsym.Int("a", 0, 99), vsym.Int("b", 0, 99)
	s, u := vsym.StringIn("s", 0, 1, "a\""), vsym.StringIn("u", 0, 1, "a\"")
	var x, y any
	same, typ := false, true
	switch vsym.Choice("what", 10) {
	case 0:
		x, y, same = a, b, a == b
	case 1:
		x, y, same = pair{a, s}, pair{b, u}, a == b && s == u
	case 2:
		x, y, same, typ = pair{a, s}, other{a, s}, false, false
	case 3:
		x, y, same, typ = a, int64(a), true, false // "%#v" has no type there
	case 4:
		x, y, same = []int{a, b}, []int{b, a}, a == b
	case 5:
		x, y, same = map[string]int{"x": a, "y": b}, map[string]int{"y": b, "x": a}, true
	case 6:
		x, y, same, typ = s, []byte(s), false, false
	case 8:
		x, y, same, typ = pair{a, s}, &pair{a, s}, false, false
	case 9:
		x, y, same, typ = long{s, "................................................................"}, long{u, "................................................................"}, s == u, true
	case 7:
		x, y, same, typ = nil, error(nil), true, true
	}
	switch vsym.Choice("how", 3) {
	case 0:
		check(same, func(t *testing.T) { test.EqualsGo(t, x, y) })
	case 1:
		check(!same, func(t *testing.T) { test.NotEqualsGo(t, x, y) })
	case 2:
		check(typ, func(t *testing.T) { test.EqualsType(t, x, y) })
	}
	vsym.Reach("go")
}
