package t01

import (
	"strings"
	"testing"

	"github.com/Aize-Public/forego/test"
	"verif/harness/vsym"
)

// H_Strings: equal texts, and what they contain.
//
//vsym:all native=16 preempt=0
func H_Strings() {
	n := vsym.Bound("length", 2, 3)
	a, b := vsym.StringIn("a", 0, n, "a`%"), vsym.StringIn("b", 0, n, "a`%")
	if vsym.Bool("case") {
		b = strings.ToUpper(b) // is another text
	}
	if vsym.Bool("space") {
		a = " " + a
	}
	contains := false
	for i := 0; i+len(b) <= len(a); i++ {
		if a[i:i+len(b)] == b {
			contains = true
		}
	}
	switch vsym.Choice("what", 6) {
	case 0:
		check(a == b, func(t *testing.T) { test.EqualsStr(t, a, b) })
	case 1:
		check(a != b, func(t *testing.T) { test.NotEqualsStr(t, a, b) })
	case 2:
		check(contains, func(t *testing.T) { test.Contains(t, a, b) })
	case 3:
		check(!contains, func(t *testing.T) { test.NotContains(t, a, b) })
	case 5:
		v := pair{1, "x"}
		parts := []string{"pair{", "A:1", `B:"x"`, "t01", "pair", `B:x`, "1 x"}
		i := vsym.Choice("part", len(parts))
		check(i < 5, func(t *testing.T) { test.ContainsGo(t, v, parts[i]) })
	case 4:
		check(true, func(t *testing.T) { test.ContainsGo(t, []string{a}, a[:0]) })
	}
	vsym.Reach("strings")
}
