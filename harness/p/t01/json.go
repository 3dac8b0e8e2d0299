package t01

import (
	"context"
	"encoding/json"
	"fmt"
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/test"
	"verif/harness/vsym"
	"verif/harness/vtest"
)

type object struct {
	B int    `json:"b"`
	A string `json:"a"`
}

func values(name string, n, f, most int) (any, string) {
	j, fj := fmt.Sprint(n), fmt.Sprint(f)
	list := []struct {
		v any
		j string
	}{
		{nil, "null"},
		{"null", "null"},
		{json.RawMessage(" null "), "null"},
		{n, j},
		{float64(f), fj},
		{[]byte(fj), fj},
		{fj, fj},
		{enc.Integer(n), j},
		{[]int{n, 2}, "[" + j + ",2]"},
		{[]any{float64(f), int8(2)}, "[" + fj + ",2]"},
		{"[ " + fj + " , 2 ]", "[" + fj + ",2]"},
		{map[string]any{"b": n, "a": "x"}, `{"a":"x","b":` + j + `}`},
		{`{"b":` + fj + `, "a":"x"}`, `{"a":"x","b":` + fj + `}`},
		{enc.Map{"a": enc.String("x"), "b": enc.Integer(n)}, `{"a":"x","b":` + j + `}`},
		{"text", `"text"`},
		{[]byte(`"text"`), `"text"`},
		{"{text", `"{text"`},
		{true, "true"},
	}
	i := vsym.Choice(name, vsym.Bound(name+" kinds", most, len(list)))
	return list[i].v, list[i].j
}

func runJSON(f func(c ctx.C)) bool {
	return vtest.Run(func(t *testing.T) { f(test.WithTester(context.Background(), t)) })
}

// H_JSON: equal if it is the same in JSON.
//
//vsym:all native=16 preempt=0
//vsym:quick time=60
//vsym:thorough time=300
func H_JSON() {
	n := vsym.Bound("digits", 9, 99)
	x, xj := values("x", vsym.Int("a", 0, n), 5, 18)
	y, yj := values("y", vsym.Int("b", 0, n), 5+vsym.Choice("other", vsym.Bound("others", 1, 2)), 12)
	if vsym.Bool("not") {
		failed := runJSON(func(c ctx.C) { test.NotEqualsJSON(c, x, y) })
		vsym.Assert(failed == (xj == yj), "not equal exactly if not the same JSON")
	} else {
		failed := runJSON(func(c ctx.C) { test.EqualsJSON(c, x, y) })
		vsym.Assert(failed == (xj != yj), "equal exactly if the same JSON")
	}
	vsym.Reach("json")
}

// H_JSONContains: contains if a part of the JSON.
//
//vsym:all native=16 preempt=0
func H_JSONContains() {
	x, j := values("x", vsym.Int("a", 0, 9), 5, 18)
	if vsym.Bool("not") {
		vsym.Assert(runJSON(func(c ctx.C) { test.NotContainsJSON(c, x, j) }), "contains itself")
		vsym.Assert(!runJSON(func(c ctx.C) { test.NotContainsJSON(c, x, j+"?") }), "and not more")
	} else {
		vsym.Assert(!runJSON(func(c ctx.C) { test.ContainsJSON(c, x, j) }), "contains itself")
		vsym.Assert(!runJSON(func(c ctx.C) { test.ContainsJSON(c, x, j[1:]) }), "and its parts")
		vsym.Assert(runJSON(func(c ctx.C) { test.ContainsJSON(c, x, j+"?") }), "and not more")
	}
	vsym.Reach("json contains")
}

// H_JSONStruct: the order of the fields makes no difference.
//
//vsym:all native=16 preempt=0
func H_JSONStruct() {
	n := vsym.Int("n", 0, 9)
	x := object{n, "x"}
	y := []any{x, map[string]any{"b": n, "a": "x"}, enc.Map{"a": enc.String("x"), "b": enc.Integer(n)}}[vsym.Choice("as", 3)]
	failed := runJSON(func(c ctx.C) { test.EqualsJSON(c, x, y) })
	vsym.Assert(!failed, "the order of fields makes no difference")
	vsym.Reach("json struct")
}
