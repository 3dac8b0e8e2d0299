// Package e04: struct fields and their names.
//
//vsym:assume keys of a document are distinct
//vsym:outside struct tags other than json names, "-" and omitempty; strings longer than stated
package e04

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strconv"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

var c ctx.C = context.Background()

type Inner struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

type T struct {
	A int `json:"a"`
	B string
	C string  `json:"c,omitempty"`
	D int     `json:",omitempty"`
	E string  `json:"-"`
	F *int    `json:"f,omitempty"`
	G float64 `json:"g,omitempty"`
	h int
	I Inner `json:"in"`
	J *Inner
	K []int          `json:"k,omitempty"`
	L map[string]int `json:"l,omitempty"`
	M bool           `json:"m,omitempty"`
	N string         `json:"-,"`
	O uint64         `json:"o,omitempty"`
}

type want struct {
	name, key string
	val       func(n enc.Node) bool
}

// H_Marshal: exactly the exported fields that are neither skipped nor empty
// and omittable, in order, under the names of their tags.
//
//vsym:quick time=60
//vsym:thorough time=400
func H_Marshal() {
	in := T{E: "never", h: 7}
	// fields vary in groups, at once when thorough
	group := vsym.Choice("group", 3)
	all := vsym.Bound("all", 0, 1) == 1
	g := 0
	var in2 any = in
	if group == 0 || all {
		in.A = int(vsym.Int64("A", -3, 3))
		in.B = vsym.StringIn("B", 0, 1, "xy")
		in.C = vsym.StringIn("C", 0, 1, "xy")
		in.D = int(vsym.Int64("D", -3, 3))
	}
	if group == 1 || all {
		if vsym.Bool("F") {
			x := int(vsym.Int64("F", -3, 3))
			in.F = &x
		}
		g = vsym.Choice("G", 3)
		in.G = []float64{0, -1.5, 1e300}[g]
		if vsym.Bool("J") {
			in.J = &Inner{X: 5}
		}
		if vsym.Bool("K") {
			in.K = []int{1}
		}
		if vsym.Bool("L") {
			in.L = map[string]int{"q": 1}
		}
		in.M = vsym.Bool("M")
	}
	if group == 2 || all {
		in.N = vsym.StringIn("N", 0, 1, "xy")
		in.O = vsym.Uint64("O", 0, ^uint64(0))
		in.I.X = int(vsym.Int64("I.X", -3, 3))
		in.I.Y = vsym.StringIn("I.Y", 0, 1, "xy")
	}
	in2 = in
	if vsym.Bool("pointer") {
		in2 = &in
	}
	n, err := enc.Marshal(c, in2)
	vsym.Assert(err == nil, "structs can be marshalled")
	ps, ok := n.(enc.Pairs)
	vsym.Assert(ok, "a struct is an ordered list of pairs")
	i := 0
	next := func(name, key string) enc.Node {
		vsym.Assert(i < len(ps), "no field is missing: "+name)
		p := ps[i]
		i++
		vsym.Assert(p.Name == name && p.JSON == key, "fields are in order, under their names: "+name)
		return p.Value
	}
	vsym.Assert(next("A", "a") == enc.Integer(in.A), "A")
	vsym.Assert(next("B", "B") == enc.String(in.B), "B")
	if in.C != "" {
		vsym.Assert(next("C", "c") == enc.String(in.C), "C")
	}
	if in.D != 0 {
		vsym.Assert(next("D", "D") == enc.Integer(in.D), "D")
	}
	if in.F != nil {
		vsym.Assert(next("F", "f") == enc.Integer(*in.F), "F")
	}
	if g != 0 {
		vsym.Assert(next("G", "g") == enc.Float(in.G), "G")
	}
	inner, ok := next("I", "in").(enc.Pairs)
	vsym.Assert(ok && len(inner) >= 1 && inner[0].JSON == "x" && inner[0].Value == enc.Integer(in.I.X), "nested structs")
	if in.I.Y == "" {
		vsym.Assert(len(inner) == 1, "omitted within")
	} else {
		vsym.Assert(len(inner) == 2 && inner[1].JSON == "y" && inner[1].Value == enc.String(in.I.Y), "present within")
	}
	j := next("J", "J")
	if in.J == nil {
		vsym.Assert(j == enc.Nil{}, "a nil pointer is null")
	} else {
		inner, ok := j.(enc.Pairs)
		vsym.Assert(ok && len(inner) == 1 && inner[0].JSON == "x" && inner[0].Value == enc.Integer(5), "pointer")
	}
	if in.K != nil {
		l, ok := next("K", "k").(enc.List)
		vsym.Assert(ok && len(l) == 1 && l[0] == enc.Integer(1), "K")
	}
	if in.L != nil {
		m, ok := next("L", "l").(enc.Map)
		vsym.Assert(ok && len(m) == 1 && m["q"] == enc.Integer(1), "L")
	}
	if in.M || i < len(ps) && ps[i].JSON == "m" {
		vsym.Assert(next("M", "m") == enc.Bool(in.M), "M")
	}
	vsym.Assert(next("N", "-") == enc.String(in.N), "N")
	if in.O != 0 {
		o := next("O", "o")
		var back uint64
		vsym.Assert(enc.Unmarshal(c, o, &back) == nil && back == in.O, "O")
	}
	vsym.Assert(i == len(ps), "nothing else is there")
	vsym.Reach("end")
}

// doc builds a document with the given keys, each there or not, as a map or as
// pairs in any of two orders.
func doc(keys []string, val func(k string) enc.Node) (enc.Node, map[string]enc.Node) {
	there := map[string]enc.Node{}
	var ps enc.Pairs
	m := enc.Map{}
	for _, k := range keys {
		if !vsym.Bool("has " + k) {
			continue
		}
		n := val(k)
		there[k] = n
		m[k] = n
		ps = append(ps, enc.Pair{Name: k, JSON: k, Value: n})
	}
	switch vsym.Choice("as", 3) {
	case 0:
		return m, there
	case 1:
		return ps, there
	default:
		for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
			ps[i], ps[j] = ps[j], ps[i]
		}
		return ps, there
	}
}

// H_Unmarshal: a field is set from the key of its name and from no other key;
// a field without key keeps what it had; keys without field are reported once
// each, when somebody asked for it, and ignored otherwise.
//
//vsym:quick time=60
func H_Unmarshal() {
	sets := [][]string{
		{"a", "A", "B", "b"},
		{"c", "C", "D", "d"},
		{"E", "", "-", "e"},
		{"h", "H", "a", "N"},
		{"a", "D", "c", "o"},
	}
	keys := sets[vsym.Choice("keys", len(sets))]
	vals := map[string]int64{}
	n, there := doc(keys, func(k string) enc.Node {
		switch k {
		case "a", "D", "o":
		case "B", "c":
			return enc.String("s" + k)
		case "-":
			return enc.String("dash")
		case "A", "b", "", "H": // unknown: any kind of value, null too
			return []enc.Node{enc.Nil{}, enc.Bool(false), enc.String(""), enc.Digits("0")}[vsym.Choice("kind of "+k, 4)]
		}
		x := vsym.Int64("value of "+k, 0, 1000)
		vals[k] = x
		return enc.Integer(x)
	})
	before := T{A: int(vsym.Int64("A", 0, 1000)), B: "b0", C: "c0", D: int(vsym.Int64("D", 0, 1000)), E: "e0", N: "n0", h: 3, O: 9}
	got := before
	unhandled := map[string]int{}
	var h enc.Handler
	report := vsym.Bool("report")
	if report {
		h.UnhandledFields = func(_ ctx.C, path []any, n enc.Node) error {
			vsym.Assert(len(path) == 2, "the path leads to the key")
			k, ok := path[len(path)-1].(string)
			vsym.Assert(ok && there[k] == n, "a key is reported with its value")
			unhandled[k]++
			return nil
		}
	}
	err := h.Unmarshal(c, n, &got)
	vsym.Assert(err == nil, "unmarshalled")
	want := before
	for k := range there {
		known := true
		switch k {
		case "a":
			want.A = int(vals["a"])
		case "B":
			want.B = "sB"
		case "c":
			want.C = "sc"
		case "D":
			want.D = int(vals["D"])
		case "-":
			want.N = "dash"
		case "o":
			want.O = uint64(vals["o"])
		default:
			known = false
		}
		if report {
			if known {
				vsym.Assert(unhandled[k] == 0, "a key with a field is not reported")
			} else {
				vsym.Assert(unhandled[k] == 1, "a key without field is reported once")
			}
		}
	}
	vsym.Assert(got.A == want.A, "A")
	vsym.Assert(got.B == want.B, "B")
	vsym.Assert(got.C == want.C, "C")
	vsym.Assert(got.D == want.D, "D")
	vsym.Assert(got.E == want.E, "a skipped field is not set")
	vsym.Assert(got.h == want.h, "an unexported field is not set")
	vsym.Assert(got.N == want.N, "N")
	vsym.Assert(got.O == want.O, "O")
	vsym.Assert(got.F == nil && got.J == nil && got.K == nil && got.L == nil, "the others are not touched")
	vsym.Reach("end")
}

// H_Nested: unknown keys are found wherever they are, and an error of the
// reporting function is returned.
//
//vsym:quick time=60
func H_Nested() {
	value := []enc.Node{enc.Bool(true), enc.Nil{}}[vsym.Choice("null", 2)]
	known := vsym.Bool("known keys") // or nothing but unknown ones
	x := 0
	inner := func(name string) (enc.Node, int) {
		m := enc.Map{}
		if known {
			m["x"] = enc.Integer(1)
			x = 1
		}
		k := 0
		for _, u := range []string{"u", "X"} {
			if vsym.Bool(name + " has " + u) {
				m[u] = value
				k++
			}
		}
		return m, k
	}
	type W struct {
		In   Inner            `json:"in"`
		List []Inner          `json:"list"`
		Map  map[string]Inner `json:"map"`
		Ptr  *Inner           `json:"ptr"`
	}
	total := 0
	top := enc.Map{}
	for _, where := range []string{"in", "list", "map", "ptr"} {
		n, k := inner(where)
		total += k
		switch where {
		case "list":
			n = enc.List{n}
		case "map":
			n = enc.Map{"k": n}
		}
		top[where] = n
	}
	fail := vsym.Bool("fail")
	bad := errors.New("unknown field")
	calls := 0
	h := enc.Handler{UnhandledFields: func(_ ctx.C, path []any, n enc.Node) error {
		calls++
		k, _ := path[len(path)-1].(string)
		vsym.Assert(k == "u" || k == "X", "only unknown keys are reported")
		vsym.Assert(n == value, "with their value")
		if fail {
			return bad
		}
		return nil
	}}
	var w W
	err := h.Unmarshal(c, top, &w)
	if fail && total > 0 {
		vsym.Assert(calls == 1 && errors.Is(err, bad), "an error stops and is returned")
	} else {
		vsym.Assert(err == nil && calls == total, "every unknown key is reported once")
		vsym.Assert(w.In.X == x && len(w.List) == 1 && w.List[0].X == x && w.Map["k"].X == x && w.Ptr != nil && w.Ptr.X == x, "the known ones are set")
	}
	vsym.Reach("end")
}

// H_Agree: what one side writes the other reads: the names used by Marshal,
// by Unmarshal and in untyped data are the same, for any content.
//
//vsym:quick time=60
func H_Agree() {
	in := T{A: int(vsym.Int64("A", -9, 9)), B: vsym.StringIn("B", 0, 1, "xy"), D: int(vsym.Int64("D", -9, 9)), N: vsym.StringIn("N", 0, 1, "xy"), E: "e"}
	in.I.X = int(vsym.Int64("X", -9, 9))
	n, err := enc.Marshal(c, in)
	vsym.Assert(err == nil, "marshalled")
	var out T
	vsym.Assert(enc.Unmarshal(c, n, &out) == nil, "unmarshalled")
	vsym.Assert(out.A == in.A && out.B == in.B && out.D == in.D && out.N == in.N && out.I == in.I && out.E == "", "the same")
	m, err := enc.AsMap(c, n)
	vsym.Assert(err == nil && m["a"] == enc.Integer(in.A) && m["B"] == enc.String(in.B) && m["-"] == enc.String(in.N), "the same as a map")
	_, hasE := m["E"]
	vsym.Assert(!hasE, "skipped")
	ps := n.(enc.Pairs)
	vsym.Assert(ps.Find("a") == enc.Integer(in.A) && ps.Find("nope") == nil && ps.Find("A") == nil, "found by its name")
	var a any
	vsym.Assert(enc.Unmarshal(c, n, &a) == nil, "untyped")
	am := a.(map[string]any)
	vsym.Assert(am["B"] == in.B && am["-"] == in.N, "the same untyped")
	var direct any
	vsym.Assert(enc.Unmarshal(c, enc.Integer(in.I.X), &direct) == nil, "untyped")
	for _, at := range []string{"in", "list", "map"} { // however deep it is
		var deep enc.Node = n.(enc.Pairs).Find("in")
		switch at {
		case "in":
			deep = enc.Pairs{{Name: "Name", JSON: "in", Value: deep}}
		case "list":
			deep = enc.Map{"in": enc.List{deep}}
		case "map":
			deep = enc.Map{"in": deep}
		}
		var b any
		vsym.Assert(enc.Unmarshal(c, deep, &b) == nil, "untyped")
		x := b.(map[string]any)["in"]
		if l, ok := x.([]any); ok {
			x = l[0]
		}
		xm, ok := x.(map[string]any)
		vsym.Assert(ok && len(xm) == 1 && xm["x"] == direct, "the same keys untyped, inside as well")
	}
	vsym.Reach("end")
}

// H_Elements: every element of a map, a list or an array starts empty: what a
// key sets in one of them is not seen in the others.
//
//vsym:quick time=60
func H_Elements() {
	type E struct {
		A int            `json:"a"`
		P *int           `json:"p"`
		M map[string]int `json:"m"`
		L []int          `json:"l"`
	}
	full := enc.Map{"a": enc.Integer(vsym.Int("a", 1, 9)), "p": enc.Integer(7), "m": enc.Map{"k": enc.Integer(1)}, "l": enc.List{enc.Integer(1), enc.Integer(2)}}
	bare := enc.Map{}
	if k := vsym.Choice("key", 5); k > 0 {
		name := []string{"a", "p", "m", "l"}[k-1]
		bare[name] = full[name]
	}
	first := vsym.Bool("first")
	list := enc.List{full, bare, full}
	if first {
		list = enc.List{bare, full, bare}
	}
	check := func(e E, n enc.Node) {
		m := n.(enc.Map)
		_, a := m["a"]
		_, p := m["p"]
		_, mm := m["m"]
		_, l := m["l"]
		vsym.Assert((e.A != 0) == a && (e.P != nil) == p && (e.M != nil) == mm && (e.L != nil) == l, "an element has what its keys give it and nothing else")
	}
	apart := func(es ...E) {
		for i, e := range es {
			for _, o := range es[i+1:] {
				vsym.Assert(e.P == nil || e.P != o.P, "elements share no pointers")
				if e.L != nil && o.L != nil {
					was := o.L[0]
					e.L[0]++
					vsym.Assert(o.L[0] == was, "elements share no lists")
				}
				if e.M != nil && o.M != nil {
					was := o.M["k"]
					e.M["k"]++
					vsym.Assert(o.M["k"] == was, "elements share no maps")
				}
			}
		}
	}
	switch vsym.Choice("target", 4) {
	case 0:
		v := []E{{A: 5}}
		vsym.Assert(enc.Unmarshal(c, list, &v) == nil && len(v) == 3, "a list")
		for i := range v {
			check(v[i], list[i])
		}
		apart(v...)
	case 1:
		v := [3]E{{A: 5}, {A: 6}}
		vsym.Assert(enc.Unmarshal(c, list, &v) == nil, "an array")
		for i := range v {
			check(v[i], list[i])
		}
		apart(v[:]...)
	case 2:
		v := map[string]E{"0": {A: 5}}
		n := enc.Map{"0": list[0], "1": list[1], "2": list[2]}
		vsym.Assert(enc.Unmarshal(c, n, &v) == nil && len(v) == 3, "a map")
		for k := range v {
			check(v[k], n[k])
		}
		apart(v["0"], v["1"], v["2"])
	default:
		v := map[string]*E{"0": {A: 5}}
		n := enc.Map{"0": list[0], "1": list[1], "2": list[2]}
		vsym.Assert(enc.Unmarshal(c, n, &v) == nil && len(v) == 3, "a map of pointers")
		for k := range v {
			check(*v[k], n[k])
		}
		apart(*v["0"], *v["1"], *v["2"])
	}
	vsym.Reach("end")
}

// H_Paths: a path given to the reporting function can be kept.
//
//vsym:quick time=60
func H_Paths() {
	type L2 struct {
		In Inner `json:"in"`
	}
	type L1 struct {
		In  L2      `json:"in"`
		All []Inner `json:"all"`
	}
	type L0 struct {
		In L1 `json:"in"`
	}
	unknown := func(m enc.Map, name string) enc.Map {
		k := vsym.Choice(name, 3)
		for i := 0; i < k; i++ {
			m[[]string{"u", "X"}[i]] = enc.Bool(true)
		}
		return m
	}
	var kept [][]any
	var was []string
	h := enc.Handler{UnhandledFields: func(_ ctx.C, path []any, n enc.Node) error {
		kept = append(kept, path)
		was = append(was, fmt.Sprint(path...))
		return nil
	}}
	var x L0
	err := h.Unmarshal(c, unknown(enc.Map{"in": enc.Map{
		"in":  unknown(enc.Map{"in": unknown(enc.Map{}, "deepest")}, "deeper"),
		"all": enc.List{unknown(enc.Map{}, "first"), unknown(enc.Map{}, "second")},
	}}, "top"), &x)
	vsym.Assert(err == nil, "unmarshalled")
	for i := range kept {
		vsym.Assert(fmt.Sprint(kept[i]...) == was[i], "a path does not change after it was given")
		for j := range kept[:i] {
			vsym.Assert(was[i] != was[j], "each key has a path of its own")
		}
	}
	vsym.Reach("end")
}

// Wide has fields of four types, under four kinds of names.
type Wide struct {
	F0  int    `json:"n0"`
	F1  string `json:"n1"`
	F2  []int8 `json:"n2"`
	F3  *int   `json:"n3"`
	F4  int
	F5  string
	F6  []int8
	F7  *int
	F8  int    `json:"n8,omitempty"`
	F9  string `json:"n9,omitempty"`
	F10 []int8 `json:"n10,omitempty"`
	F11 *int   `json:"n11,omitempty"`
	F12 int    `json:"-"`
	F13 string `json:"-"`
	F14 []int8 `json:"-"`
	F15 *int   `json:"-"`
	F16 int    `json:"n16"`
	F17 string `json:"n17"`
	F18 []int8 `json:"n18"`
	F19 *int   `json:"n19"`
	F20 int
	F21 string
	F22 []int8
	F23 *int
	F24 int    `json:"n24,omitempty"`
	F25 string `json:"n25,omitempty"`
	F26 []int8 `json:"n26,omitempty"`
	F27 *int   `json:"n27,omitempty"`
	F28 int    `json:"-"`
	F29 string `json:"-"`
	F30 []int8 `json:"-"`
	F31 *int   `json:"-"`
	F32 int    `json:"n32"`
	F33 string `json:"n33"`
	F34 []int8 `json:"n34"`
	F35 *int   `json:"n35"`
	F36 int
	F37 string
	F38 []int8
	F39 *int
	F40 int    `json:"n40,omitempty"`
	F41 string `json:"n41,omitempty"`
	F42 []int8 `json:"n42,omitempty"`
	F43 *int   `json:"n43,omitempty"`
	F44 int    `json:"-"`
	F45 string `json:"-"`
	F46 []int8 `json:"-"`
	F47 *int   `json:"-"`
	F48 int    `json:"n48"`
	F49 string `json:"n49"`
	F50 []int8 `json:"n50"`
	F51 *int   `json:"n51"`
	F52 int
	F53 string
	F54 []int8
	F55 *int
	F56 int    `json:"n56,omitempty"`
	F57 string `json:"n57,omitempty"`
	F58 []int8 `json:"n58,omitempty"`
	F59 *int   `json:"n59,omitempty"`
	F60 int    `json:"-"`
	F61 string `json:"-"`
	F62 []int8 `json:"-"`
	F63 *int   `json:"-"`
	F64 int    `json:"n64"`
	F65 string `json:"n65"`
	F66 []int8 `json:"n66"`
	F67 *int   `json:"n67"`
	F68 int
	F69 string
	F70 []int8
	F71 *int
}

// H_Wide: the same for types with many fields, and documents with many keys.
//
//vsym:all native=4 fuel=20000000
//vsym:quick time=60
func H_Wide() {
	const n = 72
	var in Wide
	v := reflect.ValueOf(&in).Elem()
	at := vsym.Choice("at", n)
	x := vsym.Int8("x", 1, 9)
	p := int(x)
	vals := map[int]enc.Node{}
	for i := 0; i < n; i++ {
		if i != at && (i+at)%3 == 0 {
			continue // is empty
		}
		y := i
		if i == at {
			y = int(x)
		}
		f := v.Field(i)
		switch i % 4 {
		case 0:
			f.SetInt(int64(y))
			vals[i] = enc.Integer(y)
		case 1:
			s := string(rune('a' + y%26))
			f.SetString(s)
			vals[i] = enc.String(s)
		case 2:
			f.Set(reflect.ValueOf([]int8{int8(y)}))
			vals[i] = enc.List{enc.Integer(y)}
		default:
			f.Set(reflect.ValueOf(&p))
			vals[i] = enc.Integer(p)
		}
	}
	node, err := enc.Marshal(c, in)
	ps, ok := node.(enc.Pairs)
	vsym.Assert(err == nil && ok, "marshalled")
	name := func(i int) string {
		if i/4%4 == 1 {
			return "F" + strconv.Itoa(i)
		}
		return "n" + strconv.Itoa(i)
	}
	at2 := 0
	for i := 0; i < n; i++ {
		w, set := vals[i]
		if i/4%4 == 3 || i/4%4 == 2 && (!set || w == enc.Node(enc.Integer(0)) && i%4 == 0) {
			continue
		}
		vsym.Assert(at2 < len(ps) && ps[at2].JSON == name(i), "every field, in order, under its name")
		if set {
			vsym.Assert(reflect.DeepEqual(enc.JSON{}.Encode(c, ps[at2].Value), enc.JSON{}.Encode(c, w)), "with its value")
		}
		at2++
	}
	vsym.Assert(at2 == len(ps), "and nothing else")
	// and back, among many other keys
	doc := enc.Map{}
	for i, w := range vals {
		if i/4%4 != 3 {
			doc[name(i)] = w
		}
	}
	others := vsym.Choice("others", 2) * 100
	for i := 0; i < others; i++ {
		doc["x"+strconv.Itoa(i)] = enc.Integer(i)
	}
	for _, i := range []int{12, 13, 14, 15, 28} { // under no name
		doc["F"+strconv.Itoa(i)] = enc.Nil{}
		doc["n"+strconv.Itoa(i)] = enc.Nil{}
	}
	told := 0
	h := enc.Handler{UnhandledFields: func(_ ctx.C, path []any, _ enc.Node) error {
		told++
		return nil
	}}
	var out Wide
	vsym.Assert(h.Unmarshal(c, doc, &out) == nil, "unmarshalled")
	vsym.Assert(told == others+10, "what has no field is reported once each")
	for i := 0; i < n; i++ {
		if i/4%4 == 3 {
			v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
		}
	}
	vsym.Assert(reflect.DeepEqual(in, out), "every field from its key")
	vsym.Reach("end")
}
