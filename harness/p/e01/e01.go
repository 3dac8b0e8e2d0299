// Package e01: marshalling and unmarshalling give back the same value.
//
//vsym:assume strings are valid UTF-8; JSON field names and map keys are distinct
//vsym:outside strings, lists and maps longer than stated; cyclic values; floating point numbers other than the sampled ones when they go through text (all of them otherwise)
package e01

import (
	"context"
	"encoding/json"
	"math"
	"reflect"
	"strings"
	"unicode/utf8"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

var c ctx.C = context.Background()

// roundTrip sends in through nodes, or nodes and text.
func roundTrip(in any, out any, text bool) {
	n, err := enc.Marshal(c, in)
	vsym.Assert(err == nil, "the value can be marshalled")
	if text {
		j, err := enc.MarshalJSON(c, in)
		vsym.Assert(err == nil, "the value can be encoded")
		vsym.Assert(string(j) == string(enc.JSON{}.Encode(c, n)), "encoding is marshalling and encoding")
		vsym.Assert(enc.UnmarshalJSON(c, j, out) == nil, "the text can be decoded")
		return
	}
	vsym.Assert(enc.Unmarshal(c, n, out) == nil, "the nodes can be unmarshalled")
}

func compat(in any) {
	j, err := enc.MarshalJSON(c, in)
	ref, err2 := json.Marshal(in)
	vsym.Assert(err == nil && err2 == nil, "the value can be encoded")
	vsym.Assert(string(j) == string(ref), "the text is that of the standard library")
}

type (
	myInt    int32
	myUint   uint16
	myString string
	myBool   bool
)

// H_Int: every signed and unsigned number of every width.
//
//vsym:quick time=60
//vsym:thorough time=300
func H_Int() {
	text := vsym.Choice("text", 2) == 1
	switch vsym.Choice("type", 12) {
	case 0:
		x := vsym.Int("x", math.MinInt64, math.MaxInt64)
		var y int
		roundTrip(x, &y, text)
		vsym.Assert(x == y, "int")
	case 1:
		x := vsym.Int8("x", -128, 127)
		var y int8
		roundTrip(x, &y, text)
		vsym.Assert(x == y, "int8")
	case 2:
		x := vsym.Int16("x", math.MinInt16, math.MaxInt16)
		var y int16
		roundTrip(x, &y, text)
		vsym.Assert(x == y, "int16")
	case 3:
		x := vsym.Int32("x", math.MinInt32, math.MaxInt32)
		var y int32
		roundTrip(x, &y, text)
		vsym.Assert(x == y, "int32")
	case 4:
		x := vsym.Int64("x", math.MinInt64, math.MaxInt64)
		var y int64
		roundTrip(x, &y, text)
		vsym.Assert(x == y, "int64")
	case 5:
		x := uint(vsym.Uint64("x", 0, math.MaxUint64))
		var y uint
		roundTrip(x, &y, text)
		vsym.Assert(x == y, "uint")
	case 6:
		x := vsym.Byte("x", 0, 255)
		var y uint8
		roundTrip(x, &y, text)
		vsym.Assert(x == y, "uint8")
	case 7:
		x := vsym.Uint16("x", 0, math.MaxUint16)
		var y uint16
		roundTrip(x, &y, text)
		vsym.Assert(x == y, "uint16")
	case 8:
		x := vsym.Uint32("x", 0, math.MaxUint32)
		var y uint32
		roundTrip(x, &y, text)
		vsym.Assert(x == y, "uint32")
	case 9:
		x := vsym.Uint64("x", 0, math.MaxUint64)
		var y uint64
		roundTrip(x, &y, text)
		vsym.Assert(x == y, "uint64")
	case 10:
		x := myInt(vsym.Int32("x", math.MinInt32, math.MaxInt32))
		var y myInt
		roundTrip(x, &y, text)
		vsym.Assert(x == y, "named int")
	default:
		x := myUint(vsym.Uint16("x", 0, math.MaxUint16))
		var y myUint
		roundTrip(x, &y, text)
		vsym.Assert(x == y, "named uint")
	}
	vsym.Reach("end")
}

// H_IntText: the text of a number is the standard one.
//
//vsym:quick time=60
func H_IntText() {
	if vsym.Choice("sign", 2) == 0 {
		x := vsym.Int64("x", math.MinInt64, math.MaxInt64)
		compat(x)
	} else {
		compat(vsym.Uint64("x", 0, math.MaxUint64))
	}
	vsym.Reach("end")
}

// H_Float: every floating point number without text, some with it.
//
//vsym:quick time=60
func H_Float() {
	if vsym.Choice("text", 2) == 0 {
		if vsym.Choice("type", 2) == 0 {
			x := vsym.Float64("x")
			var y float64
			roundTrip(x, &y, false)
			vsym.Assert(math.Float64bits(x) == math.Float64bits(y) || x != x && y != y, "float64")
			return
		}
		x := float32(vsym.Float64("x"))
		var y float32
		roundTrip(x, &y, false)
		vsym.Assert(x == y || x != x && y != y, "float32")
		vsym.Reach("bits")
		return
	}
	fs := []float64{0, 1, -1, 0.5, 1.1, 1e20, 1e21, 1e-6, 1e-7, 123456789.125, math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, math.MaxInt64, 1 << 53, 1e308, math.Copysign(0, -1), 5e-324, 0.1, 1.0 / 3}
	x := fs[vsym.Choice("float", len(fs))]
	var y float64
	roundTrip(x, &y, true)
	vsym.Assert(x == y, "float64 as text")
	compat(x)
	if math.Abs(x) <= math.MaxFloat32 {
		f := float32(x)
		var g float32
		roundTrip(f, &g, true)
		vsym.Assert(f == g, "float32 as text")
	}
	for _, bad := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
		_, err := enc.MarshalJSON(c, map[string]any{"x": []float64{bad}})
		vsym.Assert(err != nil, "what JSON can't express is an error")
	}
	vsym.Reach("end")
}

func str(s string, text bool) {
	if text {
		compat(s)
	}
	if vsym.Choice("type", 2) == 0 {
		var y string
		roundTrip(s, &y, text)
		vsym.Assert(s == y, "string")
	} else {
		var y myString
		roundTrip(myString(s), &y, text)
		vsym.Assert(s == string(y), "named string")
	}
}

// H_String: every string of plain characters, including control characters.
//
//vsym:quick time=60
//vsym:thorough time=400
func H_String() {
	s := vsym.String("s", 0, vsym.Bound("len", 2, 3))
	text := vsym.Choice("text", 2) == 1
	if text {
		for i := 0; i < len(s); i++ {
			vsym.Assume(s[i] < 0x80)
		}
	}
	str(s, text)
	vsym.Reach("end")
}

// H_Rune: every single character.
//
//vsym:quick time=60
//vsym:thorough time=400
func H_Rune() {
	r := vsym.Int32("r", 0x80, utf8.MaxRune)
	vsym.Assume(r < 0xd800 || r > 0xdfff)
	str("<"+string(rune(r)), vsym.Choice("text", 2) == 1)
	vsym.Reach("end")
}

type inner struct {
	X int8   `json:"x"`
	Y string `json:"why"`
}

type outer struct {
	B    bool              `json:"b"`
	MB   myBool            `json:"mb"`
	L    []int8            `json:"l"`
	A    [2]bool           `json:"a"`
	M    map[string]inner  `json:"m"`
	MI   map[int8]*inner   `json:"mi"`
	MU   map[myUint][]bool `json:"mu"`
	MS   map[myString]bool `json:"ms"`
	P    *int8             `json:"p"`
	PP   **bool            `json:"pp"`
	In   inner             `json:"in"`
	PIn  *inner            `json:"pin"`
	NoTg inner
	priv int
	Skip int `json:"-"`
}

// H_Struct: nested structures, lists, maps and pointers, with each part there
// or not; what is not exported or skipped is not touched.
//
//vsym:quick time=60
//vsym:thorough time=300
func H_Struct() {
	text := vsym.Choice("text", 2) == 1
	in := outer{priv: 1, Skip: 2}
	out := outer{priv: 3, Skip: 4}
	which := vsym.Choice("field", 12)
	x := vsym.Int8("x", -128, 127)
	b := vsym.Bool("b")
	mk := func() inner { return inner{x, "s"} }
	switch which {
	case 0:
		in.B = b
		in.MB = myBool(b)
	case 1:
		n := vsym.Choice("len", 4)
		if n < 3 {
			in.L = []int8{x, 1}[:n]
		}
	case 2:
		in.A[1] = b
	case 3:
		n := vsym.Choice("len", 4)
		if n < 3 {
			in.M = map[string]inner{}
			for i := 0; i < n; i++ {
				in.M[[]string{"", "k"}[i]] = mk()
			}
		}
	case 4:
		in.MI = map[int8]*inner{}
		i := mk()
		in.MI[x] = &i
		if b {
			in.MI[-x] = nil
		}
	case 5:
		in.MU = map[myUint][]bool{myUint(vsym.Uint16("k", 0, 999)): {b}, 1000: nil, 1001: {}}
	case 6:
		in.MS = map[myString]bool{"k": b, "": true}
	case 7:
		if b {
			in.P = &x
		}
	case 8:
		p := &b
		in.PP = &p
	case 9:
		in.In = mk()
	case 10:
		i := mk()
		in.PIn = &i
	default:
		in.NoTg = mk()
	}
	roundTrip(&in, &out, text)
	in.priv, in.Skip = 3, 4
	vsym.Assert(reflect.DeepEqual(in, out), "every part is what it was, and what is skipped is left alone")
	vsym.Reach("end")
}

type omit struct {
	A int8            `json:"a,omitempty"`
	B string          `json:"b,omitempty"`
	P *bool           `json:"p,omitempty"`
	L []int8          `json:"l,omitempty"`
	M map[string]bool `json:"m,omitempty"`
	N *omit           `json:"n,omitempty"`
	Q *int8           `json:"q,omitempty"`
	R *string         `json:"r,omitempty"`
	S *float64        `json:"s,omitempty"`
	I any             `json:"i,omitempty"`
}

type omits struct {
	M  map[string]omit
	MP map[string]*omit
	L  []omit
	LP []*omit
	A  [2]omit
	LM []map[string]omit
	MM map[int8]map[string]omit
}

// H_Omit: elements of lists and maps of which each leaves out something else
// do not get it from one another.
//
//vsym:quick time=60
func H_Omit() {
	text := vsym.Choice("text", 2) == 1
	x := vsym.Int8("x", 1, 127)
	yes := true
	mk := func() (o omit) {
		zero, none, empty := int8(0), 0.0, ""
		switch vsym.Choice("element", 11) {
		case 0:
		case 1:
			o.A = x
		case 2:
			o.B = "s"
		case 3:
			o.P = &yes
		case 4:
			o.L = []int8{x}
		case 5:
			o.M = map[string]bool{"k": true}
		case 6:
			o.Q, o.R, o.S = &zero, &empty, &none
		case 7:
			o.Q, o.R = &x, &empty
		case 8:
			o.I = ""
		case 9:
			o.I = false
		default:
			o.N = &omit{A: x}
		}
		return
	}
	a, b := mk(), mk()
	var in, out omits
	switch vsym.Choice("where", 7) {
	case 0:
		in.M = map[string]omit{"a": a, "b": b}
	case 1:
		in.MP = map[string]*omit{"a": &a, "b": &b}
	case 2:
		in.L = []omit{a, b}
	case 3:
		in.LP = []*omit{&a, &b}
	case 4:
		in.A = [2]omit{a, b}
	case 5:
		in.LM = []map[string]omit{{"k": a}, {"k": b}}
	default:
		in.MM = map[int8]map[string]omit{1: {"k": a}, 2: {"k": b}}
	}
	roundTrip(&in, &out, text)
	vsym.Assert(reflect.DeepEqual(in, out), "every element is what it was")
	vsym.Reach("end")
}

// H_Reuse: what the target held before does not survive where the data says
// otherwise, and the result shares nothing with it.
//
//vsym:quick time=60
func H_Reuse() {
	text := vsym.Choice("text", 2) == 1
	old := int8(9)
	out := outer{L: []int8{7, 7, 7}, M: map[string]inner{"old": {}}, P: &old, MS: map[myString]bool{"old": true}}
	l := out.L
	in := outer{L: []int8{vsym.Int8("x", -9, 9)}, M: map[string]inner{}, MS: nil}
	if vsym.Choice("p", 2) == 1 {
		p := int8(5)
		in.P = &p
	}
	roundTrip(in, &out, text)
	vsym.Assert(reflect.DeepEqual(in, out), "the target is the value, not a mixture")
	vsym.Assert(old == 9 && l[0] == 7, "and what it referred to before is not modified")
	vsym.Reach("end")
}

// H_Any: untyped data is what the standard library makes of it.
//
//vsym:quick time=60
//vsym:thorough time=300
func H_Any() {
	var mk func(d int) any
	mk = func(d int) any {
		n := 7
		if d == 0 {
			n = 5
		}
		switch vsym.Choice("kind", n) {
		case 0:
			return nil
		case 1:
			return vsym.Bool("b")
		case 2:
			return "s" + vsym.StringIn("s", 1, 1, "ab")
		case 3:
			return 1.5
		case 4:
			return vsym.Int("i", -99, 99)
		case 5:
			l := []any{}
			for i := vsym.Choice("len", 3); i > 0; i-- {
				l = append(l, mk(d-1))
			}
			return l
		default:
			m := map[string]any{}
			for i := vsym.Choice("len", 3); i > 0; i-- {
				m[[]string{"a", "b"}[i-1]] = mk(d - 1)
			}
			return m
		}
	}
	in := mk(vsym.Bound("depth", 1, 2))
	compat(in)
	j, _ := json.Marshal(in)
	var ref, got any
	vsym.Assert(json.Unmarshal(j, &ref) == nil, "reference")
	vsym.Assert(enc.UnmarshalJSON(c, j, &got) == nil, "the text can be decoded")
	vsym.Assert(reflect.DeepEqual(ref, got), "untyped data has the types of the standard library")
	vsym.Reach("end")
}

type custom struct{ v string }

func (x custom) MarshalNode(c ctx.C) (enc.Node, error) {
	if x.v == "bad" {
		return nil, ctx.NewErrorf(c, "bad")
	}
	return enc.List{enc.String(x.v)}, nil
}

func (x *custom) UnmarshalNode(c ctx.C, n enc.Node) error {
	l, ok := n.(enc.List)
	if !ok || len(l) != 1 {
		return ctx.NewErrorf(c, "not a custom")
	}
	return enc.Unmarshal(c, l[0], &x.v)
}

type jcustom struct{ v string }

func (x jcustom) MarshalJSON() ([]byte, error) { return json.Marshal(map[string]string{"j": x.v}) }
func (x *jcustom) UnmarshalJSON(j []byte) error {
	var m map[string]string
	err := json.Unmarshal(j, &m)
	x.v = m["j"]
	return err
}

type holder struct {
	C  custom             `json:"c"`
	J  jcustom            `json:"j"`
	PC *custom            `json:"pc"`
	PJ *jcustom           `json:"pj"`
	L  []custom           `json:"l"`
	M  map[string]jcustom `json:"m"`
	N  enc.Node           `json:"n"`
	NM enc.Map            `json:"nm"`
	R  json.RawMessage    `json:"r"`
	X  ctx.JSON           `json:"x"`
}

// H_Custom: types which convert themselves do, wherever they are.
//
//vsym:quick time=60
func H_Custom() {
	text := vsym.Choice("text", 2) == 1
	s := vsym.StringIn("s", 0, 2, "a\"")
	in := holder{C: custom{s}, J: jcustom{s}, L: []custom{{s}, {"x"}}, M: map[string]jcustom{"k": {s}},
		N: enc.String(s), NM: enc.Map{"k": enc.List{enc.String(s)}}, R: json.RawMessage(`[1,"a"]`), X: ctx.JSON(`{"k":[]}`)}
	if vsym.Choice("ptr", 2) == 1 {
		in.PC = &custom{s}
		in.PJ = &jcustom{s}
	}
	var out holder
	roundTrip(in, &out, text)
	vsym.Assert(reflect.DeepEqual(in, out), "custom types keep their value")
	_, err := enc.Marshal(c, []any{1, map[string]any{"x": custom{"bad"}}})
	vsym.Assert(err != nil, "an error is reported from any depth")
	vsym.Assert(enc.Unmarshal(c, enc.Map{"l": enc.List{enc.Bool(true)}}, &out) != nil, "in both directions")
	vsym.Reach("end")
}

// H_Nodes: nodes are left as they are, in order.
//
//vsym:quick time=60
func H_Nodes() {
	k1 := vsym.StringIn("k", 1, 1, "abc")
	k2 := vsym.StringIn("k", 1, 1, "abc")
	vsym.Assume(k1 != k2)
	p := enc.Pairs{{JSON: k1, Value: enc.Integer(1)}, {JSON: k2, Value: enc.Pairs{{JSON: "z", Value: enc.Nil{}}, {JSON: "a", Value: nil}}}}
	want := `{"` + k1 + `":1,"` + k2 + `":{"z":null,"a":null}}`
	j, err := enc.MarshalJSON(c, p)
	vsym.Assert(err == nil && string(j) == want, "pairs keep their order")
	j, err = enc.MarshalJSON(c, struct {
		F enc.Pairs `json:"f"`
		G enc.Node  `json:"g"`
	}{p, p})
	vsym.Assert(err == nil && string(j) == `{"f":`+want+`,"g":`+want+`}`, "also inside")
	// struct fields are in the order of their declaration
	type st struct {
		Z int `json:"z"`
		A int `json:"a"`
		M int
	}
	j, err = enc.MarshalJSON(c, []st{{1, 2, 3}})
	vsym.Assert(err == nil && string(j) == `[{"z":1,"a":2,"M":3}]`, "fields keep their order")
	vsym.Assert(strings.Contains(string(enc.JSON{Indent: true}.Encode(c, p)), k1), "with indentation as well")
	vsym.Reach("end")
}

// H_NilPointers: a nil pointer is null, whatever methods its type has.
//
//vsym:quick time=60
func H_NilPointers() {
	var v any
	switch vsym.Choice("type", 7) {
	case 0:
		v = (*int)(nil)
	case 1:
		v = (*custom)(nil)
	case 2:
		v = (*jcustom)(nil)
	case 3:
		v = (*enc.Time)(nil)
	case 4:
		v = (*ctx.Error)(nil)
	case 5:
		v = (*outer)(nil)
	default:
		v = (map[string]int)(nil)
	}
	if vsym.Choice("in", 2) == 1 {
		v = map[string]any{"k": []any{v}}
	}
	j, err := enc.MarshalJSON(c, v)
	vsym.Assert(err == nil, "nil is not an error")
	vsym.Assert(string(j) == "null" || string(j) == `{"k":[null]}`, "nil is null")
	vsym.Reach("end")
}

type node struct {
	V    int8             `json:"v"`
	Next *node            `json:"next,omitempty"`
	Kids []node           `json:"kids,omitempty"`
	Map  map[string]*node `json:"map,omitempty"`
}

// H_Large: also if there is a lot of it, or it is deep.
//
//vsym:all native=4 fuel=40000000
//vsym:quick time=90
func H_Large() {
	text := vsym.Bool("text")
	n := []int{9, 70, 300}[vsym.Choice("n", 3)]
	x := vsym.Int8("x", -100, 100)
	at := vsym.Choice("at", 3) * (n - 1) / 2
	switch vsym.Choice("what", 6) {
	case 0:
		in, out := make([]int8, n), []int8(nil)
		for i := range in {
			in[i] = int8(i % 100)
		}
		in[at] = x
		roundTrip(in, &out, text)
		vsym.Assert(len(out) == n, "as many")
		for i := range in {
			vsym.Assert(in[i] == out[i], "all elements")
		}
	case 1:
		in, out := map[int]int8{}, map[int]int8(nil)
		for i := 0; i < n; i++ {
			in[i*i] = int8(i % 100)
		}
		in[at*at] = x
		roundTrip(in, &out, text)
		vsym.Assert(reflect.DeepEqual(in, out), "all entries")
	case 2: // deep
		if n > 70 {
			n, at = 60, at/5 // the standard library looks at every level again and again
		}
		top := &node{}
		for i, p := 0, top; i < n; i++ {
			q := &node{V: int8(i)}
			if i == at {
				q.V = x
			}
			switch i % 3 {
			case 0:
				p.Next = q
			case 1:
				p.Kids = []node{*q}
				q = &p.Kids[0]
			default:
				p.Map = map[string]*node{"k": q}
			}
			p = q
		}
		var out *node
		roundTrip(top, &out, text)
		vsym.Assert(reflect.DeepEqual(top, out), "all the way down")
	case 3:
		r := []rune(strings.Repeat("aé\"\\\n世🌍 ", n)) // of any width, escaped or not
		r[at] = rune(vsym.Int32("r", 0, 0x2fff))
		in, out := string(r), ""
		roundTrip(in, &out, text)
		vsym.Assert(in == out, "all characters")
	case 4:
		type row struct {
			S string
			P *int8
		}
		in, out := make([]row, n), []row(nil)
		for i := range in {
			v := int8(i % 50)
			in[i].S = strings.Repeat("s", i%20)
			if i%3 > 0 {
				in[i].P = &v
			}
		}
		in[at].P = &x
		roundTrip(in, &out, text)
		vsym.Assert(reflect.DeepEqual(in, out), "all rows")
	default:
		in, out := make([][]string, n), [][]string(nil)
		for i := range in {
			in[i] = make([]string, i%5)
			for j := range in[i] {
				in[i][j] = string(rune('a' + (i+j)%26))
			}
		}
		roundTrip(in, &out, text)
		vsym.Assert(reflect.DeepEqual(in, out), "all rows")
	}
	vsym.Reach("end")
}
