// Package e05: marshalling and unmarshalling never panic, and report what does
// not fit.
//
//vsym:outside trees deeper or wider than stated; cyclic values; targets that are no pointers
package e05

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

var c ctx.C = context.Background()

type kind int

const (
	kNil kind = iota
	kBool
	kString
	kNumber // an integer that fits everywhere
	kText   // digits which are no number
	kTime
	kDuration
	kList
	kMap
)

func leaf(i int) (enc.Node, kind) {
	switch i {
	case 0:
		return enc.Nil{}, kNil
	case 1:
		return nil, kNil
	case 2:
		return enc.Bool(vsym.Bool("bool")), kBool
	case 3:
		return enc.String(vsym.StringIn("string", 0, 2, "1xt")), kString
	case 4:
		return enc.Integer(vsym.Int64("int", 0, 100)), kNumber
	case 5:
		return enc.Float(12.5), kNumber
	case 6:
		return enc.Digits("42"), kNumber
	case 7:
		return enc.Digits("4x"), kText
	case 8:
		return enc.Time(time.Unix(1700000000, 5).UTC()), kTime
	}
	return enc.Duration(3), kDuration
}

const leaves = 10

// node makes any node; of what it is made is told as well.
func node() (n enc.Node, k kind, kids []kind) {
	switch w := vsym.Choice("node", leaves+3); w {
	default:
		n, k = leaf(w)
		return
	case leaves:
		l := enc.List{}
		for i := vsym.Choice("len", 3); i > 0; i-- {
			e, ek := leaf(vsym.Choice("element", leaves))
			l = append(l, e)
			kids = append(kids, ek)
		}
		return l, kList, kids
	case leaves + 1:
		m := enc.Map{}
		if vsym.Bool("entry") {
			e, ek := leaf(vsym.Choice("element", leaves))
			m["a"] = e
			kids = append(kids, ek)
		}
		return m, kMap, kids
	case leaves + 2:
		m := enc.Pairs{}
		if vsym.Bool("entry") {
			e, ek := leaf(vsym.Choice("element", leaves))
			m = append(m, enc.Pair{Name: "A", JSON: "a", Value: e})
			kids = append(kids, ek)
		}
		return m, kMap, kids
	}
}

type named string
type namedInt int32
type S struct {
	A int `json:"a"`
}
type Fields struct {
	A any `json:"a"`
	b int
	C chan int `json:"c"`
}
type BadField struct {
	A chan int `json:"a"`
}
type embedded struct{ A int }
type Embed struct {
	*embedded
	B int
}

func number(k kind) bool { return k == kNil || k == kNumber || k == kDuration }
func text(k kind) bool {
	return k == kNil || k == kString || k == kNumber || k == kText || k == kDuration
}
func null(k kind) bool { return k == kNil }

func all(ks []kind, f func(kind) bool) bool {
	for _, k := range ks {
		if !f(k) {
			return false
		}
	}
	return true
}

// try unmarshals n into a T which is not zero before.
func try[T any](n enc.Node, before T) (T, error) {
	v := before
	err := enc.Unmarshal(c, n, &v)
	return v, err
}

func expect(err error, ok bool, what string) {
	if ok {
		vsym.Assert(err == nil, "what fits is accepted: "+what)
	} else {
		vsym.Assert(err != nil, "what does not fit is an error: "+what)
		vsym.Assert(err.Error() != "", "which says so")
	}
}

// H_Scalars: any node into every simple type.
//
//vsym:quick time=60
func H_Scalars() {
	n, k, kids := node()
	switch vsym.Choice("target", 14) {
	case 0:
		v, err := try(n, true)
		expect(err, k == kBool || k == kNil, "bool")
		vsym.Assert(k != kNil || !v, "null resets: bool")
	case 1:
		v, err := try(n, "before")
		expect(err, text(k), "string")
		vsym.Assert(k != kNil || v == "", "null resets: string")
		if k == kString {
			vsym.Assert(enc.String(v) == n, "string")
		}
	case 2:
		_, err := try(n, named("before"))
		expect(err, text(k), "named string")
	case 3:
		v, err := try(n, int8(7))
		expect(err, number(k), "int8")
		vsym.Assert(k != kNil || v == 0, "null resets: int8")
	case 4:
		v, err := try(n, uint(7))
		expect(err, number(k), "uint")
		vsym.Assert(k != kNil || v == 0, "null resets: uint")
	case 5:
		_, err := try(n, float32(7))
		expect(err, number(k), "float32")
	case 6:
		_, err := try(n, namedInt(7))
		expect(err, number(k), "named int")
	case 7:
		x := 5
		v, err := try(n, &x)
		expect(err, number(k), "*int")
		vsym.Assert((v == nil) == (k == kNil) || err != nil, "null is a nil pointer")
		vsym.Assert(x == 5, "what the target pointed to is left alone")
	case 8:
		v, err := try[**string](n, nil)
		expect(err, text(k), "**string")
		vsym.Assert(err != nil || (v == nil) == (k == kNil), "null is a nil pointer")
	case 9:
		v, err := try[any](n, "before")
		expect(err, true, "any")
		vsym.Assert((v == nil) == (k == kNil), "null is nil, nothing else is: any")
	case 10:
		_, err := try[error](n, errors.New("before"))
		expect(err, null(k), "error")
	case 11:
		v, err := try[fmt.Stringer](n, nil)
		// time.Time and time.Duration have the method
		expect(err, k == kNil || k == kTime || k == kDuration, "fmt.Stringer")
		vsym.Assert((v == nil) == (err != nil || k == kNil), "nothing is assigned but what fits")
	case 12:
		v, err := try[enc.Node](n, enc.String("before"))
		expect(err, true, "enc.Node")
		if k == kNil {
			vsym.Assert(v == enc.Nil{}, "null is enc.Nil")
		}
	default:
		v, err := try(n, time.Duration(7))
		expect(err, number(k), "time.Duration")
		vsym.Assert(k != kDuration || v == 3, "time.Duration")
	}
	_ = kids
	vsym.Reach("end")
}

// H_Compound: any node into lists, arrays, maps and structures.
//
//vsym:quick time=60
func H_Compound() {
	n, k, kids := node()
	nl := len(kids)
	switch vsym.Choice("target", 16) {
	case 0:
		v, err := try(n, []int{1, 2, 3})
		expect(err, k == kNil || k == kList && all(kids, number), "[]int")
		vsym.Assert(err != nil || len(v) == nl, "length")
		vsym.Assert(err != nil || (v == nil) == (k == kNil), "null is nil, an empty list is not")
	case 1:
		_, err := try(n, [2]int{1, 2})
		expect(err, k == kNil || k == kList && nl == 2 && all(kids, number), "[2]int")
	case 2:
		_, err := try(n, [0]int{})
		expect(err, k == kNil || k == kList && nl == 0, "[0]int")
	case 3:
		v, err := try(n, map[string]int{"z": 1})
		expect(err, k == kNil || k == kMap && all(kids, number), "map[string]int")
		vsym.Assert(err != nil || len(v) == nl, "size")
	case 4:
		v, err := try[map[string]any](n, nil)
		expect(err, k == kNil || k == kMap, "map[string]any")
		_, has := v["a"]
		vsym.Assert(err != nil || has == (nl == 1), "entry")
	case 5:
		_, err := try[map[int]string](n, nil)
		expect(err, k == kNil || k == kMap && nl == 0, "map[int]string")
	case 6:
		_, err := try[map[bool]any](n, nil)
		expect(err, k == kNil || k == kMap && nl == 0, "map[bool]any")
	case 7:
		v, err := try[map[any]any](n, nil)
		expect(err, k == kNil || k == kMap, "map[any]any")
		_, has := v["a"]
		vsym.Assert(err != nil || has == (nl == 1), "entry")
	case 8:
		_, err := try[map[[2]int]any](n, nil)
		expect(err, k == kNil || k == kMap && nl == 0, "map[[2]int]any")
	case 9:
		v, err := try(n, S{7})
		expect(err, k == kNil || k == kMap && all(kids, number), "struct")
		vsym.Assert(err != nil || v.A == 7 || k == kNil || nl == 1, "fields without key are left alone")
	case 10:
		_, err := try(n, Fields{b: 3})
		expect(err, k == kNil || k == kMap, "struct with any")
	case 11:
		_, err := try(n, BadField{})
		expect(err, k == kNil || k == kMap && all(kids, null), "struct with a channel")
	case 12:
		_, err := try(n, Embed{})
		expect(err, k == kNil || k == kMap, "struct with an embedded pointer")
	case 13:
		_, err := try[[]any](n, nil)
		expect(err, k == kNil || k == kList, "[]any")
	case 14:
		_, err := try[[][]int](n, nil)
		expect(err, k == kNil || k == kList && all(kids, null), "[][]int")
	default:
		v, err := try[*S](n, nil)
		expect(err, k == kNil || k == kMap && all(kids, number), "*struct")
		vsym.Assert(err != nil || (v == nil) == (k == kNil), "null is a nil pointer")
	}
	vsym.Reach("end")
}

// H_Each: every element of a list and every entry of a map is unmarshalled on
// its own, whatever the others had.
//
//vsym:quick time=60
func H_Each() {
	type two struct {
		A, B int
		P    *int
		L    []int
	}
	n, want := [2]enc.Map{}, [2]two{}
	for i := range n {
		n[i] = enc.Map{}
		if vsym.Bool("A") {
			n[i]["A"] = enc.Integer(10 + i)
			want[i].A = 10 + i
		}
		if vsym.Bool("B") {
			n[i]["B"] = enc.Integer(20 + i)
			want[i].B = 20 + i
		}
		if vsym.Bool("more") {
			n[i]["P"], n[i]["L"] = enc.Integer(30+i), enc.List{enc.Integer(40 + i)}
			p := 30 + i
			want[i].P, want[i].L = &p, []int{40 + i}
		}
	}
	same := func(i int, got two) {
		w := want[i]
		vsym.Assert(got.A == w.A && got.B == w.B, "each has its own fields, and no others")
		vsym.Assert((got.P == nil) == (w.P == nil) && (w.P == nil || *got.P == *w.P), "each has its own pointer")
		vsym.Assert(len(got.L) == len(w.L) && (len(w.L) == 0 || got.L[0] == w.L[0]), "each has its own list")
	}
	c := ctx.TODO()
	m, l := enc.Map{"x": n[0], "y": n[1]}, enc.List{n[0], n[1]}
	switch vsym.Choice("target", 6) {
	case 0:
		var v map[string]two
		vsym.Assert(enc.Unmarshal(c, m, &v) == nil && len(v) == 2, "unmarshalled")
		same(0, v["x"])
		same(1, v["y"])
	case 1:
		var v map[string]*two
		vsym.Assert(enc.Unmarshal(c, m, &v) == nil && len(v) == 2 && v["x"] != nil && v["y"] != nil, "unmarshalled")
		same(0, *v["x"])
		same(1, *v["y"])
	case 2:
		var v []two
		vsym.Assert(enc.Unmarshal(c, l, &v) == nil && len(v) == 2, "unmarshalled")
		same(0, v[0])
		same(1, v[1])
	case 3:
		var v []*two
		vsym.Assert(enc.Unmarshal(c, l, &v) == nil && len(v) == 2 && v[0] != nil && v[1] != nil, "unmarshalled")
		same(0, *v[0])
		same(1, *v[1])
	case 4:
		var v [2]two
		vsym.Assert(enc.Unmarshal(c, l, &v) == nil, "unmarshalled")
		same(0, v[0])
		same(1, v[1])
	default:
		var v map[string][]two
		vsym.Assert(enc.Unmarshal(c, enc.Map{"x": enc.List{n[0]}, "y": enc.List{n[1]}}, &v) == nil && len(v["x"]) == 1 && len(v["y"]) == 1, "unmarshalled")
		same(0, v["x"][0])
		same(1, v["y"][0])
	}
	vsym.Reach("end")
}

type Place struct {
	List []S             `json:"list"`
	Map  map[string][2]S `json:"map"`
	Ptr  *Place          `json:"ptr"`
	End  []int
}

// H_Where: the error tells what could not be unmarshalled, and where.
//
//vsym:quick time=60
func H_Where() {
	bad := enc.Node(enc.String("x"))
	i := vsym.Choice("index", 2)
	with := func(n enc.Node) enc.List {
		l := enc.List{enc.Map{"a": enc.Integer(1)}, enc.Map{"a": enc.Integer(2)}}
		l[i] = n
		return l
	}
	index := []string{"[0]", "[1]"}[i]
	var n enc.Node
	var want []string
	switch vsym.Choice("where", 3) {
	case 0:
		n, want = enc.Map{"list": with(enc.Map{"a": bad})}, []string{"List" + index + ".A"}
	case 1:
		n, want = enc.Map{"map": enc.Map{"k": with(enc.Map{"a": bad})}}, []string{"Map", index + ".A"}
	default:
		n, want = enc.Map{"End": enc.List{enc.Integer(1), bad}}, []string{"End[1]"}
	}
	for d := vsym.Choice("nested", 3); d > 0; d-- {
		n = enc.Map{"ptr": n}
		want[0] = "Ptr." + want[0]
	}
	var p Place
	err := enc.Unmarshal(c, n, &p)
	vsym.Assert(err != nil, "what does not fit is an error")
	for _, w := range want {
		vsym.Assert(strings.Contains(err.Error(), w), "the error tells where")
	}
	vsym.Reach("end")
}

// H_Strange: any node into types that hold no data.
//
//vsym:quick time=60
func H_Strange() {
	n, k, kids := node()
	switch vsym.Choice("target", 6) {
	case 0:
		_, err := try(n, make(chan int))
		expect(err, k == kNil, "chan")
	case 1:
		_, err := try(n, func() {})
		expect(err, k == kNil, "func")
	case 2:
		_, err := try(n, complex(1, 2))
		expect(err, k == kNil, "complex")
	case 3:
		_, err := try(n, uintptr(1))
		expect(err, k == kNil || false, "uintptr")
	case 4:
		_, err := try[[]chan int](n, nil)
		expect(err, k == kNil || k == kList && all(kids, null), "[]chan")
	default:
		_, err := try[map[string]func()](n, nil)
		expect(err, k == kNil || k == kMap && all(kids, null), "map of func")
	}
	vsym.Reach("end")
}

// H_Json: any node into types that read JSON, or time.
//
//vsym:quick time=60
func H_Json() {
	n, k, kids := node()
	encodable := k != kText && all(kids, func(k kind) bool { return k != kText })
	switch vsym.Choice("target", 5) {
	case 0:
		v, err := try[json.RawMessage](n, nil)
		expect(err, encodable, "json.RawMessage")
		vsym.Assert(err != nil || json.Valid(v), "valid JSON")
	case 1:
		v, err := try(n, own{})
		expect(err, encodable, "json.Unmarshaler")
		vsym.Assert(err != nil || v.calls == 1 && json.Valid([]byte(v.got)), "its method is called with valid JSON")
	case 2:
		_, err := try(n, time.Time{})
		expect(err, k == kNil || k == kTime, "time.Time")
	case 3:
		v, err := try(n, enc.Duration(9))
		ok := k == kNil || k == kDuration
		if k == kString && n == enc.String("") {
			ok = true
		}
		if k == kString && err == nil {
			ok = true // texts are checked elsewhere
		}
		expect(err, ok, "enc.Duration")
		vsym.Assert(k != kDuration || v == 3, "enc.Duration")
	default:
		_, err := try(n, enc.Time{})
		if k != kNil { // null is refused, unlike for time.Time
			expect(err, k == kTime, "enc.Time")
		}
	}
	vsym.Reach("end")
}

type own struct {
	got   string
	calls int
}

func (o *own) UnmarshalJSON(j []byte) error {
	o.got = string(j)
	o.calls++
	return nil
}

var errOwn = errors.New("own error")

type failNode struct{}

func (failNode) MarshalNode(ctx.C) (enc.Node, error)      { return nil, errOwn }
func (*failNode) UnmarshalNode(c ctx.C, n enc.Node) error { return errOwn }

type failJSON struct{}

func (failJSON) MarshalJSON() ([]byte, error)  { return nil, errOwn }
func (*failJSON) UnmarshalJSON(j []byte) error { return errOwn }

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return []byte("{"), nil }

// H_MarshalAny: what can't be marshalled is an error wherever it is, and the
// errors of custom types are handed on.
//
//vsym:quick time=60
func H_MarshalAny() {
	var x any
	var is error
	ok := false
	switch vsym.Choice("what", 18) {
	case 0:
		x = make(chan int)
	case 1:
		x = func() {}
	case 2:
		x = complex(1, 2)
	case 3:
		x = map[bool]int{true: 1}
	case 4:
		x = map[[2]int]int{{1, 2}: 1}
	case 5:
		x = map[S]int{{1}: 1}
	case 6:
		x, is = failNode{}, errOwn
	case 7:
		x, is = failJSON{}, errOwn
	case 8:
		x = badJSON{}
	case 9:
		x = uintptr(3)
	case 10:
		x = map[any]int{nil: 1}
	case 11:
		x, ok = map[any]int{"a": 1, 2: 2}, true
	case 12:
		x, ok = (*failNode)(nil), true
	case 13:
		x, ok = (*failJSON)(nil), true
	case 14:
		x, ok = map[float64]int{1.5: 1}, true
	case 15:
		x, ok = map[named]int{"k": 1}, true
	case 16:
		x, ok = struct{ a chan int }{}, true
	default:
		x, ok = struct {
			A chan int `json:"-"`
		}{}, true
	}
	switch vsym.Choice("where", 6) {
	case 1:
		x = []any{1, x}
	case 2:
		x = map[string]any{"k": x}
	case 3:
		x = struct{ X any }{x}
	case 4:
		y := x
		x = &y
	case 5:
		x = [1]any{[]any{x}}
	}
	n, err := enc.Marshal(c, x)
	if ok {
		vsym.Assert(err == nil && n != nil, "marshalled")
	} else {
		vsym.Assert(err != nil, "what can't be marshalled is an error")
		vsym.Assert(is == nil || errors.Is(err, is), "the error of the type is handed on")
	}
	vsym.Reach("end")
}

// H_CustomErrors: errors of custom types are handed on when unmarshalling.
//
//vsym:quick time=60
func H_CustomErrors() {
	n, k, _ := node()
	var err error
	which := vsym.Choice("which", 2)
	reached := true
	switch vsym.Choice("where", 4) {
	case 0:
		if which == 0 {
			_, err = try(n, failNode{})
		} else {
			_, err = try(n, failJSON{})
			reached = k != kText
		}
	case 1:
		n = enc.List{enc.Nil{}, n}
		if which == 0 {
			_, err = try[[]*failNode](n, nil)
		} else {
			_, err = try[[]*failJSON](n, nil)
			reached = k != kText
		}
		if k == kNil {
			vsym.Assert(err == nil, "methods are not called on nil pointers")
			vsym.Done()
		}
	case 2:
		n = enc.Map{"k": n}
		if which == 0 {
			_, err = try[map[string]failNode](n, nil)
		} else {
			_, err = try[map[string]failJSON](n, nil)
			reached = k != kText
		}
	default:
		n = enc.Map{"N": n}
		if which == 0 {
			_, err = try(n, struct{ N failNode }{})
		} else {
			_, err = try(n, struct{ N failJSON }{})
			reached = k != kText
		}
	}
	vsym.Assert(err != nil, "an error")
	_ = reached
	if which == 0 {
		vsym.Assert(errors.Is(err, errOwn), "the error of the type is handed on")
	}
	vsym.Reach("end")
}

// H_Factory: a factory decides what an interface holds.
//
//vsym:quick time=60
func H_Factory() {
	n, k, _ := node()
	how := vsym.Choice("how", 5)
	calls := 0
	var h enc.Handler
	ptr := (*fmt.Stringer)(nil)
	h.Factory = map[reflect.Type]func(ctx.C, enc.Node) (any, error){reflect.TypeOf(ptr).Elem(): func(_ ctx.C, got enc.Node) (any, error) {
		calls++
		switch how {
		case 0:
			return time.Duration(5), nil
		case 1:
			return nil, errOwn
		case 2:
			return nil, nil
		case 3:
			return 3, nil // not a Stringer
		default:
			var d *time.Duration
			return d, nil
		}
	}}
	var v fmt.Stringer
	err := h.Unmarshal(c, n, &v)
	vsym.Assert(calls == 1, "the factory is asked")
	switch how {
	case 0:
		vsym.Assert(err == nil && v == time.Duration(5), "what it made is used")
	case 1:
		vsym.Assert(errors.Is(err, errOwn), "its error is returned")
	case 2, 3:
		vsym.Assert(err != nil, "something else is an error")
	default:
		vsym.Assert(err == nil, "a nil pointer may have the methods")
	}
	_ = k
	vsym.Reach("end")
}

type made struct{ s string }

func (m *made) String() string { return m.s }

// H_FactoryEach: a factory is asked for each value, of any type it is for, and
// each gets its own.
//
//vsym:quick time=60
func H_FactoryEach() {
	var got []string
	h := enc.Handler{Factory: map[reflect.Type]func(ctx.C, enc.Node) (any, error){
		reflect.TypeOf((*fmt.Stringer)(nil)).Elem(): func(_ ctx.C, n enc.Node) (any, error) {
			s, ok := n.(enc.String)
			if !ok {
				return nil, errOwn
			}
			got = append(got, string(s))
			return &made{string(s)}, nil
		},
		reflect.TypeOf(made{}): func(_ ctx.C, n enc.Node) (any, error) {
			return made{"struct"}, nil
		},
	}}
	ss := []string{"a", "b", ""}
	n := 1 + vsym.Choice("n", 3)
	var list enc.List
	var want []string
	for i := 0; i < n; i++ {
		s := ss[vsym.Choice("s", 3)]
		list = append(list, enc.String(s))
		want = append(want, s)
	}
	in := enc.Map{"l": list, "m": enc.Map{"x": list[0]}, "one": list[n-1], "made": enc.Integer(7)}
	bad := vsym.Bool("one it refuses")
	if bad {
		in["l"] = append(list[:n:n], enc.Integer(1))
	}
	var v struct {
		L    []fmt.Stringer          `json:"l"`
		M    map[string]fmt.Stringer `json:"m"`
		One  fmt.Stringer            `json:"one"`
		Made *made                   `json:"made"`
	}
	err := h.Unmarshal(c, in, &v)
	if bad {
		vsym.Assert(errors.Is(err, errOwn), "its error is returned")
		return
	}
	vsym.Assert(err == nil, "unmarshalled")
	vsym.Assert(len(got) == n+2, "the factory is asked for each")
	vsym.Assert(len(v.L) == n && v.Made.s == "struct", "as many as there are")
	seen := map[*made]bool{}
	for i, x := range append(append([]fmt.Stringer{}, v.L...), v.M["x"], v.One) {
		m := x.(*made)
		vsym.Assert(m.s == append(want, want[0], want[n-1])[i], "what was made of it is there")
		vsym.Assert(!seen[m], "each has its own")
		seen[m] = true
	}
	vsym.Reach("end")
}

// H_Concurrent: unmarshalling at the same time, also into types which are
// warned about once.
//
//vsym:all race=1
//vsym:quick time=60 preempt=1
//vsym:thorough time=300 preempt=2
func H_Concurrent() {
	n := enc.Map{"a": enc.Integer(1)}
	done := make(chan error, 2)
	for i := 0; i < 2; i++ {
		go func() {
			var o own
			var r json.RawMessage
			err := enc.Unmarshal(c, n, &o)
			if err == nil {
				err = enc.Unmarshal(c, n, &r)
			}
			if o.calls != 1 || !json.Valid(r) {
				err = errOwn
			}
			done <- err
		}()
	}
	vsym.Assert(<-done == nil && <-done == nil, "both succeed")
	vsym.Reach("end")
}
