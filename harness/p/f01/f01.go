// Package f01: configuration.
//
//vsym:assume the lookup function gives the same answer each time
//vsym:outside other field types than the ones below; longer values than stated; defaults which contain a comma
package f01

import (
	"context"
	"encoding/json"
	"errors"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/config"
	"github.com/Aize-Public/forego/ctx"
)

var c ctx.C = context.Background()

type Name string
type Flag bool
type Num int
type Key string

var errParse = errors.New("parse")

// Level reads itself, with the context.
type Level struct{ v string }

func (l *Level) UnmarshalText(c ctx.C, s string) error {
	if s == "bad" {
		return errParse
	}
	l.v = "level " + s
	return nil
}

// Text reads itself the standard way.
type Text struct{ v string }

func (t *Text) UnmarshalText(b []byte) error {
	if string(b) == "bad" {
		return errParse
	}
	t.v = "text " + string(b)
	return nil
}

// JSON reads itself from JSON.
type JSON struct{ v any }

func (j *JSON) UnmarshalJSON(b []byte) error { return json.Unmarshal(b, &j.v) }

func lookup(m map[string]string) func(string) string {
	return func(k string) string { return m[k] }
}

// H_Presence: each field is its value, or its default, or it is an error.
//
//vsym:all native=16
//vsym:thorough time=300
func H_Presence() {
	type T struct {
		Must  string `config:"must"`
		Def   string `config:"def,default=d:=1"`
		Empty string `config:"empty,default="`
		Bare  string `config:"bare,default"`
		Other string
		JSON  string `json:"must"`
		Num   int    `config:"num,default=42"`
	}
	m := map[string]string{"Other": "x", "JSON": "y", "": "z"}
	for _, k := range []string{"must", "def", "empty", "bare", "num"} {
		if vsym.Bool("has " + k) {
			if k == "num" {
				m[k] = "7"
			} else {
				m[k] = vsym.StringIn(k, 0, vsym.Bound("length", 1, 2), "a,= ")
			}
		}
	}
	base := T{Must: "m0", Def: "d0", Empty: "e0", Bare: "b0", Other: "o", JSON: "j", Num: 1}
	given := base
	var asked []string
	got, err := config.From(c, given, func(k string) string {
		asked = append(asked, k)
		return m[k]
	})
	vsym.Assert(given == base, "what was given is not changed")
	if m["must"] == "" {
		vsym.Assert(err != nil && strings.Contains(err.Error(), "must"), "what is missing is an error which names it")
		_, p := vsym.Panics(func() { config.Must(c, base, lookup(m)) })
		vsym.Assert(p, "Must panics on errors")
		vsym.Reach("missing")
		return
	}
	vsym.Assert(err == nil, "all there")
	or := func(k, def string) string {
		if m[k] != "" {
			return m[k]
		}
		return def
	}
	n, _ := strconv.Atoi(or("num", "42"))
	want := T{Must: m["must"], Def: or("def", "d:=1"), Empty: m["empty"], Bare: m["bare"], Other: "o", JSON: "j", Num: n}
	vsym.Assert(got == want, "each field is its value or its default, others are not changed")
	vsym.Assert(config.Must(c, base, lookup(m)) == want, "Must is the same without errors")
	vsym.Assert(len(asked) == 5, "each is asked for once")
	vsym.Reach("presence")
}

// H_Bool: what is true, what is false, and nothing else.
//
//vsym:all native=16
//vsym:quick time=60
//vsym:thorough time=300
func H_Bool() {
	var s string
	switch vsym.Choice("kind", 3) {
	case 0:
		s = vsym.StringIn("s", 0, 3, "yYeEsSnNoO01 ")
	case 1:
		s = vsym.StringIn("t", 4, 4, "tTrRuUeE")
	case 2:
		words := []string{"false", "FALSE", "False", "fals", "falsee", "t", "f", "on", "off", "2", "true "}
		s = words[vsym.Choice("w", len(words))]
	}
	type T struct {
		B bool `config:"b,default="`
		F Flag `config:"f,default=yes"`
	}
	got, err := config.From(c, T{B: true}, lookup(map[string]string{"b": s}))
	l := strings.ToLower(s)
	yes := l == "true" || l == "1" || l == "yes" || l == "y"
	no := l == "" || l == "false" || l == "0" || l == "no" || l == "n"
	vsym.Assert((err == nil) == (yes || no), "anything else is an error")
	if err == nil {
		vsym.Assert(got.B == yes && bool(got.F), "what is true is true")
	}
	got, err = config.From(c, T{}, lookup(map[string]string{"b": "1", "f": s}))
	vsym.Assert((err == nil) == (yes || no), "the same for a type of its own")
	if err == nil {
		vsym.Assert(bool(got.F) == (yes || s == ""), "or its default")
	}
	vsym.Reach("bool")
}

// H_Int: a number is that number, or an error.
//
//vsym:all native=16
//vsym:quick time=60
//vsym:thorough time=300
func H_Int() {
	var s string
	want, ok := 0, false
	if vsym.Bool("number") {
		n := vsym.Int64("n", -1<<63, 1<<63-1)
		s = strconv.FormatInt(n, 10)
		want, ok = int(n), true
	} else {
		words := []string{"9223372036854775808", "-9223372036854775809", "1.5", "0x10", "1_0", "1e3", " 1", "1 ", "+", "-", "a", "--1", "１", "+5", "-0", "007", "++1", "+-1", "-+1", "0b1", "1,2", "\t1"}
		s = words[vsym.Choice("w", len(words))]
		switch s {
		case "+5":
			want, ok = 5, true
		case "-0":
			want, ok = 0, true
		case "007":
			want, ok = 7, true
		}
	}
	type T struct {
		I int `config:"i"`
		N Num `config:"i"`
	}
	got, err := config.From(c, T{I: 3, N: 4}, lookup(map[string]string{"i": s}))
	vsym.Assert((err == nil) == ok, "what is no number is an error")
	if err == nil {
		vsym.Assert(got.I == want && int(got.N) == want, "the number")
	}
	vsym.Reach("int")
}

// H_List: lists and maps, of everything a single value can be.
//
//vsym:all native=16
//vsym:quick time=60
//vsym:thorough time=300
func H_List() {
	type T struct {
		L  []string          `config:"l,default="`
		Ns []Num             `config:"ns,default="`
		Fs []Flag            `config:"fs,default="`
		M  map[string]string `config:"m,default="`
		MK map[Key]int       `config:"mk,default=x=1"`
		Ts []Text            `config:"ts,default=a"`
	}
	l := vsym.StringIn("l", 0, vsym.Bound("length", 4, 5), "a,")
	m := vsym.StringIn("m", 0, vsym.Bound("length", 4, 5), "a,=")
	got, err := config.From(c, T{}, lookup(map[string]string{"l": l, "m": m, "ns": "1,-2,3", "fs": "yes,,0"}))
	vsym.Assert(err == nil, "any text is a list and a map of texts")
	if l == "" {
		vsym.Assert(len(got.L) == 0, "nothing is the empty list")
	} else {
		vsym.Assert(strings.Join(got.L, ",") == l && len(got.L) == strings.Count(l, ",")+1, "the elements in order")
	}
	vsym.Assert(reflect.DeepEqual(got.Ns, []Num{1, -2, 3}), "numbers")
	vsym.Assert(reflect.DeepEqual(got.Fs, []Flag{true, false, false}), "flags")
	vsym.Assert(len(got.Ts) == 1 && got.Ts[0].v == "text a", "what reads itself")
	vsym.Assert(len(got.MK) == 1 && got.MK["x"] == 1, "keys of their own type")
	want := map[string]string{}
	if m != "" {
		for _, e := range strings.Split(m, ",") {
			k, v, _ := strings.Cut(e, "=")
			want[k] = v
		}
	}
	vsym.Assert(len(got.M) == len(want), "the entries of the map")
	for k, v := range want {
		x, ok := got.M[k]
		vsym.Assert(ok && x == v, "the entries of the map")
	}
	vsym.Reach("list")
}

// H_BadList: one bad element is an error.
//
//vsym:all native=8
func H_BadList() {
	type T struct {
		Ns []int          `config:"ns,default=1"`
		Fs []bool         `config:"fs,default=1"`
		Mi map[string]int `config:"mi,default=a=1"`
		Ls []Level        `config:"ls,default=a"`
		Tx []Text         `config:"tx,default=a"`
	}
	bad := []struct{ k, v string }{{"ns", "1,x"}, {"ns", "1,,2"}, {"fs", "maybe,1"}, {"mi", "a=1,b"}, {"mi", "a=x"}, {"ls", "ok,bad"}, {"tx", "bad,ok"}}
	b := bad[vsym.Choice("bad", len(bad))]
	_, err := config.From(c, T{}, lookup(map[string]string{b.k: b.v}))
	vsym.Assert(err != nil, "a bad element is an error")
	if strings.Contains(b.v, "bad") {
		vsym.Assert(errors.Is(err, errParse), "with its cause")
	}
	got, err := config.From(c, T{}, lookup(nil))
	vsym.Assert(err == nil && len(got.Ns) == 1 && got.Ls[0].v == "level a", "defaults")
	vsym.Reach("bad list")
}

// H_Custom: types which read themselves.
//
//vsym:all native=8
func H_Custom() {
	type T struct {
		L Level     `config:"l"`
		T Text      `config:"t"`
		J JSON      `config:"j"`
		W time.Time `config:"w"`
		N Name      `config:"n"`
	}
	texts := []string{"a", "bad", "null", "1", "2023-01-02T03:04:05Z"}
	x := func(name string) string { return texts[vsym.Choice(name, len(texts))] }
	m := map[string]string{"l": "a", "t": "a", "j": "1", "w": texts[4], "n": "n"}
	k := []string{"l", "t", "j", "w", "n"}[vsym.Choice("which", 5)]
	m[k] = x("value")
	got, err := config.From(c, T{}, lookup(m))
	ok := m["l"] != "bad" && m["t"] != "bad" && (m["j"] == "1" || m["j"] == "null") && m["w"] == texts[4]
	vsym.Assert((err == nil) == ok, "their errors are errors")
	if ok {
		vsym.Assert(got.L.v == "level "+m["l"] && got.T.v == "text "+m["t"] && string(got.N) == m["n"], "they get the text")
		vsym.Assert((got.J.v == nil) == (m["j"] == "null"), "or JSON")
		vsym.Assert(got.W.Equal(time.Date(2023, 1, 2, 3, 4, 5, 0, time.UTC)), "a time")
	} else if k == "l" || k == "t" {
		vsym.Assert(errors.Is(err, errParse), "with their cause")
	}
	vsym.Reach("custom")
}

// H_Shared: configurations made from the same base do not affect each other.
//
//vsym:all native=8
func H_Shared() {
	type T struct {
		L []string          `config:"l,default="`
		M map[string]string `config:"m,default="`
	}
	base := T{L: make([]string, vsym.Choice("len", 2), 4), M: map[string]string{}}
	size := vsym.Choice("size", 2)
	if size == 1 {
		base.M["k"] = "v"
	}
	a := []string{"", "a", "a1,a2"}[vsym.Choice("a", 3)]
	b := []string{"", "b", "b1,b2"}[vsym.Choice("b", 3)]
	one, err := config.From(c, base, lookup(map[string]string{"l": a, "m": a}))
	vsym.Assert(err == nil, "one")
	before := strings.Join(one.L, ";")
	two, err := config.From(c, base, lookup(map[string]string{"l": b, "m": b}))
	vsym.Assert(err == nil, "two")
	vsym.Assert(strings.Join(one.L, ";") == before, "one is not changed by two")
	vsym.Assert(strings.HasSuffix(strings.Join(one.L, ","), a) && strings.HasSuffix(strings.Join(two.L, ","), b), "each has its own")
	vsym.Assert(len(base.M) == size && (size == 0 || base.M["k"] == "v"), "nor is the base")
	for _, x := range []struct {
		text string
		m    map[string]string
	}{{a, one.M}, {b, two.M}} {
		n := 0
		for _, k := range strings.Split(x.text, ",") {
			if _, ok := x.m[k]; k != "" {
				vsym.Assert(ok, "each has its own entries")
				n++
			}
		}
		vsym.Assert(x.text == "" || len(x.m) == n, "and no others")
	}
	for _, x := range base.L[:cap(base.L)] {
		vsym.Assert(x == "", "nor is the base")
	}
	vsym.Reach("shared")
}

// H_Refused: what can't be a configuration is an error and never a panic.
//
//vsym:all native=8
func H_Refused() {
	all := lookup(map[string]string{"a": "1", "b": "x=1"})
	try := func(f func() error) {
		var err error
		msg, p := vsym.Panics(func() { err = f() })
		if p {
			vsym.ObserveStr("panic", msg)
		}
		vsym.Assert(!p, "never a panic")
		vsym.Assert(err != nil, "an error")
	}
	switch vsym.Choice("what", 14) {
	case 0:
		try(func() error { _, err := config.From(c, 5, all); return err })
	case 1:
		try(func() error { _, err := config.From(c, &struct{}{}, all); return err })
	case 2:
		try(func() error { _, err := config.From[any](c, nil, all); return err })
	case 3:
		try(func() error { _, err := config.From(c, map[string]string{}, all); return err })
	case 4:
		try(func() error {
			_, err := config.From(c, struct {
				a string `config:"a"`
			}{}, all)
			return err
		})
	case 5:
		try(func() error {
			_, err := config.From(c, struct {
				A chan int `config:"a"`
			}{}, all)
			return err
		})
	case 6:
		try(func() error {
			_, err := config.From(c, struct {
				A *int `config:"a"`
			}{}, all)
			return err
		})
	case 7:
		try(func() error {
			_, err := config.From(c, struct {
				A any `config:"a"`
			}{}, all)
			return err
		})
	case 8:
		try(func() error {
			_, err := config.From(c, struct {
				A map[int]int `config:"b"`
			}{}, all)
			return err
		})
	case 9:
		try(func() error {
			_, err := config.From(c, struct {
				A []func() `config:"a"`
			}{}, all)
			return err
		})
	case 10:
		try(func() error {
			_, err := config.From(c, struct {
				A string `config:"a,required"`
			}{}, all)
			return err
		})
	case 11:
		try(func() error {
			_, err := config.From(c, struct {
				A string `config:"a,default=x,y"`
			}{}, all)
			return err
		})
	case 12:
		try(func() error {
			_, err := config.From(c, struct {
				A struct{ B int } `config:"a"`
			}{}, all)
			return err
		})
	case 13:
		try(func() error {
			_, err := config.From(c, struct {
				A map[string]chan int `config:"b"`
			}{}, all)
			return err
		})
	}
	vsym.Reach("refused")
}

// H_Long: the same for long lists, and for types with many fields.
//
//vsym:all native=4 fuel=20000000
func H_Long() {
	type T struct {
		L   []int          `config:"l,default="`
		M   map[string]int `config:"m,default="`
		F0  int            `config:"f0,default=100"`
		F1  int            `config:"f1,default=101"`
		F2  int            `config:"f2,default=102"`
		F3  int            `config:"f3,default=103"`
		F4  int            `config:"f4,default=104"`
		F5  int            `config:"f5,default=105"`
		F6  int            `config:"f6,default=106"`
		F7  int            `config:"f7,default=107"`
		F8  int            `config:"f8,default=108"`
		F9  int            `config:"f9,default=109"`
		F10 int            `config:"f10,default=110"`
		F11 int            `config:"f11,default=111"`
		F12 int            `config:"f12,default=112"`
		F13 int            `config:"f13,default=113"`
		F14 int            `config:"f14,default=114"`
		F15 int            `config:"f15,default=115"`
		F16 int            `config:"f16,default=116"`
		F17 int            `config:"f17,default=117"`
		F18 int            `config:"f18,default=118"`
		F19 int            `config:"f19,default=119"`
		F20 int            `config:"f20,default=120"`
		F21 int            `config:"f21,default=121"`
		F22 int            `config:"f22,default=122"`
		F23 int            `config:"f23,default=123"`
		F24 int            `config:"f24,default=124"`
		F25 int            `config:"f25,default=125"`
		F26 int            `config:"f26,default=126"`
		F27 int            `config:"f27,default=127"`
		F28 int            `config:"f28,default=128"`
		F29 int            `config:"f29,default=129"`
		F30 int            `config:"f30,default=130"`
		F31 int            `config:"f31,default=131"`
		F32 int            `config:"f32,default=132"`
		F33 int            `config:"f33,default=133"`
		F34 int            `config:"f34,default=134"`
		F35 int            `config:"f35,default=135"`
		F36 int            `config:"f36,default=136"`
		F37 int            `config:"f37,default=137"`
		F38 int            `config:"f38,default=138"`
		F39 int            `config:"f39,default=139"`
	}
	n := []int{17, 80, 300}[vsym.Choice("n", 3)]
	at := vsym.Choice("at", 3) * (n - 1) / 2
	x := "x"[:vsym.Choice("bad", 2)]
	l, m := "", ""
	for i := 0; i < n; i++ {
		v := strconv.Itoa(i * 3)
		if i == at {
			v += x
		}
		l += "," + v
		m += ",k" + strconv.Itoa(i) + "=" + v
	}
	which := vsym.Choice("which", 2)
	env := map[string]string{[]string{"l", "m"}[which]: []string{l[1:], m[1:]}[which]}
	has := vsym.Choice("has", 40)
	env["f"+strconv.Itoa(has)] = "7"
	got, err := config.From(c, T{}, lookup(env))
	if x != "" {
		vsym.Assert(err != nil, "a bad element is an error")
		vsym.Reach("bad")
		return
	}
	vsym.Assert(err == nil, "read")
	if which == 0 {
		vsym.Assert(len(got.L) == n && len(got.M) == 0, "as many")
		for i := range got.L {
			vsym.Assert(got.L[i] == i*3, "the elements in order")
		}
	} else {
		vsym.Assert(len(got.M) == n && len(got.L) == 0, "as many")
		for i := 0; i < n; i++ {
			v, ok := got.M["k"+strconv.Itoa(i)]
			vsym.Assert(ok && v == i*3, "the entries of the map")
		}
	}
	v := reflect.ValueOf(got)
	for i := 0; i < 40; i++ {
		want := int64(100 + i)
		if i == has {
			want = 7
		}
		vsym.Assert(v.Field(2+i).Int() == want, "each field is its value or its default")
	}
	vsym.Reach("end")
}

// H_Verbatim: nothing is added to, removed from or changed in a text, be it a
// value, a default, an element or an entry, whatever its letters are.
//
//vsym:all native=16
//vsym:quick time=60
func H_Verbatim() {
	type T struct {
		S  string            `config:"s"`
		N  Name              `config:"n,default= Ab C/$x\u00e9 \"Q\" %d "`
		U  string            `config:"u,default=TRUE"`
		L  []string          `config:"l,default= A "`
		M  map[string]string `config:"m,default=Kk=V v"`
		MK map[Key]Name      `config:"mk,default= X = y "`
	}
	in := map[string]string{"s": "s"}
	which := []string{"s", "n", "u", "l", "m", "mk", ""}[vsym.Choice("which", 7)]
	x := ""
	if which != "" {
		switch vsym.Choice("kind", 3) {
		case 0:
			x = vsym.String("x", 1, 2)
			vsym.Assume(!strings.ContainsAny(x, ",="))
		case 1:
			x = vsym.StringIn("x", 1, 3, " aA\t")
		default:
			x = []string{"$HOME", "${s}", "%s", "\\n", "\"q\"", "'q'", "a\nb", "~/x", "#c", "0x10", "é", "null", "[]"}[vsym.Choice("odd", 13)]
		}
		in[which] = x
		if which == "m" || which == "mk" {
			in[which] = "k" + x + "=" + x
		}
	}
	got, err := config.From(c, T{}, lookup(in))
	vsym.Assert(err == nil, "any text is right")
	is := func(k, def string) string {
		if k == which {
			return x
		}
		return def
	}
	vsym.Assert(got.S == is("s", "s"), "a value")
	vsym.Assert(string(got.N) == is("n", " Ab C/$xé \"Q\" %d "), "a value or its default")
	vsym.Assert(got.U == is("u", "TRUE"), "a value or its default")
	vsym.Assert(len(got.L) == 1 && got.L[0] == is("l", " A "), "an element")
	v, ok := got.M["k"+x]
	if which != "m" {
		v, ok = got.M["Kk"]
	}
	vsym.Assert(len(got.M) == 1 && ok && v == is("m", "V v"), "an entry")
	w, ok := got.MK[Key("k"+x)]
	if which != "mk" {
		w, ok = got.MK[" X "]
	}
	vsym.Assert(len(got.MK) == 1 && ok && string(w) == is("mk", " y "), "an entry with types of its own")
	vsym.Reach("verbatim")
}
