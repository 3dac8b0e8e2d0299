// Package k01: the key value storage.
//
//vsym:assume what is stored or given back is not modified by the caller afterwards
//vsym:outside implementations other than the one in memory; numbers with exponents beyond 64 bits; the comparison of a time or a duration with its text; larger histories than stated
package k01

import (
	"context"
	"errors"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/storage"
)

var c ctx.C = context.Background()

var keys = []string{"a", "b", ""}

func scan(kv storage.KeyValue, filters ...storage.Filter) map[string]enc.Map {
	out := map[string]enc.Map{}
	err := kv.Range(c, func(c ctx.C, k string, v enc.Map) error {
		_, dup := out[k]
		vsym.Assert(!dup, "each key once")
		out[k] = v
		return nil
	}, filters...)
	vsym.Assert(err == nil, "scanned")
	return out
}

// H_History: every history of operations, against a map.
//
//vsym:all native=16
//vsym:thorough time=300
func H_History() {
	kv := storage.NewMemKeyValue()
	ref := map[string]int64{}
	n := vsym.Bound("steps", 4, 6)
	for i := 0; i < n; i++ {
		k := keys[vsym.Choice("key", 2)]
		switch vsym.Choice("op", 3) {
		case 0:
			v := vsym.Int64("v", -9, 9)
			vsym.Assert(kv.Upsert(c, k, enc.Map{"v": enc.Integer(v)}) == nil, "stored")
			ref[k] = v
		case 1:
			vsym.Assert(kv.Delete(c, k) == nil, "deleted, if it was there")
			delete(ref, k)
		case 2:
			all := scan(kv)
			vsym.Assert(len(all) == len(ref), "all are scanned")
			for k, v := range ref {
				vsym.Assert(all[k]["v"] == enc.Node(enc.Integer(v)), "with what was stored last")
			}
		}
		for _, k := range keys {
			m, err := kv.Get(c, k)
			v, ok := ref[k]
			vsym.Assert(err == nil && (m != nil) == ok, "there is what was stored and not deleted")
			vsym.Assert(!ok || m["v"] == enc.Node(enc.Integer(v)), "which is what was stored last")
		}
	}
	vsym.Reach("history")
}

// value is a node and what it is in JSON, where equal values have the same
// text.
type value struct {
	n enc.Node
	j string
}

func values(name string) value {
	list := []value{
		{nil, "null"},
		{enc.Nil{}, "null"},
		{enc.Bool(true), "true"},
		{enc.Bool(false), "false"},
		{enc.Integer(0), "0"},
		{enc.Integer(1), "1"},
		{enc.Digits("1"), "1"},
		{enc.Float(1), "1"},
		{enc.Float(1.5), "1.5"},
		{enc.Digits("1.5"), "1.5"},
		{enc.Integer(1 << 60), "1<<60"},
		{enc.Integer(1<<60 + 1), "1<<60+1"},
		{enc.Float(1e20), "1e20"},
		{enc.Digits("100000000000000000000"), "1e20"},
		{enc.Digits("100000000000000000001"), "1e20+1"},
		{enc.Float(1234567), "1234567"},
		{enc.Integer(1234567), "1234567"},
		{enc.Float(math.NaN()), "NaN"},
		{enc.Float(math.Inf(1)), "+Inf"},
		{enc.Float(math.Inf(-1)), "-Inf"},
		{enc.String(""), `""`},
		{enc.String("1"), `"1"`},
		{enc.String("null"), `"null"`},
		{enc.String("enc.Nil{}"), `"enc.Nil{}"`},
		{enc.List{}, `[]`},
		{enc.List{enc.Integer(1), enc.String("a")}, `[1,"a"]`},
		{enc.List{enc.Digits("1"), enc.String("a")}, `[1,"a"]`},
		{enc.List{enc.String("1"), enc.String("a")}, `["1","a"]`},
		{enc.List{enc.String("a"), enc.Integer(1)}, `["a",1]`},
		{enc.Map{}, `{}`},
		{enc.Map{"a": enc.Integer(1), "b": enc.Nil{}, "c": enc.Bool(true)}, `{"a":1,"b":null,"c":true}`},
		{enc.Map{"a": enc.Integer(1), "b": enc.Nil{}, "c": enc.Bool(true)}, `{"a":1,"b":null,"c":true}`},
		{enc.Pairs{{Name: "A", JSON: "a", Value: enc.Integer(1)}}, `{"a":1}`},
		{enc.Map{"a": enc.Integer(1)}, `{"a":1}`},
		{enc.Map{"a": enc.Map{"x": enc.Integer(1), "y": enc.Integer(2)}}, `{"a":{"x":1,"y":2}}`},
		{enc.Time(time.Unix(1700000000, 0).UTC()), `"2023-11-14T22:13:20Z"`},
		{enc.Time(time.Unix(1700000000, 1).UTC()), `"2023-11-14T22:13:20.000000001Z"`},
		{enc.Time(time.Unix(1700000000, 1).In(time.FixedZone("x", 3600))), `"2023-11-14T22:13:20.000000001Z"`},
		{enc.Duration(time.Second), `1s`},
		{enc.Duration(time.Second + 1), `1.000000001s`},
		{enc.List{nil}, `[null]`},
		{enc.List{enc.Nil{}}, `[null]`},
		{enc.List{enc.String("a, b")}, `["a, b"]`},
		{enc.List{enc.String("a"), enc.String("b")}, `["a","b"]`},
		{enc.List{enc.List{enc.Integer(1)}, enc.Integer(2)}, `[[1],2]`},
		{enc.List{enc.List{enc.Digits("1"), enc.Integer(2)}}, `[[1,2]]`},
		{enc.Pairs{{Name: "B", JSON: "b", Value: enc.Nil{}}, {Name: "C", JSON: "c", Value: enc.Bool(true)}, {Name: "A", JSON: "a", Value: enc.Integer(1)}}, `{"a":1,"b":null,"c":true}`},
		{enc.Map{"a": enc.Integer(1), "b": enc.Nil{}, "d": enc.Bool(true)}, `{"a":1,"b":null,"d":true}`},
		{enc.Map{"a": enc.Integer(1), "b": enc.Nil{}}, `{"a":1,"b":null}`},
		{enc.Pairs{}, `{}`},
		{enc.Map{"a": nil}, `{"a":null}`},
		{enc.Map{"b": enc.Nil{}}, `{"b":null}`},
		{enc.Map{"b": enc.Integer(1)}, `{"b":1}`},
		{enc.Digits("-0"), "0"},
		{enc.Float(math.Copysign(0, -1)), "0"},
		{enc.Digits("-0.00e7"), "0"},
		{enc.Digits("0e-3"), "0"},
	}
	v := list[vsym.Choice(name, len(list))]
	vsym.MapOrder(true)
	return v
}

// H_Equal: a filter compares values, not the way they are held in memory.
//
//vsym:all native=16
//vsym:quick time=60
func H_Equal() {
	stored, wanted := values("stored"), values("wanted")
	m := enc.Map{"other": enc.Integer(1)}
	if stored.n != nil {
		m["f"] = stored.n
	}
	want := stored.j == wanted.j
	if vsym.Bool("equal") {
		eq, err := storage.Filter{Field: "f", Cmp: storage.Equal, Val: wanted.n}.Check(c, m)
		vsym.Assert(err == nil && eq == want, "equal exactly if it is the same value")
	} else {
		ne, err := storage.Filter{Field: "f", Cmp: storage.NotEqual, Val: wanted.n}.Check(c, m)
		vsym.Assert(err == nil && ne == !want, "not equal exactly if it is not")
	}
	vsym.Reach("equal")
}

// H_Symbolic: the same for any number and text.
//
//vsym:all native=16
//vsym:quick time=60
//vsym:thorough time=300
func H_Symbolic() {
	var a, b enc.Node
	want := false
	if vsym.Bool("text") {
		n := vsym.Bound("length", 2, 3)
		x, y := vsym.StringIn("x", 0, n, "a\"\\\n1"), vsym.StringIn("y", 0, n, "a\"\\\n1")
		a, b = enc.String(x), enc.String(y)
		want = x == y
	} else {
		top := int64(vsym.Bound("largest number", 9999, 9999999))
		x, y := vsym.Int64("i", -99, top), vsym.Int64("j", -top, 99)
		a, b = enc.Integer(x), enc.Integer(y)
		want = x == y
	}
	f := storage.Filter{Field: "f", Cmp: storage.Equal, Val: b}
	eq, err := f.Check(c, enc.Map{"f": a})
	vsym.Assert(err == nil && eq == want, "equal exactly if it is the same")
	f.Cmp = storage.NotEqual
	ne, err := f.Check(c, enc.Map{"f": a})
	vsym.Assert(err == nil && ne == !want, "not equal exactly if it is not")
	vsym.Reach("symbolic")
}

// H_Unsupported: what can't be compared selects nothing, and is told.
//
//vsym:all native=8
func H_Unsupported() {
	kv := storage.NewMemKeyValue()
	_ = kv.Upsert(c, "a", enc.Map{"f": enc.Integer(1)})
	cmps := []storage.Cmp{"", "LIKE", "eq", "X"}
	f := storage.Filter{Field: "f", Cmp: cmps[vsym.Choice("cmp", len(cmps))], Val: enc.Integer(int64(vsym.Choice("v", 3)))}
	err := kv.Range(c, func(ctx.C, string, enc.Map) error {
		vsym.Fail("nothing is selected")
		return nil
	}, f)
	vsym.Assert(err != nil, "it is an error")
	vsym.Assert(len(scan(kv)) == 1, "and the storage is fine")
	vsym.Reach("unsupported")
}

// H_Range: exactly what matches all the filters is scanned, until the end is
// asked for; the storage can be used meanwhile.
//
//vsym:all native=16
//vsym:quick time=60
func H_Range() {
	kv := storage.NewMemKeyValue()
	type row struct{ f, g int }
	ref := map[string]row{}
	for _, k := range keys {
		if vsym.Bool("has " + k) {
			r := row{vsym.Choice("f "+k, 3), vsym.Choice("g "+k, 2)}
			m := enc.Map{"g": enc.Integer(int64(r.g))}
			if r.f > 0 {
				m["f"] = enc.Integer(int64(r.f))
			}
			ref[k] = r
			vsym.Assert(kv.Upsert(c, k, m) == nil, "stored")
		}
	}
	var filters []storage.Filter
	match := func(row) bool { return true }
	switch vsym.Choice("filters", 5) {
	case 0:
	case 1:
		filters = []storage.Filter{{Field: "f", Cmp: storage.Equal, Val: enc.Integer(1)}}
		match = func(r row) bool { return r.f == 1 }
	case 2:
		filters = []storage.Filter{{Field: "f", Cmp: storage.NotEqual, Val: enc.Integer(1)}}
		match = func(r row) bool { return r.f != 1 }
	case 3:
		filters = []storage.Filter{{Field: "f", Cmp: storage.Equal, Val: enc.Integer(1)}, {Field: "g", Cmp: storage.NotEqual, Val: enc.Integer(0)}}
		match = func(r row) bool { return r.f == 1 && r.g != 0 }
	case 4:
		filters = []storage.Filter{{Field: "f", Cmp: storage.Equal, Val: enc.Nil{}}}
		match = func(r row) bool { return r.f == 0 }
	}
	want := 0
	for _, r := range ref {
		if match(r) {
			want++
		}
	}
	failure := errors.New("failed")
	act := vsym.Choice("act", 5)
	seen := map[string]bool{}
	err := kv.Range(c, func(_ ctx.C, k string, v enc.Map) error {
		r, ok := ref[k]
		vsym.Assert(ok && match(r) && !seen[k], "what was stored and matches, once")
		vsym.Assert(v["g"] == enc.Node(enc.Integer(int64(r.g))), "with its data")
		seen[k] = true
		switch act {
		case 1:
			return storage.EOD
		case 2:
			return failure
		case 3: // what is done meanwhile is not seen
			for _, k := range keys {
				vsym.Assert(kv.Delete(c, k) == nil, "the storage can be used meanwhile")
			}
			vsym.Assert(kv.Upsert(c, "new", enc.Map{"f": enc.Integer(1), "g": enc.Integer(1)}) == nil, "the storage can be used meanwhile")
		case 4:
			m, err := kv.Get(c, k)
			vsym.Assert(err == nil && m != nil && len(scan(kv)) == len(ref), "the storage can be used meanwhile")
		}
		return nil
	}, filters...)
	switch act {
	case 1:
		vsym.Assert(err == nil && (len(seen) == 1 || want == 0), "the end is no error")
	case 2:
		vsym.Assert((err != nil) == (want > 0) && len(seen) <= 1, "an error ends it")
		vsym.Assert(err == nil || errors.Is(err, failure), "and is given back")
	default:
		vsym.Assert(err == nil && len(seen) == want, "all which matches")
	}
	vsym.Reach("range")
}

// H_Concurrent: operations at once are as if one after another, and a scan is
// of one moment.
//
//vsym:all race=1 native=16
//vsym:quick preempt=4
//vsym:thorough preempt=8 time=300
func H_Concurrent() {
	kv := storage.NewMemKeyValue()
	_ = kv.Upsert(c, "x", enc.Map{"v": enc.Integer(0)})
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		_ = kv.Upsert(c, "a", enc.Map{"v": enc.Integer(1)})
		_ = kv.Upsert(c, "b", enc.Map{"v": enc.Integer(2)})
		_ = kv.Delete(c, "a")
	}()
	go func() {
		defer wg.Done()
		_ = kv.Upsert(c, "x", enc.Map{"v": enc.Integer(3)})
	}()
	all := scan(kv)
	_, a := all["a"]
	_, b := all["b"]
	vsym.Assert(len(all) >= 1 && all["x"] != nil, "what is there is scanned")
	m, err := kv.Get(c, "a")
	vsym.Assert(err == nil, "got")
	if b && !a {
		vsym.Assert(m == nil, "what was deleted is gone")
	}
	if a {
		vsym.Assert(all["a"]["v"] == enc.Node(enc.Integer(1)), "whole")
	}
	wg.Wait()
	all = scan(kv)
	vsym.Assert(len(all) == 2 && all["b"]["v"] == enc.Node(enc.Integer(2)) && all["x"]["v"] == enc.Node(enc.Integer(3)), "nothing is lost")
	vsym.Reach("concurrent")
}

// written gives m * 10^e, written in any way.
func written(name string, m, e int) enc.Node {
	exp := strconv.Itoa(m) + "e" + strconv.Itoa(e)
	plain := func() string {
		sign, s := "", strconv.Itoa(m)
		if m < 0 {
			sign, s = "-", s[1:]
		}
		if e >= 0 {
			return sign + s + strings.Repeat("0", e)
		}
		for len(s) <= -e {
			s = "0" + s
		}
		return sign + s[:len(s)+e] + "." + s[len(s)+e:]
	}
	switch vsym.Choice(name, 7) {
	case 0:
		return enc.Digits(exp)
	case 1:
		return enc.Digits(strings.Replace(exp, "e", ".000E", 1))
	case 2:
		return enc.Digits(plain())
	case 3:
		s := plain()
		if !strings.Contains(s, ".") {
			s += "."
		}
		return enc.Digits(s + "00")
	case 4:
		f, err := strconv.ParseFloat(exp, 64)
		vsym.Assert(err == nil, "a number")
		return enc.Float(f)
	case 5:
		if e < 0 {
			return enc.Digits(exp)
		}
		i, err := strconv.ParseInt(plain(), 10, 64)
		vsym.Assert(err == nil, "a number")
		return enc.Integer(i)
	default:
		if e >= 0 {
			return enc.Digits(strconv.Itoa(m) + "e+0" + strconv.Itoa(e))
		}
		return enc.Digits(exp)
	}
}

// H_Numbers: numbers are equal if they are the same number, however they are
// written.
//
//vsym:all native=16
//vsym:quick time=90
func H_Numbers() {
	m := []int{0, 1, -1, 10, 12, -120, 1234567, 1000001}[vsym.Choice("mantissa", 8)]
	e := []int{-7, -2, 0, 1, 3, 6}[vsym.Choice("exponent", 6)]
	m2, e2, same := m, e, true
	switch vsym.Choice("other", 6) {
	case 1:
		m2, e2 = 10*m, e-1
	case 2:
		m2, same = -m, m == 0
	case 3:
		m2, same = m+1, false
	case 4:
		e2, same = e+1, m == 0
	case 5:
		m2, same = 10*m+1, false
	}
	a, b := written("a", m, e), written("b", m2, e2)
	kv := storage.NewMemKeyValue()
	vsym.Assert(kv.Upsert(c, "k", enc.Map{"f": a}) == nil, "stored")
	found := 0
	count := func(ctx.C, string, enc.Map) error { found++; return nil }
	vsym.Assert(kv.Range(c, count, storage.Filter{Field: "f", Cmp: storage.Equal, Val: b}) == nil, "scanned")
	vsym.Assert((found == 1) == same, "equal exactly if it is the same number")
	vsym.Assert(kv.Range(c, count, storage.Filter{Field: "f", Cmp: storage.NotEqual, Val: b}) == nil, "scanned")
	vsym.Assert(found == 1, "and not equal otherwise")
	vsym.Reach("end")
}

// H_Many: the same with many keys, long ones, and many filters.
//
//vsym:all native=8 fuel=20000000
func H_Many() {
	kv := storage.NewMemKeyValue()
	n := []int{20, 130}[vsym.Choice("n", 2)]
	key := func(i int) string {
		if i%4 == 0 {
			return strings.Repeat("key", 40) + strconv.Itoa(i)
		}
		return strconv.Itoa(i * i)
	}
	at := vsym.Choice("at", 3) * (n - 1) / 2
	x := vsym.Int64("x", 1000, 2000)
	del := vsym.Choice("delete", 3) * (n - 1) / 2
	ref := map[string]enc.Map{}
	for i := 0; i < n; i++ {
		m := enc.Map{}
		for j := 0; j < 10; j++ {
			m["f"+strconv.Itoa(j)] = enc.Integer((i + j) % 5)
		}
		ref[key(i)] = m
		vsym.Assert(kv.Upsert(c, key(i), m) == nil, "stored")
	}
	vsym.Assert(kv.Upsert(c, key(at), enc.Map{"v": enc.Integer(x)}) == nil, "stored again")
	ref[key(at)] = enc.Map{"v": enc.Integer(x)}
	vsym.Assert(kv.Delete(c, key(del)) == nil, "deleted")
	delete(ref, key(del))
	for i := 0; i < n; i++ {
		m, err := kv.Get(c, key(i))
		w, ok := ref[key(i)]
		vsym.Assert(err == nil && ok == (m != nil), "there is what was stored and not deleted")
		vsym.Assert(!ok || reflect.DeepEqual(m, w), "which is what was stored last")
	}
	all := scan(kv)
	vsym.Assert(len(all) == len(ref), "all are scanned")
	// many filters: all must match
	var filters []storage.Filter
	k := []int{0, 1, 3, 8}[vsym.Choice("filters", 4)]
	for j := 0; j < k; j++ {
		filters = append(filters, storage.Filter{Field: "f" + strconv.Itoa(j), Cmp: storage.Equal, Val: enc.Integer((2 + j) % 5)})
	}
	last := vsym.Bool("last differs")
	if last {
		filters = append(filters, storage.Filter{Field: "f9", Cmp: storage.NotEqual, Val: enc.Integer((2 + 9) % 5)})
	}
	want := 0
	for i := 0; i < n; i++ {
		if i == del {
			continue
		}
		ok := i%5 == 2 && i != at
		if k == 0 {
			ok = true
		}
		if last {
			ok = ok && (i%5 != 2 || i == at)
		}
		if ok {
			want++
		}
	}
	vsym.Assert(len(scan(kv, filters...)) == want, "what matches all of them")
	vsym.Reach("many")
}

// H_Kept: what was given to the storage, and what it gave back, stays as it is,
// whatever is stored, deleted or scanned afterwards.
//
//vsym:all native=16
func H_Kept() {
	kv := storage.NewMemKeyValue()
	var held []enc.Map
	var want []map[string]enc.Node
	hold := func(m enc.Map) {
		if m == nil {
			return
		}
		w := map[string]enc.Node{}
		for k, v := range m {
			w[k] = v
		}
		held, want = append(held, m), append(want, w)
	}
	n := vsym.Bound("steps", 4, 5)
	for i := 0; i < n; i++ {
		k := keys[vsym.Choice("key", 2)]
		switch vsym.Choice("op", 4) {
		case 0:
			m := enc.Map{"i": enc.Integer(i), "f" + strconv.Itoa(i%2): enc.String("x")}
			hold(m)
			vsym.Assert(kv.Upsert(c, k, m) == nil, "stored")
		case 1:
			vsym.Assert(kv.Delete(c, k) == nil, "deleted, if it was there")
		case 2:
			m, err := kv.Get(c, k)
			vsym.Assert(err == nil, "given back")
			hold(m)
		default:
			for _, m := range scan(kv) {
				hold(m)
			}
		}
	}
	for i, m := range held {
		vsym.Assert(len(m) == len(want[i]), "what was given stays as it is")
		for k, v := range want[i] {
			vsym.Assert(m[k] == v, "what was given stays as it is")
		}
	}
	vsym.Reach("end")
}
