// Package selftest compares the executor with the compiler on library code.
package selftest

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"verif/harness/vsym"
)

type T struct {
	A int            `json:"a"`
	B string         `json:"b,omitempty"`
	C []float64      `json:"c"`
	D map[string]int `json:"d"`
	E *T             `json:"e,omitempty"`
	f int
}

func (t T) M(x int) string { return fmt.Sprint(t.A + x) }

func o(l string, v any) { vsym.ObserveStr(l, fmt.Sprintf("%v", v)) }

func H_fmt() {
	o("a", fmt.Sprintf("%d %5d|%-5d|%05d %x %X %o %b %c %q %U", 42, 42, 42, 42, 255, 255, 8, 5, 'x', 'y', 'z'))
	o("b", fmt.Sprintf("%s %q %v %+v %#v %T", "s", "q", T{A: 1}, T{A: 2, B: "x"}, T{A: 3}, T{}))
	o("c", fmt.Sprintf("%f %.2f %g %e %v", 1.5, 2.25, 1e21, 3.0, 0.1))
	o("d", fmt.Sprintf("%v %v %v", []int{1, 2}, map[string]int{"b": 1, "a": 2}, &T{A: 9}))
	o("e", fmt.Sprintf("%w", errors.New("x")))
	e := fmt.Errorf("ctx: %w", io.EOF)
	o("f", errors.Is(e, io.EOF))
	var pe *os.PathError
	o("g", errors.As(fmt.Errorf("x %w", &os.PathError{Op: "o", Path: "p", Err: io.EOF}), &pe))
	o("h", pe)
	o("i", fmt.Sprintf("%t %p %v", true, nil, nil))
	o("j", fmt.Sprintf("%!|%z|%d", 1))
	o("k", fmt.Sprint("a", 1, 2, "b", 3.5, []byte("hi")))
	o("l", fmt.Sprintf("%x % x %s", "hello", []byte{1, 2}, []string{"a", "b"}))
	o("m", fmt.Sprintf("%6.2f|%-8s|%8s|%+d", 3.14159, "ab", "cd", 7))
	o("n", time.Duration(1500)*time.Millisecond)
	vsym.Reach("end")
}

func H_json() {
	j, err := json.Marshal(T{A: 1, B: "x<y", C: []float64{1, 2.5, 1e30}, D: map[string]int{"z": 1, "a": 2}, E: &T{}})
	o("a", string(j))
	o("b", err)
	var t T
	err = json.Unmarshal([]byte(`{"a":5,"b":"h\u00e9","c":[1,2.5e3],"d":{"q":1},"e":{"a":7},"zz":null}`), &t)
	o("c", fmt.Sprint(t.A, t.B, t.C, t.D, t.E.A, err))
	var x any
	o("d", json.Unmarshal([]byte(`{"a":[1,true,null,"s",{"k":1.5}]}`), &x))
	o("e", fmt.Sprint(x))
	o("f", json.Unmarshal([]byte(`{"a":`), &x))
	o("g", json.Unmarshal([]byte(`{"a":"s"}`), &t))
	d := json.NewDecoder(bytes.NewBufferString(`{"n":12345678901234567890} tail`))
	d.UseNumber()
	o("h", d.Decode(&x))
	o("i", fmt.Sprint(x))
	j, err = json.MarshalIndent(map[string]any{"a": 1, "b": []int{1}}, "", " ")
	o("j", string(j))
	_, err = json.Marshal(make(chan int))
	o("k", err)
	vsym.Reach("end")
}

type sh interface{ Area() float64 }
type sq struct{ s float64 }

func (s sq) Area() float64 { return s.s * s.s }

func H_reflect() {
	t := &T{A: 1, f: 2}
	v := reflect.ValueOf(t).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		o(f.Name, fmt.Sprint(f.Type, f.Tag.Get("json"), f.IsExported(), v.Field(i).Kind(), v.Field(i).CanSet()))
	}
	v.Field(0).SetInt(77)
	v.FieldByName("B").SetString("zz")
	v.Field(2).Set(reflect.Append(v.Field(2), reflect.ValueOf(1.5)))
	v.Field(3).Set(reflect.MakeMap(v.Field(3).Type()))
	v.Field(3).SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(3))
	o("t", *t)
	m := reflect.ValueOf(t).MethodByName("M")
	o("m", m.Call([]reflect.Value{reflect.ValueOf(3)})[0].String())
	o("nm", reflect.TypeOf(t).NumMethod())
	var s sh = sq{2}
	o("impl", reflect.TypeOf(s).Implements(reflect.TypeOf((*sh)(nil)).Elem()))
	o("str", fmt.Sprint(reflect.TypeOf(map[string][]*T{}), reflect.TypeOf(func(int, ...string) error { return nil }), reflect.TypeOf(struct {
		X int `k:"v"`
	}{})))
	o("de", reflect.DeepEqual(map[string][]int{"a": {1}}, map[string][]int{"a": {1}}))
	msg, p := vsym.Panics(func() { reflect.ValueOf(T{}).Field(0).SetInt(1) })
	o("p", fmt.Sprint(msg, p))
	msg, p = vsym.Panics(func() { reflect.ValueOf(t).Elem().Field(5).SetInt(1) })
	o("p2", fmt.Sprint(msg, p))
	var e error
	o("nil", reflect.TypeOf(e) == nil)
	o("conv", reflect.ValueOf(65).Convert(reflect.TypeOf(int8(0))).Int())
	vsym.Reach("end")
}

func H_misc() {
	xs := []string{"b", "a", "c"}
	sort.Strings(xs)
	o("a", xs)
	sort.Slice(xs, func(i, j int) bool { return xs[i] > xs[j] })
	o("b", xs)
	o("c", strings.Split("a,b,c", ","))
	o("d", strings.Fields("  x y  z "))
	o("e", strings.ToUpper("héllo")+strings.Title("abc def")+strings.TrimSpace(" x ")+strings.Replace("aaa", "a", "b", 2))
	o("f", unicode.IsUpper('É'))
	_, err := strconv.Atoi("12x")
	o("g", err)
	f, err := strconv.ParseFloat("1.25e3", 64)
	o("h", fmt.Sprint(f, err))
	u, err := strconv.ParseUint("18446744073709551615", 10, 64)
	o("i", fmt.Sprint(u, err))
	_, err = strconv.ParseInt("9223372036854775808", 10, 64)
	o("j", err)
	re := regexp.MustCompile(`^(\w+)-(\d+)$`)
	o("k", re.FindStringSubmatch("abc-123"))
	c, cf := context.WithCancel(context.WithValue(context.Background(), "k", "v"))
	o("l", c.Value("k"))
	cf()
	o("m", c.Err())
	<-c.Done()
	c2, cf2 := context.WithTimeout(context.Background(), time.Millisecond)
	defer cf2()
	<-c2.Done()
	o("n", c2.Err())
	tm := time.Date(2024, 2, 29, 12, 30, 45, 123456789, time.UTC)
	o("o", tm.Format(time.RFC3339Nano))
	t2, err := time.Parse(time.RFC3339, "2024-02-29T12:30:45+09:00")
	o("p", fmt.Sprint(t2.UTC(), err))
	o("q", tm.Add(36*time.Hour).Weekday())
	b, err := io.ReadAll(io.LimitReader(strings.NewReader("hello world"), 5))
	o("r", string(b))
	var bb bytes.Buffer
	fmt.Fprintf(&bb, "%d-%s", 1, "x")
	o("s", bb.String())
	func() {
		defer func() { o("rec", recover()) }()
		var m map[string]int
		m["a"] = 1
	}()
	func() {
		defer func() { o("rec2", recover()) }()
		var a []int
		_ = a[len(xs)]
	}()
	vsym.Reach("end")
}
