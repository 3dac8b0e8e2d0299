// Package x01: tags attached to contexts.
//
//vsym:assume values given as raw JSON are valid JSON, and not modified by the caller afterwards
//vsym:outside chains of more tags than stated; tag values of other kinds than those listed in H_Values and H_Kinds
package x01

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"math"
	"strconv"
	"time"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
)

type kv struct{ k, v string }

type other struct{}

// derive is one step that adds no tag.
func derive(c ctx.C, how int) ctx.C {
	switch how {
	case 0:
		return c
	case 1:
		return ctx.Detach(c)
	case 2:
		return ctx.WithValue(c, other{}, 1)
	case 3:
		c, _ = ctx.WithCancel(c)
		return c
	default:
		return context.WithoutCancel(c)
	}
}

func collect(c ctx.C) (out []kv) {
	err := ctx.RangeTag(c, func(k string, j ctx.JSON) error {
		out = append(out, kv{k, string(j)})
		return nil
	})
	vsym.Assert(err == nil, "visiting tags fails only if the visitor does")
	return
}

func same(a, b []kv) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// H_Order: every tag on the chain is visited exactly once, oldest first, also
// when keys repeat and whatever else lies between them; deriving a context
// never changes its parent.
//
//vsym:quick time=60
//vsym:thorough time=300
func H_Order() {
	c := context.Background()
	n := vsym.Choice("tags", vsym.Bound("tags", 3, 4)+1)
	var want []kv
	var ctxs []ctx.C
	var wants [][]kv
	var cur ctx.C = c
	for i := 0; i < n; i++ {
		cur = derive(cur, vsym.Choice("derive", 5))
		k := vsym.StringIn("key", 0, 1, "ab")
		x := vsym.Int("val", 0, 9)
		ctxs = append(ctxs, cur)
		wants = append(wants, want)
		cur = ctx.WithTag(cur, k, x)
		want = append(want[:len(want):len(want)], kv{k, string(rune('0' + x))})
	}
	vsym.Assert(same(collect(cur), want), "all tags are visited once, parents first")
	for i := range ctxs {
		vsym.Assert(same(collect(ctxs[i]), wants[i]), "a derived tag is not visible on the parent")
	}
	// the flattened view: the innermost wins
	flat := log.ExtractTags(cur)
	keys := 0
	for _, k := range []string{"", "a", "b"} {
		last := -1
		for i := range want {
			if want[i].k == k {
				last = i
			}
		}
		got, ok := flat[k]
		vsym.Assert(ok == (last >= 0), "a key is there if and only if some context set it")
		if last >= 0 {
			keys++
			vsym.Assert(string(got) == want[last].v, "the innermost value of a key wins")
		}
	}
	vsym.Assert(len(flat) == keys, "no other keys")
	l := flat.AsList()
	vsym.Assert(len(l) == 2*keys, "a list has every key and value once")
	for i := 0; i < len(l); i += 2 {
		k := l[i].(string)
		vsym.Assert(string(l[i+1].(ctx.JSON)) == string(flat[k]), "and pairs them")
	}
	vsym.Reach("end")
}

// H_Siblings: two children of the same context do not see each other's tags.
//
//vsym:all race=1
func H_Siblings() {
	base := ctx.WithTag(context.Background(), "p", 0)
	done := make(chan []kv, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			c := ctx.WithTag(base, "k", i)
			c = ctx.WithTag(c, "k", i+2)
			done <- collect(c)
		}()
	}
	for i := 0; i < 2; i++ {
		got := <-done
		vsym.Assert(len(got) == 3 && got[0] == (kv{"p", "0"}), "the parent's tags come first")
		vsym.Assert(same(got[1:], []kv{{"k", "0"}, {"k", "2"}}) || same(got[1:], []kv{{"k", "1"}, {"k", "3"}}), "only the own tags are seen")
	}
	vsym.Assert(len(collect(base)) == 1, "the parent is unchanged")
	vsym.Reach("end")
}

var errStop = errors.New("stop")

var errBlank = errors.New("")

// H_Stop: an error of the visitor ends the visit at once and is returned.
func H_Stop() {
	var c ctx.C = context.Background()
	n := vsym.Choice("tags", 4)
	for i := 0; i < n; i++ {
		c = ctx.WithTag(c, "k", i)
		c = derive(c, vsym.Choice("derive", 5))
	}
	at := vsym.Choice("stop", 5)
	stop := []error{errStop, errBlank, io.EOF, ctx.WrapError(c, errStop)}[vsym.Choice("error", 4)]
	seen := 0
	err := ctx.RangeTag(c, func(k string, j ctx.JSON) error {
		seen++
		if seen == at+1 {
			return stop
		}
		return nil
	})
	if at < n {
		if e, ok := stop.(ctx.Error); ok { // can't be compared
			vsym.Assert(errors.Is(err, errStop) && err.Error() == e.Error(), "the visitor's error is returned")
		} else {
			vsym.Assert(err == stop, "the visitor's error is returned")
		}
		vsym.Assert(seen == at+1, "and nothing is visited after it")
	} else {
		vsym.Assert(err == nil && seen == n, "without an error everything is visited")
	}
	vsym.Assert(ctx.RangeTag(nil, func(k string, j ctx.JSON) error { return errStop }) == nil, "no context has no tags")
	vsym.Reach("end")
}

type failing struct{}

func (failing) MarshalJSON() ([]byte, error) { return nil, errStop }

// H_Values: a tag is always valid JSON, the one that the value itself has.
//
//vsym:quick time=60
//vsym:thorough time=300
func H_Values() {
	var c ctx.C = context.Background()
	kind := vsym.Choice("kind", 10)
	var v any
	want := ""
	switch kind {
	case 0:
		s := vsym.String("s", 0, vsym.Bound("len", 2, 3))
		v = s
	case 1:
		b := vsym.Bytes("b", 0, vsym.Bound("len", 2, 3))
		v = b
		if json.Valid(b) {
			want = string(b)
		}
	case 2:
		v = vsym.Int("i", -99, 99)
	case 3:
		v = nil
		want = "null"
	case 4:
		v = json.RawMessage("[1, 2]")
		want = "[1, 2]"
	case 5:
		v = ctx.JSON("{}")
		want = "{}"
	case 6:
		v = make(chan int)
	case 7:
		v = failing{}
	case 8:
		v = map[string]any{"x": func() {}}
	default:
		v = vsym.Bool("bool")
	}
	c = ctx.WithTag(c, "k", v)
	got := collect(c)
	vsym.Assert(len(got) == 1 && got[0].k == "k", "exactly the tag that was set")
	j := []byte(got[0].v)
	vsym.Assert(json.Valid(j), "a tag is valid JSON for every value")
	if want != "" {
		vsym.Assert(string(j) == want, "JSON values are kept as they are")
	}
	if kind != 6 && kind != 7 && kind != 8 && want == "" {
		ref, err := json.Marshal(v)
		vsym.Assert(err == nil && string(ref) == string(j), "other values are encoded")
	}
	vsym.Assert(string(c.Value("k").(ctx.JSON)) == string(j), "the tag can be looked up by its key")
	vsym.Assert(c.Value("none") == nil, "an unknown key has no value")
	vsym.Reach("end")
}

type named string

// H_Kinds: whatever its type, a value is written as JSON writes it, also at the
// ends of what its type can hold.
//
//vsym:quick time=60
//vsym:thorough time=300
func H_Kinds() {
	var v any
	switch vsym.Choice("kind", 20) {
	case 0:
		v = int(edges[vsym.Choice("edge", len(edges))])
	case 1:
		v = edges[vsym.Choice("edge", len(edges))]
	case 2:
		v = int32(edges[vsym.Choice("edge", len(edges))])
	case 3:
		v = uint64(edges[vsym.Choice("edge", len(edges))])
	case 4:
		v = uint8(edges[vsym.Choice("edge", len(edges))])
	case 5:
		v = vsym.Int("i", 1<<31-50, 1<<31+49)
	case 6:
		v = floats[vsym.Choice("float", len(floats))]
	case 7:
		v = float32(0.1)
	case 8:
		v = errors.New("failed")
	case 9:
		v = named(vsym.String("s", 0, 1))
	case 10:
		v = time.Date(2024, 2, 29, 1, 2, 3, 4, time.UTC)
	case 11:
		v = time.Second
	case 12:
		v = []string{"a", vsym.String("s", 0, 1)}
	case 13:
		v = map[string]int{"b": 1, "a": vsym.Int("i", 0, 9)}
	case 14:
		v = &struct {
			A int `json:"a,omitempty"`
			B *int
		}{A: vsym.Int("i", 0, 1)}
	case 15:
		v = json.Number("12345678901234567890")
	case 16:
		v = (*int)(nil)
	case 17:
		v = []any{}
	case 18:
		v = ctx.JSON(nil)
	default:
		v = "<\u2028>"
	}
	c := ctx.WithTag(context.Background(), "k", v)
	got := collect(c)
	vsym.Assert(len(got) == 1 && got[0].k == "k", "exactly the tag that was set")
	j := []byte(got[0].v)
	vsym.Assert(json.Valid(j), "a tag is valid JSON for every value")
	if ref, err := json.Marshal(v); err == nil {
		vsym.Assert(string(ref) == string(j), "values are encoded as JSON encodes them")
	}
	vsym.Reach("end")
}

var edges = []int64{0, -1, 127, 128, 255, 256, 1<<31 - 1, 1 << 31, -1 << 31, 1<<53 + 1, 1<<63 - 1, -1 << 63}

var floats = []float64{0, math.Copysign(0, -1), 1, 0.1, -2.5, 1e6, 1e20, 1e21, 1e-6, 1e-7, 123456789.125, math.MaxFloat64, math.NaN(), math.Inf(1), math.Inf(-1)}

// H_Lookup: by key, the innermost tag is found.
func H_Lookup() {
	var c ctx.C = context.Background()
	n := vsym.Choice("tags", 4)
	var want []kv
	for i := 0; i < n; i++ {
		k := vsym.StringIn("key", 1, 1, "ab")
		c = ctx.WithTag(c, k, i)
		c = derive(c, vsym.Choice("derive", 5))
		want = append(want, kv{k, string(rune('0' + i))})
	}
	for _, k := range []string{"a", "b"} {
		last := ""
		for _, w := range want {
			if w.k == k {
				last = w.v
			}
		}
		got := c.Value(k)
		vsym.Assert((got == nil) == (last == ""), "found if and only if it was set")
		if last != "" {
			vsym.Assert(string(got.(ctx.JSON)) == last, "the innermost tag is found")
		}
	}
	vsym.Reach("end")
}

// H_JSON: a raw JSON value keeps its content when the buffer it was decoded
// from is reused, and encodes to itself.
func H_JSON() {
	b := vsym.Bytes("b", 0, 3)
	want := string(b)
	var j ctx.JSON
	vsym.Assert(j.UnmarshalJSON(b) == nil, "any JSON is accepted")
	for i := range b {
		b[i] = '!'
	}
	vsym.Assert(string(j) == want, "the content is the caller's, also when its buffer is reused")
	out, err := j.MarshalJSON()
	vsym.Assert(err == nil && string(out) == want, "it encodes to itself")
	vsym.Assert(j.String() == want, "and prints as itself")
	var k ctx.JSON
	k.UnmarshalJSON([]byte("true"))
	vsym.Assert(string(j) == want && string(k) == "true", "values are independent")
	vsym.Reach("end")
}

// H_Long: also on a long chain.
//
//vsym:all native=4
func H_Long() {
	n := []int{20, 70, 300}[vsym.Choice("n", 3)]
	how := vsym.Choice("derive", 5)
	x := vsym.Int("x", 0, 9)
	var cur ctx.C = context.Background()
	var want []kv
	for i := 0; i < n; i++ {
		k := "k" + strconv.Itoa(i%(n-3)) // some come again
		cur = ctx.WithTag(cur, k, i*10+x)
		want = append(want, kv{k, strconv.Itoa(i*10 + x)})
		if i%7 == 3 {
			cur = derive(cur, how)
		}
	}
	vsym.Assert(same(collect(cur), want), "all tags are visited once, parents first")
	flat := log.ExtractTags(cur)
	vsym.Assert(len(flat) == n-3 && len(flat.AsList()) == 2*(n-3), "every key is there")
	for i := 3; i < n; i++ {
		vsym.Assert(string(flat[want[i].k]) == want[i].v, "the innermost value of a key wins")
	}
	stop, calls := vsym.Choice("stop", 3)*(n-1)/2, 0
	err := ctx.RangeTag(cur, func(k string, j ctx.JSON) error {
		vsym.Assert(want[calls] == kv{k, string(j)}, "in order")
		calls++
		if calls == stop+1 {
			return errStop
		}
		return nil
	})
	vsym.Assert(err == errStop && calls == stop+1, "an error ends it")
	vsym.Reach("end")
}
