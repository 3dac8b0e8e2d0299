// Package x03: tracking ids and spans.
//
//vsym:assume freshly generated random identifiers do not repeat
//vsym:outside more spans per context than stated
package x03

import (
	"context"
	"encoding/json"
	"reflect"
	"strings"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
)

func tag(c ctx.C) (last string) {
	ctx.RangeTag(c, func(k string, j ctx.JSON) error {
		if k == "tracking-id" {
			json.Unmarshal(j, &last)
		}
		return nil
	})
	return
}

func between(c ctx.C, how int) ctx.C {
	switch how {
	case 0:
		return c
	case 1:
		return ctx.Detach(c)
	case 2:
		return ctx.WithTag(c, "x", 1)
	default:
		c, _ = ctx.WithCancel(c)
		return c
	}
}

// H_Suggest: the suggested id is used when there is one, otherwise one is
// made up; what is read is what is logged.
func H_Suggest() {
	var c ctx.C = context.Background()
	vsym.Assert(ctx.GetTracking(c) == "", "no id unless asked for")
	s := vsym.StringIn("id", 0, 2, "a.1")
	c1 := between(ctx.WithTracking(c, s), vsym.Choice("between", 4))
	id := ctx.GetTracking(c1)
	vsym.Assert(id != "", "there is always an id")
	vsym.Assert(s == "" || id == s, "a suggested id is used")
	vsym.Assert(tag(c1) == id, "the id is tagged as well")
	vsym.Assert(ctx.GetTracking(c) == "", "the parent has none")
	c2 := ctx.WithTracking(c1, "inner")
	vsym.Assert(ctx.GetTracking(c2) == "inner" && tag(c2) == "inner", "the innermost id is used")
	vsym.Assert(ctx.GetTracking(c1) == id, "and the outer one is unchanged")
	c3 := ctx.WithTracking(c, "")
	c4 := ctx.WithTracking(c, "")
	vsym.Assert(ctx.GetTracking(c3) != ctx.GetTracking(c4), "generated ids differ")
	vsym.Reach("end")
}

// H_Spans: every span of a tracked context has an id of its own, derived from
// the id of its parent; at any nesting.
//
//vsym:quick time=60
//vsym:thorough time=200
func H_Spans() {
	root := ctx.WithTracking(context.Background(), "r")
	all := []ctx.C{root}
	ids := []string{"r"}
	n := vsym.Bound("spans", 4, 5)
	for i := 0; i < n; i++ {
		p := vsym.Choice("parent", len(all))
		c, cf := ctx.Span(between(all[p], vsym.Choice("between", 2)*2), "name")
		defer cf(nil)
		id := ctx.GetTracking(c)
		vsym.Assert(strings.HasPrefix(id, ids[p]+"."), "a span's id extends that of its parent")
		for _, x := range ids {
			vsym.Assert(x != id, "every span has an id of its own")
		}
		vsym.Assert(tag(c) == id, "the id is tagged")
		all = append(all, c)
		ids = append(ids, id)
	}
	for i := range all {
		vsym.Assert(ctx.GetTracking(all[i]) == ids[i], "ids never change")
	}
	vsym.Reach("end")
}

// H_Many: also past the point where the counter needs a second digit.
func H_Many() {
	root := ctx.WithTracking(context.Background(), vsym.StringIn("id", 1, 1, "ab"))
	ids := map[string]bool{}
	n := vsym.Bound("spans", 300, 3000)
	for i := 0; i < n; i++ {
		c, cf := ctx.Span(root, "")
		cf.Exit()
		ids[ctx.GetTracking(c)] = true
	}
	vsym.Assert(len(ids) == n, "every span has an id of its own")
	id := ctx.GetTracking(root)
	vsym.Assert(id == "a" || id == "b", "the id of the parent stays")
	tag := ctx.JSON(nil)
	_ = ctx.RangeTag(root, func(k string, j ctx.JSON) error {
		if k == "tracking-id" {
			tag = j
		}
		return nil
	})
	vsym.Assert(string(tag) == `"`+id+`"`, "as does its tag")
	vsym.Reach("end")
}

// H_Long: suggested ids are used as they are, however long and whatever they are
// made of, and spans can be nested deeply.
//
//vsym:all fuel=30000000
func H_Long() {
	id := ""
	switch vsym.Choice("kind", 3) {
	case 0:
		n := []int{3, 31, 36, 37, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 2000}[vsym.Choice("len", 16)]
		id = strings.Repeat("x", n-1) + vsym.StringIn("last", 1, 1, "ab")
	case 1:
		id = []string{"ABC", "Abc-Def", " ", " x ", "é", "0", "-", "a/b", "a\"b", "a\nb", "x.y.z", "3e8", "nil", "00000000-0000-0000-0000-000000000000"}[vsym.Choice("odd", 14)]
	default:
		id = string([]byte{vsym.Byte("byte", 0x20, 0x7e)})
	}
	c := ctx.WithTracking(context.Background(), id)
	vsym.Assert(ctx.GetTracking(c) == id, "a suggested id is used")
	vsym.Assert(tag(c) == id, "the id is tagged as well")
	for i := 0; i < 20; i++ {
		s, _ := ctx.Span(c, "")
		before := ctx.GetTracking(c)
		now := ctx.GetTracking(s)
		vsym.Assert(strings.HasPrefix(now, before+".") && len(now) > len(before)+1, "a span's id extends that of its parent")
		vsym.Assert(tag(s) == now, "and is its tag")
		c = s
	}
	vsym.Reach("end")
}

// H_Counter: also if there have been very many already (where the counter can
// be set).
//
//vsym:all native=4
func H_Counter() {
	root := ctx.WithTracking(context.Background(), "r")
	v := reflect.ValueOf(root)
	if v.Kind() != reflect.Pointer || v.Elem().Kind() != reflect.Struct {
		vsym.Done()
	}
	last := v.Elem().FieldByName("Last")
	if !last.CanSet() || !last.CanInt() {
		vsym.Done()
	}
	at := int64(1) << (8 * vsym.Choice("bytes", 4))
	ids := map[string]bool{}
	for _, n := range []int64{0, at - 3, 2*at - 3} {
		if last.OverflowInt(n + 5) {
			continue
		}
		last.SetInt(n)
		k := len(ids)
		for i := 0; i < 5; i++ {
			c, cf := ctx.Span(root, "")
			cf.Exit()
			ids[ctx.GetTracking(c)] = true
		}
		vsym.Assert(at < 100 || len(ids) == k+5, "every span has an id of its own")
	}
	vsym.Reach("end")
}

// H_Concurrent: also when they are started at the same time.
//
//vsym:all race=1
func H_Concurrent() {
	root := ctx.WithTracking(context.Background(), "r")
	n := vsym.Bound("spans", 2, 3)
	ch := make(chan string, n)
	for i := 0; i < n; i++ {
		go func() {
			c, cf := ctx.Span(root, "")
			defer cf.Exit()
			ch <- ctx.GetTracking(c)
		}()
	}
	ids := map[string]bool{}
	for i := 0; i < n; i++ {
		ids[<-ch] = true
	}
	vsym.Assert(len(ids) == n, "every span has an id of its own")
	vsym.Reach("end")
}

// H_SpanCancel: a span ends with its parent or on its own, never its parent.
func H_SpanCancel() {
	tracked := vsym.Choice("tracked", 2) == 1
	root, cancel := ctx.Background()
	var c ctx.C = root
	if tracked {
		c = ctx.WithTracking(c, "r")
	}
	s, cf := ctx.Span(c, "")
	vsym.Assert(ctx.GetTracking(s) != "", "a span always has an id")
	vsym.Assert(s.Err() == nil, "running")
	if vsym.Choice("who", 2) == 0 {
		cancel.Exit()
		vsym.Assert(s.Err() != nil, "a span ends with its parent")
	} else {
		cf.Exit()
		vsym.Assert(s.Err() != nil, "a span can be ended")
		vsym.Assert(c.Err() == nil, "its parent goes on")
	}
	cancel.Exit()
	vsym.Reach("end")
}
