// Package g01: logging.
//
//vsym:assume the writer given to the logger does not fail
//vsym:outside messages, tags and argument lists longer than stated; formats other than the ones listed in H_Format
package g01

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"log/slog"
	"strings"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
)

type entry struct {
	Level string                     `json:"level"`
	Msg   string                     `json:"message"`
	Src   *string                    `json:"src"`
	Tags  map[string]json.RawMessage `json:"tags"`
}

func parse(out []byte) (list []entry) {
	for _, l := range bytes.Split(out, []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		var e entry
		vsym.Assert(json.Unmarshal(l, &e) == nil, "every line is one JSON document")
		list = append(list, e)
	}
	vsym.Assert(len(out) == 0 || out[len(out)-1] == '\n', "every line is complete")
	return
}

func emit(c ctx.C, level int, f string, args ...any) slog.Level {
	switch level {
	case 0:
		log.Debugf(c, f, args...)
		return slog.LevelDebug
	case 1:
		log.Infof(c, f, args...)
		return slog.LevelInfo
	case 2:
		log.Warnf(c, f, args...)
		return slog.LevelWarn
	case 3:
		log.Errorf(c, f, args...)
		return slog.LevelError
	default:
		l := slog.Level(vsym.Int("level", -6, 10))
		log.Customf(c, l, "", f, args...)
		return l
	}
}

// H_Line: an entry at or above the minimum level is exactly one JSON line
// with its level, message and all the tags of its context; below, nothing.
//
//vsym:quick time=90
//vsym:thorough time=300
func H_Line() {
	var buf bytes.Buffer
	l := log.NewDefaultSlogLogger(&buf)
	var c ctx.C = context.Background()
	c = log.WithSlogLogger(c, l)
	min := slog.Level(vsym.Int("min", -5, 9))
	log.SetDefaultLoggerLevel(min)
	n := vsym.Choice("tags", 3)
	want := map[string]string{}
	for i := 0; i < n; i++ {
		k := []string{"a", "b", "level", "msg", "time", "source", "message", "tags"}[vsym.Choice("key", 8)]
		c = ctx.WithTag(c, k, i)
		want[k] = string(rune('0' + i))
	}
	kind := vsym.Choice("kind", 5)
	x := vsym.Int("x", 0, 9)
	got := emit(c, kind, "x=%d", x)
	list := parse(buf.Bytes())
	if got < min {
		vsym.Assert(len(list) == 0, "nothing is logged below the minimum level")
		vsym.Reach("dropped")
		return
	}
	vsym.Assert(len(list) == 1, "exactly one line is logged")
	e := list[0]
	vsym.Assert(e.Msg == "x="+string(rune('0'+x)), "the message is formatted")
	vsym.Assert(e.Level == strings.ToLower(got.String()), "the level is the one asked for")
	vsym.Assert((e.Src != nil) == (kind != 4), "the source is there unless suppressed")
	if kind != 4 && vsym.Symbolic() {
		vsym.Assert(strings.Contains(*e.Src, "g01.go:"), "the source is the caller")
	}
	vsym.Assert(len(e.Tags) == len(want), "no other tags")
	for k, v := range want {
		vsym.Assert(string(e.Tags[k]) == v, "every tag is logged, innermost first")
	}
	vsym.Reach("end")
}

// H_Escape: any message, argument and tag survives as data, never breaking
// the line.
//
//vsym:quick time=90
//vsym:thorough time=400
func H_Escape() {
	var buf bytes.Buffer
	var c ctx.C = context.Background()
	c = log.WithSlogLogger(c, log.NewDefaultSlogLogger(&buf))
	s := vsym.String("s", 0, vsym.Bound("len", 1, 2))
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] < 0x80)
	}
	where := vsym.Choice("where", 4)
	switch where {
	case 0:
		c = ctx.WithTag(c, "k", s)
		log.Infof(c, "m")
	case 1:
		log.Infof(c, "m%s", s)
	case 2:
		log.Customf(c, slog.LevelInfo, s, "m")
	default:
		c = ctx.WithTag(c, s, 1)
		log.Infof(c, "m")
	}
	list := parse(buf.Bytes())
	vsym.Assert(len(list) == 1, "exactly one line")
	e := list[0]
	switch where {
	case 0:
		var got string
		vsym.Assert(json.Unmarshal(e.Tags["k"], &got) == nil && got == s, "the tag is what was set")
	case 1:
		vsym.Assert(e.Msg == "m"+s, "the message is what was logged")
	case 2:
		vsym.Assert((e.Src == nil) == (s == ""), "no source if empty")
		vsym.Assert(e.Src == nil || *e.Src == s, "the source is what was given")
	default:
		_, ok := e.Tags[s]
		vsym.Assert(ok, "the tag is there")
	}
	vsym.Reach("end")
}

type loggable struct {
	v    any
	tags map[string]string
}

func (l loggable) LogAs(t *log.Tags) any {
	for k, v := range l.tags {
		(*t)[k] = ctx.JSON(v)
	}
	return l.v
}

// H_Redact: an argument that rewrites itself is logged as what it says; the
// original never appears, and the caller's arguments are not modified.
//
//vsym:quick time=60
//vsym:thorough time=200
func H_Redact() {
	var buf bytes.Buffer
	var c ctx.C = context.Background()
	c = log.WithSlogLogger(c, log.NewDefaultSlogLogger(&buf))
	c = ctx.WithTag(c, "t", 1)
	n := vsym.Choice("args", 4)
	args := make([]any, 0, 4)
	secret := "S3cret" + vsym.StringIn("secret", 1, 1, "xyz")
	want := "m"
	f := "m"
	tag := "1"
	for i := 0; i < n; i++ {
		f += " %v"
		switch vsym.Choice("arg", 5) {
		case 4:
			args = append(args, errors.New("e"))
			want += " e"
		case 0:
			args = append(args, log.RedactedString(secret))
			want += " ***"
		case 1:
			args = append(args, "plain")
			want += " plain"
		case 2:
			tag = string(rune('5' + i))
			args = append(args, loggable{v: i, tags: map[string]string{"t": tag}})
			want += " " + string(rune('0'+i))
		default:
			s := log.RedactedString(secret)
			args = append(args, &s)
			want += " ***"
		}
	}
	keep := append([]any{}, args...)
	log.Infof(c, f, args...)
	for i := range args {
		switch keep[i].(type) {
		case loggable:
			_, ok := args[i].(loggable)
			vsym.Assert(ok, "the caller's arguments are not modified")
		default:
			vsym.Assert(args[i] == keep[i], "the caller's arguments are not modified")
		}
	}
	list := parse(buf.Bytes())
	vsym.Assert(len(list) == 1, "exactly one line")
	vsym.Assert(list[0].Msg == want, "the arguments are logged as they ask to be")
	vsym.Assert(!strings.Contains(buf.String(), "S3cret"), "what is redacted is not logged")
	vsym.Assert(string(list[0].Tags["t"]) == tag, "and may rewrite the tags of the entry")
	// the rewritten tag belongs to that entry only
	buf.Reset()
	log.Infof(c, "again")
	list = parse(buf.Bytes())
	vsym.Assert(len(list) == 1 && string(list[0].Tags["t"]) == "1", "the tags of the context are unchanged")
	vsym.Reach("end")
}

// H_Long: long messages, arguments and tags are complete.
//
//vsym:all fuel=20000000
//vsym:quick time=60
func H_Long() {
	var buf bytes.Buffer
	var c ctx.C = context.Background()
	c = log.WithSlogLogger(c, log.NewDefaultSlogLogger(&buf))
	n := []int{255, 1 << 10, 1<<12 + 1, 1<<14 + 1, 1<<16 + 1}[vsym.Choice("length", 5)]
	s := strings.Repeat("x", n) + vsym.StringIn("end", 1, 1, "yz")
	switch vsym.Choice("where", 3) {
	case 0:
		log.Infof(c, "%s", s)
	case 1:
		log.Infof(c, s)
	default:
		c = ctx.WithTag(c, "t", s)
		log.Infof(c, "x")
	}
	list := parse(buf.Bytes())
	vsym.Assert(len(list) == 1, "exactly one line")
	vsym.Assert(list[0].Msg == s || string(list[0].Tags["t"]) == `"`+s+`"`, "nothing is cut")
	vsym.Reach("end")
}

// H_Error: errors among the arguments are described by a tag, all of them, in
// order, with origin if they have one.
//
//vsym:quick time=60
//vsym:thorough time=200
func H_Error() {
	var buf bytes.Buffer
	var c ctx.C = context.Background()
	c = log.WithSlogLogger(c, log.NewDefaultSlogLogger(&buf))
	ec := ctx.WithTag(context.Background(), "where", 7)
	if vsym.Bool("tagged") {
		c = ctx.WithTag(c, "error", "another") // the error that is logged counts
	}
	tagged := string(log.ExtractTags(c)["error"]) != ""
	n := vsym.Choice("args", 4)
	var args []any
	var kinds []int
	var texts []string
	for i := 0; i < n; i++ {
		k := vsym.Choice("arg", 6)
		e := errors.New("e" + string(rune('0'+i)))
		switch k {
		case 0:
			args = append(args, 1)
			continue
		case 1:
			args = append(args, e)
		case 2:
			args = append(args, ctx.WrapError(ec, e))
		case 3:
			args = append(args, fmt.Errorf("w: %w", ctx.WrapError(ec, e)))
		case 4:
			args = append(args, ctx.WrapError(nil, e))
		default:
			args = append(args, nil)
			continue
		}
		kinds = append(kinds, k)
		texts = append(texts, args[len(args)-1].(error).Error())
	}
	log.Errorf(c, "m", args...)
	list := parse(buf.Bytes())
	vsym.Assert(len(list) == 1, "exactly one line")
	raw, ok := list[0].Tags["error"]
	vsym.Assert(ok == (len(kinds) > 0 || tagged), "errors are tagged if there are any")
	if len(kinds) > 0 {
		var errs []struct {
			Error string         `json:"error"`
			Stack []string       `json:"stack"`
			Tags  map[string]int `json:"tags"`
		}
		vsym.Assert(json.Unmarshal(raw, &errs) == nil, "the tag is a list")
		vsym.Assert(len(errs) == len(kinds), "every error is there")
		for i, k := range kinds {
			vsym.Assert(errs[i].Error == texts[i], "with its text")
			vsym.Assert((len(errs[i].Stack) > 0) == (k != 1), "with its stack, if it has one")
			if k == 2 || k == 3 {
				vsym.Assert(errs[i].Tags["where"] == 7, "and the tags of where it happened")
			}
			vsym.Assert(strings.HasPrefix(errs[i].Error, "w: e") == (k == 3), "and its text")
		}
	}
	vsym.Reach("end")
}

// H_Isolation: the logger and helper in effect are those of the innermost
// context that sets them; deriving a context never affects its parent or its
// siblings.
//
//vsym:quick time=60
//vsym:thorough time=300
func H_Isolation() {
	type st struct {
		c     ctx.C
		lf, h int
	}
	got, helped := -1, -1
	base := log.WithLogFunc(context.Background(), func(c ctx.C, level slog.Level, src, f string, args ...any) { got = 0 })
	all := []st{{base, 0, -1}}
	n := vsym.Bound("contexts", 3, 4)
	for i := 1; i <= n; i++ {
		i := i
		p := all[vsym.Choice("parent", len(all))]
		switch vsym.Choice("op", 3) {
		case 0:
			p.c = log.WithLogFunc(p.c, func(c ctx.C, level slog.Level, src, f string, args ...any) { got = i })
			p.lf = i
		case 1:
			p.c = log.WithHelper(p.c, func() { helped = i })
			p.h = i
		default:
			p.c = ctx.WithTag(p.c, "t", 1)
		}
		all = append(all, p)
	}
	for _, s := range all {
		got, helped = -1, -1
		log.Infof(s.c, "x")
		vsym.Assert(got == s.lf, "the innermost logger is used")
		vsym.Assert(helped == s.h, "the innermost helper is used")
	}
	vsym.Reach("end")
}

// H_Args: a custom log function gets exactly what was logged.
func H_Args() {
	calls := 0
	var gl slog.Level
	var gf, gs string
	var ga []any
	var gc ctx.C
	c := log.WithLogFunc(context.Background(), func(c ctx.C, level slog.Level, src, f string, args ...any) {
		calls++
		gc, gl, gs, gf, ga = c, level, src, f, args
	})
	c = ctx.WithTag(c, "k", "v")
	s := log.RedactedString("x")
	x := vsym.Int("x", -5, 5)
	l := emit(c, vsym.Choice("kind", 5), "f %d %s", x, s)
	vsym.Assert(calls == 1, "called once")
	vsym.Assert(gl == l && gf == "f %d %s" && len(ga) == 2 && ga[0] == x && ga[1] == s, "with what was logged")
	vsym.Assert(string(gc.Value("k").(ctx.JSON)) == `"v"`, "and the context")
	_ = gs
	vsym.Reach("end")
}

// H_Plain: without arguments the message is the format, at any level, and
// many arguments are neither modified nor lost.
func H_Plain() {
	var buf bytes.Buffer
	c := log.WithSlogLogger(context.Background(), log.NewDefaultSlogLogger(&buf))
	kind := vsym.Choice("kind", 5)
	n := vsym.Choice("args", 10)
	f, want := "plain", "plain"
	args := make([]any, 0, 16) // room that belongs to the caller
	for i := 0; i < n; i++ {
		f += " %v"
		want += " ***"
		args = append(args, log.RedactedString("secret"))
	}
	spare := args[:cap(args)]
	spare[n] = "spare"
	got := emit(c, kind, f, args...)
	for i := 0; i < n; i++ {
		vsym.Assert(args[i] == log.RedactedString("secret"), "the arguments are not modified")
	}
	vsym.Assert(spare[n] == "spare", "nor what follows them")
	list := parse(buf.Bytes())
	if got < slog.LevelDebug {
		vsym.Assert(len(list) == 0, "nothing is logged below the minimum level")
	} else {
		vsym.Assert(len(list) == 1 && list[0].Msg == want, "the message")
	}
	vsym.Reach("end")
}

// H_Concurrent: entries logged at the same time do not mix.
//
//vsym:quick time=60 race=1 preempt=1
//vsym:thorough time=200 race=1 preempt=2
func H_Concurrent() {
	var buf bytes.Buffer
	c := log.WithSlogLogger(context.Background(), log.NewDefaultSlogLogger(&buf))
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			log.Infof(ctx.WithTag(c, "t", i), "m%d", i)
			done <- true
		}()
	}
	<-done
	<-done
	list := parse(buf.Bytes())
	vsym.Assert(len(list) == 2, "every entry is logged once")
	seen := 0
	for _, e := range list {
		t := string(e.Tags["t"])
		vsym.Assert(e.Msg == "m"+t, "the tags are those of the entry")
		seen += 1 + int(t[0]-'0')*10
	}
	vsym.Assert(seen == 12, "both are logged")
	vsym.Reach("end")
}

// H_NoContext: logging without a context or a logger works.
func H_NoContext() {
	var c ctx.C
	switch vsym.Choice("c", 3) {
	case 0:
		c = context.Background()
	case 1:
		c, _ = ctx.Background()
	default:
		c = ctx.Detach(context.Background())
	}
	_, p := vsym.Panics(func() { log.Infof(c, "x %d", 1) })
	vsym.Assert(!p, "logging never fails")
	_, p = vsym.Panics(func() {
		t := log.Tags{}
		vsym.Assert(log.FormatMsg(nil, &t, "x %d", 1) == "x 1", "formatting needs no context")
		vsym.Assert(len(log.ExtractTags(nil)) == 0, "no context has no tags")
	})
	vsym.Assert(!p, "formatting never fails")
	vsym.Reach("end")
}

// H_Format: the message is what fmt makes of the format and the arguments, also
// if there are none.
func H_Format() {
	n := vsym.Int("n", -9, 99)
	type call struct {
		f    string
		args []any
	}
	calls := []call{
		{"", nil},
		{"plain", nil},
		{"50%% done", nil},
		{"half: %", nil},
		{"%d missing", nil},
		{"%d%%", []any{n}},
		{"%5d|%-5d|%x", []any{n, n, n}},
		{"%v", []any{nil}},
		{"%[2]v %[1]v", []any{n, "x"}},
		{"extra", []any{n}},
		{"%v", []any{errors.New("e")}},
		{"%q %T", []any{"%d", n}},
		{"%+v", []any{struct{ A int }{n}}},
		{"a\nb\t%s", []any{"\x00"}},
	}
	x := calls[vsym.Choice("call", len(calls))]
	want := fmt.Sprintf(x.f, x.args...)
	var buf bytes.Buffer
	c := log.WithSlogLogger(context.Background(), log.NewDefaultSlogLogger(&buf))
	level := ""
	switch vsym.Choice("how", 5) {
	case 0:
		level = "debug"
		log.Debugf(c, x.f, x.args...)
	case 1:
		level = "info"
		log.Infof(c, x.f, x.args...)
	case 2:
		level = "warn"
		log.Warnf(c, x.f, x.args...)
	case 3:
		level = "error"
		log.Errorf(c, x.f, x.args...)
	default:
		level = "warn"
		log.Customf(c, slog.LevelWarn, "here", x.f, x.args...)
	}
	list := parse(buf.Bytes())
	vsym.Assert(len(list) == 1 && list[0].Msg == want, "the message is what fmt makes of it")
	vsym.Assert(list[0].Level == level, "at its level")
	vsym.Reach("end")
}
