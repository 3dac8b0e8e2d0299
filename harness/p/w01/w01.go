// Package w01: calls to objects over a websocket, one object per channel.
//
//vsym:assume methods return an error last, or nothing; the client speaks the websocket protocol (W02 covers those that do not)
//vsym:outside more frames, channels and connections than stated; payloads longer than stated; the scheduling of more than two connections
package w01

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strconv"
	"strings"
	"syscall"

	"verif/harness/vsym"
	"verif/harness/wire"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http/ws"
)

var c ctx.C = context.Background()

type Counter struct {
	Min   int
	Names []string
	ct    int
	log   string
}

func (this *Counter) Init(c ws.C, start int) error {
	if start == 9 {
		return errors.New("no nine")
	}
	this.ct = start
	return nil
}

func (this *Counter) Inc(c ws.C, amt int) error {
	if amt < this.Min {
		return fmt.Errorf("%d is too small", amt)
	}
	this.ct += amt
	return nil
}

func (this *Counter) Get(c ws.C) error {
	return c.Reply("ct", this.ct)
}

func (this *Counter) Twice(c ws.C, in struct {
	V int `json:"v"`
}) error {
	if err := c.Reply("One/ü", in.V); err != nil {
		return err
	}
	return c.Reply("two", 2*in.V)
}

func (this *Counter) Boom(c ws.C) error { panic("boom") }

func (this *Counter) Bye(c ws.C) error { return c.Close() }

// not exposed: the first argument is no ws.C
func (this *Counter) Other(c ctx.C) error { panic("exposed") }
func (this *Counter) Two(a, b int) error  { panic("exposed") }
func (this *Counter) inner(c ws.C) error  { panic("exposed") }

type Tail struct {
	Said string
}

func (this *Tail) Say(c ws.C, s string) error {
	this.Said += s
	return c.Reply("said", this.Said)
}

// out is what the server sent.
func out(k *wire.Conn) (list []ws.Frame) {
	over := false
	for _, f := range k.Frames() {
		if f.Op == 8 {
			over = true
			continue
		}
		vsym.Assert(!over, "nothing follows the close frame")
		vsym.Assert(f.Op == 1 && f.Fin, "the server sends text")
		var x ws.Frame
		vsym.Assert(enc.UnmarshalJSON(c, f.Payload, &x) == nil, "the server sends frames")
		list = append(list, x)
	}
	vsym.Assert(over, "the server says goodbye")
	vsym.Assert(k.Closed > 0, "the connection is closed in the end")
	return
}

func num(n enc.Node) (i int) {
	vsym.Assert(enc.Unmarshal(c, n, &i) == nil, "a number is a number")
	return
}

// expect compares the frames of the server with what is to come.
type expect struct {
	list []ws.Frame
}

func (e *expect) next(what string) ws.Frame {
	vsym.Assert(len(e.list) > 0, what)
	f := e.list[0]
	e.list = e.list[1:]
	return f
}

func (e *expect) reply(ch, path string, v int) {
	f := e.next("a reply arrives")
	vsym.Assert(f.Channel == ch, "a reply goes to the channel of the call")
	vsym.Assert(f.Path == path && f.Type == "", "a reply has the path given")
	vsym.Assert(num(f.Data) == v, "a reply carries the value of the object of that channel")
}

func (e *expect) ok(ch, path string) {
	f := e.next("a call returns")
	vsym.Assert(f.Channel == ch && f.Path == path && f.Type == "return" && (f.Data == nil || f.Data == enc.Nil{}), "a call that succeeds returns once, on its channel")
}

// failed: the client is told on that channel, and not that it succeeded.
func (e *expect) failed(ch, path, text string) {
	told := false
	for n := 0; ; n++ {
		if len(e.list) == 0 || e.list[0].Channel != ch || (e.list[0].Type != "return" && e.list[0].Type != "error") || (n > 0 && e.list[0].Type == "return") {
			break
		}
		f := e.list[0]
		if f.Type == "return" {
			vsym.Assert(f.Path == path && f.Data != nil && f.Data != enc.Nil{}, "a call that fails does not return as if it had not")
		} else if n, ok := f.Data.(enc.String); ok && strings.Contains(string(n), text) {
			told = true
		}
		e.list = e.list[1:]
		if told {
			break
		}
	}
	vsym.Assert(told, "the client is told what failed")
}

func (e *expect) over() {
	f := e.next("the client is told why it is disconnected")
	vsym.Assert(f.Type == "disconnect", "the client is told that it is disconnected")
	vsym.Assert(len(e.list) == 0, "nothing follows a disconnect")
}

func say(k *wire.Conn, f string, a ...any) { k.Text([]byte(fmt.Sprintf(f, a...))) }

// send has the client send a frame whose data ends in a digit.
func digit(k *wire.Conn, head string, d int, tail string) {
	p := []byte(head)
	p = append(p, '0'+byte(d))
	p = append(p, tail...)
	k.Text(p)
}

type model struct {
	open bool
	ct   int
}

// H_Calls: whatever sequence of frames a client sends, each goes to the object
// of its channel, the objects know nothing of each other, every call is
// answered once and in order, and what is not exposed can not be called.
//
//vsym:all preempt=0 timers=0
//vsym:quick time=200
//vsym:thorough time=700
func H_Calls() {
	h := ws.RpcHandler{}
	min := vsym.Choice("min", 2) * 2
	h.MustRegister(c, &Counter{Min: min, Names: []string{"a"}}).MustRegister(c, Tail{})
	k := wire.New()
	n := vsym.Bound("frames", 2, 3)
	var obj [2]model
	var checks []func(e *expect)
	expecting := func(f func(e *expect)) { checks = append(checks, f) }
	dead := false
	// the first channel is there from the start
	start := vsym.Int("start", 0, 8)
	digit(k, `{"channel":"c0","path":"counter","type":"new","data":`, start, `}`)
	obj[0] = model{true, start}
	for i := 0; i < n; i++ {
		op := vsym.Choice("frame", 13)
		which := 0
		if op < 9 {
			which = vsym.Choice("channel", 2)
		}
		ch := []string{"c0", "c1"}[which]
		o := &obj[which]
		if dead {
			// whatever it is, nothing comes of it
			say(k, `{"channel":"c0","path":"get"}`)
			break
		}
		if op > 0 && op < 9 && !o.open {
			op = 12
		}
		switch op {
		case 0:
			v := vsym.Int("start", 0, 9)
			digit(k, `{"channel":"`+ch+`","path":"counter","type":"open","data":`, v, `}`)
			if v == 9 {
				o.open = false
				expecting(func(e *expect) { e.failed(ch, "", "no nine") })
			} else {
				*o = model{true, v}
			}
		case 1:
			v := vsym.Int("amount", 0, 9)
			digit(k, `{"channel":"`+ch+`","path":"inc","data":`, v, `}`)
			if v < min {
				expecting(func(e *expect) { e.failed(ch, "inc", "is too small") })
			} else {
				o.ct += v
				expecting(func(e *expect) { e.ok(ch, "inc") })
			}
		case 2:
			say(k, `{"channel":%q,"path":"get","type":"data"}`, ch)
			v := o.ct
			expecting(func(e *expect) { e.reply(ch, "ct", v); e.ok(ch, "get") })
		case 3:
			v := vsym.Int("value", 0, 9)
			digit(k, `{"channel":"`+ch+`","path":"twice","data":{"v":`, v, `}}`)
			expecting(func(e *expect) { e.reply(ch, "One/ü", v); e.reply(ch, "two", 2*v); e.ok(ch, "twice") })
		case 4:
			say(k, `{"channel":%q,"path":"inc","data":"text"}`, ch)
			expecting(func(e *expect) { e.failed(ch, "inc", "") })
		case 5:
			say(k, `{"channel":%q,"path":%q}`, ch, []string{"nope", "", "init", "other", "two", "inner", "Get"}[vsym.Choice("path", 7)])
			dead = true
			expecting((*expect).over)
		case 6:
			say(k, `{"channel":%q,"path":"boom"}`, ch)
			dead = true
			expecting((*expect).over)
		case 7:
			say(k, `{"channel":%q,"type":"close"}`, ch)
			o.open = false
			expecting(func(e *expect) {
				f := e.next("closing a channel is answered")
				vsym.Assert(f.Channel == ch && f.Type == "close", "closing a channel is answered")
			})
		case 8:
			say(k, `{"channel":%q,"path":"bye"}`, ch)
			dead = true
			expecting(func(e *expect) { vsym.Assert(len(e.list) == 0, "nothing follows closing the connection") })
		case 9:
			say(k, `{"channel":%q,"path":"nope","type":"open"}`, ch)
			dead = true
			expecting((*expect).over)
		case 10:
			say(k, `{"type":"close"}`)
			dead = true
			expecting(func(e *expect) { vsym.Assert(len(e.list) == 0, "nothing follows closing the connection") })
		case 11:
			say(k, []string{`"text"`, `[1]`, `7`}[vsym.Choice("no frame", 3)])
			dead = true
			expecting((*expect).over)
		case 12:
			// nobody opened it: there is nothing to call or to close, and a call opens nothing
			say(k, `{"channel":"c9","path":%s}`, []string{`"get"`, `"counter"`, `"get","type":"close"`}[vsym.Choice("unknown", 3)])
			dead = true
			expecting((*expect).over)
		}
	}
	if !dead {
		for i, ch := range []string{"c0", "c1"} {
			if ch, o := ch, obj[i]; o.open {
				say(k, `{"channel":%q,"path":"get"}`, ch)
				expecting(func(e *expect) { e.reply(ch, "ct", o.ct); e.ok(ch, "get") })
			}
		}
	}
	k.EOF = true
	failed := wire.Serve(c, h.Server(), k)
	vsym.Assert(failed == nil, "a panic of a method stays with its connection")
	e := &expect{out(k)}
	for _, f := range checks {
		f(e)
	}
	vsym.Assert(len(e.list) == 0, "the server sends nothing else")
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running")
	vsym.Reach("end")
	vsym.Done()
}

// H_Text: text arrives and comes back as it is, over two kinds of objects.
//
//vsym:all preempt=0 timers=0
func H_Text() {
	h := ws.RpcHandler{}
	h.MustRegister(c, &Counter{}).MustRegister(c, &Tail{})
	k := wire.New()
	a := vsym.StringIn("a", 0, vsym.Bound("len", 2, 3), "az \u00e9<")
	b := vsym.StringIn("b", 0, 1, "az")
	valid := true
	for _, r := range a {
		if r == 0xfffd {
			valid = false
		}
	}
	vsym.Assume(valid)
	chs := []string{"c0", "c1"}
	same := vsym.Choice("same channel", 2) == 1
	if same {
		chs[1] = "c0"
	}
	k.Text([]byte(`{"channel":"c0","path":"tail","type":"new"}`))
	if !same {
		k.Text([]byte(`{"channel":"c1","path":"tail","type":"new"}`))
	}
	k.Text([]byte(`{"channel":"` + chs[0] + `","path":"say","data":"` + a + `"}`))
	k.Text([]byte(`{"channel":"` + chs[1] + `","path":"say","data":"` + b + `"}`))
	k.EOF = true
	vsym.Assert(wire.Serve(c, h.Server(), k) == nil, "no panic")
	list := out(k)
	vsym.Assert(len(list) == 4, "two replies and two returns")
	vsym.Assert(list[0].Channel == chs[0] && list[0].Data == enc.String(a), "text arrives as it is")
	want := b
	if same {
		want = a + b
	}
	vsym.Assert(list[2].Channel == chs[1] && list[2].Data == enc.String(want), "an object keeps what is its own")
	vsym.Reach("end")
	vsym.Done()
}

type Fields struct {
	A     int
	B     string
	P     *int
	M     map[string]int
	F     func() int
	inner int
	Tail
}

func (this *Fields) Show(c ws.C) error {
	p := -1
	if this.P != nil {
		p = *this.P
	}
	f := -1
	if this.F != nil {
		f = this.F()
	}
	return c.Reply("show", []any{this.A, this.B, p, this.M["k"], this.inner, this.Said, f})
}

func (this *Fields) Set(c ws.C, v int) error {
	this.A, this.B, this.P, this.inner, this.Said = v, "set", &v, v, "set"
	this.M, this.F = nil, nil
	return nil
}

// H_Fields: a new object has the public fields of the one registered, and what
// it does with them is not seen by others, nor by the one registered.
//
//vsym:all preempt=0 timers=0
func H_Fields() {
	x := 7
	proto := Fields{A: vsym.Int("a", -3, 3), B: vsym.StringIn("b", 0, 1, "xy"), inner: vsym.Choice("inner", 2)}
	if vsym.Choice("pointer", 2) == 1 {
		proto.P = &x
	}
	if vsym.Choice("map", 2) == 1 {
		proto.M = map[string]int{"k": 5}
	}
	fn := -1
	if vsym.Choice("function", 2) == 1 {
		fn = 3
		proto.F = func() int { return fn }
	}
	proto.Said = []string{"", "hi"}[vsym.Choice("embedded", 2)]
	h := ws.RpcHandler{}
	ptr := &proto
	if vsym.Choice("by value", 2) == 1 {
		vsym.Assert(h.Register(c, proto) == nil, "structs can be registered")
	} else {
		vsym.Assert(h.Register(c, ptr) == nil, "pointers to structs can be registered")
	}
	before := proto
	serve := func() []ws.Frame {
		k := wire.New()
		say(k, `{"channel":"c0","path":"fields","type":"new"}`)
		say(k, `{"channel":"c0","path":"set","data":4}`)
		say(k, `{"channel":"c1","path":"fields","type":"new"}`)
		say(k, `{"channel":"c1","path":"show"}`)
		k.EOF = true
		vsym.Assert(wire.Serve(c, h.Server(), k) == nil, "no panic")
		return out(k)
	}
	for i := 0; i < 2; i++ {
		list := serve()
		vsym.Assert(len(list) == 3, "set returns, show replies and returns")
		var got []any
		vsym.Assert(enc.Unmarshal(c, list[1].Data, &got) == nil && len(got) == 7, "show replies")
		p, m := -1, 0
		if before.P != nil {
			p = 7
		}
		if before.M != nil {
			m = 5
		}
		j := string(enc.JSON{}.Encode(c, list[1].Data))
		w, err := enc.MarshalJSON(c, []any{before.A, before.B, p, m, 0, before.Said, fn})
		vsym.Assert(err == nil && j == string(w), "a new object starts with the public fields registered, the others empty")
	}
	vsym.Assert(proto.A == before.A && proto.B == before.B && proto.P == before.P && x == 7 && len(proto.M) == len(before.M) && proto.Said == before.Said, "the object registered stays as it is")
	vsym.Reach("end")
	vsym.Done()
}

type Odd int

// H_Register: what can not be registered is an error and no panic.
//
//vsym:all preempt=0 timers=0
func H_Register() {
	h := ws.RpcHandler{}
	var v any
	i := 3
	switch vsym.Choice("what", 7) {
	case 0:
		v = 7
	case 1:
		v = "x"
	case 2:
		v = &i
	case 3:
		v = (*Counter)(nil)
	case 4:
		v = nil
	case 5:
		v = map[string]int{}
	case 6:
		p := &Counter{}
		v = &p
	}
	vsym.Assert(h.Register(c, v) != nil, "only structs can be registered")
	// and the handler still works
	h.MustRegister(c, &Counter{})
	k := wire.New()
	say(k, `{"channel":"c0","path":"counter","type":"new","data":1}`)
	say(k, `{"channel":"c0","path":"get"}`)
	k.EOF = true
	vsym.Assert(wire.Serve(c, h.Server(), k) == nil, "no panic")
	e := &expect{out(k)}
	e.reply("c0", "ct", 1)
	e.ok("c0", "get")
	vsym.Reach("end")
	vsym.Done()
}

// H_Data: data that does not fit, or is not there, is an error to the caller
// and nothing else: the object is as it was and the connection stays.
//
//vsym:all preempt=0 timers=0
func H_Data() {
	h := ws.RpcHandler{}
	h.MustRegister(c, &Counter{})
	k := wire.New()
	say(k, `{"channel":"c0","path":"counter","type":"new","data":1}`)
	path := []string{"inc", "twice"}[vsym.Choice("path", 2)]
	data := []string{`"data":"x"`, `"data":[1]`, `"data":true`, `"data":{"v":"x"}`, `"data":{"v":[]}`,
		`"data":null`, `"x":1`, `"data":99999999999999999999`, `"data":{}`}[vsym.Choice("data", 9)]
	say(k, `{"channel":"c0","path":%q,%s}`, path, data)
	say(k, `{"channel":"c0","path":"get"}`)
	k.EOF = true
	vsym.Assert(wire.Serve(c, h.Server(), k) == nil, "no panic")
	list := out(k)
	vsym.Assert(len(list) >= 3, "both calls are answered")
	e := &expect{list[len(list)-2:]}
	e.reply("c0", "ct", 1)
	e.ok("c0", "get")
	for _, f := range list[:len(list)-2] {
		vsym.Assert(f.Channel == "c0" && f.Type != "disconnect", "the connection stays")
	}
	vsym.Reach("end")
	vsym.Done()
}

// H_Connections: the objects of one connection are not those of another, even
// if they are served at the same time.
//
//vsym:all race=1 timers=0
//vsym:quick time=60 preempt=0
//vsym:thorough time=300 preempt=1
func H_Connections() {
	h := ws.RpcHandler{}
	h.MustRegister(c, &Counter{Min: 1})
	v := []int{3, vsym.Int("start", 5, 6)}
	ks := []*wire.Conn{wire.New(), wire.New()}
	done := make(chan any, 2)
	for i, k := range ks {
		k := k
		digit(k, `{"channel":"c0","path":"counter","type":"new","data":`, v[i], `}`)
		say(k, `{"channel":"c0","path":"get"}`)
		k.EOF = true
		go func() { done <- wire.Serve(c, h.Server(), k) }()
	}
	for range ks {
		vsym.Assert(<-done == nil, "no panic")
	}
	for i, k := range ks {
		e := &expect{out(k)}
		e.reply("c0", "ct", v[i])
		e.ok("c0", "get")
		vsym.Assert(len(e.list) == 0, "the server sends nothing else")
	}
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running")
	vsym.Reach("end")
	vsym.Done()
}

type Arg struct {
	N int            `json:"n"`
	P *int           `json:"p"`
	L []int          `json:"l"`
	M map[string]int `json:"m"`
}

// Keeper keeps what it was given.
type Keeper struct {
	kept []Arg
}

func (this *Keeper) Keep(c ws.C, in Arg) error {
	this.kept = append(this.kept, in)
	return nil
}

func (this *Keeper) KeepAll(c ws.C, in []Arg) error {
	this.kept = append(this.kept, in...)
	return nil
}

func (this *Keeper) Tell(c ws.C) error {
	s := ""
	for _, a := range this.kept {
		p := "-"
		if a.P != nil {
			p = strconv.Itoa(*a.P)
		}
		s += fmt.Sprintf("%d %s %v %v;", a.N, p, a.L, a.M)
	}
	return c.Reply("kept", s)
}

// H_Args: a call gets what its frame has, whatever was in the frames before,
// of the same or another channel or connection, and it keeps it.
//
//vsym:all race=1 timers=0
//vsym:quick time=40 preempt=0
//vsym:thorough time=400 preempt=1
func H_Args() {
	h := ws.RpcHandler{}
	h.MustRegister(c, &Keeper{})
	together := vsym.Bool("together")
	ks := []*wire.Conn{wire.New(), wire.New()}
	want := map[[2]int]string{}
	n := vsym.Bound("calls", 2, 3)
	for i, k := range ks {
		for j := 0; j < 2; j++ {
			say(k, `{"channel":"c%d","path":"keeper","type":"open"}`, j)
		}
		for m := 0; m < n; m++ {
			if i == 1 && m > 0 {
				break
			}
			ch := 0
			if i == 0 && m > 0 {
				ch = vsym.Choice("channel", 2)
			}
			data, text := "", ""
			v := 1 + i*n + m
			kind := 0 // nothing at all
			if i == 0 {
				kind = vsym.Choice("argument", 5)
			} else {
				kind = vsym.Choice("argument", vsym.Bound("arguments of the second connection", 2, 4))
			}
			switch kind {
			case 0:
				data, text = "{}", "0 - [] map[];"
			case 1:
				data, text = fmt.Sprintf(`{"n":%d,"l":[%d,%d]}`, v, v, v), fmt.Sprintf("%d - [%d %d] map[];", v, v, v)
			case 2:
				data, text = fmt.Sprintf(`{"m":{"k%d":%d}}`, v, v), fmt.Sprintf("0 - [] map[k%d:%d];", v, v)
			case 3:
				data, text = fmt.Sprintf(`{"p":%d,"l":[%d]}`, v, v), fmt.Sprintf("0 %d [%d] map[];", v, v)
			case 4:
				data, text = fmt.Sprintf(`[{"n":%d},{"p":%d},{}]`, v, v), fmt.Sprintf("%d - [] map[];0 %d [] map[];0 - [] map[];", v, v)
			}
			path := "keep"
			if data[0] == '[' {
				path = "keepAll"
			}
			say(k, `{"channel":"c%d","path":%q,"data":%s}`, ch, path, data)
			want[[2]int{i, ch}] += text
		}
		for j := 0; j < 2; j++ {
			say(k, `{"channel":"c%d","path":"tell"}`, j)
		}
		k.EOF = true
	}
	done := make(chan any, 2)
	for _, k := range ks {
		k := k
		f := func() { done <- wire.Serve(c, h.Server(), k) }
		if together {
			go f()
		} else {
			f()
		}
	}
	for range ks {
		vsym.Assert(<-done == nil, "no panic")
	}
	for i, k := range ks {
		var told []string
		for _, f := range out(k) {
			vsym.Assert(f.Type != "error", "the calls succeed")
			if f.Path == "kept" {
				told = append(told, string(f.Data.(enc.String)))
			}
		}
		vsym.Assert(len(told) == 2, "both objects tell")
		for j, s := range told {
			vsym.Assert(s == want[[2]int{i, j}], "a call gets what its frame has")
		}
	}
	vsym.Reach("end")
	vsym.Done()
}

// Namesake has methods with the names of what a channel or a connection does.
type Namesake struct {
	n int
}

func (this *Namesake) count(c ws.C, name string) error {
	this.n++
	return c.Reply(name, this.n)
}

func (this *Namesake) Close(c ws.C) error      { return this.count(c, "close") }
func (this *Namesake) Open(c ws.C) error       { return this.count(c, "open") }
func (this *Namesake) New(c ws.C) error        { return this.count(c, "new") }
func (this *Namesake) Data(c ws.C) error       { return this.count(c, "data") }
func (this *Namesake) Error(c ws.C) error      { return this.count(c, "error") }
func (this *Namesake) Return(c ws.C) error     { return this.count(c, "return") }
func (this *Namesake) Disconnect(c ws.C) error { return this.count(c, "disconnect") }
func (this *Namesake) Namesake(c ws.C) error   { return this.count(c, "namesake") }

// H_Namesakes: methods are called by their name, whatever it is, and a channel
// is closed by a frame of that type, whatever methods the object has.
//
//vsym:all preempt=0 timers=0
func H_Namesakes() {
	h := ws.RpcHandler{}
	h.MustRegister(c, &Namesake{})
	k := wire.New()
	say(k, `{"channel":"c0","path":"namesake","type":"%s"}`, []string{"new", "open"}[vsym.Choice("opened by", 2)])
	n := vsym.Bound("calls", 2, 3)
	var names []string
	for i := 0; i < n; i++ {
		name := []string{"close", "open", "new", "data", "error", "return", "disconnect", "namesake"}[vsym.Choice("method", 8)]
		names = append(names, name)
		say(k, `{"channel":"c0","path":"%s"%s}`, name, []string{"", `,"type":"data"`}[vsym.Choice("type", 2)])
	}
	shut := vsym.Bool("close")
	if shut {
		say(k, `{"channel":"c0","type":"close"}`)
		say(k, `{"channel":"c0","path":"close"}`)
	}
	k.EOF = true
	vsym.Assert(wire.Serve(c, h.Server(), k) == nil, "no panic")
	e := &expect{out(k)}
	for i, name := range names {
		e.reply("c0", name, i+1)
		e.ok("c0", name)
	}
	if shut {
		f := e.next("closing a channel is answered")
		vsym.Assert(f.Channel == "c0" && f.Type == "close", "closing a channel is answered")
		e.over()
	}
	vsym.Assert(len(e.list) == 0, "the server sends nothing else")
	vsym.Reach("end")
	vsym.Done()
}

type coded struct {
	Text string `json:"text"`
}

func (this coded) Error() string { return "coded " + this.Text }

type opaque struct {
	text string
	F    func()
	Ch   chan int
}

func (this *opaque) Error() string { return this.text }

// anError gives an error of any kind, with that text.
func anError(c ctx.C, kind int, text string) error {
	switch kind {
	case 0:
		return errors.New(text)
	case 1:
		return ctx.NewErrorf(c, "%s", text)
	case 2:
		return ctx.NewErrorf(c, "wrapped: %w", ctx.NewErrorf(c, "%s", text))
	case 3:
		return fmt.Errorf("wrapped: %w", errors.New(text))
	case 4:
		return coded{text}
	case 5:
		return &opaque{text: text}
	case 6:
		return &fs.PathError{Op: "open", Path: text, Err: syscall.ENOENT}
	default:
		return errors.Join(errors.New(text), io.EOF)
	}
}

const errorKinds = 8

// Failing fails in any way.
type Failing struct {
	n int
}

// Never can't be made.
type Never struct{}

func (this *Never) Init(c ws.C) error { return errors.New("no init") }
func (this *Never) Get(c ws.C) error  { return nil }

func (this *Failing) Init(c ws.C, kind int) error {
	if kind < 0 {
		return nil
	}
	return anError(c, kind, "no init")
}

func (this *Failing) Fail(c ws.C, kind int) error {
	this.n++
	return anError(c, kind, "no way")
}

func (this *Failing) Both(c ws.C, kind int) (string, error) {
	this.n++
	return "ignored", anError(c, kind, "no way")
}

func (this *Failing) Get(c ws.C) error { return c.Reply("n", this.n) }

// H_Errors: an error of any kind, of a method or of Init, is told to the
// client, by its text, and changes nothing else.
//
//vsym:all preempt=0 timers=0
//vsym:quick time=60
func H_Errors() {
	h := ws.RpcHandler{}
	h.MustRegister(c, &Failing{}).MustRegister(c, &Never{})
	k := wire.New()
	say(k, `{"channel":"c0","path":"failing","type":"new","data":-1}`)
	n := vsym.Bound("calls", 2, 3)
	var kinds []int
	tried := false
	for i := 0; i < n; i++ {
		kind := -1
		of := vsym.Choice("of", 4)
		if of < 3 {
			kind = vsym.Choice("kind", errorKinds)
		}
		switch of {
		case 3:
			say(k, `{"channel":"c1","path":"never","type":"new"%s}`, []string{"", `,"data":null`, `,"data":{}`}[vsym.Choice("data", 3)])
			tried = true
		case 0:
			say(k, `{"channel":"c0","path":"fail","data":%d}`, kind)
		case 1:
			say(k, `{"channel":"c0","path":"both","data":%d}`, kind)
			kind += 100
		case 2:
			say(k, `{"channel":"c1","path":"failing","type":"new","data":%d}`, kind)
			kind, tried = -1, true
		}
		kinds = append(kinds, kind)
	}
	say(k, `{"channel":"c0","path":"get"}`)
	// there is none, whatever was tried
	if tried && vsym.Choice("after", 2) == 1 {
		say(k, `{"channel":"c1","type":"close"}`)
	} else {
		say(k, `{"channel":"c1","path":"get"}`)
	}
	k.EOF = true
	vsym.Assert(wire.Serve(c, h.Server(), k) == nil, "no panic")
	e := &expect{out(k)}
	calls := 0
	for _, kind := range kinds {
		switch {
		case kind < 0:
			e.failed("c1", "", "no init")
		case kind >= 100:
			calls++
			e.failed("c0", "both", "no way")
		default:
			calls++
			e.failed("c0", "fail", "no way")
		}
	}
	e.reply("c0", "n", calls)
	e.ok("c0", "get")
	e.over()
	vsym.Reach("end")
	vsym.Done()
}

// H_Many: many channels, and many calls on each, with long texts.
//
//vsym:all preempt=0 timers=0 fuel=80000000 native=4
//vsym:quick time=90
//vsym:thorough time=300
func H_Many() {
	h := ws.RpcHandler{}
	h.MustRegister(c, &Counter{}).MustRegister(c, Tail{})
	k := wire.New()
	n := []int{5, 20, 40}[vsym.Choice("channels", 3)]
	at := vsym.Choice("at", 3) * (n - 1) / 2
	x := vsym.Int("x", 0, 8)
	closed := -1
	for i := 0; i < n; i++ {
		if i == at {
			digit(k, fmt.Sprintf(`{"channel":"c%d","path":"counter","type":"new","data":`, i), x, `}`)
		} else {
			say(k, `{"channel":"c%d","path":"counter","type":"new","data":%d}`, i, i+10)
		}
	}
	if vsym.Bool("close") {
		closed = (at + 1) % n
		say(k, `{"channel":"c%d","type":"close"}`, closed)
	}
	rounds := 2
	for r := 0; r < rounds; r++ {
		for i := 0; i < n; i++ {
			if i != closed {
				say(k, `{"channel":"c%d","path":"inc","data":%d}`, i, i+1)
			}
		}
	}
	for i := n - 1; i >= 0; i-- {
		if i != closed {
			say(k, `{"channel":"c%d","path":"get"}`, i)
		}
	}
	long := strings.Repeat("text ", 100)
	say(k, `{"channel":"t","path":"tail","type":"new"}`)
	for i := 0; i < 10; i++ {
		say(k, `{"channel":"t","path":"say","data":"%s%d"}`, long, i)
	}
	k.EOF = true
	vsym.Assert(wire.Serve(c, h.Server(), k) == nil, "no panic")
	e := &expect{out(k)}
	if closed >= 0 {
		f := e.next("closing a channel is answered")
		vsym.Assert(f.Channel == fmt.Sprint("c", closed) && f.Type == "close", "closing a channel is answered")
	}
	for r := 0; r < rounds; r++ {
		for i := 0; i < n; i++ {
			if i != closed {
				e.ok(fmt.Sprint("c", i), "inc")
			}
		}
	}
	for i := n - 1; i >= 0; i-- {
		if i == closed {
			continue
		}
		v := i + 10
		if i == at {
			v = x
		}
		e.reply(fmt.Sprint("c", i), "ct", v+rounds*(i+1))
		e.ok(fmt.Sprint("c", i), "get")
	}
	said := ""
	for i := 0; i < 10; i++ {
		said += long + fmt.Sprint(i)
		f := e.next("a reply arrives")
		vsym.Assert(f.Channel == "t" && f.Path == "said" && f.Data == enc.Node(enc.String(said)), "all that was said so far")
		e.ok("t", "say")
	}
	vsym.Assert(len(e.list) == 0, "the server sends nothing else")
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running")
	vsym.Reach("end")
}
