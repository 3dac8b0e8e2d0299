// Package a01: requests and responses of API operations.
//
//vsym:outside operations with more fields than stated; values longer than stated
package a01

import (
	"context"
	"errors"
	"io"
	"reflect"
	"strconv"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

var c ctx.C = context.Background()

type UID string

type Dep struct{ n int }

type Op struct {
	R    api.Request `url:"/op"`
	A    int         `api:"in" json:"a"`
	B    string      `api:"in,required" json:"b,omitempty"`
	Both int         `api:"both" json:"both"`
	Out  int         `api:"out" enc:"o" json:"x"`
	Ptr  *int        `api:"in,out"`
	UID  UID         `api:"auth" json:"uid"`
	Dep  *Dep
	Conf string
	priv int
}

func (o *Op) Do(ctx.C) error { return nil }

type Strict struct {
	A   int `api:"in,required" json:"a"`
	UID UID `api:"auth,required" json:"uid"`
	Out int `api:"out" json:"out"`
}

func (o *Strict) Do(ctx.C) error { return nil }

// request builds a request for Op, each part there or not.
type request struct {
	data              *api.JSON
	a, both           int64
	b                 string
	hasA, hasB, hasBo bool
	ptr               int // 0 missing, 1 null, 2 value
	uid               int // 0 missing, 1 null, 2 value
}

func newRequest(name string) (r request) {
	r.data = &api.JSON{}
	if vsym.Bool(name + " has data") {
		r.data.Data = enc.Map{}
		if r.hasA = vsym.Bool(name + " has a"); r.hasA {
			r.a = vsym.Int64(name+" a", -9, 9)
			r.data.Data["a"] = enc.Integer(r.a)
		}
		if r.hasB = vsym.Bool(name + " has b"); r.hasB {
			r.b = vsym.StringIn(name+" b", 0, 2, "xy")
			r.data.Data["b"] = enc.String(r.b)
		}
		if r.hasBo = vsym.Bool(name + " has both"); r.hasBo {
			r.both = vsym.Int64(name+" both", -9, 9)
			r.data.Data["both"] = enc.Integer(r.both)
		}
		r.ptr = vsym.Choice(name+" ptr", 3)
		switch r.ptr {
		case 1:
			r.data.Data["Ptr"] = enc.Nil{}
		case 2:
			r.data.Data["Ptr"] = enc.Integer(5)
		}
		// what is no input must not get in
		if vsym.Bool(name + " has others") {
			for _, k := range []string{"o", "x", "Out", "uid", "UID", "Dep", "Conf", "priv", "A", "R"} {
				r.data.Data[k] = enc.Integer(66)
			}
		}
	}
	r.uid = vsym.Choice(name+" uid", 3)
	switch r.uid {
	case 1:
		r.data.UID = enc.Nil{}
	case 2:
		r.data.UID = enc.String("alice")
	}
	return
}

func (r request) check(op *Op, err error, dep *Dep) {
	if r.b == "" {
		vsym.Assert(err != nil && op == nil, "a request without what is required is refused")
		return
	}
	vsym.Assert(err == nil && op != nil, "a request with what is required is accepted")
	vsym.Assert(op.A == int(r.a) && op.B == r.b && op.Both == int(r.both), "inputs are what the request says, nothing otherwise")
	vsym.Assert((op.Ptr != nil) == (r.ptr == 2), "a pointer is set when there is a value")
	if op.Ptr != nil {
		vsym.Assert(*op.Ptr == 5, "pointer")
	}
	vsym.Assert(op.Out == 0, "outputs start empty")
	vsym.Assert((op.UID == "alice") == (r.uid == 2) && (op.UID == "") == (r.uid != 2), "the user is the authenticated one, or none")
	vsym.Assert(op.Dep == dep && op.Conf == "conf" && op.priv == 7, "everything else is what was registered")
}

func initial() (*Op, *Dep) {
	dep := &Dep{1}
	x := 44
	return &Op{A: 11, B: "init", Both: 22, Out: 33, Ptr: &x, Dep: dep, Conf: "conf", priv: 7}, dep
}

// H_Recv: a request gives a fresh operation with its inputs, the authenticated
// user and what was registered, and nothing else.
//
//vsym:quick time=60
func H_Recv() {
	init, dep := initial()
	s, err := api.NewServer(c, init)
	vsym.Assert(err == nil, "registered")
	r := newRequest("req")
	op, err := s.Recv(c, r.data)
	r.check(op, err, dep)
	vsym.Assert(op != init, "a fresh object")
	vsym.Reach("end")
}

// H_Isolation: one request, whatever was done to its operation, has no effect
// on the next one.
//
//vsym:quick time=60
func H_Isolation() {
	init, dep := initial()
	s, err := api.NewServer(c, init)
	vsym.Assert(err == nil, "registered")
	first := &api.JSON{Data: enc.Map{"b": enc.String("one"), "a": enc.Integer(3), "both": enc.Integer(4), "Ptr": enc.Integer(9)}, UID: enc.String("bob")}
	op1, err := s.Recv(c, first)
	vsym.Assert(err == nil, "accepted")
	op1.A, op1.Out, op1.Conf, op1.priv, op1.Dep = 99, 98, "changed", 97, nil
	r := newRequest("req")
	op, err := s.Recv(c, r.data)
	r.check(op, err, dep)
	vsym.Assert(op != op1, "a fresh object")
	vsym.Assert(init.A == 11 && init.Conf == "conf" && init.priv == 7, "what was registered is left alone")
	vsym.Reach("end")
}

// H_Strict: required inputs and a required user.
//
//vsym:quick time=60
func H_Strict() {
	var init *Strict
	if vsym.Bool("init") {
		init = &Strict{A: 5, Out: 6}
	}
	s, err := api.NewServer(c, init)
	vsym.Assert(err == nil, "registered")
	d := &api.JSON{}
	a := int64(0)
	if vsym.Bool("has a") {
		a = vsym.Int64("a", -9, 9)
		d.Data = enc.Map{"a": enc.Integer(a)}
	}
	uid := vsym.Choice("uid", 3)
	switch uid {
	case 1:
		d.UID = enc.Nil{}
	case 2:
		d.UID = enc.String("alice")
	}
	op, err := s.Recv(c, d)
	if a == 0 || uid != 2 {
		vsym.Assert(err != nil && op == nil, "what is required must be there")
	} else {
		vsym.Assert(err == nil && op.A == int(a) && op.UID == "alice" && op.Out == 0, "accepted")
	}
	vsym.Reach("end")
}

type AuthIn struct {
	UID UID `api:"auth,in" json:"uid"`
	A   int `api:"in" json:"a"`
}
type InAuth struct {
	A   int `api:"in" json:"a"`
	UID UID `api:"both,auth,required" json:"uid"`
}

type StrictPtr struct {
	P *int `api:"in,required" json:"p"`
	Q *int `api:"in" json:"q"`
	U *UID `api:"auth,required"`
}

func (o *StrictPtr) Do(ctx.C) error { return nil }

// H_StrictPointer: what is there is there, whatever it is.
//
//vsym:quick time=60
func H_StrictPointer() {
	s, err := api.NewServer(c, &StrictPtr{})
	vsym.Assert(err == nil, "registered")
	d := &api.JSON{Data: enc.Map{}}
	x, y := vsym.Int64("x", -9, 9), vsym.Int64("y", -9, 9)
	hasP, hasQ, hasU := vsym.Choice("p", 3), vsym.Choice("q", 3), vsym.Choice("u", 3)
	for i, k := range []string{"p", "q"} {
		switch []int{hasP, hasQ}[i] {
		case 1:
			d.Data[k] = enc.Nil{}
		case 2:
			d.Data[k] = enc.Integer([]int64{x, y}[i])
		}
	}
	switch hasU {
	case 1:
		d.UID = enc.Nil{}
	case 2:
		d.UID = enc.String("")
	}
	op, err := s.Recv(c, d)
	if hasP < 2 || hasU < 2 {
		vsym.Assert(err != nil && op == nil, "what is required must be there")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil && op.P != nil && *op.P == int(x) && op.U != nil && *op.U == "", "accepted")
	vsym.Assert((op.Q != nil) == (hasQ == 2) && (op.Q == nil || *op.Q == int(y)), "accepted")
	vsym.Reach("end")
}

// H_AuthInput: whoever authenticated is the user, also if the same field is
// an input.
//
//vsym:quick time=60
func H_AuthInput() {
	d := &api.JSON{Data: enc.Map{}, UID: enc.String("alice")}
	if vsym.Bool("has a") {
		d.Data["a"] = enc.Integer(4)
	}
	if vsym.Bool("has uid") {
		d.Data["uid"] = enc.String("mallory")
	}
	if vsym.Bool("optional") {
		s, err := api.NewServer(c, &AuthIn{})
		vsym.Assert(err == nil, "registered")
		op, err := s.Recv(c, d)
		vsym.Assert(err == nil && op.UID == "alice", "the user is the authenticated one")
	} else if s, err := api.NewServer(c, &InAuth{}); err == nil {
		op, err := s.Recv(c, d)
		vsym.Assert(err != nil || op.UID == "alice", "the user is the authenticated one")
	}
	vsym.Reach("end")
}

// H_BadInput: an input of the wrong kind is refused.
//
//vsym:quick time=60
func H_BadInput() {
	init, _ := initial()
	s, err := api.NewServer(c, init)
	vsym.Assert(err == nil, "registered")
	d := &api.JSON{Data: enc.Map{"a": enc.Integer(1), "b": enc.String("b"), "both": enc.Integer(2)}}
	bad := []enc.Node{enc.Bool(true), enc.List{}, enc.Map{}, enc.Digits("x"), enc.Digits("99999999999999999999")}[vsym.Choice("bad", 5)]
	switch vsym.Choice("where", 4) {
	case 0:
		d.Data["a"] = bad
	case 1:
		d.Data["both"] = bad
	case 2:
		d.Data["Ptr"] = bad
	default:
		d.UID = enc.List{}
	}
	op, err := s.Recv(c, d)
	vsym.Assert(err != nil && op == nil, "an input of the wrong kind is refused")
	vsym.Reach("end")
}

// H_Trip: what the client puts in arrives at the server, what the server puts
// out arrives at the client, nothing else does.
//
//vsym:quick time=60
func H_Trip() {
	init, dep := initial()
	h, err := api.NewHandler(c, init)
	vsym.Assert(err == nil, "registered")
	cli, ser := h.Client(), h.Server()

	var p *int
	if vsym.Bool("pointer") {
		x := int(vsym.Int64("ptr", -9, 9))
		p = &x
	}
	in := &Op{A: int(vsym.Int64("A", -9, 9)), B: "b" + vsym.StringIn("B", 0, 1, "xy"), Both: int(vsym.Int64("Both", -9, 9)), Ptr: p,
		Out: 55, UID: "mallory", Conf: "client", Dep: &Dep{3}, priv: 4}
	before := *in
	req := &api.JSON{}
	vsym.Assert(cli.Send(c, in, req) == nil, "sent")
	vsym.Assert(in.A == before.A && in.B == before.B && in.Both == before.Both && in.Out == before.Out && in.UID == before.UID && in.Ptr == before.Ptr, "sending changes nothing")
	vsym.Assert(len(req.Data) == 4, "only inputs are sent")
	vsym.Assert(req.UID == nil, "the user is not taken from the client")
	wire := vsym.Bool("wire")
	if wire {
		var again api.JSON
		j := enc.JSON{}.Encode(c, req.Data)
		vsym.Assert(again.ReadFrom(c, &chunks{b: j}) == nil, "read")
		req = &again
	}
	op, err := ser.Recv(c, req)
	vsym.Assert(err == nil, "received")
	vsym.Assert(op.A == in.A && op.B == in.B && op.Both == in.Both, "inputs arrive")
	vsym.Assert((op.Ptr == nil) == (p == nil) && (p == nil || *op.Ptr == *p && op.Ptr != p), "pointers too")
	vsym.Assert(op.Out == 0 && op.UID == "" && op.Conf == "conf" && op.Dep == dep && op.priv == 7, "nothing else does")

	op.Out = int(vsym.Int64("Out", -9, 9))
	op.Both = int(vsym.Int64("Both out", -9, 9))
	op.A, op.B, op.Conf = 1000, "server", "server"
	if vsym.Bool("drop pointer") {
		op.Ptr = nil
	} else {
		y := 77
		op.Ptr = &y
	}
	res := &api.JSON{}
	if vsym.Bool("again") { // the last answer counts
		y := 66
		vsym.Assert(ser.Send(c, &Op{Out: 66, Both: 67, Ptr: &y}, res) == nil, "answered")
	}
	vsym.Assert(ser.Send(c, op, res) == nil, "answered")
	vsym.Assert(len(res.Data) == 3, "only outputs are answered")
	got := *in
	vsym.Assert(cli.Recv(c, res, &got) == nil, "received")
	vsym.Assert(got.Out == op.Out && got.Both == op.Both, "outputs arrive")
	vsym.Assert((got.Ptr == nil) == (op.Ptr == nil) && (got.Ptr == nil || *got.Ptr == 77), "pointers too")
	vsym.Assert(got.A == in.A && got.B == in.B && got.Conf == "client" && got.UID == "mallory", "nothing else does")
	vsym.Reach("end")
}

type chunks struct {
	b   []byte
	err error
}

func (r *chunks) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		if r.err != nil {
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := copy(p[:1], r.b)
	r.b = r.b[n:]
	return n, nil
}

var errRead = errors.New("read error")

// H_ReadFrom: nothing is an empty request; anything but an object is refused.
//
//vsym:quick time=60
func H_ReadFrom() {
	docs := []struct {
		text string
		ok   bool
		n    int
	}{
		{"", true, 0}, {"{}", true, 0}, {` {"a":1} `, true, 1}, {`{"a":1,"b":[2]}`, true, 2},
		{"null", false, 0}, {"[]", false, 0}, {"1", false, 0}, {`"a"`, false, 0}, {"{", false, 0}, {"{} x", false, 0}, {" ", false, 0}, {`{"a"}`, false, 0},
	}
	d := docs[vsym.Choice("doc", len(docs))]
	r := &chunks{b: []byte(d.text)}
	if vsym.Bool("broken") {
		r.err = errRead
	}
	var j api.JSON
	err := j.ReadFrom(c, r)
	if r.err != nil {
		vsym.Assert(errors.Is(err, errRead), "a broken body is an error")
	} else {
		vsym.Assert((err == nil) == d.ok, "exactly objects are accepted")
		vsym.Assert(err != nil || len(j.Data) == d.n, "all of it")
	}
	vsym.Reach("end")
}

type two struct {
	A UID `api:"auth"`
	B UID `api:"auth"`
}
type unknown struct {
	A int `api:"in,optional"`
}
type badURL struct {
	A api.Request `url:"http://[::1"`
}
type many struct {
	R api.Request `url:"/one"`
	S api.Request `url:"https://host/two?x=1"`
	A int         `api:"in, out"`
}
type urls struct {
	R api.Request `url:"/one"`
	S api.Request `url:"https://host/two?x=1"`
}
type plain struct{ X int }

// H_Register: what can't be an operation is refused when it is registered.
func H_Register() {
	refused := func(err error) { vsym.Assert(err != nil, "refused") }
	switch vsym.Choice("what", 10) {
	case 0:
		_, err := api.NewHandler(c, &two{})
		refused(err)
	case 1:
		_, err := api.NewHandler(c, &unknown{})
		refused(err)
	case 2:
		_, err := api.NewHandler(c, &badURL{})
		refused(err)
	case 3:
		_, err := api.NewHandler(c, &many{})
		refused(err)
	case 4:
		_, err := api.NewHandler(c, plain{})
		refused(err)
	case 5:
		x := 3
		_, err := api.NewHandler(c, &x)
		refused(err)
	case 6:
		_, err := api.NewHandler(c, 3)
		refused(err)
	case 7:
		h, err := api.NewHandler(c, &urls{})
		p := h.Paths()
		vsym.Assert(err == nil && len(p) == 2 && p[0] == "/one" && p[1] == "/two" && h.Path() == "/one", "paths")
		vsym.Assert(len(h.URLs()) == 2 && h.URL().Path == "/one" && h.URLs()[1].Host == "host", "urls")
	case 8:
		h, err := api.NewHandler(c, &plain{})
		p := h.Paths()
		vsym.Assert(err == nil && len(p) == 1 && p[0] == "plain" && h.Path() == "plain" && h.URL() == nil, "the name of the type")
	default:
		h, err := api.NewHandler(c, (*plain)(nil))
		vsym.Assert(err == nil && h.Path() == "plain", "a nil pointer stands for its type")
		op, err := h.Server().Recv(c, &api.JSON{})
		vsym.Assert(err == nil && op != nil && op.X == 0, "and gives empty operations")
	}
	vsym.Reach("end")
}

type Names struct {
	R api.Request `url:"/names"`
	A int         `api:"both"`
	B int         `api:"both" json:"bb"`
	C int         `api:"both" json:"cc,omitempty"`
	D int         `api:"both" json:",omitempty"`
	E int         `api:"both" enc:"ee"`
	F int         `api:"both" enc:"ff,string" json:"no"`
	G int         `api:"both" enc:",omitempty"`
	H int         `json:"hh" enc:"hhh" api:"both"`
	I int         `api:""`
	J int
}

// H_Names: the name of an input or output is what its enc tag says, or its
// json tag, or the one of its field.
func H_Names() {
	h, err := api.NewHandler(c, &Names{})
	vsym.Assert(err == nil, "registered")
	p := h.Paths()
	vsym.Assert(h.Path() == "/names" && len(p) == 1 && p[0] == "/names", "path")
	names := []string{"A", "bb", "cc", "D", "ee", "ff", "G", "hhh"}
	x := int(vsym.Int64("x", -9, 9))
	v := make([]int, len(names))
	for i := range v {
		v[i] = 10*x + i
	}
	in := &Names{A: v[0], B: v[1], C: v[2], D: v[3], E: v[4], F: v[5], G: v[6], H: v[7], I: 1, J: 2}
	check := func(d enc.Map) {
		vsym.Assert(len(d) == len(names), "every one, and nothing else")
		for i, n := range names {
			vsym.Assert(d[n] == enc.Integer(v[i]), "by its name")
		}
	}
	req := &api.JSON{}
	vsym.Assert(h.Client().Send(c, in, req) == nil, "sent")
	check(req.Data)
	op, err := h.Server().Recv(c, req)
	vsym.Assert(err == nil && op.A == v[0] && op.B == v[1] && op.C == v[2] && op.D == v[3] && op.E == v[4] && op.F == v[5] && op.G == v[6] && op.H == v[7] && op.I == 0 && op.J == 0, "received")
	res := &api.JSON{}
	vsym.Assert(h.Server().Send(c, in, res) == nil, "answered")
	check(res.Data)
	vsym.Reach("end")
}

type Odd struct {
	A   int `api:"in" json:"a"`
	Any any `api:"both" json:"any"`
	Out int `api:"out" json:"out"`
}

// H_BadValues: what can't be sent or received is an error on either side.
func H_BadValues() {
	h, err := api.NewHandler(c, &Odd{})
	vsym.Assert(err == nil, "registered")
	bad := []any{make(chan int), func() {}, map[bool]int{true: 1}, []any{make(chan int)}}[vsym.Choice("bad", 4)]
	switch vsym.Choice("what", 4) {
	case 0:
		vsym.Assert(h.Client().Send(c, &Odd{Any: bad}, &api.JSON{}) != nil, "a request that can't be told")
	case 1:
		vsym.Assert(h.Server().Send(c, &Odd{Any: bad}, &api.JSON{}) != nil, "an answer that can't be told")
	case 2:
		v := []enc.Node{enc.Bool(true), enc.List{}, enc.Map{}, enc.Digits("x")}[vsym.Choice("value", 4)]
		vsym.Assert(h.Client().Recv(c, &api.JSON{Data: enc.Map{"out": v}}, &Odd{}) != nil, "an answer of the wrong kind")
	default: // what is not answered stays
		op := &Odd{A: 1, Any: "x", Out: 2}
		d := &api.JSON{}
		if vsym.Bool("data") {
			d.Data = enc.Map{"a": enc.Integer(7), "Out": enc.Integer(8)}
		}
		vsym.Assert(h.Client().Recv(c, d, op) == nil && op.A == 1 && op.Any == "x" && op.Out == 2, "what is not answered stays")
	}
	vsym.Reach("end")
}

// H_Reread: reading a request forgets the one before.
func H_Reread() {
	j := &api.JSON{Data: enc.Map{"a": enc.Integer(1)}}
	text := []string{"", "{}", `{"b":2}`}[vsym.Choice("text", 3)]
	vsym.Assert(j.ReadFrom(c, &chunks{b: []byte(text)}) == nil, "read")
	_, a := j.Data["a"]
	vsym.Assert(j.Data != nil && !a && (len(j.Data) == 1) == (len(text) > 2), "only what it says")
	vsym.Reach("end")
}

// H_Concurrent: requests received at the same time do not mix.
//
//vsym:all race=1
//vsym:quick preempt=1 time=60
//vsym:thorough preempt=2 time=300
func H_Concurrent() {
	init, dep := initial()
	s, err := api.NewServer(c, init)
	vsym.Assert(err == nil, "registered")
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			b := []string{"one", "two"}[i]
			op, err := s.Recv(c, &api.JSON{Data: enc.Map{"b": enc.String(b), "a": enc.Integer(i)}})
			vsym.Assert(err == nil && op.B == b && op.A == i && op.Dep == dep, "each gets its own")
			op.Out = i
			res := &api.JSON{}
			vsym.Assert(s.Send(c, op, res) == nil && res.Data["o"] == enc.Integer(i), "and answers its own")
			done <- true
		}()
	}
	<-done
	<-done
	vsym.Reach("end")
}

type Held struct {
	P *int           `json:"p"`
	M map[string]int `json:"m"`
	L []int          `json:"l"`
}

type Holder struct {
	In  Held  `api:"in" json:"in"`
	Out Held  `api:"out" json:"out"`
	Ptr *Held `api:"both" json:"ptr"`
}

func (o *Holder) Do(ctx.C) error { return nil }

// H_Shared: an answer replaces what the operation of the client has and
// nothing else: what another operation holds stays as it is.
//
//vsym:quick time=60
func H_Shared() {
	h, err := api.NewClient(c, &Holder{})
	vsym.Assert(err == nil, "client")
	x := int(vsym.Int64("shared", -9, 9))
	y := int(vsym.Int64("answer", -9, 9))
	shared := x
	held := Held{P: &shared, L: []int{x, x}}
	a := &Holder{Out: held, Ptr: &Held{P: &shared}}
	b := &Holder{Out: held, Ptr: a.Ptr}
	d := enc.Map{}
	hasP, hasL, ptr := vsym.Bool("p"), vsym.Bool("l"), vsym.Choice("ptr", 3)
	out := enc.Map{}
	if hasP {
		out["p"] = enc.Integer(y)
	}
	if hasL {
		out["l"] = enc.List{enc.Integer(y)}
	}
	d["out"] = out
	switch ptr {
	case 1:
		d["ptr"] = enc.Nil{}
	case 2:
		d["ptr"] = enc.Map{"p": enc.Integer(y)}
	}
	vsym.Assert(h.Recv(c, &api.JSON{Data: d}, a) == nil, "received")
	if hasP {
		vsym.Assert(a.Out.P != nil && *a.Out.P == y, "the answer is there")
	}
	if hasL {
		vsym.Assert(len(a.Out.L) == 1 && a.Out.L[0] == y, "the answer is there")
	}
	switch ptr {
	case 1:
		vsym.Assert(a.Ptr == nil, "the answer is there")
	case 2:
		vsym.Assert(a.Ptr != nil && a.Ptr.P != nil && *a.Ptr.P == y, "the answer is there")
	}
	vsym.Assert(shared == x && *b.Out.P == x && b.Ptr != nil && *b.Ptr.P == x, "what others hold is not written to")
	vsym.Reach("end")
}

// Wide has many fields of every kind.
type Wide struct {
	F0  int `api:"in" json:"n0"`
	F1  int `api:"out" json:"n1"`
	F2  int `api:"in,out" json:"n2"`
	F3  int
	F4  int `api:"in,required" json:"n4"`
	F5  int `api:"in" json:"n5"`
	F6  int `api:"out" json:"n6"`
	F7  int `api:"in,out" json:"n7"`
	F8  int
	F9  int `api:"in,required" json:"n9"`
	F10 int `api:"in" json:"n10"`
	F11 int `api:"out" json:"n11"`
	F12 int `api:"in,out" json:"n12"`
	F13 int
	F14 int `api:"in,required" json:"n14"`
	F15 int `api:"in" json:"n15"`
	F16 int `api:"out" json:"n16"`
	F17 int `api:"in,out" json:"n17"`
	F18 int
	F19 int `api:"in,required" json:"n19"`
	F20 int `api:"in" json:"n20"`
	F21 int `api:"out" json:"n21"`
	F22 int `api:"in,out" json:"n22"`
	F23 int
	F24 int `api:"in,required" json:"n24"`
	F25 int `api:"in" json:"n25"`
	F26 int `api:"out" json:"n26"`
	F27 int `api:"in,out" json:"n27"`
	F28 int
	F29 int `api:"in,required" json:"n29"`
	F30 int `api:"in" json:"n30"`
	F31 int `api:"out" json:"n31"`
	F32 int `api:"in,out" json:"n32"`
	F33 int
	F34 int `api:"in,required" json:"n34"`
	F35 int `api:"in" json:"n35"`
	F36 int `api:"out" json:"n36"`
	F37 int `api:"in,out" json:"n37"`
	F38 int
	F39 int `api:"in,required" json:"n39"`
	F40 int `api:"in" json:"n40"`
	F41 int `api:"out" json:"n41"`
	F42 int `api:"in,out" json:"n42"`
	F43 int
	F44 int `api:"in,required" json:"n44"`
	F45 int `api:"in" json:"n45"`
	F46 int `api:"out" json:"n46"`
	F47 int `api:"in,out" json:"n47"`
	F48 int
	F49 int `api:"in,required" json:"n49"`
	F50 int `api:"in" json:"n50"`
	F51 int `api:"out" json:"n51"`
	F52 int `api:"in,out" json:"n52"`
	F53 int
	F54 int `api:"in,required" json:"n54"`
	F55 int `api:"in" json:"n55"`
	F56 int `api:"out" json:"n56"`
	F57 int `api:"in,out" json:"n57"`
	F58 int
	F59 int `api:"in,required" json:"n59"`
}

func (o *Wide) Do(ctx.C) error { return nil }

// H_Wide: the same for operations with many fields.
//
//vsym:all native=4 fuel=20000000
//vsym:quick time=60
func H_Wide() {
	const n = 60
	init := &Wide{}
	for i := 0; i < n; i++ {
		reflect.ValueOf(init).Elem().Field(i).SetInt(int64(1000 + i))
	}
	s, err := api.NewServer(c, init)
	vsym.Assert(err == nil, "registered")
	at := vsym.Choice("at", n)
	x := vsym.Int64("x", 1, 99)
	missing := vsym.Bool("missing")
	in := &api.JSON{Data: enc.Map{}}
	for i := 0; i < n+100; i++ {
		v := int64(i + 1)
		if i == at {
			if missing {
				continue
			}
			v = x
		}
		in.Data["n"+strconv.Itoa(i)] = enc.Integer(v)
	}
	op, err := s.Recv(c, in)
	if missing && at%5 == 4 {
		vsym.Assert(err != nil && op == nil, "what is required is required")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil, "accepted")
	v := reflect.ValueOf(op).Elem()
	for i := 0; i < n; i++ {
		want := int64(0)
		switch i % 5 {
		case 1: // starts empty
		case 3:
			want = int64(1000 + i)
		default:
			want = int64(i + 1)
			if i == at {
				want = x
				if missing {
					want = 0
				}
			}
		}
		vsym.Assert(v.Field(i).Int() == want, "inputs are what the request says, everything else is what was registered")
		v.Field(i).SetInt(int64(2000 + i))
	}
	out := &api.JSON{}
	vsym.Assert(s.Send(c, op, out) == nil, "sent")
	vsym.Assert(len(out.Data) == n*2/5, "outputs, and nothing else")
	for i := 0; i < n; i++ {
		if i%5 == 1 || i%5 == 2 {
			vsym.Assert(out.Data["n"+strconv.Itoa(i)] == enc.Node(enc.Integer(2000+i)), "outputs are what the operation says")
		}
	}
	vsym.Reach("end")
}
