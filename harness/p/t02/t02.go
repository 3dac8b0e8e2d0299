// Package t02: the helpers for testing operations and websockets.
//
//vsym:assume the test client is used by one goroutine
//vsym:outside more calls and channels than stated; what comes after a call which was given up
package t02

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	"verif/harness/vsym"
	"verif/harness/vtest"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/http/ws"
)

type Op struct {
	R    api.Request `url:"/op"`
	A    int         `api:"in" json:"a"`
	S    string      `api:"in,required" json:"s"`
	Both int         `api:"both" json:"both"`
	Out  string      `api:"out" json:"out"`
	N    *int        `api:"out" json:"n"`
	UID  string      `api:"auth" json:"uid"`
	Dep  *[]string
	priv int
}

var errDo = errors.New("can't do")

func (this *Op) Do(c ctx.C) error {
	*this.Dep = append(*this.Dep, fmt.Sprintf("%d %s %d %q %v %s", this.A, this.S, this.Both, this.Out, this.N, this.UID))
	if this.A == 3 {
		this.Out = "half done"
		return errDo
	}
	n := this.A * 10
	this.Both++
	this.Out = this.S + "!"
	this.N = &n
	this.A, this.S = 99, "changed"
	return nil
}

// H_Operation: testing an operation is running it once with its inputs, and
// what it answers is in its outputs.
//
//vsym:all preempt=0
func H_Operation() {
	a, both := vsym.Choice("a", 5), vsym.Choice("both", 2)
	s := vsym.StringIn("s", 0, 1, "xy")
	uid := ""
	var did []string
	before := Op{A: a, S: s, Both: both, Out: []string{"", "old"}[vsym.Choice("old", 2)], Dep: &did, priv: 5}
	op := before
	ok := s != "" && a != 3
	failed, panicked := false, false
	which := vsym.Choice("helper", 3)
	switch which {
	case 0:
		ended := false
		failed = vtest.Run(func(t *testing.T) {
			_, panicked = vsym.Panics(func() {
				got := api.Test(t, &op)
				vsym.Assert(got == &op, "the operation itself is returned")
				ended = true
			})
		})
		vsym.Assert(ended == ok, "the test ends there")
	case 1:
		uid = []string{"", "bob"}[vsym.Choice("uid", 2)]
		_, panicked = vsym.Panics(func() {
			err := http.TestAPI(context.Background(), uid, &op)
			failed = err != nil
			if s != "" {
				vsym.Assert(errors.Is(err, errDo) == (a == 3), "the error is the one of the operation")
			}
		})
	case 2: // who can't be told
		_, panicked = vsym.Panics(func() {
			failed = http.TestAPI(context.Background(), make(chan int), &op) != nil
		})
		vsym.Assert(failed && !panicked && len(did) == 0, "who can't be told is an error")
		vsym.Reach("nobody")
		return
	}
	vsym.Assert(!panicked, "no panic")
	vsym.Assert(failed == !ok, "it fails exactly if the operation does")
	if s == "" {
		vsym.Assert(len(did) == 0, "what is required is required")
	} else {
		vsym.Assert(len(did) == 1 && did[0] == fmt.Sprintf(`%d %s %d "" <nil> %s`, a, s, both, uid), "done once, with the inputs and nothing else")
	}
	if ok {
		vsym.Assert(op.A == a && op.S == s && op.Both == both+1 && op.Out == s+"!" && op.N != nil && *op.N == 10*a, "the outputs are what it answered, the inputs what was asked")
	} else {
		vsym.Assert(op.A == a && op.S == s && op.Both == both && op.Out == before.Out && op.N == nil, "an operation that failed answers nothing")
	}
	vsym.Assert(op.UID == "" && op.Dep == &did && op.priv == 5, "the rest stays")
	vsym.Reach("end")
}

type Worker struct {
	Min int
	n   int
}

func (this *Worker) Init(c ws.C, n int) error {
	if n > 5 {
		return errors.New("too many")
	}
	this.n = n
	return nil
}

func (this *Worker) Add(c ws.C, n int) error {
	if n < this.Min {
		return fmt.Errorf("%d is too few", n)
	}
	this.n += n
	return nil
}

func (this *Worker) Tell(c ws.C, times int) error {
	for i := 0; i < times; i++ {
		if err := c.Reply("n", this.n); err != nil {
			return err
		}
	}
	return nil
}

var errData = errors.New("don't like it")

// client opens a channel with 5 in it, whose frames are logged.
func client(c ctx.C) (cli *ws.TestClient, call func(ctx.C, string, any) error, frames *[]string, reject *bool) {
	h := ws.RpcHandler{}
	h.MustRegister(c, &Worker{Min: 1})
	cli = h.NewTest(c)
	frames, reject = &[]string{}, new(bool)
	call, err := cli.Open(c, "worker", 5, func(_ ctx.C, f ws.Frame) error {
		s := f.Type + " " + f.Path
		if f.Path == "n" {
			s += fmt.Sprint(" ", f.Data)
		}
		*frames = append(*frames, s)
		if *reject && f.Path == "n" {
			return errData
		}
		return nil
	})
	vsym.Assert(err == nil, "opened")
	return
}

// H_Calls: every call of the test client returns what that very call gave,
// and every frame is handed over, in order.
//
//vsym:quick time=60 preempt=0 delay=2
//vsym:thorough time=400 preempt=1 delay=3
func H_Calls() {
	c, cancel := ctx.WithCancel(context.Background())
	cli, call, frames, reject := client(c)
	n := 5
	var want []string
	calls := vsym.Choice("calls", vsym.Bound("calls", 3, 4))
	for i := 0; i < calls; i++ {
		if vsym.Choice("call", 2) == 0 {
			n++
			vsym.Assert(call(c, "add", 1) == nil, "a call that succeeds returns nothing")
			want = append(want, "return add")
		} else {
			vsym.Assert(call(c, "tell", 2) == nil, "a call that succeeds returns nothing")
			want = append(want, fmt.Sprint(" n ", n), fmt.Sprint(" n ", n), "return tell")
		}
	}
	// another channel knows nothing of it
	got := ""
	call2, err := cli.Open(c, "worker", 1, func(_ ctx.C, f ws.Frame) error {
		if f.Path == "n" {
			got = fmt.Sprint(f.Data)
		}
		return nil
	})
	vsym.Assert(err == nil && call2(c, "add", 2) == nil && call2(c, "tell", 1) == nil && got == "3", "another channel has its own")
	switch vsym.Choice("last", 4) {
	case 0:
		err := call(c, "add", 0)
		vsym.Assert(err != nil && strings.Contains(err.Error(), "too few"), "a call that fails returns its error")
		want = append(want, "return add", "error ")
	case 1:
		*reject = true
		vsym.Assert(errors.Is(call(c, "tell", 1), errData), "the error of the callback is returned")
		want = append(want, fmt.Sprint(" n ", n), "return tell")
	case 2:
		vsym.Assert(call(c, "add", "text") != nil, "a call that fails returns its error")
		want = append(want, "return add", "error ")
	}
	vsym.Quiesce()
	vsym.Assert(len(*frames) == len(want), "every frame is handed over")
	for i := range want {
		vsym.Assert((*frames)[i] == want[i], "in order")
	}
	cancel(nil)
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running")
	vsym.Reach("end")
	vsym.Done()
}

// H_AfterFailure: a call returns what it gave, and not what the one before did.
//
//vsym:all preempt=0 delay=1 native=0
func H_AfterFailure() {
	c, cancel := ctx.WithCancel(context.Background())
	_, call, _, reject := client(c)
	switch vsym.Choice("first", 2) {
	case 0:
		vsym.Assert(call(c, "add", 0) != nil, "a call that fails returns its error")
	case 1:
		*reject = true
		vsym.Assert(call(c, "tell", 1) != nil, "the error of the callback is returned")
		*reject = false
	}
	vsym.Quiesce()
	if vsym.Choice("second", 2) == 0 {
		vsym.Assert(call(c, "add", 1) == nil, "a call after one that failed returns its own result")
	} else {
		vsym.Assert(call(c, "add", 0) != nil, "a call after one that failed returns its own result")
	}
	cancel(nil)
	vsym.Reach("end")
	vsym.Done()
}

// H_Open: opening what can't be opened is an error of the first call, and a
// call given up is one.
//
//vsym:quick time=60 preempt=1 delay=2
func H_Open() {
	c, cancel := ctx.WithCancel(context.Background())
	h := ws.RpcHandler{}
	h.MustRegister(c, &Worker{})
	cli := h.NewTest(c)
	switch vsym.Choice("what", 3) {
	case 0:
		told := 0
		call, err := cli.Open(c, "worker", 6, func(_ ctx.C, f ws.Frame) error {
			if f.Type == "error" {
				told++
				vsym.Assert(f.Data == enc.String("too many"), "by its error")
			}
			return nil
		})
		if err == nil {
			err = call(c, "add", 1)
		}
		vsym.Assert(err != nil && strings.Contains(err.Error(), "too many") && told == 1, "what can't be opened is an error")
	case 1: // nobody there: the caller gives up
		call, err := cli.Open(c, "nobody", nil, func(ctx.C, ws.Frame) error { return nil })
		vsym.Assert(err == nil, "asked for")
		go cancel(nil)
		vsym.Assert(call(c, "add", 1) != nil, "giving up is an error")
	case 2:
		call, err := cli.Open(c, "worker", 0, func(ctx.C, ws.Frame) error { return nil })
		vsym.Assert(err == nil && call(c, "add", 1) == nil, "opened")
		vsym.Assert(cli.Close(c) == nil, "closed")
	}
	cancel(nil)
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running")
	vsym.Reach("end")
	vsym.Done()
}

// H_Context: what is sent with the context of a test arrives in its inbox.
//
//vsym:all preempt=0
func H_Context() {
	c, cancel := ctx.WithCancel(context.Background())
	h := ws.RpcHandler{}
	n := 1 + vsym.Choice("replies", 3)
	cli := h.NewTest(c)
	x, inbox := cli.NewContext(c, n)
	other, _ := h.NewTest(c).NewContext(c, n)
	w := &Worker{n: int(vsym.Int64("n", -9, 9))}
	vsym.Assert(w.Tell(x, n) == nil, "replies")
	vsym.Assert((&Worker{n: 100}).Tell(other, n) == nil, "another one")
	for i := 0; i < n; i++ {
		f := <-inbox
		var got int
		vsym.Assert(f.Path == "n" && enc.Unmarshal(c, f.Data, &got) == nil && got == w.n, "each reply arrives")
	}
	select {
	case <-inbox:
		vsym.Assert(false, "nothing else arrives")
	default:
	}
	vsym.Assert(cli.Close(c) == nil, "closed")
	vsym.Assert(w.Tell(x, 1) != nil, "nothing can be sent after it")
	select {
	case <-inbox:
		vsym.Assert(false, "and nothing arrives")
	default:
	}
	cancel(nil)
	vsym.Reach("end")
	vsym.Done()
}
