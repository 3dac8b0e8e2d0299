// Package x02: wrapped errors.
//
//vsym:outside error chains longer than the stated bound; custom Is/As methods on the wrapped errors
package x02

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils"
)

type custom struct{ code int }

func (c *custom) Error() string { return fmt.Sprint("custom ", c.code) }

type wrapper struct{ err error }

func (w *wrapper) Error() string { return "wrapper" }
func (w *wrapper) Unwrap() error { return w.err }

var errA, errB = errors.New("a"), errors.New("b")

type key struct{}

// timeout is an error with methods of its own, like those of package net.
type timeout struct{}

func (timeout) Error() string   { return "timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

// others are errors which are found nowhere.
func others(err error) bool {
	for _, e := range []error{context.Canceled, context.DeadlineExceeded, io.EOF, os.ErrDeadlineExceeded, os.ErrNotExist, timeout{}, &timeout{}, &custom{-1}, &wrapper{errA}, errors.ErrUnsupported, net.ErrClosed} {
		if errors.Is(err, e) {
			return true
		}
	}
	var t interface{ Timeout() bool }
	var w *wrapper
	return errors.As(err, &t) || errors.As(err, &w)
}

// H_Wrap: through any chain of wrapping, the original error can be found, the
// text is preserved, the first stack and context are kept and there is only
// one of them.
//
//vsym:quick time=60
//vsym:thorough time=300
func H_Wrap() {
	cu := &custom{vsym.Int("code", 0, 9)}
	var root error
	isCustom := vsym.Bool("custom")
	if isCustom {
		root = cu
	} else {
		root = errA
	}
	text := root.Error()
	err := root
	n := vsym.Choice("steps", vsym.Bound("steps", 3, 5)+1)
	first := -1
	stack := ""
	for i := 0; i < n; i++ {
		c := ctx.WithValue(context.Background(), key{}, i)
		op := vsym.Choice("op", 4)
		switch op {
		case 0:
			prev := err
			err = ctx.WrapError(c, err)
			if first >= 0 {
				vsym.Assert(err.Error() == prev.Error(), "wrapping twice changes nothing")
			}
		case 1:
			err = ctx.NewErrorf(c, "f%d: %w", i, err)
			text = fmt.Sprintf("f%d: %s", i, text)
		case 2:
			err = fmt.Errorf("plain: %w", err)
			text = "plain: " + text
		default:
			err = ctx.NewErrorf(c, "both %w and %w", errB, err)
			text = "both b and " + text
		}
		if op != 2 && first < 0 {
			first = i
			var ce ctx.Error
			vsym.Assert(errors.As(err, &ce), "the error carries its origin")
			vsym.Assert(len(ce.Stack) > 0, "it has a stack")
			stack = ce.Stack[0]
		}
		vsym.Assert(err.Error() == text, "the text is that of the wrapped error")
		vsym.Assert(errors.Is(err, root), "the original error is found")
		vsym.Assert(!errors.Is(err, errA) || !isCustom, "no other error is")
	}
	vsym.Assert(!others(err), "nothing else is found")
	var as *custom
	vsym.Assert(errors.As(err, &as) == isCustom, "the original error is found by type")
	vsym.Assert(!isCustom || as == cu, "and is the very same")
	if first >= 0 {
		var ce ctx.Error
		vsym.Assert(errors.As(err, &ce), "the origin is found")
		vsym.Assert(ce.Stack[0] == stack, "the stack is where it was first wrapped")
		vsym.Assert(ce.C.Value(key{}) == first, "the context is that of the first wrapping")
		again := ce.Unwrap()
		var ce2 ctx.Error
		vsym.Assert(!errors.As(again, &ce2), "there is only one")
		vsym.Assert(errors.Is(err, ctx.Error{}), "it is recognised as such")
		vsym.Assert(errors.Is(err, &ctx.Error{}), "also by pointer")
	} else {
		vsym.Assert(!errors.Is(err, ctx.Error{}), "a plain error is not taken for a wrapped one")
	}
	vsym.Reach("end")
}

// H_Nil: wrapping nothing gives nothing.
func H_Nil() {
	c := context.Background()
	vsym.Assert(ctx.WrapError(c, nil) == nil, "no error stays no error")
	vsym.Assert(ctx.WrapError(nil, nil) == nil, "also without context")
	err := ctx.WrapError(nil, errA)
	vsym.Assert(errors.Is(err, errA), "a context is not required")
	e := ctx.NewErrorf(c, "no args")
	vsym.Assert(e != nil && e.Error() == "no args", "an error needs no cause")
	p := &ctx.Error{Err: errA}
	vsym.Assert(ctx.WrapError(c, p) == error(p), "a pointer is recognised as already wrapped")
	vsym.Reach("end")
}

func where(c ctx.C) error { return ctx.NewErrorf(c, "x") }

func where2(c ctx.C, e error) error { return ctx.WrapError(c, e) }

// H_Where: the stack starts where the error was created or first wrapped.
//
//vsym:all native=0
func H_Where() {
	c := context.Background()
	var err error
	if vsym.Choice("how", 2) == 0 {
		err = where(c)
	} else {
		err = where2(c, errA)
	}
	var ce ctx.Error
	vsym.Assert(errors.As(err, &ce), "the error carries its origin")
	vsym.Assert(len(ce.Stack) >= 2, "and the callers")
	for i := 0; i < 2; i++ {
		vsym.Assert(strings.Contains(ce.Stack[i], "x02.go:"), "the stack names the code that failed, not the library")
	}
	vsym.Reach("end")
}

// H_Gate: an error handed back by the callback is swallowed, however it is
// wrapped; everything else is reported unchanged.
//
//vsym:quick time=60
func H_Gate() {
	how := vsym.Choice("how", 8)
	levels := 0
	if how == 1 {
		levels = vsym.Choice("levels", vsym.Bound("levels", 3, 4)+1)
	}
	n := 0
	var out error
	err := utils.ErrorGate(func(g error) error {
		n++
		vsym.Assert(g != nil, "the gate error is an error")
		switch how {
		case 0:
			out = nil
		case 1:
			out = g
			for ; levels > 0; levels-- {
				switch vsym.Choice("wrap", 6) {
				case 0:
					out = fmt.Errorf("w: %w", out)
				case 1:
					out = ctx.WrapError(context.Background(), out)
				case 2:
					out = ctx.NewErrorf(nil, "n: %w", out)
				case 3:
					out = errors.Join(errA, out)
				case 4:
					out = fmt.Errorf("%w and %w", out, errB)
				default:
					out = &wrapper{out}
				}
			}
		case 2:
			out = errA
		case 3:
			out = utils.EOD{} // means something to others
		case 4:
			out = fmt.Errorf("w: %w", utils.EOD{})
		case 5:
			out = io.EOF
		case 6:
			out = errors.Join(errA, errB)
		default:
			out = fmt.Errorf("text only: %v", g)
		}
		return out
	})
	vsym.Assert(n == 1, "called once")
	switch how {
	case 0, 1:
		vsym.Assert(err == nil, "the gate error is swallowed, wrapped or not")
	default:
		vsym.Assert(err == out, "any other error is returned as it is")
	}
	vsym.Reach("end")
}

func deep(c ctx.C, n int, err error) error {
	if n > 0 {
		return deep(c, n-1, err)
	}
	if err != nil {
		return ctx.WrapError(c, err)
	}
	return ctx.NewErrorf(c, "deep")
}

// H_Deep: also where there are very many callers, or very many wrappers.
//
//vsym:all native=4
func H_Deep() {
	n := []int{0, 19, 98, 101, 250}[vsym.Choice("depth", 5)]
	var root error
	if vsym.Bool("wrap") {
		root = &custom{vsym.Int("code", 0, 9)}
	}
	c := ctx.WithValue(context.Background(), key{}, "first")
	err := deep(c, n, root)
	var ce ctx.Error
	vsym.Assert(errors.As(err, &ce), "the error carries its origin")
	vsym.Assert(len(ce.Stack) > n || n > 90 && len(ce.Stack) > 90, "and the callers")
	for i := 0; i <= n && i < 90; i++ {
		vsym.Assert(strings.Contains(ce.Stack[i], "x02.go:"), "the stack names the code that failed")
	}
	first := ce.Stack[0]
	text := err.Error()
	for i := 0; i < n; i++ {
		switch i % 4 {
		case 0:
			err = fmt.Errorf("p: %w", err)
			text = "p: " + text
		case 1:
			err = ctx.NewErrorf(context.Background(), "n: %w", err)
			text = "n: " + text
		case 2:
			err = ctx.WrapError(context.Background(), err)
		default:
			err = errors.Join(err, errB)
			text += "\nb"
		}
	}
	vsym.Assert(err.Error() == text, "the text is that of the wrapped error")
	vsym.Assert(errors.As(err, &ce) && ce.Stack[0] == first && ce.C.Value(key{}) == "first", "the origin is the first")
	vsym.Assert(root == nil || errors.Is(err, root), "the original error is found")
	vsym.Assert(!errors.Is(err, errA) && errors.Is(err, errB) == (n > 3), "no other error is")
	vsym.Assert(!errors.As(ce.Unwrap(), new(ctx.Error)), "there is only one")
	vsym.Reach("end")
}

// H_Format: the message is what fmt makes of the format and the arguments, with
// and without any, and whatever is wrapped is found.
func H_Format() {
	c := ctx.C(context.Background())
	n := vsym.Int("n", -9, 99)
	str := vsym.String("s", 0, 2)
	type call struct {
		f    string
		args []any
	}
	calls := []call{
		{"", nil},
		{"plain", nil},
		{"50%% done", nil},
		{"half: %", nil},
		{"%d missing", nil},
		{"%s", []any{str}},
		{"%q|%s", []any{str, str}},
		{"%d%%", []any{n}},
		{"%5d|%-5d|%x", []any{n, n, n}},
		{"%v", []any{nil}},
		{"%[2]v %[1]v", []any{n, str}},
		{"extra", []any{n}},
		{"%v", []any{errA}},
		{"%w", []any{errA}},
		{"%w: %s", []any{errA, str}},
		{"%d %w %w", []any{n, errA, errB}},
		{"%w", []any{nil}},
		{"%w", []any{str}},
		{"%s", []any{[]byte(str)}},
		{"%+v", []any{struct{ A int }{n}}},
	}
	x := calls[vsym.Choice("call", len(calls))]
	args := append([]any{}, x.args...)
	e := ctx.NewErrorf(c, x.f, args...)
	ref := fmt.Errorf(x.f, x.args...)
	vsym.Assert(e != nil && e.Error() == ref.Error(), "the message is what fmt makes of it")
	vsym.Assert(errors.Is(e, errA) == errors.Is(ref, errA) && errors.Is(e, errB) == errors.Is(ref, errB), "what is wrapped is found, and nothing else")
	var ce ctx.Error
	vsym.Assert(errors.As(e, &ce) && len(ce.Stack) > 0, "and it has a stack")
	vsym.Reach("end")
}
