// Package e07: the in-memory pipe of nodes.
//
//vsym:outside more than 3 messages in each direction, other than one after the other; buffers larger than 2
package e07

import (
	"context"
	"errors"
	"io"
	"time"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

// H_Order: everything written by one side is read by the other, in order, and
// then the end; both directions are independent.
//
//vsym:quick time=60 preempt=2
//vsym:thorough time=400 preempt=4
func H_Order() {
	c := context.Background()
	a, b := enc.NewPipe(vsym.Choice("buffer", 3))
	n := 1 + vsym.Choice("messages", vsym.Bound("messages", 2, 3))
	back := vsym.Choice("back", 2)
	first := vsym.Int64("first", -100, 100)
	missing := vsym.Choice("missing", n+1) - 1 // a node that is nil is a message as well
	msg := func(i int) enc.Node {
		if i == missing {
			return nil
		}
		return enc.Integer(first + int64(i))
	}
	done := make(chan bool, 2)
	go func() {
		for i := 0; i < n; i++ {
			vsym.Assert(a.Write(c, msg(i)) == nil, "writes succeed")
		}
		vsym.Assert(a.Close(c) == nil, "closed")
		vsym.Assert(a.Close(c) == nil, "closing twice does nothing")
		vsym.Assert(errors.Is(a.Write(c, enc.Nil{}), io.ErrClosedPipe), "no writes after the end")
		for i := 0; i < back; i++ {
			x, err := a.Read(c)
			vsym.Assert(err == nil && x == enc.Bool(true), "the other direction is still open")
		}
		_, err := a.Read(c)
		vsym.Assert(err == io.EOF, "until it ends")
		done <- true
	}()
	for i := 0; i < n; i++ {
		x, err := b.Read(c)
		vsym.Assert(err == nil && x == msg(i), "everything is read, in order")
	}
	_, err := b.Read(c)
	vsym.Assert(err == io.EOF, "and then the end")
	_, err = b.Read(c)
	vsym.Assert(err == io.EOF, "which stays")
	for i := 0; i < back; i++ {
		vsym.Assert(b.Write(c, enc.Bool(true)) == nil, "the other direction is still open")
	}
	b.Close(c)
	<-done
	vsym.Reach("end")
}

// H_Cancel: a cancelled context releases whoever waits, and nothing is lost
// or doubled by it.
//
//vsym:quick time=60 preempt=2
//vsym:thorough time=400 preempt=4
func H_Cancel() {
	root := context.Background()
	c, cancel := ctx.WithCancel(root)
	a, b := enc.NewPipe(vsym.Choice("buffer", 2))
	sent := make(chan int, 1)
	go func() {
		ok := 0
		for i := 0; i < 3; i++ {
			err := a.Write(c, enc.Integer(i))
			if err != nil {
				vsym.Assert(errors.Is(err, context.Canceled), "the error says so")
				break
			}
			ok++
		}
		a.Close(root)
		sent <- ok
	}()
	go cancel(nil)
	got := 0
	for {
		x, err := b.Read(root)
		if err != nil {
			vsym.Assert(err == io.EOF, "the reader is not affected")
			break
		}
		vsym.Assert(x == enc.Integer(got), "in order")
		got++
	}
	vsym.Assert(<-sent == got, "what was written is read, what was refused is not")
	vsym.Reach("end")
}

// H_ReadCancel: a reader with nothing to read is released by its context, no
// earlier than that.
//
//vsym:quick time=60 preempt=2
func H_ReadCancel() {
	a, b := enc.NewPipe(vsym.Choice("buffer", 2))
	d := vsym.Int64("timeout", 1, 1000)
	t := vsym.ClockNow()
	c, cf := ctx.WithTimeout(context.Background(), time.Duration(d))
	defer cf()
	_, err := b.Read(c)
	vsym.Assert(errors.Is(err, context.DeadlineExceeded), "the error says so")
	vsym.Assert(int64(vsym.ClockNow()-t) >= d, "not before")
	// and the pipe still works
	go a.Write(context.Background(), enc.Bool(true))
	x, err := b.Read(context.Background())
	vsym.Assert(err == nil && x == enc.Bool(true), "the pipe still works")
	vsym.Reach("end")
}

// H_Release: closing releases a reader that waits.
//
//vsym:quick time=60 preempt=3
func H_Release() {
	c := context.Background()
	a, b := enc.NewPipe(vsym.Choice("buffer", 2))
	go a.Close(c)
	_, err := b.Read(c)
	vsym.Assert(err == io.EOF, "the end is seen")
	vsym.Reach("end")
}

// H_CloseTogether: whoever closes, how often and whoever else does it at the
// same time, all of them succeed and the other end sees the end once.
//
//vsym:quick time=60 preempt=2
//vsym:thorough time=400 preempt=4
func H_CloseTogether() {
	c := context.Background()
	a, b := enc.NewPipe(vsym.Choice("buffer", 3))
	n := vsym.Bound("closers", 2, 3)
	sent := vsym.Choice("message", 2)
	done := make(chan bool, n)
	go func() {
		if sent == 1 {
			vsym.Assert(a.Write(c, enc.Bool(true)) == nil, "written")
		}
		for i := 0; i < n; i++ {
			go func() {
				vsym.Assert(a.Close(c) == nil, "closing succeeds")
				done <- true
			}()
		}
	}()
	for i := 0; i < sent; i++ {
		x, err := b.Read(c)
		vsym.Assert(err == nil && x == enc.Bool(true), "what was written is read")
	}
	_, err := b.Read(c)
	vsym.Assert(err == io.EOF, "and then the end")
	for i := 0; i < n; i++ {
		<-done
	}
	vsym.Reach("end")
}

// H_CloseWhileWriting: a write that meets the end is refused or is read.
//
//vsym:quick time=60 preempt=2
//vsym:thorough time=400 preempt=4
func H_CloseWhileWriting() {
	c := context.Background()
	a, b := enc.NewPipe(vsym.Choice("buffer", 3))
	n := vsym.Bound("messages", 2, 3)
	wrote := make(chan int, 1)
	go func() {
		k := 0
		for i := 0; i < n; i++ {
			err := a.Write(c, enc.Integer(i))
			if err != nil {
				vsym.Assert(errors.Is(err, io.ErrClosedPipe), "the error says so")
				break
			}
			k++
		}
		wrote <- k
	}()
	go a.Close(c)
	got := 0
	for {
		x, err := b.Read(c)
		if err != nil {
			vsym.Assert(err == io.EOF, "the end")
			break
		}
		vsym.Assert(x == enc.Integer(got), "in order")
		got++
	}
	vsym.Assert(<-wrote == got, "what was written is read, what was refused is not")
	vsym.Reach("end")
}

// H_Long: also for many messages, and with a large buffer.
//
//vsym:all preempt=0 delay=1 timers=0 native=4
//vsym:quick time=60
func H_Long() {
	c := context.Background()
	buf := []int{0, 1, 7, 64}[vsym.Choice("buffer", 4)]
	n := []int{7, 40, 140}[vsym.Choice("messages", 3)]
	x := vsym.Int64("x", -100, 100)
	a, b := enc.NewPipe(buf)
	done := make(chan bool)
	go func() {
		for i := 0; i < n; i++ {
			vsym.Assert(a.Write(c, enc.Integer(x+int64(i))) == nil, "writes succeed")
		}
		vsym.Assert(a.Close(c) == nil, "closed")
		for i := 0; i < n; i++ {
			m, err := a.Read(c)
			vsym.Assert(err == nil && m == enc.Node(enc.Integer(i)), "everything is read, in order")
		}
		_, err := a.Read(c)
		vsym.Assert(err == io.EOF, "and then the end")
		close(done)
	}()
	for i := 0; i < n; i++ {
		m, err := b.Read(c)
		vsym.Assert(err == nil && m == enc.Node(enc.Integer(x+int64(i))), "everything is read, in order")
	}
	_, err := b.Read(c)
	vsym.Assert(err == io.EOF, "and then the end")
	for i := 0; i < n; i++ {
		vsym.Assert(b.Write(c, enc.Integer(i)) == nil, "writes succeed")
	}
	b.Close(c)
	<-done
	vsym.Reach("end")
}
