// Package r01: reading a stream to the end under a cancellable context.
//
//vsym:outside streams of more than the stated chunks; readers that return negative counts
package r01

import (
	"errors"
	"fmt"
	"io"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils"
)

var errRead = errors.New("read")

// script is a reader returning a fixed sequence of (data, error) results.
type script struct {
	chunks [][]byte
	err    error
	joined bool // the error comes together with the last chunk
	i      int
	gate   chan bool
}

func (s *script) Read(p []byte) (int, error) {
	if s.gate != nil {
		<-s.gate
	}
	if s.i >= len(s.chunks) {
		return 0, s.err
	}
	n := copy(p, s.chunks[s.i])
	s.i++
	if s.joined && s.i == len(s.chunks) {
		return n, s.err
	}
	return n, nil
}

// H_All: every byte delivered before the end, also those that come together
// with the error, is returned, in order; the reader's error is reported.
//
//vsym:all race=1 time=60
func H_All() {
	c := ctx.TODO()
	n := vsym.Choice("chunks", vsym.Bound("chunks", 3, 4)+1)
	s := &script{err: io.EOF, joined: vsym.Choice("joined", 2) == 1}
	fail := vsym.Choice("fail", 4)
	switch fail {
	case 1:
		s.err = errRead
	case 2:
		s.err = fmt.Errorf("cut: %w", io.EOF)
	case 3:
		s.err = io.ErrUnexpectedEOF
	}
	var want []byte
	for i := 0; i < n; i++ {
		b := vsym.Bytes("data", 0, 2)
		s.chunks = append(s.chunks, b)
		want = append(want, b...)
	}
	closed := 0
	out, err := utils.ReadAll(c, s, func() error { closed++; return nil })
	vsym.Assert(string(out) == string(want), "every byte the reader delivered is returned, in order")
	if fail > 0 {
		vsym.Assert(errors.Is(err, s.err), "the error of the reader is reported")
	} else {
		vsym.Assert(err == nil, "the end of the stream is not an error")
	}
	vsym.Assert(closed == 1, "the stream is closed once")
	vsym.Reach("end")
}

// H_Long: chunks as large as the internal buffer.
//
//vsym:all native=1 time=60
func H_Long() {
	c := ctx.TODO()
	n := 8190 + vsym.Choice("n", 5)
	want := make([]byte, n)
	for i := range want {
		want[i] = byte(i % 251)
	}
	at := vsym.Choice("at", 3) * 4096
	if at < n {
		want[at] = vsym.Byte("b", 0, 255)
	}
	r := &whole{data: want}
	out, err := utils.ReadAll(c, r, nil)
	vsym.Assert(err == nil && len(out) == n, "long streams are read whole")
	for i := range out {
		if out[i] != want[i] {
			vsym.Fail("long streams are read unchanged")
		}
	}
	vsym.Reach("end")
}

type whole struct{ data []byte }

func (w *whole) Read(p []byte) (int, error) {
	if len(w.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p, w.data)
	w.data = w.data[n:]
	return n, nil
}

// H_Cancel: when the context is cancelled ReadAll returns without waiting for
// the reader, with an error and an intact prefix of the data.
//
//vsym:all race=1
//vsym:quick time=60
//vsym:thorough time=200
func H_Cancel() {
	c, cancel := ctx.WithCancel(ctx.TODO())
	stuck := vsym.Choice("stuck", 2) == 1
	s := &script{err: io.EOF, chunks: [][]byte{[]byte("ab"), []byte("cd")}}
	if stuck {
		s.gate = make(chan bool, 2)
		for i := vsym.Choice("delivered", 3); i > 0; i-- {
			s.gate <- true
		}
	}
	go cancel(errors.New("stop"))
	closed := 0
	out, err := utils.ReadAll(c, s, func() error { closed++; return nil })
	vsym.Assert(len(out) <= 4 && string(out) == "abcd"[:len(out)], "a prefix of the data is returned")
	if err == nil {
		vsym.Assert(!stuck && string(out) == "abcd", "success means that everything was read")
		vsym.Reach("all")
	} else {
		vsym.Assert(errors.Is(err, c.Err()) && c.Err() != nil, "the cancellation is reported")
		vsym.Reach("cancelled")
	}
	vsym.Assert(closed == 1, "the stream is closed once")
	if stuck {
		close(s.gate) // what Read of a closed stream does
	}
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running once the reader returns")
}

type hanging struct {
	script
	cancel func(error)
	closed chan bool
}

func (s *hanging) Read(p []byte) (int, error) {
	if s.i >= len(s.chunks) {
		s.cancel(errors.New("enough"))
		<-s.closed
		return 0, io.ErrClosedPipe
	}
	return s.script.Read(p)
}

// H_Partial: what was read before the context was cancelled is not lost.
//
//vsym:all race=1 time=60
func H_Partial() {
	c, cancel := ctx.WithCancel(ctx.TODO())
	r := &hanging{cancel: cancel, closed: make(chan bool)}
	var want []byte
	for i := vsym.Choice("chunks", vsym.Bound("chunks", 3, 4)); i > 0; i-- {
		b := vsym.Bytes("data", 1, 2)
		r.chunks = append(r.chunks, b)
		want = append(want, b...)
	}
	out, err := utils.ReadAll(c, r, func() error { close(r.closed); return nil })
	vsym.Assert(err != nil && errors.Is(err, c.Err()), "the cancellation is reported")
	vsym.Assert(string(out) == string(want), "with every byte read before it")
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running once the reader returns")
	vsym.Reach("end")
}

// H_Many: many chunks, some of them empty.
//
//vsym:all native=2 preempt=0 timers=0
//vsym:quick time=60
func H_Many() {
	c := ctx.TODO()
	n := []int{30, 120}[vsym.Choice("chunks", 2)]
	max := []int{3, 700}[vsym.Choice("size", 2)]
	s := &script{err: io.EOF, joined: vsym.Bool("joined")}
	fail := vsym.Bool("fail")
	if fail {
		s.err = errRead
	}
	var want []byte
	for i := 0; i < n; i++ {
		b := make([]byte, i*i%max)
		for j := range b {
			b[j] = byte(i + j)
		}
		if len(b) > 0 && i%16 == 2 {
			b[len(b)-1] = vsym.Byte("b", 0, 255)
		}
		s.chunks = append(s.chunks, b)
		want = append(want, b...)
	}
	out, err := utils.ReadAll(c, s, nil)
	vsym.Assert(len(out) == len(want), "every byte is returned")
	for i := range out {
		if out[i] != want[i] {
			vsym.Fail("unchanged and in order")
		}
	}
	vsym.Assert(!fail && err == nil || fail && errors.Is(err, errRead), "the end of the stream is not an error, a failure is")
	vsym.Reach("end")
}
