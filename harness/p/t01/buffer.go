package t01

import (
	"io"
	"time"

	"github.com/Aize-Public/forego/test"
	"verif/harness/vsym"
)

// H_Buffer: what is appended is read, and what is written is kept.
//
//vsym:all native=16
//vsym:thorough time=300
func H_Buffer() {
	rwc := test.NewBufferedRWC()
	var toRead []byte
	var written []string
	closed := false
	var given, was [][]byte
	n := vsym.Bound("steps", 3, 4)
	for i := 0; i < n; i++ {
		switch vsym.Choice("op", 6) {
		case 0:
			b := vsym.Bytes("append", 1, 2)
			given, was = append(given, append([]byte(nil), b...)), append(was, b)
			_, p := vsym.Panics(func() { rwc.Append(given[len(given)-1]) })
			vsym.Assert(p == closed, "appended, unless closed")
			if !closed {
				toRead = append(toRead, b...)
			}
		case 1:
			if len(toRead) == 0 && !closed {
				continue // would wait
			}
			dst := make([]byte, vsym.Choice("size", 3))
			ct, err := rwc.Read(dst)
			if len(toRead) == 0 {
				vsym.Assert(ct == 0 && err == io.EOF, "the end")
				continue
			}
			vsym.Assert(err == nil && (ct > 0 || len(dst) == 0) && ct <= len(toRead), "there is something")
			for j := 0; j < ct; j++ {
				vsym.Assert(dst[j] == toRead[j], "which was appended")
			}
			toRead = toRead[ct:]
		case 2:
			s := vsym.StringIn("write", 0, 1, "w")
			ct, err := rwc.Write([]byte(s))
			if closed && s != "" {
				vsym.Assert(ct == 0 && err != nil, "closed")
			} else {
				vsym.Assert(ct == len(s) && err == nil, "written")
				if s != "" {
					written = append(written, s)
				}
			}
		case 3:
			err := rwc.Close()
			vsym.Assert((err != nil) == closed, "closed once")
			closed = true
		case 4:
			rwc.SetReadClosed()
			closed = true
		case 5:
			vsym.Assert(rwc.IsReadClosed() == closed && rwc.HasRead() == (len(toRead) > 0), "the state")
		}
	}
	for i := range given {
		vsym.Assert(string(given[i]) == string(was[i]), "what was appended is not touched")
	}
	vsym.Assert(len(rwc.Written) == len(written), "all that was written")
	for i, s := range written {
		vsym.Assert(string(rwc.Written[i]) == s, "as it was written")
	}
	vsym.Reach("buffer")
}

// H_BufferWait: a reader gets what is appended later, or the end.
//
//vsym:all native=16 preempt=4 race=1
func H_BufferWait() {
	rwc := test.NewBufferedRWC()
	closing := vsym.Choice("close", 2)
	done := make(chan int)
	go func() {
		tot := 0
		buf := make([]byte, 2)
		for {
			ct, err := rwc.Read(buf)
			tot += ct
			if err != nil {
				break
			}
		}
		done <- tot
	}()
	for i := 0; i < 2; i++ {
		rwc.Append([]byte("abc"))
	}
	if closing == 0 {
		rwc.SetReadClosed()
		vsym.Assert(<-done == 6, "all of it")
	} else {
		_ = rwc.Close()
		select {
		case n := <-done:
			vsym.Assert(n == 6, "all of it")
		case <-time.After(time.Second):
			vsym.Fail("Close must wake who waits in Read")
		}
	}
	vsym.Reach("buffer wait")
}

// H_BufferReaders: everybody who waits is told of the end.
//
//vsym:all native=8 preempt=2
func H_BufferReaders() {
	rwc := test.NewBufferedRWC()
	done := make(chan error)
	for i := 0; i < 2; i++ {
		go func() {
			_, err := rwc.Read(make([]byte, 1))
			done <- err
		}()
	}
	if vsym.Bool("wait") {
		time.Sleep(time.Millisecond)
	}
	rwc.SetReadClosed()
	for i := 0; i < 2; i++ {
		vsym.Assert(<-done == io.EOF, "everybody is told") // or hangs
	}
	vsym.Reach("buffer readers")
}

// H_BufferRetain: a writer may use its buffer again.
//
//vsym:all native=8
func H_BufferRetain() {
	rwc := test.NewBufferedRWC()
	b := []byte{vsym.Byte("b", 0, 255)}
	was := b[0]
	_, _ = rwc.Write(b)
	b[0]++
	vsym.Assert(rwc.Written[0][0] == was, "what was written does not change with the buffer of the writer")
	vsym.Reach("retain")
}
