// Package wire is the client's end of a websocket connection.
package wire

import (
	"bufio"
	"context"
	"io"
	"net"
	gohttp "net/http"
	"net/url"
	"sync"
	"time"

	"verif/harness/vsym"
)

// Conn is the server's end of a connection whose other end is the harness.
type Conn struct {
	m        sync.Mutex
	cond     *sync.Cond
	In       []byte
	EOF      bool // nothing more to come
	Out      []byte
	Closed   int
	WriteErr error
}

func New() *Conn {
	k := &Conn{}
	k.cond = sync.NewCond(&k.m)
	return k
}

func (k *Conn) Read(p []byte) (int, error) {
	k.m.Lock()
	defer k.m.Unlock()
	for {
		if k.Closed > 0 {
			return 0, io.ErrClosedPipe
		}
		if len(k.In) > 0 {
			n := copy(p, k.In)
			k.In = k.In[n:]
			return n, nil
		}
		if k.EOF {
			return 0, io.EOF
		}
		k.cond.Wait()
	}
}

func (k *Conn) Write(p []byte) (int, error) {
	k.m.Lock()
	defer k.m.Unlock()
	if k.Closed > 0 {
		return 0, io.ErrClosedPipe
	}
	if k.WriteErr != nil {
		return 0, k.WriteErr
	}
	k.Out = append(k.Out, p...)
	return len(p), nil
}

func (k *Conn) Close() error {
	k.m.Lock()
	defer k.m.Unlock()
	k.Closed++
	k.cond.Broadcast()
	return nil
}
func (k *Conn) LocalAddr() net.Addr              { return nil }
func (k *Conn) RemoteAddr() net.Addr             { return nil }
func (k *Conn) SetDeadline(time.Time) error      { return nil }
func (k *Conn) SetReadDeadline(time.Time) error  { return nil }
func (k *Conn) SetWriteDeadline(time.Time) error { return nil }

type upgrade struct{ k *Conn }

func (u upgrade) Header() gohttp.Header       { return gohttp.Header{} }
func (u upgrade) WriteHeader(int)             {}
func (u upgrade) Write(p []byte) (int, error) { return len(p), nil }
func (u upgrade) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return u.k, bufio.NewReadWriter(bufio.NewReader(u.k), bufio.NewWriter(u.k)), nil
}

// Frame is one websocket frame.
type Frame struct {
	Fin     bool
	Op      byte
	Payload []byte
}

// Put adds a masked frame to what the client has sent.
func (k *Conn) Put(fin bool, op byte, payload []byte, mask [4]byte, form int) {
	b := op
	if fin {
		b |= 0x80
	}
	k.In = append(k.In, b)
	n := len(payload)
	switch form {
	case 0:
		k.In = append(k.In, 0x80|byte(n))
	case 1:
		k.In = append(k.In, 0x80|126, byte(n>>8), byte(n))
	default:
		k.In = append(k.In, 0x80|127, 0, 0, 0, 0, 0, byte(n>>16), byte(n>>8), byte(n))
	}
	k.In = append(k.In, mask[:]...)
	for i, c := range payload {
		k.In = append(k.In, c^mask[i%4])
	}
}

// Frames is what the server has sent, after the handshake.
func (k *Conn) Frames() []Frame {
	out := k.Out
	for i := 0; ; i++ {
		vsym.Assert(i+4 <= len(out), "the handshake is answered")
		if string(out[i:i+4]) == "\r\n\r\n" {
			out = out[i+4:]
			break
		}
	}
	var list []Frame
	for len(out) > 0 {
		vsym.Assert(len(out) >= 2, "the server sends whole frames")
		vsym.Assert(out[0]&0x70 == 0 && out[1]&0x80 == 0, "the server sends plain unmasked frames")
		f := Frame{Fin: out[0]&0x80 != 0, Op: out[0] & 0x0f}
		n := int(out[1])
		out = out[2:]
		if n == 126 {
			vsym.Assert(len(out) >= 2, "the server sends whole frames")
			n = int(out[0])<<8 | int(out[1])
			out = out[2:]
		} else if n == 127 {
			vsym.Assert(len(out) >= 8, "the server sends whole frames")
			n = 0
			for _, b := range out[:8] {
				n = n<<8 | int(b)
			}
			out = out[8:]
		}
		vsym.Assert(n >= 0 && len(out) >= n, "the server sends whole frames")
		f.Payload = out[:n]
		out = out[n:]
		list = append(list, f)
	}
	return list
}

// Serve has h serve the connection and returns what it panicked with.
func Serve(c context.Context, h gohttp.Handler, k *Conn) (failed any) {
	defer func() { failed = recover() }()
	u, _ := url.Parse("/ws")
	r := &gohttp.Request{
		Method: "GET", URL: u, Host: "example.com", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: gohttp.Header{
			"Upgrade":               {"websocket"},
			"Connection":            {"Upgrade"},
			"Sec-Websocket-Key":     {"dGhlIHNhbXBsZSBub25jZQ=="},
			"Sec-Websocket-Version": {"13"},
			"Origin":                {"http://example.com"},
		},
	}
	h.ServeHTTP(upgrade{k}, r.WithContext(c))
	return nil
}

// Plain is a mask.
var Plain = [4]byte{0x37, 0xfa, 0x21, 0x3d}

// Text adds a text message to what the client has sent.
func (k *Conn) Text(p []byte) {
	form := 0
	if len(p) > 125 {
		form = 1
	}
	k.Put(true, 1, p, Plain, form)
}
