// Package memnet is the network of the harnesses: connections within the
// memory of the program. When executed symbolically net.Listen is Listen;
// replays use the real loopback network.
package memnet

import (
	"context"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/vsym"
)

var (
	m         sync.Mutex
	listeners = map[int]*listener{}
	next      = 40000
)

type listener struct {
	m      sync.Mutex
	cond   *sync.Cond
	addr   *net.TCPAddr
	queue  []*Conn
	closed bool
}

// Listen is net.Listen.
func Listen(network, addr string) (net.Listener, error) {
	m.Lock()
	defer m.Unlock()
	host, port, ok := strings.Cut(addr, ":")
	n, err := strconv.Atoi(port)
	a := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: n}
	switch {
	case network != "tcp" || !ok || err != nil || n < 0 || n > 65535 || (host != "" && host != "127.0.0.1"):
		return nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "bad address", Addr: addr}}
	case n == 0:
		next++
		a.Port = next
	case listeners[n] != nil:
		return nil, &net.OpError{Op: "listen", Net: network, Addr: a, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &listener{addr: a}
	l.cond = sync.NewCond(&l.m)
	listeners[a.Port] = l
	return l, nil
}

func (l *listener) Accept() (net.Conn, error) {
	l.m.Lock()
	defer l.m.Unlock()
	for len(l.queue) == 0 && !l.closed {
		l.cond.Wait()
	}
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	return c, nil
}

func (l *listener) Close() error {
	m.Lock()
	delete(listeners, l.addr.Port)
	m.Unlock()
	l.m.Lock()
	defer l.m.Unlock()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	for _, c := range l.queue {
		c.Close()
	}
	l.cond.Broadcast()
	return nil
}

func (l *listener) Addr() net.Addr { return l.addr }

// half is one direction of a connection.
type half struct {
	m        sync.Mutex
	cond     *sync.Cond
	buf      []byte
	eof      bool // by the writer
	closed   bool // by the reader
	deadline time.Time
	timer    *time.Timer
	written  time.Time // the deadline of the writer
}

func newHalf() *half {
	h := &half{}
	h.cond = sync.NewCond(&h.m)
	return h
}

// Conn is one end of a connection.
type Conn struct {
	r, w          *half
	local, remote *net.TCPAddr
}

// Dial connects to who listens at that port.
func Dial(addr *net.TCPAddr) (net.Conn, error) {
	if !vsym.Symbolic() {
		return net.Dial("tcp", "127.0.0.1:"+strconv.Itoa(addr.Port))
	}
	m.Lock()
	l := listeners[addr.Port]
	next++
	own := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: next}
	m.Unlock()
	refused := &net.OpError{Op: "dial", Net: "tcp", Addr: addr, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	if l == nil {
		return nil, refused
	}
	a, b := newHalf(), newHalf()
	l.m.Lock()
	defer l.m.Unlock()
	if l.closed {
		return nil, refused
	}
	l.queue = append(l.queue, &Conn{r: a, w: b, local: l.addr, remote: own})
	l.cond.Signal()
	return &Conn{r: b, w: a, local: own, remote: l.addr}, nil
}

// DialContext is that of a net.Dialer.
func DialContext(_ *net.Dialer, c context.Context, network, addr string) (net.Conn, error) {
	if c.Err() != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: c.Err()}
	}
	_, port, _ := strings.Cut(addr, ":")
	n, err := strconv.Atoi(port)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: &net.AddrError{Err: "bad address", Addr: addr}}
	}
	return Dial(&net.TCPAddr{Port: n})
}

func (c *Conn) Read(p []byte) (int, error) {
	h := c.r
	h.m.Lock()
	defer h.m.Unlock()
	for {
		switch {
		case h.closed:
			return 0, net.ErrClosed
		case !h.deadline.IsZero() && !h.deadline.After(time.Now()):
			return 0, os.ErrDeadlineExceeded
		case len(p) == 0:
			return 0, nil
		case len(h.buf) > 0:
			n := copy(p, h.buf)
			h.buf = h.buf[n:]
			return n, nil
		case h.eof:
			return 0, io.EOF
		}
		h.cond.Wait()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	h := c.w
	h.m.Lock()
	defer h.m.Unlock()
	switch {
	case h.eof:
		return 0, net.ErrClosed
	case h.closed:
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
	case !h.written.IsZero() && !h.written.After(time.Now()):
		return 0, os.ErrDeadlineExceeded
	}
	h.buf = append(h.buf, p...)
	h.cond.Broadcast()
	return len(p), nil
}

// CloseWrite ends what is sent.
func (c *Conn) CloseWrite() error {
	c.w.m.Lock()
	defer c.w.m.Unlock()
	c.w.eof = true
	c.w.cond.Broadcast()
	return nil
}

func (c *Conn) Close() error {
	c.CloseWrite()
	h := c.r
	h.m.Lock()
	defer h.m.Unlock()
	if h.closed {
		return net.ErrClosed
	}
	h.closed = true
	if h.timer != nil {
		h.timer.Stop()
	}
	h.cond.Broadcast()
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	h := c.r
	h.m.Lock()
	defer h.m.Unlock()
	if h.closed {
		return net.ErrClosed
	}
	if h.timer != nil {
		h.timer.Stop()
		h.timer = nil
	}
	h.deadline = t
	h.cond.Broadcast()
	if !t.IsZero() {
		if d := time.Until(t); d > 0 {
			h.timer = time.AfterFunc(d, func() {
				h.m.Lock()
				defer h.m.Unlock()
				h.cond.Broadcast()
			})
		}
	}
	return nil
}

// SetWriteDeadline has writes fail from then on; before it none has to wait.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.w.m.Lock()
	defer c.w.m.Unlock()
	if c.w.eof {
		return net.ErrClosed
	}
	c.w.written = t
	return nil
}
