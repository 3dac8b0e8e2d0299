// Package w02: websocket connections, from the bytes on the wire to the
// handler and back.
//
//vsym:assume the handshake was a valid one; frames of the client are masked, as the protocol demands
//vsym:outside the network; messages longer than stated; the handshake of golang.org/x/net/websocket
package w02

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"strconv"
	"sync"
	"syscall"

	"verif/harness/vsym"
	"verif/harness/wire"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http/ws"
)

func same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func number(n enc.Node) (i int64) {
	err := enc.Unmarshal(context.Background(), n, &i)
	vsym.Assert(err == nil, "a message is what the client wrote")
	return
}

// want is what a receiver following the protocol makes of the frames: the
// messages up to the first frame it may refuse, and all of them if it refuses
// none.
type want struct {
	must, may   []int64
	pong, pongs [][]byte
}

// H_Frames: every message of the client is handed over once, as sent and in
// order; pings are answered with their payload; no frame whatsoever makes the
// server panic, and none but a whole message is taken for one.
//
//vsym:all preempt=0 timers=0
//vsym:quick time=120
//vsym:thorough time=600
func H_Frames() {
	n := 1 + vsym.Choice("frames", vsym.Bound("frames", 2, 3))
	k := wire.New()
	var w want
	refused, closed := false, false
	open := false
	part := int64(0)
	for i := 0; i < n; i++ {
		op := []byte{1, 2, 8, 9, 10, 0, 3, 15}[vsym.Choice("opcode", 8)]
		fin := vsym.Bool("fin")
		mask := wire.Plain
		if i == 0 {
			for j := range mask {
				mask[j] = vsym.Byte("mask", 0, 255)
			}
		}
		form := 0
		if i == 0 {
			form = vsym.Choice("length form", 3)
		}
		var p []byte
		switch op {
		case 9, 10:
			p = vsym.Bytes("payload", 0, 2)
		case 8:
			p = []byte{3, 232}
		default:
			d := vsym.Byte("digit", '1', '9')
			p = []byte{d, '0' + byte(i)}
			part = part*100 + int64(d-'0')*10 + int64(i)
		}
		k.Put(fin, op, p, mask, form)
		if closed {
			continue
		}
		switch {
		case op == 8:
			closed = true
		case op == 9:
			// a control frame in parts is nothing a client may send
			refused = refused || !fin
			if !refused {
				w.pong = append(w.pong, p)
			}
			w.pongs = append(w.pongs, p)
		case op == 10:
			refused = refused || !fin
		case (op == 1 || op == 2) && fin && !open:
			if !refused {
				w.must = append(w.must, part)
			}
			w.may = append(w.may, part)
			part = 0
		case (op == 1 || op == 2) && !open:
			refused, open = true, true
		case op == 0 && open:
			if fin {
				w.may = append(w.may, part)
				part, open = 0, false
			}
		default:
			refused, closed = true, true
		}
	}
	k.EOF = true
	var got []int64
	h := ws.Handler{OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
		got = append(got, number(n))
		return nil
	}}
	failed := wire.Serve(context.Background(), h.Server(), k)
	vsym.Assert(failed == nil, "no frame of a client makes the server panic")
	vsym.Assert(k.Closed > 0, "the connection is closed in the end")
	vsym.Assert(len(got) >= len(w.must), "every message is handed over")
	vsym.Assert(len(got) <= len(w.may), "nothing but whole messages is handed over")
	for i := range got {
		vsym.Assert(got[i] == w.may[i], "messages are handed over as sent and in order")
	}
	pongs := 0
	over := false
	for _, f := range k.Frames() {
		vsym.Assert(f.Fin, "the server sends whole messages")
		switch f.Op {
		case 10:
			vsym.Assert(!over, "nothing follows the close frame")
			vsym.Assert(pongs < len(w.pongs) && same(f.Payload, w.pongs[pongs]), "a pong answers a ping")
			pongs++
		case 8:
			over = true
		default:
			vsym.Fail("the server sends nothing on its own")
		}
	}
	vsym.Assert(pongs >= len(w.pong), "every ping is answered")
	vsym.Assert(over, "the server says goodbye")
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running")
	vsym.Reach("end")
	vsym.Done()
}

// H_Cut: a message whose end never arrives is not handed over.
//
//vsym:all preempt=0 timers=0
func H_Cut() {
	k := wire.New()
	p := []byte{vsym.Byte("digit", '1', '9'), vsym.Byte("digit", '0', '9'), vsym.Byte("digit", '0', '9')}
	k.Put(true, byte(1+vsym.Choice("binary", 2)), p, wire.Plain, vsym.Choice("length form", 3))
	whole := len(k.In)
	cut := vsym.Choice("cut", whole+1)
	k.In = k.In[:cut]
	k.EOF = true
	got := 0
	h := ws.Handler{OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
		got++
		return nil
	}}
	failed := wire.Serve(context.Background(), h.Server(), k)
	vsym.Assert(failed == nil, "a connection that breaks is no reason to panic")
	if cut < whole {
		vsym.Assert(got == 0, "a message cut short is not handed over")
	} else {
		vsym.Assert(got == 1, "a whole message is handed over")
	}
	vsym.Assert(k.Closed > 0, "the connection is closed in the end")
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running")
	vsym.Reach("end")
	vsym.Done()
}

// H_Garbage: no bytes at all make the server panic.
//
//vsym:all preempt=0 timers=0
//vsym:quick time=60
//vsym:thorough time=300
func H_Garbage() {
	k := wire.New()
	k.In = vsym.Bytes("bytes", 0, vsym.Bound("bytes", 3, 4))
	k.EOF = true
	h := ws.Handler{OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
		return nil
	}}
	failed := wire.Serve(context.Background(), h.Server(), k)
	vsym.Assert(failed == nil, "no bytes of a client make the server panic")
	vsym.Assert(k.Closed > 0, "the connection is closed in the end")
	vsym.Reach("end")
	vsym.Done()
}

// H_Send: what the server sends arrives as one message each, in order.
//
//vsym:all preempt=0 timers=0
func H_Send() {
	k := wire.New()
	k.EOF = true
	var send []enc.Node
	n := 1 + vsym.Choice("messages", 2)
	for i := 0; i < n; i++ {
		switch vsym.Choice("message", 4) {
		case 0:
			send = append(send, enc.Integer(vsym.Int64("integer", -20, 20)))
		case 1:
			send = append(send, enc.Map{"a": enc.Bool(vsym.Bool("bool")), "b": enc.Nil{}})
		case 2:
			// around the lengths at which the header changes its form
			l := 121 + vsym.Choice("length", 6)
			b := make([]byte, l)
			for j := range b {
				b[j] = 'a' + byte(j%26)
			}
			send = append(send, enc.String(b))
		case 3:
			send = append(send, enc.List{})
		}
	}
	h := ws.Handler{
		OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) {
			for _, n := range send {
				vsym.Assert(conn.Send(c, n) == nil, "sending works")
			}
			return c, nil
		},
		OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error { return nil },
	}
	failed := wire.Serve(context.Background(), h.Server(), k)
	vsym.Assert(failed == nil, "no panic")
	fs := k.Frames()
	vsym.Assert(len(fs) > len(send), "every message is sent")
	for i := range send {
		vsym.Assert(fs[i].Op == 1 && fs[i].Fin, "a message is a text frame")
		n, err := enc.JSON{}.Decode(context.Background(), fs[i].Payload)
		vsym.Assert(err == nil, "a message is JSON")
		vsym.Assert(string(enc.JSON{}.Encode(context.Background(), n)) == string(enc.JSON{}.Encode(context.Background(), send[i])), "a message arrives as sent")
	}
	vsym.Assert(fs[len(send)].Op == 8 && same(fs[len(send)].Payload, []byte{3, 232}), "the server says goodbye")
	vsym.Reach("end")
	vsym.Done()
}

// H_SendConcurrent: messages sent at the same time, and while the connection
// is being closed, are not mixed up.
//
//vsym:all race=1 timers=0
//vsym:quick time=60 preempt=1
//vsym:thorough time=300
func H_SendConcurrent() {
	k := wire.New()
	stop := vsym.Choice("ending", 3)
	ping := stop == 0 && vsym.Choice("ping", 2) == 1
	if ping {
		k.Put(true, 9, []byte("p"), wire.Plain, 0)
	}
	if stop == 0 {
		k.EOF = true
	}
	c, cf := context.WithCancel(context.Background())
	errs := make([]error, 2)
	var wg sync.WaitGroup
	h := ws.Handler{
		OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) {
			for i := 0; i < 2; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					errs[i] = conn.Send(c, i)
				}()
			}
			if stop == 1 {
				go conn.Close(c, ws.GOING_AWAY)
			}
			return c, nil
		},
		OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error { return nil },
	}
	if stop == 2 {
		go cf()
	}
	failed := wire.Serve(c, h.Server(), k)
	cf()
	vsym.Assert(failed == nil, "no panic")
	wg.Wait()
	sent := 0
	seen := [2]int{}
	for _, f := range k.Frames() {
		switch f.Op {
		case 1:
			vsym.Assert(len(f.Payload) == 1 && (f.Payload[0] == '0' || f.Payload[0] == '1'), "messages are not mixed up")
			seen[f.Payload[0]-'0']++
		case 8:
			vsym.Assert(len(f.Payload) == 2, "messages are not mixed up")
		case 10:
			vsym.Assert(ping && string(f.Payload) == "p", "messages are not mixed up")
		default:
			vsym.Fail("messages are not mixed up")
		}
	}
	for i := range errs {
		if errs[i] == nil {
			sent++
			vsym.Assert(seen[i] == 1, "a message is sent once when Send says so")
		} else {
			vsym.Assert(seen[i] <= 1, "a message is sent at most once")
		}
	}
	vsym.Assert(k.Closed > 0, "the connection is closed in the end")
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running")
	vsym.Reach("end")
	vsym.Done()
}

type key struct{}

// H_Handler: OnConnect comes first and decides on the context; an error of
// either ends the connection, and one of OnData is told to the client; what
// comes after is not handed over. A panic ends the connection and no other.
//
//vsym:all preempt=0 timers=0
func H_Handler() {
	k := wire.New()
	n := 1 + vsym.Choice("messages", 3)
	for i := 0; i < n; i++ {
		k.Put(true, 1, []byte{'0' + byte(i)}, wire.Plain, 0)
	}
	hang := vsym.Choice("client stays", 2) == 1
	k.EOF = !hang
	refuse := vsym.Choice("refuse", 2) == 1
	bad := vsym.Choice("bad message", 4) - 1
	how := vsym.Choice("how", 3)
	kind := 0
	if how == 0 && bad >= 0 && bad < n {
		kind = vsym.Choice("kind of error", 5)
	}
	text := "bad-" + vsym.StringIn("text", 0, 1, "xy")
	connected := 0
	var got []int64
	sid := ""
	h := ws.Handler{
		OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) {
			connected++
			sid = conn.SID()
			if refuse {
				return nil, io.ErrUnexpectedEOF
			}
			return context.WithValue(c, key{}, "mine"), nil
		},
		OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
			vsym.Assert(connected == 1, "OnConnect comes first")
			vsym.Assert(c.Value(key{}) == "mine", "OnData has the context of OnConnect")
			vsym.Assert(conn.SID() == sid && sid != "", "the identifier stays the same")
			i := number(n)
			got = append(got, i)
			if i == int64(bad) {
				switch how {
				case 0:
					switch kind {
					case 0:
						return ctx.NewErrorf(c, "%s", text)
					case 1:
						return ctx.NewErrorf(c, "wrapped: %w", ctx.NewErrorf(c, "%s", text))
					case 2:
						return errors.New(text)
					case 3:
						return &fs.PathError{Op: "open", Path: text, Err: syscall.ENOENT}
					default:
						return &opaque{text: text}
					}
				case 1:
					return conn.Close(c, ws.PROTOCOL_ERR)
				case 2:
					panic(text)
				}
			}
			return nil
		},
	}
	hit := !refuse && bad >= 0 && bad < n
	if hang && !hit && !refuse {
		k.Put(true, 8, nil, wire.Plain, 0)
	}
	failed := wire.Serve(context.Background(), h.Server(), k)
	vsym.Assert(connected == 1, "OnConnect is called once")
	vsym.Assert(failed == nil || (hit && how == 2), "no panic but the one of the handler")
	want := n
	switch {
	case refuse:
		want = 0
	case hit && how != 1:
		want = bad + 1
	}
	if hit && how == 1 {
		// what has been received already may be handed over
		vsym.Assert(len(got) >= bad+1 && len(got) <= n, "messages until closed")
	} else {
		vsym.Assert(len(got) == want, "messages are handed over until an error")
	}
	for i := range got {
		vsym.Assert(got[i] == int64(i), "messages are handed over in order")
	}
	vsym.Assert(k.Closed > 0, "the connection is closed in the end")
	fs := k.Frames()
	if hit && how == 0 {
		vsym.Assert(len(fs) > 1 && fs[0].Op == 1, "an error is told to the client")
		var f ws.Frame
		vsym.Assert(enc.UnmarshalJSON(context.Background(), fs[0].Payload, &f) == nil, "an error is told in a frame")
		vsym.Assert(f.Type == "disconnect", "an error disconnects")
		vsym.Assert(contains(string(fs[0].Payload), text), "the error is what the client is told")
		fs = fs[1:]
	}
	for i, f := range fs {
		vsym.Assert(f.Op == 8, "the server sends nothing on its own")
		if i == 0 && hit && how == 1 {
			vsym.Assert(same(f.Payload, []byte{3, 234}), "the status of the close frame is the one given")
		}
	}
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running")
	vsym.Reach("end")
	vsym.Done()
}

type opaque struct {
	text string
	F    func()
}

func (this *opaque) Error() string { return this.text }

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// H_Cancel: a cancelled context ends the connection, whatever the client does.
//
//vsym:all timers=0
//vsym:quick preempt=1
func H_Cancel() {
	k := wire.New()
	n := vsym.Choice("messages", 3)
	for i := 0; i < n; i++ {
		k.Put(true, 1, []byte{'0' + byte(i)}, wire.Plain, 0)
	}
	c, cf := context.WithCancel(context.Background())
	got := 0
	h := ws.Handler{OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
		vsym.Assert(number(n) == int64(got), "messages are handed over in order")
		got++
		return nil
	}}
	go cf()
	failed := wire.Serve(c, h.Server(), k)
	vsym.Assert(failed == nil, "no panic")
	vsym.Assert(k.Closed > 0, "the connection is closed in the end")
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running")
	vsym.Reach("end")
	vsym.Done()
}

// H_Long: messages of any length arrive whole, in both directions; lengths
// around those where the header changes its form, and some beyond.
//
//vsym:all preempt=0 timers=0 fuel=200000000
//vsym:quick time=60
//vsym:thorough time=300
func H_Long() {
	l := []int{125, 126, 127, 4094, 32767, 65535, 65536, 65540, 100000, 300000}[vsym.Choice("length", vsym.Bound("lengths", 9, 10))]
	b := make([]byte, l)
	b[0], b[l-1] = '"', '"'
	for i := 1; i < l-1; i++ {
		b[i] = 'a' + byte(i%23)
	}
	k := wire.New()
	form := 0
	if l > 125 {
		form = 1
	}
	if l > 65535 || l > 125 && vsym.Bool("longest form") {
		form = 2
	}
	k.Put(true, 1, b, [4]byte{1, 2, 3, 4}, form)
	k.EOF = true
	var got enc.Node
	n := 0
	h := ws.Handler{OnData: func(c ctx.C, conn *ws.Conn, in enc.Node) error {
		got = in
		n++
		return conn.Send(c, in)
	}}
	failed := wire.Serve(context.Background(), h.Server(), k)
	vsym.Assert(failed == nil, "no panic")
	vsym.Assert(n == 1 && got == enc.Node(enc.String(b[1:l-1])), "a message arrives whole")
	fs := k.Frames()
	for len(fs) > 0 && fs[len(fs)-1].Op == 8 {
		fs = fs[:len(fs)-1] // the goodbye
	}
	var back []byte
	for i, f := range fs {
		op := byte(0)
		if i == 0 {
			op = 1
		}
		vsym.Assert(f.Op == op && f.Fin == (i == len(fs)-1), "and comes back as one message")
		back = append(back, f.Payload...)
	}
	vsym.Assert(string(back) == string(b), "and comes back whole")
	vsym.Reach("end")
	vsym.Done()
}

// H_Pings: pings of any length a ping may have, and many of them, in between
// messages.
//
//vsym:all preempt=0 timers=0 fuel=20000000
//vsym:quick time=60
func H_Pings() {
	k := wire.New()
	n := []int{1, 3, 60}[vsym.Choice("pings", 3)]
	at := vsym.Choice("at", 3) * (n - 1) / 2
	var pings [][]byte
	lengths := []int{2, 63, 64, 124, 125}
	for i := 0; i < n; i++ {
		p := make([]byte, lengths[i%5])
		if i == at {
			p = make([]byte, lengths[vsym.Choice("length", 5)])
			p[vsym.Choice("where", 2)*(len(p)-1)] = vsym.Byte("byte", 0, 255)
		}
		for j := 1; j < len(p)-1; j++ {
			p[j] = byte(i*3 + j)
		}
		pings = append(pings, p)
		k.Put(true, 9, p, [4]byte{9, 8, 7, byte(i)}, 0)
		if i%7 == 0 {
			k.Text([]byte(strconv.Itoa(i)))
		}
	}
	k.EOF = true
	var got []int64
	h := ws.Handler{OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
		got = append(got, number(n))
		return nil
	}}
	failed := wire.Serve(context.Background(), h.Server(), k)
	vsym.Assert(failed == nil, "no panic")
	vsym.Assert(len(got) == (n+6)/7, "every message is handed over")
	for i, v := range got {
		vsym.Assert(v == int64(7*i), "messages are handed over as sent and in order")
	}
	pongs := 0
	for _, f := range k.Frames() {
		if f.Op == 10 {
			vsym.Assert(f.Fin && pongs < n && same(f.Payload, pings[pongs]), "a pong answers a ping")
			pongs++
		} else {
			vsym.Assert(f.Op == 8, "the server sends nothing on its own")
		}
	}
	vsym.Assert(pongs == n, "every ping is answered")
	vsym.Reach("end")
	vsym.Done()
}
