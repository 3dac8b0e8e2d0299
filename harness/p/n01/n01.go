// Package n01: a server that listens, from the first connection to the
// shutdown.
//
//vsym:assume connections transport bytes in order and without loss, and whoever dials a port that listens is connected
//vsym:outside TCP itself, TLS and HTTP/2; more connections and requests than stated; the scheduling of the connections beyond where they wait for each other
package n01

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	gohttp "net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"verif/harness/memnet"
	"verif/harness/vsym"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/http/ws"
	"github.com/Aize-Public/forego/shutdown"
)

var c ctx.C = context.Background()

// client is one connection to a server.
type client struct {
	net.Conn
	r *bufio.Reader
}

func dial(a *net.TCPAddr) *client {
	k, err := memnet.Dial(a)
	vsym.Assert(err == nil, "who listens accepts connections")
	return &client{k, bufio.NewReader(k)}
}

func (k *client) send(method, path, body string) error {
	_, err := fmt.Fprintf(k, "%s %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", method, path, len(body), body)
	return err
}

func (k *client) recv() (int, string, error) {
	res, err := gohttp.ReadResponse(k.r, nil)
	if err != nil {
		return 0, "", err
	}
	b, err := io.ReadAll(res.Body)
	return res.StatusCode, string(b), err
}

func echo(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) {
	if string(in) == "bad" {
		return nil, http.NewErrorf(c, 418, "teapot")
	}
	return in, nil
}

// H_Serve: every request of every connection is answered with what its
// handler gave, in order.
//
//vsym:all race=1 preempt=0 timers=40 lazy=1 delay=2 fuel=50000000 native=8
//vsym:quick time=60
//vsym:thorough time=300
func H_Serve() {
	s := http.NewServer(c)
	s.HandleRequest("/echo", echo)
	s.HandleFunc("/plain/", func(w gohttp.ResponseWriter, r *gohttp.Request) {
		_, _ = io.WriteString(w, r.Method+" "+r.URL.Path)
	})
	a, err := s.Listen(c, "127.0.0.1:0")
	vsym.Assert(err == nil && a.Port > 0, "listening")
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		i := i
		n := 1 + vsym.Choice("requests", vsym.Bound("requests", 1, 2))
		what := make([]int, n)
		for j := range what {
			what[j] = vsym.Choice("request", 5)
		}
		x := string(rune(vsym.Byte("x", 'a', 'z')))
		go func() {
			defer func() { done <- true }()
			k := dial(a)
			for _, w := range what {
				switch w {
				case 0:
					k.send("POST", "/echo", x)
				case 1:
					k.send("POST", "/echo", "bad")
				case 2:
					k.send("POST", "/echo", "")
				case 3:
					k.send("GET", fmt.Sprintf("/plain/%d", i), "")
				case 4:
					k.send("GET", "/nothing", "")
				}
				code, body, err := k.recv()
				vsym.Assert(err == nil, "every request is answered")
				switch w {
				case 0:
					vsym.Assert(code == 200 && body == x, "with what its handler gave")
				case 1:
					vsym.Assert(code == 418 && strings.Contains(body, "teapot"), "with the status of the error")
				case 2:
					vsym.Assert(code == 204 && body == "", "with nothing if there is nothing")
				case 3:
					vsym.Assert(code == 200 && body == fmt.Sprintf("GET /plain/%d", i), "by the handler of its path")
				case 4:
					vsym.Assert(code == 404, "or that there is none")
				}
			}
			k.Close()
		}()
	}
	<-done
	<-done
	vsym.Reach("end")
	vsym.Done()
}

// H_Shutdown: requests in progress when a shutdown begins are answered before
// it is done, and none are taken afterwards.
//
//vsym:all race=1 preempt=0 timers=40 lazy=1 delay=2 fuel=50000000 native=8
//vsym:quick time=60
//vsym:thorough time=300
func H_Shutdown() {
	s := http.NewServer(c)
	began, goon := make(chan bool, 2), make(chan bool)
	s.HandleRequest("/slow", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) {
		began <- true
		<-goon
		return in, c.Err()
	})
	s.HandleRequest("/echo", echo)
	a, err := s.Listen(c, "127.0.0.1:0")
	vsym.Assert(err == nil, "listening")
	n := vsym.Choice("in progress", 3)
	idle := vsym.Bool("idle")
	var ks []*client
	var k2 *client
	if idle {
		k2 = dial(a)
		k2.send("POST", "/echo", "i")
		code, body, err := k2.recv()
		vsym.Assert(err == nil && code == 200 && body == "i", "answered")
	}
	for i := 0; i < n; i++ {
		k := dial(a)
		ks = append(ks, k)
		k.send("POST", "/slow", fmt.Sprint(i))
		<-began
	}
	shutdown.Begin()
	finished := shutdown.Done()
	answered := make(chan bool, 2)
	for i, k := range ks {
		i, k := i, k
		go func() {
			code, body, err := k.recv()
			vsym.Assert(err == nil && code == 200 && body == fmt.Sprint(i), "a request in progress is answered")
			answered <- true
		}()
	}
	if n > 0 {
		vsym.Quiesce()
		select {
		case <-finished:
			vsym.Fail("the shutdown waits for requests in progress")
		default:
		}
		close(goon)
	}
	<-finished
	for range ks {
		<-answered
	}
	_, err = memnet.Dial(a)
	vsym.Assert(err != nil, "no more connections are taken")
	if idle {
		_, _, err := k2.recv()
		vsym.Assert(err != nil, "idle connections are closed")
	}
	<-shutdown.Started5Sec()
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running")
	vsym.Reach("end")
	vsym.Done()
}

// H_Late: listening while a shutdown begins, or after it did, never hangs.
//
//vsym:all race=1 timers=40 lazy=1 fuel=50000000 native=8
//vsym:quick time=60 preempt=1 delay=3
//vsym:thorough time=300 preempt=2 delay=6
func H_Late() {
	s := http.NewServer(c)
	s.HandleRequest("/echo", echo)
	if vsym.Bool("before") {
		shutdown.Begin()
	} else {
		go shutdown.Begin()
	}
	a, err := s.Listen(c, "127.0.0.1:0")
	vsym.Assert(a != nil || err != nil, "it listens, or tells why not")
	vsym.Quiesce()
	<-shutdown.Started()
	<-shutdown.Done()
	if a != nil {
		vsym.Quiesce()
		_, err = memnet.Dial(a)
		vsym.Assert(err != nil, "no more connections are taken")
	}
	<-shutdown.Started5Sec()
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running")
	vsym.Reach("end")
	vsym.Done()
}

// H_Address: what can not be listened to is an error, and leaves nothing
// behind.
//
//vsym:all preempt=0 timers=0
func H_Address() {
	s, s2 := http.NewServer(c), http.NewServer(c)
	s.HandleRequest("/echo", echo)
	s2.HandleRequest("/other", echo)
	a, err := s.Listen(c, "127.0.0.1:0")
	vsym.Assert(err == nil, "listening")
	addr := []string{a.String(), "127.0.0.1:77777", "nonsense"}[vsym.Choice("address", 3)]
	b, err := s2.Listen(c, addr)
	vsym.Assert(b == nil && err != nil, "an error says so")
	k := dial(a)
	k.send("POST", "/echo", "x")
	code, body, err := k.recv()
	vsym.Assert(err == nil && code == 200 && body == "x", "who listened before is not disturbed")
	vsym.Reach("end")
	vsym.Done()
}

type Double struct {
	R api.Request `url:"/double"`
	A int         `api:"in" json:"a"`
	S string      `api:"both" json:"s"`
	B int         `api:"out" json:"b"`
}

var errNine = errors.New("nine")

func (d *Double) Do(c ctx.C) error {
	if d.A == 9 {
		return http.NewErrorf(c, 409, "%w", errNine)
	}
	d.B = 2 * d.A
	d.S += "!"
	return nil
}

// H_Client: the client of the package and the server, over the network.
//
//vsym:all race=1 preempt=0 timers=40 lazy=1 delay=1 fuel=50000000 native=8
//vsym:quick time=60
//vsym:thorough time=300
func H_Client() {
	s := http.NewServer(c)
	s.MustRegisterAPI(c, &Double{})
	s.HandleRequest("/echo", echo)
	a, err := s.Listen(c, "127.0.0.1:0")
	vsym.Assert(err == nil, "listening")
	u := "http://" + a.String()
	base, err := url.Parse(u)
	vsym.Assert(err == nil, "a url")
	k := http.Client{BaseUrl: base}
	for i := 0; i < vsym.Bound("requests", 1, 2); i++ {
		switch vsym.Choice("request", 5) {
		case 0:
			d := Double{A: vsym.Int("a", 0, 9), S: "s"}
			a := d.A
			err := k.API(c, &d)
			var e http.Error
			if a == 9 {
				vsym.Assert(errors.As(err, &e) && e.Code == 409, "an error arrives with its status")
			} else {
				vsym.Assert(err == nil && d.B == 2*a && d.S == "s!" && d.A == a, "the results of the operation arrive")
			}
		case 1:
			b, err := k.Post(c, u+"/echo", []byte("xyz"))
			vsym.Assert(err == nil && string(b) == "xyz", "what was posted is echoed")
		case 2:
			b, err := k.Get(c, u+"/live")
			vsym.Assert(err == nil && len(b) == 0, "alive")
		case 3:
			_, err := k.Get(c, u+"/nothing")
			var e http.Error
			vsym.Assert(errors.As(err, &e) && e.Code == 404, "or that there is none")
		case 4:
			c, cf := context.WithCancel(c)
			cf()
			var err error
			switch vsym.Choice("given up", 3) {
			case 0:
				_, err = k.Get(c, u+"/live")
			case 1:
				_, err = k.Post(c, u+"/echo", []byte("xyz"))
			case 2:
				err = k.API(c, &Double{A: 1, S: "s"})
			}
			vsym.Assert(errors.Is(err, context.Canceled), "a request that is given up is an error")
		}
	}
	vsym.Reach("end")
	vsym.Done()
}

// H_Stuck: whatever clients and handlers do, a shutdown is done in half a
// minute.
//
//vsym:all preempt=0 timers=200 lazy=1 fuel=50000000 native=0
//vsym:quick time=60 delay=0
//vsym:thorough time=300 delay=1
func H_Stuck() {
	s := http.NewServer(c)
	began := make(chan bool, 9)
	forever := make(chan bool)
	s.HandleRequest("/stuck", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) {
		began <- true
		<-forever
		return in, nil
	})
	s.HandleRequest("/echo", echo)
	a, err := s.Listen(c, "127.0.0.1:0")
	vsym.Assert(err == nil, "listening")
	part := []string{"", "POST /echo", "POST /echo HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n\r\nab", "nonsense\r\n\r\n"}
	stuck := false
	for i := 0; i < vsym.Bound("clients", 2, 3); i++ {
		k := dial(a)
		switch w := vsym.Choice("client", 5); w {
		case 4:
			k.send("POST", "/stuck", "x")
			<-began
			stuck = true
		default:
			_, err := io.WriteString(k, part[w])
			vsym.Assert(err == nil, "sent")
			if w == 3 {
				code, _, err := k.recv()
				vsym.Assert(err == nil && code == 400, "nonsense is refused")
			}
		}
	}
	if vsym.Bool("settled") {
		vsym.Quiesce()
	}
	t0 := time.Now()
	shutdown.Begin()
	<-shutdown.Done()
	d := time.Since(t0)
	vsym.Assert(d <= 31*time.Second, "a shutdown is done in half a minute")
	if stuck {
		vsym.Assert(d >= 29*time.Second, "unless there was something to wait for")
		close(forever)
	}
	vsym.Reach("end")
	vsym.Done()
}

// H_Slow: who does not finish a request is disconnected in time, and the
// handler sees no part of it.
//
//vsym:all preempt=0 timers=20 lazy=1 delay=1 fuel=50000000 native=0
func H_Slow() {
	s := http.NewServer(c)
	calls := 0
	s.HandleRequest("/echo", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) {
		calls++
		return in, nil
	})
	a, err := s.Listen(c, "127.0.0.1:0")
	vsym.Assert(err == nil, "listening")
	whole := "POST /echo HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n\r\nabcde"
	k := dial(a)
	t0 := time.Now()
	cut := vsym.Choice("cut", len(whole))
	_, err = io.WriteString(k, whole[:cut])
	vsym.Assert(err == nil, "sent")
	b, _ := io.ReadAll(k)
	vsym.Assert(calls == 0, "a part of a request is none")
	vsym.Assert(len(b) == 0 || strings.HasPrefix(string(b), "HTTP/1.1 4"), "it is refused")
	vsym.Assert(time.Since(t0) <= 31*time.Second, "in time")
	vsym.Reach("end")
	vsym.Done()
}

// H_WebSocket: websockets go through the server as well, and keep it from shutting down until they are closed, by the
// client or with the context of the server.
//
//vsym:all race=1 preempt=0 timers=40 lazy=1 delay=1 fuel=50000000 native=8
//vsym:quick time=60
//vsym:thorough time=300
func H_WebSocket() {
	s := http.NewServer(c)
	h := ws.Handler{
		OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error { return conn.Send(c, n) },
	}
	s.Handle("/ws", h.Server())
	root, cf := context.WithCancel(c)
	a, err := s.Listen(root, "127.0.0.1:0")
	vsym.Assert(err == nil, "listening")
	k := dial(a)
	_, err = io.WriteString(k, "GET /ws HTTP/1.1\r\nHost: x\r\nOrigin: http://x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n")
	vsym.Assert(err == nil, "sent")
	res, err := gohttp.ReadResponse(k.r, nil)
	vsym.Assert(err == nil && res.StatusCode == 101 && res.Header.Get("Sec-Websocket-Accept") == "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=", "the handshake is answered")
	d := vsym.Byte("digit", '1', '9')
	for i := 0; i < 2; i++ {
		_, err = k.Write([]byte{0x81, 0x81, 1, 2, 3, 4, d ^ 1})
		vsym.Assert(err == nil, "sent")
		var f [3]byte
		_, err = io.ReadFull(k.r, f[:])
		vsym.Assert(err == nil && f == [3]byte{0x81, 1, d}, "a message is answered")
		if i == 0 {
			shutdown.Begin()
			vsym.Quiesce()
			select {
			case <-shutdown.Done():
				vsym.Fail("the shutdown waits for websockets")
			default:
			}
		}
	}
	if vsym.Bool("by the client") {
		k.Close()
	} else {
		cf()
		b, _ := io.ReadAll(k.r)
		vsym.Assert(len(b) >= 4 && b[0] == 0x88 && b[1] == 2, "the client is told goodbye")
	}
	<-shutdown.Done()
	<-shutdown.Started5Sec()
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "nothing is left running")
	vsym.Reach("end")
	vsym.Done()
}

// H_Ready: a server tells that it is alive, and as ready as it was told.
//
//vsym:all race=1 timers=0
//vsym:quick time=60 preempt=0 delay=2
//vsym:thorough time=300 preempt=1 delay=4
func H_Ready() {
	s := http.NewServer(c)
	a, err := s.Listen(c, "127.0.0.1:0")
	vsym.Assert(err == nil, "listening")
	k := dial(a)
	now := 204
	for i := 0; i < vsym.Bound("steps", 2, 3); i++ {
		switch vsym.Choice("step", 3) {
		case 0:
			now = []int{200, 204, 503}[vsym.Choice("code", 3)]
			s.SetReady(now)
		case 1:
			k.send("GET", "/ready", "")
			code, _, err := k.recv()
			vsym.Assert(err == nil && code == now, "as ready as it was told")
		case 2:
			k.send("GET", "/live", "")
			code, _, err := k.recv()
			vsym.Assert(err == nil && code == 204, "alive")
		}
	}
	vsym.Reach("end")
	vsym.Done()
}

type tag string

// H_Context: the requests of a server are made with its context, and are
// cancelled with it, or when the client is gone.
//
//vsym:all preempt=0 timers=0 delay=2 fuel=50000000
//vsym:quick time=60
//vsym:thorough time=300
func H_Context() {
	s := http.NewServer(c)
	root, cf := context.WithCancelCause(context.WithValue(c, tag("k"), "v"))
	began, ended := make(chan bool), make(chan bool)
	var cause error
	var addr *net.TCPAddr
	s.HandleRequest("/wait", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) {
		vsym.Assert(c.Value(tag("k")) == "v", "the context of the server is the parent")
		vsym.Assert(c.Err() == nil, "nothing is cancelled yet")
		tags := map[string]string{}
		ctx.RangeTag(c, func(k string, j ctx.JSON) error { tags[k] = string(j); return nil })
		vsym.Assert(tags["http.addr"] == fmt.Sprintf("%q", addr.String()), "its address is known")
		vsym.Assert(tags["http.remote"] != "", "and the one of the client")
		vsym.Assert(c.Value(gohttp.ServerContextKey) != nil, "and what serves it")
		began <- true
		<-c.Done()
		cause = context.Cause(c)
		ended <- true
		return nil, nil
	})
	a, err := s.Listen(root, "127.0.0.1:0")
	vsym.Assert(err == nil, "listening")
	addr = a
	k := dial(a)
	k.send("POST", "/wait", "x")
	<-began
	why := errors.New("why")
	gone := vsym.Bool("client is gone")
	if gone {
		k.Close()
	} else {
		cf(why)
	}
	<-ended
	vsym.Assert(gone || errors.Is(cause, why), "and the reason is known")
	vsym.Reach("end")
	vsym.Done()
}

// H_TakesLong: a request is answered however long its handler takes.
//
//vsym:all preempt=0 timers=8 lazy=1 delay=0 fuel=50000000 native=0
//vsym:quick time=30
//vsym:thorough time=200
func H_TakesLong() {
	s := http.NewServer(c)
	d := []time.Duration{time.Second, 6 * time.Second, 11 * time.Second, 29 * time.Second, 45 * time.Second, 3 * time.Minute}[vsym.Choice("takes", 6)]
	s.HandleRequest("/slow", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) {
		time.Sleep(d)
		return echo(c, in, r)
	})
	s.HandleRequest("/echo", echo)
	a, err := s.Listen(c, "127.0.0.1:0")
	vsym.Assert(err == nil, "listening")
	k := dial(a)
	if vsym.Bool("second") { // of its connection
		vsym.Assert(k.send("POST", "/echo", "first") == nil, "sent")
		code, _, err := k.recv()
		vsym.Assert(err == nil && code == 200, "the first is answered")
	}
	t0 := time.Now()
	vsym.Assert(k.send("POST", "/slow", "body") == nil, "sent")
	code, body, err := k.recv()
	vsym.Assert(err == nil && code == 200 && strings.Contains(body, "body"), "a request is answered, however long it takes")
	vsym.Assert(time.Since(t0) >= d, "when it is done")
	shutdown.Begin()
	<-shutdown.Done()
	vsym.Reach("end")
	vsym.Done()
}

// H_Headers: a request is answered also if it comes with long headers, or many
// of them, or to a long address.
//
//vsym:all preempt=0 timers=8 lazy=1 delay=0 fuel=80000000 native=6
func H_Headers() {
	s := http.NewServer(c)
	var got *gohttp.Request
	s.HandleRequest("/echo", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) {
		got = r
		return echo(c, in, r)
	})
	a, err := s.Listen(c, "127.0.0.1:0")
	vsym.Assert(err == nil, "listening")
	n := []int{10, 1000, 6000, 20000}[vsym.Choice("size", 4)]
	value := vsym.StringIn("first", 1, 1, "ab") + strings.Repeat("x", n)
	path, head := "/echo", ""
	kind := vsym.Choice("kind", 3)
	switch kind {
	case 0:
		head = "Authorization: " + value + "\r\n"
	case 1:
		for i := 0; i < n/50; i++ {
			head += "X-" + strconv.Itoa(i) + ": 0123456789012345678901234567890123456789\r\n"
		}
	default:
		path += "?q=" + value
	}
	k := dial(a)
	_, err = io.WriteString(k, "POST "+path+" HTTP/1.1\r\nHost: x\r\n"+head+"Content-Length: 4\r\n\r\nbody")
	vsym.Assert(err == nil, "sent")
	code, body, err := k.recv()
	vsym.Assert(err == nil && code == 200 && strings.Contains(body, "body"), "a request is answered, whatever comes with it")
	switch kind {
	case 0:
		vsym.Assert(got.Header.Get("Authorization") == value, "the handler sees the header")
	case 1:
		vsym.Assert(n < 50 || got.Header.Get("X-"+strconv.Itoa(n/50-1)) != "", "the handler sees all of them")
	default:
		vsym.Assert(got.URL.Query().Get("q") == value, "the handler sees the query")
	}
	shutdown.Begin()
	<-shutdown.Done()
	vsym.Reach("end")
	vsym.Done()
}
