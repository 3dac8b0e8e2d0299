// Package h01: what an HTTP client gets for what a handler returns.
//
//vsym:assume error codes are between 200 and 999
//vsym:outside the network, connections and the HTTP wire format; bodies longer than stated
package h01

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	gohttp "net/http"
	"net/url"
	"strings"
	"time"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/http"
)

var c ctx.C = context.Background()

// rec records a response as a client would get it.
type rec struct {
	h      gohttp.Header
	code   int
	sent   gohttp.Header
	body   []byte
	writes int
	early  int
}

func (r *rec) Header() gohttp.Header { return r.h }
func (r *rec) WriteHeader(code int) {
	vsym.Assert(code >= 100 && code <= 999, "a valid status")
	vsym.Assert(r.code == 0, "the status is written once")
	if code < 200 && code != 101 { // not the last word
		r.early++
		return
	}
	r.code = code
	r.sent = r.h.Clone()
}
func (r *rec) Write(b []byte) (int, error) {
	if r.code == 0 {
		r.WriteHeader(200)
	}
	r.writes++
	r.body = append(r.body, b...)
	return len(b), nil
}

// body is a request body which may fail.
type body struct {
	b      []byte
	err    error
	closed int
}

func (b *body) Read(p []byte) (int, error) {
	if len(b.b) == 0 {
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	n := copy(p, b.b)
	b.b = b.b[n:]
	return n, nil
}
func (b *body) Close() error { b.closed++; return nil }

func call(s *http.Server, method, path string, b io.ReadCloser, h gohttp.Header, c ctx.C) *rec {
	r := &gohttp.Request{Method: method, URL: &url.URL{Path: path}, Header: h, Body: b, Host: "host", RequestURI: path, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	w := &rec{h: gohttp.Header{}}
	s.Mux().ServeHTTP(w, r.WithContext(c))
	if w.code == 0 {
		w.WriteHeader(200) // as net/http does
	}
	return w
}

var errRead = errors.New("broken body")

const secret = "s3cret-detail"

// failure makes any error a handler may return, and the status it stands for.
func failure() (err error, code int) {
	code = 500
	switch vsym.Choice("error", 3) {
	case 0:
		err = errors.New(secret)
	case 1:
		code = int(vsym.Int64("code", 200, 999))
		err = http.NewErrorf(c, code, "%s", secret)
	default:
		code = int(vsym.Int64("code", 200, 999))
		err = http.Error{Code: code, Err: errors.New(secret)}
	}
	switch vsym.Choice("wrap", 6) {
	case 4:
		err = fmt.Errorf("%w: %w", errRead, err)
	case 5:
		err = ctx.WrapError(c, errors.Join(errRead, err))
	case 1:
		err = fmt.Errorf("wrapped: %w", err)
	case 2:
		err = ctx.WrapError(c, err)
	case 3:
		err = ctx.NewErrorf(c, "wrapped: %w", fmt.Errorf("twice: %w", err))
	}
	return
}

// H_Code: the code of an error is found however it is wrapped, the innermost
// default otherwise.
//
//vsym:quick time=60
func H_Code() {
	err, code := failure()
	def := int(vsym.Int64("default", 100, 599))
	got := http.ErrorCode(err, def)
	var e http.Error
	if errors.As(err, &e) {
		vsym.Assert(got == code && e.Code == code, "the code of the error")
	} else {
		vsym.Assert(got == def, "the default")
	}
	vsym.Assert(strings.Contains(err.Error(), secret), "the message is kept")
	vsym.Assert(http.ErrorCode(nil, def) == def, "no error has no code")
	vsym.Reach("end")
}

// H_Failure: a handler's error is answered with its status; its text is told
// to the client below 500, and never from 500 on; the tracking id always is.
//
//vsym:quick time=90
func H_Failure() {
	s := http.NewServer(c)
	err, code := failure()
	s.HandleRequest("/path", func(ctx.C, []byte, *gohttp.Request) ([]byte, error) {
		return []byte("partial " + secret), err
	})
	cc := c
	tracked := vsym.Bool("tracked")
	if tracked {
		cc = ctx.WithTracking(c, "track")
	}
	w := call(s, "POST", "/path", &body{}, gohttp.Header{}, cc)
	vsym.Assert(w.code == code, "the status of the error")
	var m map[string]any
	vsym.Assert(json.Unmarshal(w.body, &m) == nil, "the answer is one JSON object")
	if tracked {
		vsym.Assert(m["tracking"] == "track", "with the tracking id")
	}
	if code < 500 {
		vsym.Assert(m["error"] == err.Error(), "a client error is told")
	} else {
		vsym.Assert(m["error"] == nil && !strings.Contains(string(w.body), secret), "internals are never told")
	}
	vsym.Reach("end")
}

// H_Success: what a handler returns is what the client gets, as JSON, nothing
// is 204, and the handler gets what the client sent.
//
//vsym:quick time=60
func H_Success() {
	s := http.NewServer(c)
	in := vsym.StringIn("in", 0, 3, "ab\x00")
	out := vsym.StringIn("out", 0, 3, "{}1\x00")
	if vsym.Bool("literal") { // nothing, for some, but not here
		out = []string{"null", `""`, "[]", "false", " ", "{ }"}[vsym.Choice("which", 6)]
	}
	calls := 0
	s.HandleRequest("/path", func(cc ctx.C, b []byte, r *gohttp.Request) ([]byte, error) {
		calls++
		vsym.Assert(string(b) == in, "the handler gets what was sent")
		vsym.Assert(r.Method == "POST" && cc.Value("k") == "v", "and the request it came with")
		return []byte(out), nil
	})
	var b io.ReadCloser
	if in != "" || vsym.Bool("body") {
		b = &body{b: []byte(in)}
	}
	h := gohttp.Header{}
	if vsym.Bool("gzip") {
		h.Set("Accept-Encoding", "gzip")
	}
	w := call(s, "POST", "/path", b, h, ctx.WithValue(c, "k", "v"))
	vsym.Assert(calls == 1, "called once")
	if out == "" {
		vsym.Assert(w.code == 204 && len(w.body) == 0, "nothing is 204")
	} else {
		vsym.Assert(w.code == 200 && string(w.body) == out, "the answer is what the handler returned")
		vsym.Assert(w.sent.Get("Content-Type") == "application/json" && w.sent.Get("Content-Encoding") == "", "as JSON")
	}
	vsym.Reach("end")
}

// H_Large: a large answer is compressed for those who accept it, and the same.
//
//vsym:quick time=90 fuel=400000000 native=4
func H_Large() {
	s := http.NewServer(c)
	n := 16*1024 + []int{-1, 0, 1, 1 << 17}[vsym.Choice("size", 4)]
	out := []byte(strings.Repeat("x", n))
	if n > 16*1024 {
		out[vsym.Choice("at", 3)*(n-1)/2] = 'y'
	}
	s.HandleRequest("/path", func(ctx.C, []byte, *gohttp.Request) ([]byte, error) { return out, nil })
	h := gohttp.Header{}
	if vsym.Bool("type") { // what type is accepted is another matter
		h.Set("Accept", "application/json, application/gzip")
	}
	accepts := false
	if e := vsym.Choice("encoding", 12); e > 0 {
		codings := []string{"gzip", "gzip, deflate, br", "br;q=1.0, gzip;q=0.5", "deflate , GZIP", "gzip;q=1", // these do
			"br", "identity", "gzip;q=0", "br, gzip; q=0.0, deflate", "bgzip", ""}
		h.Set("Accept-Encoding", codings[e-1])
		accepts = e <= 5
	}
	w := call(s, "POST", "/path", &body{}, h, c)
	vsym.Assert(w.code == 200 && w.sent.Get("Content-Type") == "application/json", "an answer")
	got := w.body
	if w.sent.Get("Content-Encoding") != "" {
		vsym.Assert(accepts && w.sent.Get("Content-Encoding") == "gzip", "compressed only when accepted")
		r, err := gzip.NewReader(bytes.NewReader(w.body))
		vsym.Assert(err == nil, "it is")
		got, err = io.ReadAll(r)
		vsym.Assert(err == nil, "all of it")
	}
	vsym.Assert(bytes.Equal(got, out), "the same")
	vsym.Reach("end")
}

// H_BrokenBody: a body that can't be read is the client's fault, and the
// handler is not called.
//
//vsym:quick time=60
func H_BrokenBody() {
	s := http.NewServer(c)
	calls := 0
	kind := vsym.Choice("kind", 2)
	if kind == 0 {
		s.HandleRequest("/path", func(ctx.C, []byte, *gohttp.Request) ([]byte, error) { calls++; return nil, nil })
	} else {
		http.CallHandler{Path: "/path", Handler: func(ctx.C, *http.Call) error { calls++; return nil }}.Register(s)
	}
	w := call(s, "POST", "/path", &body{b: []byte(vsym.StringIn("in", 0, 2, "ab")), err: errRead}, gohttp.Header{}, c)
	vsym.Assert(w.code == 400 && calls == 0, "a broken body is a bad request")
	vsym.Reach("end")
}

// stuck is a body that never comes, until it is closed.
type stuck struct{ closed chan bool }

func (s stuck) Read([]byte) (int, error) { <-s.closed; return 0, errRead }
func (s stuck) Close() error {
	select {
	case <-s.closed:
	default:
		close(s.closed)
	}
	return nil
}

// H_Slow: a body that does not come in time is a bad request, no sooner.
//
//vsym:quick time=60
func H_Slow() {
	s := http.NewServer(c)
	calls := 0
	d := time.Duration(vsym.Int64("timeout", 1, 1000))
	http.CallHandler{Path: "/path", ReadTimeout: d, Handler: func(ctx.C, *http.Call) error { calls++; return nil }}.Register(s)
	t := vsym.ClockNow()
	w := call(s, "POST", "/path", stuck{make(chan bool)}, gohttp.Header{}, c)
	vsym.Assert(w.code == 400 && calls == 0, "a body that does not come is a bad request")
	vsym.Assert(vsym.ClockNow()-t >= d, "no sooner than the timeout")
	vsym.Reach("end")
}

// H_SlowDefault: if there is no timeout, or a negative one, it is 30 seconds,
// for the handler as well.
//
//vsym:all native=0
//vsym:quick time=60
func H_SlowDefault() {
	s := http.NewServer(c)
	d := 30 * time.Second
	set := time.Duration(0)
	switch vsym.Choice("timeout", 3) {
	case 1:
		set = -time.Second
	case 2:
		d = time.Duration(vsym.Int64("d", 1, int64(time.Hour)))
		set = d
	}
	var t0 time.Time
	calls := 0
	http.CallHandler{Path: "/path", ReadTimeout: set, Handler: func(c ctx.C, _ *http.Call) error {
		calls++
		at, ok := c.Deadline()
		vsym.Assert(ok, "there is a deadline")
		vsym.Assert(at.Sub(t0) >= d, "the deadline is not sooner than the timeout")
		vsym.Assert(at.Sub(t0) < d+time.Millisecond, "nor later")
		<-c.Done()
		return c.Err()
	}}.Register(s)
	t0 = time.Now()
	w := call(s, "POST", "/path", &body{}, gohttp.Header{}, c)
	vsym.Assert(calls == 0 && w.code == 400 || calls == 1 && w.code == 500, "it is over")
	vsym.Assert(time.Since(t0) >= d, "not before")
	if calls == 1 {
		vsym.Reach("ran")
	}
	vsym.Reach("end")
}

// H_Limit: a body longer than the limit is refused as such, and no other. The
// deadline of the call does not pass.
//
//vsym:all timers=0
//vsym:quick time=60
func H_Limit() {
	max := 1 + vsym.Choice("max", 3)
	limit(max, max, []byte(vsym.StringIn("in", 0, 5, "ab")))
	vsym.Reach("end")
}

// H_LimitDefault: if there is no limit it is 1Mb.
//
//vsym:all timers=0 preempt=0
//vsym:quick time=60
func H_LimitDefault() {
	n := 1024 * 1024
	limit(vsym.Choice("max", 2)-1, n, bytes.Repeat([]byte("x"), n+1-vsym.Choice("below", 2)))
	vsym.Reach("end")
}

func limit(max, limit int, in []byte) {
	s := http.NewServer(c)
	calls := 0
	http.CallHandler{Path: "/path", MaxLength: max, Handler: func(ctx.C, *http.Call) error { calls++; return nil }}.Register(s)
	w := call(s, "POST", "/path", &body{b: in}, gohttp.Header{}, c)
	if len(in) > limit {
		vsym.Assert(w.code == 413 && calls == 0, "a body longer than the limit is refused")
	} else {
		vsym.Assert(w.code == 204 && calls == 1, "any other is not")
	}
}

// H_Call: the same for call handlers, with what was written so far. The
// deadline of the call does not pass.
//
//vsym:all timers=0
//vsym:quick time=60
func H_Call() {
	s := http.NewServer(c)
	parts := vsym.Choice("parts", 3)
	fails := vsym.Bool("fails")
	var err error
	code := 200
	if fails {
		err, code = failure()
	}
	want, buf := "", []byte{}
	http.CallHandler{Path: "/path", Handler: func(cc ctx.C, call *http.Call) error {
		_, has := cc.Deadline()
		vsym.Assert(has && cc.Err() == nil, "a call has a deadline")
		if vsym.Bool("set") {
			call.SetBody([]byte("old"))
			call.SetBody([]byte("set"))
			want = "set"
		}
		for i := 0; i < parts; i++ {
			p := vsym.StringIn(fmt.Sprintf("part%d", i), 0, 1, "ab")
			buf = append(buf[:0], p...)
			call.Write(buf)
			copy(buf, "!!!!!!!!") // is reused for the next one
			want += p
		}
		if fails {
			call.Write([]byte("partial " + secret))
		}
		return err
	}}.Register(s)
	w := call(s, "GET", "/path", &body{}, gohttp.Header{}, c)
	switch {
	case fails:
		vsym.Assert(w.code == code, "the status of the error")
		vsym.Assert(!strings.Contains(string(w.body), "partial"), "what was written before is no answer")
		vsym.Assert(code < 500 || !strings.Contains(string(w.body), secret), "internals are never told")
	case want == "":
		vsym.Assert(w.code == 204 && len(w.body) == 0, "nothing is 204")
	default:
		vsym.Assert(w.code == 200 && string(w.body) == want, "everything written, in order")
	}
	vsym.Reach("end")
}

// H_Once: of several statuses a handler writes the first is the one, and what
// it writes is what the client gets.
//
//vsym:quick time=60
func H_Once() {
	s := http.NewServer(c)
	ops := vsym.Choice("ops", 4)
	code, early := 0, 0
	want := ""
	s.HandleFunc("/path", func(w gohttp.ResponseWriter, r *gohttp.Request) {
		vsym.Assert(r.URL.Path == "/path", "the request")
		for i := 0; i < ops; i++ {
			switch vsym.Choice("what", 3) {
			case 2: // a hint comes before the status, and is none
				if code == 0 {
					early++
				}
				w.WriteHeader(102 + vsym.Choice("hint", 2))
			case 1:
				x := int(vsym.Int64("code", 200, 599))
				w.WriteHeader(x)
				if code == 0 {
					code = x
				}
			default:
				data := []string{"data", ""}[vsym.Choice("data", 2)]
				n, err := w.Write([]byte(data))
				vsym.Assert(n == len(data) && err == nil, "written")
				want += data
				if code == 0 {
					code = 200
				}
			}
		}
	})
	w := call(s, "GET", "/path", nil, gohttp.Header{}, c)
	if code == 0 {
		code = 200
	}
	vsym.Assert(w.code == code && string(w.body) == want, "the first status and all data")
	vsym.Assert(w.early == early, "hints before it")
	vsym.Reach("end")
}

// H_Health: alive means alive, ready is what was set last.
//
//vsym:quick time=60
func H_Health() {
	s := http.NewServer(c)
	w := call(s, "GET", "/live", nil, gohttp.Header{}, c)
	vsym.Assert(w.code == 204 && len(w.body) == 0, "alive")
	ready := 204
	for i := vsym.Choice("sets", 3); i > 0; i-- {
		ready = int(vsym.Int64("ready", 200, 599))
		s.SetReady(ready)
	}
	w = call(s, "GET", "/ready", nil, gohttp.Header{}, c)
	vsym.Assert(w.code == ready && len(w.body) == 0, "ready is what was set last")
	w = call(s, "GET", "/live", nil, gohttp.Header{}, c)
	vsym.Assert(w.code == 204, "alive anyway")
	w = call(s, "GET", "/nothing", nil, gohttp.Header{}, c)
	vsym.Assert(w.code == 404, "nothing else is there")
	vsym.Reach("end")
}
