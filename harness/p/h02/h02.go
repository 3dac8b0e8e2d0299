// Package h02: API operations over HTTP, from the client to the operation and
// back.
//
//vsym:assume the transport hands over requests and responses as they are
//vsym:outside the network, connections and the HTTP wire format; values longer than stated
package h02

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	gohttp "net/http"
	"net/url"
	"strings"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/http"
)

var c ctx.C = context.Background()

type rec struct {
	h    gohttp.Header
	code int
	body []byte
}

func (r *rec) Header() gohttp.Header { return r.h }
func (r *rec) WriteHeader(code int) {
	vsym.Assert(r.code == 0, "the status is written once")
	r.code = code
}
func (r *rec) Write(b []byte) (int, error) {
	if r.code == 0 {
		r.WriteHeader(200)
	}
	r.body = append(r.body, b...)
	return len(b), nil
}

// body counts whether it was closed.
type body struct {
	r      io.Reader
	closed *int
}

func (b body) Read(p []byte) (int, error) { return b.r.Read(p) }
func (b body) Close() error               { *b.closed++; return nil }

// wire is a transport to a server without a network.
type wire struct {
	s      *http.Server
	err    error
	calls  int
	open   int // responses
	closed int
	sent   []byte
	url    string
	status int // answer with this instead
	text   string
	mux    *gohttp.ServeMux
}

func (t *wire) RoundTrip(r *gohttp.Request) (*gohttp.Response, error) {
	t.calls++
	t.url = r.URL.String()
	if r.Body != nil {
		t.sent, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	if t.err != nil {
		return nil, t.err
	}
	w := &rec{h: gohttp.Header{}}
	if t.s == nil {
		w.code = t.status
		w.body = []byte(t.text)
	} else {
		r2 := &gohttp.Request{Method: r.Method, URL: &url.URL{Path: r.URL.Path}, Header: r.Header, Body: io.NopCloser(strings.NewReader(string(t.sent))), Host: "host", RequestURI: r.URL.Path, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
		t.s.Mux().ServeHTTP(w, r2.WithContext(c))
	}
	if w.code == 0 {
		w.code = 200
	}
	t.open++
	return &gohttp.Response{StatusCode: w.code, Status: gohttp.StatusText(w.code), Header: w.h, Body: body{strings.NewReader(string(w.body)), &t.closed}, Request: r}, nil
}

type Dep struct {
	err error
	any any
}

type Op struct {
	R   api.Request `url:"/op"`
	In  string      `api:"in,required" json:"in"`
	N   int         `api:"both" json:"n"`
	Out string      `api:"out" json:"out"`
	Any any         `api:"out" json:"any"`
	Dep *Dep
}

func (o *Op) Do(c ctx.C) error {
	o.Out = "<" + o.In + ">"
	o.N++
	o.Any = o.Dep.any
	return o.Dep.err
}

const secret = "s3cret"

func serve(dep *Dep) (*http.Server, *wire) {
	s := http.NewServer(c)
	pi, err := s.RegisterAPI(c, &Op{Dep: dep, In: "init", N: 1000})
	vsym.Assert(err == nil && pi != nil, "registered")
	vsym.Assert(s.OpenAPI.Paths["/op"] != nil && s.OpenAPI.Paths["/op"].Post == pi, "and documented")
	t := &wire{s: s}
	gohttp.DefaultTransport = t
	return s, t
}

// H_Trip: an operation called through a client runs at the server with the
// same inputs and its outputs come back; nothing stays open.
//
//vsym:quick time=90
func H_Trip() {
	_, t := serve(&Dep{})
	in := "i" + vsym.StringIn("in", 0, 2, "a\"<")
	n := int(vsym.Int64("n", -99, 99))
	op := &Op{In: in, N: n, Out: "old"}
	cli := http.Client{}
	if vsym.Bool("base") {
		cli.BaseUrl, _ = url.Parse("http://host:99/")
	}
	err := cli.API(c, op)
	vsym.Assert(err == nil, "called")
	vsym.Assert(op.In == in && op.N == n+1 && op.Out == "<"+in+">", "inputs arrive, outputs come back")
	vsym.Assert(t.calls == 1 && t.open == t.closed, "one request, and nothing stays open")
	if cli.BaseUrl != nil {
		vsym.Assert(t.url == "http://host:99/op", "at the base url")
	}
	vsym.Reach("end")
}

var errDo = errors.New(secret)

// H_Errors: what the operation or the transport fail with is an error at the
// client with its status, and the operation there is not changed.
//
//vsym:quick time=90
func H_Errors() {
	dep := &Dep{}
	_, t := serve(dep)
	op := &Op{In: "in", N: 5, Out: "old"}
	code := 0
	switch vsym.Choice("what", 5) {
	case 4: // can't be answered
		dep.any = []any{make(chan int), func() {}, map[bool]int{true: 1}, []any{1, make(chan int)}}[vsym.Choice("any", 4)]
		code = 500
	case 0:
		dep.err = errDo
		code = 500
	case 1:
		code = []int{400, 401, 403, 404, 409, 500, 503, 302}[vsym.Choice("code", 8)]
		dep.err = http.NewErrorf(c, code, "%s", secret)
	case 2:
		op.In = ""
		code = 400
	default:
		t.err = errDo
	}
	err := http.Client{}.API(c, op)
	vsym.Assert(err != nil, "an error")
	if code == 0 {
		vsym.Assert(errors.Is(err, errDo), "the error of the transport")
	} else {
		vsym.Assert(http.ErrorCode(err, 0) == code, "the status of the error")
		vsym.Assert(!strings.Contains(err.Error(), secret), "internals are not told")
	}
	vsym.Assert(op.N == 5 && op.Out == "old", "the operation is not changed")
	vsym.Assert(t.open == t.closed, "nothing stays open")
	vsym.Reach("end")
}

// H_Body: what is no request is refused as the client's fault before the
// operation runs.
//
//vsym:quick time=60
func H_Body() {
	dep := &Dep{err: errDo}
	s, _ := serve(dep)
	docs := []string{"{", "[]", "null", `"x"`, "{}", `{"in":3}`, `{"in":"x","n":"y"}`, `{"n":1}`, `{"in":""}`, `{"in":"x"} {}`, "", `{"in":"x","n":1.5}`, `{"in":"x","n":1e30}`}
	ok := map[string]bool{`{"in":3}`: true, `{"in":"x","n":1.5}`: true} // be forgiving
	d := docs[vsym.Choice("doc", len(docs))]
	w := &rec{h: gohttp.Header{}}
	r := &gohttp.Request{Method: "POST", URL: &url.URL{Path: "/op"}, Header: gohttp.Header{}, Body: io.NopCloser(strings.NewReader(d)), Host: "host", RequestURI: "/op", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	s.Mux().ServeHTTP(w, r.WithContext(c))
	if ok[d] {
		vsym.Assert(w.code == 500, "the operation runs")
	} else {
		vsym.Assert(w.code == 400, "what is no request is refused")
		var m map[string]any
		vsym.Assert(json.Unmarshal(w.body, &m) == nil && m["error"] != nil, "and says why")
	}
	vsym.Reach("end")
}

// H_Client: plain requests: success is 200 and 204, everything else is an
// error with the status; nothing stays open.
//
//vsym:quick time=60
func H_Client() {
	t := &wire{status: int(vsym.Int64("status", 200, 599)), text: vsym.StringIn("text", 0, 2, "ab")}
	switch t.status {
	case 301, 302, 303, 307, 308:
		vsym.Done() // redirects
	}
	gohttp.DefaultTransport = t
	if vsym.Bool("fails") {
		t.err = errDo
	}
	var out []byte
	var err error
	post := vsym.Bool("post")
	if post {
		out, err = http.Client{}.Post(c, "http://host/x?y", []byte("sent"))
		vsym.Assert(string(t.sent) == "sent", "the body is sent")
	} else {
		out, err = http.Client{}.Get(c, "http://host/x?y")
	}
	vsym.Assert(t.calls == 1 && t.url == "http://host/x?y", "one request")
	switch {
	case t.err != nil:
		vsym.Assert(errors.Is(err, errDo), "the error of the transport")
	case t.status == 200 || t.status == 204:
		vsym.Assert(err == nil && string(out) == t.text, "the answer")
	default:
		vsym.Assert(err != nil && http.ErrorCode(err, 0) == t.status, "an error with the status")
	}
	vsym.Assert(t.open == t.closed, "nothing stays open")
	vsym.Reach("end")
}

type Lax struct {
	R   api.Request `url:"/lax"`
	S   api.Request `url:"/lax2"`
	A   int         `api:"in" json:"a" url:"/lax/3"`
	T   api.Request `url:"/lax/4"`
	Dep *int
}

func (o *Lax) Do(ctx.C) error { *o.Dep++; return nil }

// H_Lax: what is no request is refused, also if nothing is required; an
// operation without a result answers so; it is served at each of its paths.
//
//vsym:quick time=60
func H_Lax() {
	n := 0
	s := http.NewServer(c)
	pi := s.MustRegisterAPI(c, &Lax{Dep: &n})
	vsym.Assert(pi != nil && s.OpenAPI.Paths["/lax"].Post == pi && s.OpenAPI.Paths["/lax2"].Post == pi, "documented")
	docs := []string{"", "{}", `{"a":1}`, "{", "[]", "null", `"x"`, `{"a":"x"}`, `{} {}`, " "}
	i := vsym.Choice("doc", len(docs)+1)
	path := []string{"/lax", "/lax2", "/lax/3", "/lax/4"}[vsym.Choice("path", 4)]
	vsym.Assert(s.OpenAPI.Paths[path] != nil && s.OpenAPI.Paths[path].Post == pi, "each of them")
	w := &rec{h: gohttp.Header{}}
	r := &gohttp.Request{Method: "POST", URL: &url.URL{Path: path}, Header: gohttp.Header{}, Host: "host", RequestURI: path, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if i < len(docs) {
		r.Body = io.NopCloser(strings.NewReader(docs[i]))
	}
	s.Mux().ServeHTTP(w, r.WithContext(c))
	if i < 3 || i == len(docs) {
		vsym.Assert(n == 1 && (w.code == 200 && string(w.body) == "{}" || w.code == 204 && len(w.body) == 0), "the operation runs once")
	} else {
		vsym.Assert(n == 0 && w.code == 400, "what is no request is refused")
	}
	vsym.Reach("end")
}

type NoURL struct {
	A int `api:"in" json:"a"`
}
type TwoAuth struct {
	R api.Request `url:"/two"`
	A string      `api:"auth"`
	B string      `api:"auth"`
}
type ChanIn struct {
	R api.Request `url:"/in"`
	A chan int    `api:"in" json:"a"`
}
type ChanOut struct {
	R api.Request `url:"/out"`
	A chan int    `api:"out" json:"a"`
}
type ByValue struct {
	R api.Request `url:"/value"`
}

func (o *NoURL) Do(ctx.C) error   { return nil }
func (o *TwoAuth) Do(ctx.C) error { return nil }
func (o *ChanIn) Do(ctx.C) error  { return nil }
func (o *ChanOut) Do(ctx.C) error { return nil }
func (o ByValue) Do(ctx.C) error  { return nil }

// H_Register: what can't be served or called is refused.
//
//vsym:quick time=60
func H_Register() {
	s := http.NewServer(c)
	gohttp.DefaultTransport = &wire{status: 204}
	op := []http.Doable{&NoURL{}, &TwoAuth{}, &ChanIn{}, &ChanOut{}, ByValue{}}[vsym.Choice("operation", 5)]
	switch vsym.Choice("how", 3) {
	case 0:
		_, err := s.RegisterAPI(c, op)
		vsym.Assert(err != nil, "refused")
	case 1:
		vsym.Assert(panics(func() { s.MustRegisterAPI(c, op) }), "refused")
	default:
		switch op.(type) {
		case *ChanOut: // until it answers
		default:
			vsym.Assert(http.Client{}.API(c, op) != nil, "refused")
		}
	}
	vsym.Reach("end")
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

type Queried struct {
	R api.Request `url:"/q%2Fx/y?a=%26&b"`
	A int         `api:"in" json:"a"`
}

func (o *Queried) Do(ctx.C) error { return nil }

// H_Query: the whole url of the operation is used, relative to the base if
// there is any.
//
//vsym:quick time=60
func H_Query() {
	t := &wire{status: 204}
	gohttp.DefaultTransport = t
	cli := http.Client{}
	base := []string{"", "http://host:99/", "http://host:99/base/", "https://user@host?z"}[vsym.Choice("base", 4)]
	if base != "" {
		cli.BaseUrl, _ = url.Parse(base)
	}
	err := cli.API(c, &Queried{A: 1})
	if base != "" {
		base = strings.TrimSuffix(strings.TrimSuffix(strings.TrimSuffix(base, "?z"), "/base/"), "/")
		vsym.Assert(err == nil, "called")
		vsym.Assert(cli.BaseUrl.Path == "/" || cli.BaseUrl.Path == "/base/" || cli.BaseUrl.Path == "", "the base is not changed")
	}
	vsym.Assert(t.calls == 1 && t.url == base+"/q%2Fx/y?a=%26&b", "at the url of the operation")
	vsym.Assert(t.open == t.closed, "nothing stays open")
	vsym.Reach("end")
}
