// Package o01: the OpenAPI document describes the data.
//
//vsym:outside types other than the ones below; interfaces, json.RawMessage and enc.Node, whose schema says nothing about their content; longer values and tags than stated
package o01

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"math/big"
	gohttp "net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/api/openapi"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http"
)

var c ctx.C = context.Background()

type Leaf struct {
	I    int     `json:"i"`
	S    string  `json:"s,omitempty"`
	F    float64 `doc:"a float"`
	B    bool
	U    uint8  `json:",omitempty"`
	Skip func() `json:"-"`
	priv chan int
}

type Amount struct{ v int }

func (a Amount) MarshalJSON() ([]byte, error) { return []byte(strconv.Itoa(a.v)), nil }

type Temp struct{ v int } // the zero value is -273

func (a Temp) MarshalJSON() ([]byte, error) { return []byte(strconv.Itoa(a.v - 273)), nil }

type Word int

func (w Word) MarshalJSON() ([]byte, error) { return json.Marshal("w" + strconv.Itoa(int(w))) }

type Flag struct{ no bool }

func (f Flag) MarshalNode(ctx.C) (enc.Node, error) { return enc.Bool(!f.no), nil }

type Box[T any] struct {
	V T `json:"v"`
}

type Inner struct{ X int }

type Tree struct {
	Name   string           `json:"name"`
	Next   *Tree            `json:"next,omitempty"`
	Kids   []Tree           `json:"kids"`
	ByName map[string]*Tree `json:"by"`
	Leaf   *Leaf
}

type Mixed struct {
	T     time.Time
	ET    enc.Time
	D     time.Duration
	ED    enc.Duration
	A     Amount `example:"1.5"`
	Temp  Temp
	W     Word `json:"w"`
	Fl    Flag `example:"true"`
	Ints  map[int]Leaf
	Two   [2]int
	L     []string `json:"list" example:"[\"a\"]"`
	Any   any
	Pairs enc.Pairs
	Anon  struct {
		A int  `json:"a"`
		P *int `json:"p"`
		q int
	}
	Inner
}

type Generic struct {
	A Box[int]
	B Box[map[string]int]
	C Box[Box[string]]
	D *Box[[]Inner]
}

// conforms tells what is wrong with a value according to its schema.
func conforms(s *openapi.Service, sc *openapi.Schema, n enc.Node) string {
	if sc == nil {
		return "no schema"
	}
	for _, all := range sc.AllOf {
		if bad := conforms(s, all, n); bad != "" {
			return bad
		}
	}
	if sc.Reference != "" {
		to := s.Components.Schemas[strings.TrimPrefix(sc.Reference, "#/components/schemas/")]
		if to == nil {
			return "dangling " + sc.Reference
		}
		return conforms(s, to, n)
	}
	if sc.AllOf != nil {
		return ""
	}
	if n == (enc.Node)(enc.Nil{}) {
		return "" // pointers, slices and maps may be null
	}
	switch n := n.(type) {
	case enc.Nil:
		return ""
	case enc.Bool:
		if sc.Type != "boolean" {
			return "a boolean and not " + sc.Type
		}
	case enc.Integer, enc.Float, enc.Digits:
		if sc.Type != "number" && sc.Type != "integer" {
			return "a number and not " + sc.Type
		}
	case enc.String:
		if sc.Type != "string" {
			return "a string and not " + sc.Type
		}
	case enc.Time:
		if sc.Type != "string" {
			return "a time and not " + sc.Type
		}
	case enc.Duration:
		if sc.Type != "number" && sc.Type != "string" {
			return "a duration and not " + sc.Type
		}
	case enc.List:
		if sc.Type == "object" && sc.Properties == nil && sc.AdditionalProps == nil && sc.Format == "" {
			return "" // anything
		}
		if sc.Type != "array" {
			return "a list and not " + sc.Type
		}
		for _, e := range n {
			if bad := conforms(s, sc.Items, e); bad != "" {
				return "[]" + bad
			}
		}
	case enc.Pairs:
		return conforms(s, sc, n.AsMap())
	case enc.Map:
		if sc.Type != "object" {
			return "an object and not " + sc.Type
		}
		for k, v := range n {
			p := sc.Properties[k]
			if p == nil {
				p = sc.AdditionalProps
			}
			if p == nil {
				if sc.Properties != nil {
					return "property " + k + " is not known"
				}
				continue
			}
			if bad := conforms(s, p, v); bad != "" {
				return k + ": " + bad
			}
		}
		for _, k := range sc.Required {
			if n[k] == nil {
				return "required " + k + " is missing"
			}
		}
	default:
		return "not JSON"
	}
	return ""
}

// refs checks all the references of the document, and its keys.
func refs(s *openapi.Service, sc *openapi.Schema) {
	if sc == nil {
		return
	}
	if sc.Reference != "" {
		k := strings.TrimPrefix(sc.Reference, "#/components/schemas/")
		vsym.Assert(s.Components.Schemas[k] != nil, "a reference refers to something")
	}
	for _, a := range sc.AllOf {
		refs(s, a)
	}
	for _, p := range sc.Properties {
		refs(s, p)
	}
	refs(s, sc.Items)
	refs(s, sc.AdditionalProps)
}

func document(s *openapi.Service) {
	for k, sc := range s.Components.Schemas {
		for _, r := range k {
			vsym.Assert(r == '.' || r == '-' || r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z', "the key of a component is valid")
		}
		refs(s, sc)
	}
}

// decoded is what a client gets of a value.
func decoded(v any) enc.Node {
	j, err := enc.MarshalJSON(c, v)
	vsym.Assert(err == nil, "the value has a JSON form")
	n, err := enc.JSON{}.Decode(c, j)
	vsym.Assert(err == nil, "which is valid")
	return n
}

func check(v any) *openapi.Service {
	s := openapi.NewService("x")
	sc, err := s.SchemaFromType(c, reflect.TypeOf(v), nil)
	vsym.Assert(err == nil && sc != nil, "there is a schema")
	bad := conforms(s, sc, decoded(v))
	if bad != "" {
		vsym.ObserveStr("bad", bad)
	}
	vsym.Assert(bad == "", "the data conforms to the schema")
	document(s)
	return s
}

func leaf(name string) Leaf {
	return Leaf{
		I: vsym.Int(name+" i", -3, 3),
		S: vsym.StringIn(name+" s", 0, 1, "x"),
		F: []float64{0, -1, 2.5, 1e300}[vsym.Choice(name+" f", 4)],
		B: vsym.Bool(name + " b"),
		U: vsym.Byte(name+" u", 0, 255),
	}
}

// H_Leaf: fields are described with the name and the type they have in the
// data, and nothing else is.
//
//vsym:all native=8
func H_Leaf() {
	v := leaf("v")
	s := check(v)
	var sc *openapi.Schema
	for _, sc = range s.Components.Schemas {
	}
	vsym.Assert(len(s.Components.Schemas) == 1, "one type, one schema")
	vsym.Assert(len(sc.Properties) == 5, "the fields in the data are described, and no other")
	for _, k := range []string{"i", "s", "F", "B", "U"} {
		vsym.Assert(sc.Properties[k] != nil, "by the name they have in the data")
	}
	vsym.Assert(sc.Properties["F"].Description == "a float", "with their documentation")
	for _, p := range []any{&v, []Leaf{v, v}, map[string]Leaf{"a": v}, [1]*Leaf{&v}} {
		check(p)
	}
	vsym.Reach("leaf")
}

func tree(name string, depth int) *Tree {
	if depth == 0 || vsym.Bool(name+" is nil") {
		return nil
	}
	t := &Tree{Name: vsym.StringIn(name+" name", 0, 1, "x")}
	t.Next = tree(name+".next", depth-1)
	if k := tree(name+".kid", depth-1); k != nil {
		t.Kids = []Tree{*k, *k}
		t.ByName = map[string]*Tree{"k": k, "nil": nil}
	}
	if vsym.Bool(name + " has leaf") {
		t.Leaf = &Leaf{I: 1}
	}
	return t
}

// H_Tree: recursive types.
//
//vsym:all native=8
func H_Tree() {
	v := tree("t", vsym.Bound("depth", 2, 3))
	s := check(v)
	vsym.Assert(len(s.Components.Schemas) == 2, "each type once")
	vsym.Reach("tree")
}

// H_Mixed: the types which are marshalled in a special way.
//
//vsym:all native=8
func H_Mixed() {
	var v Mixed
	v.A.v = vsym.Int("amount", -1, 1)
	v.Temp.v = []int{0, 273, 400}[vsym.Choice("temp", 3)]
	v.W = Word(v.A.v)
	v.Fl.no = vsym.Bool("flag")
	v.D = []time.Duration{-5, 0, 90 * time.Minute}[vsym.Choice("duration", 3)]
	v.ED = enc.Duration(v.D)
	v.T = time.Unix(1700000000, 0).UTC()
	v.ET = enc.Time(v.T)
	some := vsym.Choice("some", 5)
	if some == 0 || some == 4 {
		v.Ints = map[int]Leaf{v.A.v: {I: 1}}
	}
	if some == 1 || some == 4 {
		v.L = []string{"a", ""}
	}
	if some == 2 || some == 4 {
		v.Pairs = enc.Pairs{{Name: "a", JSON: "a", Value: enc.Integer(1)}}
	}
	if some == 3 || some == 4 {
		v.Anon.P = &v.X
	}
	check(v)
	vsym.Reach("mixed")
}

// H_Generic: generic types are as good as any other.
//
//vsym:all native=8
func H_Generic() {
	var v Generic
	v.A.V = vsym.Int("a", -1, 1)
	if vsym.Bool("b") {
		v.B.V = map[string]int{"x": 1}
	}
	v.C.V.V = vsym.StringIn("c", 0, 1, "x")
	if vsym.Bool("d") {
		v.D = &Box[[]Inner]{[]Inner{{v.A.V}}}
	}
	s := check(v)
	vsym.Assert(len(s.Components.Schemas) == 7, "each type has a schema of its own")
	vsym.Reach("generic")
}

// H_SameName: types with the same name are not the same type.
//
//vsym:all native=4
func H_SameName() {
	var a any
	{
		type T struct {
			A int
		}
		a = T{vsym.Int("a", 0, 3)}
	}
	var b any
	{
		type T struct {
			B string
			P *T
		}
		b = T{vsym.StringIn("b", 0, 1, "x"), &T{}}
	}
	s := openapi.NewService("x")
	first, second := a, b
	if vsym.Bool("the other way") {
		first, second = b, a
	}
	s1, err := s.SchemaFromType(c, reflect.TypeOf(first), nil)
	vsym.Assert(err == nil, "schema of the first")
	s2, err := s.SchemaFromType(c, reflect.TypeOf(second), nil)
	vsym.Assert(err == nil, "schema of the second")
	s3, err := s.SchemaFromType(c, reflect.TypeOf(first), nil)
	vsym.Assert(err == nil, "schema of the first, again")
	vsym.Assert(conforms(s, s1, decoded(first)) == "" && conforms(s, s3, decoded(first)) == "", "the data conforms to its own schema")
	vsym.Assert(conforms(s, s2, decoded(second)) == "", "the data conforms to its own schema")
	vsym.Assert(len(s.Components.Schemas) == 2, "each type once")
	document(s)
	vsym.Reach("same name")
}

var examples = []string{"", " ", "a", "1", "-1", "1.5", "1e3", "1e999", "NaN", "-Inf", "0x10", "1_0", "[1,2]", "{\"a\":null}", "[", "true", "null", "\"q\"", "9223372036854775807", "99999999999999999999", "a\"b\n"}

func tagged(doc, ex string) *reflect.StructTag {
	tag := reflect.StructTag("doc:" + strconv.Quote(doc) + " example:" + strconv.Quote(ex))
	return &tag
}

// H_Doc: the documentation is kept as it is.
//
//vsym:all native=8
//vsym:thorough time=300
func H_Doc() {
	doc := vsym.StringIn("doc", 0, vsym.Bound("length", 1, 2), "ab\"\\")
	types := []any{"", 1.5, true, []int{1}, map[string]int{}, Leaf{}, Amount{}, struct{ A int }{}, time.Time{}}
	t := types[vsym.Choice("type", len(types))]
	s := openapi.NewService("x")
	sc, err := s.SchemaFromType(c, reflect.TypeOf(t), tagged(doc, ""))
	vsym.Assert(err == nil, "there is a schema")
	vsym.Assert(sc.Description == doc, "the documentation is kept")
	vsym.Assert(sc.Example == nil, "there is no example if there is none")
	j, err := enc.MarshalJSON(c, sc)
	vsym.Assert(err == nil && json.Valid(j), "the schema is valid JSON")
	vsym.Reach("doc")
}

// H_Example: examples are kept, and can't break the document.
//
//vsym:all native=8
func H_Example() {
	ex := examples[vsym.Choice("example", len(examples))]
	types := []any{"", 1.5, int8(1), uint64(1), true, []int{1}, map[string]int{}, Leaf{}, Amount{}, struct{ A int }{}, time.Time{}, Word(1)}
	t := types[vsym.Choice("type", len(types))]
	s := openapi.NewService("x")
	sc, err := s.SchemaFromType(c, reflect.TypeOf(t), tagged("d", ex))
	vsym.Assert(err == nil, "there is a schema, whatever the example")
	vsym.Assert((sc.Example == nil) == (strings.TrimSpace(ex) == ""), "an example is kept, if there is one")
	j, err := enc.MarshalJSON(c, s)
	vsym.Assert(err == nil && json.Valid(j), "the document is valid JSON")
	j, err = enc.MarshalJSON(c, sc)
	vsym.Assert(err == nil && json.Valid(j), "the schema is valid JSON")
	if sc.Example != nil {
		n := decoded(sc.Example)
		if str, isStr := n.(enc.String); isStr {
			vsym.Assert(string(str) == strings.TrimSpace(ex), "text is kept as it is")
		} else {
			var want, got any
			if f, err := strconv.ParseFloat(ex, 64); err == nil {
				want = f
			} else {
				vsym.Assert(json.Unmarshal([]byte(ex), &want) == nil, "otherwise it is the value which was given")
			}
			vsym.Assert(json.Unmarshal(enc.JSON{}.Encode(c, n), &got) == nil && reflect.DeepEqual(want, got), "otherwise it is the value which was given")
			ok := false
			switch got.(type) {
			case float64:
				ok = sc.Type == "number"
			case bool:
				ok = sc.Type == "boolean"
			case []any:
				ok = sc.Type == "array"
			case map[string]any:
				ok = sc.Type == "object" || sc.AllOf != nil
			}
			vsym.Assert(ok, "and of the type of the schema")
		}
	}
	vsym.Reach("example")
}

// what has no schema
type Bad1 struct {
	A  Leaf
	Ch chan int
}
type Bad2 struct {
	Good Tree
	Back *Bad3
	F    func()
}
type Bad3 struct {
	Back *Bad2
	X    int
}
type Bad4 struct{ M map[string][]Bad1 }

// H_Errors: a type which has no schema is an error, each time it is asked
// for, and leaves nothing behind.
//
//vsym:all native=16
func H_Errors() {
	s := openapi.NewService("x")
	bad := []any{make(chan int), func() {}, Bad1{}, &Bad2{}, Bad4{}, []Bad1{}, complex(1, 1), struct{ C chan int }{}}
	for i := 0; i < 3; i++ {
		switch vsym.Choice("op"+strconv.Itoa(i), 3) {
		case 0:
			t := bad[vsym.Choice("bad"+strconv.Itoa(i), len(bad))]
			_, err := s.SchemaFromType(c, reflect.TypeOf(t), nil)
			vsym.Assert(err != nil, "what has no schema is an error")
		case 1:
			v := Leaf{I: 1}
			sc, err := s.SchemaFromType(c, reflect.TypeOf(v), nil)
			vsym.Assert(err == nil && conforms(s, sc, decoded(v)) == "", "anything else is not affected")
		case 2:
			_, err := s.SchemaFromType(c, reflect.TypeOf(Bad3{}), nil)
			vsym.Assert(err != nil, "what has no schema is an error, also when it refers back")
		}
		document(s)
	}
	vsym.Reach("errors")
}

type UID string

type Op struct {
	R    api.Request `url:"/op"`
	R2   api.Request `url:"/v1/op"`
	A    int         `api:"in" json:"a" doc:"the a"`
	B    string      `api:"in,required" json:"b,omitempty"`
	Both *Leaf       `api:"both" json:"both"`
	Out  []Leaf      `api:"out" enc:"o" json:"x"`
	UID  UID         `api:"auth" json:"uid"`
	Ask  int         `api:"in" json:"same" doc:"asked"`
	Tell string      `api:"out" json:"same" doc:"told"`
	Dep  *int
	priv chan int
}

func (o *Op) Do(ctx.C) error {
	if o.A < 0 {
		return errors.New("negative")
	}
	o.Tell = "x"
	for i := 0; i < o.A; i++ {
		o.Out = append(o.Out, Leaf{I: i})
	}
	return nil
}

type Strict struct {
	R   api.Request `url:"http://example.com/strict"`
	In  Tree        `api:"in" json:"in"`
	UID UID         `api:"auth,required" json:"uid"`
}

func (o *Strict) Do(ctx.C) error { return nil }

type Needs struct {
	R api.Request `url:"/needs"`
	X int         `api:"both,required" json:"x"`
	Y *int        `api:"in,required" json:"y"`
	Z int         `api:"in" json:"z"`
	L []int       `api:"required,in,out" json:"l"`
}

func (o *Needs) Do(ctx.C) error { return nil }

// H_Required: what is documented as required is what is refused without it.
//
//vsym:all native=8
func H_Required() {
	s := http.NewServer(c)
	s.MustRegisterAPI(c, &Needs{})
	in := s.OpenAPI.Paths["/needs"].Post.RequestBody.Content["application/json"].Schema
	drop := []string{"", "x", "y", "z", "l"}[vsym.Choice("drop", 5)]
	req := enc.Map{}
	for k, n := range map[string]enc.Node{"x": enc.Integer(vsym.Int64("x", 1, 9)), "y": enc.Integer(2), "z": enc.Integer(3), "l": enc.List{enc.Integer(4)}} {
		if k != drop {
			req[k] = n
		}
	}
	res := do(s, "POST", "/needs", enc.JSON{}.Encode(c, req))
	fits := conforms(s.OpenAPI, in, decoded(req)) == ""
	vsym.Assert(fits == (res.code == 200), "refused exactly if it does not conform to what is documented")
	vsym.Assert(fits == (drop == "" || drop == "z"), "which is if something required is missing")
	vsym.Reach("end")
}

// rec records a response as a client would get it.
type rec struct {
	h    gohttp.Header
	code int
	body []byte
}

func (r *rec) Header() gohttp.Header { return r.h }
func (r *rec) WriteHeader(code int)  { r.code = code }
func (r *rec) Write(b []byte) (int, error) {
	if r.code == 0 {
		r.code = 200
	}
	r.body = append(r.body, b...)
	return len(b), nil
}

func do(s *http.Server, method, path string, body []byte) *rec {
	w := &rec{h: gohttp.Header{}}
	r := &gohttp.Request{Method: method, URL: &url.URL{Path: path}, Host: "x", Header: gohttp.Header{}, ContentLength: int64(len(body))}
	if body != nil {
		r.Body = nopCloser{bytes.NewReader(body)}
	}
	s.Mux().ServeHTTP(w, r.WithContext(c))
	return w
}

type nopCloser struct{ *bytes.Reader }

func (nopCloser) Close() error { return nil }

// H_Operation: what is documented for an operation is what it takes and what
// it answers, at each of its paths.
//
//vsym:all native=8
func H_Operation() {
	s := http.NewServer(c)
	pi, err := s.RegisterAPI(c, &Op{})
	vsym.Assert(err == nil && pi != nil, "registered")
	s.MustRegisterAPI(c, &Strict{})

	client, err := api.NewClient(c, &Op{})
	vsym.Assert(err == nil, "client")
	op := &Op{A: vsym.Int("a", -1, 2), B: "b"}
	if vsym.Bool("both") {
		op.Both = &Leaf{I: vsym.Int("i", -1, 1)}
	}
	var req api.JSON
	vsym.Assert(client.Send(c, op, &req) == nil, "request")

	vsym.Assert(len(s.OpenAPI.Paths) == 3, "each path is documented")
	path := "/op"
	if vsym.Bool("v1") {
		path = "/v1/op"
	}
	p := s.OpenAPI.Paths[path]
	vsym.Assert(p != nil && p.Post != nil && p.Get == nil, "as a POST")
	in := p.Post.RequestBody.Content["application/json"].Schema
	out := p.Post.Responses["200"].Content["application/json"].Schema
	vsym.Assert(len(in.Properties) == 4 && len(in.Required) == 1 && in.Required[0] == "b", "the inputs are documented")
	vsym.Assert(in.Properties["a"].Description == "the a", "with their documentation")
	vsym.Assert(len(out.Properties) == 3, "the outputs are documented")
	vsym.Assert(in.Properties["same"].Description == "asked" && out.Properties["same"].Description == "told", "an input and an output may have the same name")
	vsym.Assert(conforms(s.OpenAPI, in, decoded(req.Data)) == "", "a request conforms to what is documented")
	vsym.Assert(len(p.Post.Security) == 2 && len(p.Post.Security[0]) == 1 && len(p.Post.Security[1]) == 0, "an optional user is documented")
	strict := s.OpenAPI.Paths["/strict"].Post
	vsym.Assert(len(strict.Security) == 1 && len(strict.Security[0]) == 1, "a required user is documented")
	for name := range strict.Security[0] {
		vsym.Assert(s.OpenAPI.Components.SecurityScheme[name] != nil, "by a scheme which is documented")
	}

	strict.Security.Append(openapi.Security{"key": []string{}})
	strict.SetJWT(vsym.Bool("required"))
	vsym.Assert(len(strict.Security) >= 3 && strict.Security[1]["key"] != nil && strict.Security[2]["jwt"] != nil, "other ways to log in may be added")

	body := enc.JSON{}.Encode(c, req.Data)
	res := do(s, "POST", path, body)
	if op.A < 0 {
		vsym.Assert(res.code >= 400, "an error is an error")
	} else {
		vsym.Assert(res.code == 200, "answered")
		n, err := enc.JSON{}.Decode(c, res.body)
		vsym.Assert(err == nil && conforms(s.OpenAPI, out, n) == "", "a response conforms to what is documented")
		m := n.(enc.Map)
		for k := range out.Properties {
			vsym.Assert(m[k] != nil, "what is documented is there")
		}
	}
	document(s.OpenAPI)
	vsym.Reach("operation")
}

// H_Document: the document is served, whatever was registered.
//
//vsym:all native=8
func H_Document() {
	s := http.NewServer(c)
	n := 0
	if vsym.Bool("op") {
		s.MustRegisterAPI(c, &Op{})
		n += 2
	}
	if vsym.Bool("strict") {
		s.MustRegisterAPI(c, &Strict{})
		n++
	}
	if vsym.Bool("raw") {
		s.HandleRequest("/raw", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) { return in, nil })
		s.Handle("/static/", gohttp.NotFoundHandler())
		n += 2
	}
	s.OpenAPI.Info.Title = vsym.StringIn("title", 0, 1, "a\"\n")
	w := do(s, "GET", "/openapi.json", nil)
	vsym.Assert(w.code == 200 && json.Valid(w.body), "the document is served as JSON")
	d, err := enc.JSON{}.Decode(c, w.body)
	vsym.Assert(err == nil, "decoded")
	m := d.(enc.Map)
	vsym.Assert(m["openapi"] == enc.Node(enc.String("3.0.0")), "with its version")
	paths, ok := m["paths"].(enc.Map)
	vsym.Assert(ok && len(paths) == n, "with all paths")
	comp, ok := m["components"].(enc.Map)
	vsym.Assert(ok && comp["securitySchemes"] != nil, "and components")
	vsym.Reach("document")
}

// H_Served: what is documented by hand is in the document, by the names of
// OpenAPI, and what is not isn't.
//
//vsym:all native=4
func H_Served() {
	s := http.NewServer(c)
	text := vsym.StringIn("text", 1, 1, "a\"\n")
	b := vsym.Bool("flag")
	pi := &openapi.PathItem{Summary: "sum" + text, Description: "desc" + text, Deprecated: b}
	kind := vsym.Choice("kind", 3)
	switch kind {
	case 1:
		pi.Servers = []openapi.Server{{URL: "u", Description: text}, {URL: "v"}}
		pi.Parameters = []openapi.Parameter{
			{Name: "p", In: "query", Description: text, Required: b, Schema: &openapi.Schema{Type: "string", Enum: []string{"x", text}, Default: "x"}},
			{Name: "q", In: "path", Deprecated: b},
		}
	case 2:
		pi.Responses = map[string]openapi.Response{"200": {Description: text}, "default": {Content: map[string]openapi.Content{"text/plain": {Schema: &openapi.Schema{Type: "string"}}}}}
		pi.RequestBody = &openapi.RequestBody{Required: b}
		pi.SetJWT(b)
	}
	how := vsym.Choice("how", 3)
	p := s.Handle("/x", gohttp.NotFoundHandler())
	verb := []string{"post", "get", "upgrade"}[how]
	switch how {
	case 0:
		p.Post = pi
	case 1:
		p.Get = pi
	case 2:
		p.Upgrade = pi
	}
	s.OpenAPI.Info.Version, s.OpenAPI.Info.License.Name = "v"+text, "l"+text
	s.OpenAPI.Components.SecurityScheme["key"] = &openapi.SecurityScheme{Type: "apiKey", In: "header", Name: "X"}
	s.OpenAPI.Components.Parameters = map[string]*openapi.Parameter{"common": {Name: "c", In: "cookie"}}
	w := do(s, "GET", "/openapi.json", nil)
	vsym.Assert(w.code == 200, "served")
	d, err := enc.JSON{}.Decode(c, w.body)
	vsym.Assert(err == nil, "decoded")
	at := func(n enc.Node, path ...any) enc.Node {
		for _, k := range path {
			switch x := n.(type) {
			case enc.Map:
				n = x[k.(string)]
			case enc.List:
				if k.(int) >= len(x) {
					return nil
				}
				n = x[k.(int)]
			default:
				return nil
			}
		}
		return n
	}
	str := func(want string, path ...any) bool { return at(d, path...) == enc.Node(enc.String(want)) }
	vsym.Assert(str("v"+text, "info", "version") && str("l"+text, "info", "license", "name"), "what it is about")
	vsym.Assert(str("apiKey", "components", "securitySchemes", "key", "type") && str("header", "components", "securitySchemes", "key", "in") && str("X", "components", "securitySchemes", "key", "name"), "how to log in")
	vsym.Assert(str("http", "components", "securitySchemes", "jwt", "type") && str("bearer", "components", "securitySchemes", "jwt", "scheme") && str("JWT", "components", "securitySchemes", "jwt", "bearerFormat"), "how to log in")
	vsym.Assert(str("cookie", "components", "parameters", "common", "in"), "common parameters")
	op, ok := at(d, "paths", "/x", verb).(enc.Map)
	vsym.Assert(ok && len(at(d, "paths", "/x").(enc.Map)) == 1, "the operation")
	vsym.Assert(op["summary"] == enc.Node(enc.String("sum"+text)) && op["description"] == enc.Node(enc.String("desc"+text)), "with its text")
	vsym.Assert(!b || op["deprecated"] == enc.Node(enc.Bool(true)), "deprecated or not")
	vsym.Assert(b || op["deprecated"] == nil || op["deprecated"] == enc.Node(enc.Bool(false)), "deprecated or not")
	op0 := []any{"paths", "/x", verb}
	in := func(want string, path ...any) bool { return str(want, append(append([]any{}, op0...), path...)...) }
	is := func(want bool, path ...any) bool {
		n := at(op, path...)
		return n == enc.Node(enc.Bool(want)) || !want && n == nil
	}
	switch kind {
	case 1:
		vsym.Assert(in("u", "servers", 0, "url") && in(text, "servers", 0, "description") && in("v", "servers", 1, "url"), "servers")
		vsym.Assert(in("p", "parameters", 0, "name") && in("query", "parameters", 0, "in") && in(text, "parameters", 0, "description") && is(b, "parameters", 0, "required"), "parameters")
		vsym.Assert(in("string", "parameters", 0, "schema", "type") && in("x", "parameters", 0, "schema", "default") && in("x", "parameters", 0, "schema", "enum", 0) && in(text, "parameters", 0, "schema", "enum", 1), "and what they are")
		vsym.Assert(in("q", "parameters", 1, "name") && in("path", "parameters", 1, "in") && is(b, "parameters", 1, "deprecated") && is(false, "parameters", 1, "required"), "parameters")
	case 2:
		vsym.Assert(in(text, "responses", "200", "description") && in("string", "responses", "default", "content", "text/plain", "schema", "type"), "responses")
		vsym.Assert(is(b, "requestBody", "required"), "the body")
		sec, ok := op["security"].(enc.List)
		vsym.Assert(ok && (len(sec) == 1) == b && len(sec) <= 2, "a required or optional user")
		scopes, ok := at(sec, 0, "jwt").(enc.List)
		vsym.Assert(ok && len(scopes) == 0, "with no scopes")
	}
	vsym.Reach("served")
}

// H_Bytes: what is made of bytes.
//
//vsym:all native=4
func H_Bytes() {
	v := struct{ B []byte }{}
	if vsym.Bool("some") {
		v.B = vsym.Bytes("b", 0, 2)
	}
	s := openapi.NewService("x")
	sc, err := s.SchemaFromType(c, reflect.TypeOf(v), nil)
	vsym.Assert(err == nil, "there is a schema")
	vsym.Assert(conforms(s, sc, decoded(v)) == "", "bytes conform to the schema")
	vsym.Reach("bytes")
}

// Point is marshalled by a method of its pointer.
type Point struct{ x, y int }

func (p *Point) MarshalNode(ctx.C) (enc.Node, error) {
	return enc.String(strconv.Itoa(p.x) + "," + strconv.Itoa(p.y)), nil
}

// Size is marshalled by a method of its pointer, as JSON.
type Size struct{ W int }

func (p *Size) MarshalJSON() ([]byte, error) { return []byte(strconv.Itoa(p.W)), nil }

// H_Pointers: a value of a type whose pointer is marshalled in another way.
//
//vsym:all native=8
func H_Pointers() {
	p, z := Point{vsym.Int("x", -1, 1), 2}, Size{vsym.Int("w", -1, 1)}
	pp := &p
	var v any
	switch vsym.Choice("value", 8) {
	case 0:
		v = p
	case 1:
		v = &p
	case 2:
		v = []*Point{&p, nil}
	case 3:
		v = struct {
			P *Point
			V Point
			M map[string]*Size
		}{&p, p, map[string]*Size{"a": &z}}
	case 4:
		v = &z
	case 5:
		v = struct{ L []Size }{[]Size{z}}
	case 6:
		v = &pp
	case 7:
		v = struct {
			B *big.Int
			C big.Int
			U *url.URL
		}{big.NewInt(5), big.Int{}, &url.URL{Path: "x"}}
	}
	check(v)
	vsym.Reach("end")
}

// H_Nodes: nodes and errors as they are.
//
//vsym:all native=8
func H_Nodes() {
	e := errors.New("bad")
	var v any
	switch vsym.Choice("value", 7) {
	case 0:
		v = struct{ E ctx.Error }{ctx.WrapError(c, e).(ctx.Error)}
	case 1:
		v = struct{ E *ctx.Error }{}
	case 2:
		v = struct {
			A enc.Map
			B enc.List
			C enc.Pairs
		}{enc.Map{"x": enc.Nil{}}, enc.List{enc.Map{}, enc.Nil{}}, enc.Pairs{{Name: "A", JSON: "a", Value: enc.Nil{}}}}
	case 3:
		v = struct {
			A enc.Integer
			B enc.Float
			C enc.Digits
			D enc.String
			E enc.Bool
			F enc.Nil
		}{1, 1.5, "7", "s", true, enc.Nil{}}
	case 4:
		v = struct{ N json.Number }{"12"}
	case 5:
		v = struct {
			M time.Month
			W time.Weekday
		}{3, 4}
	case 6:
		v = enc.Map{"a": enc.Map{}}
	}
	check(v)
	vsym.Reach("end")
}
