// Package e02: the JSON codec.
//
//vsym:outside documents longer, trees deeper or wider than stated
package e02

import (
	"context"
	"encoding/json"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

var c ctx.C = context.Background()

// plain is the reference: what the standard library makes of a document,
// with numbers kept as text.
func plain(n enc.Node) any {
	switch n := n.(type) {
	case enc.Nil:
		return nil
	case enc.Bool:
		return bool(n)
	case enc.String:
		return string(n)
	case enc.Digits:
		return json.Number(n)
	case enc.List:
		l := []any{}
		for _, x := range n {
			l = append(l, plain(x))
		}
		return l
	case enc.Map:
		m := map[string]any{}
		for k, x := range n {
			m[k] = plain(x)
		}
		return m
	}
	vsym.Fail("decoding gives nil, bool, string, digits, lists and maps only")
	return nil
}

func decode(b []byte) {
	keep := string(b)
	n, err := enc.JSON{}.Decode(c, b)
	vsym.Assert(string(b) == keep, "the input is not modified")
	if len(b) == 0 {
		vsym.Assert(n == nil && err == nil, "no data is no value")
		return
	}
	valid := json.Valid(b)
	vsym.Assert(valid == (err == nil), "exactly the valid documents are accepted")
	if !valid {
		vsym.Assert(n == nil, "no value with an error")
		vsym.Reach("invalid")
		return
	}
	var ref any
	dec := json.NewDecoder(strings.NewReader(keep))
	dec.UseNumber()
	vsym.Assert(dec.Decode(&ref) == nil, "reference")
	vsym.Assert(reflect.DeepEqual(ref, plain(n)), "the document is decoded to what it says")
	out := enc.JSON{}.Encode(c, n)
	vsym.Assert(json.Valid(out), "encoding gives a valid document")
	n2, err := enc.JSON{}.Decode(c, out)
	vsym.Assert(err == nil && reflect.DeepEqual(n, n2), "encoding loses nothing")
	n3, err := enc.JSON{Indent: true}.Decode(c, enc.JSON{Indent: true}.Encode(c, n))
	vsym.Assert(err == nil && reflect.DeepEqual(n, n3), "also with indentation")
	vsym.Reach("valid")
}

// H_Bytes: any bytes.
//
//vsym:quick time=90
//vsym:thorough time=500
func H_Bytes() {
	decode(vsym.Bytes("b", 0, vsym.Bound("len", 2, 3)))
}

// H_Structure: longer documents made of structural characters.
//
//vsym:quick time=90
//vsym:thorough time=500
func H_Structure() {
	decode([]byte(vsym.StringIn("b", 3, vsym.Bound("len", 5, 6), `[]{},:"a1 `)))
}

// H_Number: anything that may look like a number.
//
//vsym:quick time=90
//vsym:thorough time=500
func H_Number() {
	s := vsym.StringIn("b", 1, vsym.Bound("len", 4, 6), "019.-+eE")
	decode([]byte(s))
	var n enc.Node
	if enc.UnmarshalJSON(c, []byte("["+s+"]"), &n) == nil {
		d, ok := n.(enc.List)[0].(enc.Digits)
		vsym.Assert(ok && string(d) == s, "numbers are kept exactly as written")
		vsym.Assert(string(enc.JSON{}.Encode(c, d)) == s, "and written as they were")
	}
}

// H_Escape: strings with escapes.
//
//vsym:quick time=90
//vsym:thorough time=500
func H_Escape() {
	s := vsym.StringIn("b", 1, vsym.Bound("len", 4, 6), `\u0dDn"/`)
	decode([]byte(`"` + s + `"`))
}

// H_Truncated: a document cut anywhere is refused.
func H_Truncated() {
	doc := `{"a":[1,2.5,"x\n",true,null,{}],"b":{"c":false}}`
	n := vsym.Int("cut", 1, len(doc)-1)
	_, err := enc.JSON{}.Decode(c, []byte(doc[:n]))
	vsym.Assert(err != nil, "a truncated document is an error")
	_, err = enc.JSON{}.Decode(c, []byte(doc+doc[:n]))
	vsym.Assert(err != nil, "so is one with something after it")
	_, err = enc.JSON{}.Decode(c, []byte(" "+doc+" \n"))
	vsym.Assert(err == nil, "space around it is fine")
	vsym.Reach("end")
}

func tree(d int) (n enc.Node, want string) {
	kinds := 8
	if d == 0 {
		kinds = 5
	}
	switch vsym.Choice("kind", kinds) {
	case 0:
		return enc.Nil{}, "null"
	case 1:
		b := vsym.Bool("b")
		if b {
			return enc.Bool(b), "true"
		}
		return enc.Bool(b), "false"
	case 2:
		s := vsym.StringIn("s", 0, vsym.Bound("string", 1, 2), "a\"<\\\x07\x7f\xff")
		j, _ := json.Marshal(s)
		return enc.String(s), string(j)
	case 3:
		x := vsym.Int("i", -999, 999)
		j, _ := json.Marshal(x)
		return enc.Integer(x), string(j)
	case 4:
		f := []float64{0, 0.5, -1e30, 1e-9}[vsym.Choice("f", 4)]
		j, _ := json.Marshal(f)
		return enc.Float(f), string(j)
	case 5:
		l := enc.List{}
		w := ""
		for i := vsym.Choice("len", 3); i > 0; i-- {
			e, ew := tree(d - 1)
			l = append(l, e)
			w += "," + ew
		}
		return l, "[" + strings.TrimPrefix(w, ",") + "]"
	case 6:
		m := enc.Map{}
		w := ""
		if vsym.Bool("none") {
			return enc.Map(nil), "{}"
		}
		for i, k := 0, vsym.Choice("len", 3); i < k; i++ {
			e, ew := tree(d - 1)
			key := []string{"", "k\"\x07\x7f\u2028\\<"}[i]
			m[key] = e
			kj, _ := json.Marshal(key)
			w += "," + string(kj) + ":" + ew
		}
		return m, "{" + strings.TrimPrefix(w, ",") + "}"
	default:
		p := enc.Pairs{}
		w := ""
		for i, k := 0, vsym.Choice("len", 3); i < k; i++ {
			e, ew := tree(d - 1)
			key := []string{"z\"\a\x01\x7f\u2028\\<", "a"}[i]
			p = append(p, enc.Pair{Name: "N", JSON: key, Value: e})
			kj, _ := json.Marshal(key)
			w += "," + string(kj) + ":" + ew
		}
		return p, "{" + strings.TrimPrefix(w, ",") + "}"
	}
}

// sameDocument is whether two texts are the same JSON document: the same tokens
// in the same order, no matter how they are escaped and spaced.
func sameDocument(a, b string) bool {
	if a == b {
		return true
	}
	if !json.Valid([]byte(a)) {
		return false
	}
	x, y := json.NewDecoder(strings.NewReader(a)), json.NewDecoder(strings.NewReader(b))
	x.UseNumber()
	y.UseNumber()
	for {
		s, e := x.Token()
		t, f := y.Token()
		if e != nil || f != nil {
			return e == io.EOF && f == io.EOF
		}
		if s != t {
			return false
		}
	}
}

// H_Encode: any tree of nodes is encoded to the document it stands for,
// objects made of pairs in their order.
//
//vsym:quick time=60
//vsym:thorough time=500
func H_Encode() {
	n, want := tree(vsym.Bound("depth", 1, 2))
	vsym.Assert(sameDocument(string(enc.JSON{}.Encode(c, n)), want), "the document is the one the tree stands for")
	vsym.Assert(json.Valid(enc.JSON{Indent: true}.Encode(c, n)), "valid with indentation")
	vsym.Reach("end")
}

// H_NoDocument: numbers JSON has no text for are an error, wherever they are.
//
//vsym:quick time=60
func H_NoDocument() {
	var n enc.Node = enc.Float([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[vsym.Choice("which", 3)])
	for i := vsym.Bound("depth", 2, 3); i > 0; i-- {
		switch vsym.Choice("in", 4) {
		case 0:
			n = enc.List{enc.Integer(1), n}
		case 1:
			n = enc.Map{"a": n}
		case 2:
			n = enc.Pairs{{Name: "A", JSON: "a", Value: enc.Nil{}}, {Name: "B", JSON: "b", Value: n}}
		}
	}
	_, err := json.Marshal(n)
	vsym.Assert(err != nil, "the standard library is told")
	_, err = enc.MarshalJSON(c, n)
	vsym.Assert(err != nil, "there is no document for it")
	vsym.Reach("end")
}

// H_Independent: what was decoded does not change with the buffer.
func H_Independent() {
	b := []byte(`{"k":["` + vsym.StringIn("s", 1, 2, "ab") + `",12]}`)
	want := string(b)
	n, err := enc.JSON{}.Decode(c, b)
	vsym.Assert(err == nil, "valid")
	for i := range b {
		b[i] = '!'
	}
	vsym.Assert(string(enc.JSON{}.Encode(c, n)) == want, "the nodes do not refer to the input")
	vsym.Reach("end")
}

// H_Large: also if there is a lot of it, or it is deep.
//
//vsym:all native=8 fuel=60000000
//vsym:quick time=60
func H_Large() {
	n := []int{9, 70, 300}[vsym.Choice("n", 3)]
	at := vsym.Choice("at", 3) * (n - 1) / 2
	piece := func(i int) string {
		if i == at {
			return `"here"`
		}
		return []string{"0", "1.50", `"s"`, "null", "true", "{}", "[]", `{"k":[1]}`}[i%8]
	}
	b := ""
	switch vsym.Choice("what", 5) {
	case 0:
		for i := 0; i < n; i++ {
			b += "," + piece(i)
		}
		b = "[" + b[1:] + "]"
	case 1:
		for i := 0; i < n; i++ {
			b += `,"k` + strconv.Itoa(i*i) + `": ` + piece(i)
		}
		b = "{" + b[1:] + "}"
	case 2:
		if n > 60 {
			n, at = 60, at/6
		}
		b = `"deep"`
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				b = "[" + piece(i) + "," + b + "]"
			} else {
				b = `{"a":` + b + `,"b":` + piece(i) + "}"
			}
		}
	case 3:
		b = strings.Repeat(`aé\"\\\n世🌍\u0041`, n)
		b = `"` + b[:9*at] + vsym.StringIn("s", 0, 1, "x\"") + b[9*at:] + `"`
	default:
		b = strings.Repeat("1234567890", n)
		b = "-" + b[:at] + "." + b[at:] + "e-" + b[:at+1]
	}
	if vsym.Bool("cut") {
		b = b[:len(b)-1]
	}
	decode([]byte(b))
}
