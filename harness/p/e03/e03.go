// Package e03: numbers are never silently changed.
//
//vsym:outside texts of numbers longer than stated; durations
package e03

import (
	"context"
	"math"
	"strconv"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

var c ctx.C = context.Background()

// ints unmarshals n into every integer type. ok: the number has an integer
// part; neg/mag: its sign and magnitude.
func ints(n enc.Node, ok, neg bool, mag uint64) {
	if mag == 0 {
		neg = false
	}
	s := func(bits uint, v int64, err error, name string) {
		limit := uint64(1) << (bits - 1)
		fits := ok && (neg && mag <= limit || !neg && mag < limit)
		if err == nil {
			want := int64(mag)
			if neg {
				want = -want
			}
			vsym.Assert(fits, "a number that does not fit is an error: "+name)
			vsym.Assert(v == want, "the number is kept: "+name)
		} else {
			vsym.Assert(!fits, "a number that fits is accepted: "+name)
		}
	}
	u := func(bits uint, v uint64, err error, name string) {
		fits := ok && !neg && mag <= math.MaxUint64>>(64-bits)
		if err == nil {
			vsym.Assert(fits, "a number that does not fit is an error: "+name)
			vsym.Assert(v == mag, "the number is kept: "+name)
		} else {
			vsym.Assert(!fits, "a number that fits is accepted: "+name)
		}
	}
	switch vsym.Choice("target", 10) {
	case 0:
		var v int8
		err := enc.Unmarshal(c, n, &v)
		s(8, int64(v), err, "int8")
	case 1:
		var v int16
		err := enc.Unmarshal(c, n, &v)
		s(16, int64(v), err, "int16")
	case 2:
		var v int32
		err := enc.Unmarshal(c, n, &v)
		s(32, int64(v), err, "int32")
	case 3:
		var v int64
		err := enc.Unmarshal(c, n, &v)
		s(64, v, err, "int64")
	case 4:
		var v int
		err := enc.Unmarshal(c, n, &v)
		s(64, int64(v), err, "int")
	case 5:
		var v uint8
		err := enc.Unmarshal(c, n, &v)
		u(8, uint64(v), err, "uint8")
	case 6:
		var v uint16
		err := enc.Unmarshal(c, n, &v)
		u(16, uint64(v), err, "uint16")
	case 7:
		var v uint32
		err := enc.Unmarshal(c, n, &v)
		u(32, uint64(v), err, "uint32")
	case 8:
		var v uint64
		err := enc.Unmarshal(c, n, &v)
		u(64, v, err, "uint64")
	default:
		var v uint
		err := enc.Unmarshal(c, n, &v)
		u(64, uint64(v), err, "uint")
	}
}

func signMag(x int64) (bool, uint64) {
	if x < 0 {
		return true, uint64(-x)
	}
	return false, uint64(x)
}

// H_Integer: every integer, into every integer type.
//
//vsym:quick time=60
func H_Integer() {
	x := vsym.Int64("x", math.MinInt64, math.MaxInt64)
	neg, mag := signMag(x)
	ints(enc.Integer(x), true, neg, mag)
	vsym.Reach("end")
}

// H_Text: every integer written as text, into every integer type.
//
//vsym:quick time=60
func H_Text() {
	if vsym.Choice("unsigned", 2) == 0 {
		x := vsym.Int64("x", math.MinInt64, math.MaxInt64)
		neg, mag := signMag(x)
		ints(enc.Digits(enc.Integer(x).String()), true, neg, mag)
	} else {
		x := vsym.Uint64("x", 0, math.MaxUint64)
		n, err := enc.Marshal(c, x)
		vsym.Assert(err == nil, "every number can be marshalled")
		ints(n, true, false, x)
	}
	vsym.Reach("end")
}

// H_Float: every floating point number, into every integer type: the
// fraction is dropped, what is out of range or not a number is an error.
//
//vsym:quick time=60
//vsym:thorough time=300
func H_Float() {
	f := vsym.Float64("f")
	switch vsym.Choice("target", 4) {
	case 0:
		var v int8
		err := enc.Unmarshal(c, enc.Float(f), &v)
		fits := f > -129 && f < 128
		vsym.Assert((err == nil) == fits, "exactly the numbers that fit are accepted: int8")
		if fits {
			vsym.Assert(float64(v) == math.Trunc(f), "the fraction is dropped: int8")
		}
	case 1:
		var v uint8
		err := enc.Unmarshal(c, enc.Float(f), &v)
		fits := f > -1 && f < 256
		vsym.Assert((err == nil) == fits, "exactly the numbers that fit are accepted: uint8")
		if fits {
			vsym.Assert(float64(v) == math.Trunc(f), "the fraction is dropped: uint8")
		}
	case 2:
		var v int64
		err := enc.Unmarshal(c, enc.Float(f), &v)
		fits := f >= -9223372036854775808 && f < 9223372036854775808
		vsym.Assert((err == nil) == fits, "exactly the numbers that fit are accepted: int64")
		if fits {
			vsym.Assert(v == int64(f), "the fraction is dropped: int64")
		}
	default:
		var v uint64
		err := enc.Unmarshal(c, enc.Float(f), &v)
		fits := f > -1 && f < 18446744073709551616
		vsym.Assert((err == nil) == fits, "exactly the numbers that fit are accepted: uint64")
		if fits {
			vsym.Assert(v == uint64(f), "the fraction is dropped: uint64")
		}
	}
	vsym.Reach("end")
}

// H_FloatTarget: into floating point.
//
//vsym:quick time=60
func H_FloatTarget() {
	switch vsym.Choice("source", 6) {
	case 4:
		x := vsym.Uint64("x", 0, math.MaxUint64)
		var v float64
		vsym.Assert(enc.Unmarshal(c, enc.Digits(strconv.FormatUint(x, 10)), &v) == nil, "accepted")
		vsym.Assert(v == float64(x), "text is converted, however big")
	case 5:
		s := []string{"9223372036854775808", "-9223372036854775809", "9999999999999999999", "18446744073709551616", "123456789012345678901234567890", "-0", "0.1", "-0.0",
			"1e400", "-1e400", "1e-400", "1.7976931348623157e308", "1.7976931348623159e308", "340282346638528859811704183484516925440", "9007199254740993", "9007199254740993.0", "1E3"}[vsym.Choice("text", 17)]
		want, werr := strconv.ParseFloat(s, 64)
		var v float64
		err := enc.Unmarshal(c, enc.Digits(s), &v)
		vsym.Assert((err == nil) == (werr == nil), "exactly the numbers that fit are accepted: text")
		vsym.Assert(err != nil || math.Float64bits(v) == math.Float64bits(want), "text is converted")
	case 0:
		f := vsym.Float64("f")
		var v float64
		vsym.Assert(enc.Unmarshal(c, enc.Float(f), &v) == nil, "accepted")
		vsym.Assert(math.Float64bits(v) == math.Float64bits(f) || f != f && v != v, "float64 is kept")
	case 1:
		f := vsym.Float64("f")
		var v float32
		err := enc.Unmarshal(c, enc.Float(f), &v)
		over := math.Abs(f) > math.MaxFloat32 && !math.IsInf(f, 0)
		vsym.Assert((err != nil) == over, "what does not fit is an error: float32")
		if err == nil {
			vsym.Assert(v == float32(f) || f != f && v != v, "float32 is rounded")
		}
	case 2:
		x := vsym.Int64("x", math.MinInt64, math.MaxInt64)
		var v float64
		vsym.Assert(enc.Unmarshal(c, enc.Integer(x), &v) == nil, "accepted")
		vsym.Assert(v == float64(x), "integers are converted")
	default:
		x := vsym.Int64("x", -99999, 99999)
		var v float64
		vsym.Assert(enc.Unmarshal(c, enc.Digits(enc.Integer(x).String()), &v) == nil, "accepted")
		vsym.Assert(v == float64(x), "text is converted")
		var a any
		vsym.Assert(enc.Unmarshal(c, enc.Digits(enc.Integer(x).String()), &a) == nil, "accepted")
		f, ok := a.(float64)
		vsym.Assert(ok && f == float64(x), "untyped numbers are float64")
	}
	vsym.Reach("end")
}

// H_Digits: any text of a number: fractions are dropped, an exponent is
// either understood or an error, never ignored; what is no number is an error.
//
//vsym:quick time=60
//vsym:thorough time=400
func H_Digits() {
	s := ""
	neg := vsym.Choice("neg", 2) == 1
	if neg {
		s = "-"
	}
	ip := vsym.StringIn("int", 1, vsym.Bound("int", 3, 5), "0123456789")
	s += ip
	var mag uint64
	for i := 0; i < len(ip); i++ {
		mag = mag*10 + uint64(ip[i]-'0')
	}
	fp := ""
	if vsym.Choice("frac", 2) == 1 {
		fp = vsym.StringIn("frac", 1, 2, "0123456789")
		s += "." + fp
	}
	if vsym.Choice("exp", 2) == 1 {
		e := vsym.Choice("e", 4)
		s += []string{"e", "E", "e+", "e-"}[e]
		x := vsym.Choice("exponent", 4)
		s += string(rune('0' + x))
		// the exact number times 100
		v := mag * 100
		for i := 0; i < 2; i++ {
			d := uint64(0)
			if i < len(fp) {
				d = uint64(fp[i] - '0')
			}
			if i == 0 {
				d *= 10
			}
			v += d
		}
		for i := 0; i < x; i++ {
			if e == 3 {
				v /= 10
			} else {
				v *= 10
			}
		}
		var got int64
		if err := enc.Unmarshal(c, enc.Digits(s), &got); err == nil {
			want := int64(v / 100)
			if neg {
				want = -want
			}
			vsym.Assert(got == want, "an exponent is never ignored")
		}
		vsym.Reach("exp")
		return
	}
	if neg && mag == 0 {
		vsym.Done() // minus zero
	}
	ints(enc.Digits(s), true, neg, mag)
	vsym.Reach("end")
}

// H_BadDigits: text that is no number never becomes one.
//
//vsym:quick time=60
func H_BadDigits() {
	s := vsym.StringIn("s", 0, 3, "1-+x _")
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		if !(s[i] == '1' || (s[i] == '-' || s[i] == '+') && i == 0 && len(s) > 1) {
			ok = false
		}
	}
	var i int64
	err := enc.Unmarshal(c, enc.Digits(s), &i)
	vsym.Assert((err == nil) == ok, "only numbers are accepted as integer")
	for i := 0; i < len(s); i++ {
		if s[i] == '_' {
			vsym.Done() // Go syntax, which is accepted for floats
		}
	}
	var f float64
	err = enc.Unmarshal(c, enc.Digits(s), &f)
	vsym.Assert((err == nil) == ok, "only numbers are accepted as float")
	vsym.Reach("end")
}

// H_Keys: the keys of maps are numbers like any other.
//
//vsym:quick time=60
func H_Keys() {
	x := vsym.Int64("x", math.MinInt64, math.MaxInt64)
	n := enc.Map{enc.Integer(x).String(): enc.Bool(true)}
	switch vsym.Choice("target", 5) {
	case 0:
		var m map[int8]bool
		err := enc.Unmarshal(c, n, &m)
		fits := x >= -128 && x <= 127
		vsym.Assert((err == nil) == fits, "exactly the keys that fit are accepted: int8")
		vsym.Assert(!fits || len(m) == 1 && m[int8(x)], "the key is kept")
	case 1:
		var m map[uint8]bool
		err := enc.Unmarshal(c, n, &m)
		fits := x >= 0 && x <= 255
		vsym.Assert((err == nil) == fits, "exactly the keys that fit are accepted: uint8")
		vsym.Assert(!fits || len(m) == 1 && m[uint8(x)], "the key is kept")
	case 2:
		var m map[int32]bool
		err := enc.Unmarshal(c, n, &m)
		fits := x >= math.MinInt32 && x <= math.MaxInt32
		vsym.Assert((err == nil) == fits, "exactly the keys that fit are accepted: int32")
		vsym.Assert(!fits || len(m) == 1 && m[int32(x)], "the key is kept")
	case 3:
		var m map[uint64]bool
		err := enc.Unmarshal(c, n, &m)
		fits := x >= 0
		vsym.Assert((err == nil) == fits, "exactly the keys that fit are accepted: uint64")
		vsym.Assert(!fits || len(m) == 1 && m[uint64(x)], "the key is kept")
	default:
		var m map[int64]bool
		err := enc.Unmarshal(c, n, &m)
		vsym.Assert(err == nil && len(m) == 1 && m[x], "every key fits int64")
	}
	vsym.Reach("end")
}

// H_KeyText: the text of a key is a decimal number, however it is written, or
// the key is refused.
//
//vsym:quick time=60
func H_KeyText() {
	k := vsym.StringIn("k", 0, vsym.Bound("len", 4, 6), "+-0178x_o.e")
	n := enc.Map{k: enc.Bool(true)}
	if vsym.Bool("signed") {
		var m map[int16]bool
		err := enc.Unmarshal(c, n, &m)
		want, werr := strconv.ParseInt(k, 10, 16)
		vsym.Assert((err == nil) == (werr == nil), "exactly the decimal numbers are accepted as keys")
		vsym.Assert(werr != nil || len(m) == 1 && m[int16(want)], "the key is that number")
	} else {
		var m map[uint8]bool
		err := enc.Unmarshal(c, n, &m)
		want, werr := strconv.ParseUint(k, 10, 8)
		vsym.Assert((err == nil) == (werr == nil), "exactly the unsigned decimal numbers are accepted as keys")
		vsym.Assert(werr != nil || len(m) == 1 && m[uint8(want)], "the key is that number")
	}
	vsym.Reach("end")
}

// H_String: a number put into text is that number, to the last digit.
//
//vsym:quick time=60
func H_String() {
	type name string
	var v string
	var w name
	switch vsym.Choice("of", 3) {
	case 0:
		s := vsym.StringIn("int", 1, 2, "0123456789")
		s += []string{"", ".0", ".50", "e3", "E+2", ".25e-1"}[vsym.Choice("tail", 6)]
		if vsym.Bool("neg") {
			s = "-" + s
		}
		vsym.Assert(enc.Unmarshal(c, enc.Digits(s), &v) == nil && v == s, "text keeps the digits as they are")
		vsym.Assert(enc.Unmarshal(c, enc.Digits(s), &w) == nil && string(w) == s, "so does a named type")
	case 1:
		x := vsym.Int64("x", math.MinInt64, math.MaxInt64)
		vsym.Assert(enc.Unmarshal(c, enc.Integer(x), &v) == nil, "accepted")
		y, err := strconv.ParseInt(v, 10, 64)
		vsym.Assert(err == nil && x == y, "text is the integer")
	default:
		f := []float64{0.1, 0.30000000000000004, -2.5, 1e21, 123456789.25, 5e-324, math.MaxFloat64, 1 << 53, 100, 0.1 + 0.7}[vsym.Choice("f", 10)]
		vsym.Assert(enc.Unmarshal(c, enc.Float(f), &v) == nil, "accepted")
		g, err := strconv.ParseFloat(v, 64)
		vsym.Assert(err == nil && f == g, "text is the float")
		n := enc.Float(f)
		g, err = strconv.ParseFloat(n.String(), 64)
		vsym.Assert(err == nil && f == g, "to the last digit")
	}
	vsym.Reach("end")
}

// H_Any: no number changes its value on the way into untyped data and back.
//
//vsym:quick time=60
func H_Any() {
	x := vsym.Int64("x", -1<<53, 1<<53)
	var a any
	vsym.Assert(enc.Unmarshal(c, enc.Integer(x), &a) == nil, "accepted")
	n, err := enc.Marshal(c, a)
	vsym.Assert(err == nil, "and back")
	var y int64
	vsym.Assert(enc.Unmarshal(c, n, &y) == nil && x == y, "the same number")
	vsym.Reach("end")
}
