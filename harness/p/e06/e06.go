// Package e06: times and durations.
//
//vsym:outside durations with more significant digits, texts longer, and years other than stated
package e06

import (
	"context"
	"encoding/json"
	"math"
	"time"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

var c ctx.C = context.Background()

var units = []time.Duration{time.Nanosecond, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour}

func duration() time.Duration {
	u := units[vsym.Choice("unit", len(units))]
	k := vsym.Int64("k", -int64(vsym.Bound("k", 20, 200)), int64(vsym.Bound("k", 20, 200)))
	return time.Duration(k) * u
}

// H_DurationText: the text of a duration gives the duration back, and is the
// standard one.
//
//vsym:quick time=60
//vsym:thorough time=400
func H_DurationText() {
	d := duration()
	n := enc.Duration(d)
	s := n.String()
	x, err := time.ParseDuration(s)
	vsym.Assert(err == nil && x == d, "the text is a standard duration, the same")
	var y enc.Duration
	vsym.Assert(y.Parse(s) == nil && y == n, "parsed")
	z, err := enc.String(s).AsDuration()
	vsym.Assert(err == nil && z == n, "from a string node")
	vsym.Assert(enc.String(s).MustDuration() == n, "from a string node that must be one")
	vsym.Reach("end")
}

// H_DurationJSON: through JSON; nothing is written as the empty text and read
// back from it.
//
//vsym:quick time=60
//vsym:thorough time=400
func H_DurationJSON() {
	d := duration()
	n := enc.Duration(d)
	j, err := json.Marshal(n)
	vsym.Assert(err == nil, "to JSON")
	if d == 0 {
		vsym.Assert(string(j) == `""`, "no duration is the empty text")
	}
	var y enc.Duration
	vsym.Assert(json.Unmarshal(j, &y) == nil && y == n, "and back")
	node, err := enc.JSON{}.Decode(c, j)
	vsym.Assert(err == nil, "decoded")
	var z enc.Duration
	vsym.Assert(enc.Unmarshal(c, node, &z) == nil && z == n, "and unmarshalled")
	vsym.Reach("end")
}

// H_DurationInto: a duration node into durations, numbers, text and any, for
// every duration.
//
//vsym:quick time=60
func H_DurationInto() {
	x := vsym.Int64("d", -1<<63, 1<<63-1)
	n := enc.Duration(x)
	var d time.Duration
	vsym.Assert(enc.Unmarshal(c, n, &d) == nil && int64(d) == x, "time.Duration")
	var i int64
	vsym.Assert(enc.Unmarshal(c, n, &i) == nil && i == x, "int64")
	_, isEnc := any1(n).(enc.Duration)
	_, isStd := any1(n).(time.Duration)
	vsym.Assert(isEnc || isStd, "any is a duration")
	var i8 int8
	fits := x >= -128 && x <= 127
	vsym.Assert((enc.Unmarshal(c, n, &i8) == nil) == fits, "a small integer only when it fits")
	vsym.Assert(!fits || int64(i8) == x, "int8")
	switch a := any1(n).(type) {
	case enc.Duration:
		vsym.Assert(int64(a) == x, "any keeps it")
	case time.Duration:
		vsym.Assert(int64(a) == x, "any keeps it")
	}
	vsym.Reach("end")
}

func any1(n enc.Node) (a any) {
	vsym.Assert(enc.Unmarshal(c, n, &a) == nil && a != nil, "any")
	return a
}

// H_DurationUnit: a number of units.
//
//vsym:quick time=60
func H_DurationUnit() {
	u := units[vsym.Choice("unit", len(units))]
	kind := vsym.Choice("kind", 3)
	max := int64(1000)
	if kind == 0 {
		max = int64(math.MaxInt64 / u) // everything a duration can hold
	}
	k := vsym.Int64("k", -max, max)
	want := enc.Duration(time.Duration(k) * u)
	switch kind {
	case 0:
		vsym.Assert(enc.Integer(k).Duration(u) == want, "of an integer")
	case 1:
		vsym.Assert(enc.Float(float64(k)).Duration(u) == want, "of a float")
	default:
		d := enc.Digits(enc.Integer(k).String())
		vsym.Assert(d.Duration(u) == want, "of digits")
		// with a fraction
		half := enc.Digits([]string{"1.5", "0.25", "-2.5", "1e2", "1E2", "25e-1", "2.5E+1"}[vsym.Choice("frac", 7)])
		f := half.MustFloat()
		vsym.Assert(half.Duration(u) == f.Duration(u) && half.Duration(u) == enc.Duration(float64(f)*float64(u)), "of digits with a fraction")
	}
	vsym.Reach("end")
}

// H_DurationBad: text that is no duration is an error, never something else.
//
//vsym:quick time=60
//vsym:thorough time=400
func H_DurationBad() {
	s := vsym.StringIn("s", 0, vsym.Bound("len", 3, 5), "10-.smh ")
	var d enc.Duration = 77
	err := d.Parse(s)
	want, werr := time.ParseDuration(s)
	if s == "" {
		vsym.Assert(err == nil && d == 0, "the empty text is no duration")
	} else if werr != nil {
		vsym.Assert(err != nil && d == 77, "what is no duration is an error and changes nothing")
	} else {
		vsym.Assert(err == nil && time.Duration(d) == want, "what is a duration is that")
	}
	got, aerr := enc.String(s).AsDuration()
	vsym.Assert((aerr == nil) == (err == nil), "the same for string nodes")
	vsym.Assert(aerr != nil || got == d, "the same value")
	must, refused := enc.Duration(0), false
	func() {
		defer func() { refused = recover() != nil }()
		must = enc.String(s).MustDuration()
	}()
	vsym.Assert(refused == (err != nil), "what must be a duration is one or is refused")
	vsym.Assert(refused || must == d, "the same value")
	vsym.Reach("end")
}

func moment() time.Time {
	// an ordinary day, a leap day, the end of a year, before 1970
	base := []int64{1700000000, 1709164799, -86405, 1735689599}[vsym.Choice("base", vsym.Bound("base", 4, 4))]
	t := time.Unix(base+int64(vsym.Choice("second", vsym.Bound("second", 2, 4))), 0)
	switch vsym.Choice("fraction", 4) {
	case 1:
		t = t.Add([]time.Duration{1, 20, 300, 999}[vsym.Choice("millis", 4)] * time.Millisecond)
	case 2:
		t = t.Add(time.Duration(vsym.Int64("nanos", 1, int64(vsym.Bound("nanos", 9, 99)))))
	case 3:
		t = t.Add(999999999)
	}
	switch vsym.Choice("zone", 6) {
	case 0:
		t = t.UTC()
	case 1:
		t = t.In(time.FixedZone("", -(5*3600 + 1800)))
	case 2:
		t = t.In(time.FixedZone("", 2*3600))
	case 3:
		t = t.In(time.FixedZone("X", 14*3600))
	case 4:
		t = t.In(time.FixedZone("AMT", 1172)) // before there were standard times
	default:
		t = t.In(time.FixedZone("MMT", -2670))
	}
	return t
}

// H_Time: a moment survives as text, in JSON and as node, to the nanosecond
// and with its offset.
//
//vsym:quick time=90
//vsym:thorough time=600
func H_Time() {
	t := moment()
	_, off := t.Zone()
	same := func(x time.Time, what string) {
		vsym.Assert(x.Equal(t), "the same moment: "+what)
		_, o := x.Zone()
		vsym.Assert(o == off || off%60 != 0, "the same offset: "+what)
	}
	n, err := enc.Marshal(c, t)
	vsym.Assert(err == nil, "marshalled")
	et, ok := n.(enc.Time)
	vsym.Assert(ok, "a time node")
	same(time.Time(et), "node")
	var back time.Time
	switch vsym.Choice("through", 5) {
	case 0:
		vsym.Assert(enc.Unmarshal(c, n, &back) == nil, "unmarshalled")
		same(back, "unmarshalled")
		var e enc.Time
		vsym.Assert(enc.Unmarshal(c, n, &e) == nil, "unmarshalled")
		same(time.Time(e), "unmarshalled node")
	case 1:
		j := enc.JSON{}.Encode(c, n)
		std, err := json.Marshal(t)
		vsym.Assert(err == nil && (string(std) == string(j) || off%60 != 0), "the JSON is the standard one")
		m, err := enc.JSON{}.Decode(c, j)
		vsym.Assert(err == nil && enc.Unmarshal(c, m, &back) == nil, "from JSON")
		same(back, "JSON")
	case 2:
		var e enc.Time
		vsym.Assert(e.Parse(et.String()) == nil, "parsed")
		same(time.Time(e), "text")
		e, err = enc.String(et.String()).AsTime()
		vsym.Assert(err == nil, "from a string node")
		same(time.Time(e), "string node")
	case 3:
		var a any
		vsym.Assert(enc.Unmarshal(c, n, &a) == nil, "any")
		switch a := a.(type) {
		case time.Time:
			same(a, "any")
		case enc.Time:
			same(time.Time(a), "any")
		default:
			vsym.Fail("any is a time")
		}
	default:
		type S struct {
			T time.Time  `json:"t"`
			P *time.Time `json:"p"`
			L []enc.Time
		}
		n, err := enc.Marshal(c, S{t, &t, []enc.Time{enc.Time(t)}})
		vsym.Assert(err == nil, "in a structure")
		var s S
		vsym.Assert(enc.Unmarshal(c, n, &s) == nil && s.P != nil && len(s.L) == 1, "and back")
		same(s.T, "field")
		same(*s.P, "pointer")
		same(time.Time(s.L[0]), "element")
	}
	vsym.Reach("end")
}

// H_TimeBad: a broken text is an error and changes nothing.
//
//vsym:quick time=60
func H_TimeBad() {
	s := []byte("2023-11-14T22:13:20Z")
	i := vsym.Choice("at", len(s)+1)
	if i == len(s) {
		s = s[:vsym.Choice("cut", len(s)+1)]
	} else {
		s[i] = vsym.StringIn("byte", 1, 1, "0129-:TZ+. x")[0]
	}
	var e enc.Time
	err := e.Parse(string(s))
	want, werr := time.Parse(time.RFC3339Nano, string(s))
	vsym.Assert((err == nil) == (werr == nil), "exactly the standard texts are accepted")
	if err == nil {
		vsym.Assert(time.Time(e).Equal(want), "as the moment they stand for")
	} else {
		vsym.Assert(time.Time(e).IsZero(), "an error changes nothing")
	}
	must, refused := enc.Time{}, false
	func() {
		defer func() { refused = recover() != nil }()
		must = enc.String(string(s)).MustTime()
	}()
	vsym.Assert(refused == (err != nil), "what must be a time is one or is refused")
	vsym.Assert(refused || time.Time(must).Equal(want), "the same moment")
	vsym.Reach("end")
}
