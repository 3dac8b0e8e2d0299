// Package m01: Prometheus metrics.
//
//vsym:assume metric and label names are valid, buckets are sorted and below +Inf, and the number of label values is right
//vsym:outside the Go runtime's own metrics; other observations than the ones below; more series, observations and goroutines than stated
package m01

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"io"
	"math"
	"net"
	gohttp "net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"verif/harness/memnet"
	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/utils/prom"
)

var c ctx.C = context.Background()

// sample is one line of the exposition format.
type sample struct {
	name   string
	labels map[string]string
	value  float64
}

func (s sample) key() string {
	ks := make([]string, 0, len(s.labels))
	for k := range s.labels {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := s.name
	for _, k := range ks {
		out += "\x00" + k + "\x00" + s.labels[k]
	}
	return out
}

// scrape is what Prometheus reads, see
// https://prometheus.io/docs/instrumenting/exposition_formats/#text-based-format
type scrape struct {
	help    map[string]string
	typ     map[string]string
	samples map[string]sample
	order   []sample
}

func isName(s string, colon bool) bool {
	for i := 0; i < len(s); i++ {
		b := s[i]
		if !(b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || i > 0 && b >= '0' && b <= '9' || colon && b == ':') {
			return false
		}
	}
	return len(s) > 0
}

func (s *scrape) parse(text string) string {
	s.help, s.typ, s.samples = map[string]string{}, map[string]string{}, map[string]sample{}
	if text == "" {
		return ""
	}
	if text[len(text)-1] != '\n' {
		return "the last line must end"
	}
	for _, l := range strings.Split(text[:len(text)-1], "\n") {
		switch {
		case l == "":
		case strings.HasPrefix(l, "# HELP "):
			name, help, _ := strings.Cut(l[7:], " ")
			if _, dup := s.help[name]; dup || !isName(name, true) {
				return "HELP"
			}
			out := ""
			for i := 0; i < len(help); i++ {
				if help[i] != '\\' {
					out += help[i : i+1]
					continue
				}
				i++
				if i == len(help) {
					return "escape in help"
				}
				switch help[i] {
				case '\\':
					out += "\\"
				case 'n':
					out += "\n"
				default:
					return "escape in help"
				}
			}
			s.help[name] = out
		case strings.HasPrefix(l, "# TYPE "):
			name, typ, _ := strings.Cut(l[7:], " ")
			if _, dup := s.typ[name]; dup || !isName(name, true) {
				return "TYPE"
			}
			switch typ {
			case "counter", "gauge", "histogram", "summary", "untyped":
			default:
				return "type"
			}
			s.typ[name] = typ
		case l[0] == '#':
		default:
			if bad := s.sample(l); bad != "" {
				return bad
			}
		}
	}
	return ""
}

func (s *scrape) sample(l string) string {
	i := strings.IndexAny(l, "{ ")
	if i < 0 {
		return "no value"
	}
	x := sample{name: l[:i], labels: map[string]string{}}
	if !isName(x.name, true) {
		return "name"
	}
	if l[i] == '{' {
		i++
		for i < len(l) && l[i] != '}' {
			eq := strings.IndexByte(l[i:], '=')
			if eq < 0 {
				return "label"
			}
			name := l[i : i+eq]
			i += eq + 1
			if !isName(name, false) || i >= len(l) || l[i] != '"' {
				return "label"
			}
			if _, dup := x.labels[name]; dup {
				return "label twice"
			}
			i++
			val := ""
			for i < len(l) && l[i] != '"' {
				if l[i] == '\\' {
					i++
					if i == len(l) {
						return "escape"
					}
					switch l[i] {
					case '\\', '"':
						val += l[i : i+1]
					case 'n':
						val += "\n"
					default:
						return "escape"
					}
				} else {
					val += l[i : i+1]
				}
				i++
			}
			if i >= len(l) {
				return "label does not end"
			}
			i++
			if !utf8.ValidString(val) {
				return "UTF-8"
			}
			x.labels[name] = val
			if i < len(l) && l[i] == ',' {
				i++
			} else if i >= len(l) || l[i] != '}' {
				return "labels"
			}
		}
		if i >= len(l) {
			return "labels do not end"
		}
		i++
	}
	f := strings.Fields(l[i:])
	if len(f) != 1 {
		return "value"
	}
	v, err := strconv.ParseFloat(f[0], 64)
	if err != nil {
		return "value"
	}
	x.value = v
	k := x.key()
	if _, dup := s.samples[k]; dup {
		return "twice"
	}
	s.samples[k] = x
	s.order = append(s.order, x)
	return ""
}

func (s *scrape) get(name string, labels ...string) (float64, bool) {
	x := sample{name: name, labels: map[string]string{}}
	for i := 0; i < len(labels); i += 2 {
		x.labels[labels[i]] = labels[i+1]
	}
	x, ok := s.samples[x.key()]
	return x.value, ok
}

func read(m prom.Metric, name string) *scrape {
	var buf bytes.Buffer
	vsym.Assert(m.Print(name, &buf) == nil, "printed")
	return parse(buf.String())
}

func readCounter(m *prom.Counter) *scrape {
	var buf bytes.Buffer
	vsym.Assert(m.Print(&buf) == nil, "printed")
	return parse(buf.String())
}

func parse(text string) *scrape {
	s := &scrape{}
	bad := s.parse(text)
	if bad != "" {
		vsym.ObserveStr("bad", bad)
		vsym.ObserveStr("text", text)
	}
	vsym.Assert(bad == "", "what is printed is valid for Prometheus")
	for _, x := range s.order {
		base := x.name
		for _, suf := range []string{"_bucket", "_sum", "_count"} {
			switch s.typ[strings.TrimSuffix(x.name, suf)] {
			case "histogram", "summary":
				base = strings.TrimSuffix(x.name, suf)
			}
		}
		vsym.Assert(s.typ[base] != "", "each metric has a type")
	}
	return s
}

func same(a, b float64) bool { return a == b || a != a && b != b }

var buckets = []float64{-1, 0.1, 2}

// checkHistogram checks one series against what was observed.
func checkHistogram(s *scrape, labels []string, vals []float64) {
	sum := 0.0
	for _, v := range vals {
		sum += v
	}
	n, ok := s.get("h_count", labels...)
	vsym.Assert(ok && n == float64(len(vals)), "the count is the number of observations")
	got, ok := s.get("h_sum", labels...)
	vsym.Assert(ok && same(got, sum), "the sum is the sum of the observations")
	for _, le := range append(append([]float64{}, buckets...), math.Inf(1)) {
		want := 0
		for _, v := range vals {
			if v <= le || le > 2 {
				want++
			}
		}
		text := strconv.FormatFloat(le, 'g', -1, 64)
		n, ok := s.get("h_bucket", append([]string{"le", text}, labels...)...)
		vsym.Assert(ok && n == float64(want), "a bucket counts what is not above it")
	}
}

var observations = []float64{0.1, 2, 1e-9, 3, -1, 0, -2.5, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, 1234567.25}

// H_Histogram: every sequence of observations over two series.
//
//vsym:all native=16
//vsym:thorough time=300
func H_Histogram() {
	m := &prom.Histogram{Desc: "x", Labels: []string{"op"}, Buckets: buckets}
	vals := map[string][]float64{}
	s := read(m, "h")
	vsym.Assert(len(s.order) == 0, "nothing is printed before anything is observed")
	n := vsym.Bound("observations", 2, 3)
	for i := 0; i < n; i++ {
		op := []string{"get", "put"}[vsym.Choice("series", 2)]
		v := observations[vsym.Choice("value", len(observations))]
		m.Observe(v, op)
		vals[op] = append(vals[op], v)
		s = read(m, "h")
		vsym.Assert(s.typ["h"] == "histogram" && s.help["h"] == "x", "type and description")
		vsym.Assert(len(s.order) == len(vals)*6, "nothing else is printed")
		for op, v := range vals {
			checkHistogram(s, []string{"op", op}, v)
		}
	}
	vsym.Reach("histogram")
}

// H_Single: metrics without labels, and without buckets.
//
//vsym:all native=8
func H_Single() {
	m := &prom.Histogram{}
	m.Observe(1.5)
	s := read(m, "h")
	n, _ := s.get("h_count")
	inf, _ := s.get("h_bucket", "le", "+Inf")
	sum, _ := s.get("h_sum")
	vsym.Assert(n == 1 && inf == 1 && sum == 1.5 && len(s.order) == 3, "histogram")
	m = &prom.Histogram{Buckets: buckets}
	var vals []float64
	for i := vsym.Choice("n", 3); i > 0; i-- {
		v := observations[vsym.Choice("value", len(observations))]
		m.Observe(v)
		vals = append(vals, v)
	}
	s = read(m, "h")
	if len(vals) > 0 {
		checkHistogram(s, nil, vals)
	}
	k := &prom.Counter{Name: "c", Desc: "d"}
	k.Observe(2)
	s = readCounter(k)
	v, ok := s.get("c")
	vsym.Assert(ok && v == 2 && s.typ["c"] == "counter" && s.help["c"] == "d", "counter")
	g := (&prom.Gauge{Desc: "g"}).SetFunc(func() float64 { return -1.5 })
	s = read(g, "g")
	v, ok = s.get("g")
	vsym.Assert(ok && v == -1.5 && s.typ["g"] == "gauge" && s.help["g"] == "g", "gauge")
	vsym.Reach("single")
}

// H_Buckets: however many buckets there are, all of them count, also what is
// exactly their limit.
//
//vsym:all native=8
func H_Buckets() {
	le := prom.DefaultBuckets
	switch vsym.Choice("buckets", 3) {
	case 1:
		le = []float64{math.Inf(-1), -1e300, 0}
	case 2:
		le = nil
		for i := 0; i < 40; i++ {
			le = append(le, float64(i)*1e5)
		}
	}
	m := &prom.Histogram{Buckets: le}
	var vals []float64
	for i := vsym.Choice("n", 2); i >= 0; i-- {
		at := 2*len(le) - 1
		if i == 0 {
			at = vsym.Choice("at", 2*len(le)+1)
		}
		v := math.Inf(-1)
		if at > 0 {
			v = le[(at-1)/2]
			if at%2 == 0 {
				v = math.Nextafter(v, math.Inf(1))
			}
		}
		m.Observe(v)
		vals = append(vals, v)
	}
	s := read(m, "h")
	vsym.Assert(len(s.order) == len(le)+3, "all buckets")
	for _, le := range le {
		want := 0
		for _, v := range vals {
			if v <= le {
				want++
			}
		}
		found := false
		for _, x := range s.order {
			if x.name != "h_bucket" {
				continue
			}
			f, err := strconv.ParseFloat(x.labels["le"], 64)
			if vsym.Assert(err == nil, "a limit is a number"); f == le {
				found = true
				vsym.Assert(x.value == float64(want), "a bucket counts what is not above it")
			}
		}
		vsym.Assert(found, "each bucket is printed")
	}
	vsym.Reach("buckets")
}

// H_Amounts: a gauge may be changed by any amount.
//
//vsym:all native=16
func H_Amounts() {
	m := &prom.Gauge{}
	g := m.Counter()
	want := int64(0)
	for i := 0; i < 3; i++ {
		amt := []int{0, -1, -7, 1 << 31, 1<<32 + 5, -(1 << 40), 1 << 52}[vsym.Choice("amount", 7)]
		if vsym.Bool("dec") {
			g.Dec(amt)
			want -= int64(amt)
		} else {
			g.Inc(amt)
			want += int64(amt)
		}
	}
	v, ok := read(m, "g").get("g")
	vsym.Assert(ok && v == float64(want), "the value of the gauge")
	vsym.Reach("amounts")
}

// H_Since: the time since then, in seconds.
//
//vsym:all native=0
func H_Since() {
	m := &prom.Histogram{Labels: []string{"op"}, Buckets: []float64{0.5, 2}}
	d := []time.Duration{0, 300 * time.Microsecond, time.Millisecond, 400 * time.Millisecond, 1500 * time.Millisecond, time.Minute}[vsym.Choice("d", 6)]
	t0 := time.Now()
	vsym.Advance(d)
	m.ObserveSince(t0, "x")
	s := read(m, "h")
	sum, ok := s.get("h_sum", "op", "x")
	vsym.Assert(ok && sum >= d.Seconds() && sum < d.Seconds()+0.4, "the seconds which passed")
	n, _ := s.get("h_bucket", "op", "x", "le", "0.5")
	vsym.Assert((n == 1) == (d <= 500*time.Millisecond), "in its bucket")
	vsym.Reach("since")
}

// H_Counter: every sequence of observations over two series.
//
//vsym:all native=16
//vsym:thorough time=300
func H_Counter() {
	m := &prom.Counter{Name: "c", Desc: "x", Labels: []string{"path", "op"}, Gauge: vsym.Bool("gauge")}
	sums := map[string]float64{}
	n := vsym.Bound("observations", 2, 3)
	for i := 0; i < n; i++ {
		op := []string{"get", "put"}[vsym.Choice("series", 2)]
		v := observations[vsym.Choice("value", len(observations))]
		m.Observe(v, "/", op)
		sums[op] += v
		s := readCounter(m)
		vsym.Assert((s.typ["c"] == "gauge") == m.Gauge, "type")
		vsym.Assert(len(s.order) == len(sums), "one value for each series")
		for op, v := range sums {
			got, ok := s.get("c", "path", "/", "op", op)
			vsym.Assert(ok && same(got, v), "the sum of what was observed")
		}
	}
	vsym.Reach("counter")
}

// H_Gauge: every history of a gauge over two series.
//
//vsym:all native=16
//vsym:thorough time=300
func H_Gauge() {
	m := &prom.Gauge{Desc: "x", Labels: []string{"op"}}
	type entry struct {
		cnt *prom.GaugeCounter
		val float64
	}
	ref := map[string]*entry{}
	n := vsym.Bound("steps", 3, 4)
	for i := 0; i < n; i++ {
		op := "get"
		if i > 0 {
			op = []string{"get", "put"}[vsym.Choice("series", 2)]
		}
		e := ref[op]
		switch vsym.Choice("op", 4) {
		case 0:
			v := float64(i) + 0.5
			m.SetFunc(func() float64 { return v }, op)
			ref[op] = &entry{nil, v}
		case 1:
			m.SetFunc(nil, op)
			delete(ref, op)
		case 2, 3:
			if e != nil && e.cnt == nil {
				_, panicked := vsym.Panics(func() { m.Counter(op) })
				vsym.Assert(panicked, "a function is not a counter")
				continue
			}
			cnt := m.Counter(op)
			if e == nil {
				e = &entry{cnt, 0}
				ref[op] = e
			}
			vsym.Assert(cnt == e.cnt, "the counter of the series")
			k := 1 + 10*i
			if vsym.Bool("dec") {
				vsym.Assert(cnt.Dec(k) == cnt, "chained")
				e.val -= float64(k)
			} else {
				vsym.Assert(cnt.Inc(k) == cnt, "chained")
				e.val += float64(k)
			}
		}
		s := read(m, "g")
		vsym.Assert(len(s.order) == len(ref), "one value for each series")
		vsym.Assert(len(ref) == 0 || s.typ["g"] == "gauge" && s.help["g"] == "x", "type and description")
		for op, e := range ref {
			v, ok := s.get("g", "op", op)
			vsym.Assert(ok && v == e.val, "the value of the gauge")
		}
	}
	vsym.Reach("gauge")
}

// H_Labels: any value of a label is told to Prometheus as it is.
//
//vsym:all native=16
//vsym:quick time=60
//vsym:thorough time=300
func H_Labels() {
	v := vsym.StringIn("v", 0, vsym.Bound("length", 2, 3), "a\\\"\n\t\x00,n\xc3\xa9\xff{}= ")
	m := &prom.Histogram{Labels: []string{"a", "b"}, Buckets: []float64{1}}
	m.Observe(1, v, "x")
	m.Observe(1, "x", v)
	m.Observe(1, "x", "y\\")
	s := read(m, "h")
	if v == "y\\" {
		vsym.Done()
	}
	if utf8.ValidString(v) {
		n, ok := s.get("h_count", "a", v, "b", "x")
		if v == "x" {
			vsym.Assert(ok && n == 2, "the same series")
		} else {
			vsym.Assert(ok && n == 1, "the value is what was given")
			n, ok = s.get("h_count", "a", "x", "b", v)
			vsym.Assert(ok && n == 1, "the value is what was given")
		}
	}
	vsym.Reach("labels")
}

// H_Values: any values of labels, for every kind of metric.
//
//vsym:all native=8
//vsym:thorough time=300
func H_Values() {
	v := vsym.StringIn("v", 0, vsym.Bound("length", 2, 3), "a%d\"\\\n}, ")
	var s *scrape
	switch vsym.Choice("kind", 4) {
	case 0:
		m := &prom.Histogram{Labels: []string{"a", "b"}}
		m.Observe(1234567.25, v, "x")
		s = read(m, "m")
		n, ok := s.get("m_sum", "a", v, "b", "x")
		vsym.Assert(ok && n == 1234567.25, "the value is what was given")
		return
	case 1:
		m := &prom.Counter{Name: "m", Labels: []string{"a", "b"}}
		m.Observe(1234567.25, v, "x")
		s = readCounter(m)
	case 2:
		s = read((&prom.Gauge{Labels: []string{"a", "b"}}).SetFunc(func() float64 { return 1234567.25 }, v, "x"), "m")
	case 3:
		m := &prom.Gauge{Labels: []string{"a", "b"}}
		m.Counter(v, "x").Inc(1234567)
		s = read(m, "m")
		n, ok := s.get("m", "a", v, "b", "x")
		vsym.Assert(ok && n == 1234567 && len(s.order) == 1, "the value is what was given")
		return
	}
	n, ok := s.get("m", "a", v, "b", "x")
	vsym.Assert(ok && n == 1234567.25 && len(s.order) == 1, "the value is what was given")
	vsym.Reach("values")
}

// H_Help: any description.
//
//vsym:all native=8
//vsym:thorough time=300
func H_Help() {
	d := vsym.StringIn("d", 0, 2, "ab\\\"\n#%d")
	var s *scrape
	switch vsym.Choice("kind", 4) {
	case 0:
		m := &prom.Histogram{Desc: d}
		m.Observe(1)
		s = read(m, "m")
	case 1:
		m := &prom.Counter{Name: "m", Desc: d}
		m.Observe(1)
		s = readCounter(m)
	case 2:
		s = read((&prom.Gauge{Desc: d}).SetFunc(func() float64 { return 1 }), "m")
	case 3:
		m := &prom.Custom{Desc: d, Type: "gauge", Func: func() map[string]any {
			return map[string]any{`m{a="b"}`: 1, `m{a="a"}`: 2.5}
		}}
		s = read(m, "m")
		vsym.Assert(len(s.order) == 2 && s.order[0].value == 2.5 && s.order[1].value == 1, "sorted")
	}
	vsym.Assert(s.help["m"] == d, "the description is what was given")
	vsym.Reach("help")
}

// H_LabelCount: wrong numbers of values are refused.
//
//vsym:all native=8
func H_LabelCount() {
	n := vsym.Choice("labels", 3)
	k := vsym.Choice("values", 4)
	labels := []string{"a", "b"}[:n]
	vals := []string{"1", "2", "3"}[:k]
	_, p1 := vsym.Panics(func() { (&prom.Histogram{Labels: labels}).Observe(1, vals...) })
	_, p2 := vsym.Panics(func() { (&prom.Counter{Labels: labels}).Observe(1, vals...) })
	_, p3 := vsym.Panics(func() { (&prom.Gauge{Labels: labels}).Counter(vals...) })
	_, p4 := vsym.Panics(func() { (&prom.Gauge{Labels: labels}).SetFunc(func() float64 { return 1 }, vals...) })
	want := n != k
	vsym.Assert(p1 == want && p2 == want && p3 == want && p4 == want, "exactly a wrong number of values is refused")
	vsym.Reach("count")
}

// H_ConcurrentHistogram: nothing is lost, and all that is printed is
// consistent, in every interleaving.
//
//vsym:all race=1 native=16
//vsym:quick preempt=2 time=120
//vsym:thorough preempt=3 time=300
func H_ConcurrentHistogram() {
	m := &prom.Histogram{Labels: []string{"op"}, Buckets: buckets}
	if vsym.Bool("observed before") {
		m.Observe(0, "a")
	}
	before := 0.0
	if n, ok := read(m, "h").get("h_count", "op", "a"); ok {
		before = n
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		m.Observe(1, "a")
		if vsym.Tier() == "thorough" {
			m.Observe(5, "b")
		}
	}()
	go func() {
		defer wg.Done()
		m.Observe(-3, "a")
	}()
	consistent(m, before)
	wg.Wait()
	s := read(m, "h")
	n, _ := s.get("h_count", "op", "a")
	sum, _ := s.get("h_sum", "op", "a")
	vsym.Assert(n == before+2 && sum == -2, "nothing is lost")
	low, _ := s.get("h_bucket", "op", "a", "le", "-1")
	vsym.Assert(low == 1, "nothing is lost in a bucket")
	vsym.Reach("concurrent")
}

func consistent(m *prom.Histogram, atLeast float64) {
	s := read(m, "h")
	for _, op := range []string{"a", "b"} {
		n, ok := s.get("h_count", "op", op)
		if !ok {
			vsym.Assert(op == "b" || atLeast == 0, "what was there is there")
			continue
		}
		vsym.Assert(op == "b" || n >= atLeast, "what was there is there")
		inf, _ := s.get("h_bucket", "op", op, "le", "+Inf")
		last := 0.0
		for _, le := range []string{"-1", "0.1", "2"} {
			b, ok := s.get("h_bucket", "op", op, "le", le)
			vsym.Assert(ok && b >= last, "buckets are cumulative")
			last = b
		}
		vsym.Assert(inf == n && last <= n, "the last bucket is the count")
		sum, _ := s.get("h_sum", "op", op)
		low, _ := s.get("h_bucket", "op", op, "le", "-1")
		two, _ := s.get("h_bucket", "op", op, "le", "2")
		zero, _ := s.get("h_bucket", "op", op, "le", "0.1")
		vsym.Assert(op == "b" || sum == -3*low+(two-zero), "the sum and the buckets are of the same moment")
	}
}

// H_ConcurrentCounter: the same for counters.
//
//vsym:all race=1 native=16
//vsym:quick preempt=2 time=120
//vsym:thorough preempt=3 time=300
func H_ConcurrentCounter() {
	m := &prom.Counter{Name: "c", Labels: []string{"op"}}
	g := &prom.Gauge{Labels: []string{"op"}}
	gauge := vsym.Bool("gauge")
	add := func(v float64) {
		if gauge {
			g.Counter("a").Inc(int(v))
		} else {
			m.Observe(v, "a")
		}
	}
	get := func() (float64, bool) {
		if gauge {
			return read(g, "c").get("c", "op", "a")
		}
		return readCounter(m).get("c", "op", "a")
	}
	if vsym.Bool("observed before") {
		add(0)
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); add(1) }()
	go func() { defer wg.Done(); add(2) }()
	v, ok := get()
	vsym.Assert(!ok || v == 0 || v == 1 || v == 2 || v == 3, "a sum there was")
	wg.Wait()
	v, ok = get()
	vsym.Assert(ok && v == 3, "nothing is lost")
	vsym.Reach("concurrent")
}

type failing struct {
	n   int
	err error
	buf bytes.Buffer
}

func (w *failing) Write(b []byte) (int, error) {
	if w.n == 0 {
		return 0, w.err
	}
	w.n--
	return w.buf.Write(b)
}

// H_Fail: a failing writer is reported, and breaks nothing.
//
//vsym:all native=16
func H_Fail() {
	h := &prom.Histogram{Labels: []string{"op"}, Buckets: buckets}
	h1 := &prom.Histogram{Buckets: buckets}
	k := &prom.Counter{Name: "c", Labels: []string{"op"}, Gauge: vsym.Bool("gauge")}
	k1 := &prom.Counter{Name: "c"}
	g := &prom.Gauge{Labels: []string{"op"}}
	g1 := &prom.Gauge{}
	cu := &prom.Custom{Type: "gauge", Func: func() map[string]any { return map[string]any{`m{a="a"}`: 1, `m{a="b"}`: 2} }}
	act := func() {
		h.Observe(1, "x")
		h1.Observe(1)
		k.Observe(1, "x")
		k1.Observe(1)
		g.Counter("x").Inc(1)
		g1.Counter().Inc(1)
	}
	act()
	w := &failing{n: vsym.Choice("writes", 9), err: errors.New("failed")}
	print := func(w *failing) error {
		switch vsym.Choice("kind", 7) {
		case 0:
			return h.Print("m", w)
		case 1:
			return h1.Print("m", w)
		case 2:
			return k.Print(w)
		case 3:
			return k1.Print(w)
		case 4:
			return g.Print("m", w)
		case 5:
			return g1.Print("m", w)
		default:
			return cu.Print("m", w)
		}
	}
	err := print(w)
	vsym.Assert(err == nil || errors.Is(err, w.err), "the error of the writer")
	if err == nil {
		s := parse(w.buf.String())
		vsym.Assert(len(s.order) > 0, "all is printed if there was no error")
		if len(s.typ) > 0 && s.typ["m"] == "histogram" {
			vsym.Assert(len(s.order) == 6, "all is printed if there was no error")
		}
	} else {
		vsym.Assert(w.n == 0, "there was an error")
	}
	act()
	s := read(h, "h")
	n, _ := s.get("h_count", "op", "x")
	vsym.Assert(n == 2, "and it goes on")
	s = read(h1, "h")
	n, _ = s.get("h_count")
	vsym.Assert(n == 2, "and it goes on")
	v, _ := readCounter(k).get("c", "op", "x")
	vsym.Assert(v == 2, "and it goes on")
	vsym.Reach("fail")
}

func registered() map[string]prom.Metric {
	m := map[string]prom.Metric{}
	_ = prom.Range(func(name string, x prom.Metric) error {
		m[name] = x
		return nil
	})
	return m
}

// H_Register: a name is one metric, however it is registered.
//
//vsym:all race=1 native=16
//vsym:quick preempt=2
//vsym:thorough preempt=3 time=300
func H_Register() {
	n := len(registered())
	a, b, x := &prom.Gauge{}, &prom.Gauge{}, &prom.Gauge{}
	other := "same"
	if vsym.Bool("another name") {
		other = "other"
	}
	var wg sync.WaitGroup
	wg.Add(2)
	var p1, p2 bool
	go func() {
		defer wg.Done()
		_, p1 = vsym.Panics(func() { vsym.Assert(prom.Register("same", a) == a, "the metric is given back") })
	}()
	go func() {
		defer wg.Done()
		_, p2 = vsym.Panics(func() { vsym.Assert(prom.Register(other, b) == b, "the metric is given back") })
	}()
	mid := registered()
	vsym.Assert(len(mid) >= n && len(mid) <= n+2, "those there are")
	wg.Wait()
	m := registered()
	if other == "other" {
		vsym.Assert(!p1 && !p2 && m["same"] == prom.Metric(a) && m["other"] == prom.Metric(b) && len(m) == n+2, "both are registered")
	} else {
		vsym.Assert(p1 != p2, "one is refused")
		if p1 {
			vsym.Assert(m["same"] == prom.Metric(b), "and the other is there")
		} else {
			vsym.Assert(m["same"] == prom.Metric(a), "and the other is there")
		}
		vsym.Assert(len(m) == n+1, "once")
	}
	_, p := vsym.Panics(func() { prom.Register("same", x) })
	vsym.Assert(p && len(registered()) == len(m), "a second one is refused")
	stop := errors.New("stop")
	calls := 0
	err := prom.Range(func(string, prom.Metric) error {
		calls++
		if calls == 1 {
			prom.Register("inside", x) // does not block
		}
		if calls == 2 {
			return stop
		}
		return nil
	})
	vsym.Assert(err == stop && calls == 2, "an error ends it")
	vsym.Reach("register")
}

// rec records a response as a client would get it.
type rec struct {
	h    gohttp.Header
	code int
	body []byte
}

func (r *rec) Header() gohttp.Header { return r.h }
func (r *rec) WriteHeader(code int)  { r.code = code }
func (r *rec) Write(b []byte) (int, error) {
	if r.code == 0 {
		r.code = 200
	}
	r.body = append(r.body, b...)
	return len(b), nil
}

// noHijack is a writer that can be taken over, in principle.
type noHijack struct{ *rec }

func (noHijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return nil, nil, errors.New("not this one")
}

// H_Requests: each request to a handler is counted once, with what was
// answered, also if it could not be taken over before.
//
//vsym:all native=8
func H_Requests() {
	s := http.NewServer(c)
	code := []int{200, 204, 404, 500}[vsym.Choice("code", 4)]
	silent := code == 200 && vsym.Bool("writes nothing")
	hijack := vsym.Bool("hijack")
	s.HandleFunc("/x/", func(w gohttp.ResponseWriter, r *gohttp.Request) {
		if hijack {
			_, _, err := w.(gohttp.Hijacker).Hijack()
			vsym.Assert(err != nil, "refused")
		}
		if silent {
			return // like any handler of net/http
		}
		if code == 200 {
			_, _ = w.Write([]byte("ok"))
		} else {
			w.WriteHeader(code)
			w.WriteHeader(418) // is ignored
		}
	})
	n := vsym.Choice("n", 3)
	method := []string{"GET", "POST"}[vsym.Choice("method", 2)]
	for i := 0; i < n; i++ {
		w := &rec{h: gohttp.Header{}}
		r := &gohttp.Request{Method: method, URL: &url.URL{Path: "/x/" + strconv.Itoa(i)}, Host: "x", Header: gohttp.Header{}}
		if hijack {
			s.Mux().ServeHTTP(noHijack{w}, r.WithContext(c))
		} else {
			s.Mux().ServeHTTP(w, r.WithContext(c))
		}
		vsym.Assert(w.code == code || silent && w.code == 0, "answered")
	}
	var buf bytes.Buffer
	vsym.Assert(http.Metrics.Request.Print("h", &buf) == nil, "printed")
	x := parse(buf.String())
	got, ok := x.get("h_count", "method", method, "path", "/x/", "code", strconv.Itoa(code))
	vsym.Assert(ok == (n > 0) && got == float64(n), "each request is counted with its method, path and status")
	vsym.Assert(ok == (len(x.order) > 0), "and nothing else is")
	vsym.Reach("requests")
}

// H_Listen: the same over the network, for all that a server can handle.
//
//vsym:all preempt=0 timers=0 delay=1 fuel=50000000
//vsym:quick time=60
//vsym:thorough time=300
func H_Listen() {
	s := http.NewServer(c)
	s.HandleFunc("/x/", func(w gohttp.ResponseWriter, r *gohttp.Request) {
		switch r.URL.Path {
		case "/x/silent":
		case "/x/text":
			_, _ = w.Write([]byte("ok"))
		default:
			w.WriteHeader(403)
		}
	})
	s.HandleFunc("/hijack", func(w gohttp.ResponseWriter, r *gohttp.Request) {
		k, _, err := w.(gohttp.Hijacker).Hijack()
		vsym.Assert(err == nil, "a connection can be taken over")
		_, _ = k.Write([]byte("HTTP/1.1 101 OK\r\n\r\n"))
		_ = k.Close()
	})
	s.HandleRequest("/echo", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) { return in, nil })
	a, err := s.Listen(c, "127.0.0.1:0")
	vsym.Assert(err == nil, "listening")
	want := map[string]int{}
	total := 0
	for i := 0; i < 2; i++ {
		k, err := memnet.Dial(a)
		vsym.Assert(err == nil, "connected")
		r := bufio.NewReader(k)
		w := []struct {
			path, label string
			code        int
		}{
			{"/x/silent", "/x/", 200},
			{"/x/text", "/x/", 200},
			{"/x/none", "/x/", 403},
			{"/hijack", "/hijack", 101},
			{"/echo", "/echo", 204},
			{"/live", "/live", 204},
			{"/nothing", "/nothing", 404},
		}[vsym.Choice("request", 7)]
		_, err = k.Write([]byte("GET " + w.path + " HTTP/1.1\r\nHost: x\r\n\r\n"))
		vsym.Assert(err == nil, "sent")
		res, err := gohttp.ReadResponse(r, nil)
		vsym.Assert(err == nil && res.StatusCode == w.code, "answered")
		k.Close()
		want[w.label+" "+strconv.Itoa(w.code)]++
		total++
	}
	vsym.Quiesce()
	var buf bytes.Buffer
	vsym.Assert(http.Metrics.Request.Print("h", &buf) == nil, "printed")
	x := parse(buf.String())
	for k, n := range want {
		label, code, _ := strings.Cut(k, " ")
		got, ok := x.get("h_count", "method", "GET", "path", label, "code", code)
		vsym.Assert(ok && got == float64(n), "each request is counted once, with its method, path and status")
	}
	counts := 0
	for _, o := range x.order {
		if strings.HasPrefix(o.name, "h_count") {
			counts++
		}
	}
	vsym.Assert(counts == len(want), "and nothing else is")
	vsym.Reach("listen")
	vsym.Done()
}

// broken is a metric that can't be printed at first.
type broken struct{ calls *int }

func (b broken) Print(name string, w io.Writer) error {
	*b.calls++
	if *b.calls == 1 {
		return errors.New("no way")
	}
	_, err := w.Write([]byte("# TYPE " + name + " untyped\n" + name + " 7\n"))
	return err
}

// H_Scrape: what a server tells Prometheus is one valid document with every
// registered metric and its values, each time it is asked, also while others
// ask or observe; it is not broken by a metric which failed.
//
//vsym:all preempt=0 timers=0 native=8
func H_Scrape() {
	labels := prom.Register("t_counter", &prom.Histogram{Labels: []string{"op"}, Buckets: buckets})
	gauge := prom.Register("t_gauge", &prom.Gauge{Desc: "a\nb"}).Counter()
	fails := vsym.Bool("fails")
	calls := 0
	if fails {
		prom.Register("t_broken", broken{&calls})
	}
	s := http.NewServer(c)
	path := []string{"", "/m", "/metrics"}[vsym.Choice("path", 3)]
	s.SetupPrometheus(c, path)
	if path == "" {
		path = "/metrics"
	}
	if vsym.Bool("late") {
		prom.Register("t_late", &prom.Gauge{}).Counter().Inc(3)
	}
	get := func() *rec {
		w := &rec{h: gohttp.Header{}}
		r := &gohttp.Request{Method: "GET", URL: &url.URL{Path: path}, Host: "x", Header: gohttp.Header{}}
		s.Mux().ServeHTTP(w, r.WithContext(c))
		return w
	}
	if fails {
		get() // whatever it tells
	}
	n := vsym.Choice("n", 3)
	for i := 0; i < n; i++ {
		op := []string{"get", "\"\n"}[vsym.Choice("op", 2)]
		labels.Observe(0.1, op)
		gauge.Inc(2)
		w := get()
		vsym.Assert(w.code == 200, "answered")
		x := parse(string(w.body))
		v, ok := x.get("t_gauge")
		vsym.Assert(ok && v == float64(2*(i+1)) && x.help["t_gauge"] == "a\nb", "the gauge")
		_, ok = x.get("t_counter_bucket", "op", op, "le", "2")
		vsym.Assert(ok && x.typ["t_counter"] == "histogram", "the histogram")
		seen := map[string]bool{}
		for name := range x.typ {
			seen[name] = true
		}
		err := prom.Range(func(name string, m prom.Metric) error {
			if name != "http_request" { // there was none
				vsym.Assert(seen[name], "every registered metric is told")
			}
			delete(seen, name)
			return nil
		})
		vsym.Assert(err == nil && len(seen) == 0, "and nothing else is")
		if fails {
			v, ok := x.get("t_broken")
			vsym.Assert(ok && v == 7, "also what failed before")
		}
	}
	vsym.Reach("scrape")
}

// H_Many: many series, labels and buckets.
//
//vsym:all native=8 fuel=60000000
//vsym:quick time=60
func H_Many() {
	n := []int{9, 70, 200}[vsym.Choice("n", 3)]
	at := vsym.Choice("at", 3) * (n - 1) / 2
	var s *scrape
	switch vsym.Choice("what", 3) {
	case 0: // series
		m := &prom.Histogram{Labels: []string{"a", "b"}, Buckets: []float64{50, 100}}
		g := &prom.Gauge{Labels: []string{"a", "b"}}
		for i := 0; i < n; i++ {
			for j := 0; j <= i%3; j++ {
				m.Observe(float64(i), strconv.Itoa(i), "x")
				g.Counter(strconv.Itoa(i), "x").Inc(i)
			}
		}
		m.Observe(7, strconv.Itoa(at), "x")
		g.Counter(strconv.Itoa(at), "x").Dec(7)
		s = read(m, "h")
		x := read(g, "g")
		vsym.Assert(len(s.order) == 5*n && len(x.order) == n, "nothing else is printed")
		for i := 0; i < n; i++ {
			k := float64(i%3 + 1)
			count, sum, low, gauge := k, k*float64(i), 0.0, k*float64(i)
			if i <= 50 {
				low = k
			}
			if i == at {
				count, sum, low, gauge = count+1, sum+7, low+1, gauge-7
			}
			l := []string{"a", strconv.Itoa(i), "b", "x"}
			v, ok := s.get("h_count", l...)
			vsym.Assert(ok && v == count, "the count is the number of observations")
			v, ok = s.get("h_sum", l...)
			vsym.Assert(ok && v == sum, "the sum is the sum of the observations")
			v, ok = s.get("h_bucket", append([]string{"le", "50"}, l...)...)
			vsym.Assert(ok && v == low, "a bucket counts what is not above it")
			v, ok = x.get("g", l...)
			vsym.Assert(ok && v == gauge, "a gauge is the sum of its changes")
		}
	case 1: // buckets
		m := &prom.Histogram{Labels: []string{"a"}}
		for i := 0; i < n; i++ {
			m.Buckets = append(m.Buckets, float64(i*2))
		}
		for i := 0; i < n; i++ {
			m.Observe(float64(2*i), "x")
			m.Observe(float64(2*i)+0.5, "x")
		}
		m.Observe(float64(2*at), "x")
		s = read(m, "h")
		vsym.Assert(len(s.order) == n+3, "nothing else is printed")
		for i := 0; i < n; i++ {
			want := 2*i + 1
			if at <= i {
				want++
			}
			v, ok := s.get("h_bucket", "a", "x", "le", strconv.Itoa(i*2))
			vsym.Assert(ok && v == float64(want), "a bucket counts what is not above it")
		}
		v, ok := s.get("h_bucket", "a", "x", "le", "+Inf")
		total, ok2 := s.get("h_count", "a", "x")
		vsym.Assert(ok && ok2 && v == float64(2*n+1) && total == v, "the last one counts all")
	default: // labels, long values
		if n > 70 {
			n, at = 70, at/3
		}
		g := &prom.Gauge{}
		var labels, vals []string
		for i := 0; i < n; i++ {
			g.Labels = append(g.Labels, "l"+strconv.Itoa(i))
			v := strings.Repeat("v\"\n\\", i%20)
			if i == at {
				v = vsym.StringIn("v", 0, 2, "a\"\n\\")
			}
			vals = append(vals, v)
			labels = append(labels, g.Labels[i], v)
		}
		g.Counter(vals...).Inc(1)
		g.Counter(vals...).Inc(2)
		s = read(g, "g")
		v, ok := s.get("g", labels...)
		vsym.Assert(ok && v == 3 && len(s.order) == 1, "a series of many labels")
	}
	vsym.Reach("many")
}
