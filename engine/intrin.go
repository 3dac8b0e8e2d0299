package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, a []Value) Value

var intrinsics = map[string]intrinsic{}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

// redirects are functions replaced by those of a model written in Go, if the
// harness imports it, and those without a body
var redirects = map[string]string{
	"(*net.Dialer).DialContext": "verif/harness/memnet.DialContext",
	"net.Listen":                "verif/harness/memnet.Listen",
	"net/http.readMIMEHeader":   "net/textproto.readMIMEHeader",
}

func lookupIntrinsic(in *Interp, fn *Fn) func(in *Interp, args []Value) Value {
	f := fn.ssa
	name := fn.name
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if w, ok := wrappers[name]; ok {
		return in.wrap(fn, w)
	}
	if name == "unique.Make" && len(f.TypeArgs()) == 1 {
		t := f.TypeArgs()[0]
		return func(in *Interp, a []Value) Value {
			find := func(l []Value) (Value, bool) {
				for _, p := range l {
					if in.cond(in.eqVal(*in.ptr(p), a[0], t)) {
						return p, true
					}
				}
				return Value{}, false
			}
			k := [2]any{"unique", t}
			p, ok := find(in.unique[t])
			if !ok && in.tracking {
				l, _ := in.side[k].([]Value)
				p, ok = find(l)
			}
			if !ok {
				v := new(Value)
				*v = copyVal(a[0])
				p = Value{r: v}
				if !in.tracking {
					in.unique[t] = append(in.unique[t], p)
				} else {
					l, _ := in.side[k].([]Value)
					in.side[k] = append(l[:len(l):len(l)], p)
				}
			}
			return Value{r: Agg{p}}
		}
	}
	if r, ok := redirects[name]; ok {
		i := strings.LastIndexByte(r, '.')
		if pk := in.p.prog.ImportedPackage(r[:i]); pk != nil {
			to := pk.Func(r[i+1:])
			return func(in *Interp, a []Value) Value { return in.callFn(in.fn(to), a) }
		}
	}
	if in.cfg != nil && in.cfg.Stubs[name] {
		sig := f.Signature
		return func(in *Interp, a []Value) Value { return zeroResult(sig) }
	}
	if strings.HasPrefix(name, "verif/harness/vsym.") || strings.HasPrefix(name, "verif/harness/vsym[") {
		if i, ok := vsymIntr[strings.TrimPrefix(name, "verif/harness/vsym.")]; ok {
			return func(in *Interp, a []Value) Value { return i(in, fn, a) }
		}
	}
	if r := reflectIntrinsic(in, fn, name); r != nil {
		return r
	}
	if fn.pkgPath == "runtime" && f.Blocks != nil {
		switch {
		case strings.Contains(name, "Error") || strings.Contains(name, "error"):
			return nil
		}
	}
	return nil
}

func retTuple(vs ...Value) Value { return Value{r: Tuple(vs)} }

func (in *Interp) arg(v Value) int { return int(int64(in.concInt(v, kI64))) }

func sl(v Value) []Value {
	switch x := v.r.(type) {
	case []Value:
		return x
	case nil:
		return nil
	}
	return strBytes(v)
}

// errorString value via errors.New
func (in *Interp) mkErr(msg string) Value {
	f := in.p.prog.ImportedPackage("errors").Func("New")
	return in.callFn(in.fn(f), []Value{vStr(msg)})
}

func noop(in *Interp, a []Value) Value  { return Value{} }
func ident(in *Interp, a []Value) Value { return a[0] }

func (in *Interp) byteEq(a, b Value) Value {
	if a.r == nil && b.r == nil {
		return vBool(byte(a.n) == byte(b.n))
	}
	return in.val(in.db.Eq(in.term(a, kU8), in.term(b, kU8)), kBool)
}

func (in *Interp) seqEq(a, b []Value) Value {
	if len(a) != len(b) {
		return vBool(false)
	}
	r := vBool(true)
	for i := range a {
		r = in.andV(r, in.byteEq(a[i], b[i]))
		if r.r == nil && r.n == 0 {
			return r
		}
	}
	return r
}

func (in *Interp) indexByte(s []Value, c Value) int {
	for i := range s {
		if in.cond(in.byteEq(s[i], c)) {
			return i
		}
	}
	return -1
}

func (in *Interp) indexSeq(s, sep []Value) int {
	n := len(sep)
	for i := 0; i+n <= len(s); i++ {
		if in.cond(in.seqEq(s[i:i+n], sep)) {
			return i
		}
	}
	return -1
}

// lessSeq compares byte sequences: -1, 0, +1 (forking)
func (in *Interp) cmpSeq(a, b []Value) int {
	av, bv := Value{r: &SymStr{a}}, Value{r: &SymStr{b}}
	if len(a) == 0 {
		av = Value{}
	}
	if len(b) == 0 {
		bv = Value{}
	}
	if in.cond(in.strEq(av, bv)) {
		return 0
	}
	if in.cond(in.strLess(av, bv)) {
		return -1
	}
	return 1
}

func init() {
	// the file system is empty
	enoent := func(in *Interp) Value {
		t := in.p.canon(in.p.prog.ImportedPackage("syscall").Type("Errno").Object().Type())
		return Value{r: &Iface{t: t, v: Value{n: 2}}}
	}
	reg(func(in *Interp, a []Value) Value { return retTuple(vInt(-1), enoent(in)) }, "syscall.Open", "syscall.openat", "syscall.Openat")
	reg(func(in *Interp, a []Value) Value { return enoent(in) }, "syscall.Stat", "syscall.Lstat", "syscall.fstatat", "syscall.Mkdir", "syscall.Unlink", "syscall.Rmdir")
	reg(func(in *Interp, a []Value) Value { return Value{} }, "syscall.init#1", "os.init#1", "os.init#2", "net.init#1", "net.init#2", "internal/godebug.init#1", "os/signal.init#1", "runtime/pprof.init#1")
	reg(noop,
		"runtime.GC", "runtime.Gosched0", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable",
		"internal/race.ReleaseMerge", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"internal/msan.Read", "internal/msan.Write", "internal/asan.Read", "internal/asan.Write",
		"internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault",
		"(*internal/godebug.Setting).IncNonDefault", "runtime/debug.SetGCPercent",
		"os.runtime_beforeExit", "internal/poll.runtime_pollServerInit", "runtime.AddCleanup",
		"internal/testlog.Getenv", "internal/testlog.Open", "internal/testlog.Stat", "testing.runtime_registerTestCover",
	)
	reg(func(in *Interp, a []Value) Value { return Value{} }, "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).Name")
	reg(ident, "internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "bytes.noescape", "reflect.noescape",
		"internal/stringslite.Clone", "strings.Clone", "internal/bytealg.noescape")
	reg(func(in *Interp, a []Value) Value { return vBool(false) }, "internal/godebugs.x", "internal/testlog.PanicOnExit0")

	// ---- internal/bytealg and friends ----
	reg(func(in *Interp, a []Value) Value { return vInt(in.indexByte(sl(a[0]), a[1])) },
		"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte", "internal/stringslite.IndexByte")
	reg(func(in *Interp, a []Value) Value {
		s := sl(a[0])
		for i := len(s) - 1; i >= 0; i-- {
			if in.cond(in.byteEq(s[i], a[1])) {
				return vInt(i)
			}
		}
		return vInt(-1)
	}, "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte")
	reg(func(in *Interp, a []Value) Value { return vInt(in.indexSeq(sl(a[0]), sl(a[1]))) },
		"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index")
	reg(func(in *Interp, a []Value) Value {
		n := 0
		for _, b := range sl(a[0]) {
			if in.cond(in.byteEq(b, a[1])) {
				n++
			}
		}
		return vInt(n)
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	reg(func(in *Interp, a []Value) Value { return in.seqEq(sl(a[0]), sl(a[1])) }, "internal/bytealg.Equal", "bytes.Equal")
	reg(func(in *Interp, a []Value) Value { return vInt(in.cmpSeq(sl(a[0]), sl(a[1]))) },
		"internal/bytealg.Compare", "bytes.Compare", "internal/bytealg.CompareString", "strings.Compare", "runtime.cmpstring")
	reg(func(in *Interp, a []Value) Value {
		n := in.arg(a[0])
		return Value{r: make([]Value, n)}
	}, "internal/bytealg.MakeNoZero", "bytes.makeNoZero")

	// ---- math ----
	reg(func(in *Interp, a []Value) Value {
		if t, ok := a[0].r.(*Term); ok {
			if t.op == OFOfBits {
				return in.val(t.args[0], kU64)
			}
			b := in.freshU("fbits", 64, 0, ^uint64(0))
			in.addPC(in.db.Eq(in.db.fop(OFOfBits, SF64, 0, b), t))
			return in.val(b, kU64)
		}
		return Value{n: a[0].n}
	}, "math.Float64bits")
	reg(func(in *Interp, a []Value) Value {
		if t, ok := a[0].r.(*Term); ok {
			return in.val(in.db.fop(OFOfBits, SF64, 0, t), kF64)
		}
		return Value{n: a[0].n}
	}, "math.Float64frombits")
	reg(func(in *Interp, a []Value) Value {
		if t, ok := a[0].r.(*Term); ok {
			b := in.freshU("fbits", 32, 0, 0xffffffff)
			in.addPC(in.db.Eq(in.db.fop(OFOfBits, SF32, 0, b), t))
			return in.val(b, kU32)
		}
		return Value{n: uint64(math.Float32bits(float32(math.Float64frombits(a[0].n))))}
	}, "math.Float32bits")
	reg(func(in *Interp, a []Value) Value {
		if t, ok := a[0].r.(*Term); ok {
			return in.val(in.db.fop(OFOfBits, SF32, 0, t), kF32)
		}
		return vF64(float64(math.Float32frombits(uint32(a[0].n))))
	}, "math.Float32frombits")
	m1 := func(name string, f func(float64) float64, sym func(in *Interp, t *Term) *Term) {
		reg(func(in *Interp, a []Value) Value {
			if t, ok := a[0].r.(*Term); ok {
				if sym == nil {
					in.unsupported("math.%s of a symbolic value", name)
				}
				return in.val(sym(in, t), kF64)
			}
			return vF64(f(math.Float64frombits(a[0].n)))
		}, "math."+name)
	}
	rnd := func(k uint64) func(in *Interp, t *Term) *Term {
		return func(in *Interp, t *Term) *Term { return in.db.fop(OFRound, SF64, k, t) }
	}
	m1("Floor", math.Floor, rnd(1))
	m1("Ceil", math.Ceil, rnd(2))
	m1("Trunc", math.Trunc, rnd(0))
	m1("Round", math.Round, rnd(4))
	m1("RoundToEven", math.RoundToEven, rnd(3))
	m1("Sqrt", math.Sqrt, func(in *Interp, t *Term) *Term { return in.db.fop(OFSqrt, SF64, 0, t) })
	m1("Abs", math.Abs, func(in *Interp, t *Term) *Term { return in.db.fop(OFAbs, SF64, 0, t) })
	m1("Exp", math.Exp, nil)
	m1("Log", math.Log, nil)
	m1("Log2", math.Log2, nil)
	m1("Log10", math.Log10, nil)
	reg(func(in *Interp, a []Value) Value {
		if a[0].r != nil || a[1].r != nil {
			in.unsupported("symbolic math.Pow")
		}
		return vF64(math.Pow(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))
	}, "math.Pow")
	reg(func(in *Interp, a []Value) Value {
		if a[0].r != nil || a[1].r != nil {
			in.unsupported("symbolic math.Mod")
		}
		return vF64(math.Mod(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))
	}, "math.Mod")
	reg(func(in *Interp, a []Value) Value {
		if t, ok := a[0].r.(*Term); ok {
			return in.val(in.db.fop(OFIsNaN, 0, 0, t), kBool)
		}
		return vBool(math.IsNaN(math.Float64frombits(a[0].n)))
	}, "math.IsNaN")
	bl := func(name string, w uint8, f func(x uint64) int) {
		reg(func(in *Interp, a []Value) Value {
			if isSym(a[0]) {
				return in.symBits(name, in.term(a[0], map[uint8]kind{8: kU8, 16: kU16, 32: kU32, 64: kU64}[w]))
			}
			return vInt(f(a[0].n))
		}, "math/bits."+name)
	}
	bl("Len64", 64, func(x uint64) int { return bits.Len64(x) })
	bl("Len", 64, func(x uint64) int { return bits.Len64(x) })
	bl("Len32", 32, func(x uint64) int { return bits.Len32(uint32(x)) })
	bl("Len8", 8, func(x uint64) int { return bits.Len8(uint8(x)) })
	bl("LeadingZeros64", 64, func(x uint64) int { return bits.LeadingZeros64(x) })
	bl("TrailingZeros64", 64, func(x uint64) int { return bits.TrailingZeros64(x) })
	bl("TrailingZeros", 64, func(x uint64) int { return bits.TrailingZeros64(x) })
	bl("TrailingZeros32", 32, func(x uint64) int { return bits.TrailingZeros32(uint32(x)) })
	bl("OnesCount64", 64, func(x uint64) int { return bits.OnesCount64(x) })
	reg(func(in *Interp, a []Value) Value {
		if isSym(a[0]) || isSym(a[1]) {
			// exact when the product provably fits in 64 bits
			x, y := in.term(a[0], kU64), in.term(a[1], kU64)
			h, _ := bits.Mul64(x.uhi, y.uhi)
			if h == 0 {
				return retTuple(Value{}, in.val(in.db.Mul(x, y), kU64))
			}
			in.unsupported("symbolic bits.Mul64")
		}
		h, l := bits.Mul64(a[0].n, a[1].n)
		return retTuple(Value{n: h}, Value{n: l})
	}, "math/bits.Mul64", "math/bits.Mul")
	reg(func(in *Interp, a []Value) Value {
		f := math.Float64frombits
		if isSym(a[0]) || isSym(a[1]) || isSym(a[2]) {
			in.unsupported("symbolic FMA")
		}
		return vF64(math.FMA(f(a[0].n), f(a[1].n), f(a[2].n)))
	}, "math.FMA")

	// ---- strconv on symbolic numbers ----
	reg(func(in *Interp, a []Value) Value {
		return in.formatInt(a[0], a[1], true)
	}, "strconv.FormatInt", "internal/strconv.FormatInt")
	reg(func(in *Interp, a []Value) Value { return in.formatInt(a[0], a[1], false) }, "strconv.FormatUint", "internal/strconv.FormatUint")
	reg(func(in *Interp, a []Value) Value { return in.formatInt(a[0], vInt(10), true) }, "strconv.Itoa", "internal/strconv.Itoa")
	reg(func(in *Interp, a []Value) Value {
		s := in.formatInt(a[1], a[2], true)
		return in.appendVals(sl(a[0]), strBytes(s), nil, a[0])
	}, "strconv.AppendInt", "internal/strconv.AppendInt")
	reg(func(in *Interp, a []Value) Value {
		s := in.formatInt(a[1], a[2], false)
		return in.appendVals(sl(a[0]), strBytes(s), nil, a[0])
	}, "strconv.AppendUint", "internal/strconv.AppendUint")
	reg(func(in *Interp, a []Value) Value {
		f, fm, p, bs := in.fmtFloatArgs(a[0], a[1], a[2], a[3])
		return vStr(strconv.FormatFloat(f, fm, p, bs))
	}, "strconv.FormatFloat", "internal/strconv.FormatFloat")
	reg(func(in *Interp, a []Value) Value {
		f, fm, p, bs := in.fmtFloatArgs(a[1], a[2], a[3], a[4])
		return in.appendVals(sl(a[0]), strBytes(vStr(strconv.FormatFloat(f, fm, p, bs))), nil, a[0])
	}, "strconv.AppendFloat", "internal/strconv.AppendFloat")

	// ---- runtime ----
	reg(func(in *Interp, a []Value) Value {
		skip := in.arg(a[0])
		fs := in.callers(skip + 0)
		if len(fs) == 0 {
			return retTuple(Value{}, Value{}, Value{}, vBool(false))
		}
		f := fs[0]
		return retTuple(Value{n: in.pcOf(f)}, vStr(f.file), vInt(f.line), vBool(true))
	}, "runtime.Caller")
	reg(func(in *Interp, a []Value) Value {
		skip := in.arg(a[0])
		pcs := sl(a[1])
		fs := in.callers(skip - 1)
		n := 0
		for _, f := range fs {
			if n >= len(pcs) {
				break
			}
			in.store(&pcs[n], Value{n: in.pcOf(f)})
			n++
		}
		return vInt(n)
	}, "runtime.Callers")
	reg(func(in *Interp, a []Value) Value {
		c := new(Value)
		*c = Value{r: &framesIter{pcs: append([]Value(nil), sl(a[0])...)}}
		return Value{r: c}
	}, "runtime.CallersFrames")
	reg(func(in *Interp, a []Value) Value {
		it := a[0].r.(*Value).r.(*framesIter)
		rt := in.p.prog.ImportedPackage("runtime")
		ft := rt.Type("Frame").Type()
		z := zeroOf(ft)
		ag := z.r.(Agg)
		if it.i < len(it.pcs) {
			f := in.pcTab()[it.pcs[it.i].n]
			it.i++
			st := ft.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				switch st.Field(i).Name() {
				case "PC":
					ag[i] = it.pcs[it.i-1]
				case "Function":
					ag[i] = vStr(f.fn)
				case "File":
					ag[i] = vStr(f.file)
				case "Line":
					ag[i] = vInt(f.line)
				}
			}
		}
		return retTuple(z, vBool(it.i < len(it.pcs)))
	}, "(*runtime.Frames).Next")
	reg(func(in *Interp, a []Value) Value {
		f, ok := in.pcTab()[a[0].n]
		if !ok {
			return Value{}
		}
		c := new(Value)
		*c = Value{r: &f}
		return Value{r: c}
	}, "runtime.FuncForPC")
	reg(func(in *Interp, a []Value) Value {
		c, _ := a[0].r.(*Value)
		if c == nil {
			return Value{}
		}
		return vStr(c.r.(*pcInfo).fn)
	}, "(*runtime.Func).Name")
	reg(func(in *Interp, a []Value) Value {
		c, _ := a[0].r.(*Value)
		if c == nil {
			return retTuple(vStr("?"), Value{})
		}
		return retTuple(vStr(c.r.(*pcInfo).file), vInt(c.r.(*pcInfo).line))
	}, "(*runtime.Func).FileLine")
	reg(func(in *Interp, a []Value) Value { return Value{n: 8} }, "runtime.NumCPU", "runtime.GOMAXPROCS")
	reg(func(in *Interp, a []Value) Value {
		n := 0
		for _, g := range in.sched.gs {
			if g.status != gDone {
				n++
			}
		}
		return vInt(n)
	}, "runtime.NumGoroutine")
	reg(func(in *Interp, a []Value) Value {
		in.visibleOp(pendOp{kind: "yield"})
		return Value{}
	}, "runtime.Gosched")
	reg(func(in *Interp, a []Value) Value { panic(targetPanic{goexit: true}) }, "runtime.Goexit")
	reg(func(in *Interp, a []Value) Value {
		return Value{r: strBytes(vStr("goroutine 1 [running]:\nmain.main()\n"))}
	}, "runtime/debug.Stack")
	reg(func(in *Interp, a []Value) Value {
		s := strBytes(vStr("goroutine 1 [running]:\n"))
		d := sl(a[0])
		n := min(len(s), len(d))
		for i := 0; i < n; i++ {
			in.store(&d[i], s[i])
		}
		return vInt(n)
	}, "runtime.Stack")
	reg(func(in *Interp, a []Value) Value { return Value{} }, "crypto/internal/boring/sig.StandardCrypto", "runtime.ReadMemStats", "runtime/debug.ReadGCStats", "runtime/debug.FreeOSMemory")
	reg(func(in *Interp, a []Value) Value { return retTuple(Value{}, vBool(false)) }, "runtime/debug.ReadBuildInfo")
	reg(func(in *Interp, a []Value) Value { return vStr("go1.27") }, "runtime.Version")

	// random numbers: a deterministic sequence (only used for identifiers)
	rnd64 := func(in *Interp) uint64 {
		in.fresh++
		x := uint64(in.fresh)*0x9E3779B97F4A7C15 + 12345
		x ^= x >> 31
		x *= 0xBF58476D1CE4E5B9
		return x ^ x>>29
	}
	reg(func(in *Interp, a []Value) Value { return Value{n: rnd64(in)} }, "runtime.rand", "math/rand.runtime_rand", "math/rand/v2.runtime_rand",
		"internal/rand.runtime_rand", "os.runtime_rand", "hash/maphash.runtime_rand", "math/rand.Uint64", "maps.rand", "runtime.rand64", "sync.runtime_rand")
	reg(func(in *Interp, a []Value) Value { return Value{n: rnd64(in) >> 1} }, "math/rand.Int63", "math/rand.Int")
	reg(func(in *Interp, a []Value) Value {
		b := sl(a[0])
		for i := range b {
			in.store(&b[i], Value{n: rnd64(in) & 0xff})
		}
		return retTuple(vInt(len(b)), Value{})
	}, "crypto/rand.Read", "math/rand.Read")
	reg(func(in *Interp, a []Value) Value {
		b := sl(a[0])
		for i := range b {
			in.store(&b[i], Value{n: rnd64(in) & 0xff})
		}
		return Value{}
	}, "crypto/internal/sysrand.Read", "crypto/internal/fips140/drbg.Read")
	reg(func(in *Interp, a []Value) Value {
		b := sl(a[1])
		for i := range b {
			in.store(&b[i], Value{n: rnd64(in) & 0xff})
		}
		return retTuple(vInt(len(b)), Value{})
	}, "(*crypto/rand.reader).Read", "(crypto/rand.reader).Read")

	// ---- os ----
	reg(func(in *Interp, a []Value) Value {
		k, _ := concStr(a[0])
		if v, ok := in.env()[k]; ok {
			return v
		}
		return Value{}
	}, "os.Getenv")
	reg(func(in *Interp, a []Value) Value {
		k, _ := concStr(a[0])
		if v, ok := in.env()[k]; ok {
			return retTuple(v, vBool(true))
		}
		return retTuple(Value{}, vBool(false))
	}, "os.LookupEnv", "syscall.Getenv")
	reg(func(in *Interp, a []Value) Value {
		k, _ := concStr(a[0])
		in.env()[k] = a[1]
		return Value{}
	}, "os.Setenv")
	reg(func(in *Interp, a []Value) Value { return retTuple(vStr("localhost"), Value{}) }, "os.Hostname")
	reg(func(in *Interp, a []Value) Value { return vInt(4242) }, "os.Getpid", "syscall.Getpid")
	reg(func(in *Interp, a []Value) Value { return vInt(4096) }, "os.Getpagesize", "syscall.Getpagesize", "os.runtime_pagesize")
	reg(func(in *Interp, a []Value) Value { return Value{} }, "os.runtime_args", "syscall.runtime_envs")
	reg(func(in *Interp, a []Value) Value { return retTuple(vStr("/work"), Value{}) }, "os.Getwd", "syscall.Getwd")
	// the file system is empty, but for the source code
	reg(func(in *Interp, a []Value) Value {
		f, _ := concStr(a[0])
		if strings.HasSuffix(f, ".go") && in.p.sources[f] {
			b, err := os.ReadFile(f)
			if err == nil {
				return retTuple(Value{r: strBytes(vStr(string(b)))}, Value{})
			}
		}
		return retTuple(Value{}, enoent(in))
	}, "os.ReadFile")
	reg(func(in *Interp, a []Value) Value { return Value{} }, "(*testing.common).log", "(*testing.common).Helper", "(*testing.common).checkRaces")
	reg(func(in *Interp, a []Value) Value { return Value{} }, "os.NewFile", "os.newFile", "syscall.SetNonblock", "os/signal.Ignore")
	// stdout and stderr are sinks
	reg(func(in *Interp, a []Value) Value {
		in.side["stdout"] = strConcat(in.sideStr("stdout"), bytesToStr(sl(a[1])))
		return retTuple(vInt(len(sl(a[1]))), Value{})
	}, "(*os.File).Write")
	reg(func(in *Interp, a []Value) Value {
		in.side["stdout"] = strConcat(in.sideStr("stdout"), a[1])
		return retTuple(vInt(strLen(a[1])), Value{})
	}, "(*os.File).WriteString")
	reg(func(in *Interp, a []Value) Value {
		f, ok := in.side["exit"].(func(Value))
		if ok {
			f(a[0])
		}
		panic(pathAbort{"exit", fmt.Sprint(a[0].n)})
	}, "os.Exit")

	// ---- unique / weak / internal ----
	reg(func(in *Interp, a []Value) Value { return vBool(false) }, "internal/synctest.IsInBubble", "internal/synctest.Associate")
	reg(func(in *Interp, a []Value) Value { return Value{} }, "internal/bisect.New", "internal/syscall/unix.x")
	reg(func(in *Interp, a []Value) Value { return vBool(true) }, "internal/cpu.x")

	_ = filepath.Base
	_ = token.NoPos
	_ = ssa.NaiveForm
}

func (in *Interp) sideStr(k string) Value {
	if v, ok := in.side[k].(Value); ok {
		return v
	}
	return Value{}
}

func (in *Interp) env() map[string]Value {
	m, ok := in.side["env"].(map[string]Value)
	if !ok {
		m = map[string]Value{}
		in.side["env"] = m
	}
	return m
}

type framesIter struct {
	pcs []Value
	i   int
}

type pcInfo struct {
	fn, file string
	line     int
}

func (in *Interp) pcTab() map[uint64]pcInfo { return in.pct().of }

type pcTable struct {
	by map[pcInfo]uint64
	of map[uint64]pcInfo
}

func (in *Interp) pct() *pcTable {
	if in.pctab == nil {
		in.pctab = &pcTable{by: map[pcInfo]uint64{}, of: map[uint64]pcInfo{}}
	}
	return in.pctab
}

func (in *Interp) pcOf(f pcInfo) uint64 {
	t := in.pct()
	if x, ok := t.by[f]; ok {
		return x
	}
	x := 0x400000 + uint64(len(t.by))*16
	t.by[f] = x
	t.of[x] = f
	return x
}

// callers lists the interpreted stack, skipping n frames above the caller of
// the intrinsic.
func (in *Interp) callers(n int) []pcInfo {
	var out []pcInfo
	i := 0
	for fr := in.sched.cur.top; fr != nil; fr = fr.caller {
		if fr.fn.ssa.Synthetic != "" && !strings.HasPrefix(fr.fn.ssa.Synthetic, "instance") {
			continue // wrappers
		}
		if i >= n {
			ps := in.p.fset.Position(fr.pos)
			out = append(out, pcInfo{fn: goFuncName(fr.fn), file: ps.Filename, line: ps.Line})
		}
		i++
	}
	return out
}

func goFuncName(f *Fn) string {
	n := f.name
	if i, j := strings.IndexByte(n, '['), strings.LastIndexByte(n, ']'); i >= 0 && i < j {
		n = n[:i] + "[...]" + n[j+1:] // type arguments
	}
	if strings.HasPrefix(n, "(*") {
		// (*pkg.T).M -> pkg.(*T).M
		i := strings.Index(n, ").")
		q := n[2:i]
		j := strings.LastIndexByte(q, '.')
		return q[:j+1] + "(*" + q[j+1:] + ")" + n[i+1:]
	}
	if strings.HasPrefix(n, "(") {
		i := strings.Index(n, ").")
		return n[1:i] + n[i+1:]
	}
	return n
}

func (in *Interp) fmtFloatArgs(f, fm, p, bs Value) (float64, byte, int, int) {
	if isSym(f) {
		for _, c := range in.callers(0) {
			if c.fn == "fmt.Errorf" || strings.HasPrefix(c.fn, "github.com/Aize-Public/forego/ctx.NewErrorf") || strings.HasPrefix(c.fn, "github.com/Aize-Public/forego/ctx/log.") {
				// the text of a message: a placeholder
				return math.NaN(), 'g', -1, 64
			}
		}
		in.unsupported("formatting a symbolic float")
	}
	return math.Float64frombits(f.n), byte(fm.n), int(int64(p.n)), int(int64(bs.n))
}

// digitsKey identifies a sequence of symbolic digits made by formatInt.
func digitsKey(ds []Value) string {
	var sb strings.Builder
	sb.WriteString("number")
	for _, d := range ds {
		t, _ := d.r.(*Term)
		if t == nil {
			return ""
		}
		fmt.Fprintf(&sb, "/%d", t.id)
	}
	return sb.String()
}

// digitsOf recognises text made by formatInt from a symbolic number: parsing
// it gives that number back, without going through the digits.
func (in *Interp) digitsOf(s Value) (neg bool, u Value, ok bool) {
	ss, _ := s.r.(*SymStr)
	if ss == nil {
		return
	}
	b := ss.b
	if len(b) > 1 && b[0].r == nil && (b[0].n == '-' || b[0].n == '+') {
		neg = b[0].n == '-'
		b = b[1:]
	}
	k := digitsKey(b)
	if k == "" {
		return
	}
	u, ok = in.side[k].(Value)
	return
}

func init() {
	// string interning by hash: the same strings, without the table
	reg(func(in *Interp, a []Value) Value { return bytesToStr(sl(a[1])) }, "encoding/json/v2.makeString")
	parseInt := func(in *Interp, orig func(a []Value) Value, a []Value, signed, internal bool) Value {
		neg, u, ok := in.digitsOf(a[0])
		if !ok || isSym(a[1]) || isSym(a[2]) || a[1].n != 10 && a[1].n != 0 || neg && !signed {
			return orig(a)
		}
		bits := a[2].n
		if bits == 0 {
			bits = 64
		}
		max := ^uint64(0) >> (64 - bits)
		if signed {
			max >>= 1
			if neg {
				max++
			}
		}
		if max != ^uint64(0) && !in.cond(in.binopVal(token.LEQ, u, Value{n: max}, kU64)) {
			if internal {
				// any other number which is out of range has the same result
				t := "99999999999999999999"
				if neg {
					t = "-" + t
				}
				a = append([]Value{vStr(t)}, a[1:]...)
			}
			return orig(a)
		}
		if neg {
			u = in.binopVal(token.SUB, Value{}, u, kU64)
		}
		return retTuple(u, Value{})
	}
	for _, p := range []string{"", "internal/"} {
		wrappers[p+"strconv.ParseInt"] = func(in *Interp, orig func(a []Value) Value, a []Value) Value {
			return parseInt(in, orig, a, true, p != "")
		}
		wrappers[p+"strconv.ParseUint"] = func(in *Interp, orig func(a []Value) Value, a []Value) Value {
			return parseInt(in, orig, a, false, p != "")
		}
		wrappers[p+"strconv.Atoi"] = func(in *Interp, orig func(a []Value) Value, a []Value) Value {
			if _, _, ok := in.digitsOf(a[0]); !ok {
				return orig(a)
			}
			return parseInt(in, func(x []Value) Value { return orig(a) }, []Value{a[0], vInt(10), vInt(0)}, true, false)
		}
		wrappers[p+"strconv.ParseFloat"] = func(in *Interp, orig func(a []Value) Value, a []Value) Value {
			neg, u, ok := in.digitsOf(a[0])
			if !ok || isSym(a[1]) {
				return orig(a)
			}
			f := types.Typ[types.Float64]
			if a[1].n == 32 {
				f = types.Typ[types.Float32]
			}
			v := in.conv(u, types.Typ[types.Uint64], f)
			v = in.conv(v, f, types.Typ[types.Float64])
			if neg {
				v = in.binopVal(token.MUL, v, vF64(-1), kF64)
			}
			return retTuple(v, Value{})
		}
	}
}

// formatInt renders a (possibly symbolic) integer. For a symbolic value the
// digits are fresh variables tied to it by x = Σ dᵢ·10ⁱ; sign and number of
// digits are forked.
func (in *Interp) formatInt(x, base Value, signed bool) Value {
	if !isSym(x) {
		b := in.arg(base)
		if signed {
			return vStr(strconv.FormatInt(int64(x.n), b))
		}
		return vStr(strconv.FormatUint(x.n, b))
	}
	db := in.db
	b := uint64(in.arg(base))
	t := in.term(x, kU64)
	sh := map[uint64]uint64{2: 1, 4: 2, 8: 3, 16: 4, 32: 5}[b]
	if b != 10 && sh == 0 {
		in.unsupported("symbolic FormatInt base %d", b)
	}
	neg := false
	if signed && in.branch(db.Slt(t, db.BV(0, 64))) {
		neg = true
		t = db.Neg(t)
	}
	if sh != 0 {
		var ds []Value
		for at := uint64(0); at < 64; at += sh {
			w := min(sh, 64-at)
			d := db.Zext(db.Extract(t, at, uint8(w)), 8)
			ds = append(ds, in.val(db.Ite(db.Ult(d, db.BV(10, 8)), db.AddK(d, '0'), db.AddK(d, 'a'-10)), kU8))
			if at+sh >= 64 || in.branch(db.Ult(t, db.BV(1<<(at+sh), 64))) {
				break
			}
		}
		if neg {
			ds = append(ds, Value{n: '-'})
		}
		slices.Reverse(ds)
		return bytesToStr(ds)
	}
	key := fmt.Sprintf("digits/%d", t.id)
	if ds, ok := in.side[key].([]Value); ok {
		if neg {
			return bytesToStr(append([]Value{{n: '-'}}, ds...))
		}
		return bytesToStr(ds)
	}
	// number of digits
	n := 1
	p := uint64(10)
	for n < 20 {
		if n == 19 && p == 0 {
			break
		}
		if in.branch(db.Ult(t, db.BV(p, 64))) {
			break
		}
		n++
		if n == 20 {
			break
		}
		p *= 10
	}
	ds := make([]Value, n)
	xv, haveX := in.eval(t, in.model)
	sum := db.BV(0, 64)
	pw := uint64(1)
	for i := n - 1; i >= 0; i-- {
		lo := uint64(0)
		if i == 0 && n > 1 {
			lo = 1
		}
		hi := uint64(9)
		if n == 20 && i == 0 {
			hi = 1
		}
		d := in.freshU("dig", 8, lo, hi)
		if haveX {
			if _, ok := in.model.vals[d.name]; !ok {
				in.model.vals[d.name] = xv / pw % 10
			}
		}
		sum = db.Add(sum, db.MulK(db.Zext(d, 64), pw))
		pw *= 10
		ds[i] = in.val(db.AddK(d, '0'), kU8)
	}
	in.assume(db.Eq(sum, t))
	if n == 20 {
		// top digit 1: the 19 digit remainder must not wrap
		in.assume(db.Ule(db.BV(10000000000000000000, 64), t))
	}
	in.side[key] = ds
	in.side[digitsKey(ds)] = in.val(t, kU64)
	if neg {
		return bytesToStr(append([]Value{{n: '-'}}, ds...))
	}
	return bytesToStr(ds)
}

func (in *Interp) symBits(name string, t *Term) Value {
	db := in.db
	w := uint64(t.w)
	var r *Term
	switch name {
	case "Len64", "Len", "Len32", "Len8", "LeadingZeros64":
		r = db.BV(0, 64)
		for i := uint64(0); i < w; i++ {
			// if t >= 2^i then len >= i+1
			r = db.Ite(db.Ule(db.BV(uint64(1)<<i, t.w), t), db.BV(i+1, 64), r)
		}
		if name == "LeadingZeros64" {
			r = db.Sub(db.BV(w, 64), r)
		}
	case "OnesCount64":
		r = db.BV(0, 64)
		for i := uint64(0); i < w; i++ {
			r = db.Add(r, db.Zext(db.Extract(t, i, 1), 64))
		}
	default:
		r = db.BV(w, 64)
		for i := int(w) - 1; i >= 0; i-- {
			r = db.Ite(db.Eq(db.Extract(t, uint64(i), 1), db.BV(1, 1)), db.BV(uint64(i), 64), r)
		}
	}
	return in.val(r, kI64)
}

func init() {
	// there is no terminal
	reg(func(in *Interp, a []Value) Value {
		return retTuple(Value{}, in.mkErr("inappropriate ioctl for device"))
	}, "golang.org/x/sys/unix.IoctlGetTermios")
}
