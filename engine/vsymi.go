package main

import (
	"fmt"
	"go/types"
	"strconv"
)

var vsymIntr = map[string]func(in *Interp, fn *Fn, a []Value) Value{}

func (in *Interp) uniq(v Value) string {
	n, ok := concStr(v)
	if !ok {
		in.unsupported("symbolic input name")
	}
	in.names[n]++
	if k := in.names[n]; k > 1 {
		n += "~" + strconv.Itoa(k)
	}
	return n
}

func (in *Interp) input(r inputRec) { in.inputs = append(in.inputs, r) }

func init() {
	V := func(n string, f func(in *Interp, fn *Fn, a []Value) Value) { vsymIntr[n] = f }
	sint := func(name, kind string, w uint8, k kindT) {
		V(name, func(in *Interp, fn *Fn, a []Value) Value {
			n := in.uniq(a[0])
			lo, hi := int64(in.concInt(a[1], kI64)), int64(in.concInt(a[2], kI64))
			if lo > hi {
				panic(pathAbort{kind: "infeasible"})
			}
			if lo == hi {
				in.input(inputRec{Name: n, Kind: kind, V: uint64(lo)})
				return Value{n: canonInt(uint64(lo), k)}
			}
			t := in.db.VarS(n, w, lo, hi)
			in.addVar(t)
			in.input(inputRec{Name: n, Kind: kind, T: t})
			return in.val(t, k)
		})
	}
	uint_ := func(name, kind string, w uint8, k kindT) {
		V(name, func(in *Interp, fn *Fn, a []Value) Value {
			n := in.uniq(a[0])
			lo, hi := in.concInt(a[1], kU64), in.concInt(a[2], kU64)
			if lo > hi {
				panic(pathAbort{kind: "infeasible"})
			}
			if lo == hi {
				in.input(inputRec{Name: n, Kind: kind, V: lo})
				return Value{n: lo}
			}
			t := in.db.VarU(n, w, lo, hi)
			in.addVar(t)
			in.input(inputRec{Name: n, Kind: kind, T: t})
			return in.val(t, k)
		})
	}
	sint("Int", "int", 64, kI64)
	sint("Int64", "int64", 64, kI64)
	sint("Int32", "int32", 32, kI32)
	sint("Int16", "int16", 16, kI16)
	sint("Int8", "int8", 8, kI8)
	uint_("Uint64", "uint64", 64, kU64)
	uint_("Uint32", "uint32", 32, kU32)
	uint_("Uint16", "uint16", 16, kU16)
	uint_("Byte", "uint8", 8, kU8)
	V("Bool", func(in *Interp, fn *Fn, a []Value) Value {
		n := in.uniq(a[0])
		t := in.db.VarU(n, 1, 0, 1)
		in.addVar(t)
		in.input(inputRec{Name: n, Kind: "bool", T: t})
		return in.val(in.db.Eq(t, in.db.BV(1, 1)), kBool)
	})
	V("Float64", func(in *Interp, fn *Fn, a []Value) Value {
		n := in.uniq(a[0])
		t := in.db.VarU(n, 64, 0, ^uint64(0))
		in.addVar(t)
		in.input(inputRec{Name: n, Kind: "float64", T: t})
		return in.val(in.db.fop(OFOfBits, SF64, 0, t), kF64)
	})
	str := func(in *Interp, nm Value, lo, hi int, set string, kind string) Value {
		n := in.uniq(nm)
		l := lo + in.choose(hi-lo+1, "len "+n)
		bs := make([]Value, l)
		for i := range bs {
			bn := fmt.Sprintf("%s[%d]", n, i)
			if set == "" {
				t := in.db.VarU(bn, 8, 0, 255)
				in.addVar(t)
				bs[i] = in.val(t, kU8)
				continue
			}
			mn, mx := set[0], set[0]
			for j := range []byte(set) {
				mn, mx = min(mn, set[j]), max(mx, set[j])
			}
			if mn == mx {
				bs[i] = Value{n: uint64(mn)}
				continue
			}
			t := in.db.VarU(bn, 8, uint64(mn), uint64(mx))
			in.addVar(t)
			var or []*Term
			seen := map[byte]bool{}
			for j := range []byte(set) {
				if !seen[set[j]] {
					seen[set[j]] = true
					or = append(or, in.db.Eq(t, in.db.BV(uint64(set[j]), 8)))
				}
			}
			if len(seen) != int(mx-mn)+1 {
				in.assume(in.db.Or(or...))
			}
			bs[i] = in.val(t, kU8)
		}
		in.input(inputRec{Name: n, Kind: kind, Str: bytesToStr(bs)})
		if kind == "bytes" {
			return Value{r: bs}
		}
		return bytesToStr(bs)
	}
	V("String", func(in *Interp, fn *Fn, a []Value) Value {
		return str(in, a[0], in.arg(a[1]), in.arg(a[2]), "", "string")
	})
	V("StringIn", func(in *Interp, fn *Fn, a []Value) Value {
		set, _ := concStr(a[3])
		return str(in, a[0], in.arg(a[1]), in.arg(a[2]), set, "string")
	})
	V("Bytes", func(in *Interp, fn *Fn, a []Value) Value {
		return str(in, a[0], in.arg(a[1]), in.arg(a[2]), "", "bytes")
	})
	V("Choice", func(in *Interp, fn *Fn, a []Value) Value {
		n := in.uniq(a[0])
		k := in.arg(a[1])
		if k <= 0 {
			panic(pathAbort{kind: "infeasible"})
		}
		i := in.choose(k, n)
		in.input(inputRec{Name: n, Kind: "choice", V: uint64(i)})
		return vInt(i)
	})
	V("Assume", func(in *Interp, fn *Fn, a []Value) Value {
		in.assume(in.term(a[0], kBool))
		return Value{}
	})
	V("Assert", func(in *Interp, fn *Fn, a []Value) Value {
		m := a[1]
		in.assertV(a[0], m)
		return Value{}
	})
	V("Fail", func(in *Interp, fn *Fn, a []Value) Value {
		in.assertV(vBool(false), a[0])
		return Value{}
	})
	V("Reach", func(in *Interp, fn *Fn, a []Value) Value {
		s, _ := concStr(a[0])
		in.reached[s] = true
		return Value{}
	})
	ob := func(t types.Type) func(in *Interp, fn *Fn, a []Value) Value {
		return func(in *Interp, fn *Fn, a []Value) Value {
			s, _ := concStr(a[0])
			in.obs = append(in.obs, Obs{s, a[1], t})
			return Value{}
		}
	}
	V("ObserveInt", ob(types.Typ[types.Int64]))
	V("ObserveStr", ob(types.Typ[types.String]))
	V("ObserveBool", ob(types.Typ[types.Bool]))
	V("Quiesce", func(in *Interp, fn *Fn, a []Value) Value {
		g := in.sched.cur
		if len(in.sched.gs) > 1 || len(in.sched.timers) > 0 {
			g.status = gQuiesce
			g.pend = pendOp{}
			in.reschedule()
			g.status = gRunnable
		}
		return Value{}
	})
	V("Symbolic", func(in *Interp, fn *Fn, a []Value) Value { return vBool(true) })
	V("Tier", func(in *Interp, fn *Fn, a []Value) Value { return vStr(in.cfg.Tier) })
	V("Bound", func(in *Interp, fn *Fn, a []Value) Value {
		s, _ := concStr(a[0])
		i := 1
		if in.cfg.Tier == "thorough" {
			i = 2
		}
		in.note(fmt.Sprintf("bound %s=%d", s, int64(a[i].n)))
		in.input(inputRec{Name: in.uniq(a[0]), Kind: "bound", V: a[i].n})
		return a[i]
	})
	V("MapOrder", func(in *Interp, fn *Fn, a []Value) Value {
		in.mapOrder = a[0].n != 0
		return Value{}
	})
	V("SymClock", func(in *Interp, fn *Fn, a []Value) Value {
		in.clock.sym = true
		in.clock.maxD = int64(a[0].n)
		return Value{}
	})
	V("ClockNow", func(in *Interp, fn *Fn, a []Value) Value { return in.clock.now })
	V("Advance", func(in *Interp, fn *Fn, a []Value) Value {
		in.clock.now = in.binopVal(tokenOf(12), in.clock.now, a[0], kI64)
		return Value{}
	})
	V("Stdout", func(in *Interp, fn *Fn, a []Value) Value { return in.sideStr("stdout") })
	V("Signal", func(in *Interp, fn *Fn, a []Value) Value {
		in.raise(int(in.concInt(a[0], kI64)))
		return Value{}
	})
	V("OnExit", func(in *Interp, fn *Fn, a []Value) Value {
		f := a[0]
		in.side["exit"] = func(code Value) { in.callValue(f, []Value{code}) }
		return Value{}
	})
	V("Done", func(in *Interp, fn *Fn, a []Value) Value { panic(pathAbort{kind: "exit"}) })
	V("Goroutines", func(in *Interp, fn *Fn, a []Value) Value {
		n := 0
		for _, g := range in.sched.gs {
			if g.status != gDone {
				n++
			}
		}
		return vInt(n)
	})
	V("Blocked", func(in *Interp, fn *Fn, a []Value) Value {
		// number of goroutines other than the caller that are not finished
		n := 0
		for _, g := range in.sched.gs {
			if g.status != gDone && g != in.sched.cur {
				n++
			}
		}
		return vInt(n)
	})
	V("Yield", func(in *Interp, fn *Fn, a []Value) Value {
		in.visibleOp(pendOp{kind: "yield", objs: []any{in.sched.cur}})
		return Value{}
	})
	V("Preempt", func(in *Interp, fn *Fn, a []Value) Value { return Value{} })
}

type kindT = kind

func (in *Interp) assertV(c Value, msg Value) {
	t := in.term(c, kBool)
	m, ok := concStr(msg)
	if ok {
		in.assert(t, m)
		return
	}
	// message with symbolic parts: decided first, rendered under the model
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pa, ok := r.(pathAbort); ok && pa.kind == "violation" {
					pa.msg = in.strUnderModel(msg)
					panic(pa)
				}
				panic(r)
			}
		}()
		in.assert(t, "?")
	}()
}
