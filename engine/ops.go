package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (c *compiler) binop(x *ssa.BinOp, dst int32) step {
	in := c.in
	a, b := c.opnd(x.X), c.opnd(x.Y)
	pos := x.Pos()
	xt := x.X.Type()
	k := kindOf(xt)
	op := x.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		if k.isInt() || k == kBool {
			return func(fr *frame) {
				av, bv := fr.v(a), fr.v(b)
				if av.r == nil && bv.r == nil {
					fr.regs[dst] = vBool((av.n == bv.n) != neg)
					return
				}
				r := in.val(in.db.Eq(in.term(av, k), in.term(bv, k)), kBool)
				if neg {
					r = in.notV(r)
				}
				fr.regs[dst] = r
			}
		}
		// comparison of an interface with a concrete operand
		yt := x.Y.Type()
		if !types.Identical(xt, yt) {
			_, xi := xt.Underlying().(*types.Interface)
			_, yi := yt.Underlying().(*types.Interface)
			if xi != yi {
				ct := in.p.canon(xt)
				if xi {
					ct = in.p.canon(yt)
				}
				if bt, ok := ct.Underlying().(*types.Basic); ok && bt.Kind() == types.UntypedNil {
					xi, yi = true, true
				}
				if xi != yi {
					return func(fr *frame) {
						av, bv := fr.v(a), fr.v(b)
						if !xi {
							av = Value{r: &Iface{ct, av}}
						} else {
							bv = Value{r: &Iface{ct, bv}}
						}
						fr.pos = pos
						r := in.eqVal(av, bv, types.NewInterfaceType(nil, nil))
						if neg {
							r = in.notV(r)
						}
						fr.regs[dst] = r
					}
				}
			}
		}
		t := xt
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.UntypedNil {
			t = yt
		}
		return func(fr *frame) {
			fr.pos = pos
			r := in.eqVal(fr.v(a), fr.v(b), t)
			if neg {
				r = in.notV(r)
			}
			fr.regs[dst] = r
		}
	case token.SHL, token.SHR:
		yk := kindOf(x.Y.Type())
		return func(fr *frame) {
			fr.pos = pos
			fr.regs[dst] = in.shift(op, fr.v(a), fr.v(b), k, yk)
		}
	}
	if k.isInt() {
		var f func(a, b uint64) uint64
		switch op {
		case token.ADD:
			f = func(a, b uint64) uint64 { return a + b }
		case token.SUB:
			f = func(a, b uint64) uint64 { return a - b }
		case token.MUL:
			f = func(a, b uint64) uint64 { return a * b }
		case token.AND:
			f = func(a, b uint64) uint64 { return a & b }
		case token.OR:
			f = func(a, b uint64) uint64 { return a | b }
		case token.XOR:
			f = func(a, b uint64) uint64 { return a ^ b }
		case token.AND_NOT:
			f = func(a, b uint64) uint64 { return a &^ b }
		}
		if f != nil {
			return func(fr *frame) {
				av, bv := fr.v(a), fr.v(b)
				if av.r == nil && bv.r == nil {
					fr.regs[dst] = Value{n: canonInt(f(av.n, bv.n), k)}
					return
				}
				fr.pos = pos
				fr.regs[dst] = in.binopVal(op, av, bv, k)
			}
		}
		if op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ {
			var g func(a, b uint64) bool
			if k.signed() {
				switch op {
				case token.LSS:
					g = func(a, b uint64) bool { return int64(a) < int64(b) }
				case token.LEQ:
					g = func(a, b uint64) bool { return int64(a) <= int64(b) }
				case token.GTR:
					g = func(a, b uint64) bool { return int64(a) > int64(b) }
				case token.GEQ:
					g = func(a, b uint64) bool { return int64(a) >= int64(b) }
				}
			} else {
				switch op {
				case token.LSS:
					g = func(a, b uint64) bool { return a < b }
				case token.LEQ:
					g = func(a, b uint64) bool { return a <= b }
				case token.GTR:
					g = func(a, b uint64) bool { return a > b }
				case token.GEQ:
					g = func(a, b uint64) bool { return a >= b }
				}
			}
			return func(fr *frame) {
				av, bv := fr.v(a), fr.v(b)
				if av.r == nil && bv.r == nil {
					fr.regs[dst] = vBool(g(av.n, bv.n))
					return
				}
				fr.pos = pos
				fr.regs[dst] = in.binopVal(op, av, bv, k)
			}
		}
	}
	return func(fr *frame) {
		fr.pos = pos
		fr.regs[dst] = in.binopVal(op, fr.v(a), fr.v(b), k)
	}
}

func (in *Interp) notV(v Value) Value {
	if t, ok := v.r.(*Term); ok {
		return in.val(in.db.Not(t), kBool)
	}
	return Value{n: v.n ^ 1}
}

func (in *Interp) andV(a, b Value) Value {
	if a.r == nil {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.r == nil {
		if b.n == 0 {
			return b
		}
		return a
	}
	return in.val(in.db.And(a.r.(*Term), b.r.(*Term)), kBool)
}

func (in *Interp) binopVal(op token.Token, a, b Value, k kind) Value {
	db := in.db
	switch {
	case k == kStr:
		switch op {
		case token.ADD:
			return strConcat(a, b)
		case token.LSS:
			return in.strLess(a, b)
		case token.GTR:
			return in.strLess(b, a)
		case token.LEQ:
			return in.notV(in.strLess(b, a))
		case token.GEQ:
			return in.notV(in.strLess(a, b))
		case token.EQL:
			return in.strEq(a, b)
		}
	case k.isInt():
		if a.r != nil || b.r != nil {
			x, y := in.term(a, k), in.term(b, k)
			switch op {
			case token.ADD:
				return in.val(db.Add(x, y), k)
			case token.SUB:
				return in.val(db.Sub(x, y), k)
			case token.MUL:
				return in.val(db.Mul(x, y), k)
			case token.AND:
				return in.val(db.bin(OBvAnd, x, y), k)
			case token.OR:
				return in.val(db.bin(OBvOr, x, y), k)
			case token.XOR:
				return in.val(db.bin(OBvXor, x, y), k)
			case token.AND_NOT:
				ny := db.bin(OBvXor, y, db.BV(^uint64(0), y.w))
				return in.val(db.bin(OBvAnd, x, ny), k)
			case token.QUO, token.REM:
				if in.branch(db.Eq(y, db.BV(0, y.w))) {
					in.rtPanic("integer divide by zero")
				}
				o := OUDiv
				if op == token.REM {
					o = OURem
				}
				if k.signed() {
					o += OSDiv - OUDiv
				}
				return in.val(db.bin(o, x, y), k)
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				if op == token.GTR || op == token.GEQ {
					x, y = y, x
				}
				strict := op == token.LSS || op == token.GTR
				var t *Term
				switch {
				case k.signed() && strict:
					t = db.Slt(x, y)
				case k.signed():
					t = db.Sle(x, y)
				case strict:
					t = db.Ult(x, y)
				default:
					t = db.Ule(x, y)
				}
				return in.val(t, kBool)
			}
		}
		switch op {
		case token.ADD:
			return Value{n: canonInt(a.n+b.n, k)}
		case token.SUB:
			return Value{n: canonInt(a.n-b.n, k)}
		case token.MUL:
			return Value{n: canonInt(a.n*b.n, k)}
		case token.QUO, token.REM:
			if b.n == 0 {
				in.rtPanic("integer divide by zero")
			}
			if k.signed() {
				if int64(b.n) == -1 {
					if op == token.QUO {
						return Value{n: canonInt(-a.n, k)}
					}
					return Value{}
				}
				if op == token.QUO {
					return Value{n: canonInt(uint64(int64(a.n)/int64(b.n)), k)}
				}
				return Value{n: canonInt(uint64(int64(a.n)%int64(b.n)), k)}
			}
			if op == token.QUO {
				return Value{n: a.n / b.n}
			}
			return Value{n: a.n % b.n}
		case token.LSS:
			if k.signed() {
				return vBool(int64(a.n) < int64(b.n))
			}
			return vBool(a.n < b.n)
		case token.GTR:
			return in.binopVal(token.LSS, b, a, k)
		case token.LEQ:
			return in.notV(in.binopVal(token.LSS, b, a, k))
		case token.GEQ:
			return in.notV(in.binopVal(token.LSS, a, b, k))
		}
	case k.isFloat():
		if a.r != nil || b.r != nil {
			x, y := in.term(a, k), in.term(b, k)
			w := k.bits()
			switch op {
			case token.ADD:
				return in.val(db.fop(OFAdd, w, 0, x, y), k)
			case token.SUB:
				return in.val(db.fop(OFSub, w, 0, x, y), k)
			case token.MUL:
				return in.val(db.fop(OFMul, w, 0, x, y), k)
			case token.QUO:
				return in.val(db.fop(OFDiv, w, 0, x, y), k)
			case token.LSS:
				return in.val(db.fop(OFLt, 0, 0, x, y), kBool)
			case token.GTR:
				return in.val(db.fop(OFLt, 0, 0, y, x), kBool)
			case token.LEQ:
				return in.val(db.fop(OFLe, 0, 0, x, y), kBool)
			case token.GEQ:
				return in.val(db.fop(OFLe, 0, 0, y, x), kBool)
			}
		}
		x, y := math.Float64frombits(a.n), math.Float64frombits(b.n)
		var r float64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return vBool(x < y)
		case token.GTR:
			return vBool(x > y)
		case token.LEQ:
			return vBool(x <= y)
		case token.GEQ:
			return vBool(x >= y)
		}
		if k == kF32 {
			switch op {
			case token.ADD:
				r = float64(float32(x) + float32(y))
			case token.SUB:
				r = float64(float32(x) - float32(y))
			case token.MUL:
				r = float64(float32(x) * float32(y))
			case token.QUO:
				r = float64(float32(x) / float32(y))
			}
		}
		return vF64(r)
	case k == kC128 || k == kC64:
		x, y := a.r.(complex128), b.r.(complex128)
		switch op {
		case token.ADD:
			return Value{r: x + y}
		case token.SUB:
			return Value{r: x - y}
		case token.MUL:
			return Value{r: x * y}
		case token.QUO:
			return Value{r: x / y}
		}
	case k == kBool:
		switch op {
		case token.AND, token.LAND:
			return in.andV(a, b)
		case token.OR, token.LOR:
			return in.notV(in.andV(in.notV(a), in.notV(b)))
		}
	}
	in.unsupported("binop %s kind %d", op, k)
	return Value{}
}

func (in *Interp) shift(op token.Token, a, b Value, k, yk kind) Value {
	db := in.db
	if a.r == nil && b.r == nil {
		if yk.signed() && int64(b.n) < 0 {
			in.rtPanic("negative shift amount")
		}
		s := b.n
		w := uint64(k.bits())
		if op == token.SHL {
			if s >= w {
				return Value{}
			}
			return Value{n: canonInt(a.n<<s, k)}
		}
		if k.signed() {
			if s >= 64 {
				s = 63
			}
			return Value{n: uint64(int64(a.n) >> s)}
		}
		if s >= w {
			return Value{}
		}
		return Value{n: a.n >> s}
	}
	x, y := in.term(a, k), in.term(b, yk)
	if yk.signed() {
		if in.branch(db.Slt(y, db.BV(0, y.w))) {
			in.rtPanic("negative shift amount")
		}
	}
	w := x.w
	big := db.False
	if y.w > w {
		big = db.Not(db.Ult(y, db.BV(uint64(w), y.w)))
		y = db.Extract(y, 0, w)
	} else if y.w <= w {
		if uint64(w) <= maskW(y.w) {
			big = db.Not(db.Ult(y, db.BV(uint64(w), y.w)))
		}
		y = db.Zext(y, w)
	}
	var r, bigv *Term
	if op == token.SHL {
		r, bigv = db.bin(OShl, x, y), db.BV(0, w)
	} else if k.signed() {
		r, bigv = db.bin(OAshr, x, y), db.bin(OAshr, x, db.BV(uint64(w)-1, w))
	} else {
		r, bigv = db.bin(OLshr, x, y), db.BV(0, w)
	}
	return in.val(db.Ite(big, bigv, r), k)
}

// eqVal compares two values of static type t; the result is a bool value.
func (in *Interp) eqVal(a, b Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := kindOf(u)
		switch {
		case k == kStr:
			return in.strEq(a, b)
		case k.isFloat():
			if a.r != nil || b.r != nil {
				return in.val(in.db.fop(OFEq, 0, 0, in.term(a, k), in.term(b, k)), kBool)
			}
			return vBool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
		case k.isInt() || k == kBool:
			if a.r != nil || b.r != nil {
				return in.val(in.db.Eq(in.term(a, k), in.term(b, k)), kBool)
			}
			return vBool(a.n == b.n)
		case k == kC64 || k == kC128:
			return vBool(a.r.(complex128) == b.r.(complex128))
		}
		return vBool(a.r == b.r)
	case *types.Interface:
		ai, _ := a.r.(*Iface)
		bi, _ := b.r.(*Iface)
		if ai == nil || bi == nil {
			return vBool(ai == nil && bi == nil)
		}
		if ai.t != bi.t {
			return vBool(false)
		}
		if !types.Comparable(ai.t) {
			in.rtPanic("comparing uncomparable type " + ai.t.String())
		}
		return in.eqVal(ai.v, bi.v, ai.t)
	case *types.Struct:
		x, y := a.r.(Agg), b.r.(Agg)
		r := vBool(true)
		for i := range x {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = in.andV(r, in.eqVal(x[i], y[i], u.Field(i).Type()))
			if r.r == nil && r.n == 0 {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.r.(Agg), b.r.(Agg)
		r := vBool(true)
		for i := range x {
			r = in.andV(r, in.eqVal(x[i], y[i], u.Elem()))
			if r.r == nil && r.n == 0 {
				return r
			}
		}
		return r
	case *types.Slice:
		as, _ := a.r.([]Value)
		bs, _ := b.r.([]Value)
		return vBool(as == nil && bs == nil)
	case *types.Signature, *types.Map, *types.Chan, *types.Pointer:
		return vBool(a.r == b.r)
	}
	in.unsupported("eq of %s", t)
	return Value{}
}

func (c *compiler) convert(xv ssa.Value, to types.Type, dst int32, pos token.Pos) step {
	in := c.in
	a := c.opnd(xv)
	from := xv.Type()
	return func(fr *frame) {
		fr.pos = pos
		fr.regs[dst] = in.conv(fr.v(a), from, to)
	}
}

// conv implements a Go conversion between (possibly) different representations.
func (in *Interp) conv(v Value, from, to types.Type) Value {
	fk, tk := kindOf(from), kindOf(to)
	db := in.db
	switch {
	case fk.isInt() && tk.isInt():
		if v.r == nil {
			return Value{n: canonInt(v.n, tk)}
		}
		return in.val(in.resize(v.r.(*Term), fk, tk), tk)
	case fk.isInt() && tk.isFloat():
		if v.r == nil {
			var f float64
			if fk.signed() {
				f = float64(int64(v.n))
				if tk == kF32 {
					f = float64(float32(int64(v.n)))
				}
			} else {
				f = float64(v.n)
				if tk == kF32 {
					f = float64(float32(v.n))
				}
			}
			return vF64(f)
		}
		op := OFOfUBV
		if fk.signed() {
			op = OFOfSBV
		}
		return in.val(db.fop(op, tk.bits(), 0, v.r.(*Term)), tk)
	case fk.isFloat() && tk.isInt():
		if v.r == nil {
			f := math.Float64frombits(v.n)
			return Value{n: canonInt(floatToInt(f, tk), tk)}
		}
		t := v.r.(*Term)
		if t.w == SF32 {
			t = db.fop(OFToFP, SF64, 0, t)
		}
		if tk == kU64 {
			// amd64: x < 2^63 ? cvttsd2sq(x) : cvttsd2sq(x-2^63) ^ 1<<63
			two63 := db.F64(math.Ldexp(1, 63))
			small := in.toI64(t)
			big := db.bin(OBvXor, in.toI64(db.fop(OFSub, SF64, 0, t, two63)), db.BV(1<<63, 64))
			return in.val(db.Ite(db.fop(OFLt, 0, 0, t, two63), small, big), tk)
		}
		if tk == kI32 || tk == kI16 || tk == kI8 || tk == kU8 || tk == kU16 {
			lo, hi := db.F64(-2147483649), db.F64(2147483648)
			ok := db.And(db.fop(OFLt, 0, 0, lo, t), db.fop(OFLt, 0, 0, t, hi))
			r := db.Ite(ok, db.fop(OFToSBV, 32, 0, t), db.BV(1<<31, 32))
			return in.val(in.resize(r, kI32, tk), tk)
		}
		return in.val(in.resize(in.toI64(t), kI64, tk), tk)
	case fk.isFloat() && tk.isFloat():
		if v.r == nil {
			if tk == kF32 {
				return vF64(float64(float32(math.Float64frombits(v.n))))
			}
			return v
		}
		return in.val(db.fop(OFToFP, tk.bits(), 0, v.r.(*Term)), tk)
	case fk == kStr && tk == kStr:
		return v
	case fk.isInt() && tk == kStr:
		if v.r != nil {
			f := in.p.prog.ImportedPackage("unicode/utf8").Func("AppendRune")
			r := in.callFn(in.fn(f), []Value{{}, in.conv(v, from, types.Typ[types.Int32])})
			b, _ := r.r.([]Value)
			return bytesToStr(b)
		}
		return vStr(string(rune(v.n)))
	case tk == kStr:
		if sl, ok := from.Underlying().(*types.Slice); ok {
			s, _ := v.r.([]Value)
			if kindOf(sl.Elem()) == kU8 {
				if in.sched.race {
					for i := range s {
						in.raceRead(&s[i])
					}
				}
				return bytesToStr(s)
			}
			// []rune
			var out []Value
			f := in.fn(in.p.prog.ImportedPackage("unicode/utf8").Func("AppendRune"))
			conc := true
			for _, e := range s {
				if e.r != nil {
					conc = false
				}
			}
			if conc {
				rs := make([]rune, len(s))
				for i, e := range s {
					rs[i] = rune(e.n)
				}
				return vStr(string(rs))
			}
			for _, e := range s {
				r := in.callFn(f, []Value{{r: out}, e})
				out = r.r.([]Value)
			}
			return bytesToStr(out)
		}
	case fk == kStr:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if kindOf(sl.Elem()) == kU8 {
				return Value{r: append(make([]Value, 0, strLen(v)), strBytes(v)...)}
			}
			out := []Value{}
			for i := 0; i < strLen(v); {
				r, n := in.decodeRune(v, i)
				out = append(out, r)
				i += n
			}
			return Value{r: out}
		}
	case fk == kUnsafe && tk.isInt():
		if v.r == nil {
			return Value{}
		}
		id, ok := in.uintptrs[v.r]
		if !ok {
			id = 0xc000000000 + uint64(len(in.uintptrs))*64
			in.uintptrs[v.r] = id
		}
		return Value{n: id}
	case fk.isInt() && tk == kUnsafe:
		if v.n == 0 {
			return Value{}
		}
		for p, id := range in.uintptrs {
			if id == v.n {
				return Value{r: p}
			}
		}
		in.unsupported("uintptr to unsafe.Pointer")
	case fk == kUnsafe || tk == kUnsafe:
		return v
	case fk == kC64 || fk == kC128:
		return v
	}
	if _, ok := from.Underlying().(*types.Slice); ok {
		if arr, ok := to.Underlying().(*types.Array); ok {
			s, _ := v.r.([]Value)
			if len(s) < int(arr.Len()) {
				in.rtPanic("cannot convert slice to array: length mismatch")
			}
			return Value{r: copyAgg(Agg(s[:arr.Len()]))}
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	in.unsupported("convert %s to %s", from, to)
	return Value{}
}

func (in *Interp) toI64(t *Term) *Term {
	db := in.db
	lo, hi := db.F64(-math.Ldexp(1, 63)), db.F64(math.Ldexp(1, 63))
	ok := db.And(db.fop(OFLe, 0, 0, lo, t), db.fop(OFLt, 0, 0, t, hi))
	return db.Ite(ok, db.fop(OFToSBV, 64, 0, t), db.BV(1<<63, 64))
}

func floatToInt(f float64, k kind) uint64 {
	switch k {
	case kI8:
		return uint64(int8(f))
	case kI16:
		return uint64(int16(f))
	case kI32:
		return uint64(int32(f))
	case kU8:
		return uint64(uint8(f))
	case kU16:
		return uint64(uint16(f))
	case kU32:
		return uint64(uint32(f))
	case kU64:
		return uint64(f)
	}
	return uint64(int64(f))
}

func (in *Interp) resize(t *Term, fk, tk kind) *Term {
	w := tk.bits()
	switch {
	case w < t.w:
		return in.db.Extract(t, 0, w)
	case w > t.w:
		if fk.signed() {
			return in.db.Sext(t, w)
		}
		return in.db.Zext(t, w)
	}
	return t
}

var _ = fmt.Sprint
