package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

type step func(fr *frame)

type phiMove struct {
	dst int32
	src []int32
}

type block struct {
	phis  []phiMove
	code  []step
	term  func(fr *frame) int // next block index, -1 return
	succ  []int
	inits []*ssa.Package
}

type Fn struct {
	ssa       *ssa.Function
	name      string
	blocks    []*block
	nregs     int
	consts    []Value
	nparams   int
	nfree     int
	hasDefer  bool
	recoverB  int
	intr      func(in *Interp, args []Value) Value
	compiled  bool
	ours      bool
	maxphis   int
	retZero   types.Type
	signature *types.Signature
	pkgPath   string
	mapped    bool
}

type deferRec struct {
	fn   Value
	args []Value
	call func() // builtin or invoke
}

type frame struct {
	fn        *Fn
	in        *Interp
	regs      []Value
	block     int
	prev      int
	pos       token.Pos
	caller    *frame
	defers    []deferRec
	panicking *targetPanic
	result    Value
	tmp       []Value
}

func (fr *frame) v(i int32) Value {
	if i >= 0 {
		return fr.regs[i]
	}
	return fr.fn.consts[^i]
}

func (in *Interp) fn(f *ssa.Function) *Fn {
	if x := in.fns[f]; x != nil {
		return x
	}
	x := &Fn{ssa: f, name: f.String(), nparams: len(f.Params), nfree: len(f.FreeVars), recoverB: -1, signature: f.Signature}
	in.fns[f] = x
	if f.Pkg != nil {
		x.pkgPath = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		x.pkgPath = o.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		x.pkgPath = f.Object().Pkg().Path()
	} else if f.Parent() != nil {
		x.pkgPath = in.fn(f.Parent()).pkgPath
	}
	x.ours = isOurs(x.pkgPath)
	x.intr = lookupIntrinsic(in, x)
	return x
}

type compiler struct {
	in    *Interp
	fn    *Fn
	f     *ssa.Function
	reg   map[ssa.Value]int32
	cidx  map[ssa.Value]int32
	inits map[*ssa.Package]bool
}

func (in *Interp) compile(fn *Fn) {
	fn.compiled = true
	f := fn.ssa
	if len(f.Blocks) == 0 {
		return
	}
	c := &compiler{in: in, fn: fn, f: f, reg: map[ssa.Value]int32{}, cidx: map[ssa.Value]int32{}}
	n := int32(0)
	for _, p := range f.Params {
		c.reg[p] = n
		n++
	}
	for _, p := range f.FreeVars {
		c.reg[p] = n
		n++
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.reg[v] = n
				n++
			}
			if _, ok := i.(*ssa.Defer); ok {
				fn.hasDefer = true
			}
		}
	}
	fn.nregs = int(n)
	fn.blocks = make([]*block, len(f.Blocks))
	if f.Recover != nil {
		fn.recoverB = f.Recover.Index
	}
	for bi, b := range f.Blocks {
		blk := &block{}
		fn.blocks[bi] = blk
		c.inits = map[*ssa.Package]bool{}
		for _, s := range b.Succs {
			blk.succ = append(blk.succ, s.Index)
		}
		for _, i := range gcOrder(f, b) {
			switch x := i.(type) {
			case *ssa.Phi:
				pm := phiMove{dst: c.reg[x]}
				for _, e := range x.Edges {
					pm.src = append(pm.src, c.opnd(e))
				}
				blk.phis = append(blk.phis, pm)
			case *ssa.If:
				cnd := c.opnd(x.Cond)
				s0, s1 := b.Succs[0].Index, b.Succs[1].Index
				pos := x.Cond.Pos()
				blk.term = func(fr *frame) int {
					v := fr.v(cnd)
					if v.r == nil {
						if v.n != 0 {
							return s0
						}
						return s1
					}
					fr.pos = pos
					if fr.in.cond(v) {
						return s0
					}
					return s1
				}
			case *ssa.Jump:
				s0 := b.Succs[0].Index
				blk.term = func(fr *frame) int { return s0 }
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					blk.term = func(fr *frame) int { return -1 }
				case 1:
					r := c.opnd(x.Results[0])
					blk.term = func(fr *frame) int { fr.result = fr.v(r); return -1 }
				default:
					var rs []int32
					for _, r := range x.Results {
						rs = append(rs, c.opnd(r))
					}
					blk.term = func(fr *frame) int {
						t := make(Tuple, len(rs))
						for i, r := range rs {
							t[i] = fr.v(r)
						}
						fr.result = Value{r: t}
						return -1
					}
				}
			case *ssa.Panic:
				v := c.opnd(x.X)
				pos := x.Pos()
				blk.term = func(fr *frame) int {
					fr.pos = pos
					pv := fr.v(v)
					if pv.r == nil {
						fr.in.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
					}
					panic(targetPanic{v: pv, stack: fr.in.where()})
				}
			case *ssa.DebugRef:
			default:
				if s := c.instr(i); s != nil {
					blk.code = append(blk.code, s)
				}
			}
		}
		if bi == 0 && f.Pkg != nil && f.Synthetic == "" && f.Pkg.Func("init#1") != nil && !strings.HasPrefix(f.Name(), "init#") && c.in.pkgInit[f.Pkg] != 2 {
			// explicit init functions may install hooks elsewhere
			c.inits[f.Pkg] = true
		}
		for p := range c.inits {
			blk.inits = append(blk.inits, p)
		}
		sort.Slice(blk.inits, func(i, j int) bool { return blk.inits[i].Pkg.Path() < blk.inits[j].Pkg.Path() })
		if len(blk.phis) > fn.maxphis {
			fn.maxphis = len(blk.phis)
		}
	}
}

func (c *compiler) konst(v Value) int32 {
	c.fn.consts = append(c.fn.consts, v)
	return ^int32(len(c.fn.consts) - 1)
}

func (c *compiler) opnd(v ssa.Value) int32 {
	if r, ok := c.reg[v]; ok {
		return r
	}
	if g, ok := v.(*ssa.Global); ok && g.Pkg != nil && c.in.pkgInit[g.Pkg] != 2 {
		if g.Name() != "init$guard" {
			c.inits[g.Pkg] = true
		}
	}
	if r, ok := c.cidx[v]; ok {
		return r
	}
	var val Value
	switch x := v.(type) {
	case *ssa.Const:
		val = c.in.constVal(x)
	case *ssa.Global:
		val = Value{r: c.in.global(x)}
	case *ssa.Function:
		val = Value{r: &Closure{fn: c.in.fn(x)}}
	case *ssa.Builtin:
		val = Value{}
	default:
		panic(fmt.Sprintf("opnd %T %s", v, v))
	}
	r := c.konst(val)
	c.cidx[v] = r
	return r
}

func (in *Interp) constVal(x *ssa.Const) Value {
	if x.Value == nil {
		return zeroOf(x.Type())
	}
	t := x.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return zeroOf(t)
	}
	if i, ok := t.(*types.Interface); ok {
		_ = i
		in.unsupported("interface const")
	}
	switch k := kindOf(t); k {
	case kBool:
		return vBool(constant.BoolVal(x.Value))
	case kStr:
		if x.Value.Kind() == constant.String {
			return vStr(constant.StringVal(x.Value))
		}
		return vStr(string(rune(x.Int64())))
	case kF64:
		return vF64(x.Float64())
	case kF32:
		return vF64(float64(float32(x.Float64())))
	case kC64, kC128:
		return Value{r: x.Complex128()}
	case kUnsafe:
		return Value{}
	default:
		if !k.isInt() {
			panic(fmt.Sprintf("constVal %s %s", x, t))
		}
		if k.signed() {
			return Value{n: uint64(x.Int64())}
		}
		return Value{n: canonInt(x.Uint64(), k)}
	}
}

func derefT(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func (c *compiler) instr(i ssa.Instruction) step {
	in := c.in
	var dst int32 = -1
	if v, ok := i.(ssa.Value); ok {
		dst = c.reg[v]
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		t := derefT(x.Type())
		if !isAggType(t) {
			z := zeroOf(t)
			return func(fr *frame) {
				p := new(Value)
				*p = z
				fr.regs[dst] = Value{r: p}
			}
		}
		z := zeroOf(t)
		return func(fr *frame) {
			p := new(Value)
			*p = copyVal(z)
			fr.regs[dst] = Value{r: p}
		}
	case *ssa.BinOp:
		return c.binop(x, dst)
	case *ssa.UnOp:
		a := c.opnd(x.X)
		pos := x.Pos()
		switch x.Op {
		case token.MUL:
			et := derefT(x.X.Type())
			isStr := kindOf(et) == kStr
			_, isSl := et.Underlying().(*types.Slice)
			agg := isAggType(et)
			return func(fr *frame) {
				p, ok := fr.v(a).r.(*Value)
				if !ok {
					fr.pos = pos
					if fr.v(a).r == nil {
						fr.in.nilDeref()
					}
					fr.in.unsupported("load through %T", fr.v(a).r)
				}
				in := fr.in
				if in.sched.race {
					fr.pos = pos
					in.raceRead(p)
				}
				v := *p
				if agg {
					v = copyVal(v)
				} else if isStr {
					if b, ok := v.r.([]Value); ok {
						v = bytesToStr(b)
					}
				} else if isSl {
					switch s := v.r.(type) {
					case string:
						v = Value{r: strBytes(v)}
					case *SymStr:
						_ = s
						v = Value{r: strBytes(v)}
					}
				}
				fr.regs[dst] = v
			}
		case token.NOT:
			return func(fr *frame) {
				v := fr.v(a)
				if t, ok := v.r.(*Term); ok {
					fr.regs[dst] = in.val(in.db.Not(t), kBool)
				} else {
					fr.regs[dst] = Value{n: v.n ^ 1}
				}
			}
		case token.SUB:
			k := kindOf(x.X.Type())
			return func(fr *frame) {
				v := fr.v(a)
				if t, ok := v.r.(*Term); ok {
					if k.isFloat() {
						fr.regs[dst] = in.val(in.db.fop(OFNeg, t.w, 0, t), k)
					} else {
						fr.regs[dst] = in.val(in.db.Neg(t), k)
					}
				} else if k.isFloat() {
					fr.regs[dst] = vF64(-math.Float64frombits(v.n))
				} else if k == kC128 || k == kC64 {
					fr.regs[dst] = Value{r: -v.r.(complex128)}
				} else {
					fr.regs[dst] = Value{n: canonInt(-v.n, k)}
				}
			}
		case token.XOR:
			k := kindOf(x.X.Type())
			return func(fr *frame) {
				v := fr.v(a)
				if t, ok := v.r.(*Term); ok {
					fr.regs[dst] = in.val(in.db.bin(OBvXor, t, in.db.BV(^uint64(0), t.w)), k)
				} else {
					fr.regs[dst] = Value{n: canonInt(^v.n, k)}
				}
			}
		case token.ARROW:
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			commaOk := x.CommaOk
			return func(fr *frame) {
				fr.pos = pos
				v, ok := fr.in.chanRecv(fr.v(a), et)
				if commaOk {
					fr.regs[dst] = Value{r: Tuple{v, vBool(ok)}}
				} else {
					fr.regs[dst] = v
				}
			}
		}
		panic("unop " + x.Op.String())
	case *ssa.Call:
		f := c.call(&x.Call, x.Pos())
		return func(fr *frame) {
			r := f(fr)
			fr.regs[dst] = r
		}
	case *ssa.ChangeInterface:
		a := c.opnd(x.X)
		return func(fr *frame) { fr.regs[dst] = fr.v(a) }
	case *ssa.ChangeType:
		a := c.opnd(x.X)
		return func(fr *frame) { fr.regs[dst] = fr.v(a) }
	case *ssa.Convert:
		return c.convert(x.X, x.Type(), dst, x.Pos())
	case *ssa.MultiConvert:
		return c.convert(x.X, x.Type(), dst, x.Pos())
	case *ssa.Defer:
		f := c.deferred(&x.Call, x.Pos())
		return func(fr *frame) {
			fr.defers = append(fr.defers, f(fr))
		}
	case *ssa.Go:
		f := c.deferred(&x.Call, x.Pos())
		pos := x.Pos()
		return func(fr *frame) {
			fr.pos = pos
			d := f(fr)
			fr.in.spawn(d)
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Extract:
		a := c.opnd(x.Tuple)
		idx := x.Index
		return func(fr *frame) { fr.regs[dst] = fr.v(a).r.(Tuple)[idx] }
	case *ssa.Field:
		a := c.opnd(x.X)
		idx := x.Field
		return func(fr *frame) { fr.regs[dst] = fr.v(a).r.(Agg)[idx] }
	case *ssa.FieldAddr:
		a := c.opnd(x.X)
		idx := x.Field
		pos := x.Pos()
		return func(fr *frame) {
			p, ok := fr.v(a).r.(*Value)
			if !ok {
				fr.pos = pos
				if fr.v(a).r == nil {
					fr.in.nilDeref()
				}
				fr.in.unsupported("fieldaddr of %T", fr.v(a).r)
			}
			g, ok := p.r.(Agg)
			if !ok {
				fr.pos = pos
				fr.in.unsupported("fieldaddr in %T", p.r)
			}
			fr.regs[dst] = Value{r: &g[idx]}
		}
	case *ssa.Index:
		a, b := c.opnd(x.X), c.opnd(x.Index)
		pos := x.Pos()
		if kindOf(x.X.Type()) == kStr {
			return func(fr *frame) {
				fr.pos = pos
				fr.regs[dst] = in.strIndex(fr.v(a), fr.v(b), kindOf(x.Index.Type()))
			}
		}
		et := x.Type()
		ik := kindOf(x.Index.Type())
		return func(fr *frame) {
			fr.pos = pos
			fr.regs[dst] = in.readIndex([]Value(fr.v(a).r.(Agg)), fr.v(b), ik, et)
		}
	case *ssa.IndexAddr:
		return c.indexAddr(x, dst)
	case *ssa.Lookup:
		a, b := c.opnd(x.X), c.opnd(x.Index)
		pos := x.Pos()
		if kindOf(x.X.Type()) == kStr {
			ik := kindOf(x.Index.Type())
			return func(fr *frame) {
				fr.pos = pos
				fr.regs[dst] = in.strIndex(fr.v(a), fr.v(b), ik)
			}
		}
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		commaOk := x.CommaOk
		return func(fr *frame) {
			fr.pos = pos
			m, _ := fr.v(a).r.(*MapV)
			var v Value
			ok := false
			if m != nil {
				if in.sched.race {
					in.raceMap(m, false)
				}
				if e := in.mapFind(m, fr.v(b)); e != nil {
					v = e.v
					ok = true
				}
			}
			if !ok {
				v = zeroOf(vt)
			}
			if commaOk {
				fr.regs[dst] = Value{r: Tuple{v, vBool(ok)}}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		a, k, v := c.opnd(x.Map), c.opnd(x.Key), c.opnd(x.Value)
		pos := x.Pos()
		return func(fr *frame) {
			fr.pos = pos
			m, _ := fr.v(a).r.(*MapV)
			if m == nil {
				rt := in.p.prog.ImportedPackage("runtime")
				t := in.p.canon(rt.Type("plainError").Object().Type())
				panic(targetPanic{v: Value{r: &Iface{t: t, v: vStr("assignment to entry in nil map")}}, stack: in.where()})
			}
			if in.sched.race {
				in.raceMap(m, true)
			}
			in.mapSet(m, fr.v(k), fr.v(v))
		}
	case *ssa.MakeChan:
		a := c.opnd(x.Size)
		return func(fr *frame) {
			fr.regs[dst] = Value{r: &ChanV{cap: int(in.concInt(fr.v(a), kI64)), id: in.newID(), epoch: in.epoch}}
		}
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return func(fr *frame) { fr.regs[dst] = Value{r: in.newMap(mt.Key(), mt.Elem())} }
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		l, cp := c.opnd(x.Len), c.opnd(x.Cap)
		lk, ck := kindOf(x.Len.Type()), kindOf(x.Cap.Type())
		agg := isAggType(et)
		pos := x.Pos()
		return func(fr *frame) {
			fr.pos = pos
			n, m := int64(in.concInt(fr.v(l), lk)), int64(in.concInt(fr.v(cp), ck))
			if n < 0 || n > 1<<40 {
				in.rtPanic("makeslice: len out of range")
			}
			if m < n || m > 1<<40 {
				in.rtPanic("makeslice: cap out of range")
			}
			if m > 1<<24 {
				in.unsupported("makeslice of %d elements", m)
			}
			s := make([]Value, n, m)
			if agg {
				f := s[:m]
				for i := range f {
					f[i] = zeroOf(et)
				}
			}
			fr.regs[dst] = Value{r: s}
		}
	case *ssa.MakeClosure:
		f := in.fn(x.Fn.(*ssa.Function))
		var bs []int32
		for _, b := range x.Bindings {
			bs = append(bs, c.opnd(b))
		}
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i, b := range bs {
				env[i] = fr.v(b)
			}
			fr.regs[dst] = Value{r: &Closure{fn: f, env: env}}
		}
	case *ssa.MakeInterface:
		a := c.opnd(x.X)
		t := in.p.canon(x.X.Type())
		return func(fr *frame) { fr.regs[dst] = Value{r: &Iface{t: t, v: fr.v(a)}} }
	case *ssa.Next:
		return c.next(x, dst)
	case *ssa.Range:
		a := c.opnd(x.X)
		if kindOf(x.X.Type()) == kStr {
			return func(fr *frame) { fr.regs[dst] = Value{r: &strIter{s: fr.v(a)}} }
		}
		ours := c.fn.ours
		pos := x.Pos()
		return func(fr *frame) {
			m, _ := fr.v(a).r.(*MapV)
			it := &mapIter{m: m}
			if m != nil {
				if in.sched.race {
					fr.pos = pos
					in.raceMap(m, false)
				}
				it.rest = append(it.rest, m.ents...)
				it.perm = in.mapOrder && (ours || in.cfg.MapOrderAll) && len(it.rest) > 1
				if it.perm && len(it.rest) > 4 {
					it.perm = false
					in.note("map iteration order explored only for maps of at most 4 entries")
				}
			}
			fr.regs[dst] = Value{r: it}
		}
	case *ssa.Select:
		return c.sel(x, dst)
	case *ssa.Send:
		a, b := c.opnd(x.Chan), c.opnd(x.X)
		pos := x.Pos()
		return func(fr *frame) {
			fr.pos = pos
			fr.in.chanSend(fr.v(a), fr.v(b))
		}
	case *ssa.Slice:
		return c.slice(x, dst)
	case *ssa.SliceToArrayPointer:
		a := c.opnd(x.X)
		n := int(derefT(x.Type()).Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s, _ := fr.v(a).r.([]Value)
			if len(s) < n {
				in.rtPanic("cannot convert slice to array pointer: length mismatch")
			}
			if s == nil {
				fr.regs[dst] = Value{}
				return
			}
			fr.regs[dst] = Value{r: &Value{r: Agg(s[:n:n])}}
		}
	case *ssa.Store:
		a, b := c.opnd(x.Addr), c.opnd(x.Val)
		pos := x.Pos()
		return func(fr *frame) {
			p, ok := fr.v(a).r.(*Value)
			if !ok {
				fr.pos = pos
				if fr.v(a).r == nil {
					fr.in.nilDeref()
				}
				fr.in.unsupported("store through %T", fr.v(a).r)
			}
			if in.sched.race {
				fr.pos = pos
				in.raceWrite(p)
			}
			in.store(p, fr.v(b))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x, dst)
	}
	panic(fmt.Sprintf("instr %T", i))
}

func (c *compiler) next(x *ssa.Next, dst int32) step {
	a := c.opnd(x.Iter)
	in := c.in
	if x.IsString {
		return func(fr *frame) {
			it := fr.v(a).r.(*strIter)
			n := strLen(it.s)
			if it.i >= n {
				fr.regs[dst] = Value{r: Tuple{vBool(false), {}, {}}}
				return
			}
			i := it.i
			r, sz := in.decodeRune(it.s, i)
			it.i += sz
			fr.regs[dst] = Value{r: Tuple{vBool(true), vInt(i), r}}
		}
	}
	return func(fr *frame) {
		it := fr.v(a).r.(*mapIter)
		for len(it.rest) > 0 {
			i := 0
			if it.perm && len(it.rest) > 1 {
				// drop dead entries first so the choice is among live ones
				live := it.rest[:0:0]
				for _, e := range it.rest {
					if !e.dead {
						live = append(live, e)
					}
				}
				it.rest = live
				if len(live) == 0 {
					break
				}
				i = in.choose(len(live), "maporder")
			}
			e := it.rest[i]
			nr := make([]*mapEnt, 0, len(it.rest)-1)
			if i == 0 {
				nr = it.rest[1:]
			} else {
				nr = append(append(nr, it.rest[:i]...), it.rest[i+1:]...)
			}
			it.rest = nr
			if e.dead {
				continue
			}
			fr.regs[dst] = Value{r: Tuple{vBool(true), e.k, e.v}}
			return
		}
		fr.regs[dst] = Value{r: Tuple{vBool(false), {}, {}}}
	}
}

func (in *Interp) decodeRune(s Value, i int) (Value, int) {
	if cs, ok := s.r.(string); ok {
		r, n := utf8.DecodeRuneInString(cs[i:])
		return vI64(int64(r)), n
	}
	b := strByte(s, i)
	if in.cond(in.val(in.db.Ult(in.term(b, kU8), in.db.BV(0x80, 8)), kBool)) {
		return in.val(in.db.Zext(in.term(b, kU8), 32), kI32), 1
	}
	// general case: interpret utf8.DecodeRuneInString
	f := in.p.prog.ImportedPackage("unicode/utf8").Func("DecodeRuneInString")
	r := in.callFn(in.fn(f), []Value{strSlice(s, i, min(strLen(s), i+4))}).r.(Tuple)
	return r[0], int(in.concInt(r[1], kI64))
}

func (c *compiler) typeAssert(x *ssa.TypeAssert, dst int32) step {
	in := c.in
	a := c.opnd(x.X)
	t := in.p.canon(x.AssertedType)
	_, isI := t.Underlying().(*types.Interface)
	commaOk := x.CommaOk
	pos := x.Pos()
	z := zeroOf(t)
	return func(fr *frame) {
		v := fr.v(a)
		ok := false
		var out Value
		if i, _ := v.r.(*Iface); i != nil {
			if isI {
				if in.p.implements(i.t, t) {
					ok, out = true, v
				}
			} else if i.t == t {
				ok, out = true, i.v
			}
		}
		if commaOk {
			if !ok {
				out = z
			}
			fr.regs[dst] = Value{r: Tuple{out, vBool(ok)}}
			return
		}
		if !ok {
			fr.pos = pos
			d := "nil"
			if i, _ := v.r.(*Iface); i != nil {
				d = i.t.String()
			}
			in.typeAssertPanic("interface conversion: interface is " + d + ", not " + t.String())
		}
		fr.regs[dst] = out
	}
}

func (in *Interp) typeAssertPanic(msg string) { in.rtPanic(msg) }

func (c *compiler) indexAddr(x *ssa.IndexAddr, dst int32) step {
	in := c.in
	a, b := c.opnd(x.X), c.opnd(x.Index)
	pos := x.Pos()
	ik := kindOf(x.Index.Type())
	// scalar element read through a symbolic index becomes an ite chain when
	// every use of the address is a load
	var loads []int32
	onlyLoads := true
	for _, r := range *x.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			_ = u
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		onlyLoads = false
	}
	_ = loads
	_, isPtr := x.X.Type().Underlying().(*types.Pointer)
	et := derefT(x.Type())
	return func(fr *frame) {
		av := fr.v(a)
		var s []Value
		if isPtr {
			p, ok := av.r.(*Value)
			if !ok {
				fr.pos = pos
				in.nilDeref()
			}
			s = []Value(p.r.(Agg))
		} else {
			s, _ = av.r.([]Value)
			if s == nil && av.r != nil {
				if _, ok := av.r.([]Value); !ok {
					fr.pos = pos
					in.unsupported("index of %T", av.r)
				}
			}
		}
		iv := fr.v(b)
		if iv.r == nil {
			i := int64(iv.n)
			if ik == kU64 && i < 0 {
				i = -1
			}
			if i < 0 || i >= int64(len(s)) {
				fr.pos = pos
				in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(s)))
			}
			fr.regs[dst] = Value{r: &s[i]}
			return
		}
		fr.pos = pos
		if onlyLoads && in.canRead(s, et) {
			v := in.readIndex(s, iv, ik, et)
			fr.regs[dst] = Value{r: &v}
			return
		}
		in.boundsCheck(iv, ik, len(s))
		i := in.concInt(iv, ik)
		fr.regs[dst] = Value{r: &s[i]}
	}
}

func (in *Interp) boundsCheck(iv Value, ik kind, n int) {
	t := in.term(iv, ik)
	var ok *Term
	if ik.signed() {
		ok = in.db.And(in.db.Sle(in.db.BV(0, t.w), t), in.db.Slt(t, in.db.BV(uint64(n), t.w)))
	} else if t.w < 64 && uint64(n) > maskW(t.w) {
		ok = in.db.True
	} else {
		ok = in.db.Ult(t, in.db.BV(uint64(n), t.w))
	}
	if ik.signed() && t.w < 64 && int64(n) > maxS(t.w) {
		ok = in.db.Sle(in.db.BV(0, t.w), t)
	}
	if !in.branch(ok) {
		in.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

func (in *Interp) canRead(s []Value, et types.Type) bool {
	k := kindOf(et)
	return k == kBool || k.isInt()
}

// readIndex reads s[i] for a possibly symbolic index.
func (in *Interp) readIndex(s []Value, iv Value, ik kind, et types.Type) Value {
	if iv.r == nil {
		i := int64(iv.n)
		if i < 0 || i >= int64(len(s)) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(s)))
		}
		return copyVal(s[i])
	}
	in.boundsCheck(iv, ik, len(s))
	if !in.canRead(s, et) {
		i := in.concInt(iv, ik)
		return copyVal(s[i])
	}
	t := in.term(iv, ik)
	k := kindOf(et)
	// group equal concrete elements into ranges
	lo, hi := 0, len(s)-1
	if t.ulo > 0 && t.ulo < uint64(len(s)) {
		lo = int(t.ulo)
	}
	if t.uhi < uint64(hi) {
		hi = int(t.uhi)
	}
	type run struct {
		a, b int
		v    *Term
	}
	var runs []run
	for i := lo; i <= hi; i++ {
		e := in.term(s[i], k)
		if len(runs) > 0 && runs[len(runs)-1].v == e {
			runs[len(runs)-1].b = i
		} else {
			runs = append(runs, run{i, i, e})
		}
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if a == b {
			return runs[a].v
		}
		m := (a + b + 1) / 2
		return in.db.Ite(in.db.Ult(t, in.db.BV(uint64(runs[m].a), t.w)), build(a, m-1), build(m, b))
	}
	return in.val(build(0, len(runs)-1), k)
}

func (in *Interp) strIndex(s, iv Value, ik kind) Value {
	n := strLen(s)
	if iv.r == nil {
		i := int64(iv.n)
		if i < 0 || i >= int64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return strByte(s, int(i))
	}
	return in.readIndex(strBytes(s), iv, ik, types.Typ[types.Uint8])
}

func (c *compiler) slice(x *ssa.Slice, dst int32) step {
	in := c.in
	a := c.opnd(x.X)
	opt := func(v ssa.Value) (int32, kind, bool) {
		if v == nil {
			return 0, 0, false
		}
		return c.opnd(v), kindOf(v.Type()), true
	}
	lo, lk, hasLo := opt(x.Low)
	hi, hk, hasHi := opt(x.High)
	mx, mk, hasMax := opt(x.Max)
	isStr := kindOf(x.X.Type()) == kStr
	_, isPtr := x.X.Type().Underlying().(*types.Pointer)
	pos := x.Pos()
	return func(fr *frame) {
		fr.pos = pos
		av := fr.v(a)
		var s []Value
		var n, cp int
		if isStr {
			n = strLen(av)
			cp = n
		} else if isPtr {
			p, ok := av.r.(*Value)
			if !ok {
				in.nilDeref()
			}
			s = []Value(p.r.(Agg))
			n, cp = len(s), len(s)
		} else {
			s, _ = av.r.([]Value)
			n, cp = len(s), cap(s)
		}
		l, h, m := 0, n, cp
		if hasLo {
			l = in.sliceIdx(fr.v(lo), lk, cp)
		}
		if hasHi {
			h = in.sliceIdx(fr.v(hi), hk, cp)
		}
		if hasMax {
			m = in.sliceIdx(fr.v(mx), mk, cp)
		}
		if h < 0 || h > cp || m > cp || m < h {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, cp))
		}
		if l < 0 || l > h {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if isStr {
			fr.regs[dst] = strSlice(av, l, h)
			return
		}
		if s == nil {
			fr.regs[dst] = Value{}
			return
		}
		fr.regs[dst] = Value{r: s[l:h:m]}
	}
}

func (in *Interp) sliceIdx(v Value, k kind, cp int) int {
	if v.r == nil {
		if int64(v.n) < 0 || int64(v.n) > 1<<40 {
			return -1
		}
		return int(v.n)
	}
	// out of range values all behave the same: fork once on it
	t := in.term(v, k)
	var ok *Term
	if k.signed() {
		ok = in.db.And(in.db.Sle(in.db.BV(0, t.w), t), in.db.Sle(t, in.db.BV(uint64(cp), t.w)))
	} else {
		ok = in.db.Ule(t, in.db.BV(uint64(cp), t.w))
	}
	if !in.branch(ok) {
		return -1
	}
	return int(in.concInt(v, k))
}
