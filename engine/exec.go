package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// callFn runs an interpreted (or intrinsic) function.
func (in *Interp) callFn(fn *Fn, args []Value) Value {
	return in.callEnv(fn, args, nil)
}

func (in *Interp) callEnv(fn *Fn, args []Value, env []Value) Value {
	if fn.intr != nil {
		return fn.intr(in, args)
	}
	if !fn.compiled {
		in.compile(fn)
	}
	if len(fn.blocks) == 0 {
		in.unsupported("no body: %s", fn.name)
	}
	g := in.sched.cur
	fr := &frame{fn: fn, in: in, regs: make([]Value, fn.nregs), caller: g.top, prev: -1}
	copy(fr.regs, args)
	if len(env) > 0 {
		copy(fr.regs[fn.nparams:], env)
	}
	g.depth++
	if g.depth > maxDepth {
		g.depth = 0
		panic(pathAbort{"violation", "stack overflow (recursion deeper than " + fmt.Sprint(maxDepth) + " frames) in " + in.where()})
	}
	if fn.ours && !in.fnSeen[fn.ssa] {
		in.fnSeen[fn.ssa] = true
	}
	g.top = fr
	if !fn.hasDefer {
		fr.run(0)
	} else {
		fr.runDeferred()
	}
	g.top = fr.caller
	g.depth--
	return fr.result
}

const maxDepth = 2500

func (fr *frame) run(start int) {
	in := fr.in
	fn := fr.fn
	bi := start
	for bi >= 0 {
		b := fn.blocks[bi]
		if len(b.inits) > 0 {
			for _, p := range b.inits {
				in.ensureInit(p)
			}
			done := true
			for _, p := range b.inits {
				if in.pkgInit[p] != 2 {
					done = false
				}
			}
			if done {
				b.inits = nil
			}
		}
		if n := len(b.phis); n > 0 {
			edge := fr.edge(bi)
			if n == 1 {
				fr.regs[b.phis[0].dst] = fr.v(b.phis[0].src[edge])
			} else {
				if fr.tmp == nil {
					fr.tmp = make([]Value, fn.maxphis)
				}
				for i := range b.phis {
					fr.tmp[i] = fr.v(b.phis[i].src[edge])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = fr.tmp[i]
				}
			}
		}
		in.steps += int64(len(b.code)) + 1
		if in.steps > in.cfg.Fuel && in.tracking {
			panic(pathAbort{"fuel", fmt.Sprintf("path longer than %d instructions @ %s", in.cfg.Fuel, in.where())})
		}
		for _, s := range b.code {
			s(fr)
		}
		fr.prev = bi
		if b.term == nil {
			panic(fmt.Sprintf("block without terminator in %s", fn.name))
		}
		bi = b.term(fr)
	}
}

// edge gives the index of the predecessor edge taken into block bi.
func (fr *frame) edge(bi int) int {
	for i, p := range fr.fn.ssa.Blocks[bi].Preds {
		if p.Index == fr.prev {
			return i
		}
	}
	panic("no edge")
}

func (fr *frame) runDeferred() {
	in := fr.in
	g := in.sched.cur
	start := 0
	for {
		tp := fr.protect(func() { fr.run(start) })
		if tp == nil {
			return
		}
		fr.panicking = tp
		for fr.panicking != nil && len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			g.top = fr
			if tp2 := fr.protect(func() { in.runDefer(d) }); tp2 != nil {
				fr.panicking = tp2
			}
		}
		if fr.panicking != nil {
			p := *fr.panicking
			panic(p)
		}
		// recovered: run the remaining defers, then return through the recover block
		for len(fr.defers) > 0 && fr.panicking == nil {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			g.top = fr
			if tp2 := fr.protect(func() { in.runDefer(d) }); tp2 != nil {
				fr.panicking = tp2
			}
		}
		if fr.panicking != nil {
			// a later defer panicked again: loop over what is left
			tp := *fr.panicking
			fr.panicking = nil
			if len(fr.defers) == 0 {
				panic(tp)
			}
			t2 := tp
			start = -1
			_ = t2
			// emulate by re-raising inside this frame
			fr.panicking = &tp
			for fr.panicking != nil && len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				if tp3 := fr.protect(func() { in.runDefer(d) }); tp3 != nil {
					fr.panicking = tp3
				}
			}
			if fr.panicking != nil {
				panic(*fr.panicking)
			}
		}
		g.top = fr
		if fr.fn.recoverB < 0 {
			fr.result = zeroResult(fr.fn.signature)
			return
		}
		start = fr.fn.recoverB
		fr.prev = -1
	}
}

func zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return Value{}
	case 1:
		return zeroOf(sig.Results().At(0).Type())
	}
	return zeroOf(sig.Results())
}

// protect runs f and returns an interpreted panic it raised.
func (fr *frame) protect(f func()) (tp *targetPanic) {
	g := fr.in.sched.cur
	depth := g.depth
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		if p, is := r.(targetPanic); is {
			tp = &p
			g.depth = depth
			g.top = fr
			return
		}
		panic(r)
	}()
	f()
	ok = true
	return nil
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.in.runDefer(d)
	}
}

func (in *Interp) runDefer(d deferRec) {
	if d.call != nil {
		d.call()
		return
	}
	in.callValue(d.fn, d.args)
}

// callValue calls a func value.
func (in *Interp) callValue(f Value, args []Value) Value {
	c, ok := f.r.(*Closure)
	if !ok {
		in.nilDeref()
	}
	if c.nat != nil {
		return c.nat(in, args)
	}
	return in.callEnv(c.fn, args, c.env)
}

func (in *Interp) nat(name string, f func(in *Interp, args []Value) Value) Value {
	return Value{r: &Closure{nat: f, nm: name}}
}

// call compiles a call into a closure producing its result.
func (c *compiler) call(cc *ssa.CallCommon, pos token.Pos) func(fr *frame) Value {
	in := c.in
	var as []int32
	for _, a := range cc.Args {
		as = append(as, c.opnd(a))
	}
	if cc.IsInvoke() {
		recv := c.opnd(cc.Value)
		pkg := cc.Method.Pkg()
		name := cc.Method.Name()
		var ct types.Type
		var cf *Fn
		return func(fr *frame) Value {
			fr.pos = pos
			i, _ := fr.v(recv).r.(*Iface)
			if i == nil {
				in.nilDeref()
			}
			args := make([]Value, len(as)+1)
			args[0] = i.v
			for j, a := range as {
				args[j+1] = fr.v(a)
			}
			if ct != i.t {
				cf = in.methodOf(i.t, pkg, name)
				ct = i.t
			}
			return in.callEnv(cf, args, nil)
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(f.Name(), cc, as, pos)
	case *ssa.Function:
		if f.Synthetic == "package initializer" {
			// initialisers run on demand (see ensureInit)
			return func(fr *frame) Value { return Value{} }
		}
		fn := in.fn(f)
		return func(fr *frame) Value {
			fr.pos = pos
			args := make([]Value, len(as))
			for j, a := range as {
				args[j] = fr.v(a)
			}
			return in.callEnv(fn, args, nil)
		}
	}
	fv := c.opnd(cc.Value)
	return func(fr *frame) Value {
		fr.pos = pos
		args := make([]Value, len(as))
		for j, a := range as {
			args[j] = fr.v(a)
		}
		return in.callValue(fr.v(fv), args)
	}
}

func (in *Interp) methodOf(t types.Type, pkg *types.Package, name string) *Fn {
	f := in.p.lookupMethod(t, pkg, name)
	if f == nil {
		in.unsupported("method %s of %s", name, t)
	}
	return in.fn(f)
}

// callMethod calls a method by name on a dynamic value.
func (in *Interp) callMethod(t types.Type, recv Value, name string, args ...Value) Value {
	var pkg *types.Package
	if n, ok := t.(*types.Named); ok && n.Obj() != nil {
		pkg = n.Obj().Pkg()
	}
	f := in.methodOf(t, pkg, name)
	return in.callEnv(f, append([]Value{recv}, args...), nil)
}

// deferred evaluates function and arguments now, for a later call.
func (c *compiler) deferred(cc *ssa.CallCommon, pos token.Pos) func(fr *frame) deferRec {
	in := c.in
	var as []int32
	for _, a := range cc.Args {
		as = append(as, c.opnd(a))
	}
	if cc.IsInvoke() {
		recv := c.opnd(cc.Value)
		pkg := cc.Method.Pkg()
		name := cc.Method.Name()
		return func(fr *frame) deferRec {
			fr.pos = pos
			i, _ := fr.v(recv).r.(*Iface)
			if i == nil {
				in.nilDeref()
			}
			args := make([]Value, len(as)+1)
			args[0] = i.v
			for j, a := range as {
				args[j+1] = fr.v(a)
			}
			return deferRec{fn: Value{r: &Closure{fn: in.methodOf(i.t, pkg, name)}}, args: args}
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f := c.builtin(b.Name(), cc, as, pos)
		return func(fr *frame) deferRec {
			// arguments are registers: capture their values
			sub := &frame{fn: fr.fn, in: in, regs: append([]Value(nil), fr.regs...), caller: fr.caller}
			return deferRec{call: func() { f(sub) }}
		}
	}
	var fi int32
	if f, ok := cc.Value.(*ssa.Function); ok {
		fi = c.konst(Value{r: &Closure{fn: in.fn(f)}})
	} else {
		fi = c.opnd(cc.Value)
	}
	return func(fr *frame) deferRec {
		fr.pos = pos
		args := make([]Value, len(as))
		for j, a := range as {
			args[j] = fr.v(a)
		}
		return deferRec{fn: fr.v(fi), args: args}
	}
}

func (c *compiler) builtin(name string, cc *ssa.CallCommon, as []int32, pos token.Pos) func(fr *frame) Value {
	in := c.in
	argT := func(i int) types.Type { return cc.Args[i].Type() }
	switch name {
	case "len", "cap":
		isCap := name == "cap"
		switch u := argT(0).Underlying().(type) {
		case *types.Basic:
			return func(fr *frame) Value { return vInt(strLen(fr.v(as[0]))) }
		case *types.Slice:
			return func(fr *frame) Value {
				s, _ := fr.v(as[0]).r.([]Value)
				if isCap {
					return vInt(cap(s))
				}
				return vInt(len(s))
			}
		case *types.Map:
			return func(fr *frame) Value {
				m, _ := fr.v(as[0]).r.(*MapV)
				if m == nil {
					return vInt(0)
				}
				if in.sched.race {
					fr.pos = pos
					in.raceMap(m, false)
				}
				return vInt(m.count)
			}
		case *types.Chan:
			return func(fr *frame) Value {
				ch, _ := fr.v(as[0]).r.(*ChanV)
				if ch == nil {
					return vInt(0)
				}
				if isCap {
					return vInt(ch.cap)
				}
				fr.pos = pos
				in.visible(ch, "len")
				return vInt(len(ch.buf))
			}
		case *types.Array:
			n := int(u.Len())
			return func(fr *frame) Value { return vInt(n) }
		case *types.Pointer:
			n := int(u.Elem().Underlying().(*types.Array).Len())
			return func(fr *frame) Value { return vInt(n) }
		}
		panic("len of " + argT(0).String())
	case "append":
		if kindOf(argT(1)) == kStr {
			return func(fr *frame) Value {
				fr.pos = pos
				s, _ := fr.v(as[0]).r.([]Value)
				return in.appendVals(s, strBytes(fr.v(as[1])), nil, fr.v(as[0]))
			}
		}
		et := argT(0).Underlying().(*types.Slice).Elem()
		return func(fr *frame) Value {
			fr.pos = pos
			s, _ := fr.v(as[0]).r.([]Value)
			var t []Value
			switch tt := fr.v(as[1]).r.(type) {
			case []Value:
				t = tt
			case string, *SymStr:
				t = strBytes(fr.v(as[1]))
			}
			if in.sched.race {
				for i := range t {
					in.raceRead(&t[i])
				}
			}
			return in.appendVals(s, t, et, fr.v(as[0]))
		}
	case "copy":
		return func(fr *frame) Value {
			fr.pos = pos
			d, _ := fr.v(as[0]).r.([]Value)
			var s []Value
			switch x := fr.v(as[1]).r.(type) {
			case []Value:
				s = x
			case nil:
			default:
				s = strBytes(fr.v(as[1]))
			}
			n := min(len(d), len(s))
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				if in.sched.race {
					in.raceRead(&s[i])
				}
				tmp[i] = copyVal(s[i])
			}
			for i := 0; i < n; i++ {
				if in.sched.race {
					in.raceWrite(&d[i])
				}
				in.store(&d[i], tmp[i])
			}
			return vInt(n)
		}
	case "close":
		return func(fr *frame) Value {
			fr.pos = pos
			in.chanClose(fr.v(as[0]))
			return Value{}
		}
	case "delete":
		return func(fr *frame) Value {
			fr.pos = pos
			m, _ := fr.v(as[0]).r.(*MapV)
			if m != nil {
				if in.sched.race {
					in.raceMap(m, true)
				}
				in.mapDelete(m, fr.v(as[1]))
			}
			return Value{}
		}
	case "clear":
		return func(fr *frame) Value {
			fr.pos = pos
			switch x := fr.v(as[0]).r.(type) {
			case *MapV:
				if in.sched.race {
					in.raceMap(x, true)
				}
				in.mapClear(x)
			case []Value:
				et := argT(0).Underlying().(*types.Slice).Elem()
				for i := range x {
					in.store(&x[i], zeroOf(et))
				}
			}
			return Value{}
		}
	case "print", "println":
		return func(fr *frame) Value { return Value{} }
	case "panic":
		return func(fr *frame) Value {
			fr.pos = pos
			panic(targetPanic{v: fr.v(as[0]), stack: in.where()})
		}
	case "recover":
		return func(fr *frame) Value {
			c := fr.caller
			if c == nil || c.panicking == nil || c.panicking.goexit {
				return Value{}
			}
			v := c.panicking.v
			c.panicking = nil
			return v
		}
	case "min", "max":
		k := kindOf(argT(0))
		return func(fr *frame) Value {
			r := fr.v(as[0])
			for _, a := range as[1:] {
				b := fr.v(a)
				var c Value
				if name == "min" {
					c = in.binopVal(token.LSS, b, r, k)
				} else {
					c = in.binopVal(token.LSS, r, b, k)
				}
				if t, ok := c.r.(*Term); ok && k != kStr {
					r = in.val(in.db.Ite(t, in.term(b, k), in.term(r, k)), k)
				} else if in.cond(c) {
					r = b
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(fr *frame) Value {
			p := fr.v(as[0])
			if p.r == nil {
				fr.pos = pos
				in.nilDeref()
			}
			return p
		}
	case "ssa:deferstack":
		return func(fr *frame) Value { return Value{} }
	case "String": // unsafe.String
		return func(fr *frame) Value {
			fr.pos = pos
			n := int(in.concInt(fr.v(as[1]), kI64))
			if n == 0 {
				return Value{}
			}
			return bytesToStr(in.unsafeSlice(fr.v(as[0]), n))
		}
	case "StringData":
		return func(fr *frame) Value {
			b := strBytes(fr.v(as[0]))
			if len(b) == 0 {
				return Value{r: new(Value)}
			}
			return Value{r: &b[0]}
		}
	case "Slice":
		return func(fr *frame) Value {
			fr.pos = pos
			n := int(in.concInt(fr.v(as[1]), kI64))
			if fr.v(as[0]).r == nil {
				return Value{}
			}
			return Value{r: in.unsafeSlice(fr.v(as[0]), n)}
		}
	case "SliceData":
		return func(fr *frame) Value {
			s, _ := fr.v(as[0]).r.([]Value)
			if s == nil {
				return Value{}
			}
			if cap(s) == 0 {
				return Value{r: new(Value)}
			}
			return Value{r: &s[:1][0]}
		}
	}
	return func(fr *frame) Value {
		fr.pos = pos
		in.unsupported("builtin %s", name)
		return Value{}
	}
}

func (in *Interp) appendVals(s, t []Value, et types.Type, orig Value) Value {
	if len(t) == 0 {
		return orig
	}
	n := len(s) + len(t)
	if n <= cap(s) {
		d := s[:n]
		// source may alias destination
		tmp := make([]Value, len(t))
		for i := range t {
			tmp[i] = copyVal(t[i])
		}
		for i := range tmp {
			if in.sched.race {
				in.raceWrite(&d[len(s)+i])
			}
			in.store(&d[len(s)+i], tmp[i])
		}
		return Value{r: d}
	}
	// same growth discipline as the Go runtime (amortised doubling); the exact
	// capacity is an implementation detail
	cp := growCap(cap(s), n)
	d := make([]Value, n, cp)
	for i := range s {
		d[i] = copyVal(s[i])
	}
	for i := range t {
		d[len(s)+i] = copyVal(t[i])
	}
	if et != nil && isAggType(et) {
		f := d[:cp]
		for i := n; i < cp; i++ {
			f[i] = zeroOf(et)
		}
	}
	return Value{r: d}
}

func growCap(old, n int) int {
	c := old
	if n > 2*old {
		c = n
	} else if old < 256 {
		c = 2 * old
	} else {
		for c < n {
			c += (c + 3*256) / 4
		}
	}
	// round up to small size classes (8 byte elements)
	for _, k := range []int{1, 2, 3, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32} {
		if c <= k {
			return k
		}
	}
	return c
}
