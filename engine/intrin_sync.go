package main

import (
	"go/types"
	"strings"
)

// leaf gives the i-th scalar cell inside a (nested) aggregate.
func leaf(p *Value, i int) *Value {
	var out *Value
	n := 0
	var walk func(q *Value)
	walk = func(q *Value) {
		if out != nil {
			return
		}
		if a, ok := q.r.(Agg); ok {
			for j := range a {
				walk(&a[j])
			}
			return
		}
		if n == i {
			out = q
		}
		n++
	}
	walk(p)
	return out
}

func (in *Interp) ptr(v Value) *Value {
	p, ok := v.r.(*Value)
	if !ok {
		in.nilDeref()
	}
	return p
}

func (in *Interp) fatal(msg string) {
	panic(pathAbort{"violation", "fatal error: " + msg + " @ " + in.where()})
}

type condQ struct{ ws []*G }

func init() {
	// ---- Mutex: leaf 0 is the state (0 free, 1 locked) ----
	lock := func(in *Interp, a []Value) Value {
		m := leaf(in.ptr(a[0]), 0)
		in.visibleWait(m, "Lock", func() bool { return m.n == 0 })
		if m.n != 0 {
			in.sched.cur.status = gWaiting
			in.unsupported("lock held in single-threaded section")
		}
		in.store(m, Value{n: 1})
		in.acquire(m)
		return Value{}
	}
	unlock := func(in *Interp, a []Value) Value {
		m := leaf(in.ptr(a[0]), 0)
		in.visible(m, "Unlock")
		if m.n == 0 {
			in.fatal("sync: unlock of unlocked mutex")
		}
		in.store(m, Value{n: 0})
		in.release(m)
		return Value{}
	}
	trylock := func(in *Interp, a []Value) Value {
		m := leaf(in.ptr(a[0]), 0)
		in.visible(m, "TryLock")
		if m.n != 0 {
			return vBool(false)
		}
		in.store(m, Value{n: 1})
		in.acquire(m)
		return vBool(true)
	}
	reg(lock, "(*sync.Mutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(unlock, "(*sync.Mutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(trylock, "(*sync.Mutex).TryLock", "(*internal/sync.Mutex).TryLock")

	// ---- RWMutex: leaf 0 writer flag, leaf 1 reader count ----
	reg(func(in *Interp, a []Value) Value {
		p := in.ptr(a[0])
		w, r := leaf(p, 0), leaf(p, 1)
		in.visibleWait(w, "RW.Lock", func() bool { return w.n == 0 && r.n == 0 })
		in.store(w, Value{n: 1})
		in.acquire(w)
		return Value{}
	}, "(*sync.RWMutex).Lock")
	reg(func(in *Interp, a []Value) Value {
		p := in.ptr(a[0])
		w, r := leaf(p, 0), leaf(p, 1)
		in.visible(w, "RW.TryLock")
		if w.n != 0 || r.n != 0 {
			return vBool(false)
		}
		in.store(w, Value{n: 1})
		in.acquire(w)
		return vBool(true)
	}, "(*sync.RWMutex).TryLock")
	reg(func(in *Interp, a []Value) Value {
		w := leaf(in.ptr(a[0]), 0)
		in.visible(w, "RW.Unlock")
		if w.n == 0 {
			in.fatal("sync: Unlock of unlocked RWMutex")
		}
		in.store(w, Value{n: 0})
		in.release(w)
		return Value{}
	}, "(*sync.RWMutex).Unlock")
	reg(func(in *Interp, a []Value) Value {
		p := in.ptr(a[0])
		w, r := leaf(p, 0), leaf(p, 1)
		in.visibleWait(w, "RLock", func() bool { return w.n == 0 })
		in.store(r, Value{n: r.n + 1})
		in.acquire(w)
		return Value{}
	}, "(*sync.RWMutex).RLock")
	reg(func(in *Interp, a []Value) Value {
		p := in.ptr(a[0])
		w, r := leaf(p, 0), leaf(p, 1)
		in.visible(w, "TryRLock")
		if w.n != 0 {
			return vBool(false)
		}
		in.store(r, Value{n: r.n + 1})
		in.acquire(w)
		return vBool(true)
	}, "(*sync.RWMutex).TryRLock")
	reg(func(in *Interp, a []Value) Value {
		p := in.ptr(a[0])
		w, r := leaf(p, 0), leaf(p, 1)
		in.visible(w, "RUnlock")
		if r.n == 0 {
			in.fatal("sync: RUnlock of unlocked RWMutex")
		}
		in.store(r, Value{n: r.n - 1})
		in.release(w)
		return Value{}
	}, "(*sync.RWMutex).RUnlock")

	// ---- WaitGroup: leaf 0 is counter<<32|waiters as in the library, leaf 1 the semaphore ----
	wgPanic := func(in *Interp, msg string) {
		panic(targetPanic{v: Value{r: &Iface{t: types.Typ[types.String], v: vStr(msg)}}, stack: in.where()})
	}
	wgAdd := func(in *Interp, p *Value, d int64) {
		w, sema := leaf(p, 0), leaf(p, 1)
		in.visible(w, "wg.Add")
		st := w.n + uint64(d)<<32
		v, n := int32(st>>32), uint32(st)
		if v < 0 {
			wgPanic(in, "sync: negative WaitGroup counter")
		}
		if n != 0 && d > 0 && v == int32(d) {
			wgPanic(in, "sync: WaitGroup misuse: Add called concurrently with Wait")
		}
		in.release(w)
		if v > 0 || n == 0 {
			in.store(w, Value{n: st})
			return
		}
		in.store(w, Value{})
		in.store(sema, Value{n: sema.n + uint64(n)})
	}
	reg(func(in *Interp, a []Value) Value {
		wgAdd(in, in.ptr(a[0]), int64(in.concInt(a[1], kI64)))
		return Value{}
	}, "(*sync.WaitGroup).Add")
	reg(func(in *Interp, a []Value) Value { wgAdd(in, in.ptr(a[0]), -1); return Value{} }, "(*sync.WaitGroup).Done")
	reg(func(in *Interp, a []Value) Value {
		p := in.ptr(a[0])
		w, sema := leaf(p, 0), leaf(p, 1)
		in.visible(w, "wg.Wait")
		if w.n>>32 == 0 {
			in.acquire(w)
			return Value{}
		}
		in.store(w, Value{n: w.n + 1})
		// the wake-up is a transition of its own that depends on Add as well
		in.visibleWait(w, "wg.Wait2", func() bool { return sema.n > 0 })
		if sema.n == 0 {
			in.unsupported("WaitGroup.Wait would block in a single-threaded section")
		}
		in.store(sema, Value{n: sema.n - 1})
		in.acquire(w)
		if w.n != 0 {
			wgPanic(in, "sync: WaitGroup is reused before previous Wait has returned")
		}
		return Value{}
	}, "(*sync.WaitGroup).Wait")

	// ---- Once: leaf 0 done (0,1 running,2 done) ----
	reg(func(in *Interp, a []Value) Value {
		w := leaf(in.ptr(a[0]), 0)
		in.visibleWait(w, "Once.Do", func() bool { return w.n != 1 })
		if w.n == 2 {
			in.acquire(w)
			return Value{}
		}
		in.store(w, Value{n: 1})
		fin := false
		defer func() {
			if !fin {
				in.store(w, Value{n: 2})
				in.release(w)
			}
		}()
		in.callValue(a[1], nil)
		fin = true
		in.visible(w, "Once.done")
		in.store(w, Value{n: 2})
		in.release(w)
		return Value{}
	}, "(*sync.Once).Do")

	// ---- Pool: never reuses ----
	reg(func(in *Interp, a []Value) Value {
		p := in.ptr(a[0])
		ag := p.r.(Agg)
		f := ag[len(ag)-1]
		if f.r == nil {
			return Value{}
		}
		return in.callValue(f, nil)
	}, "(*sync.Pool).Get")
	reg(noop, "(*sync.Pool).Put")

	// ---- Cond ----
	condq := func(in *Interp, p *Value) *condQ {
		type ck struct{ p *Value }
		k := ck{p}
		q, _ := in.side[k].(*condQ)
		if q == nil {
			q = &condQ{}
			in.side[k] = q
		}
		return q
	}
	reg(func(in *Interp, a []Value) Value {
		p := in.ptr(a[0])
		q := condq(in, p)
		// field L is the only interface in the struct
		var l *Iface
		for _, f := range p.r.(Agg) {
			if i, ok := f.r.(*Iface); ok {
				l = i
			}
		}
		g := in.sched.cur
		in.visible(p, "Cond.Wait")
		q.ws = append(q.ws, g)
		in.callMethod2(l.t, l.v, "Unlock")
		woken := false
		for _, x := range q.ws {
			if x == g {
				woken = true
			}
		}
		if woken { // still queued
			in.block("Cond.Wait")
		}
		in.acquire(p)
		in.callMethod2(l.t, l.v, "Lock")
		return Value{}
	}, "(*sync.Cond).Wait")
	sig := func(all bool) intrinsic {
		return func(in *Interp, a []Value) Value {
			p := in.ptr(a[0])
			q := condq(in, p)
			in.visible(p, "Cond.Signal")
			in.release(p)
			for len(q.ws) > 0 {
				g := q.ws[0]
				q.ws = q.ws[1:]
				if g.status == gWaiting && g.why == "Cond.Wait" {
					in.wake(g)
				}
				if !all {
					break
				}
			}
			return Value{}
		}
	}
	reg(sig(false), "(*sync.Cond).Signal")
	reg(sig(true), "(*sync.Cond).Broadcast")

	// ---- sync.Map: leaf 0 holds a *MapV ----
	anyT := types.NewInterfaceType(nil, nil)
	smap := func(in *Interp, v Value) (*MapV, *Value) {
		p := leaf(in.ptr(v), 0)
		m, _ := p.r.(*MapV)
		if m == nil {
			m = in.newMap(anyT, anyT)
			in.store(p, Value{r: m})
		}
		in.visible(p, "sync.Map")
		in.acquire(p)
		in.release(p)
		return m, p
	}
	reg(func(in *Interp, a []Value) Value {
		m, _ := smap(in, a[0])
		if e := in.mapFind(m, a[1]); e != nil {
			return retTuple(e.v, vBool(true))
		}
		return retTuple(Value{}, vBool(false))
	}, "(*sync.Map).Load")
	reg(func(in *Interp, a []Value) Value {
		m, _ := smap(in, a[0])
		in.mapSet(m, a[1], a[2])
		return Value{}
	}, "(*sync.Map).Store")
	reg(func(in *Interp, a []Value) Value {
		m, _ := smap(in, a[0])
		if e := in.mapFind(m, a[1]); e != nil {
			return retTuple(e.v, vBool(true))
		}
		in.mapSet(m, a[1], a[2])
		return retTuple(a[2], vBool(false))
	}, "(*sync.Map).LoadOrStore")
	reg(func(in *Interp, a []Value) Value {
		m, _ := smap(in, a[0])
		if e := in.mapFind(m, a[1]); e != nil {
			v := e.v
			in.mapDelEnt(m, e)
			return retTuple(v, vBool(true))
		}
		return retTuple(Value{}, vBool(false))
	}, "(*sync.Map).LoadAndDelete")
	reg(func(in *Interp, a []Value) Value {
		m, _ := smap(in, a[0])
		in.mapDelete(m, a[1])
		return Value{}
	}, "(*sync.Map).Delete")
	reg(func(in *Interp, a []Value) Value {
		m, _ := smap(in, a[0])
		e := in.mapFind(m, a[1])
		var old Value
		if e != nil {
			old = e.v
		}
		in.mapSet(m, a[1], a[2])
		return retTuple(old, vBool(e != nil))
	}, "(*sync.Map).Swap")
	reg(func(in *Interp, a []Value) Value {
		m, _ := smap(in, a[0])
		e := in.mapFind(m, a[1])
		if e == nil || !in.cond(in.eqVal(e.v, a[2], anyT)) {
			return vBool(false)
		}
		in.mapSet(m, a[1], a[3])
		return vBool(true)
	}, "(*sync.Map).CompareAndSwap")
	reg(func(in *Interp, a []Value) Value {
		m, _ := smap(in, a[0])
		e := in.mapFind(m, a[1])
		if e == nil || !in.cond(in.eqVal(e.v, a[2], anyT)) {
			return vBool(false)
		}
		in.mapDelEnt(m, e)
		return vBool(true)
	}, "(*sync.Map).CompareAndDelete")
	reg(func(in *Interp, a []Value) Value {
		m, _ := smap(in, a[0])
		in.mapClear(m)
		return Value{}
	}, "(*sync.Map).Clear")
	reg(func(in *Interp, a []Value) Value {
		m, p := smap(in, a[0])
		rest := append([]*mapEnt(nil), m.ents...)
		first := true
		for len(rest) > 0 {
			i := 0
			if in.mapOrder && len(rest) > 1 && len(m.ents) <= 4 {
				i = in.choose(len(rest), "maporder")
			}
			e := rest[i]
			rest = append(append([]*mapEnt(nil), rest[:i]...), rest[i+1:]...)
			if !first {
				in.visible(p, "sync.Map.Range")
			}
			first = false
			if e.dead {
				continue
			}
			if !in.cond(in.callValue(a[1], []Value{e.k, e.v})) {
				break
			}
		}
		return Value{}
	}, "(*sync.Map).Range")

	// ---- atomics (function form; the methods are wrappers) ----
	ld := func(k kind) intrinsic {
		return func(in *Interp, a []Value) Value {
			p := in.ptr(a[0])
			in.visibleOp(pendOp{objs: []any{p}, kind: "atomic load", read: true})
			in.acquire(p)
			if in.sched.race {
				in.raceLeaves(p, false, true)
			}
			return *p
		}
	}
	st := func(k kind) intrinsic {
		return func(in *Interp, a []Value) Value {
			p := in.ptr(a[0])
			in.visible(p, "atomic store")
			in.acquire(p)
			if in.sched.race {
				in.raceLeaves(p, true, true)
			}
			in.store(p, a[1])
			in.release(p)
			return Value{}
		}
	}
	add := func(k kind) intrinsic {
		return func(in *Interp, a []Value) Value {
			p := in.ptr(a[0])
			in.visible(p, "atomic add")
			in.acquire(p)
			if in.sched.race {
				in.raceLeaves(p, true, true)
			}
			in.store(p, in.binopVal(tokenOf(12), *p, a[1], k))
			in.release(p)
			return *p
		}
	}
	swap := func(k kind) intrinsic {
		return func(in *Interp, a []Value) Value {
			p := in.ptr(a[0])
			in.visible(p, "atomic swap")
			in.acquire(p)
			if in.sched.race {
				in.raceLeaves(p, true, true)
			}
			old := *p
			in.store(p, a[1])
			in.release(p)
			return old
		}
	}
	cas := func(k kind) intrinsic {
		return func(in *Interp, a []Value) Value {
			p := in.ptr(a[0])
			in.visible(p, "atomic cas")
			in.acquire(p)
			var eq Value
			if k == kUnsafe {
				eq = vBool(p.r == a[1].r)
			} else if isSym(*p) || isSym(a[1]) {
				eq = in.val(in.db.Eq(in.term(*p, k), in.term(a[1], k)), kBool)
			} else {
				eq = vBool(p.n == a[1].n)
			}
			if in.cond(eq) {
				if in.sched.race {
					in.raceLeaves(p, true, true)
				}
				in.store(p, a[2])
				in.release(p)
				return vBool(true)
			}
			if in.sched.race {
				in.raceLeaves(p, false, true)
			}
			return vBool(false)
		}
	}
	andor := func(and bool, k kind) intrinsic {
		return func(in *Interp, a []Value) Value {
			p := in.ptr(a[0])
			in.visible(p, "atomic and/or")
			in.acquire(p)
			old := *p
			tok := 17 // token.AND
			if !and {
				tok = 18
			}
			in.store(p, in.binopVal(tokenOf(tok), old, a[1], k))
			in.release(p)
			return old
		}
	}
	for n, k := range map[string]kind{"Int32": kI32, "Int64": kI64, "Uint32": kU32, "Uint64": kU64, "Uintptr": kU64, "Pointer": kUnsafe} {
		reg(ld(k), "sync/atomic.Load"+n)
		reg(st(k), "sync/atomic.Store"+n)
		reg(swap(k), "sync/atomic.Swap"+n)
		reg(cas(k), "sync/atomic.CompareAndSwap"+n)
		if n != "Pointer" {
			reg(add(k), "sync/atomic.Add"+n)
			reg(andor(true, k), "sync/atomic.And"+n)
			reg(andor(false, k), "sync/atomic.Or"+n)
		}
	}
	// atomic.Value: leaf 0 holds the interface
	reg(func(in *Interp, a []Value) Value {
		p := leaf(in.ptr(a[0]), 0)
		in.visibleOp(pendOp{objs: []any{p}, kind: "atomic.Value load", read: true})
		in.acquire(p)
		return *p
	}, "(*sync/atomic.Value).Load")
	reg(func(in *Interp, a []Value) Value {
		p := leaf(in.ptr(a[0]), 0)
		in.visible(p, "atomic.Value store")
		if a[1].r == nil {
			panic(targetPanic{v: Value{r: &Iface{t: types.Typ[types.String], v: vStr("sync/atomic: store of nil value into Value")}}, stack: in.where()})
		}
		if o, ok := p.r.(*Iface); ok && o.t != a[1].r.(*Iface).t {
			panic(targetPanic{v: Value{r: &Iface{t: types.Typ[types.String], v: vStr("sync/atomic: store of inconsistently typed value into Value")}}, stack: in.where()})
		}
		in.acquire(p)
		in.store(p, a[1])
		in.release(p)
		return Value{}
	}, "(*sync/atomic.Value).Store")
	reg(func(in *Interp, a []Value) Value {
		p := leaf(in.ptr(a[0]), 0)
		in.visible(p, "atomic.Value swap")
		in.acquire(p)
		old := *p
		in.store(p, a[1])
		in.release(p)
		return old
	}, "(*sync/atomic.Value).Swap")
	reg(func(in *Interp, a []Value) Value {
		p := leaf(in.ptr(a[0]), 0)
		in.visible(p, "atomic.Value cas")
		in.acquire(p)
		if !in.cond(in.eqVal(*p, a[1], anyT)) {
			return vBool(false)
		}
		in.store(p, a[2])
		in.release(p)
		return vBool(true)
	}, "(*sync/atomic.Value).CompareAndSwap")
	_ = strings.HasPrefix
}

// callMethod2 calls a method through the method set of a dynamic type.
func (in *Interp) callMethod2(t types.Type, recv Value, name string, args ...Value) Value {
	return in.callMethod(t, recv, name, args...)
}
