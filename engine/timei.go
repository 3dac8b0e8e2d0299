package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wall clock of every path: 2026-01-02T03:04:05.000000006Z; only the monotonic
// reading moves.
const (
	wallSec       = int64(1767323045)
	wallNsec      = 6
	unixToIntern  = int64(62135596800)
	minWall       = int64(59453308800)
	hasMonotonic  = uint64(1) << 63
	wallConst     = hasMonotonic | uint64(wallSec+unixToIntern-minWall)<<30 | wallNsec
	timerClockTag = "clock"
)

func (in *Interp) readClock() Value {
	if !in.tracking {
		return Value{}
	}
	if len(in.sched.timers) > 0 {
		in.visibleOp(pendOp{objs: []any{clockObj}, read: true, kind: "read clock"})
	}
	return in.clockRead()
}

func (in *Interp) timeAt(now Value) Value {
	tp := in.p.prog.ImportedPackage("time")
	in.ensureInit(tp)
	z := zeroOf(tp.Type("Time").Type())
	a := z.r.(Agg)
	a[0] = Value{n: wallConst}
	a[1] = in.binopVal(token.ADD, now, vI64(1), kI64)
	a[2] = Value{r: in.global(tp.Var("localLoc"))}
	return z
}

func (in *Interp) newTimerV() *timerV {
	return &timerV{id: in.newID()}
}

// spawnFrom starts a goroutine on behalf of a timer.
func (in *Interp) spawnFrom(t *timerV, d deferRec) {
	s := &in.sched
	s.multi = true
	if in.cfg.Race {
		s.race = true
	}
	g := in.newG()
	if len(s.gs) > 64 {
		panic(pathAbort{"fuel", "more than 64 goroutines"})
	}
	g.vc = joinVC(append([]int(nil), t.vc...), g.vc)
	g.vc[g.id] = 1
	in.startG(g, func() { in.runDefer(d) })
}

func (in *Interp) stamp(t *timerV) {
	if in.sched.cur != nil {
		t.vc = append([]int(nil), in.sched.cur.vc...)
		if in.sched.race {
			tick(in.sched.cur)
		}
	}
}

type timerKey struct{ p *Value }

func init() {
	reg(func(in *Interp, a []Value) Value { // a test of the engine has none
		return retTuple(zeroOf(in.p.prog.ImportedPackage("time").Type("Time").Type()), vBool(false))
	}, "(*testing.T).Deadline")
	reg(func(in *Interp, a []Value) Value { return in.timeAt(in.readClock()) }, "time.Now")
	reg(func(in *Interp, a []Value) Value {
		return in.binopVal(token.ADD, in.readClock(), vI64(baseMono), kI64)
	}, "time.runtimeNano")
	reg(func(in *Interp, a []Value) Value {
		n := in.readClock()
		return retTuple(vI64(wallSec), vInt(wallNsec), in.binopVal(token.ADD, n, vI64(baseMono), kI64))
	}, "time.runtimeNow", "time.now")
	reg(func(in *Interp, a []Value) Value { return vBool(false) }, "time.runtimeIsBubbled")
	reg(noop, "time.initLocal")

	reg(func(in *Interp, a []Value) Value {
		d := a[0]
		if in.cond(in.binopVal(token.LEQ, d, Value{}, kI64)) {
			in.visibleOp(pendOp{kind: "yield", objs: []any{in.sched.cur}})
			return Value{}
		}
		in.visible(clockObj, "Sleep")
		t := in.newTimerV()
		g := in.sched.cur
		t.fn = func() { in.wake(g) }
		in.arm(t, d)
		in.block("Sleep")
		return Value{}
	}, "time.Sleep")

	dur := func(in *Interp, when Value) Value {
		return in.binopVal(token.SUB, when, in.binopVal(token.ADD, in.clock.now, vI64(baseMono), kI64), kI64)
	}
	setup := func(in *Interp, t *timerV, f, arg Value) {
		c, _ := f.r.(*Closure)
		if c == nil || c.fn == nil {
			in.unsupported("timer callback")
		}
		ai, _ := arg.r.(*Iface)
		switch c.fn.name {
		case "time.goFunc":
			fn := ai.v
			t.fn = func() { in.spawnFrom(t, deferRec{fn: fn}) }
		case "time.sendTime":
			ch := ai.v.r.(*ChanV)
			t.objs = []any{ch}
			t.fn = func() {
				if !in.canSend(ch) {
					return
				}
				in.timerSend(t, ch, in.timeAt(in.clock.now))
			}
		default:
			in.unsupported("timer callback %s", c.fn.name)
		}
	}
	reg(func(in *Interp, a []Value) Value {
		in.visible(clockObj, "new timer")
		tp := in.p.prog.ImportedPackage("time")
		tt := tp.Type("Timer").Type()
		z := zeroOf(tt)
		setFields(tt, z, map[string]Value{"initTimer": vBool(true)})
		c := new(Value)
		*c = z
		t := in.newTimerV()
		t.period = int64(in.concInt(a[1], kI64))
		in.side[timerKey{c}] = t
		setup(in, t, a[2], a[3])
		in.stamp(t)
		in.arm(t, dur(in, a[0]))
		return Value{r: c}
	}, "time.newTimer")
	get := func(in *Interp, v Value) *timerV {
		t, _ := in.side[timerKey{in.ptr(v)}].(*timerV)
		if t == nil {
			in.unsupported("timer created during initialisation")
		}
		return t
	}
	drain := func(in *Interp, t *timerV) bool {
		had := false
		for _, o := range t.objs {
			if ch, ok := o.(*ChanV); ok && len(ch.buf) > 0 {
				in.chanTouch(ch)
				ch.buf = nil
				had = true
			}
		}
		return had
	}
	reg(func(in *Interp, a []Value) Value {
		t := get(in, a[0])
		in.visibleOp(pendOp{objs: append([]any{clockObj}, t.objs...), kind: "stop timer"})
		w := in.disarm(t)
		if drain(in, t) {
			w = true
		}
		return vBool(w)
	}, "time.stopTimer")
	reg(func(in *Interp, a []Value) Value {
		t := get(in, a[0])
		in.visibleOp(pendOp{objs: append([]any{clockObj}, t.objs...), kind: "reset timer"})
		w := in.disarm(t)
		if drain(in, t) {
			w = true
		}
		t.period = int64(in.concInt(a[2], kI64))
		in.stamp(t)
		in.arm(t, dur(in, a[1]))
		return vBool(w)
	}, "time.resetTimer")

	// ---- signals ----
	reg(func(in *Interp, a []Value) Value {
		ch, _ := a[0].r.(*ChanV)
		var sigs []int
		for _, s := range sl(a[1]) {
			if i, ok := s.r.(*Iface); ok {
				sigs = append(sigs, int(i.v.n))
			}
		}
		rs, _ := in.side["signals"].([]*sigReg)
		in.side["signals"] = append(rs, &sigReg{ch: ch, sigs: sigs})
		in.visible(sigObj, "signal.Notify")
		return Value{}
	}, "os/signal.Notify")
	reg(func(in *Interp, a []Value) Value {
		ch, _ := a[0].r.(*ChanV)
		in.visible(sigObj, "signal.Stop")
		rs, _ := in.side["signals"].([]*sigReg)
		for _, r := range rs {
			if r.ch == ch {
				r.off = true
			}
		}
		return Value{}
	}, "os/signal.Stop")
	reg(noop, "os/signal.Reset", "os/signal.Ignore")
}

var sigObj = new(int)

type sigReg struct {
	ch   *ChanV
	sigs []int
	off  bool
}

// raise delivers a signal to every registered channel with room.
func (in *Interp) raise(sig int) {
	rs, _ := in.side["signals"].([]*sigReg)
	objs := []any{sigObj}
	for _, r := range rs {
		objs = append(objs, r.ch)
	}
	in.visibleOp(pendOp{objs: objs, kind: "signal"})
	rs, _ = in.side["signals"].([]*sigReg)
	sp := in.p.prog.ImportedPackage("syscall")
	st := in.p.canon(sp.Type("Signal").Type())
	for _, r := range rs {
		if r.off {
			continue
		}
		hit := len(r.sigs) == 0
		for _, s := range r.sigs {
			hit = hit || s == sig
		}
		if hit && in.canSend(r.ch) {
			in.doSend(r.ch, Value{r: &Iface{t: st, v: vInt(sig)}})
		}
	}
}

// timerSend is a send performed by the run-time, not by a goroutine.
func (in *Interp) timerSend(t *timerV, c *ChanV, v Value) {
	in.chanTouch(c)
	if c.closed {
		return
	}
	if in.sched.race {
		in.sched.syncvc[c] = joinVC(append([]int(nil), in.sched.syncvc[c]...), t.vc)
	}
	if w := popW(&c.recvq); w != nil {
		w.g.wv, w.g.wok, w.g.wcase, w.g.wdone = v, true, w.cas, true
		if in.sched.race {
			w.g.vc = joinVC(w.g.vc, t.vc)
		}
		in.wake(w.g)
		return
	}
	c.buf = append(c.buf, v)
}

// wrapped intrinsics get the interpreted original too
type wrapper func(in *Interp, orig func(a []Value) Value, a []Value) Value

var wrappers = map[string]wrapper{}

func (in *Interp) wrap(fn *Fn, w wrapper) intrinsic {
	inner := &Fn{ssa: fn.ssa, name: fn.name, nparams: fn.nparams, nfree: fn.nfree, recoverB: -1, signature: fn.signature, pkgPath: fn.pkgPath, ours: fn.ours}
	return func(in *Interp, a []Value) Value {
		return w(in, func(x []Value) Value { return in.callEnv(inner, x, nil) }, a)
	}
}

func init() {
	wrappers["(*fmt.fmt).fmtInteger"] = func(in *Interp, orig func(a []Value) Value, a []Value) Value {
		// (f, u uint64, base int, isSigned bool, verb rune, digits string)
		if !isSym(a[1]) {
			return orig(a)
		}
		f := in.ptr(a[0]).r.(Agg)
		ft := in.p.prog.ImportedPackage("fmt").Type("fmt").Type().Underlying().(*types.Struct)
		plain := true
		var walk func(t *types.Struct, v Agg)
		walk = func(t *types.Struct, v Agg) {
			for i := 0; i < t.NumFields(); i++ {
				switch n := t.Field(i).Name(); n {
				case "fmtFlags":
					walk(t.Field(i).Type().Underlying().(*types.Struct), v[i].r.(Agg))
				case "widPresent", "precPresent", "plus", "space", "sharp", "zero":
					if v[i].n != 0 {
						plain = false
					}
				}
			}
		}
		walk(ft, f)
		if a[2].n != 10 || !plain {
			return orig(a)
		}
		s := in.formatInt(a[1], vInt(10), a[3].n != 0)
		m := in.p.lookupMethod(in.p.canon(types.NewPointer(in.p.prog.ImportedPackage("fmt").Type("fmt").Type())), in.p.prog.ImportedPackage("fmt").Pkg, "padString")
		in.callFn(in.fn(m), []Value{a[0], s})
		return Value{}
	}
	_ = strings.TrimSpace
	_ = ssa.NaiveForm
}
