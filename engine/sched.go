package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type gstatus uint8

const (
	gRunnable gstatus = iota
	gWaiting
	gQuiesce
	gDone
)

type pendOp struct {
	objs  []any
	kind  string
	read  bool
	ready func() bool
}

type G struct {
	id     int
	top    *frame
	depth  int
	resume chan bool
	status gstatus
	pend   pendOp
	vc     []int
	// completion of a blocked channel operation
	wv    Value
	wok   bool
	wcase int
	wdone bool
	dead  chan struct{}
	why   string
}

type sched struct {
	cur      *G
	gs       []*G
	atomic   int
	race     bool
	multi    bool
	sleep    []sleepEnt
	delays   int
	preempts int
	done     chan pathAbort
	timers   []*timerV
	fired    int
	nextID   int
	shadow   map[*Value]*shadow
	syncvc   map[any][]int
	trace    []string
	switches int
	ended    bool
}

type sleepEnt struct {
	g  *G
	t  *timerV
	op pendOp
}

type timerV struct {
	id       int
	deadline Value // int64 ns
	armed    bool
	fn       func() // fires in scheduler context
	objs     []any
	period   int64
	vc       []int
}

func (in *Interp) newID() int { in.sched.nextID++; return in.sched.nextID }

var clockObj = new(int)

// runPath executes body as the main goroutine of a fresh path.
func (in *Interp) runPath(body func()) pathAbort {
	s := &in.sched
	*s = sched{done: make(chan pathAbort, 1), shadow: map[*Value]*shadow{}, syncvc: map[any][]int{}}
	g := in.newG()
	s.cur = g
	in.startG(g, body)
	g.resume <- true
	res := <-s.done
	s.ended = true
	for _, x := range s.gs {
		if x.status != gDone {
			select {
			case <-x.dead:
			case x.resume <- false:
				<-x.dead
			}
		} else {
			<-x.dead
		}
	}
	return res
}

func (in *Interp) newG() *G {
	g := &G{id: len(in.sched.gs), resume: make(chan bool), dead: make(chan struct{})}
	g.vc = make([]int, g.id+1)
	g.vc[g.id] = 1
	in.sched.gs = append(in.sched.gs, g)
	return g
}

func (in *Interp) startG(g *G, body func()) {
	go func() {
		defer close(g.dead)
		if !<-g.resume {
			g.status = gDone
			return
		}
		res, ok := in.guard(g, body)
		if !ok {
			g.status = gDone
			return // killed
		}
		g.status = gDone
		if res.kind == "done" && g.id != 0 {
			// goroutine finished: let somebody else run
			res2, ok := in.guard(g, func() {
				n := in.pick()
				in.sched.cur = n
				n.resume <- true
			})
			if !ok || res2.kind == "done" {
				return
			}
			res = res2
		}
		in.sched.done <- res
	}()
}

// guard runs f converting its panics to an outcome; ok=false when killed.
func (in *Interp) guard(g *G, f func()) (res pathAbort, ok bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case killed:
			ok = false
		case pathAbort:
			res, ok = x, true
		case targetPanic:
			if x.goexit {
				res, ok = pathAbort{kind: "done"}, true
				return
			}
			res, ok = pathAbort{"violation", "uncaught panic: " + in.panicStr(x)}, true
		default:
			msg := fmt.Sprint(r)
			if debugPanic {
				panic(r)
			}
			res, ok = pathAbort{"unsupported", "engine: " + msg + " @ " + in.where()}, true
		}
	}()
	f()
	return pathAbort{kind: "done"}, true
}

var debugPanic bool

func (in *Interp) spawn(d deferRec) {
	s := &in.sched
	if s.atomic > 0 {
		in.note("goroutine started by a package initialiser ignored")
		return
	}
	s.multi = true
	if in.cfg.Race {
		s.race = true
	}
	p := s.cur
	g := in.newG()
	if len(s.gs) > 64 {
		panic(pathAbort{"fuel", "more than 64 goroutines"})
	}
	g.vc = joinVC(append([]int(nil), p.vc...), g.vc)
	g.vc[g.id] = 1
	tick(p)
	in.startG(g, func() { in.runDefer(d) })
}

func tick(g *G) { g.vc[g.id]++ }

func joinVC(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i := range b {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
	return a
}

// acquire/release model happens-before through a synchronisation object.
func (in *Interp) acquire(obj any) {
	if !in.sched.race {
		return
	}
	g := in.sched.cur
	g.vc = joinVC(g.vc, in.sched.syncvc[obj])
}
func (in *Interp) release(obj any) {
	if !in.sched.race {
		return
	}
	g := in.sched.cur
	in.sched.syncvc[obj] = joinVC(append([]int(nil), in.sched.syncvc[obj]...), g.vc)
	tick(g)
}

// visible is a scheduling point before an operation on obj.
func (in *Interp) visible(obj any, kind string) { in.visibleOp(pendOp{objs: []any{obj}, kind: kind}) }

func (in *Interp) visibleWait(obj any, kind string, ready func() bool) {
	in.visibleOp(pendOp{objs: []any{obj}, kind: kind, ready: ready})
}

func (in *Interp) visibleOp(op pendOp) {
	s := &in.sched
	if s.atomic > 0 || s.cur == nil || !in.tracking {
		if op.ready != nil && !op.ready() {
			in.unsupported("blocking operation in atomic section")
		}
		return
	}
	if !s.multi && len(s.timers) == 0 {
		if op.ready == nil || op.ready() {
			return
		}
	}
	g := s.cur
	g.pend = op
	in.reschedule()
	g.pend = pendOp{}
	if len(s.trace) < 400 {
		s.trace = append(s.trace, fmt.Sprintf("g%d %s @ %s", g.id, op.kind, in.whereShort()))
	}
}

func (in *Interp) whereShort() string {
	for fr := in.sched.cur.top; fr != nil; fr = fr.caller {
		if fr.fn.ours && fr.pos != token.NoPos {
			ps := in.p.fset.Position(fr.pos)
			return fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
		}
	}
	return "?"
}

// block parks the current goroutine until another one completes its operation.
func (in *Interp) block(why string) {
	s := &in.sched
	g := s.cur
	if s.atomic > 0 {
		in.unsupported("blocking operation in atomic section")
	}
	g.status = gWaiting
	g.wdone = false
	g.why = why
	in.reschedule()
	g.why = ""
}

func (in *Interp) wake(g *G) {
	g.status = gRunnable
	g.pend = pendOp{} // local: may run at once
}

func (in *Interp) reschedule() {
	s := &in.sched
	g := s.cur
	n := in.pick()
	if n == g {
		return
	}
	s.cur = n
	n.resume <- true
	if !<-g.resume {
		panic(killed{})
	}
}

func (g *G) enabled() bool {
	return g.status == gRunnable && (g.pend.ready == nil || g.pend.ready())
}

func dependent(a, b pendOp) bool {
	if a.read && b.read {
		return false
	}
	for _, x := range a.objs {
		for _, y := range b.objs {
			if x == y {
				return true
			}
		}
	}
	return false
}

type option struct {
	g *G
	t *timerV
}

func (o option) op() pendOp {
	if o.g != nil {
		return o.g.pend
	}
	return pendOp{objs: append([]any{clockObj}, o.t.objs...), kind: "timer"}
}

func (in *Interp) pick() *G {
	s := &in.sched
	for {
		var opts []option
		curEnabled := false
		if s.cur != nil && s.cur.enabled() {
			opts = append(opts, option{g: s.cur})
			curEnabled = true
		}
		for _, g := range s.gs {
			if g != s.cur && g.enabled() {
				opts = append(opts, option{g: g})
			}
		}
		// purely local continuations commute with everything
		local := -1
		for i, o := range opts {
			if len(o.g.pend.objs) == 0 && o.g.pend.kind != "yield" {
				local = i
				break
			}
		}
		if local >= 0 {
			return opts[local].g
		}
		nGs := len(opts)
		var quies *G
		if nGs == 0 {
			for _, g := range s.gs {
				if g.status == gQuiesce {
					quies = g
					break
				}
			}
			if quies != nil {
				opts = append(opts, option{g: quies})
				// time does not have to pass for a quiescent system
				quies.status = gRunnable
				quies.pend = pendOp{}
				return quies
			}
		}
		if len(s.timers) > 0 && !(in.cfg.Lazy && len(opts) > 0) {
			if s.fired < in.cfg.MaxTimers {
				for _, t := range in.fireable() {
					opts = append(opts, option{t: t})
				}
			} else {
				in.note(fmt.Sprintf("at most %d timer firings per path", in.cfg.MaxTimers))
				if len(opts) == 0 {
					panic(pathAbort{"fuel", "timer firing bound reached"})
				}
			}
		}
		if len(opts) == 0 {
			var ds []string
			for _, g := range s.gs {
				if g.status != gDone {
					w := g.why
					if w == "" {
						w = g.pend.kind
					}
					ds = append(ds, fmt.Sprintf("g%d blocked on %s at %s", g.id, w, in.whereG(g)))
				}
			}
			panic(pathAbort{"violation", "deadlock: all goroutines are blocked: " + fmt.Sprint(ds)})
		}
		if in.cfg.Preempt >= 0 && curEnabled && s.preempts >= in.cfg.Preempt {
			return s.cur
		}
		useSleep := in.cfg.Preempt < 0
		cand := opts
		if useSleep && len(s.sleep) > 0 {
			cand = nil
			for _, o := range opts {
				sl := false
				for _, e := range s.sleep {
					if e.g == o.g && e.t == o.t {
						sl = true
					}
				}
				if !sl {
					cand = append(cand, o)
				}
			}
			if len(cand) == 0 {
				panic(pathAbort{kind: "pruned"})
			}
		}
		i := 0
		if n := len(cand); n > 1 {
			if in.cfg.Delays >= 0 {
				// round robin, but for a bounded number of delays
				if s.cur != nil && !curEnabled {
					for k := range cand {
						if g := cand[k].g; g == nil || g.id > s.cur.id {
							cand = append(append([]option(nil), cand[k:]...), cand[:k]...)
							break
						}
					}
				}
				n = min(n, in.cfg.Delays-s.delays+1)
			}
			if n > 1 {
				i = in.choose(n, "sched")
				s.delays += i
			}
		}
		ch := cand[i]
		if useSleep {
			cop := ch.op()
			var ns []sleepEnt
			for _, e := range s.sleep {
				if !dependent(e.op, cop) {
					ns = append(ns, e)
				}
			}
			for _, o := range cand[:i] {
				if op := o.op(); !dependent(op, cop) {
					ns = append(ns, sleepEnt{o.g, o.t, op})
				}
			}
			s.sleep = ns
		}
		if curEnabled && ch.g != s.cur {
			s.preempts++
		}
		s.switches++
		if ch.g != nil {
			return ch.g
		}
		in.fire(ch.t)
	}
}

func (in *Interp) whereG(g *G) string {
	for fr := g.top; fr != nil; fr = fr.caller {
		if fr.fn.ours && fr.pos != token.NoPos {
			ps := in.p.fset.Position(fr.pos)
			return fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
		}
	}
	return "?"
}

// ---- channels ----

type waiter struct {
	g     *G
	v     Value
	cas   int
	group *bool
}

type ChanV struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	id     int
	epoch  int64
}

func (in *Interp) chanTouch(c *ChanV) {
	if c.epoch != in.epoch && in.tracking {
		old := *c
		old.buf = append([]Value(nil), c.buf...)
		in.trail = append(in.trail, undo{f: func() { *c = old }})
	}
}

func popW(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.group == nil || !*w.group {
			if w.group != nil {
				*w.group = true
			}
			return w
		}
	}
	return nil
}

func liveW(q []*waiter) bool {
	for _, w := range q {
		if w.group == nil || !*w.group {
			return true
		}
	}
	return false
}

func (in *Interp) canSend(c *ChanV) bool {
	return c.closed || len(c.buf) < c.cap || liveW(c.recvq)
}
func (in *Interp) canRecv(c *ChanV) bool {
	return len(c.buf) > 0 || c.closed || liveW(c.sendq)
}

// doSend performs a send known to be possible.
func (in *Interp) doSend(c *ChanV, v Value) {
	in.chanTouch(c)
	if c.closed {
		rt := in.p.prog.ImportedPackage("runtime")
		t := in.p.canon(rt.Type("plainError").Object().Type())
		panic(targetPanic{v: Value{r: &Iface{t: t, v: vStr("send on closed channel")}}, stack: in.where()})
	}
	in.acquire(c)
	in.release(c)
	if w := popW(&c.recvq); w != nil {
		w.g.wv, w.g.wok, w.g.wcase, w.g.wdone = copyVal(v), true, w.cas, true
		in.syncWake(w.g, c)
		in.wake(w.g)
		return
	}
	c.buf = append(c.buf, copyVal(v))
}

func (in *Interp) syncWake(g *G, obj any) {
	if in.sched.race {
		cur := in.sched.cur
		g.vc = joinVC(g.vc, in.sched.syncvc[obj])
		cur.vc = joinVC(cur.vc, g.vc)
		tick(g)
		tick(cur)
	}
}

func (in *Interp) doRecv(c *ChanV, et types.Type) (Value, bool) {
	in.chanTouch(c)
	in.acquire(c)
	in.release(c)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if w := popW(&c.sendq); w != nil {
			c.buf = append(c.buf, w.v)
			w.g.wok, w.g.wcase, w.g.wdone = true, w.cas, true
			in.syncWake(w.g, c)
			in.wake(w.g)
		}
		return v, true
	}
	if w := popW(&c.sendq); w != nil {
		w.g.wok, w.g.wcase, w.g.wdone = true, w.cas, true
		in.syncWake(w.g, c)
		in.wake(w.g)
		return w.v, true
	}
	return zeroOf(et), false // closed
}

func (in *Interp) chanSend(cv, v Value) {
	c, _ := cv.r.(*ChanV)
	if c == nil {
		in.visible(nil, "send on nil chan")
		in.block("send on nil channel")
		return
	}
	in.visible(c, "send")
	if in.canSend(c) {
		in.doSend(c, v)
		return
	}
	g := in.sched.cur
	in.chanTouch(c)
	c.sendq = append(c.sendq, &waiter{g: g, v: copyVal(v)})
	in.release(c)
	in.block("chan send")
	if !g.wok { // woken by close
		rt := in.p.prog.ImportedPackage("runtime")
		t := in.p.canon(rt.Type("plainError").Object().Type())
		panic(targetPanic{v: Value{r: &Iface{t: t, v: vStr("send on closed channel")}}, stack: in.where()})
	}
}

func (in *Interp) chanRecv(cv Value, et types.Type) (Value, bool) {
	c, _ := cv.r.(*ChanV)
	if c == nil {
		in.visible(nil, "recv on nil chan")
		in.block("receive on nil channel")
		return Value{}, false
	}
	in.visible(c, "recv")
	if in.canRecv(c) {
		return in.doRecv(c, et)
	}
	g := in.sched.cur
	in.chanTouch(c)
	c.recvq = append(c.recvq, &waiter{g: g})
	in.release(c)
	in.block("chan receive")
	if !g.wok {
		in.acquire(c)
		return zeroOf(et), false
	}
	return g.wv, g.wok
}

func (in *Interp) chanClose(cv Value) {
	c, _ := cv.r.(*ChanV)
	rt := in.p.prog.ImportedPackage("runtime")
	t := in.p.canon(rt.Type("plainError").Object().Type())
	if c == nil {
		panic(targetPanic{v: Value{r: &Iface{t: t, v: vStr("close of nil channel")}}, stack: in.where()})
	}
	in.visible(c, "close")
	if c.closed {
		panic(targetPanic{v: Value{r: &Iface{t: t, v: vStr("close of closed channel")}}, stack: in.where()})
	}
	in.chanTouch(c)
	c.closed = true
	in.release(c)
	for {
		w := popW(&c.recvq)
		if w == nil {
			break
		}
		w.g.wv, w.g.wok, w.g.wcase, w.g.wdone = Value{}, false, w.cas, true
		in.syncWake(w.g, c)
		in.wake(w.g)
	}
	for {
		w := popW(&c.sendq)
		if w == nil {
			break
		}
		w.g.wok, w.g.wcase, w.g.wdone = false, w.cas, true
		in.syncWake(w.g, c)
		in.wake(w.g)
	}
}

func (c *compiler) sel(x *ssa.Select, dst int32) step {
	in := c.in
	type sc struct {
		dir  types.ChanDir
		ch   int32
		send int32
		et   types.Type
	}
	var cs []sc
	for _, s := range x.States {
		k := sc{dir: s.Dir, ch: c.opnd(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Send != nil {
			k.send = c.opnd(s.Send)
		}
		cs = append(cs, k)
	}
	blocking := x.Blocking
	pos := x.Pos()
	return func(fr *frame) {
		fr.pos = pos
		s := &in.sched
		g := s.cur
		chans := make([]*ChanV, len(cs))
		var objs []any
		for i, k := range cs {
			chans[i], _ = fr.v(k.ch).r.(*ChanV)
			if chans[i] != nil {
				objs = append(objs, chans[i])
			}
		}
		if len(objs) > 0 {
			in.visibleOp(pendOp{objs: objs, kind: "select"})
		} else if blocking {
			in.visible(nil, "select")
		}
		var ready []int
		for i, k := range cs {
			if chans[i] == nil {
				continue
			}
			if k.dir == types.SendOnly && in.canSend(chans[i]) || k.dir == types.RecvOnly && in.canRecv(chans[i]) {
				ready = append(ready, i)
			}
		}
		idx := -1
		var rv Value
		rok := false
		if len(ready) > 0 {
			j := 0
			if len(ready) > 1 {
				j = in.choose(len(ready), "select")
			}
			idx = ready[j]
			if cs[idx].dir == types.SendOnly {
				in.doSend(chans[idx], fr.v(cs[idx].send))
			} else {
				rv, rok = in.doRecv(chans[idx], cs[idx].et)
			}
		} else if blocking {
			grp := new(bool)
			for i, k := range cs {
				if chans[i] == nil {
					continue
				}
				in.chanTouch(chans[i])
				w := &waiter{g: g, cas: i, group: grp}
				if k.dir == types.SendOnly {
					w.v = copyVal(fr.v(k.send))
					chans[i].sendq = append(chans[i].sendq, w)
				} else {
					chans[i].recvq = append(chans[i].recvq, w)
				}
				in.release(chans[i])
			}
			in.block("select")
			idx = g.wcase
			in.acquire(chans[idx])
			if cs[idx].dir == types.SendOnly {
				if !g.wok {
					rt := in.p.prog.ImportedPackage("runtime")
					t := in.p.canon(rt.Type("plainError").Object().Type())
					panic(targetPanic{v: Value{r: &Iface{t: t, v: vStr("send on closed channel")}}, stack: in.where()})
				}
			} else {
				rv, rok = g.wv, g.wok
				if !rok {
					rv = zeroOf(cs[idx].et)
				}
			}
		}
		out := Tuple{vInt(idx), vBool(rok)}
		for i, k := range cs {
			if k.dir == types.RecvOnly {
				if i == idx {
					out = append(out, rv)
				} else {
					out = append(out, zeroOf(k.et))
				}
			}
		}
		fr.regs[dst] = Value{r: out}
	}
}

// ---- data races ----

type access struct {
	g, clk int
	atomic bool
	pos    string
}

type shadow struct {
	w  access
	hw bool
	rs []access
}

func (in *Interp) hb(a access) bool {
	g := in.sched.cur
	return a.g == g.id || (a.g < len(g.vc) && g.vc[a.g] >= a.clk)
}

func (in *Interp) raceAcc(write, atomic bool) access {
	g := in.sched.cur
	return access{g: g.id, clk: g.vc[g.id], atomic: atomic, pos: in.where1()}
}

func (in *Interp) where1() string {
	if fr := in.sched.cur.top; fr != nil {
		for fr != nil && !fr.fn.ours && fr.caller != nil {
			fr = fr.caller
		}
		ps := in.p.fset.Position(fr.pos)
		return fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
	}
	return ""
}

func (in *Interp) shadowOf(p *Value) *shadow {
	s := in.sched.shadow[p]
	if s == nil {
		s = &shadow{}
		in.sched.shadow[p] = s
	}
	return s
}

func (in *Interp) raceRead(p *Value)  { in.raceLeaves(p, false, false) }
func (in *Interp) raceWrite(p *Value) { in.raceLeaves(p, true, false) }

func (in *Interp) raceLeaves(p *Value, write, atomic bool) {
	if in.sched.atomic > 0 || !in.tracking {
		return
	}
	if a, ok := p.r.(Agg); ok {
		for i := range a {
			in.raceLeaves(&a[i], write, atomic)
		}
		return
	}
	in.raceCheck(in.shadowOf(p), write, atomic, "memory")
}

func (in *Interp) raceMap(m *MapV, write bool) {
	if in.sched.atomic > 0 || !in.tracking {
		return
	}
	if m.sh == nil {
		m.sh = &shadow{}
		mm := m
		in.onUndo(func() { mm.sh = nil })
	}
	in.raceCheck(m.sh, write, false, "map")
}

func (in *Interp) raceCheck(s *shadow, write, atomic bool, what string) {
	if s.hw && !(s.w.atomic && atomic) && !in.hb(s.w) {
		in.raceReport(what, s.w, "write", write)
	}
	if write {
		for _, r := range s.rs {
			if !(r.atomic && atomic) && !in.hb(r) {
				in.raceReport(what, r, "read", write)
			}
		}
		s.w = in.raceAcc(true, atomic)
		s.hw = true
		s.rs = s.rs[:0]
		return
	}
	g := in.sched.cur.id
	for i := range s.rs {
		if s.rs[i].g == g {
			s.rs[i] = in.raceAcc(false, atomic)
			return
		}
	}
	s.rs = append(s.rs, in.raceAcc(false, atomic))
}

func (in *Interp) raceReport(what string, a access, ak string, write bool) {
	k := "read"
	if write {
		k = "write"
	}
	panic(pathAbort{"violation", fmt.Sprintf("data race on %s: %s by g%d at %s, earlier %s by g%d at %s", what, k, in.sched.cur.id, in.where1(), ak, a.g, a.pos)})
}
