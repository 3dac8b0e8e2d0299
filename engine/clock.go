package main

import "go/token"

// Virtual time. now is a (possibly symbolic) number of nanoseconds since the
// start of the path. It never decreases; a timer may fire at any scheduling
// point, which moves the clock to (at least) its deadline.
type clockState struct {
	now   Value // int64 ns
	sym   bool  // every reading advances by an arbitrary symbolic amount
	reads int
	maxD  int64
}

const baseMono = int64(1) << 32 // ns, keeps readings positive
const tickNS = 1000

func (in *Interp) clockRead() Value {
	c := &in.clock
	c.reads++
	if c.sym {
		d := in.freshS("clk", 64, 0, c.maxD)
		c.now = in.val(in.db.Add(in.term(c.now, kI64), d), kI64)
	} else {
		c.now = in.binopVal(token.ADD, c.now, vI64(tickNS), kI64)
	}
	return c.now
}

func (in *Interp) fireable() []*timerV {
	s := &in.sched
	var best []*timerV
	for _, t := range s.timers {
		if !t.armed {
			continue
		}
		if len(best) == 0 {
			best = []*timerV{t}
			continue
		}
		b := best[0]
		if in.cond(in.binopVal(token.LSS, t.deadline, b.deadline, kI64)) {
			best = []*timerV{t}
		} else if in.cond(in.binopVal(token.LEQ, t.deadline, b.deadline, kI64)) {
			best = append(best, t)
		}
	}
	return best
}

func (in *Interp) fire(t *timerV) {
	s := &in.sched
	s.fired++
	c := &in.clock
	// now = max(now, deadline)
	if in.cond(in.binopVal(token.LSS, c.now, t.deadline, kI64)) {
		c.now = t.deadline
	}
	if t.period > 0 {
		t.deadline = in.binopVal(token.ADD, t.deadline, vI64(t.period), kI64)
	} else {
		in.disarm(t)
	}
	if len(s.trace) < 400 {
		s.trace = append(s.trace, "timer fires")
	}
	t.fn()
}

func (in *Interp) disarm(t *timerV) bool {
	was := t.armed
	t.armed = false
	s := &in.sched
	for i, x := range s.timers {
		if x == t {
			s.timers = append(append([]*timerV(nil), s.timers[:i]...), s.timers[i+1:]...)
			break
		}
	}
	return was
}

func (in *Interp) arm(t *timerV, d Value) {
	in.disarm(t)
	t.armed = true
	t.deadline = in.binopVal(token.ADD, in.clock.now, d, kI64)
	in.sched.timers = append(in.sched.timers, t)
}
