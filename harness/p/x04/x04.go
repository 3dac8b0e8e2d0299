// Package x04: cancellation and detaching.
package x04

import (
	"context"
	"errors"
	"time"

	"verif/harness/vsym"

	"github.com/Aize-Public/forego/ctx"
)

type key struct{ i int }

var errs = []error{errors.New("a"), errors.New("b"), errors.New("c")}

func done(c ctx.C) bool {
	if c.Done() == nil {
		return false
	}
	select {
	case <-c.Done():
		return true
	default:
		return false
	}
}

// H_Cancel: over any tree of derived contexts and any order of cancellations,
// a context is done exactly when it or an ancestor up to the nearest detach
// was cancelled, with the cause of the first; values are always inherited.
//
//vsym:all timers=0
//vsym:quick time=60
//vsym:thorough time=300
func H_Cancel() {
	n := vsym.Bound("contexts", 3, 4)
	root, rootCancel := ctx.Background()
	all := []ctx.C{root}
	cancels := []ctx.CancelFunc{rootCancel}
	parent := []int{-1}
	detached := []bool{false}
	timed := map[int]bool{}
	for i := 1; i <= n; i++ {
		p := vsym.Choice("parent", len(all))
		c := ctx.WithValue(all[p], key{i}, i)
		var cf ctx.CancelFunc
		det := false
		switch vsym.Choice("kind", 5) {
		case 0:
			c, cf = ctx.WithCancel(c)
		case 1:
			c = ctx.Detach(c)
			det = true
		case 2: // never passes here, but may be cancelled
			var f func()
			c, f = ctx.WithTimeout(c, time.Duration(i%2+1)*time.Hour)
			cf = func(error) { f() }
			timed[i] = true
		case 3:
			var f func()
			c, f = ctx.WithDeadline(c, time.Now().Add(time.Duration(i%2+1)*time.Hour))
			cf = func(error) { f() }
			timed[i] = true
		default:
			c = ctx.WithTag(c, "t", i)
		}
		all = append(all, c)
		cancels = append(cancels, cf)
		parent = append(parent, p)
		detached = append(detached, det)
	}
	cause := make([]error, len(all))
	for k := 0; k < 2; k++ {
		i := vsym.Choice("cancel", len(all))
		if cancels[i] == nil {
			vsym.Done()
		}
		e := errs[k]
		want := e
		if timed[i] || vsym.Choice("nil cause", 2) == 1 {
			e = nil
			want = context.Canceled
		}
		if e == nil {
			cancels[i].Exit()
		} else {
			cancels[i](e)
		}
		for j := range all {
			hit := false
			for x := j; ; x = parent[x] {
				if x == i {
					hit = true
					break
				}
				if x < 0 || detached[x] {
					break
				}
				if parent[x] < 0 {
					break
				}
			}
			if hit && cause[j] == nil {
				cause[j] = want
			}
		}
	}
	for j, c := range all {
		vsym.Assert(done(c) == (cause[j] != nil), "a context is done exactly when it, or an ancestor up to a detach, was cancelled")
		vsym.Assert((c.Err() != nil) == (cause[j] != nil), "and only then has an error")
		vsym.Assert(ctx.Cause(c) == cause[j], "the cause is that of the first cancellation")
		for x := j; x > 0; x = parent[x] {
			vsym.Assert(c.Value(key{x}) == x, "values are inherited, also when detached")
		}
		for x := 1; x < len(all); x++ {
			anc := false
			for y := j; y > 0; y = parent[y] {
				if y == x {
					anc = true
				}
			}
			if !anc {
				vsym.Assert(c.Value(key{x}) == nil, "and only from ancestors")
			}
		}
	}
	vsym.Reach("end")
}

// H_Timeout: a context ends no earlier than the earliest deadline above it (up
// to a detach), but it does end.
//
//vsym:quick time=60 native=0 preempt=1 timers=3
//vsym:thorough time=200 native=0 preempt=2 timers=3
func H_Timeout() {
	t0 := vsym.ClockNow()
	var c ctx.C = context.Background()
	n := vsym.Choice("contexts", 3) + 1
	deadline := time.Duration(1 << 62)
	for i := 0; i < n; i++ {
		switch vsym.Choice("kind", 3) {
		case 0:
			d := time.Duration(vsym.Choice("timeout", 3)+1) * time.Second
			var cf func()
			if vsym.Choice("how", 2) == 0 {
				c, cf = ctx.WithTimeout(c, d)
			} else {
				c, cf = ctx.WithDeadline(c, time.Now().Add(d))
			}
			defer cf()
			if d < deadline {
				deadline = d
			}
		case 1:
			c = ctx.Detach(c)
			deadline = 1 << 62
		default:
			c = ctx.WithTag(c, "t", i)
		}
	}
	_, has := c.Deadline()
	vsym.Assert(has == (deadline < 1<<62), "a deadline is there unless it was detached")
	if !has {
		vsym.Advance(time.Minute)
		vsym.Quiesce()
		vsym.Assert(!done(c) && c.Err() == nil && ctx.Cause(c) == nil, "without a deadline it goes on")
		vsym.Done()
	}
	<-c.Done()
	el := vsym.ClockNow() - t0
	vsym.Assert(el >= deadline, "not done before the deadline")
	vsym.Assert(c.Err() == context.DeadlineExceeded, "with the right error")
	vsym.Reach("end")
}

// H_Watch: work on a detached context derived before or after is not stopped
// by the original ending, whatever the order.
//
//vsym:all race=1
func H_Watch() {
	root, cancel := ctx.Background()
	d := ctx.Detach(root)
	dc, dcancel := ctx.WithCancel(d)
	stopped := make(chan error, 1)
	go func() {
		<-dc.Done()
		stopped <- ctx.Cause(dc)
	}()
	go cancel(errs[0])
	<-root.Done()
	vsym.Assert(d.Err() == nil && dc.Err() == nil, "a detached context survives")
	vsym.Assert(ctx.Detach(root).Err() == nil, "also when detached later")
	dcancel(errs[1])
	vsym.Assert(<-stopped == errs[1], "its own cancellation works")
	vsym.Reach("end")
}

// H_Long: also through many generations, and for many children.
//
//vsym:all timers=0 native=4
func H_Long() {
	n := []int{9, 40, 120}[vsym.Choice("n", 3)]
	root, cf := ctx.Background()
	defer cf(nil)
	all := []ctx.C{root}
	cancels := []ctx.CancelFunc{cf}
	gen := vsym.Bool("generations") // or siblings
	for i := 1; i < n; i++ {
		p := root
		if gen {
			p = all[i-1]
		}
		c := ctx.WithValue(p, key{i}, i)
		var cf ctx.CancelFunc
		switch i % 4 {
		case 0:
			c = ctx.WithTag(c, "t", i)
		case 1:
			var f func()
			c, f = ctx.WithTimeout(c, time.Duration(i)*time.Hour)
			defer f()
		case 2:
			c, _ = ctx.Span(c, "s")
		}
		c, cf = ctx.WithCancel(c)
		all = append(all, c)
		cancels = append(cancels, cf)
	}
	d, stop := ctx.WithCancel(ctx.Detach(all[n-1]))
	at := vsym.Choice("at", 4) * (n - 1) / 3
	cancels[at](errs[0])
	for i, c := range all {
		hit := i == at || at == 0 || gen && i > at
		vsym.Assert(done(c) == hit && (c.Err() != nil) == hit, "a context is done exactly when it or an ancestor is")
		if hit {
			vsym.Assert(ctx.Cause(c) == errs[0], "with the cause")
		}
		vsym.Assert(i == 0 || c.Value(key{i}) == i && (gen || i == 1) == (c.Value(key{1}) == 1), "values are inherited")
	}
	vsym.Assert(!done(d) && d.Err() == nil && d.Value(key{n - 1}) == n-1, "a detached one goes on")
	stop(errs[1])
	vsym.Assert(done(d) && ctx.Cause(d) == errs[1], "until it is cancelled itself")
	vsym.Reach("end")
}

// H_Deadline: what is asked for is what is told, to the nanosecond, never later
// than the one above, and if it has passed already the context is over.
//
//vsym:all native=0 timers=0
func H_Deadline() {
	ds := []time.Duration{-time.Hour, -1, 0, 1, 400 * time.Microsecond, 999 * time.Millisecond, 1500*time.Millisecond + 1, time.Minute, 36*time.Hour + 7}
	var c ctx.C = context.Background()
	want := []time.Duration{}
	var at time.Time
	for i := 0; i < 2; i++ {
		d := ds[vsym.Choice("in", len(ds))]
		var cf func()
		var next time.Time
		lo := time.Now().Add(d)
		switch vsym.Choice("how", 3) {
		case 0:
			c, cf = ctx.WithTimeout(c, d)
			got, ok := c.Deadline()
			vsym.Assert(ok, "there is a deadline")
			hi := time.Now().Add(d)
			next = got
			if at.IsZero() || lo.Before(at) {
				vsym.Assert(!got.Before(lo) && !got.After(hi) || !at.IsZero() && got.Equal(at) && at.Before(hi), "it is as far from now as asked for")
			}
		case 1:
			c, cf = ctx.WithDeadline(c, lo)
			got, ok := c.Deadline()
			vsym.Assert(ok, "there is a deadline")
			next = got
			if at.IsZero() || lo.Before(at) {
				vsym.Assert(got.Equal(lo), "it is the one asked for")
			}
		default:
			continue
		}
		defer cf()
		want = append(want, d)
		vsym.Assert(at.IsZero() || !next.After(at), "it is never later than the one above")
		at = next
	}
	over := false
	for _, d := range want {
		over = over || d <= 0
	}
	if over {
		vsym.Assert(done(c) && c.Err() == context.DeadlineExceeded, "a deadline in the past is over at once")
	}
	vsym.Reach("end")
}
