package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// HConfig bounds the exploration of one harness.
type HConfig struct {
	Name        string
	Fuel        int64
	Preempt     int // -1: unbounded (with sleep sets)
	MaxTimers   int
	Delays      int  // -1: unbounded; scheduling is round robin but for these
	Lazy        bool // time passes only when nothing else can happen
	MaxPaths    int
	Timeout     time.Duration
	Race        bool
	MapOrderAll bool
	Tier        string
	Stubs       map[string]bool
	NoNative    bool
	Workers     int
	TimeoutMS   int
}

type job struct {
	prefix []Decision
	vals   map[string]uint64
}

type Violation struct {
	Msg    string
	Inputs []InputVal
	Trace  []string
	Dec    []Decision
	Vals   map[string]uint64
	Sched  bool
}

type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	V    uint64 `json:"v"`
	S    string `json:"s,omitempty"`
}

type PathSample struct {
	Inputs []InputVal
	Obs    []string
}

type Explorer struct {
	p     *Program
	cfg   *HConfig
	entry *ssa.Function
	seed  int64

	mu       sync.Mutex
	cv       *sync.Cond
	stack    []job
	active   int
	stop     bool
	deadline time.Time

	Paths       int64
	Done        int64
	Infeas      int64
	Pruned      int64
	Unsup       map[string]int
	FuelCut     map[string]int
	UnknownN    int64
	Asserts     int64
	AssertsSMT  int64
	Viol        []Violation
	violSeen    map[string]bool
	Reached     map[string]int
	Funcs       map[string]int
	Notes       map[string]bool
	Stats       SolverStats
	Steps       int64
	Forks       int64
	Samples     []PathSample
	sampleN     int64
	Incomplete  bool
	Wall        time.Duration
	MaxViol     int
	maxSamples  int
	Choices     int64
	Switches    int64
	solverErrs  int
	pcHashes    map[string]bool
	OneJob      *job
	Verbose     bool
	Known       map[string]bool
	unknownViol int
	UnknownAt   map[string]int
}

func NewExplorer(p *Program, cfg *HConfig, entry *ssa.Function, seed int64) *Explorer {
	ex := &Explorer{p: p, cfg: cfg, entry: entry, seed: seed, Unsup: map[string]int{}, UnknownAt: map[string]int{}, FuelCut: map[string]int{},
		Reached: map[string]int{}, Funcs: map[string]int{}, Notes: map[string]bool{}, violSeen: map[string]bool{}, MaxViol: 8, maxSamples: 24}
	ex.cv = sync.NewCond(&ex.mu)
	return ex
}

var solverBin = "z3-new"

func (ex *Explorer) Run(workers int) {
	t0 := time.Now()
	ex.deadline = t0.Add(ex.cfg.Timeout)
	if ex.OneJob != nil {
		ex.stack = []job{*ex.OneJob}
	} else {
		ex.stack = []job{{}}
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ex.worker(i)
		}(i)
	}
	wg.Wait()
	if len(ex.stack) > 0 {
		ex.Incomplete = true
	}
	ex.Wall = time.Since(t0)
}

func (ex *Explorer) next(i int, rnd *rand.Rand) (job, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop || time.Now().After(ex.deadline) || (ex.cfg.MaxPaths > 0 && ex.Paths >= int64(ex.cfg.MaxPaths)) {
			ex.stop = true
			ex.cv.Broadcast()
			return job{}, false
		}
		if n := len(ex.stack); n > 0 {
			k := n - 1
			if i%4 == 3 {
				k = 0
			} else if i%4 == 2 {
				k = rnd.Intn(n)
			}
			j := ex.stack[k]
			if k == n-1 {
				ex.stack = ex.stack[:n-1]
			} else {
				ex.stack[k] = ex.stack[n-1]
				ex.stack[n-1] = job{}
				ex.stack = ex.stack[:n-1]
			}
			ex.active++
			ex.Paths++
			return j, true
		}
		if ex.active == 0 {
			ex.cv.Broadcast()
			return job{}, false
		}
		ex.cv.Wait()
	}
}

func (ex *Explorer) add(j job) {
	if ex.OneJob != nil {
		return
	}
	ex.mu.Lock()
	ex.stack = append(ex.stack, j)
	ex.Forks++
	ex.mu.Unlock()
	ex.cv.Signal()
}

func (ex *Explorer) worker(i int) {
	rnd := rand.New(rand.NewSource(ex.seed*7919 + int64(i)))
	var in *Interp
	defer func() {
		if in != nil && in.sol != nil {
			ex.mu.Lock()
			ex.Stats.Queries += in.sol.Stats.Queries
			ex.Stats.Sat += in.sol.Stats.Sat
			ex.Stats.Unsat += in.sol.Stats.Unsat
			ex.Stats.Unknown += in.sol.Stats.Unknown
			ex.Stats.Time += in.sol.Stats.Time
			ex.solverErrs += in.sol.errs
			ex.mu.Unlock()
			in.sol.Close()
		}
	}()
	for {
		j, ok := ex.next(i, rnd)
		if !ok {
			return
		}
		if in == nil {
			in, _ = NewInterp(ex.p, ex)
			in.cfg = ex.cfg
		}
		if len(in.db.tab) > 400000 {
			// keep memory bounded: start over with fresh tables
			old := in.sol
			in, _ = NewInterp(ex.p, ex)
			in.cfg = ex.cfg
			if old != nil {
				st := old.Stats
				old.Close()
				in.sol = nil
				in.getSolver()
				in.sol.Stats = st
			}
		}
		in.runJob(j)
		ex.mu.Lock()
		ex.active--
		if ex.active == 0 && len(ex.stack) == 0 {
			ex.cv.Broadcast()
		}
		ex.mu.Unlock()
	}
}

func (in *Interp) getSolver() *Solver {
	if in.sol == nil {
		s, err := NewSolver(solverBin, in.cfg.TimeoutMS)
		if err != nil {
			panic(err)
		}
		in.sol = s
	}
	return in.sol
}

func (in *Interp) resetModel(vals map[string]uint64) {
	modelGenMu.Lock()
	modelGen++
	g := modelGen
	modelGenMu.Unlock()
	if vals == nil {
		vals = map[string]uint64{}
	}
	in.model = &Model{gen: g, vals: vals}
}

var modelGenMu sync.Mutex

func (in *Interp) initOnce() {
	if in.epoch > 0 {
		return
	}
	// run package initialisers of the code under test and of the harness
	res := in.runPath(func() {
		for _, p := range in.p.order {
			if in.pkgInit[p] == 0 {
				in.runInit(p)
				if in.pkgInit[p] == 3 {
					panic(pathAbort{"unsupported", "init of " + p.Pkg.Path() + ": " + in.pkgFail[p]})
				}
			}
		}
	})
	if res.kind != "done" {
		in.ex.mu.Lock()
		in.ex.Unsup["init: "+res.kind+": "+res.msg]++
		in.ex.stop = true
		in.ex.mu.Unlock()
	}
}

func (in *Interp) runJob(j job) {
	ex := in.ex
	in.initOnce()
	in.epoch++
	in.pc = nil
	in.facts = map[*Term]bool{}
	in.prefix = j.prefix
	in.pos = 0
	in.taken = nil
	in.vars = nil
	in.varSet = map[*Term]bool{}
	in.steps = 0
	in.obs = nil
	in.reached = map[string]bool{}
	in.names = map[string]int{}
	in.inputs = nil
	in.notes = map[string]bool{}
	in.fresh = 0
	in.clock = clockState{now: vI64(0), maxD: int64(1) << 40}
	in.side = map[any]any{}
	in.mapOrder = false
	vals := map[string]uint64{}
	for k, v := range j.vals {
		vals[k] = v
	}
	in.resetModel(vals)
	in.tracking = true
	var asserts, smt int64
	in.conds = 0
	entry := in.fn(ex.entry)
	res := in.runPath(func() { in.callFn(entry, nil) })
	in.tracking = false
	_ = asserts
	_ = smt

	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.Steps += in.steps
	ex.Switches += int64(in.sched.switches)
	for n := range in.notes {
		ex.Notes[n] = true
	}
	for f := range in.fnSeen {
		ex.Funcs[f.String()]++
	}
	in.fnSeen = map[*ssa.Function]bool{}
	switch res.kind {
	case "done", "exit":
		ex.Done++
		for k := range in.reached {
			ex.Reached[k]++
		}
		ex.sampleN++
		if len(ex.Samples) < ex.maxSamples || rand.Int63n(ex.sampleN) < int64(ex.maxSamples) {
			s := PathSample{Inputs: in.inputVals()}
			for _, o := range in.obs {
				s.Obs = append(s.Obs, o.label+"="+in.describe(o.v, o.t))
			}
			if len(ex.Samples) < ex.maxSamples {
				ex.Samples = append(ex.Samples, s)
			} else {
				ex.Samples[rand.Intn(ex.maxSamples)] = s
			}
		}
	case "infeasible":
		ex.Infeas++
	case "pruned":
		ex.Pruned++
	case "unsupported":
		ex.Unsup[res.msg]++
		if os.Getenv("VSYM_STOP_UNSUP") != "" {
			ex.stop = true
		}
	case "fuel":
		ex.FuelCut[res.msg]++
	case "unknown":
		ex.UnknownN++
		ex.UnknownAt[res.msg]++
	case "violation":
		key := violKey(res.msg)
		if !ex.violSeen[key] {
			ex.violSeen[key] = true
			ex.Viol = append(ex.Viol, Violation{Msg: res.msg, Inputs: in.inputVals(), Trace: append([]string(nil), in.sched.trace...),
				Dec: append([]Decision(nil), in.taken...), Vals: in.model.vals, Sched: in.sched.multi})
			if !ex.Known[res.msg] {
				ex.unknownViol++
			}
			if ex.unknownViol >= ex.MaxViol {
				ex.stop = true
				ex.cv.Broadcast()
			}
		}
		ex.Done++
	}
	in.rollback(0)
}

// violKey groups violations by message up to the location suffix.
func violKey(m string) string { return m }

func (in *Interp) inputVals() []InputVal {
	var out []InputVal
	for _, r := range in.inputs {
		iv := InputVal{Name: r.Name, Kind: r.Kind}
		switch {
		case r.Kind == "string" || r.Kind == "bytes":
			iv.S = fmt.Sprintf("%x", in.strUnderModel(r.Str))
		case r.T != nil:
			v, ok := in.eval(r.T, in.model)
			if !ok {
				v = 0
			}
			iv.V = v
			if r.T.isBV() && (r.Kind == "int" || r.Kind == "int64" || r.Kind == "int32" || r.Kind == "int16" || r.Kind == "int8") {
				iv.V = uint64(signExt(v, r.T.w))
			}
		default:
			iv.V = r.V
		}
		out = append(out, iv)
	}
	return out
}

// ---- decisions ----

func (in *Interp) note(s string) { in.notes[s] = true }

func (in *Interp) cond(v Value) bool {
	if t, ok := v.r.(*Term); ok {
		return in.branch(t)
	}
	return v.n != 0
}

func (in *Interp) addPC(t *Term) {
	if t.op == OAnd {
		for _, a := range t.args {
			in.addPC(a)
		}
		return
	}
	if in.facts[t] {
		return
	}
	in.pc = append(in.pc, t)
	in.fact(t)
}

func (in *Interp) fact(t *Term) { in.facts[t] = true }

func (in *Interp) known(t *Term) (bool, bool) {
	if in.facts[t] {
		return true, true
	}
	if in.facts[in.db.Not(t)] {
		return false, true
	}
	switch t.op {
	case OAnd:
		all := true
		for _, a := range t.args {
			v, ok := in.known(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	case OOr:
		all := true
		for _, a := range t.args {
			v, ok := in.known(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

const (
	dFalse = iota
	dTrue
	dForcedFalse
	dForcedTrue
	dChoice
	dEqConst
	dNeConst
)

func (in *Interp) check(extra *Term) (SatResult, map[string]uint64) {
	if time.Now().After(in.ex.deadline) {
		panic(pathAbort{kind: "unknown", msg: "time budget"})
	}
	r, vals := in.getSolver().Check(in.pc, extra, in.vars)
	return r, vals
}

func (in *Interp) branch(t *Term) bool {
	if t.op == OConst {
		return t.k != 0
	}
	if v, ok := in.known(t); ok {
		return v
	}
	if !in.tracking {
		in.unsupported("symbolic branch during initialisation")
	}
	nt := in.db.Not(t)
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.taken = append(in.taken, d)
		switch d.D {
		case dTrue:
			in.addPC(t)
			return true
		case dFalse:
			in.addPC(nt)
			return false
		case dForcedTrue:
			in.fact(t)
			return true
		case dForcedFalse:
			in.fact(nt)
			return false
		}
		panic(pathAbort{"unsupported", fmt.Sprintf("engine: replay divergence (branch, got %d) %s", d.D, in.where())})
	}
	in.conds++
	side, ok := in.eval(t, in.model)
	if !ok {
		// no usable model value: ask for one
		r, vals := in.check(t)
		if r == Sat {
			in.resetModel(vals)
			side = 1
		} else if r == Unsat {
			in.fact(nt)
			in.taken = append(in.taken, Decision{D: dForcedFalse})
			return false
		} else {
			panic(pathAbort{kind: "unknown", msg: "solver unknown @ " + in.where()})
		}
	}
	my, other := t, nt
	if side == 0 {
		my, other = nt, t
	}
	r, vals := in.check(other)
	switch r {
	case Unsat:
		in.fact(my)
		if side != 0 {
			in.taken = append(in.taken, Decision{D: dForcedTrue})
		} else {
			in.taken = append(in.taken, Decision{D: dForcedFalse})
		}
		return side != 0
	case Sat:
		od := Decision{D: dTrue}
		if side != 0 {
			od.D = dFalse
		}
		in.ex.add(job{prefix: append(append([]Decision(nil), in.taken...), od), vals: vals})
	default:
		in.ex.mu.Lock()
		in.ex.UnknownN++
		in.ex.UnknownAt["other branch @ "+in.where()]++
		in.ex.mu.Unlock()
	}
	in.addPC(my)
	d := Decision{D: dFalse}
	if side != 0 {
		d.D = dTrue
	}
	in.taken = append(in.taken, d)
	return side != 0
}

// choose explores all of 0..n-1.
func (in *Interp) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.taken = append(in.taken, d)
		if d.D != dChoice {
			panic(pathAbort{"unsupported", fmt.Sprintf("engine: replay divergence (choice %s, got %d) %s", what, d.D, in.where())})
		}
		return int(d.K)
	}
	vals := in.model.vals
	for i := n - 1; i >= 1; i-- {
		cp := make(map[string]uint64, len(vals))
		for k, v := range vals {
			cp[k] = v
		}
		in.ex.add(job{prefix: append(append([]Decision(nil), in.taken...), Decision{D: dChoice, K: uint64(i)}), vals: cp})
	}
	in.taken = append(in.taken, Decision{D: dChoice, K: 0})
	return 0
}

// concInt makes a scalar concrete, forking over its feasible values.
func (in *Interp) concInt(v Value, k kind) uint64 {
	t, ok := v.r.(*Term)
	if !ok {
		return v.n
	}
	for n := 0; ; n++ {
		if n > 4096 {
			panic(pathAbort{"fuel", "more than 4096 values for a concretised term @ " + in.where()})
		}
		if in.pos < len(in.prefix) {
			d := in.prefix[in.pos]
			in.pos++
			in.taken = append(in.taken, d)
			c := in.db.BV(d.K, t.w)
			if t.w == SBool {
				c = in.db.Bool(d.K != 0)
			}
			e := in.db.Eq(t, c)
			if d.D == dEqConst {
				in.addPC(e)
				return canonInt(d.K, k)
			}
			if d.D != dNeConst {
				panic(pathAbort{"unsupported", "engine: replay divergence (concretise) " + in.where()})
			}
			in.addPC(in.db.Not(e))
			continue
		}
		x, ok := in.eval(t, in.model)
		if !ok {
			in.unsupported("concretise partial term")
		}
		c := in.db.BV(x, t.w)
		e := in.db.Eq(t, c)
		if e.op == OConst && e.k != 0 {
			return canonInt(x, k)
		}
		ne := in.db.Not(e)
		r, vals := in.check(ne)
		if r == Sat {
			in.ex.add(job{prefix: append(append([]Decision(nil), in.taken...), Decision{dNeConst, x}), vals: vals})
		} else if r == Unknown {
			in.ex.mu.Lock()
			in.ex.UnknownN++
			in.ex.mu.Unlock()
		}
		in.addPC(e)
		in.taken = append(in.taken, Decision{dEqConst, x})
		return canonInt(x, k)
	}
}

func (in *Interp) assume(t *Term) {
	if t.op == OConst {
		if t.k == 0 {
			panic(pathAbort{kind: "infeasible"})
		}
		return
	}
	if v, ok := in.known(t); ok {
		if !v {
			panic(pathAbort{kind: "infeasible"})
		}
		return
	}
	x, ok := in.eval(t, in.model)
	if ok && x != 0 {
		in.addPC(t)
		return
	}
	r, vals := in.check(t)
	switch r {
	case Sat:
		in.resetModel(vals)
		in.addPC(t)
	case Unsat:
		panic(pathAbort{kind: "infeasible"})
	default:
		panic(pathAbort{kind: "unknown", msg: "solver unknown in assume"})
	}
}

// assert decides pc ⇒ t; a counterexample ends the path as a violation.
func (in *Interp) assert(t *Term, msg string) {
	in.ex.mu.Lock()
	in.ex.Asserts++
	in.ex.mu.Unlock()
	if t.op == OConst {
		if t.k == 0 {
			panic(pathAbort{"violation", msg})
		}
		return
	}
	if v, ok := in.known(t); ok && v {
		return
	}
	// the assertion may already have been discharged on the path that forked here
	in.ex.mu.Lock()
	in.ex.AssertsSMT++
	in.ex.mu.Unlock()
	if in.pos < len(in.prefix) {
		// still replaying: this assertion was decided before the fork
		in.fact(t)
		return
	}
	x, ok := in.eval(t, in.model)
	if ok && x == 0 {
		panic(pathAbort{"violation", msg})
	}
	r, vals := in.check(in.db.Not(t))
	switch r {
	case Sat:
		in.resetModel(vals)
		panic(pathAbort{"violation", msg})
	case Unknown:
		panic(pathAbort{kind: "unknown", msg: "solver unknown in assertion " + msg})
	}
	in.fact(t)
}

func (in *Interp) addVar(t *Term) {
	if in.varSet[t] {
		return
	}
	in.varSet[t] = true
	in.vars = append(in.vars, t)
	if !t.isBV() {
		return
	}
	// assert the declared range
	if t.ulo > 0 || t.uhi < maskW(t.w) {
		if t.ulo > 0 {
			in.pc = append(in.pc, in.db.mk(&Term{op: OUle, w: SBool, args: []*Term{in.db.BV(t.ulo, t.w), t}}))
		}
		if t.uhi < maskW(t.w) {
			in.pc = append(in.pc, in.db.mk(&Term{op: OUle, w: SBool, args: []*Term{t, in.db.BV(t.uhi, t.w)}}))
		}
	} else if t.slo > minS(t.w) || t.shi < maxS(t.w) {
		in.pc = append(in.pc, in.db.mk(&Term{op: OSle, w: SBool, args: []*Term{in.db.BV(uint64(t.slo), t.w), t}}))
		in.pc = append(in.pc, in.db.mk(&Term{op: OSle, w: SBool, args: []*Term{t, in.db.BV(uint64(t.shi), t.w)}}))
	}
}

func (in *Interp) freshS(name string, w uint8, lo, hi int64) *Term {
	in.fresh++
	t := in.db.VarS(fmt.Sprintf("%s#%d", name, in.fresh), w, lo, hi)
	in.addVar(t)
	return t
}
func (in *Interp) freshU(name string, w uint8, lo, hi uint64) *Term {
	in.fresh++
	t := in.db.VarU(fmt.Sprintf("%s#%d", name, in.fresh), w, lo, hi)
	in.addVar(t)
	return t
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
