package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is shared by all workers (read only after load, except canon).
type Program struct {
	prog    *ssa.Program
	pkgs    []*packages.Package
	harness *ssa.Package
	fset    *token.FileSet
	repo    string // import path prefix of the code under test
	mu      sync.Mutex
	ct      typeCanon
	impl    map[[2]types.Type]bool
	mset    typeutilMethodCache
	order   []*ssa.Package // eager init order
	sources map[string]bool
}

type typeutilMethodCache struct {
	m map[types.Type]map[string]*ssa.Function
}

const repoPrefix = "github.com/Aize-Public/forego"
const harnessPrefix = "verif/harness"

func isOurs(path string) bool {
	return path == repoPrefix || strings.HasPrefix(path, repoPrefix+"/") || strings.HasPrefix(path, harnessPrefix)
}

func LoadProgram(dir string, env []string, pattern string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Overlay: overlay}
	ps, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: ps, harness: spkgs[0], fset: prog.Fset, impl: map[[2]types.Type]bool{}, sources: map[string]bool{}}
	p.mset.m = map[types.Type]map[string]*ssa.Function{}
	seen := map[*packages.Package]bool{}
	var visit func(q *packages.Package)
	visit = func(q *packages.Package) {
		if seen[q] {
			return
		}
		seen[q] = true
		if isOurs(q.PkgPath) {
			for _, f := range q.GoFiles {
				p.sources[f] = true
			}
		}
		var deps []string
		for k := range q.Imports {
			deps = append(deps, k)
		}
		sortStrings(deps)
		for _, k := range deps {
			visit(q.Imports[k])
		}
		if isOurs(q.PkgPath) {
			if sp := prog.Package(q.Types); sp != nil {
				p.order = append(p.order, sp)
			}
		}
	}
	for _, q := range ps {
		visit(q)
	}
	return p, nil
}

func (p *Program) canon(t types.Type) types.Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.ct.canon(t)
}

func (p *Program) implements(t types.Type, it types.Type) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	k := [2]types.Type{t, p.ct.canon(it)}
	if r, ok := p.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	p.impl[k] = r
	return r
}

// lookupMethod finds the SSA function of method m of dynamic (canonical) type t.
func (p *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	key := name
	if pkg != nil && !token.IsExported(name) {
		key = pkg.Path() + "." + name
	}
	p.mu.Lock()
	mm := p.mset.m[t]
	if mm == nil {
		mm = map[string]*ssa.Function{}
		p.mset.m[t] = mm
	}
	f, ok := mm[key]
	p.mu.Unlock()
	if ok {
		return f
	}
	f = p.prog.LookupMethod(t, pkg, name)
	p.mu.Lock()
	mm[key] = f
	p.mu.Unlock()
	return f
}

// ---- interpreter (one per worker) ----

type undo struct {
	p   *Value
	old Value
	f   func()
}

type pathAbort struct {
	kind string // "done", "infeasible", "unsupported", "fuel", "violation", "pruned", "unknown"
	msg  string
}

type targetPanic struct {
	v      Value // interface value
	goexit bool
	stack  string
}

type killed struct{}

type Decision struct {
	D int32
	K uint64
}

type Obs struct {
	label string
	v     Value
	t     types.Type
}

type Interp struct {
	p       *Program
	db      *TermDB
	sol     *Solver
	ex      *Explorer
	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]*Value
	pkgInit map[*ssa.Package]int // 0 no, 1 running, 2 done, 3 failed
	pkgFail map[*ssa.Package]string

	trail    []undo
	tracking bool
	epoch    int64
	symOK    bool

	// current path
	pc       []*Term
	facts    map[*Term]bool
	prefix   []Decision
	pos      int
	taken    []Decision
	model    *Model
	vars     []*Term
	varSet   map[*Term]bool
	steps    int64
	depth    int
	obs      []Obs
	reached  map[string]bool
	names    map[string]int
	inputs   []inputRec
	notes    map[string]bool
	fresh    int
	sched    sched
	clock    clockState
	cfg      *HConfig
	side     map[any]any // per-path side tables
	log      []string
	conds    int
	zeroCell Value
	uintptrs map[any]uint64
	unique   map[types.Type][]Value // made while initializing
	rtypes   map[types.Type]*RType
	consts   map[string]bool
	fnSeen   map[*ssa.Function]bool
	natDepth int
	mapOrder bool
	trace    bool
	pctab    *pcTable
}

type inputRec struct {
	Name string
	Kind string
	T    *Term
	V    uint64
	Str  Value
}

func NewInterp(p *Program, ex *Explorer) (*Interp, error) {
	in := &Interp{p: p, ex: ex, db: NewTermDB(), fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]*Value{},
		pkgInit: map[*ssa.Package]int{}, pkgFail: map[*ssa.Package]string{}, uintptrs: map[any]uint64{}, unique: map[types.Type][]Value{},
		rtypes: map[types.Type]*RType{}, fnSeen: map[*ssa.Function]bool{}}
	in.side = map[any]any{}
	in.facts = map[*Term]bool{}
	in.varSet = map[*Term]bool{}
	in.reached = map[string]bool{}
	in.names = map[string]int{}
	in.notes = map[string]bool{}
	in.cfg = &HConfig{}
	in.resetModel(nil)
	return in, nil
}

func (in *Interp) unsupported(format string, a ...any) {
	panic(pathAbort{"unsupported", fmt.Sprintf(format, a...) + " @ " + in.where()})
}

func (in *Interp) where() string {
	if in.sched.cur == nil {
		return ""
	}
	var sb strings.Builder
	n := 0
	for fr := in.sched.cur.top; fr != nil && n < 6; fr = fr.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(fr.fn.name)
		if fr.pos != token.NoPos {
			ps := in.p.fset.Position(fr.pos)
			fmt.Fprintf(&sb, "(%s:%d)", shortFile(ps.Filename), ps.Line)
		}
		n++
	}
	return sb.String()
}

func shortFile(f string) string {
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		if j := strings.LastIndexByte(f[:i], '/'); j >= 0 {
			return f[j+1:]
		}
	}
	return f
}

// rtPanic raises a Go run-time error in the interpreted program.
func (in *Interp) rtPanic(msg string) {
	rt := in.p.prog.ImportedPackage("runtime")
	t := in.p.canon(rt.Type("errorString").Object().Type())
	panic(targetPanic{v: Value{r: &Iface{t: t, v: vStr(msg)}}, stack: in.where()})
}

func (in *Interp) nilDeref() { in.rtPanic("invalid memory address or nil pointer dereference") }

func (in *Interp) global(g *ssa.Global) *Value {
	c := in.globals[g]
	if c == nil {
		c = new(Value)
		*c = zeroOf(g.Type().(*types.Pointer).Elem())
		in.globals[g] = c
	}
	return c
}

// ensureInit runs the initialiser of a package the first time one of its
// globals is needed. Its effects are permanent (not undone between paths).
func (in *Interp) ensureInit(pkg *ssa.Package) {
	switch in.pkgInit[pkg] {
	case 1, 2:
		return
	case 3:
		panic(pathAbort{"unsupported", "package init failed: " + pkg.Pkg.Path() + ": " + in.pkgFail[pkg]})
	}
	in.runInit(pkg)
	if in.pkgInit[pkg] == 3 {
		panic(pathAbort{"unsupported", "package init failed: " + pkg.Pkg.Path() + ": " + in.pkgFail[pkg]})
	}
}

func (in *Interp) runInit(pkg *ssa.Package) {
	in.pkgInit[pkg] = 1
	saveT, saveE := in.tracking, in.epoch
	in.tracking = false
	in.epoch = 0
	saveSteps := in.steps
	saveNoSched := in.sched.atomic
	in.sched.atomic++
	defer func() {
		in.tracking, in.epoch = saveT, saveE
		in.steps = saveSteps
		in.sched.atomic = saveNoSched
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathAbort:
				in.pkgInit[pkg] = 3
				in.pkgFail[pkg] = x.msg
			case targetPanic:
				in.pkgInit[pkg] = 3
				in.pkgFail[pkg] = "panic: " + in.panicStr(x)
			default:
				panic(r)
			}
		}
	}()
	fn := pkg.Func("init")
	if skipInit[pkg.Pkg.Path()] {
		in.pkgInit[pkg] = 2
		return
	}
	in.callFn(in.fn(fn), nil)
	in.pkgInit[pkg] = 2
}

// packages whose initialiser is not run: everything they hold is intrinsic.
var skipInit = map[string]bool{
	"runtime": true, "reflect": true, "internal/reflectlite": true, "sync": true, "sync/atomic": true,
	"internal/cpu": true, "internal/bytealg": true, "internal/abi": true, "syscall": false,
}

func (in *Interp) store(p *Value, v Value) {
	if a, ok := v.r.(Agg); ok {
		if d, ok := p.r.(Agg); ok && len(d) == len(a) {
			for i := range a {
				in.store(&d[i], a[i])
			}
			return
		}
		v = Value{r: copyAgg(a)}
	}
	if in.tracking {
		in.trail = append(in.trail, undo{p: p, old: *p})
	}
	*p = v
}

func (in *Interp) rollback(to int) {
	for i := len(in.trail) - 1; i >= to; i-- {
		u := &in.trail[i]
		if u.p != nil {
			*u.p = u.old
		} else {
			u.f()
		}
		*u = undo{}
	}
	in.trail = in.trail[:to]
}

func (in *Interp) onUndo(f func()) {
	if in.tracking {
		in.trail = append(in.trail, undo{f: f})
	}
}

// panicStr renders the value of an interpreted panic.
func (in *Interp) panicStr(tp targetPanic) string {
	if tp.goexit {
		return "goexit"
	}
	i, ok := tp.v.r.(*Iface)
	if !ok {
		return "panic(nil)"
	}
	s := in.describe(i.v, i.t)
	if s == "" {
		s = i.t.String()
	}
	return s + " @ " + tp.stack
}

// describe renders a value for messages; best effort.
func (in *Interp) describe(v Value, t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := kindOf(u)
		if k == kStr {
			return in.strUnderModel(v)
		}
		if tt, ok := v.r.(*Term); ok {
			x, _ := in.eval(tt, in.model)
			if k.signed() {
				return fmt.Sprint(signExt(x, tt.w))
			}
			if k == kBool {
				return fmt.Sprint(x != 0)
			}
			if k.isFloat() {
				return fmt.Sprint(fval(x, tt.w))
			}
			return fmt.Sprint(x)
		}
		if k == kBool {
			return fmt.Sprint(v.n != 0)
		}
		if k.isFloat() {
			return fmt.Sprint(fval(v.n, SF64))
		}
		if k.signed() {
			return fmt.Sprint(int64(v.n))
		}
		return fmt.Sprint(v.n)
	case *types.Interface:
		if i, ok := v.r.(*Iface); ok {
			return in.describe(i.v, i.t)
		}
		return "<nil>"
	case *types.Slice:
		b, _ := v.r.([]Value)
		if kindOf(u.Elem()) == kU8 {
			return fmt.Sprintf("%q", in.strUnderModel(bytesToStr(b)))
		}
		var ps []string
		for _, e := range b {
			ps = append(ps, in.describe(e, u.Elem()))
		}
		return "[" + strings.Join(ps, " ") + "]"
	case *types.Struct:
		a, ok := v.r.(Agg)
		if !ok {
			return t.String()
		}
		var ps []string
		for i, e := range a {
			ps = append(ps, in.describe(e, u.Field(i).Type()))
		}
		return t.String() + "{" + strings.Join(ps, " ") + "}"
	case *types.Map:
		m, ok := v.r.(*MapV)
		if !ok {
			return "map[]"
		}
		var ps []string
		for _, e := range m.ents {
			ps = append(ps, in.describe(e.k, u.Key())+":"+in.describe(e.v, u.Elem()))
		}
		sortStrings(ps)
		return "map[" + strings.Join(ps, " ") + "]"
	case *types.Pointer:
		if v.r == nil {
			return "nil"
		}
		// errors.errorString and similar: show first string field
		if c, ok := v.r.(*Value); ok {
			if a, ok := c.r.(Agg); ok {
				if st, ok := u.Elem().Underlying().(*types.Struct); ok {
					for i := range a {
						if kindOf(st.Field(i).Type()) == kStr {
							return "&" + u.Elem().String() + "{" + in.strUnderModel(a[i]) + "}"
						}
						if st.Field(i).Name() == "error" || st.Field(i).Name() == "err" || st.Field(i).Name() == "Err" {
							return "&" + u.Elem().String() + "{" + in.describe(a[i], st.Field(i).Type()) + "}"
						}
					}
				}
			}
		}
		return "&" + u.Elem().String()
	}
	return t.String()
}

func (in *Interp) strUnderModel(v Value) string {
	s, ok := concStr(v)
	if ok {
		return s
	}
	b := strBytes(v)
	out := make([]byte, len(b))
	for i := range b {
		if t, ok := b[i].r.(*Term); ok {
			x, _ := in.eval(t, in.model)
			out[i] = byte(x)
		} else {
			out[i] = byte(b[i].n)
		}
	}
	return string(out)
}
