package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harnessInfo struct {
	name    string
	fn      *ssa.Function
	doc     string
	opts    map[string]string
	labels  []string
	explain string
}

type propMeta struct {
	assumptions []string
	outside     []string
}

var (
	flagVerif   = flag.String("verif", "/verif", "verification directory")
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "", "quick or thorough")
	flagOnly    = flag.String("only", "", "run only the harness with this name")
	flagV       = flag.Bool("v", false, "verbose")
	flagWorkers = flag.Int("workers", 0, "workers")
	flagBudget  = flag.Int("budget", 0, "override time per harness (s)")
	flagNoNat   = flag.Bool("nonative", false, "skip native validation")
	flagProf    = flag.String("cpuprofile", "", "profile")
	flagPkg     = flag.String("pkg", "", "harness package directory name (default: property id in lower case)")
	flagDump    = flag.Bool("dump", false, "dump all violations")
	flagDebug   = flag.Bool("debug", false, "do not catch engine panics")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	debugPanic = *flagDebug
	if *flagProf != "" {
		f, _ := os.Create(*flagProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	tier := *flagTier
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	rc := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Printf("NOTE: engine failure: %v\n%s\n", r, debug.Stack())
			}
		}()
		rc = check(*flagProp, tier, seed)
	}()
	if *flagProf != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(rc)
}

func parseDirectives(text string, tier string) (map[string]string, string) {
	opts := map[string]string{}
	var rest []string
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(strings.TrimPrefix(l, "//"))
		if !strings.HasPrefix(l, "vsym:") {
			rest = append(rest, l)
			continue
		}
		fs := strings.Fields(strings.TrimPrefix(l, "vsym:"))
		if len(fs) == 0 || (fs[0] != "all" && fs[0] != tier) {
			continue
		}
		for _, f := range fs[1:] {
			k, v, ok := strings.Cut(f, "=")
			if !ok {
				v = "1"
			}
			opts[k] = v
		}
	}
	return opts, strings.TrimSpace(strings.Join(rest, " "))
}

func optInt(o map[string]string, k string, d int) int {
	if v, ok := o[k]; ok {
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
	}
	return d
}

// findHarnesses lists the H_ functions of the harness package.
func findHarnesses(p *Program, tier string) ([]*harnessInfo, propMeta) {
	var out []*harnessInfo
	var meta propMeta
	docs := map[string]string{}
	for _, f := range p.pkgs[0].Syntax {
		if f.Doc != nil {
			for _, c := range f.Doc.List {
				l := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
				if s, ok := strings.CutPrefix(l, "vsym:assume "); ok {
					meta.assumptions = append(meta.assumptions, s)
				}
				if s, ok := strings.CutPrefix(l, "vsym:outside "); ok {
					meta.outside = append(meta.outside, s)
				}
			}
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Doc != nil {
				var ls []string
				for _, c := range fd.Doc.List {
					ls = append(ls, c.Text)
				}
				docs[fd.Name.Name] = strings.Join(ls, "\n")
			}
		}
	}
	var names []string
	for n, m := range p.harness.Members {
		if _, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H_") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		fn := p.harness.Func(n)
		h := &harnessInfo{name: n, fn: fn}
		h.opts, h.explain = parseDirectives(docs[n], tier)
		h.labels = reachLabels(fn, p.harness)
		out = append(out, h)
	}
	return out, meta
}

// reachLabels collects the constant labels of vsym.Reach calls reachable from fn.
func reachLabels(fn *ssa.Function, pkg *ssa.Package) []string {
	seen := map[*ssa.Function]bool{}
	set := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		if f.Pkg != pkg && f.Pkg != nil && (f.Origin() == nil || f.Origin().Pkg != pkg) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range i.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Function); ok {
						walk(g)
					}
				}
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := c.Common().StaticCallee(); g != nil {
					if g.Name() == "Reach" && g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "/vsym") {
						if k, ok := c.Common().Args[0].(*ssa.Const); ok {
							set[constant.StringVal(k.Value)] = true
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type known struct {
	prop, harness, msg, desc string
}

// readKnown parses the "finding:" lines of known-findings.txt:
// finding: property=F01 harness=H_X msg="..." -- description
func readKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		s, ok := strings.CutPrefix(l, "finding:")
		if !ok {
			continue
		}
		k := known{}
		s, k.desc, _ = strings.Cut(s, " -- ")
		i := strings.Index(s, "msg=")
		if i >= 0 {
			q, err := strconv.QuotedPrefix(s[i+4:])
			if err == nil {
				k.msg, _ = strconv.Unquote(q)
			}
			s = s[:i]
		}
		for _, f := range strings.Fields(s) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				k.prop = v
			}
			if v, ok := strings.CutPrefix(f, "harness="); ok {
				k.harness = v
			}
		}
		if k.msg != "" {
			out = append(out, k)
		}
	}
	return out
}

type hResult struct {
	Name        string         `json:"harness"`
	What        string         `json:"decides"`
	Bounds      []string       `json:"bounds"`
	Paths       int64          `json:"paths"`
	Complete    int64          `json:"paths_completed"`
	Infeasible  int64          `json:"paths_infeasible,omitempty"`
	Pruned      int64          `json:"interleavings_pruned,omitempty"`
	Exhausted   bool           `json:"bounded_space_exhausted"`
	Queries     int            `json:"solver_queries"`
	Sat         int            `json:"sat"`
	Unsat       int            `json:"unsat"`
	Unknown     int            `json:"unknown"`
	SolverS     float64        `json:"solver_s"`
	Asserts     int64          `json:"assertions_checked"`
	AssertsSMT  int64          `json:"assertions_symbolic"`
	Forks       int64          `json:"forks"`
	Steps       int64          `json:"instructions"`
	Reached     map[string]int `json:"witness_labels"`
	Unreached   []string       `json:"labels_not_reached,omitempty"`
	Reduced     map[string]int `json:"reduced_bound,omitempty"`
	Validated   int            `json:"paths_replayed_natively"`
	Mismatch    int            `json:"native_mismatches"`
	MismatchTxt []string       `json:"native_mismatch_details,omitempty"`
	Wall        float64        `json:"wall_s"`
	Unconfirmed []string       `json:"unconfirmed,omitempty"`
	viol        []Violation
	samples     []PathSample
	funcs       map[string]int
	switches    int64
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	return env
}

func check(prop, tier string, seed int64) int {
	t0 := time.Now()
	verif := *flagVerif
	dir := filepath.Join(verif, "harness")
	pk := *flagPkg
	if pk == "" {
		pk = strings.ToLower(prop)
	}
	total := 780 * time.Second // hard wall for everything
	evid := filepath.Join(verif, "evidence", prop+".json")
	os.MkdirAll(filepath.Dir(evid), 0o755)
	p, err := LoadProgram(dir, goEnv(), "verif/harness/p/"+pk, nil)
	if err != nil {
		fmt.Printf("NOTE: the harness does not build against this tree: %v\n", err)
		writeEvidence(evid, prop, tier, seed, nil, propMeta{}, t0, 0, []string{"harness did not load: " + err.Error()})
		return 0
	}
	hs, meta := findHarnesses(p, tier)
	tLoad := time.Since(t0)
	if *flagV {
		fmt.Printf("loaded in %.1fs, %d harnesses\n", tLoad.Seconds(), len(hs))
	}
	workers := *flagWorkers
	if workers == 0 {
		workers = min(8, runtime.NumCPU())
	}
	// native replay binary, built in the background
	tmp, err := os.MkdirTemp("", "vsym")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	var natBin string
	var natErr error
	natDone := make(chan bool)
	go func() {
		defer close(natDone)
		if *flagNoNat {
			natErr = fmt.Errorf("disabled")
			return
		}
		natBin, natErr = buildReplay(dir, pk, hs, tmp, false)
	}()
	knowns := readKnown(filepath.Join(verif, "known-findings.txt"))
	var results []*hResult
	var viols []string
	var knownHit = map[string]bool{}
	nViol := 0
	for _, h := range hs {
		if *flagOnly != "" && h.name != *flagOnly {
			continue
		}
		left := total - time.Since(t0)
		def := 20
		if tier == "thorough" {
			def = 90
		}
		b := time.Duration(optInt(h.opts, "time", def)) * time.Second
		if *flagBudget > 0 {
			b = time.Duration(*flagBudget) * time.Second
		}
		if b > left-30*time.Second {
			b = max(left-30*time.Second, 2*time.Second)
		}
		cfg := &HConfig{Name: h.name, Tier: tier, Timeout: b,
			Fuel:      int64(optInt(h.opts, "fuel", 3000000)),
			Preempt:   optInt(h.opts, "preempt", -1),
			MaxTimers: optInt(h.opts, "timers", 6),
			Delays:    optInt(h.opts, "delay", -1),
			Lazy:      optInt(h.opts, "lazy", 0) != 0,
			MaxPaths:  optInt(h.opts, "paths", 0),
			Race:      optInt(h.opts, "race", 0) != 0,
			NoNative:  optInt(h.opts, "native", 1) == 0,
			TimeoutMS: optInt(h.opts, "smt", 20000),
		}
		ex := NewExplorer(p, cfg, h.fn, seed)
		ex.Known = map[string]bool{}
		for _, k := range knowns {
			if k.prop == prop && k.harness == h.name {
				ex.Known[k.msg] = true
			}
		}
		if n := optInt(h.opts, "native", 1); n > 1 {
			ex.maxSamples = n
		}
		ex.Run(workers)
		r := summarise(h, cfg, ex)
		results = append(results, r)
		<-natDone
		if natErr == nil && !cfg.NoNative {
			validate(natBin, h, r, tmp, tier)
		} else if natErr != nil && !*flagNoNat {
			r.Reduced["native replay binary not built: "+natErr.Error()]++
		}
		for i, v := range r.viol {
			if ex.Known[v.Msg] {
				for _, k := range knowns {
					if k.prop == prop && k.harness == h.name && k.msg == v.Msg && !knownHit[h.name+k.msg] {
						knownHit[h.name+k.msg] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", prop, h.name, k.msg, k.desc)
					}
				}
				continue
			}
			file := filepath.Join(verif, "evidence", fmt.Sprintf("replay-%s-%s-%d.json", prop, h.name, i))
			rep := map[string]any{"tier": tier, "harness": h.name, "package": "verif/harness/p/" + pk, "property": prop, "message": v.Msg,
				"inputs": v.Inputs, "schedule": v.Trace, "decisions": v.Dec}
			j, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(file, j, 0o644)
			conf := confirm(p, h, cfg, v, natBin, natErr, file, seed)
			if strings.HasPrefix(conf, "not reproduced") {
				r.Unconfirmed = append(r.Unconfirmed, v.Msg+": "+conf)
				fmt.Printf("NOTE: %s: counterexample %q %s\n", h.name, v.Msg, conf)
				continue
			}
			nViol++
			viols = append(viols, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, file))
			fmt.Printf("%s: %s\n   inputs %s\n   %s\n", h.name, v.Msg, fmtInputs(v.Inputs), conf)
			fmt.Println(viols[len(viols)-1])
		}
		if *flagV || len(r.Reduced) > 0 || len(r.Unreached) > 0 || r.Mismatch > 0 {
			fmt.Println(r.line())
		}
	}
	writeEvidence(evid, prop, tier, seed, results, meta, t0, nViol, nil)
	if nViol > 0 {
		return 1
	}
	fmt.Printf("property=%s tier=%s held on everything explored (%d harnesses, %.1fs)\n", prop, tier, len(results), time.Since(t0).Seconds())
	return 0
}

func (r *hResult) line() string {
	s := fmt.Sprintf("  %s: paths=%d done=%d infeasible=%d pruned=%d queries=%d (%.1fs) asserts=%d smt=%d steps=%d native=%d/%d exhausted=%v wall=%.1fs",
		r.Name, r.Paths, r.Complete, r.Infeasible, r.Pruned, r.Queries, r.SolverS, r.Asserts, r.AssertsSMT, r.Steps, r.Validated, r.Mismatch, r.Exhausted, r.Wall)
	for _, k := range sortedKeys(r.Reduced) {
		s += fmt.Sprintf("\n     reduced: %s (x%d)", k, r.Reduced[k])
	}
	if len(r.Unreached) > 0 {
		s += fmt.Sprintf("\n     labels not reached: %v", r.Unreached)
	}
	for _, m := range r.MismatchTxt {
		s += "\n     native mismatch: " + m
	}
	return s
}

func fmtInputs(is []InputVal) string {
	var sb strings.Builder
	for i, x := range is {
		if i > 60 {
			sb.WriteString(" ...")
			break
		}
		if i > 0 {
			sb.WriteString(" ")
		}
		switch x.Kind {
		case "string", "bytes":
			b := make([]byte, len(x.S)/2)
			fmt.Sscanf(x.S, "%x", &b)
			fmt.Fprintf(&sb, "%s=%q", x.Name, b)
		case "int", "int64", "int32", "int16", "int8":
			fmt.Fprintf(&sb, "%s=%d", x.Name, int64(x.V))
		case "float64":
			fmt.Fprintf(&sb, "%s=%v", x.Name, fval(x.V, SF64))
		default:
			fmt.Fprintf(&sb, "%s=%d", x.Name, x.V)
		}
	}
	return sb.String()
}

func summarise(h *harnessInfo, cfg *HConfig, ex *Explorer) *hResult {
	r := &hResult{Name: h.name, What: h.explain, Paths: ex.Paths, Complete: ex.Done, Infeasible: ex.Infeas, Pruned: ex.Pruned,
		Queries: int(ex.Stats.Queries), Sat: int(ex.Stats.Sat), Unsat: int(ex.Stats.Unsat), Unknown: int(ex.Stats.Unknown),
		SolverS: ex.Stats.Time.Seconds(), Asserts: ex.Asserts, AssertsSMT: ex.AssertsSMT, Forks: ex.Forks, Steps: ex.Steps,
		Reached: ex.Reached, Reduced: map[string]int{}, Wall: ex.Wall.Seconds(), viol: ex.Viol, samples: ex.Samples, funcs: ex.Funcs, switches: ex.Switches}
	for n := range ex.Notes {
		r.Bounds = append(r.Bounds, n)
	}
	if cfg.Delays >= 0 {
		r.Bounds = append(r.Bounds, fmt.Sprintf("at most %d deviations from round robin scheduling", cfg.Delays))
	}
	if cfg.Lazy {
		r.Bounds = append(r.Bounds, "time passes only when nothing else can happen")
	}
	if cfg.Preempt >= 0 {
		r.Bounds = append(r.Bounds, fmt.Sprintf("at most %d preemptive context switches", cfg.Preempt))
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("at most %d instructions per path", cfg.Fuel))
	sort.Strings(r.Bounds)
	for k, v := range ex.Unsup {
		r.Reduced["not encoded: "+k] += v
	}
	for k, v := range ex.FuelCut {
		r.Reduced["cut: "+k] += v
	}
	if ex.UnknownN > 0 {
		for k, v := range ex.UnknownAt {
			r.Reduced["no answer: "+k] += v
		}
	}
	if ex.solverErrs > 0 {
		r.Reduced["solver errors"] += ex.solverErrs
	}
	if ex.Incomplete {
		r.Reduced["time or path budget exhausted before all paths"]++
	}
	r.Exhausted = len(r.Reduced) == 0
	for _, l := range h.labels {
		if ex.Reached[l] == 0 {
			r.Unreached = append(r.Unreached, l)
		}
	}
	return r
}

// ---- native replay ----

func buildReplay(dir, pk string, hs []*harnessInfo, tmp string, race bool) (string, error) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package main\n\nimport (\n\t\"verif/harness/vsym\"\n\tp \"verif/harness/p/%s\"\n)\n\nfunc main() {\n\tvsym.Main(map[string]func(){\n", pk)
	for _, h := range hs {
		fmt.Fprintf(&b, "\t\t%q: p.%s,\n", h.name, h.name)
	}
	b.WriteString("\t})\n}\n")
	src := filepath.Join(tmp, "main.go")
	if err := os.WriteFile(src, b.Bytes(), 0o644); err != nil {
		return "", err
	}
	virt := filepath.Join(dir, "zz_replay_"+pk, "main.go")
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{virt: src}})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	bin := filepath.Join(tmp, "replay")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	env := goEnv()
	if race {
		bin += "-race"
		args = []string{"build", "-race", "-overlay", ovf, "-o", bin}
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, "verif/harness/zz_replay_"+pk)
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = dir
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

type natResult struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func runNative(bin, harness, file string, timeout time.Duration) natResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, harness, file)
	cmd.Dir = filepath.Dir(bin)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "TZ=UTC")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	for _, l := range strings.Split(out.String(), "\n") {
		if s, ok := strings.CutPrefix(l, "VSYM-RESULT "); ok {
			var r natResult
			if json.Unmarshal([]byte(s), &r) == nil {
				return r
			}
		}
	}
	if ctx.Err() != nil {
		return natResult{Status: "hang", Msg: "no result within " + timeout.String()}
	}
	e := errb.String()
	if i := strings.Index(e, "panic: "); i >= 0 {
		return natResult{Status: "panic", Msg: firstLine(e[i:])}
	}
	if i := strings.Index(e, "fatal error: "); i >= 0 {
		return natResult{Status: "panic", Msg: firstLine(e[i:])}
	}
	if err == nil {
		return natResult{Status: "exit", Msg: "exit 0 without result"}
	}
	return natResult{Status: "exit", Msg: err.Error() + " " + firstLine(e)}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func writeInputs(file, tier string, in []InputVal) {
	j, _ := json.Marshal(map[string]any{"tier": tier, "inputs": in})
	os.WriteFile(file, j, 0o644)
}

// validate replays sampled paths of a clean exploration against the real build.
func validate(bin string, h *harnessInfo, r *hResult, tmp, tier string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i, s := range r.samples {
		wg.Add(1)
		go func(i int, s PathSample) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			f := filepath.Join(tmp, fmt.Sprintf("s-%s-%d.json", h.name, i))
			writeInputs(f, tier, s.Inputs)
			n := runNative(bin, h.name, f, 20*time.Second)
			mu.Lock()
			defer mu.Unlock()
			if n.Status == "ok" && eqStrs(n.Obs, s.Obs) {
				r.Validated++
				return
			}
			r.Mismatch++
			if len(r.MismatchTxt) < 4 {
				r.MismatchTxt = append(r.MismatchTxt, fmt.Sprintf("inputs %s: native %s %s obs=%q, executor obs=%q", fmtInputs(s.Inputs), n.Status, n.Msg, n.Obs, s.Obs))
			}
		}(i, s)
	}
	wg.Wait()
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// confirm re-establishes a counterexample: natively for a sequential harness,
// by a deterministic re-execution of the recorded schedule otherwise.
func confirm(p *Program, h *harnessInfo, cfg *HConfig, v Violation, bin string, berr error, file string, seed int64) string {
	if !cfg.NoNative && berr == nil {
		// more than once: the real build picks its own schedules, and its own
		// orders of the entries of maps
		n := 60
		if v.Sched {
			n = 25
		}
		last := natResult{}
		for i := 0; i < n; i++ {
			last = runNative(bin, h.name, file, 20*time.Second)
			if last.Status == "violation" || last.Status == "panic" || last.Status == "hang" {
				return fmt.Sprintf("reproduced on the real build (run %d): %s %s", i+1, last.Status, last.Msg)
			}
		}
		if !v.Sched {
			return fmt.Sprintf("not reproduced on the real build (%s %s)", last.Status, last.Msg)
		}
	}
	ex := NewExplorer(p, cfg, h.fn, seed)
	vals := map[string]uint64{}
	for _, i := range v.Inputs {
		vals[i.Name] = i.V
	}
	ex.OneJob = &job{prefix: v.Dec, vals: v.Vals}
	ex.Run(1)
	for _, w := range ex.Viol {
		if w.Msg == v.Msg {
			return "reproduced by re-executing the recorded schedule on the code's SSA"
		}
	}
	return "not reproduced when the recorded schedule was executed again"
}

func writeEvidence(file, prop, tier string, seed int64, rs []*hResult, meta propMeta, t0 time.Time, nViol int, extra []string) {
	var states, trans int64
	var validated, mism int
	var queries, unsat, sat, unk int
	var solver float64
	funcs := map[string]bool{}
	var samples []any
	exhaustive := len(rs) > 0
	for _, r := range rs {
		states += r.Paths
		trans += r.Forks + r.switches
		validated += r.Validated
		mism += r.Mismatch
		queries += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unknown
		solver += r.SolverS
		if !r.Exhausted {
			exhaustive = false
		}
		for f := range r.funcs {
			if !strings.HasPrefix(f, harnessPrefix) && !strings.Contains(f, harnessPrefix) {
				funcs[f] = true
			}
		}
		for i, s := range r.samples {
			if i >= 3 {
				break
			}
			samples = append(samples, map[string]any{"harness": r.Name, "inputs": fmtInputs(s.Inputs), "observed": s.Obs})
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []any{}
	}
	e := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"native_mismatches": mism, "exhaustive": exhaustive,
			"functions_encoded": fl, "solver": solverBin, "solver_queries": queries, "solver_sat": sat, "solver_unsat": unsat, "solver_unknown": unk,
			"solver_s": solver, "harnesses": rs, "outside_the_claim": append(meta.outside, extra...),
			"explanation": "states: symbolic paths (each stands for every input satisfying its path condition); transitions: solver-decided forks plus scheduling decisions.",
		},
		"assumptions": append([]string{}, meta.assumptions...),
		"wall_s":      time.Since(t0).Seconds(), "violations": nViol,
	}
	j, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		panic(err)
	}
	os.WriteFile(file, j, 0o644)
}
