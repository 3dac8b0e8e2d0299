package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int64
	Time                         time.Duration
}

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	w       *bufio.Writer
	wc      io.Closer
	r       *bufio.Reader
	stack   []*Term
	defs    [][]*Term // per level (index 0 = base level)
	defined map[*Term]bool
	vars    [][]*Term
	timeout int // ms
	Stats   SolverStats
	trace   io.Writer
	errs    int
}

func NewSolver(bin string, timeoutMS int) (*Solver, error) {
	s := &Solver{bin: bin, timeout: timeoutMS}
	if p := os.Getenv("VSYM_SMT_TRACE"); p != "" {
		f, _ := os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
		s.trace = f
	}
	return s, s.start()
}

func (s *Solver) start() error {
	var args []string
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	} else {
		// give the incremental core a moment only: bit-blasting from scratch is much
		// faster on anything it does not decide at once
		args = []string{"-in", "-smt2", "combined_solver.solver2_timeout=20"}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.w = bufio.NewWriterSize(in, 1<<16)
	s.wc = in
	s.r = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.defs = [][]*Term{nil}
	s.defined = map[*Term]bool{}
	if strings.Contains(s.bin, "cvc5") {
		s.send("(set-logic ALL)")
	} else {
		s.send("(set-option :produce-models true)")
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.wc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	if err := s.start(); err != nil {
		panic(fmt.Sprint("solver restart: ", err))
	}
}

func (s *Solver) send(x string) {
	s.w.WriteString(x)
	s.w.WriteByte('\n')
	if s.trace != nil {
		fmt.Fprintln(s.trace, x)
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return varName(t)
	}
	return "t" + strconv.Itoa(int(t.id))
}

// define emits the definitions t needs at the current level.
func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t] {
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	s.defined[t] = true
	lv := len(s.defs) - 1
	s.defs[lv] = append(s.defs[lv], t)
	if t.op == OVar {
		s.send("(declare-const " + varName(t) + " " + sortStr(t.w) + ")")
		return
	}
	var sb strings.Builder
	sb.WriteString("(define-fun ")
	sb.WriteString(s.ref(t))
	sb.WriteString(" () ")
	sb.WriteString(sortStr(t.w))
	sb.WriteString(" ")
	if t.op == OSum {
		var parts []string
		for i, a := range t.args {
			c := t.coef[i]
			if c == 1 {
				parts = append(parts, s.ref(a))
			} else if c == maskW(t.w) {
				parts = append(parts, "(bvneg "+s.ref(a)+")")
			} else {
				parts = append(parts, "(bvmul "+bvConst(c, t.w)+" "+s.ref(a)+")")
			}
		}
		if t.k != 0 {
			parts = append(parts, bvConst(t.k, t.w))
		}
		if len(parts) == 1 {
			sb.WriteString(parts[0])
		} else {
			e := parts[0]
			for _, p := range parts[1:] {
				e = "(bvadd " + e + " " + p + ")"
			}
			sb.WriteString(e)
		}
	} else {
		sb.WriteString("(" + t.head())
		for _, a := range t.args {
			sb.WriteString(" ")
			sb.WriteString(s.ref(a))
		}
		sb.WriteString(")")
	}
	sb.WriteString(")")
	s.send(sb.String())
}

func bvConst(v uint64, w uint8) string { return fmt.Sprintf("(_ bv%d %d)", v, w) }

func (s *Solver) push() {
	s.send("(push 1)")
	s.defs = append(s.defs, nil)
}
func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	s.send(fmt.Sprintf("(pop %d)", n))
	for i := 0; i < n; i++ {
		lv := len(s.defs) - 1
		for _, t := range s.defs[lv] {
			delete(s.defined, t)
		}
		s.defs = s.defs[:lv]
	}
}

func (s *Solver) syncTo(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	s.pop(len(s.stack) - k)
	s.stack = s.stack[:k]
	for _, t := range pc[k:] {
		s.push()
		s.define(t)
		s.send("(assert " + s.ref(t) + ")")
		s.stack = append(s.stack, t)
	}
}

type SatResult int

const (
	Unknown SatResult = iota
	Sat
	Unsat
)

// Check decides pc ∧ extra. With a sat answer the values of vars are returned.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (SatResult, map[string]uint64) {
	t0 := time.Now()
	defer func() {
		s.Stats.Time += time.Since(t0)
		s.Stats.Queries++
	}()
	s.syncTo(pc)
	if extra != nil {
		s.push()
		s.define(extra)
		s.send("(assert " + s.ref(extra) + ")")
	}
	s.send("(check-sat)")
	s.w.Flush()
	line, err := s.readLine()
	if err != nil {
		s.Stats.Unknown++
		s.restart()
		return Unknown, nil
	}
	res := Unknown
	var vals map[string]uint64
	switch line {
	case "sat":
		res = Sat
		s.Stats.Sat++
		vals = map[string]uint64{}
		var have []*Term
		for _, v := range vars {
			if s.defined[v] {
				have = append(have, v)
			}
		}
		if len(have) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range have {
				sb.WriteString(varName(v))
				sb.WriteByte(' ')
			}
			sb.WriteString("))")
			s.send(sb.String())
			s.w.Flush()
			txt, err := s.readSexp()
			if err != nil || !parseValues(txt, have, vals) {
				fmt.Fprintln(os.Stderr, "solver: bad model:", txt, err)
				s.errs++
				s.restart()
				return Unknown, nil
			}
		}
	case "unsat":
		res = Unsat
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
		if strings.HasPrefix(line, "(error") {
			s.errs++
			fmt.Fprintln(os.Stderr, "solver:", line)
			s.restart()
			return Unknown, nil
		}
	}
	if extra != nil {
		s.pop(1)
	}
	return res, vals
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.r.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	quoted := false
	for {
		c, err := s.r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		sb.WriteByte(c)
		if c == '|' {
			quoted = !quoted
		}
		if quoted {
			continue
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

// tokens of an s-expression
func sexpTokens(x string) []string {
	var out []string
	i := 0
	for i < len(x) {
		c := x[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(x[i+1:], '|')
			out = append(out, x[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(x) && !strings.ContainsRune(" \n\t\r()", rune(x[j])) {
				j++
			}
			out = append(out, x[i:j])
			i = j
		}
	}
	return out
}

func parseValues(txt string, vars []*Term, vals map[string]uint64) bool {
	tk := sexpTokens(txt)
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[varName(v)] = v
	}
	i := 1
	for i < len(tk) && tk[i] == "(" {
		i++
		name := tk[i]
		i++
		v := byName[name]
		if v == nil {
			v = byName["|"+name+"|"]
		}
		if v == nil {
			return false
		}
		// value: token or parenthesised
		var val []string
		if tk[i] == "(" {
			d := 0
			for {
				val = append(val, tk[i])
				if tk[i] == "(" {
					d++
				}
				if tk[i] == ")" {
					d--
				}
				i++
				if d == 0 {
					break
				}
			}
		} else {
			val = []string{tk[i]}
			i++
		}
		i++ // closing
		u, ok := parseVal(val, v.w)
		if !ok {
			return false
		}
		vals[v.name] = u
	}
	return true
}

func parseBits(s string) (uint64, int, bool) {
	if strings.HasPrefix(s, "#x") {
		u, err := strconv.ParseUint(s[2:], 16, 64)
		return u, 4 * (len(s) - 2), err == nil
	}
	if strings.HasPrefix(s, "#b") {
		u, err := strconv.ParseUint(s[2:], 2, 64)
		return u, len(s) - 2, err == nil
	}
	return 0, 0, false
}

func parseVal(val []string, w uint8) (uint64, bool) {
	if len(val) == 1 {
		switch val[0] {
		case "true":
			return 1, true
		case "false":
			return 0, true
		}
		u, _, ok := parseBits(val[0])
		return u, ok
	}
	// (fp #b0 #b... #x...) or (_ +zero 11 53) or (_ bvN w)
	if val[1] == "fp" {
		s, _, o1 := parseBits(val[2])
		e, _, o2 := parseBits(val[3])
		m, _, o3 := parseBits(val[4])
		if !(o1 && o2 && o3) {
			return 0, false
		}
		if w == SF32 {
			return s<<31 | e<<23 | m, true
		}
		return s<<63 | e<<52 | m, true
	}
	if val[1] == "_" {
		x := val[2]
		sh := uint(52)
		ew := uint(11)
		if w == SF32 {
			sh, ew = 23, 8
		}
		inf := ((uint64(1) << ew) - 1) << sh
		switch x {
		case "+zero":
			return 0, true
		case "-zero":
			return uint64(1) << (sh + ew), true
		case "+oo":
			return inf, true
		case "-oo":
			return inf | uint64(1)<<(sh+ew), true
		case "NaN":
			return inf | uint64(1)<<(sh-1), true
		}
		if strings.HasPrefix(x, "bv") {
			u, err := strconv.ParseUint(x[2:], 10, 64)
			return u, err == nil
		}
	}
	return 0, false
}
