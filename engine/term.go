package main

// Hash-consed SMT terms over Bool, BitVec(1..64) and Float64/Float32, with a
// light-weight simplifier: linear normal form for bit-vector sums (which is
// sound modulo 2^w), interval reasoning and local rewriting.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OSum // k + sum coef[i]*args[i]
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBvAnd
	OBvOr
	OBvXor
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // low k bits start at coef[0]
	OZext
	OSext
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OFIsNaN
	OFOfBits // bv64 -> f64 / bv32 -> f32
	OFOfSBV  // signed bv -> fp (RNE)
	OFOfUBV  // unsigned bv -> fp
	OFToFP   // fp -> fp of other width
	OFToSBV  // fp -> signed bv (RTZ)
	OFToUBV  // fp -> unsigned bv (RTZ)
	OFSqrt
	OFRound // round to integral, k: 0 RTZ,1 RTN(floor),2 RTP(ceil), 3 RNE, 4 RNA
	OFAbs
)

const (
	SBool = 0
	SF64  = 65
	SF32  = 66
)

type Term struct {
	op   Op
	w    uint8 // sort
	id   int32
	k    uint64
	args []*Term
	coef []uint64
	name string
	// unsigned and signed ranges (BV only)
	ulo, uhi uint64
	slo, shi int64
	// evaluation memo
	evGen int64
	evVal uint64
	// emission
	emitGen int64
	uses    int8
}

type TermDB struct {
	tab    map[string]*Term
	nextID int32
	vars   map[string]*Term
	True   *Term
	False  *Term
	keybuf []byte
}

func NewTermDB() *TermDB {
	d := &TermDB{tab: map[string]*Term{}, vars: map[string]*Term{}}
	d.True = d.mk(&Term{op: OConst, w: SBool, k: 1})
	d.False = d.mk(&Term{op: OConst, w: SBool, k: 0})
	return d
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func signExt(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (d *TermDB) mk(t *Term) *Term {
	b := d.keybuf[:0]
	b = append(b, byte(t.op), t.w)
	b = appU64(b, t.k)
	for _, a := range t.args {
		b = append(b, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	for _, c := range t.coef {
		b = appU64(b, c)
	}
	b = append(b, t.name...)
	d.keybuf = b
	if o, ok := d.tab[string(b)]; ok {
		return o
	}
	t.id = d.nextID
	d.nextID++
	t.ranges()
	d.tab[string(b)] = t
	return t
}

func appU64(b []byte, v uint64) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
}

func (t *Term) isBV() bool    { return t.w >= 1 && t.w <= 64 }
func (t *Term) isFP() bool    { return t.w == SF64 || t.w == SF32 }
func (t *Term) IsConst() bool { return t.op == OConst }

func minS(w uint8) int64 { return -(int64(1) << (w - 1)) }
func maxS(w uint8) int64 { return int64(maskW(w) >> 1) }

// ranges computes the intervals of t from those of its arguments.
func (t *Term) ranges() {
	if !t.isBV() {
		return
	}
	w := t.w
	m := maskW(w)
	if t.op == OVar && t.uhi|t.ulo|uint64(t.slo)|uint64(t.shi) != 0 {
		return // declared
	}
	t.ulo, t.uhi = 0, m
	t.slo, t.shi = minS(w), maxS(w)
	switch t.op {
	case OConst:
		t.ulo, t.uhi = t.k, t.k
		t.slo = signExt(t.k, w)
		t.shi = t.slo
		return
	case OIte:
		a, b := t.args[1], t.args[2]
		t.ulo, t.uhi = min(a.ulo, b.ulo), max(a.uhi, b.uhi)
		t.slo, t.shi = min(a.slo, b.slo), max(a.shi, b.shi)
		return
	case OZext:
		t.setU(t.args[0].ulo, t.args[0].uhi)
		return
	case OSext:
		t.setS(t.args[0].slo, t.args[0].shi)
		return
	case OExtract:
		a := t.args[0]
		if t.coef[0] == 0 && a.uhi <= m {
			t.setU(a.ulo, a.uhi)
		} else if t.coef[0] == 0 && a.slo >= minS(w) && a.shi <= maxS(w) {
			t.setS(a.slo, a.shi)
		}
		return
	case OURem:
		if t.args[1].ulo > 0 {
			t.setU(0, min(t.args[1].uhi-1, t.args[0].uhi))
		}
	case OUDiv:
		if b := t.args[1]; b.ulo > 0 {
			t.setU(t.args[0].ulo/b.uhi, t.args[0].uhi/b.ulo)
		}
	case OSDiv:
		a, b := t.args[0], t.args[1]
		if b.slo > 0 {
			if a.slo >= 0 {
				t.setS(a.slo/b.shi, a.shi/b.slo)
			} else {
				t.setS(a.slo/b.slo, max(a.shi/b.slo, 0))
			}
		}
	case OSRem:
		a, b := t.args[0], t.args[1]
		if b.slo > 0 {
			lo, hi := -(b.shi - 1), b.shi-1
			if a.slo >= 0 {
				lo = 0
				hi = min(hi, a.shi)
			}
			if a.shi <= 0 {
				hi = 0
				lo = max(lo, a.slo)
			}
			t.setS(lo, hi)
		}
	case OBvAnd:
		t.setU(0, min(t.args[0].uhi, t.args[1].uhi))
	case OLshr:
		if s := t.args[1]; s.op == OConst && s.k < 64 {
			t.setU(t.args[0].ulo>>s.k, t.args[0].uhi>>s.k)
		}
	case OBvOr, OBvXor:
		n := bits.Len64(t.args[0].uhi | t.args[1].uhi)
		if n < 64 {
			t.setU(0, (uint64(1)<<n)-1)
		}
	case OSum:
		// exact integer range with signed coefficients
		if w == 64 || w < 64 {
			lo, hi, ok := sumRange(t, false)
			if ok && lo >= 0 && (w >= 64 || uint64(hi) <= m) {
				t.setU(uint64(lo), uint64(hi))
			}
			lo, hi, ok = sumRange(t, true)
			if ok && lo >= minS(w) && hi <= maxS(w) {
				t.setS(lo, hi)
			}
		}
	}
}

func (t *Term) setU(lo, hi uint64) {
	t.ulo, t.uhi = lo, hi
	if hi <= uint64(maxS(t.w)) {
		t.slo, t.shi = int64(lo), int64(hi)
	}
}
func (t *Term) setS(lo, hi int64) {
	t.slo, t.shi = lo, hi
	if lo >= 0 {
		t.ulo, t.uhi = uint64(lo), uint64(hi)
	}
}

const rangeCap = int64(1) << 61

// sumRange returns the exact integer range of the sum, reading coefficients and
// constant as signed w-bit numbers, and atoms as unsigned or signed.
func sumRange(t *Term, signed bool) (lo, hi int64, ok bool) {
	k := signExt(t.k, t.w)
	if k > rangeCap || k < -rangeCap {
		return 0, 0, false
	}
	lo, hi = k, k
	for i, a := range t.args {
		c := signExt(t.coef[i], t.w)
		var al, ah int64
		if signed {
			al, ah = a.slo, a.shi
		} else {
			if a.uhi > uint64(rangeCap) {
				return 0, 0, false
			}
			al, ah = int64(a.ulo), int64(a.uhi)
		}
		if c < 0 {
			al, ah = ah, al
		}
		x, ok1 := mulCap(c, al)
		y, ok2 := mulCap(c, ah)
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		lo += x
		hi += y
		if lo < -rangeCap*2 || hi > rangeCap*2-1 || lo > rangeCap || hi < -rangeCap {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

func mulCap(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = -ua
	}
	if b < 0 {
		ub = -ub
	}
	h, l := bits.Mul64(ua, ub)
	if h != 0 || l > uint64(rangeCap) {
		return 0, false
	}
	if (a < 0) != (b < 0) {
		return -int64(l), true
	}
	return int64(l), true
}

// ---- constructors ----

func (d *TermDB) BV(v uint64, w uint8) *Term {
	return d.mk(&Term{op: OConst, w: w, k: v & maskW(w)})
}
func (d *TermDB) Bool(b bool) *Term {
	if b {
		return d.True
	}
	return d.False
}
func (d *TermDB) F64(f float64) *Term {
	if f != f {
		f = math.NaN()
	}
	return d.mk(&Term{op: OConst, w: SF64, k: math.Float64bits(f)})
}
func (d *TermDB) F32(f float32) *Term {
	if f != f {
		f = float32(math.NaN())
	}
	return d.mk(&Term{op: OConst, w: SF32, k: uint64(math.Float32bits(f))})
}

func (d *TermDB) Var(name string, w uint8) *Term {
	key := fmt.Sprintf("%s/%d", name, w)
	if t, ok := d.vars[key]; ok {
		return t
	}
	t := d.mk(&Term{op: OVar, w: w, name: key})
	d.vars[key] = t
	return t
}

// VarS declares a signed variable with range [lo,hi]; the caller must also
// assert the range to the solver.
func (d *TermDB) VarS(name string, w uint8, lo, hi int64) *Term {
	key := fmt.Sprintf("%s/%d/%d/%d", name, w, lo, hi)
	if t, ok := d.vars[key]; ok {
		return t
	}
	t := &Term{op: OVar, w: w, name: key}
	t.ulo, t.uhi = 0, maskW(w)
	t.setS(lo, hi)
	t = d.mk(t)
	d.vars[key] = t
	return t
}

func (d *TermDB) VarU(name string, w uint8, lo, hi uint64) *Term {
	key := fmt.Sprintf("%s/%d/u%d/%d", name, w, lo, hi)
	if t, ok := d.vars[key]; ok {
		return t
	}
	t := &Term{op: OVar, w: w, name: key}
	t.slo, t.shi = minS(w), maxS(w)
	t.setU(lo, hi)
	t = d.mk(t)
	d.vars[key] = t
	return t
}

func (d *TermDB) Not(a *Term) *Term {
	if a.op == OConst {
		return d.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	// push negation into orderings
	switch a.op {
	case OUlt:
		return d.Ule(a.args[1], a.args[0])
	case OUle:
		return d.Ult(a.args[1], a.args[0])
	case OSlt:
		return d.Sle(a.args[1], a.args[0])
	case OSle:
		return d.Slt(a.args[1], a.args[0])
	}
	return d.mk(&Term{op: ONot, w: SBool, args: []*Term{a}})
}

func (d *TermDB) nary(op Op, absorb, unit *Term, xs []*Term) *Term {
	var flat []*Term
	for _, x := range xs {
		if x == absorb {
			return absorb
		}
		if x == unit {
			continue
		}
		if x.op == op {
			flat = append(flat, x.args...)
		} else {
			flat = append(flat, x)
		}
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	out := flat[:0]
	for i, x := range flat {
		if i > 0 && flat[i-1] == x {
			continue
		}
		out = append(out, x)
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	set := make(map[*Term]bool, len(out))
	for _, x := range out {
		set[x] = true
	}
	for _, x := range out {
		if x.op == ONot && set[x.args[0]] {
			return absorb
		}
	}
	return d.mk(&Term{op: op, w: SBool, args: append([]*Term(nil), out...)})
}
func (d *TermDB) And(xs ...*Term) *Term { return d.nary(OAnd, d.False, d.True, xs) }
func (d *TermDB) Or(xs ...*Term) *Term  { return d.nary(OOr, d.True, d.False, xs) }

func (d *TermDB) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == SBool {
		if a == d.True && b == d.False {
			return c
		}
		if a == d.False && b == d.True {
			return d.Not(c)
		}
		if a == d.True {
			return d.Or(c, b)
		}
		if a == d.False {
			return d.And(d.Not(c), b)
		}
		if b == d.True {
			return d.Or(d.Not(c), a)
		}
		if b == d.False {
			return d.And(c, a)
		}
	}
	if c.op == ONot {
		return d.Ite(c.args[0], b, a)
	}
	return d.mk(&Term{op: OIte, w: a.w, args: []*Term{c, a, b}})
}

func (d *TermDB) Eq(a, b *Term) *Term {
	if a == b {
		return d.True // note: for FP sorts this is structural equality
	}
	if a.op == OConst && b.op == OConst {
		return d.Bool(a.k == b.k)
	}
	if a.w == SBool {
		if a.op == OConst {
			a, b = b, a
		}
		if b == d.True {
			return a
		}
		if b == d.False {
			return d.Not(a)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.isBV() {
		if a.uhi < b.ulo || b.uhi < a.ulo || a.shi < b.slo || b.shi < a.slo {
			return d.False
		}
		if b.op == OConst {
			switch a.op {
			case OZext:
				return d.Eq(a.args[0], d.BV(b.k, a.args[0].w))
			case OSext:
				n := d.BV(b.k, a.args[0].w)
				if uint64(signExt(n.k, n.w))&maskW(a.w) != b.k {
					return d.False
				}
				return d.Eq(a.args[0], n)
			case OIte:
				if a.args[1].op == OConst || a.args[2].op == OConst {
					return d.Ite(a.args[0], d.Eq(a.args[1], b), d.Eq(a.args[2], b))
				}
			case OSum:
				if len(a.args) == 1 && a.coef[0] == 1 {
					return d.Eq(a.args[0], d.BV(b.k-a.k, a.w))
				}
			}
		}
		if a.op == OSum || b.op == OSum {
			df := d.Sub(a, b)
			if df.op == OConst {
				return d.Bool(df.k == 0)
			}
			if !(df == a && b.op == OConst && b.k == 0) {
				// canonical orientation: sum == const
				if df.op == OSum {
					k := d.BV(-df.k, df.w)
					l := d.AddK(df, -df.k)
					if l.uhi < k.k || l.ulo > k.k {
						return d.False
					}
					if l.op == OSum {
						if l.coef[0]>>63 != 0 || (l.w < 64 && l.coef[0]>>(l.w-1)&1 != 0) {
							l = d.MulK(l, ^uint64(0))
							k = d.BV(-k.k, k.w)
						}
						return d.mk(&Term{op: OEq, w: SBool, args: []*Term{l, k}})
					}
					return d.Eq(l, k)
				}
			}
		}
		if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
			return d.Eq(a.args[0], b.args[0])
		}
		if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
			return d.Eq(a.args[0], b.args[0])
		}
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return d.mk(&Term{op: OEq, w: SBool, args: []*Term{a, b}})
}

// mkSum builds the canonical linear combination.
func (d *TermDB) mkSum(w uint8, k uint64, args []*Term, coef []uint64) *Term {
	m := maskW(w)
	k &= m
	type ac struct {
		a *Term
		c uint64
	}
	var xs []ac
	for i, a := range args {
		xs = append(xs, ac{a, coef[i] & m})
	}
	sort.SliceStable(xs, func(i, j int) bool { return xs[i].a.id < xs[j].a.id })
	var oa []*Term
	var oc []uint64
	for i := 0; i < len(xs); {
		j := i
		var c uint64
		for j < len(xs) && xs[j].a == xs[i].a {
			c += xs[j].c
			j++
		}
		c &= m
		if c != 0 {
			oa = append(oa, xs[i].a)
			oc = append(oc, c)
		}
		i = j
	}
	if len(oa) == 0 {
		return d.BV(k, w)
	}
	if len(oa) == 1 && oc[0] == 1 && k == 0 {
		return oa[0]
	}
	return d.mk(&Term{op: OSum, w: w, k: k, args: oa, coef: oc})
}

func linParts(t *Term) (k uint64, args []*Term, coef []uint64) {
	switch t.op {
	case OConst:
		return t.k, nil, nil
	case OSum:
		return t.k, t.args, t.coef
	}
	return 0, []*Term{t}, []uint64{1}
}

func (d *TermDB) AddK(a *Term, k uint64) *Term {
	ak, aa, ac := linParts(a)
	return d.mkSum(a.w, ak+k, aa, ac)
}
func (d *TermDB) Add(a, b *Term) *Term {
	ak, aa, ac := linParts(a)
	bk, ba, bc := linParts(b)
	args := append(append([]*Term{}, aa...), ba...)
	coef := append(append([]uint64{}, ac...), bc...)
	return d.mkSum(a.w, ak+bk, args, coef)
}
func (d *TermDB) Sub(a, b *Term) *Term {
	return d.Add(a, d.MulK(b, ^uint64(0)))
}
func (d *TermDB) Neg(a *Term) *Term { return d.MulK(a, ^uint64(0)) }
func (d *TermDB) MulK(a *Term, c uint64) *Term {
	ak, aa, ac := linParts(a)
	nc := make([]uint64, len(ac))
	for i := range ac {
		nc[i] = ac[i] * c
	}
	return d.mkSum(a.w, ak*c, aa, nc)
}
func (d *TermDB) Mul(a, b *Term) *Term {
	if a.op == OConst {
		return d.MulK(b, a.k)
	}
	if b.op == OConst {
		return d.MulK(a, b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return d.mk(&Term{op: OMul, w: a.w, args: []*Term{a, b}})
}

func (d *TermDB) bin(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return d.BV(evalBin(op, a.k, b.k, a.w), a.w)
	}
	m := maskW(a.w)
	switch op {
	case OUDiv:
		if b.op == OConst && b.k == 1 {
			return a
		}
		if b.ulo > 0 && a.uhi < b.ulo {
			return d.BV(0, a.w)
		}
	case OURem:
		if b.ulo > 0 && a.uhi < b.ulo {
			return a
		}
		if b.op == OConst && b.k == 1 {
			return d.BV(0, a.w)
		}
	case OSDiv:
		if b.op == OConst && b.k == 1 {
			return a
		}
		if a.slo >= 0 && b.slo > 0 {
			return d.bin(OUDiv, a, b)
		}
	case OSRem:
		if a.slo >= 0 && b.slo > 0 {
			return d.bin(OURem, a, b)
		}
	case OBvAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			// low mask covering the range
			if b.k&(b.k+1) == 0 && a.uhi <= b.k {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBvOr:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		}
		if a == b {
			return a
		}
	case OBvXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
		if b.op == OConst && b.k == m {
			return d.AddK(d.Neg(a), ^uint64(0))
		}
		if a == b {
			return d.BV(0, a.w)
		}
	case OShl:
		if b.op == OConst {
			if b.k >= uint64(a.w) {
				return d.BV(0, a.w)
			}
			return d.MulK(a, uint64(1)<<b.k)
		}
	case OLshr, OAshr:
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if op == OLshr && b.k >= uint64(a.w) {
				return d.BV(0, a.w)
			}
			if op == OLshr && b.k < 64 && a.uhi>>b.k == 0 {
				return d.BV(0, a.w)
			}
			if op == OAshr && a.slo >= 0 {
				return d.bin(OLshr, a, b)
			}
		}
	}
	return d.mk(&Term{op: op, w: a.w, args: []*Term{a, b}})
}

func evalBin(op Op, a, b uint64, w uint8) uint64 {
	m := maskW(w)
	switch op {
	case OMul:
		return a * b & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := signExt(a, w), signExt(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := signExt(a, w), signExt(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBvAnd:
		return a & b
	case OBvOr:
		return a | b
	case OBvXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		x := signExt(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	}
	panic("evalBin")
}

func (d *TermDB) Ult(a, b *Term) *Term {
	if a.uhi < b.ulo {
		return d.True
	}
	if a.ulo >= b.uhi || a == b {
		return d.False
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return d.Ult(a.args[0], b.args[0])
	}
	if a.op == OZext && b.op == OConst {
		return d.Ult(a.args[0], d.BV(b.k, a.args[0].w)) // range check above ensures b.k fits
	}
	if b.op == OZext && a.op == OConst {
		return d.Ult(d.BV(a.k, b.args[0].w), b.args[0])
	}
	return d.mk(&Term{op: OUlt, w: SBool, args: []*Term{a, b}})
}
func (d *TermDB) Ule(a, b *Term) *Term {
	if a.uhi <= b.ulo || a == b {
		return d.True
	}
	if a.ulo > b.uhi {
		return d.False
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return d.Ule(a.args[0], b.args[0])
	}
	if a.op == OZext && b.op == OConst {
		return d.Ule(a.args[0], d.BV(b.k, a.args[0].w))
	}
	if b.op == OZext && a.op == OConst {
		return d.Ule(d.BV(a.k, b.args[0].w), b.args[0])
	}
	if b.op == OConst && b.k != maskW(b.w) {
		return d.Ult(a, d.BV(b.k+1, b.w))
	}
	if a.op == OConst && a.k != 0 {
		return d.Ult(d.BV(a.k-1, a.w), b)
	}
	return d.mk(&Term{op: OUle, w: SBool, args: []*Term{a, b}})
}
func (d *TermDB) Slt(a, b *Term) *Term {
	if a.shi < b.slo {
		return d.True
	}
	if a.slo >= b.shi || a == b {
		return d.False
	}
	if a.slo >= 0 && b.slo >= 0 {
		return d.Ult(a, b)
	}
	return d.mk(&Term{op: OSlt, w: SBool, args: []*Term{a, b}})
}
func (d *TermDB) Sle(a, b *Term) *Term {
	if a.shi <= b.slo || a == b {
		return d.True
	}
	if a.slo > b.shi {
		return d.False
	}
	if a.slo >= 0 && b.slo >= 0 {
		return d.Ule(a, b)
	}
	if b.op == OConst && signExt(b.k, b.w) != maxS(b.w) {
		return d.Slt(a, d.BV(b.k+1, b.w))
	}
	if a.op == OConst && signExt(a.k, a.w) != minS(a.w) {
		return d.Slt(d.BV(a.k-1, a.w), b)
	}
	return d.mk(&Term{op: OSle, w: SBool, args: []*Term{a, b}})
}

func (d *TermDB) Extract(a *Term, lo uint64, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.op == OConst {
		return d.BV(a.k>>lo, w)
	}
	if lo == 0 {
		switch a.op {
		case OZext, OSext:
			x := a.args[0]
			if x.w == w {
				return x
			}
			if x.w > w {
				return d.Extract(x, 0, w)
			}
			if a.op == OZext {
				return d.Zext(x, w)
			}
			return d.Sext(x, w)
		case OSum:
			// low bits of a sum = sum of low bits
			na := make([]*Term, len(a.args))
			for i, x := range a.args {
				na[i] = d.Extract(x, 0, w)
			}
			return d.sumOf(w, a.k, na, a.coef)
		case OIte:
			if a.args[1].op == OConst || a.args[2].op == OConst {
				return d.Ite(a.args[0], d.Extract(a.args[1], 0, w), d.Extract(a.args[2], 0, w))
			}
		case OExtract:
			return d.Extract(a.args[0], a.coef[0], w)
		}
	} else if a.uhi>>lo == 0 {
		return d.BV(0, w)
	}
	return d.mk(&Term{op: OExtract, w: w, args: []*Term{a}, coef: []uint64{lo}})
}

func (d *TermDB) sumOf(w uint8, k uint64, args []*Term, coef []uint64) *Term {
	r := d.BV(k, w)
	for i, a := range args {
		r = d.Add(r, d.MulK(a, coef[i]))
	}
	return r
}

func (d *TermDB) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return d.BV(a.k, w)
	case OZext:
		return d.Zext(a.args[0], w)
	case OIte:
		if a.args[1].op == OConst && a.args[2].op == OConst {
			return d.Ite(a.args[0], d.Zext(a.args[1], w), d.Zext(a.args[2], w))
		}
	case OSum:
		lo, hi, ok := sumRange(a, false)
		if ok && lo >= 0 && uint64(hi) <= maskW(a.w) {
			na := make([]*Term, len(a.args))
			nc := make([]uint64, len(a.args))
			for i, x := range a.args {
				na[i] = d.Zext(x, w)
				nc[i] = uint64(signExt(a.coef[i], a.w))
			}
			return d.sumOf(w, uint64(signExt(a.k, a.w)), na, nc)
		}
	case OExtract:
		// zext(extract[0,n) x) = x when x fits
		if a.coef[0] == 0 && a.args[0].w == w && a.args[0].uhi <= maskW(a.w) {
			return a.args[0]
		}
	}
	return d.mk(&Term{op: OZext, w: w, args: []*Term{a}})
}

func (d *TermDB) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.slo >= 0 {
		return d.Zext(a, w)
	}
	switch a.op {
	case OConst:
		return d.BV(uint64(signExt(a.k, a.w)), w)
	case OSext:
		return d.Sext(a.args[0], w)
	case OIte:
		if a.args[1].op == OConst && a.args[2].op == OConst {
			return d.Ite(a.args[0], d.Sext(a.args[1], w), d.Sext(a.args[2], w))
		}
	case OSum:
		lo, hi, ok := sumRange(a, true)
		if ok && lo >= minS(a.w) && hi <= maxS(a.w) {
			na := make([]*Term, len(a.args))
			nc := make([]uint64, len(a.args))
			for i, x := range a.args {
				na[i] = d.Sext(x, w)
				nc[i] = uint64(signExt(a.coef[i], a.w))
			}
			return d.sumOf(w, uint64(signExt(a.k, a.w)), na, nc)
		}
	case OExtract:
		if a.coef[0] == 0 && a.args[0].w == w && a.args[0].slo >= minS(a.w) && a.args[0].shi <= maxS(a.w) {
			return a.args[0]
		}
	}
	return d.mk(&Term{op: OSext, w: w, args: []*Term{a}})
}

func (d *TermDB) fop(op Op, w uint8, k uint64, args ...*Term) *Term {
	allc := true
	for _, a := range args {
		if a.op != OConst {
			allc = false
		}
	}
	t := &Term{op: op, w: w, k: k, args: args}
	if allc {
		var vs [3]uint64
		for i, a := range args {
			vs[i] = a.k
		}
		if v, ok := evalF(t, vs[:]); ok {
			if w == SBool {
				return d.Bool(v != 0)
			}
			if w == SF64 {
				return d.F64(math.Float64frombits(v))
			}
			if w == SF32 {
				return d.F32(math.Float32frombits(uint32(v)))
			}
			return d.BV(v, w)
		}
	}
	switch op {
	case OFToFP:
		if args[0].w == w {
			return args[0]
		}
		// f32 -> f64 -> f32 is the identity
		if args[0].op == OFToFP && args[0].w == SF64 && args[0].args[0].w == w {
			return args[0].args[0]
		}
	case OFIsNaN:
		if args[0].op == OFOfSBV || args[0].op == OFOfUBV {
			return d.False
		}
	}
	return d.mk(t)
}

func fval(bitsv uint64, w uint8) float64 {
	if w == SF32 {
		return float64(math.Float32frombits(uint32(bitsv)))
	}
	return math.Float64frombits(bitsv)
}
func fbits(f float64, w uint8) uint64 {
	if w == SF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalF(t *Term, v []uint64) (uint64, bool) {
	var aw uint8
	if len(t.args) > 0 {
		aw = t.args[0].w
	}
	f32 := aw == SF32
	a := func() float64 { return fval(v[0], aw) }
	b := func() float64 { return fval(v[1], t.args[1].w) }
	ar := func(x float64, y float32) uint64 {
		if f32 {
			return uint64(math.Float32bits(y))
		}
		return math.Float64bits(x)
	}
	switch t.op {
	case OFAdd:
		return ar(a()+b(), float32(a())+float32(b())), true
	case OFSub:
		return ar(a()-b(), float32(a())-float32(b())), true
	case OFMul:
		return ar(a()*b(), float32(a())*float32(b())), true
	case OFDiv:
		return ar(a()/b(), float32(a())/float32(b())), true
	case OFNeg:
		return fbits(-a(), aw), true
	case OFAbs:
		return fbits(math.Abs(a()), aw), true
	case OFSqrt:
		return fbits(math.Sqrt(a()), aw), true
	case OFEq:
		return b2u(a() == b()), true
	case OFLt:
		return b2u(a() < b()), true
	case OFLe:
		return b2u(a() <= b()), true
	case OFIsNaN:
		return b2u(a() != a()), true
	case OFOfBits:
		return v[0], true
	case OFOfSBV:
		x := signExt(v[0], aw)
		if t.w == SF32 {
			return uint64(math.Float32bits(float32(x))), true
		}
		return math.Float64bits(float64(x)), true
	case OFOfUBV:
		if t.w == SF32 {
			return uint64(math.Float32bits(float32(v[0]))), true
		}
		return math.Float64bits(float64(v[0])), true
	case OFToFP:
		if t.w == SF32 {
			return uint64(math.Float32bits(float32(a()))), true
		}
		return math.Float64bits(a()), true
	case OFToSBV:
		x := math.Trunc(a())
		if !(x >= float64(minS(t.w)) && x < -float64(minS(t.w))) {
			return 0, false
		}
		return uint64(int64(x)) & maskW(t.w), true
	case OFToUBV:
		x := math.Trunc(a())
		if !(x >= 0 && x < math.Ldexp(1, int(t.w))) {
			return 0, false
		}
		return uint64(x), true
	case OFRound:
		var x float64
		switch t.k {
		case 0:
			x = math.Trunc(a())
		case 1:
			x = math.Floor(a())
		case 2:
			x = math.Ceil(a())
		case 3:
			x = math.RoundToEven(a())
		case 4:
			x = math.Round(a())
		}
		return fbits(x, aw), true
	}
	return 0, false
}

// ---- evaluation under a model ----

type Model struct {
	gen  int64
	vals map[string]uint64
}

var modelGen int64

// evalCtx evaluates terms under a model; ok=false when a partial function is
// applied outside its domain.
func (in *Interp) eval(t *Term, m *Model) (uint64, bool) {
	if t.op == OConst {
		return t.k, true
	}
	if t.evGen == m.gen {
		return t.evVal, true
	}
	if t.evGen == -m.gen {
		return 0, false
	}
	v, ok := in.eval1(t, m)
	if ok {
		t.evGen, t.evVal = m.gen, v
	} else {
		t.evGen = -m.gen
	}
	return v, ok
}

func (in *Interp) eval1(t *Term, m *Model) (uint64, bool) {
	switch t.op {
	case OVar:
		v, ok := m.vals[t.name]
		if !ok {
			// any value is fine for a variable the model leaves open, as long as
			// it satisfies its declared range
			if t.isBV() {
				v = t.ulo
				if s := signExt(v, t.w); s < t.slo || s > t.shi {
					v = uint64(t.slo) & maskW(t.w)
				}
			}
			m.vals[t.name] = v
		}
		return v, true
	case OIte:
		c, ok := in.eval(t.args[0], m)
		if !ok {
			return 0, false
		}
		if c != 0 {
			return in.eval(t.args[1], m)
		}
		return in.eval(t.args[2], m)
	case OAnd:
		for _, a := range t.args {
			v, ok := in.eval(a, m)
			if !ok {
				return 0, false
			}
			if v == 0 {
				return 0, true
			}
		}
		return 1, true
	case OOr:
		for _, a := range t.args {
			v, ok := in.eval(a, m)
			if !ok {
				return 0, false
			}
			if v != 0 {
				return 1, true
			}
		}
		return 0, true
	case OSum:
		r := t.k
		for i, a := range t.args {
			v, ok := in.eval(a, m)
			if !ok {
				return 0, false
			}
			r += t.coef[i] * v
		}
		return r & maskW(t.w), true
	}
	var vs [3]uint64
	for i, a := range t.args {
		v, ok := in.eval(a, m)
		if !ok {
			return 0, false
		}
		vs[i] = v
	}
	switch t.op {
	case ONot:
		return vs[0] ^ 1, true
	case OEq:
		if t.args[0].isFP() {
			a, b := fval(vs[0], t.args[0].w), fval(vs[1], t.args[0].w)
			if a != a && b != b {
				return 1, true
			}
		}
		return b2u(vs[0] == vs[1]), true
	case OUlt:
		return b2u(vs[0] < vs[1]), true
	case OUle:
		return b2u(vs[0] <= vs[1]), true
	case OSlt:
		return b2u(signExt(vs[0], t.args[0].w) < signExt(vs[1], t.args[0].w)), true
	case OSle:
		return b2u(signExt(vs[0], t.args[0].w) <= signExt(vs[1], t.args[0].w)), true
	case OExtract:
		return vs[0] >> t.coef[0] & maskW(t.w), true
	case OZext:
		return vs[0], true
	case OSext:
		return uint64(signExt(vs[0], t.args[0].w)) & maskW(t.w), true
	case OMul, OUDiv, OURem, OSDiv, OSRem, OBvAnd, OBvOr, OBvXor, OShl, OLshr, OAshr:
		return evalBin(t.op, vs[0], vs[1], t.w), true
	}
	return evalF(t, vs[:])
}

// ---- printing ----

func sortStr(w uint8) string {
	switch w {
	case SBool:
		return "Bool"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	case SF32:
		return "(_ FloatingPoint 8 24)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	switch t.w {
	case SBool:
		if t.k != 0 {
			return "true"
		}
		return "false"
	case SF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.k)
	case SF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.k)
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w/4), t.k)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
}

func varName(t *Term) string { return "|" + strings.ReplaceAll(t.name, "|", "!") + "|" }

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFSqrt: "fp.sqrt RNE",
	OFNeg: "fp.neg", OFAbs: "fp.abs", OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFIsNaN: "fp.isNaN",
}

func (t *Term) head() string {
	fpw := func(w uint8) string {
		if w == SF32 {
			return "8 24"
		}
		return "11 53"
	}
	switch t.op {
	case OExtract:
		return fmt.Sprintf("(_ extract %d %d)", t.coef[0]+uint64(t.w)-1, t.coef[0])
	case OZext:
		return fmt.Sprintf("(_ zero_extend %d)", t.w-t.args[0].w)
	case OSext:
		return fmt.Sprintf("(_ sign_extend %d)", t.w-t.args[0].w)
	case OFOfBits:
		return fmt.Sprintf("(_ to_fp %s)", fpw(t.w))
	case OFOfSBV, OFToFP:
		return fmt.Sprintf("(_ to_fp %s) RNE", fpw(t.w))
	case OFOfUBV:
		return fmt.Sprintf("(_ to_fp_unsigned %s) RNE", fpw(t.w))
	case OFToSBV:
		return fmt.Sprintf("(_ fp.to_sbv %d) RTZ", t.w)
	case OFToUBV:
		return fmt.Sprintf("(_ fp.to_ubv %d) RTZ", t.w)
	case OFRound:
		return "fp.roundToIntegral " + []string{"RTZ", "RTN", "RTP", "RNE", "RNA"}[t.k]
	}
	return opNames[t.op]
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(depth int) string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return t.name
	}
	if depth > 6 {
		return "..."
	}
	var sb strings.Builder
	if t.op == OSum {
		fmt.Fprintf(&sb, "(+ %d", signExt(t.k, t.w))
		for i, a := range t.args {
			fmt.Fprintf(&sb, " %d*%s", signExt(t.coef[i], t.w), a.str(depth+1))
		}
		sb.WriteString(")")
		return sb.String()
	}
	sb.WriteString("(" + t.head())
	for _, a := range t.args {
		sb.WriteString(" " + a.str(depth+1))
	}
	sb.WriteString(")")
	return sb.String()
}
