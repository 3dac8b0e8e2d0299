package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/types/typeutil"
)

// Value is one interpreted machine value (or one memory cell).
//
//	bool/int/float  n (canonical: sign- or zero-extended, float64 bits), or r=*Term
//	string          r = string | *SymStr, nil for ""
//	pointer         r = *Value (or *RType for *reflect.rtype), nil
//	slice           r = []Value, nil
//	struct/array    r = Agg
//	interface       r = *Iface, nil
//	func            r = *Closure, nil
//	map, chan       r = *MapV, *ChanV, nil
//	tuple           r = Tuple
type Value struct {
	n uint64
	r any
}

type Agg []Value
type Tuple []Value

type Iface struct {
	t types.Type // canonical
	v Value
}

type Closure struct {
	fn  *Fn
	env []Value
	nat func(in *Interp, args []Value) Value // native closure
	nm  string
}

type SymStr struct{ b []Value }

type kind uint8

const (
	kNone kind = iota
	kBool
	kI8
	kI16
	kI32
	kI64
	kU8
	kU16
	kU32
	kU64
	kF32
	kF64
	kStr
	kC64
	kC128
	kUnsafe
)

func (k kind) bits() uint8 {
	switch k {
	case kI8, kU8:
		return 8
	case kI16, kU16:
		return 16
	case kI32, kU32:
		return 32
	case kI64, kU64:
		return 64
	case kF32:
		return SF32
	case kF64:
		return SF64
	}
	return 0
}
func (k kind) signed() bool  { return k >= kI8 && k <= kI64 }
func (k kind) isInt() bool   { return k >= kI8 && k <= kU64 }
func (k kind) isFloat() bool { return k == kF32 || k == kF64 }

func kindOf(t types.Type) kind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kNone
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return kBool
	case types.Int, types.Int64, types.UntypedInt:
		return kI64
	case types.Int8:
		return kI8
	case types.Int16:
		return kI16
	case types.Int32, types.UntypedRune:
		return kI32
	case types.Uint, types.Uint64, types.Uintptr:
		return kU64
	case types.Uint8:
		return kU8
	case types.Uint16:
		return kU16
	case types.Uint32:
		return kU32
	case types.Float32:
		return kF32
	case types.Float64, types.UntypedFloat:
		return kF64
	case types.String, types.UntypedString:
		return kStr
	case types.Complex64:
		return kC64
	case types.Complex128, types.UntypedComplex:
		return kC128
	case types.UnsafePointer:
		return kUnsafe
	}
	return kNone
}

// canon brings an integer to its canonical 64-bit representation.
func canonInt(n uint64, k kind) uint64 {
	switch k {
	case kI8:
		return uint64(int64(int8(n)))
	case kI16:
		return uint64(int64(int16(n)))
	case kI32:
		return uint64(int64(int32(n)))
	case kU8:
		return uint64(uint8(n))
	case kU16:
		return uint64(uint16(n))
	case kU32:
		return uint64(uint32(n))
	}
	return n
}

func vBool(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}
func vInt(i int) Value     { return Value{n: uint64(int64(i))} }
func vI64(i int64) Value   { return Value{n: uint64(i)} }
func vF64(f float64) Value { return Value{n: math.Float64bits(f)} }
func vStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{r: s}
}

func isSym(v Value) bool {
	_, ok := v.r.(*Term)
	return ok
}

// term gives the SMT term of a scalar value of kind k.
func (in *Interp) term(v Value, k kind) *Term {
	if t, ok := v.r.(*Term); ok {
		return t
	}
	switch k {
	case kBool:
		return in.db.Bool(v.n != 0)
	case kF64:
		return in.db.F64(math.Float64frombits(v.n))
	case kF32:
		return in.db.F32(float32(math.Float64frombits(v.n)))
	}
	return in.db.BV(v.n, k.bits())
}

// val makes a value from a term.
func (in *Interp) val(t *Term, k kind) Value {
	if t.op == OConst {
		switch k {
		case kBool:
			return Value{n: t.k}
		case kF64:
			return Value{n: t.k}
		case kF32:
			return Value{n: math.Float64bits(float64(math.Float32frombits(uint32(t.k))))}
		}
		return Value{n: concInt(t.k, k)}
	}
	return Value{r: t}
}

func concInt(n uint64, k kind) uint64 { return canonInt(n, k) }

// ---- strings ----

func strLen(v Value) int {
	switch s := v.r.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case []Value: // punned byte slice
		return len(s)
	}
	panic(fmt.Sprintf("strLen: %T", v.r))
}

func concStr(v Value) (string, bool) {
	switch s := v.r.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *SymStr:
		return "", false
	case []Value:
		return concStr(bytesToStr(s))
	}
	panic(fmt.Sprintf("concStr: %T", v.r))
}

func strByte(v Value, i int) Value {
	switch s := v.r.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	case []Value:
		return s[i]
	}
	panic("strByte")
}

func strBytes(v Value) []Value {
	switch s := v.r.(type) {
	case nil:
		return nil
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i].n = uint64(s[i])
		}
		return out
	case *SymStr:
		return append([]Value(nil), s.b...)
	case []Value:
		return append([]Value(nil), s...)
	}
	panic(fmt.Sprintf("strBytes: %T", v.r))
}

func bytesToStr(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	for i := range b {
		if b[i].r != nil {
			return Value{r: &SymStr{b: append([]Value(nil), b...)}}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for i := range b {
		sb.WriteByte(byte(b[i].n))
	}
	return Value{r: sb.String()}
}

func strSlice(v Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	switch s := v.r.(type) {
	case string:
		return Value{r: s[lo:hi]}
	case *SymStr:
		return bytesToStr(s.b[lo:hi])
	case []Value:
		return bytesToStr(s[lo:hi])
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	as, ok1 := a.r.(string)
	bs, ok2 := b.r.(string)
	if ok1 && ok2 {
		return Value{r: as + bs}
	}
	return bytesToStr(append(strBytes(a), strBytes(b)...))
}

// strEq returns a value (bool) for a==b.
func (in *Interp) strEq(a, b Value) Value {
	as, ok1 := concStr(a)
	bs, ok2 := concStr(b)
	if ok1 && ok2 {
		return vBool(as == bs)
	}
	n := strLen(a)
	if n != strLen(b) {
		return vBool(false)
	}
	conds := make([]*Term, 0, n)
	for i := 0; i < n; i++ {
		t := in.db.Eq(in.term(strByte(a, i), kU8), in.term(strByte(b, i), kU8))
		if t == in.db.False {
			return vBool(false)
		}
		conds = append(conds, t)
	}
	return in.val(in.db.And(conds...), kBool)
}

// strLess returns a<b as bool value.
func (in *Interp) strLess(a, b Value) Value {
	as, ok1 := concStr(a)
	bs, ok2 := concStr(b)
	if ok1 && ok2 {
		return vBool(as < bs)
	}
	la, lb := strLen(a), strLen(b)
	n := min(la, lb)
	r := in.db.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		x, y := in.term(strByte(a, i), kU8), in.term(strByte(b, i), kU8)
		r = in.db.Or(in.db.Ult(x, y), in.db.And(in.db.Eq(x, y), r))
	}
	return in.val(r, kBool)
}

// ---- zero values ----

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func zeroOf(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := make(Agg, u.NumFields())
		for i := range a {
			ft := u.Field(i).Type()
			if isAggType(ft) {
				a[i] = zeroOf(ft)
			}
		}
		return Value{r: a}
	case *types.Array:
		a := make(Agg, u.Len())
		if isAggType(u.Elem()) {
			for i := range a {
				a[i] = zeroOf(u.Elem())
			}
		}
		return Value{r: a}
	case *types.Tuple:
		a := make(Tuple, u.Len())
		for i := range a {
			a[i] = zeroOf(u.At(i).Type())
		}
		return Value{r: a}
	case *types.Basic:
		if k := u.Kind(); k == types.Complex64 || k == types.Complex128 {
			return Value{r: complex128(0)}
		}
	}
	return Value{}
}

// copyAgg deep-copies inline aggregates.
func copyVal(v Value) Value {
	a, ok := v.r.(Agg)
	if !ok {
		return v
	}
	return Value{r: copyAgg(a)}
}
func copyAgg(a Agg) Agg {
	b := make(Agg, len(a))
	for i := range a {
		if x, ok := a[i].r.(Agg); ok {
			b[i] = Value{r: copyAgg(x)}
		} else {
			b[i] = a[i]
		}
	}
	return b
}

// ---- canonical types ----

type typeCanon struct {
	m typeutil.Map
}

func (c *typeCanon) canon(t types.Type) types.Type {
	t = types.Unalias(t)
	if x := c.m.At(t); x != nil {
		return x.(types.Type)
	}
	c.m.Set(t, t)
	return t
}

// ---- maps ----

type mapEnt struct {
	k, v Value
	h    any
	dead bool
	sh   *shadow
}

type MapV struct {
	kt, vt types.Type
	ents   []*mapEnt
	idx    map[any]*mapEnt
	nsym   int
	count  int
	epoch  int64
	sh     *shadow
}

type hashIface struct {
	t types.Type
	h any
}

type unhashable struct{ t types.Type }

// hashKey returns a comparable Go value identifying a concrete key; ok=false
// when the key has a symbolic part.
func (in *Interp) hashKey(v Value, t types.Type) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch kindOf(u) {
		case kStr:
			s, ok := concStr(v)
			return s, ok
		case kF64, kF32:
			if v.r != nil {
				return nil, false
			}
			f := math.Float64frombits(v.n)
			if f == 0 {
				return float64(0), true
			}
			return f, true
		case kUnsafe:
			return v.r, true
		case kC64, kC128:
			return v.r, true
		}
		if v.r != nil {
			return nil, false
		}
		return v.n, true
	case *types.Interface:
		if v.r == nil {
			return nil, true
		}
		i := v.r.(*Iface)
		if !types.Comparable(i.t) {
			in.rtPanic("hash of unhashable type " + i.t.String())
		}
		h, ok := in.hashKey(i.v, i.t)
		if !ok {
			return nil, false
		}
		return hashIface{i.t, h}, true
	case *types.Struct:
		a := v.r.(Agg)
		var sb strings.Builder
		for i := range a {
			h, ok := in.hashKey(a[i], u.Field(i).Type())
			if !ok {
				return nil, false
			}
			if s, ok := h.(string); ok {
				fmt.Fprintf(&sb, "%d:%s;", len(s), s)
			} else if hi, ok := h.(hashIface); ok {
				fmt.Fprintf(&sb, "%p/%T:%v;", hi.t, hi.h, hi.h)
			} else {
				fmt.Fprintf(&sb, "%T:%v;", h, h)
			}
		}
		return "S" + sb.String(), true
	case *types.Array:
		a := v.r.(Agg)
		var sb strings.Builder
		for i := range a {
			h, ok := in.hashKey(a[i], u.Elem())
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", h, h)
		}
		return "A" + sb.String(), true
	}
	return v.r, true
}

func (in *Interp) newMap(kt, vt types.Type) *MapV {
	return &MapV{kt: kt, vt: vt, idx: map[any]*mapEnt{}, epoch: in.epoch}
}

func (in *Interp) mapFind(m *MapV, k Value) *mapEnt {
	h, conc := in.hashKey(k, m.kt)
	if conc {
		if e := m.idx[h]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead || (conc && e.h != nil) {
			continue
		}
		c := in.eqVal(k, e.k, m.kt)
		if in.cond(c) {
			return e
		}
	}
	return nil
}

type nilKeyT struct{}

func (in *Interp) mapSet(m *MapV, k, v Value) {
	e := in.mapFind(m, k)
	if e != nil {
		if m.epoch != in.epoch && in.tracking {
			old := e.v
			in.trail = append(in.trail, undo{f: func() { e.v = old }})
		}
		e.v = copyVal(v)
		return
	}
	e = &mapEnt{k: copyVal(k), v: copyVal(v)}
	h, conc := in.hashKey(k, m.kt)
	if m.epoch != in.epoch && in.tracking {
		n := len(m.ents)
		oldEnts := append([]*mapEnt(nil), m.ents...)
		in.trail = append(in.trail, undo{f: func() {
			_ = n
			m.ents = oldEnts
			m.count--
			if conc {
				delete(m.idx, h)
			} else {
				m.nsym--
			}
		}})
	}
	if conc {
		if h == nil {
			e.h = nilKeyT{}
		} else {
			e.h = h
		}
		m.idx[h] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.count++
}

func (in *Interp) mapDelete(m *MapV, k Value) {
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	in.mapDelEnt(m, e)
}

func (in *Interp) mapDelEnt(m *MapV, e *mapEnt) {
	var h any
	conc := e.h != nil
	if conc {
		h = e.h
		if _, ok := h.(nilKeyT); ok {
			h = nil
		}
		delete(m.idx, h)
	} else {
		m.nsym--
	}
	e.dead = true
	m.count--
	old := m.ents
	ne := make([]*mapEnt, 0, len(old))
	for _, x := range old {
		if x != e {
			ne = append(ne, x)
		}
	}
	m.ents = ne
	if m.epoch != in.epoch && in.tracking {
		in.trail = append(in.trail, undo{f: func() {
			e.dead = false
			m.count++
			m.ents = old
			if conc {
				m.idx[h] = e
			} else {
				m.nsym++
			}
		}})
	}
}

func (in *Interp) mapClear(m *MapV) {
	for _, e := range append([]*mapEnt(nil), m.ents...) {
		in.mapDelEnt(m, e)
	}
}

type mapIter struct {
	m    *MapV
	rest []*mapEnt
	perm bool
}

type strIter struct {
	s Value
	i int
}
