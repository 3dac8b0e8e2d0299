package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// RType stands for a *reflect.rtype: one per canonical type.
type RType struct {
	t   types.Type
	mth []*types.Func // exported methods, sorted (lazily)
	ok  bool
}

// rv is the payload of a reflect.Value: an addressable cell or a plain value.
type rv struct {
	p *Value
	v Value
}

type rMapIter struct {
	m    Value // reflect.Value of the map
	it   *mapIter
	cur  *mapEnt
	init bool
}

const flRO = 1

func (in *Interp) rtype(t types.Type) *RType {
	t = in.p.canon(t)
	r := in.rtypes[t]
	if r == nil {
		r = &RType{t: t}
		in.rtypes[t] = r
	}
	return r
}

func (in *Interp) reflectType(name string) types.Type {
	rp := in.p.prog.ImportedPackage("reflect")
	return in.p.canon(rp.Type(name).Object().Type())
}

// typeVal makes a reflect.Type interface value (nil for nil).
func (in *Interp) typeVal(t types.Type) Value {
	if t == nil {
		return Value{}
	}
	pt := in.p.canon(types.NewPointer(in.reflectType("rtype")))
	return Value{r: &Iface{t: pt, v: Value{r: in.rtype(t)}}}
}

func (in *Interp) mkRV(t types.Type, p *Value, v Value, fl uint64) Value {
	return Value{r: Agg{{r: in.rtype(t)}, {r: &rv{p: p, v: v}}, {n: fl}}}
}

type rval struct {
	t  types.Type
	rv *rv
	fl uint64
}

func (in *Interp) rval(v Value) rval {
	a := v.r.(Agg)
	rt, _ := a[0].r.(*RType)
	if rt == nil {
		return rval{}
	}
	return rval{rt.t, a[1].r.(*rv), a[2].n}
}

func (x rval) get() Value {
	if x.rv.p != nil {
		return *x.rv.p
	}
	return x.rv.v
}

func (in *Interp) zeroRV() Value { return Value{r: Agg{{}, {}, {}}} }

func (in *Interp) typeOfIface(v Value) types.Type {
	i, _ := v.r.(*Iface)
	if i == nil {
		return nil
	}
	switch x := i.v.r.(type) {
	case *RType:
		return x.t
	case Agg:
		return x[0].r.(*RType).t
	}
	in.unsupported("reflect.Type implementation %T", i.v.r)
	return nil
}

func (in *Interp) rtArg(v Value) *RType {
	switch x := v.r.(type) {
	case *RType:
		return x
	case Agg:
		if r, ok := x[0].r.(*RType); ok {
			return r
		}
	}
	in.nilDeref()
	return nil
}

func (in *Interp) mkIface(t types.Type, v Value) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return Value{r: &Iface{t: in.p.canon(t), v: copyVal(v)}}
}

func rKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func rTypeString(t types.Type, full bool) string {
	q := func(p *types.Package) string {
		if full {
			return p.Path()
		}
		return p.Name()
	}
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		s := u.Obj().Name()
		if u.TypeArgs().Len() > 0 {
			var as []string
			for i := 0; i < u.TypeArgs().Len(); i++ {
				as = append(as, rTypeString(u.TypeArgs().At(i), true))
			}
			s += "[" + strings.Join(as, ",") + "]"
		}
		if p := u.Obj().Pkg(); p != nil {
			s = q(p) + "." + s
		}
		return s
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "unsafe.Pointer"
		}
		return types.Typ[u.Kind()].Name()
	case *types.Pointer:
		return "*" + rTypeString(u.Elem(), full)
	case *types.Slice:
		return "[]" + rTypeString(u.Elem(), full)
	case *types.Array:
		return "[" + strconv.FormatInt(u.Len(), 10) + "]" + rTypeString(u.Elem(), full)
	case *types.Map:
		return "map[" + rTypeString(u.Key(), full) + "]" + rTypeString(u.Elem(), full)
	case *types.Chan:
		switch u.Dir() {
		case types.SendOnly:
			return "chan<- " + rTypeString(u.Elem(), full)
		case types.RecvOnly:
			return "<-chan " + rTypeString(u.Elem(), full)
		}
		return "chan " + rTypeString(u.Elem(), full)
	case *types.Signature:
		return "func" + sigString(u, full)
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "interface {}"
		}
		var ms []string
		for i := 0; i < u.NumMethods(); i++ {
			m := u.Method(i)
			ms = append(ms, m.Name()+sigString(m.Type().(*types.Signature), full))
		}
		return "interface { " + strings.Join(ms, "; ") + " }"
	case *types.Struct:
		if u.NumFields() == 0 {
			return "struct {}"
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			s := f.Name() + " " + rTypeString(f.Type(), full)
			if f.Embedded() {
				s = rTypeString(f.Type(), full)
			}
			if u.Tag(i) != "" {
				s += " " + strconv.Quote(u.Tag(i))
			}
			fs = append(fs, s)
		}
		return "struct { " + strings.Join(fs, "; ") + " }"
	}
	return types.TypeString(t, q)
}

func sigString(s *types.Signature, full bool) string {
	var ps []string
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type()
		x := rTypeString(t, full)
		if s.Variadic() && i == s.Params().Len()-1 {
			x = "..." + rTypeString(t.(*types.Slice).Elem(), full)
		}
		ps = append(ps, x)
	}
	o := "(" + strings.Join(ps, ", ") + ")"
	switch s.Results().Len() {
	case 0:
	case 1:
		o += " " + rTypeString(s.Results().At(0).Type(), full)
	default:
		var rs []string
		for i := 0; i < s.Results().Len(); i++ {
			rs = append(rs, rTypeString(s.Results().At(i).Type(), full))
		}
		o += " (" + strings.Join(rs, ", ") + ")"
	}
	return o
}

func rTypeName(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		s := rTypeString(u, false)
		if p := u.Obj().Pkg(); p != nil {
			s = strings.TrimPrefix(s, p.Name()+".")
		}
		return s
	case *types.Basic:
		return rTypeString(u, false)
	}
	return ""
}

func (in *Interp) methods(r *RType) []*types.Func {
	if r.ok {
		return r.mth
	}
	in.p.mu.Lock()
	defer in.p.mu.Unlock()
	if it, ok := r.t.Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			r.mth = append(r.mth, it.Method(i))
		}
	} else {
		ms := types.NewMethodSet(r.t)
		for i := 0; i < ms.Len(); i++ {
			if f := ms.At(i).Obj().(*types.Func); f.Exported() {
				r.mth = append(r.mth, f)
			}
		}
	}
	sort.Slice(r.mth, func(i, j int) bool { return r.mth[i].Name() < r.mth[j].Name() })
	r.ok = true
	return r.mth
}

// setFields fills a struct value of a named library type by field name.
func setFields(t types.Type, v Value, m map[string]Value) {
	st := t.Underlying().(*types.Struct)
	a := v.r.(Agg)
	for i := 0; i < st.NumFields(); i++ {
		if x, ok := m[st.Field(i).Name()]; ok {
			a[i] = x
		}
	}
}

var sizes64 = types.SizesFor("gc", "amd64")

func (in *Interp) structField(st *types.Struct, i int, index []int) Value {
	ft := in.reflectType("StructField")
	z := zeroOf(ft)
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	if index == nil {
		index = []int{i}
	}
	var ix []Value
	for _, k := range index {
		ix = append(ix, vInt(k))
	}
	vars := make([]*types.Var, st.NumFields())
	for k := range vars {
		vars[k] = st.Field(k)
	}
	in.p.mu.Lock()
	off := sizes64.Offsetsof(vars)[i]
	in.p.mu.Unlock()
	setFields(ft, z, map[string]Value{
		"Name": vStr(f.Name()), "PkgPath": vStr(pkg), "Type": in.typeVal(f.Type()), "Tag": vStr(st.Tag(i)),
		"Offset": {n: uint64(off)}, "Index": {r: ix}, "Anonymous": vBool(f.Embedded()),
	})
	return z
}

// fieldByName follows Go's embedding rules through go/types.
func (in *Interp) fieldByName(t types.Type, name string) (idx []int, ok bool) {
	st, isS := t.Underlying().(*types.Struct)
	if !isS {
		return nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}, true
		}
	}
	var pkg *types.Package
	if n, ok := t.(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	o, ix, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	if v, isV := o.(*types.Var); isV && v.IsField() {
		return ix, true
	}
	return nil, false
}

func (in *Interp) methodStruct(r *RType, i int, t types.Type) Value {
	m := in.methods(r)[i]
	mt := in.reflectType("Method")
	z := zeroOf(mt)
	sig := m.Type().(*types.Signature)
	var fn Value = in.zeroRV()
	ft := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	if _, isI := t.Underlying().(*types.Interface); !isI {
		ps := []*types.Var{types.NewVar(token.NoPos, nil, "", t)}
		for k := 0; k < sig.Params().Len(); k++ {
			ps = append(ps, sig.Params().At(k))
		}
		ft = types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), sig.Variadic())
		f := in.methodOf(t, m.Pkg(), m.Name())
		fn = in.mkRV(ft, nil, Value{r: &Closure{fn: f}}, 0)
	}
	setFields(mt, z, map[string]Value{"Name": vStr(m.Name()), "Type": in.typeVal(ft), "Func": fn, "Index": vInt(i)})
	return z
}

// rpanic raises a panic with a *reflect.ValueError-like message.
func (in *Interp) rpanic(msg string) {
	panic(targetPanic{v: Value{r: &Iface{t: types.Typ[types.String], v: vStr(msg)}}, stack: in.where()})
}

func (in *Interp) mustKind(x rval, what string, ks ...reflect.Kind) {
	if x.t == nil {
		in.rpanic("reflect: call of reflect.Value." + what + " on zero Value")
	}
	k := rKind(x.t)
	for _, y := range ks {
		if k == y {
			return
		}
	}
	in.rpanic("reflect: call of reflect.Value." + what + " on " + k.String() + " Value")
}

func (in *Interp) mustSet(x rval, what string) {
	if x.t == nil {
		in.rpanic("reflect: call of reflect.Value." + what + " on zero Value")
	}
	if x.fl&flRO != 0 {
		in.rpanic("reflect: reflect.Value." + what + " using value obtained using unexported field")
	}
	if x.rv.p == nil {
		in.rpanic("reflect: reflect.Value." + what + " using unaddressable value")
	}
}

// rset stores with race accounting.
func (in *Interp) rset(x rval, v Value) {
	if in.sched.race {
		in.raceWrite(x.rv.p)
	}
	in.store(x.rv.p, v)
}

// assignTo converts x for assignment to type t.
func (in *Interp) assignTo(what string, x rval, t types.Type) Value {
	if x.t == nil {
		in.rpanic("reflect: call of " + what + " on zero Value")
	}
	if x.fl&flRO != 0 {
		in.rpanic("reflect: " + what + " using value obtained using unexported field")
	}
	v := x.get()
	if x.t == in.p.canon(t) {
		return copyVal(v)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, srcI := x.t.Underlying().(*types.Interface); srcI {
			if v.r == nil {
				return Value{}
			}
			if in.p.implements(in.p.canon(x.t), t) {
				return v
			}
		} else if in.p.implements(in.p.canon(x.t), t) {
			return in.mkIface(x.t, v)
		}
	} else if in.assignable(x.t, t) {
		return copyVal(v)
	}
	in.rpanic(what + ": value of type " + rTypeString(x.t, false) + " is not assignable to type " + rTypeString(t, false))
	return Value{}
}

func (in *Interp) assignable(v, t types.Type) bool {
	in.p.mu.Lock()
	defer in.p.mu.Unlock()
	return types.AssignableTo(v, t)
}

func (in *Interp) convertible(v, t types.Type) bool {
	in.p.mu.Lock()
	defer in.p.mu.Unlock()
	return types.ConvertibleTo(v, t)
}

var wide = map[reflect.Kind]types.Type{}

func (in *Interp) rfield(x rval, i int) Value {
	st := x.t.Underlying().(*types.Struct)
	if i < 0 || i >= st.NumFields() {
		in.rpanic("reflect: Field index out of range")
	}
	f := st.Field(i)
	fl := x.fl
	if !f.Exported() {
		fl |= flRO
	}
	if x.rv.p != nil {
		return in.mkRV(f.Type(), &x.rv.p.r.(Agg)[i], Value{}, fl)
	}
	return in.mkRV(f.Type(), nil, x.rv.v.r.(Agg)[i], fl)
}

func (in *Interp) relem(x rval) Value {
	switch rKind(x.t) {
	case reflect.Interface:
		i, _ := x.get().r.(*Iface)
		if i == nil {
			return in.zeroRV()
		}
		return in.mkRV(i.t, nil, i.v, x.fl)
	case reflect.Pointer:
		v := x.get()
		if v.r == nil {
			return in.zeroRV()
		}
		c, ok := v.r.(*Value)
		if !ok {
			in.unsupported("reflect Elem of %T", v.r)
		}
		return in.mkRV(x.t.Underlying().(*types.Pointer).Elem(), c, Value{}, x.fl)
	}
	in.mustKind(x, "Elem", reflect.Interface, reflect.Pointer)
	return Value{}
}

func (in *Interp) rcall(f Value, sig *types.Signature, args []Value, spread bool) []Value {
	if in.rval(f).t == nil {
		in.rpanic("reflect: call of Call on zero Value")
	}
	fx := in.rval(f)
	if fx.fl&flRO != 0 {
		in.rpanic("reflect: reflect.Value.Call using value obtained using unexported field")
	}
	n := sig.Params().Len()
	var as []Value
	get := func(v Value, t types.Type) Value { return in.assignTo("reflect.Value.Call", in.rval(v), t) }
	if sig.Variadic() && !spread {
		if len(args) < n-1 {
			in.rpanic("reflect: Call with too few input arguments")
		}
		for i := 0; i < n-1; i++ {
			as = append(as, get(args[i], sig.Params().At(i).Type()))
		}
		et := sig.Params().At(n - 1).Type().(*types.Slice).Elem()
		var rest []Value
		for _, a := range args[n-1:] {
			rest = append(rest, get(a, et))
		}
		if rest == nil {
			as = append(as, Value{})
		} else {
			as = append(as, Value{r: rest})
		}
	} else {
		if len(args) < n {
			in.rpanic("reflect: Call with too few input arguments")
		}
		if len(args) > n {
			in.rpanic("reflect: Call with too many input arguments")
		}
		for i := range args {
			as = append(as, get(args[i], sig.Params().At(i).Type()))
		}
	}
	fv := fx.get()
	if fv.r == nil {
		in.rpanic("reflect: call of nil function")
	}
	r := in.callValue(fv, as)
	var out []Value
	switch sig.Results().Len() {
	case 0:
	case 1:
		out = append(out, in.mkRV(sig.Results().At(0).Type(), nil, r, 0))
	default:
		for i, v := range r.r.(Tuple) {
			out = append(out, in.mkRV(sig.Results().At(i).Type(), nil, v, 0))
		}
	}
	return out
}

func (in *Interp) rmethod(x rval, i int) Value {
	r := in.rtype(x.t)
	ms := in.methods(r)
	if i < 0 || i >= len(ms) {
		in.rpanic("reflect: Method index out of range")
	}
	m := ms[i]
	sig := m.Type().(*types.Signature)
	ft := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	recv := copyVal(x.get())
	t := x.t
	if _, ok := t.Underlying().(*types.Interface); ok {
		ii, _ := recv.r.(*Iface)
		if ii == nil {
			in.rpanic("reflect: Method on nil interface value")
		}
		t, recv = ii.t, ii.v
	}
	fn := in.methodOf(t, m.Pkg(), m.Name())
	return in.mkRV(ft, nil, in.nat(m.Name(), func(in *Interp, a []Value) Value {
		return in.callEnv(fn, append([]Value{recv}, a...), nil)
	}), x.fl&flRO)
}

// deepEqual is reflect.DeepEqual.
func (in *Interp) deepEqual(a, b Value, t types.Type, depth int) bool {
	if depth > 5000 {
		in.unsupported("DeepEqual recursion")
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		ai, _ := a.r.(*Iface)
		bi, _ := b.r.(*Iface)
		if ai == nil || bi == nil {
			return ai == bi
		}
		if ai.t != bi.t {
			return false
		}
		return in.deepEqual(ai.v, bi.v, ai.t, depth+1)
	case *types.Pointer:
		if a.r == b.r {
			return true
		}
		ac, ok1 := a.r.(*Value)
		bc, ok2 := b.r.(*Value)
		if !ok1 || !ok2 {
			return false
		}
		return in.deepEqual(*ac, *bc, u.Elem(), depth+1)
	case *types.Slice:
		as, _ := a.r.([]Value)
		bs, _ := b.r.([]Value)
		if (as == nil) != (bs == nil) || len(as) != len(bs) {
			return false
		}
		for i := range as {
			if !in.deepEqual(as[i], bs[i], u.Elem(), depth+1) {
				return false
			}
		}
		return true
	case *types.Array:
		x, y := a.r.(Agg), b.r.(Agg)
		for i := range x {
			if !in.deepEqual(x[i], y[i], u.Elem(), depth+1) {
				return false
			}
		}
		return true
	case *types.Struct:
		x, y := a.r.(Agg), b.r.(Agg)
		for i := range x {
			if !in.deepEqual(x[i], y[i], u.Field(i).Type(), depth+1) {
				return false
			}
		}
		return true
	case *types.Map:
		x, _ := a.r.(*MapV)
		y, _ := b.r.(*MapV)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil || x == y {
			return true
		}
		if x.count != y.count {
			return false
		}
		for _, e := range x.ents {
			f := in.mapFind(y, e.k)
			if f == nil || !in.deepEqual(e.v, f.v, u.Elem(), depth+1) {
				return false
			}
		}
		return true
	case *types.Signature:
		return a.r == nil && b.r == nil
	}
	return in.cond(in.eqVal(a, b, t))
}

func (in *Interp) isZero(v Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := vBool(true)
		for i, x := range v.r.(Agg) {
			r = in.andV(r, in.isZero(x, u.Field(i).Type()))
		}
		return r
	case *types.Array:
		r := vBool(true)
		for _, x := range v.r.(Agg) {
			r = in.andV(r, in.isZero(x, u.Elem()))
		}
		return r
	case *types.Basic:
		k := kindOf(u)
		if k == kStr {
			return vBool(strLen(v) == 0)
		}
		if k.isFloat() {
			if isSym(v) {
				// -0 is not the zero value
				b := intrinsics["math.Float64bits"](in, []Value{in.conv(v, t, types.Typ[types.Float64])})
				return in.val(in.db.Eq(in.term(b, kU64), in.db.BV(0, 64)), kBool)
			}
			return vBool(v.n == 0)
		}
		if k == kC128 || k == kC64 {
			return vBool(v.r.(complex128) == 0)
		}
		return in.eqVal(v, Value{}, t)
	}
	return vBool(v.r == nil)
}

func (in *Interp) newCell(v Value) *Value {
	c := new(Value)
	*c = copyVal(v)
	return c
}

type rfn = func(in *Interp, x rval, a []Value) Value

var rvMethods = map[string]rfn{}
var rtMethods = map[string]func(in *Interp, r *RType, a []Value) Value{}
var rFuncs = map[string]intrinsic{}

// reflect functions interpreted from source
var reflectSource = map[string]bool{
	"(reflect.StructTag).Get": true, "(reflect.StructTag).Lookup": true, "(*reflect.ValueError).Error": true,
	"reflect.TypeFor": true, "(reflect.Method).IsExported": true, "(reflect.StructField).IsExported": true,
	"reflect.VisibleFields": true, "(*reflect.visibleFieldsWalker).walk": true, "reflect.init": true,
}

func reflectIntrinsic(in *Interp, fn *Fn, name string) intrinsic {
	lite := fn.pkgPath == "internal/reflectlite" || strings.HasPrefix(name, "(internal/reflectlite.") || strings.HasPrefix(name, "(*internal/reflectlite.")
	if fn.pkgPath != "reflect" && !lite && !strings.HasPrefix(name, "(reflect.") && !strings.HasPrefix(name, "(*reflect.") {
		return nil
	}
	m := fn.ssa.Name()
	if ta := fn.ssa.TypeArgs(); len(ta) == 1 && strings.HasPrefix(m, "TypeFor") {
		t := ta[0]
		return func(in *Interp, a []Value) Value {
			r := in.typeVal(t)
			if lite {
				r = in.liteResult(r)
			}
			return r
		}
	}
	if ta := fn.ssa.TypeArgs(); len(ta) == 1 && strings.HasPrefix(m, "TypeAssert") {
		t := in.p.canon(ta[0])
		_, isI := t.Underlying().(*types.Interface)
		iface := rvMethods["Interface"]
		return func(in *Interp, a []Value) Value {
			x := in.rval(a[0])
			if x.t == nil {
				in.rpanic("reflect: call of reflect.TypeAssert on zero Value")
			}
			v := iface(in, x, nil)
			if i, _ := v.r.(*Iface); i != nil {
				if isI && in.p.implements(i.t, t) {
					return Value{r: Tuple{v, vBool(true)}}
				} else if !isI && i.t == t {
					return Value{r: Tuple{i.v, vBool(true)}}
				}
			}
			return Value{r: Tuple{zeroOf(t), vBool(false)}}
		}
	}
	switch {
	case strings.HasPrefix(name, "(reflect.Value).") || strings.HasPrefix(name, "(internal/reflectlite.Value)."):
		if f, ok := rvMethods[m]; ok {
			return func(in *Interp, a []Value) Value { return f(in, in.rval(a[0]), a[1:]) }
		}
	case strings.HasPrefix(name, "(*reflect.Value)."):
		if f, ok := rvMethods[m]; ok {
			return func(in *Interp, a []Value) Value { return f(in, in.rval(*in.ptr(a[0])), a[1:]) }
		}
	case strings.HasPrefix(name, "(*reflect.rtype).") || strings.HasPrefix(name, "(internal/reflectlite.rtype).") || strings.HasPrefix(name, "(*internal/reflectlite.rtype)."):
		if f, ok := rtMethods[m]; ok {
			return func(in *Interp, a []Value) Value {
				r := f(in, in.rtArg(a[0]), a[1:])
				if lite {
					r = in.liteResult(r)
				}
				return r
			}
		}
	case strings.HasPrefix(name, "(*reflect.MapIter)."):
		if f, ok := rFuncs["MapIter."+m]; ok {
			return f
		}
	case strings.HasPrefix(name, "(reflect.Kind)."):
		if m == "String" {
			return func(in *Interp, a []Value) Value { return vStr(reflect.Kind(in.concInt(a[0], kU64)).String()) }
		}
	case strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "internal/reflectlite."):
		if f, ok := rFuncs[m]; ok {
			if lite && m == "TypeOf" {
				return func(in *Interp, a []Value) Value { return in.liteResult(f(in, a)) }
			}
			return f
		}
	}
	if fn.ssa.Synthetic != "" || reflectSource[name] || strings.HasPrefix(name, "reflect.VisibleFields") {
		return nil
	}
	return func(in *Interp, a []Value) Value {
		in.unsupported("reflect: %s", name)
		return Value{}
	}
}

// liteResult rewrites a reflect.Type result for internal/reflectlite.
func (in *Interp) liteResult(r Value) Value {
	i, ok := r.r.(*Iface)
	if !ok {
		return r
	}
	rt, ok := i.v.r.(*RType)
	if !ok {
		return r
	}
	lp := in.p.prog.ImportedPackage("internal/reflectlite")
	t := in.p.canon(lp.Type("rtype").Object().Type())
	return Value{r: &Iface{t: t, v: Value{r: Agg{{r: rt}}}}}
}

var tI64, tU64, tF64 = types.Typ[types.Int64], types.Typ[types.Uint64], types.Typ[types.Float64]

func isIntK(k reflect.Kind) bool  { return k >= reflect.Int && k <= reflect.Int64 }
func isUintK(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }
func isFltK(k reflect.Kind) bool  { return k == reflect.Float32 || k == reflect.Float64 }

var intKs = []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
var uintKs = []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && kindOf(s.Elem()) == kU8
}

func (in *Interp) rConvert(x rval, t types.Type) Value {
	v := x.get()
	if !in.convertible(x.t, t) {
		in.rpanic("reflect.Value.Convert: value of type " + rTypeString(x.t, false) + " cannot be converted to type " + rTypeString(t, false))
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, src := x.t.Underlying().(*types.Interface); src {
			return in.mkRV(t, nil, v, x.fl)
		}
		return in.mkRV(t, nil, in.mkIface(x.t, v), x.fl)
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return in.mkRV(t, nil, v, x.fl)
	}
	return in.mkRV(t, nil, copyVal(in.conv(v, x.t, t)), x.fl)
}

func init() {
	R := func(n string, f rfn) { rvMethods[n] = f }
	need := func(in *Interp, x rval, what string) {
		if x.t == nil {
			in.rpanic("reflect: call of reflect.Value." + what + " on zero Value")
		}
	}
	R("IsValid", func(in *Interp, x rval, a []Value) Value { return vBool(x.t != nil) })
	R("Kind", func(in *Interp, x rval, a []Value) Value {
		if x.t == nil {
			return vInt(0)
		}
		return vInt(int(rKind(x.t)))
	})
	rvMethods["kind"] = rvMethods["Kind"]
	R("Type", func(in *Interp, x rval, a []Value) Value {
		need(in, x, "Type")
		return in.typeVal(x.t)
	})
	R("Int", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "Int", intKs...)
		return in.conv(x.get(), x.t, tI64)
	})
	R("Uint", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "Uint", uintKs...)
		return in.conv(x.get(), x.t, tU64)
	})
	R("Float", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "Float", reflect.Float32, reflect.Float64)
		return in.conv(x.get(), x.t, tF64)
	})
	R("Bool", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "Bool", reflect.Bool)
		return x.get()
	})
	R("Complex", func(in *Interp, x rval, a []Value) Value { return x.get() })
	R("String", func(in *Interp, x rval, a []Value) Value {
		if x.t == nil {
			return vStr("<invalid Value>")
		}
		if rKind(x.t) == reflect.String {
			return x.get()
		}
		return vStr("<" + rTypeString(x.t, false) + " Value>")
	})
	R("Bytes", func(in *Interp, x rval, a []Value) Value {
		if rKind(x.t) == reflect.Array {
			in.mustSet(x, "Bytes")
			return Value{r: []Value(x.rv.p.r.(Agg))}
		}
		if !isByteSlice(x.t) {
			in.rpanic("reflect.Value.Bytes of non-byte slice")
		}
		return x.get()
	})
	can := func(n string, ks ...reflect.Kind) {
		R(n, func(in *Interp, x rval, a []Value) Value {
			if x.t == nil {
				return vBool(false)
			}
			k := rKind(x.t)
			for _, y := range ks {
				if y == k {
					return vBool(true)
				}
			}
			return vBool(false)
		})
	}
	can("CanInt", intKs...)
	can("CanUint", uintKs...)
	can("CanFloat", reflect.Float32, reflect.Float64)
	can("CanComplex", reflect.Complex64, reflect.Complex128)
	R("CanAddr", func(in *Interp, x rval, a []Value) Value { return vBool(x.t != nil && x.rv.p != nil) })
	R("CanSet", func(in *Interp, x rval, a []Value) Value {
		return vBool(x.t != nil && x.rv.p != nil && x.fl&flRO == 0)
	})
	R("CanInterface", func(in *Interp, x rval, a []Value) Value {
		need(in, x, "CanInterface")
		return vBool(x.fl&flRO == 0)
	})
	R("CanConvert", func(in *Interp, x rval, a []Value) Value {
		t := in.typeOfIface(a[0])
		if !in.convertible(x.t, t) {
			return vBool(false)
		}
		if arr, ok := t.Underlying().(*types.Array); ok {
			if _, ok := x.t.Underlying().(*types.Slice); ok {
				return vBool(len(sl(x.get())) >= int(arr.Len()))
			}
		}
		return vBool(true)
	})
	R("Interface", func(in *Interp, x rval, a []Value) Value {
		need(in, x, "Interface")
		if x.fl&flRO != 0 {
			in.rpanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		if in.sched.race && x.rv.p != nil {
			in.raceRead(x.rv.p)
		}
		return in.mkIface(x.t, x.get())
	})
	R("Addr", func(in *Interp, x rval, a []Value) Value {
		if x.t == nil || x.rv.p == nil {
			in.rpanic("reflect.Value.Addr of unaddressable value")
		}
		return in.mkRV(types.NewPointer(x.t), nil, Value{r: x.rv.p}, x.fl)
	})
	R("Elem", func(in *Interp, x rval, a []Value) Value {
		need(in, x, "Elem")
		return in.relem(x)
	})
	R("NumField", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "NumField", reflect.Struct)
		return vInt(x.t.Underlying().(*types.Struct).NumFields())
	})
	R("Field", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "Field", reflect.Struct)
		return in.rfield(x, in.arg(a[0]))
	})
	byIndex := func(in *Interp, x rval, ix []int) (Value, bool) {
		cur := Value{}
		for k, i := range ix {
			if k > 0 {
				if rKind(x.t) == reflect.Pointer {
					if x.get().r == nil {
						return Value{}, false
					}
					x = in.rval(in.relem(x))
				}
			}
			cur = in.rfield(x, i)
			x = in.rval(cur)
		}
		return cur, true
	}
	R("FieldByIndex", func(in *Interp, x rval, a []Value) Value {
		var ix []int
		for _, v := range sl(a[0]) {
			ix = append(ix, in.arg(v))
		}
		v, ok := byIndex(in, x, ix)
		if !ok {
			in.rpanic("reflect: indirection through nil pointer to embedded struct field")
		}
		return v
	})
	R("FieldByIndexErr", func(in *Interp, x rval, a []Value) Value {
		var ix []int
		for _, v := range sl(a[0]) {
			ix = append(ix, in.arg(v))
		}
		v, ok := byIndex(in, x, ix)
		if !ok {
			return retTuple(in.zeroRV(), in.mkErr("reflect: indirection through nil pointer to embedded struct field"))
		}
		return retTuple(v, Value{})
	})
	R("FieldByName", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "FieldByName", reflect.Struct)
		n, ok := concStr(a[0])
		if !ok {
			in.unsupported("FieldByName of symbolic string")
		}
		ix, ok := in.fieldByName(x.t, n)
		if !ok {
			return in.zeroRV()
		}
		v, ok := byIndex(in, x, ix)
		if !ok {
			in.rpanic("reflect: indirection through nil pointer to embedded struct field")
		}
		return v
	})
	R("Len", func(in *Interp, x rval, a []Value) Value {
		need(in, x, "Len")
		switch u := x.t.Underlying().(type) {
		case *types.Array:
			return vInt(int(u.Len()))
		case *types.Slice:
			return vInt(len(sl(x.get())))
		case *types.Basic:
			if kindOf(u) == kStr {
				return vInt(strLen(x.get()))
			}
		case *types.Map:
			m, _ := x.get().r.(*MapV)
			if m == nil {
				return vInt(0)
			}
			if in.sched.race {
				in.raceMap(m, false)
			}
			return vInt(m.count)
		case *types.Chan:
			c, _ := x.get().r.(*ChanV)
			if c == nil {
				return vInt(0)
			}
			return vInt(len(c.buf))
		case *types.Pointer:
			if ar, ok := u.Elem().Underlying().(*types.Array); ok {
				return vInt(int(ar.Len()))
			}
		}
		in.mustKind(x, "Len")
		return Value{}
	})
	R("Cap", func(in *Interp, x rval, a []Value) Value {
		switch u := x.t.Underlying().(type) {
		case *types.Array:
			return vInt(int(u.Len()))
		case *types.Slice:
			return vInt(cap(sl(x.get())))
		}
		in.mustKind(x, "Cap")
		return Value{}
	})
	R("Index", func(in *Interp, x rval, a []Value) Value {
		need(in, x, "Index")
		i := in.arg(a[0])
		switch u := x.t.Underlying().(type) {
		case *types.Array:
			if i < 0 || i >= int(u.Len()) {
				in.rpanic("reflect: array index out of range")
			}
			if x.rv.p != nil {
				return in.mkRV(u.Elem(), &x.rv.p.r.(Agg)[i], Value{}, x.fl)
			}
			return in.mkRV(u.Elem(), nil, x.rv.v.r.(Agg)[i], x.fl)
		case *types.Slice:
			s, _ := x.get().r.([]Value)
			if i < 0 || i >= len(s) {
				in.rpanic("reflect: slice index out of range")
			}
			return in.mkRV(u.Elem(), &s[i], Value{}, x.fl)
		case *types.Basic:
			if kindOf(u) == kStr {
				if i < 0 || i >= strLen(x.get()) {
					in.rpanic("reflect: string index out of range")
				}
				return in.mkRV(types.Typ[types.Uint8], nil, strByte(x.get(), i), x.fl)
			}
		}
		in.mustKind(x, "Index")
		return Value{}
	})
	R("IsNil", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "IsNil", reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer)
		return vBool(x.get().r == nil)
	})
	R("IsZero", func(in *Interp, x rval, a []Value) Value {
		need(in, x, "IsZero")
		return in.isZero(x.get(), x.t)
	})
	R("Comparable", func(in *Interp, x rval, a []Value) Value {
		if x.t == nil {
			return vBool(true)
		}
		if i, ok := x.get().r.(*Iface); ok && rKind(x.t) == reflect.Interface {
			return vBool(types.Comparable(i.t))
		}
		return vBool(types.Comparable(x.t))
	})
	R("Equal", func(in *Interp, x rval, a []Value) Value {
		y := in.rval(a[0])
		if x.t == nil || y.t == nil {
			return vBool(x.t == y.t)
		}
		if x.t != y.t {
			return vBool(false)
		}
		return in.eqVal(x.get(), y.get(), x.t)
	})
	R("MapIndex", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "MapIndex", reflect.Map)
		mt := x.t.Underlying().(*types.Map)
		k := in.assignTo("reflect.Value.MapIndex", in.rval(a[0]), mt.Key())
		m, _ := x.get().r.(*MapV)
		if m == nil {
			return in.zeroRV()
		}
		if in.sched.race {
			in.raceMap(m, false)
		}
		e := in.mapFind(m, k)
		if e == nil {
			return in.zeroRV()
		}
		return in.mkRV(mt.Elem(), nil, copyVal(e.v), x.fl)
	})
	R("SetMapIndex", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "SetMapIndex", reflect.Map)
		mt := x.t.Underlying().(*types.Map)
		if x.fl&flRO != 0 {
			in.rpanic("reflect: reflect.Value.SetMapIndex using value obtained using unexported field")
		}
		k := in.assignTo("reflect.Value.SetMapIndex", in.rval(a[0]), mt.Key())
		m, _ := x.get().r.(*MapV)
		e := in.rval(a[1])
		if e.t == nil {
			if m != nil {
				in.mapDelete(m, k)
			}
			return Value{}
		}
		v := in.assignTo("reflect.Value.SetMapIndex", e, mt.Elem())
		if m == nil {
			in.rtPanic("assignment to entry in nil map")
		}
		if in.sched.race {
			in.raceMap(m, true)
		}
		in.mapSet(m, k, v)
		return Value{}
	})
	mapIt := func(in *Interp, x rval) *mapIter {
		m, _ := x.get().r.(*MapV)
		it := &mapIter{m: m}
		if m != nil {
			it.rest = append([]*mapEnt(nil), m.ents...)
			it.perm = in.mapOrder && len(m.ents) <= 4
		}
		return it
	}
	nextEnt := func(in *Interp, it *mapIter) *mapEnt {
		for {
			live := it.rest[:0:0]
			for _, e := range it.rest {
				if !e.dead {
					live = append(live, e)
				}
			}
			it.rest = live
			if len(live) == 0 {
				return nil
			}
			i := 0
			if it.perm && len(live) > 1 {
				i = in.choose(len(live), "maporder")
			}
			e := live[i]
			it.rest = append(append([]*mapEnt(nil), live[:i]...), live[i+1:]...)
			return e
		}
	}
	R("MapKeys", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "MapKeys", reflect.Map)
		mt := x.t.Underlying().(*types.Map)
		it := mapIt(in, x)
		out := []Value{}
		for e := nextEnt(in, it); e != nil; e = nextEnt(in, it) {
			out = append(out, in.mkRV(mt.Key(), nil, e.k, x.fl))
		}
		return Value{r: out}
	})
	R("MapRange", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "MapRange", reflect.Map)
		c := new(Value)
		c.r = &rMapIter{m: in.mkRV(x.t, x.rv.p, x.rv.v, x.fl)}
		return Value{r: c}
	})
	rFuncs["MapIter.Next"] = func(in *Interp, a []Value) Value {
		it := in.ptr(a[0]).r.(*rMapIter)
		if !it.init {
			it.init = true
			it.it = mapIt(in, in.rval(it.m))
		}
		it.cur = nextEnt(in, it.it)
		return vBool(it.cur != nil)
	}
	rFuncs["MapIter.Key"] = func(in *Interp, a []Value) Value {
		it := in.ptr(a[0]).r.(*rMapIter)
		x := in.rval(it.m)
		return in.mkRV(x.t.Underlying().(*types.Map).Key(), nil, it.cur.k, x.fl)
	}
	rFuncs["MapIter.Value"] = func(in *Interp, a []Value) Value {
		it := in.ptr(a[0]).r.(*rMapIter)
		x := in.rval(it.m)
		return in.mkRV(x.t.Underlying().(*types.Map).Elem(), nil, copyVal(it.cur.v), x.fl)
	}
	R("SetIterKey", func(in *Interp, x rval, a []Value) Value {
		in.mustSet(x, "SetIterKey")
		in.rset(x, in.assignTo("reflect.MapIter.SetKey", in.rval(rFuncs["MapIter.Key"](in, a)), x.t))
		return Value{}
	})
	R("SetIterValue", func(in *Interp, x rval, a []Value) Value {
		in.mustSet(x, "SetIterValue")
		in.rset(x, in.assignTo("reflect.MapIter.SetValue", in.rval(rFuncs["MapIter.Value"](in, a)), x.t))
		return Value{}
	})
	R("Set", func(in *Interp, x rval, a []Value) Value {
		in.mustSet(x, "Set")
		in.rset(x, in.assignTo("reflect.Set", in.rval(a[0]), x.t))
		return Value{}
	})
	R("SetZero", func(in *Interp, x rval, a []Value) Value {
		in.mustSet(x, "SetZero")
		in.rset(x, zeroOf(x.t))
		return Value{}
	})
	set := func(n string, from types.Type, ks ...reflect.Kind) {
		R(n, func(in *Interp, x rval, a []Value) Value {
			in.mustSet(x, n)
			in.mustKind(x, n, ks...)
			in.rset(x, in.conv(a[0], from, x.t))
			return Value{}
		})
	}
	set("SetInt", tI64, intKs...)
	set("SetUint", tU64, uintKs...)
	set("SetFloat", tF64, reflect.Float32, reflect.Float64)
	R("SetBool", func(in *Interp, x rval, a []Value) Value {
		in.mustSet(x, "SetBool")
		in.mustKind(x, "SetBool", reflect.Bool)
		in.rset(x, a[0])
		return Value{}
	})
	R("SetString", func(in *Interp, x rval, a []Value) Value {
		in.mustSet(x, "SetString")
		in.mustKind(x, "SetString", reflect.String)
		in.rset(x, a[0])
		return Value{}
	})
	R("SetBytes", func(in *Interp, x rval, a []Value) Value {
		in.mustSet(x, "SetBytes")
		if !isByteSlice(x.t) {
			in.rpanic("reflect.Value.SetBytes of non-byte slice")
		}
		in.rset(x, a[0])
		return Value{}
	})
	R("SetLen", func(in *Interp, x rval, a []Value) Value {
		in.mustSet(x, "SetLen")
		s := sl(x.get())
		n := in.arg(a[0])
		if n < 0 || n > cap(s) {
			in.rpanic("reflect: slice length out of range in SetLen")
		}
		in.rset(x, Value{r: s[:n]})
		return Value{}
	})
	R("SetCap", func(in *Interp, x rval, a []Value) Value {
		in.mustSet(x, "SetCap")
		s := sl(x.get())
		n := in.arg(a[0])
		in.rset(x, Value{r: s[:len(s):n]})
		return Value{}
	})
	R("Grow", func(in *Interp, x rval, a []Value) Value {
		in.mustSet(x, "Grow")
		s := sl(x.get())
		n := in.arg(a[0])
		if len(s)+n > cap(s) {
			et := x.t.Underlying().(*types.Slice).Elem()
			d := make([]Value, growCap(cap(s), len(s)+n))
			for i := range d {
				if i < len(s) {
					d[i] = copyVal(s[i])
				} else {
					d[i] = zeroOf(et)
				}
			}
			in.rset(x, Value{r: d[:len(s)]})
		}
		return Value{}
	})
	R("Slice", func(in *Interp, x rval, a []Value) Value {
		i, j := in.arg(a[0]), in.arg(a[1])
		switch u := x.t.Underlying().(type) {
		case *types.Slice:
			s := sl(x.get())
			if i < 0 || j < i || j > cap(s) {
				in.rpanic("reflect.Value.Slice: slice index out of bounds")
			}
			if s == nil {
				return in.mkRV(x.t, nil, Value{}, x.fl)
			}
			return in.mkRV(x.t, nil, Value{r: s[i:j]}, x.fl)
		case *types.Array:
			if x.rv.p == nil {
				in.rpanic("reflect.Value.Slice: slice of unaddressable array")
			}
			return in.mkRV(types.NewSlice(u.Elem()), nil, Value{r: []Value(x.rv.p.r.(Agg))[i:j]}, x.fl)
		case *types.Basic:
			if kindOf(u) == kStr {
				return in.mkRV(x.t, nil, strSlice(x.get(), i, j), x.fl)
			}
		}
		in.mustKind(x, "Slice")
		return Value{}
	})
	R("Slice3", func(in *Interp, x rval, a []Value) Value {
		i, j, k := in.arg(a[0]), in.arg(a[1]), in.arg(a[2])
		t := x.t
		var s []Value
		switch u := x.t.Underlying().(type) {
		case *types.Slice:
			s = sl(x.get())
		case *types.Array:
			if x.rv.p == nil {
				in.rpanic("reflect.Value.Slice3: slice of unaddressable array")
			}
			t, s = types.NewSlice(u.Elem()), []Value(x.rv.p.r.(Agg))
		default:
			in.mustKind(x, "Slice3")
		}
		if i < 0 || j < i || k < j || k > cap(s) {
			in.rpanic("reflect.Value.Slice3: slice index out of bounds")
		}
		if s == nil {
			return in.mkRV(t, nil, Value{}, x.fl)
		}
		return in.mkRV(t, nil, Value{r: s[i:j:k]}, x.fl)
	})
	R("Clear", func(in *Interp, x rval, a []Value) Value {
		switch y := x.get().r.(type) {
		case *MapV:
			in.mapClear(y)
		case []Value:
			et := x.t.Underlying().(*types.Slice).Elem()
			for i := range y {
				in.store(&y[i], zeroOf(et))
			}
		}
		return Value{}
	})
	R("Convert", func(in *Interp, x rval, a []Value) Value {
		need(in, x, "Convert")
		return in.rConvert(x, in.typeOfIface(a[0]))
	})
	R("OverflowInt", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "OverflowInt", intKs...)
		back := in.conv(in.conv(a[0], tI64, x.t), x.t, tI64)
		return in.notV(in.eqVal(a[0], back, tI64))
	})
	R("OverflowUint", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "OverflowUint", uintKs...)
		back := in.conv(in.conv(a[0], tU64, x.t), x.t, tU64)
		return in.notV(in.eqVal(a[0], back, tU64))
	})
	R("OverflowFloat", func(in *Interp, x rval, a []Value) Value {
		if rKind(x.t) == reflect.Float64 {
			return vBool(false)
		}
		if isSym(a[0]) {
			t := in.db.fop(OFAbs, SF64, 0, a[0].r.(*Term))
			mx, inf := in.db.F64(math.MaxFloat32), in.db.F64(math.MaxFloat64)
			return in.val(in.db.And(in.db.fop(OFLt, 0, 0, mx, t), in.db.fop(OFLe, 0, 0, t, inf)), kBool)
		}
		return vBool(reflect.ValueOf(float32(0)).OverflowFloat(math.Float64frombits(a[0].n)))
	})
	ptrID := func(in *Interp, x rval, a []Value) Value {
		v := x.get()
		switch y := v.r.(type) {
		case nil:
			return Value{}
		case []Value:
			if cap(y) == 0 {
				return Value{n: 8}
			}
			return in.conv(Value{r: &y[:1][0]}, types.Typ[types.UnsafePointer], types.Typ[types.Uintptr])
		}
		return in.conv(v, types.Typ[types.UnsafePointer], types.Typ[types.Uintptr])
	}
	R("Pointer", ptrID)
	R("UnsafePointer", func(in *Interp, x rval, a []Value) Value {
		v := x.get()
		if y, ok := v.r.([]Value); ok {
			if cap(y) == 0 {
				return Value{}
			}
			return Value{r: &y[:1][0]}
		}
		return v
	})
	R("UnsafeAddr", func(in *Interp, x rval, a []Value) Value {
		return in.conv(Value{r: x.rv.p}, types.Typ[types.UnsafePointer], types.Typ[types.Uintptr])
	})
	R("NumMethod", func(in *Interp, x rval, a []Value) Value {
		need(in, x, "NumMethod")
		return vInt(len(in.methods(in.rtype(x.t))))
	})
	R("Method", func(in *Interp, x rval, a []Value) Value {
		need(in, x, "Method")
		return in.rmethod(x, in.arg(a[0]))
	})
	R("MethodByName", func(in *Interp, x rval, a []Value) Value {
		need(in, x, "MethodByName")
		n, _ := concStr(a[0])
		for i, m := range in.methods(in.rtype(x.t)) {
			if m.Name() == n {
				return in.rmethod(x, i)
			}
		}
		return in.zeroRV()
	})
	R("Call", func(in *Interp, x rval, a []Value) Value {
		in.mustKind(x, "Call", reflect.Func)
		r := in.rcall(in.mkRV(x.t, x.rv.p, x.rv.v, x.fl), x.t.Underlying().(*types.Signature), sl(a[0]), false)
		if r == nil {
			return Value{}
		}
		return Value{r: r}
	})
	R("CallSlice", func(in *Interp, x rval, a []Value) Value {
		r := in.rcall(in.mkRV(x.t, x.rv.p, x.rv.v, x.fl), x.t.Underlying().(*types.Signature), sl(a[0]), true)
		return Value{r: r}
	})
	R("Recv", func(in *Interp, x rval, a []Value) Value {
		et := x.t.Underlying().(*types.Chan).Elem()
		v, ok := in.chanRecv(x.get(), et)
		return retTuple(in.mkRV(et, nil, v, 0), vBool(ok))
	})

	// ---- functions ----
	F := func(n string, f intrinsic) { rFuncs[n] = f }
	F("TypeOf", func(in *Interp, a []Value) Value {
		i, _ := a[0].r.(*Iface)
		if i == nil {
			return Value{}
		}
		return in.typeVal(i.t)
	})
	F("ValueOf", func(in *Interp, a []Value) Value {
		i, _ := a[0].r.(*Iface)
		if i == nil {
			return in.zeroRV()
		}
		return in.mkRV(i.t, nil, i.v, 0)
	})
	F("New", func(in *Interp, a []Value) Value {
		t := in.typeOfIface(a[0])
		if t == nil {
			in.rpanic("reflect: New(nil)")
		}
		return in.mkRV(types.NewPointer(t), nil, Value{r: in.newCell(zeroOf(t))}, 0)
	})
	F("NewAt", func(in *Interp, a []Value) Value {
		return in.mkRV(types.NewPointer(in.typeOfIface(a[0])), nil, a[1], 0)
	})
	F("Zero", func(in *Interp, a []Value) Value {
		t := in.typeOfIface(a[0])
		if t == nil {
			in.rpanic("reflect: Zero(nil)")
		}
		return in.mkRV(t, nil, zeroOf(t), 0)
	})
	F("Indirect", func(in *Interp, a []Value) Value {
		x := in.rval(a[0])
		if x.t == nil || rKind(x.t) != reflect.Pointer {
			return a[0]
		}
		return in.relem(x)
	})
	mkMap := func(in *Interp, a []Value) Value {
		t := in.typeOfIface(a[0])
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			in.rpanic("reflect.MakeMapWithSize of non-map type")
		}
		return in.mkRV(t, nil, Value{r: in.newMap(mt.Key(), mt.Elem())}, 0)
	}
	F("MakeMap", mkMap)
	F("MakeMapWithSize", mkMap)
	F("MakeSlice", func(in *Interp, a []Value) Value {
		t := in.typeOfIface(a[0])
		st, ok := t.Underlying().(*types.Slice)
		if !ok {
			in.rpanic("reflect.MakeSlice of non-slice type")
		}
		n, c := in.arg(a[1]), in.arg(a[2])
		if n < 0 {
			in.rpanic("reflect.MakeSlice: negative len")
		}
		d := make([]Value, c)
		for i := range d {
			d[i] = zeroOf(st.Elem())
		}
		return in.mkRV(t, nil, Value{r: d[:n]}, 0)
	})
	F("MakeChan", func(in *Interp, a []Value) Value {
		t := in.typeOfIface(a[0])
		return in.mkRV(t, nil, Value{r: &ChanV{cap: in.arg(a[1]), id: in.newID(), epoch: in.epoch}}, 0)
	})
	F("MakeFunc", func(in *Interp, a []Value) Value {
		t := in.typeOfIface(a[0])
		sig := t.Underlying().(*types.Signature)
		fn := a[1]
		return in.mkRV(t, nil, in.nat("MakeFunc", func(in *Interp, as []Value) Value {
			var vs []Value
			for i, x := range as {
				vs = append(vs, in.mkRV(sig.Params().At(i).Type(), nil, x, 0))
			}
			r := sl(in.callValue(fn, []Value{{r: vs}}))
			switch len(r) {
			case 0:
				return Value{}
			case 1:
				return in.assignTo("reflect.MakeFunc", in.rval(r[0]), sig.Results().At(0).Type())
			}
			var out Tuple
			for i := range r {
				out = append(out, in.assignTo("reflect.MakeFunc", in.rval(r[i]), sig.Results().At(i).Type()))
			}
			return Value{r: out}
		}), 0)
	})
	appendRV := func(in *Interp, s Value, vs []Value) Value {
		x := in.rval(s)
		in.mustKind(x, "Append", reflect.Slice)
		et := x.t.Underlying().(*types.Slice).Elem()
		return in.mkRV(x.t, nil, in.appendVals(sl(x.get()), vs, et, x.get()), x.fl)
	}
	F("Append", func(in *Interp, a []Value) Value {
		x := in.rval(a[0])
		in.mustKind(x, "Append", reflect.Slice)
		et := x.t.Underlying().(*types.Slice).Elem()
		var vs []Value
		for _, y := range sl(a[1]) {
			vs = append(vs, in.assignTo("reflect.Set", in.rval(y), et))
		}
		return appendRV(in, a[0], vs)
	})
	F("AppendSlice", func(in *Interp, a []Value) Value { return appendRV(in, a[0], sl(in.rval(a[1]).get())) })
	F("Copy", func(in *Interp, a []Value) Value {
		d, s := in.rval(a[0]), in.rval(a[1])
		var dd []Value
		if rKind(d.t) == reflect.Array {
			in.mustSet(d, "Copy")
			dd = []Value(d.rv.p.r.(Agg))
		} else {
			dd = sl(d.get())
		}
		var ss []Value
		switch y := s.get().r.(type) {
		case Agg:
			ss = []Value(y)
		default:
			ss = sl(s.get())
		}
		n := min(len(dd), len(ss))
		tmp := append([]Value(nil), ss[:n]...)
		for i := range tmp {
			in.store(&dd[i], tmp[i])
		}
		return vInt(n)
	})
	F("DeepEqual", func(in *Interp, a []Value) Value {
		return vBool(in.deepEqual(a[0], a[1], types.NewInterfaceType(nil, nil), 0))
	})
	pt := func(in *Interp, a []Value) Value { return in.typeVal(types.NewPointer(in.typeOfIface(a[0]))) }
	F("PointerTo", pt)
	F("PtrTo", pt)
	F("SliceOf", func(in *Interp, a []Value) Value { return in.typeVal(types.NewSlice(in.typeOfIface(a[0]))) })
	F("ArrayOf", func(in *Interp, a []Value) Value {
		return in.typeVal(types.NewArray(in.typeOfIface(a[1]), int64(in.arg(a[0]))))
	})
	F("MapOf", func(in *Interp, a []Value) Value {
		return in.typeVal(types.NewMap(in.typeOfIface(a[0]), in.typeOfIface(a[1])))
	})
	F("Swapper", func(in *Interp, a []Value) Value {
		i, _ := a[0].r.(*Iface)
		if i == nil {
			in.rpanic("reflect: call of Swapper on zero Value")
		}
		if _, ok := i.t.Underlying().(*types.Slice); !ok {
			in.rpanic("reflect: call of Swapper on non-slice value")
		}
		s := sl(i.v)
		return in.nat("swapper", func(in *Interp, as []Value) Value {
			x, y := in.arg(as[0]), in.arg(as[1])
			if x < 0 || x >= len(s) || y < 0 || y >= len(s) {
				in.rpanic("reflect: slice index out of range")
			}
			p, q := copyVal(s[x]), copyVal(s[y])
			in.store(&s[x], q)
			in.store(&s[y], p)
			return Value{}
		})
	})

	// ---- types ----
	T := func(n string, f func(in *Interp, r *RType, a []Value) Value) { rtMethods[n] = f }
	T("String", func(in *Interp, r *RType, a []Value) Value { return vStr(rTypeString(r.t, false)) })
	T("Name", func(in *Interp, r *RType, a []Value) Value { return vStr(rTypeName(r.t)) })
	T("PkgPath", func(in *Interp, r *RType, a []Value) Value {
		if n, ok := r.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return vStr(n.Obj().Pkg().Path())
		}
		return Value{}
	})
	T("Kind", func(in *Interp, r *RType, a []Value) Value { return vInt(int(rKind(r.t))) })
	T("Size", func(in *Interp, r *RType, a []Value) Value {
		in.p.mu.Lock()
		defer in.p.mu.Unlock()
		return vI64(sizes64.Sizeof(r.t))
	})
	T("Bits", func(in *Interp, r *RType, a []Value) Value {
		in.p.mu.Lock()
		defer in.p.mu.Unlock()
		return vI64(sizes64.Sizeof(r.t) * 8)
	})
	T("Align", func(in *Interp, r *RType, a []Value) Value { return vInt(8) })
	T("Elem", func(in *Interp, r *RType, a []Value) Value {
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			return in.typeVal(u.Elem())
		case *types.Slice:
			return in.typeVal(u.Elem())
		case *types.Array:
			return in.typeVal(u.Elem())
		case *types.Map:
			return in.typeVal(u.Elem())
		case *types.Chan:
			return in.typeVal(u.Elem())
		}
		in.rpanic("reflect: Elem of invalid type " + rTypeString(r.t, false))
		return Value{}
	})
	T("Key", func(in *Interp, r *RType, a []Value) Value {
		u, ok := r.t.Underlying().(*types.Map)
		if !ok {
			in.rpanic("reflect: Key of non-map type " + rTypeString(r.t, false))
		}
		return in.typeVal(u.Key())
	})
	T("Len", func(in *Interp, r *RType, a []Value) Value { return vInt(int(r.t.Underlying().(*types.Array).Len())) })
	strc := func(in *Interp, r *RType, what string) *types.Struct {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			in.rpanic("reflect: " + what + " of non-struct type " + rTypeString(r.t, false))
		}
		return st
	}
	T("NumField", func(in *Interp, r *RType, a []Value) Value { return vInt(strc(in, r, "NumField").NumFields()) })
	T("Field", func(in *Interp, r *RType, a []Value) Value {
		st := strc(in, r, "Field")
		i := in.arg(a[0])
		if i < 0 || i >= st.NumFields() {
			in.rpanic("reflect: Field index out of bounds")
		}
		return in.structField(st, i, nil)
	})
	atIndex := func(in *Interp, t types.Type, ix []int) Value {
		var v Value
		for k, i := range ix {
			if k > 0 {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
			}
			st := t.Underlying().(*types.Struct)
			v = in.structField(st, i, ix)
			t = st.Field(i).Type()
		}
		return v
	}
	T("FieldByIndex", func(in *Interp, r *RType, a []Value) Value {
		var ix []int
		for _, v := range sl(a[0]) {
			ix = append(ix, in.arg(v))
		}
		return atIndex(in, r.t, ix)
	})
	T("FieldByName", func(in *Interp, r *RType, a []Value) Value {
		strc(in, r, "FieldByName")
		n, ok := concStr(a[0])
		if !ok {
			in.unsupported("FieldByName of symbolic string")
		}
		ix, ok := in.fieldByName(r.t, n)
		if !ok {
			return retTuple(zeroOf(in.reflectType("StructField")), vBool(false))
		}
		return retTuple(atIndex(in, r.t, ix), vBool(true))
	})
	T("NumMethod", func(in *Interp, r *RType, a []Value) Value { return vInt(len(in.methods(r))) })
	T("Method", func(in *Interp, r *RType, a []Value) Value { return in.methodStruct(r, in.arg(a[0]), r.t) })
	T("MethodByName", func(in *Interp, r *RType, a []Value) Value {
		n, _ := concStr(a[0])
		for i, m := range in.methods(r) {
			if m.Name() == n {
				return retTuple(in.methodStruct(r, i, r.t), vBool(true))
			}
		}
		return retTuple(zeroOf(in.reflectType("Method")), vBool(false))
	})
	sigOf := func(in *Interp, r *RType) *types.Signature {
		s, ok := r.t.Underlying().(*types.Signature)
		if !ok {
			in.rpanic("reflect: In/Out of non-func type " + rTypeString(r.t, false))
		}
		return s
	}
	T("NumIn", func(in *Interp, r *RType, a []Value) Value { return vInt(sigOf(in, r).Params().Len()) })
	T("NumOut", func(in *Interp, r *RType, a []Value) Value { return vInt(sigOf(in, r).Results().Len()) })
	T("In", func(in *Interp, r *RType, a []Value) Value {
		return in.typeVal(sigOf(in, r).Params().At(in.arg(a[0])).Type())
	})
	T("Out", func(in *Interp, r *RType, a []Value) Value {
		return in.typeVal(sigOf(in, r).Results().At(in.arg(a[0])).Type())
	})
	T("IsVariadic", func(in *Interp, r *RType, a []Value) Value { return vBool(sigOf(in, r).Variadic()) })
	T("ChanDir", func(in *Interp, r *RType, a []Value) Value { return vInt(3) })
	T("Implements", func(in *Interp, r *RType, a []Value) Value {
		t := in.typeOfIface(a[0])
		if t == nil {
			in.rpanic("reflect: nil type passed to Type.Implements")
		}
		if _, ok := t.Underlying().(*types.Interface); !ok {
			in.rpanic("reflect: non-interface type passed to Type.Implements")
		}
		return vBool(in.p.implements(r.t, t))
	})
	T("AssignableTo", func(in *Interp, r *RType, a []Value) Value { return vBool(in.assignable(r.t, in.typeOfIface(a[0]))) })
	T("ConvertibleTo", func(in *Interp, r *RType, a []Value) Value {
		return vBool(in.convertible(r.t, in.typeOfIface(a[0])))
	})
	T("Comparable", func(in *Interp, r *RType, a []Value) Value { return vBool(types.Comparable(r.t)) })
	ovf := func(n string) {
		T(n, func(in *Interp, r *RType, a []Value) Value {
			return rvMethods[n](in, rval{r.t, &rv{v: zeroOf(r.t)}, 0}, a)
		})
	}
	ovf("OverflowInt")
	ovf("OverflowUint")
	ovf("OverflowFloat")
	T("CanSeq", func(in *Interp, r *RType, a []Value) Value { return vBool(false) })
	T("CanSeq2", func(in *Interp, r *RType, a []Value) Value { return vBool(false) })
	_ = fmt.Sprint
}
