package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	rfRO   = 1
	rfAddr = 2
)

// rv is the unpacked form of a reflect.Value.
type rv struct {
	t    types.Type
	data value // *value when addressable
	fl   uint64
}

func (m *Machine) unpackRV(v value) rv {
	s := v.(structure)
	r := rv{data: s[1]}
	if f, ok := s[2].(uint64); ok {
		r.fl = f
	}
	if t, ok := s[0].(*rtypeV); ok {
		r.t = t.t
	}
	return r
}

func (m *Machine) packRV(r rv) value {
	if r.t == nil {
		return structure{(*value)(nil), (*value)(nil), uint64(0)}
	}
	return structure{m.rtype(r.t), r.data, r.fl}
}

// get returns the value held (not copied).
func (r rv) get() value {
	if r.fl&rfAddr != 0 {
		return *(r.data.(*value))
	}
	return r.data
}

func (r rv) valid() bool { return r.t != nil }

func reflKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128, types.UntypedComplex:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func reflPkgPath(p *types.Package) string {
	if p == nil {
		return ""
	}
	if p.Name() == "main" {
		return "main"
	}
	return p.Path()
}

func reflName(t types.Type) string {
	switch u := t.(type) {
	case *types.Named:
		n := u.Obj().Name()
		if ta := u.TypeArgs(); ta != nil && ta.Len() > 0 {
			var a []string
			for i := 0; i < ta.Len(); i++ {
				a = append(a, types.TypeString(ta.At(i), nil))
			}
			n += "[" + strings.Join(a, ",") + "]"
		}
		return n
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "Pointer"
		}
		return types.Typ[u.Kind()].Name()
	}
	return ""
}

func reflString(t types.Type) string {
	switch u := t.(type) {
	case *types.Named:
		if u.Obj().Pkg() != nil {
			return u.Obj().Pkg().Name() + "." + reflName(t)
		}
		return reflName(t)
	case *types.Alias:
		return reflString(types.Unalias(t))
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "unsafe.Pointer"
		}
		return reflName(t)
	case *types.Pointer:
		return "*" + reflString(u.Elem())
	case *types.Slice:
		return "[]" + reflString(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), reflString(u.Elem()))
	case *types.Map:
		return "map[" + reflString(u.Key()) + "]" + reflString(u.Elem())
	case *types.Chan:
		switch u.Dir() {
		case types.SendOnly:
			return "chan<- " + reflString(u.Elem())
		case types.RecvOnly:
			return "<-chan " + reflString(u.Elem())
		}
		e := reflString(u.Elem())
		if strings.HasPrefix(e, "<") {
			e = "(" + e + ")"
		}
		return "chan " + e
	case *types.Signature:
		return "func" + reflSig(u)
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "interface {}"
		}
		var p []string
		for _, f := range sortedIfaceMethods(u) {
			n := f.Name()
			if !f.Exported() && f.Pkg() != nil {
				n = f.Pkg().Name() + "." + n
			}
			p = append(p, n+reflSig(f.Type().(*types.Signature)))
		}
		return "interface { " + strings.Join(p, "; ") + " }"
	case *types.Struct:
		if u.NumFields() == 0 {
			return "struct {}"
		}
		var p []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			s := ""
			if !f.Embedded() {
				s = f.Name() + " "
			}
			s += reflString(f.Type())
			if tg := u.Tag(i); tg != "" {
				if strings.HasPrefix(tg, symTag) {
					panic(unsupported("text of a type with a symbolic tag"))
				}
				s += " " + strconv.Quote(tg)
			}
			p = append(p, s)
		}
		return "struct { " + strings.Join(p, "; ") + " }"
	}
	return t.String()
}

func reflSig(s *types.Signature) string {
	var in []string
	for i := 0; i < s.Params().Len(); i++ {
		pt := s.Params().At(i).Type()
		if s.Variadic() && i == s.Params().Len()-1 {
			in = append(in, "..."+reflString(pt.Underlying().(*types.Slice).Elem()))
		} else {
			in = append(in, reflString(pt))
		}
	}
	r := "(" + strings.Join(in, ", ") + ")"
	var out []string
	for i := 0; i < s.Results().Len(); i++ {
		out = append(out, reflString(s.Results().At(i).Type()))
	}
	switch len(out) {
	case 0:
	case 1:
		r += " " + out[0]
	default:
		r += " (" + strings.Join(out, ", ") + ")"
	}
	return r
}

func sortedIfaceMethods(u *types.Interface) []*types.Func {
	var fs []*types.Func
	for i := 0; i < u.NumMethods(); i++ {
		fs = append(fs, u.Method(i))
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	return fs
}

// symTag begins the tag that stands for one with symbolic bytes.
const symTag = "\x00symbolic tag "

func (m *Machine) rtIface(t types.Type) value {
	if t == nil {
		return iface{}
	}
	return iface{m.canon(m.p.rtypeT), m.rtype(t)}
}

func rt(v value) types.Type {
	switch x := v.(type) {
	case *rtypeV:
		return x.t
	case iface:
		if r, ok := x.v.(*rtypeV); ok {
			return r.t
		}
	}
	panic(unsupported(fmt.Sprintf("reflect type is %T", v)))
}

func (m *Machine) rpanic(msg string) targetPanic { return m.runtimePanic(msg) }

func (m *Machine) structField(t types.Type, i int) value {
	u := t.Underlying().(*types.Struct)
	f := u.Field(i)
	pp := ""
	if !f.Exported() {
		pp = reflPkgPath(f.Pkg())
	}
	m.p.mu.Lock()
	offs := int64(0)
	if u.NumFields() > 0 {
		var fs []*types.Var
		for k := 0; k <= i; k++ {
			fs = append(fs, u.Field(k))
		}
		offs = m.p.sizes.Offsetsof(fs)[i]
	}
	m.p.mu.Unlock()
	var tag value = u.Tag(i)
	if s := u.Tag(i); strings.HasPrefix(s, symTag) {
		n, _ := strconv.Atoi(s[len(symTag):])
		tag = m.extState["symtags"].([]value)[n]
	}
	return structure{f.Name(), pp, m.rtIface(f.Type()), tag, uint64(offs), []value{uint64(i)}, f.Embedded()}
}

// methods visible through reflection, sorted by name.
func (m *Machine) reflMethods(t types.Type) []*types.Func {
	if it, ok := t.Underlying().(*types.Interface); ok {
		return sortedIfaceMethods(it)
	}
	m.p.mu.Lock()
	defer m.p.mu.Unlock()
	ms := m.p.prog.MethodSets.MethodSet(t)
	var r []*types.Func
	for i := 0; i < ms.Len(); i++ {
		if f := ms.At(i).Obj().(*types.Func); f.Exported() {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

func dropRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func (m *Machine) methodSig(t types.Type, f *types.Func) *types.Signature {
	return dropRecv(f.Type().(*types.Signature))
}

func (m *Machine) reflMethodStruct(t types.Type, i int) value {
	fs := m.reflMethods(t)
	if i < 0 || i >= len(fs) {
		panic(m.rpanic("reflect: Method index out of range"))
	}
	f := fs[i]
	pp := ""
	if !f.Exported() {
		pp = reflPkgPath(f.Pkg())
	}
	sig := m.methodSig(t, f)
	if types.IsInterface(t) {
		return structure{f.Name(), pp, m.rtIface(sig), m.packRV(rv{}), uint64(i)}
	}
	// with receiver as first parameter
	ps := []*types.Var{types.NewVar(token.NoPos, nil, "", t)}
	for k := 0; k < sig.Params().Len(); k++ {
		ps = append(ps, sig.Params().At(k))
	}
	ft := types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), sig.Variadic())
	var fn value = (*ssa.Function)(nil)
	if sf := m.methodByName(t, f.Pkg(), f.Name()); sf != nil {
		fn = sf
	}
	return structure{f.Name(), pp, m.rtIface(ft), m.packRV(rv{ft, fn, 0}), uint64(i)}
}

// assignTo converts r for assignment to a location of type dst.
func (m *Machine) assignTo(r rv, dst types.Type) value {
	v := r.get()
	if types.IsInterface(dst) {
		if types.IsInterface(r.t) {
			i := v.(iface)
			if i.t != nil && !m.implements(i.t, m.canon(dst)) {
				panic(m.rpanic("reflect.Set: value is not assignable"))
			}
			return i
		}
		if !m.implements(r.t, m.canon(dst)) {
			panic(m.rpanic(fmt.Sprintf("reflect.Set: value of type %s is not assignable to type %s", reflString(r.t), reflString(dst))))
		}
		return iface{m.canon(r.t), copyVal(v)}
	}
	if m.identical(r.t, dst) {
		return v
	}
	m.p.mu.Lock()
	ok := types.AssignableTo(r.t, dst)
	m.p.mu.Unlock()
	if ok {
		return v
	}
	panic(m.rpanic(fmt.Sprintf("reflect.Set: value of type %s is not assignable to type %s", reflString(r.t), reflString(dst))))
}

func (m *Machine) mustSet(r rv, op string) *value {
	if r.fl&rfRO != 0 {
		panic(m.rpanic("reflect: " + op + " using value obtained using unexported field"))
	}
	if r.fl&rfAddr == 0 {
		panic(m.rpanic("reflect: " + op + " using unaddressable value"))
	}
	return r.data.(*value)
}

func (m *Machine) mustKind(r rv, op string, ks ...reflect.Kind) {
	k := reflect.Invalid
	if r.valid() {
		k = reflKind(r.t)
	}
	for _, x := range ks {
		if x == k {
			return
		}
	}
	panic(m.rpanic("reflect: call of reflect.Value." + op + " on " + k.String() + " Value"))
}

func (m *Machine) rField(r rv, i int) rv {
	m.mustKind(r, "Field", reflect.Struct)
	u := r.t.Underlying().(*types.Struct)
	if i < 0 || i >= u.NumFields() {
		panic(m.rpanic("reflect: Field index out of range"))
	}
	f := u.Field(i)
	n := rv{t: f.Type(), fl: r.fl & (rfRO | rfAddr)}
	if !f.Exported() {
		n.fl |= rfRO
	}
	s := r.get().(structure)
	if r.fl&rfAddr != 0 {
		n.data = &s[i]
	} else {
		n.data = s[i]
	}
	return n
}

func (m *Machine) rElem(r rv) rv {
	m.mustKind(r, "Elem", reflect.Ptr, reflect.Interface)
	switch v := r.get().(type) {
	case iface:
		if v.t == nil {
			return rv{}
		}
		return rv{v.t, v.v, r.fl & rfRO}
	case *value:
		if v == nil {
			return rv{}
		}
		return rv{r.t.Underlying().(*types.Pointer).Elem(), v, r.fl&rfRO | rfAddr}
	}
	panic(unsupported(fmt.Sprintf("reflect Elem of %T", r.get())))
}

func (m *Machine) rIndex(r rv, iv value) rv {
	m.mustKind(r, "Index", reflect.Slice, reflect.Array, reflect.String)
	k := int64(m.concretize(iv, "reflect index"))
	switch s := r.get().(type) {
	case []value:
		if k < 0 || k >= int64(len(s)) {
			panic(m.rpanic("reflect: slice index out of range"))
		}
		return rv{r.t.Underlying().(*types.Slice).Elem(), &s[k], r.fl&rfRO | rfAddr}
	case array:
		if k < 0 || k >= int64(len(s)) {
			panic(m.rpanic("reflect: array index out of range"))
		}
		et := r.t.Underlying().(*types.Array).Elem()
		if r.fl&rfAddr != 0 {
			return rv{et, &s[k], r.fl}
		}
		return rv{et, s[k], r.fl}
	case string, *symStr:
		if k < 0 || k >= int64(strLen(s)) {
			panic(m.rpanic("reflect: string index out of range"))
		}
		return rv{types.Typ[types.Uint8], strByte(s, int(k)), r.fl & rfRO}
	}
	panic(unsupported(fmt.Sprintf("reflect Index of %T", r.get())))
}

func (m *Machine) rIface(r rv) value {
	if !r.valid() {
		panic(m.rpanic("reflect: call of reflect.Value.Interface on zero Value"))
	}
	if r.fl&rfRO != 0 {
		panic(m.rpanic("reflect.Value.Interface: cannot return value obtained from unexported field or method"))
	}
	v := r.get()
	if i, ok := v.(iface); ok && types.IsInterface(r.t) {
		return i
	}
	return iface{m.canon(r.t), copyVal(v)}
}

func (m *Machine) rIsNil(r rv) bool {
	m.mustKind(r, "IsNil", reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer)
	switch v := r.get().(type) {
	case *value:
		return v == nil
	case iface:
		return v.t == nil
	case []value:
		return v == nil
	case *mapv:
		return v == nil
	case *chanv:
		return v == nil
	case *ssa.Function:
		return v == nil
	case nil:
		return true
	}
	return false
}

func (m *Machine) rIsZero(v value) value {
	switch x := v.(type) {
	case bool:
		return !x
	case uint64:
		return x == 0
	case float64:
		return float64bits(x) == 0
	case complex128:
		return x == 0
	case string:
		return x == ""
	case *symStr:
		return len(x.b) == 0
	case *Term:
		if x.w == 0 {
			return m.vnot(x)
		}
		return val(m.tb.eq(x, m.tb.konst(x.w, 0)))
	case *value:
		return x == nil
	case iface:
		return x.t == nil
	case []value:
		return x == nil
	case *mapv:
		return x == nil
	case *chanv:
		return x == nil
	case structure:
		var r value = true
		for _, e := range x {
			r = m.vand(r, m.rIsZero(e))
		}
		return r
	case array:
		var r value = true
		for _, e := range x {
			r = m.vand(r, m.rIsZero(e))
		}
		return r
	}
	return isNilFunc(v)
}

func (m *Machine) rMethod(r rv, f *types.Func) rv {
	sig := m.methodSig(r.t, f)
	recv := copyVal(r.get())
	var nt types.Type = r.t
	if types.IsInterface(r.t) {
		i := recv.(iface)
		if i.t == nil {
			panic(m.rpanic("reflect: Method on nil interface value"))
		}
		nt, recv = i.t, i.v
	}
	fn := m.methodByName(nt, f.Pkg(), f.Name())
	if fn == nil {
		panic(unsupported("reflect method " + f.Name()))
	}
	return rv{sig, &native{f.Name(), func(m *Machine, a []value) value {
		return m.callFn(nil, fn, append([]value{recv}, a...), nil)
	}}, r.fl & rfRO}
}

func (m *Machine) rCall(r rv, in []rv) []value {
	m.mustKind(r, "Call", reflect.Func)
	if r.fl&rfRO != 0 {
		panic(m.rpanic("reflect: reflect.Value.Call using value obtained using unexported field"))
	}
	sig := r.t.Underlying().(*types.Signature)
	np := sig.Params().Len()
	var args []value
	if sig.Variadic() {
		if len(in) < np-1 {
			panic(m.rpanic("reflect: Call with too few input arguments"))
		}
		for i := 0; i < np-1; i++ {
			args = append(args, copyVal(m.assignTo(in[i], sig.Params().At(i).Type())))
		}
		et := sig.Params().At(np - 1).Type().Underlying().(*types.Slice).Elem()
		rest := []value{}
		for _, x := range in[np-1:] {
			rest = append(rest, copyVal(m.assignTo(x, et)))
		}
		args = append(args, rest)
	} else {
		if len(in) < np {
			panic(m.rpanic("reflect: Call with too few input arguments"))
		}
		if len(in) > np {
			panic(m.rpanic("reflect: Call with too many input arguments"))
		}
		for i, x := range in {
			if !x.valid() {
				panic(m.rpanic("reflect: Call using zero Value argument"))
			}
			args = append(args, copyVal(m.assignTo(x, sig.Params().At(i).Type())))
		}
	}
	res := m.callValue(nil, r.get(), args)
	var out []value
	switch n := sig.Results().Len(); n {
	case 0:
	case 1:
		out = append(out, m.packRV(rv{sig.Results().At(0).Type(), res, 0}))
	default:
		for i := 0; i < n; i++ {
			out = append(out, m.packRV(rv{sig.Results().At(i).Type(), res.(tuple)[i], 0}))
		}
	}
	return out
}

func (m *Machine) mapIterFor(mv *mapv) *mapIter {
	if mv == nil {
		return &mapIter{m: &mapv{}}
	}
	it := &mapIter{m: mv, n: len(mv.entries)}
	if m.mapOrder && m.curCaller != nil && m.curCaller.c.target {
		it.perm = true
		it.done = map[int]bool{}
	}
	return it
}

func (m *Machine) rConvert(r rv, t types.Type) rv {
	m.p.mu.Lock()
	ok := types.ConvertibleTo(r.t, t)
	m.p.mu.Unlock()
	if !ok {
		panic(m.rpanic("reflect.Value.Convert: value of type " + reflString(r.t) + " cannot be converted to type " + reflString(t)))
	}
	v := r.get()
	if types.IsInterface(t) {
		return rv{t, m.assignTo(r, t), r.fl & rfRO}
	}
	if types.Identical(r.t.Underlying(), t.Underlying()) {
		return rv{t, copyVal(v), r.fl & rfRO}
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return rv{t, v, r.fl & rfRO}
	}
	return rv{t, m.convert(r.t, t, v), r.fl & rfRO}
}

// deepEqual follows reflect.DeepEqual.
func (m *Machine) deepEqual(t types.Type, a, b value, seen map[[2]*value]bool) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, ok1 := a.(*value)
		q, ok2 := b.(*value)
		if !ok1 || !ok2 {
			return m.truth(m.eqVals(a, b))
		}
		if p == q {
			return true
		}
		if p == nil || q == nil {
			return false
		}
		k := [2]*value{p, q}
		if seen[k] {
			return true
		}
		seen[k] = true
		return m.deepEqual(u.Elem(), *p, *q, seen)
	case *types.Struct:
		x, y := a.(structure), b.(structure)
		for i := range x {
			if !m.deepEqual(u.Field(i).Type(), x[i], y[i], seen) {
				return false
			}
		}
		return true
	case *types.Array:
		x, y := a.(array), b.(array)
		for i := range x {
			if !m.deepEqual(u.Elem(), x[i], y[i], seen) {
				return false
			}
		}
		return true
	case *types.Slice:
		x, y := a.([]value), b.([]value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !m.deepEqual(u.Elem(), x[i], y[i], seen) {
				return false
			}
		}
		return true
	case *types.Interface:
		x, y := a.(iface), b.(iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !m.identical(x.t, y.t) {
			return false
		}
		return m.deepEqual(x.t, x.v, y.v, seen)
	case *types.Map:
		x, y := a.(*mapv), b.(*mapv)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == y {
			return true
		}
		if x.n != y.n {
			return false
		}
		for _, e := range x.entries {
			if !e.live {
				continue
			}
			k := m.mapFind(y, e.k)
			if k < 0 || !m.deepEqual(u.Elem(), e.v, y.entries[k].v, seen) {
				return false
			}
		}
		return true
	case *types.Signature:
		return isNilFunc(a) && isNilFunc(b)
	}
	return m.truth(m.eqVals(a, b))
}

func init() {
	R := func(name string, f intrinsic) { intrinsics[name] = f }
	T := func(name string, f func(m *Machine, t types.Type, a []value) value) {
		R("(*reflect.rtype)."+name, func(m *Machine, a []value) value {
			r, ok := a[0].(*rtypeV)
			if !ok {
				panic(m.nilDeref())
			}
			return f(m, r.t, a)
		})
	}
	V := func(name string, f func(m *Machine, r rv, a []value) value) {
		R("(reflect.Value)."+name, func(m *Machine, a []value) value { return f(m, m.unpackRV(a[0]), a) })
	}
	kindOf := func(r rv) reflect.Kind {
		if !r.valid() {
			return reflect.Invalid
		}
		return reflKind(r.t)
	}

	// ---- types
	T("Kind", func(m *Machine, t types.Type, a []value) value { return uint64(reflKind(t)) })
	T("Name", func(m *Machine, t types.Type, a []value) value { return reflName(t) })
	T("String", func(m *Machine, t types.Type, a []value) value { return reflString(t) })
	T("PkgPath", func(m *Machine, t types.Type, a []value) value {
		if n, ok := t.(*types.Named); ok {
			return reflPkgPath(n.Obj().Pkg())
		}
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return "unsafe"
		}
		return ""
	})
	T("Elem", func(m *Machine, t types.Type, a []value) value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return m.rtIface(u.Elem())
		case *types.Slice:
			return m.rtIface(u.Elem())
		case *types.Array:
			return m.rtIface(u.Elem())
		case *types.Chan:
			return m.rtIface(u.Elem())
		case *types.Map:
			return m.rtIface(u.Elem())
		}
		panic(m.rpanic("reflect: Elem of invalid type " + reflString(t)))
	})
	T("Key", func(m *Machine, t types.Type, a []value) value {
		if u, ok := t.Underlying().(*types.Map); ok {
			return m.rtIface(u.Key())
		}
		panic(m.rpanic("reflect: Key of non-map type " + reflString(t)))
	})
	T("Len", func(m *Machine, t types.Type, a []value) value {
		if u, ok := t.Underlying().(*types.Array); ok {
			return uint64(u.Len())
		}
		panic(m.rpanic("reflect: Len of non-array type " + reflString(t)))
	})
	T("NumField", func(m *Machine, t types.Type, a []value) value {
		if u, ok := t.Underlying().(*types.Struct); ok {
			return uint64(u.NumFields())
		}
		panic(m.rpanic("reflect: NumField of non-struct type " + reflString(t)))
	})
	T("Field", func(m *Machine, t types.Type, a []value) value {
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(m.rpanic("reflect: Field of non-struct type " + reflString(t)))
		}
		i := int64(m.concretize(a[1], "field index"))
		if i < 0 || i >= int64(u.NumFields()) {
			panic(m.rpanic("reflect: Field index out of bounds"))
		}
		return m.structField(t, int(i))
	})
	T("FieldByName", func(m *Machine, t types.Type, a []value) value {
		u := t.Underlying().(*types.Struct)
		name := m.modelStr(a[1], m.model)
		if _, ok := a[1].(string); !ok {
			panic(unsupported("FieldByName symbolic"))
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return tuple{m.structField(t, i), true}
			}
		}
		// promoted fields
		m.p.mu.Lock()
		obj, index, _ := types.LookupFieldOrMethod(t, true, m.p.main.Pkg, name)
		if obj == nil {
			obj, index, _ = types.LookupFieldOrMethod(t, true, nil, name)
		}
		m.p.mu.Unlock()
		if v, ok := obj.(*types.Var); ok && v.IsField() {
			cur := t
			for _, k := range index[:len(index)-1] {
				cur = cur.Underlying().(*types.Struct).Field(k).Type()
				if p, ok := cur.Underlying().(*types.Pointer); ok {
					cur = p.Elem()
				}
			}
			sf := m.structField(cur, index[len(index)-1]).(structure)
			var ix []value
			for _, k := range index {
				ix = append(ix, uint64(k))
			}
			sf[5] = ix
			return tuple{sf, true}
		}
		return tuple{structure{"", "", iface{}, "", uint64(0), []value(nil), false}, false}
	})
	T("NumIn", func(m *Machine, t types.Type, a []value) value {
		return uint64(m.fnType(t, "NumIn").Params().Len())
	})
	T("NumOut", func(m *Machine, t types.Type, a []value) value {
		return uint64(m.fnType(t, "NumOut").Results().Len())
	})
	T("In", func(m *Machine, t types.Type, a []value) value {
		s := m.fnType(t, "In")
		i := int(m.concretize(a[1], "In"))
		if i < 0 || i >= s.Params().Len() {
			panic(m.rpanic("index out of range"))
		}
		return m.rtIface(s.Params().At(i).Type())
	})
	T("Out", func(m *Machine, t types.Type, a []value) value {
		s := m.fnType(t, "Out")
		i := int(m.concretize(a[1], "Out"))
		if i < 0 || i >= s.Results().Len() {
			panic(m.rpanic("index out of range"))
		}
		return m.rtIface(s.Results().At(i).Type())
	})
	T("IsVariadic", func(m *Machine, t types.Type, a []value) value { return m.fnType(t, "IsVariadic").Variadic() })
	T("ChanDir", func(m *Machine, t types.Type, a []value) value {
		u, ok := t.Underlying().(*types.Chan)
		if !ok {
			panic(m.rpanic("reflect: ChanDir of non-chan type " + reflString(t)))
		}
		switch u.Dir() {
		case types.SendOnly:
			return uint64(reflect.SendDir)
		case types.RecvOnly:
			return uint64(reflect.RecvDir)
		}
		return uint64(reflect.BothDir)
	})
	T("NumMethod", func(m *Machine, t types.Type, a []value) value { return uint64(len(m.reflMethods(t))) })
	T("Method", func(m *Machine, t types.Type, a []value) value {
		return m.reflMethodStruct(t, int(m.concretize(a[1], "Method")))
	})
	T("MethodByName", func(m *Machine, t types.Type, a []value) value {
		n, ok := a[1].(string)
		if !ok {
			panic(unsupported("MethodByName symbolic"))
		}
		for i, f := range m.reflMethods(t) {
			if f.Name() == n {
				return tuple{m.reflMethodStruct(t, i), true}
			}
		}
		return tuple{structure{"", "", iface{}, m.packRV(rv{}), uint64(0)}, false}
	})
	T("Implements", func(m *Machine, t types.Type, a []value) value {
		u := rt(a[1])
		if !types.IsInterface(u) {
			panic(m.rpanic("reflect: non-interface type passed to Type.Implements"))
		}
		return m.implements(m.canon(t), m.canon(u))
	})
	T("AssignableTo", func(m *Machine, t types.Type, a []value) value {
		m.p.mu.Lock()
		defer m.p.mu.Unlock()
		return types.AssignableTo(t, rt(a[1]))
	})
	T("ConvertibleTo", func(m *Machine, t types.Type, a []value) value {
		m.p.mu.Lock()
		defer m.p.mu.Unlock()
		return types.ConvertibleTo(t, rt(a[1]))
	})
	T("Comparable", func(m *Machine, t types.Type, a []value) value { return types.Comparable(t) })
	T("Size", func(m *Machine, t types.Type, a []value) value { return uint64(m.sizeof(t)) })
	T("Bits", func(m *Machine, t types.Type, a []value) value { return uint64(m.sizeof(t) * 8) })
	T("common", func(m *Machine, t types.Type, a []value) value { return a[0] })

	ptrTo := func(m *Machine, a []value) value { return m.rtIface(types.NewPointer(rt(a[0]))) }
	R("reflect.PtrTo", ptrTo)
	R("reflect.PointerTo", ptrTo)
	R("(reflect.Kind).String", func(m *Machine, a []value) value {
		return reflect.Kind(m.concretize(a[0], "Kind.String")).String()
	})
	R("(reflect.ChanDir).String", func(m *Machine, a []value) value {
		return reflect.ChanDir(m.concretize(a[0], "ChanDir.String")).String()
	})
	R("reflect.SliceOf", func(m *Machine, a []value) value { return m.rtIface(types.NewSlice(rt(a[0]))) })
	R("reflect.ArrayOf", func(m *Machine, a []value) value {
		return m.rtIface(types.NewArray(rt(a[1]), int64(m.concretize(a[0], "ArrayOf"))))
	})
	R("reflect.MapOf", func(m *Machine, a []value) value { return m.rtIface(types.NewMap(rt(a[0]), rt(a[1]))) })
	R("reflect.ChanOf", func(m *Machine, a []value) value {
		d := types.SendRecv
		switch reflect.ChanDir(m.concretize(a[0], "ChanOf")) {
		case reflect.SendDir:
			d = types.SendOnly
		case reflect.RecvDir:
			d = types.RecvOnly
		}
		return m.rtIface(types.NewChan(d, rt(a[1])))
	})
	R("reflect.StructOf", func(m *Machine, a []value) value {
		var fs []*types.Var
		var tags []string
		for _, e := range a[0].([]value) {
			f := e.(structure)
			name, ok1 := f[0].(string)
			tag, ok2 := f[3].(string)
			if st, ok := f[3].(*symStr); ok { // stands for a tag with symbolic bytes
				l, _ := m.extState["symtags"].([]value)
				tag, ok2 = fmt.Sprintf("%s%d", symTag, len(l)), true
				m.extState["symtags"] = append(l, st)
			}
			if !ok1 || !ok2 || !token.IsExported(name) || m.truth(f[6]) {
				panic(unsupported("reflect.StructOf with symbolic, unexported or embedded fields"))
			}
			fs = append(fs, types.NewField(token.NoPos, nil, name, rt(f[2]), false))
			tags = append(tags, tag)
		}
		return m.rtIface(types.NewStruct(fs, tags))
	})
	R("reflect.FuncOf", func(m *Machine, a []value) value {
		tup := func(v value) *types.Tuple {
			var vs []*types.Var
			for _, e := range v.([]value) {
				vs = append(vs, types.NewVar(token.NoPos, nil, "", rt(e)))
			}
			return types.NewTuple(vs...)
		}
		return m.rtIface(types.NewSignatureType(nil, nil, nil, tup(a[0]), tup(a[1]), m.truth(a[2])))
	})
	typeOf := func(m *Machine, a []value) value { return m.rtIface(a[0].(iface).t) }
	R("reflect.TypeOf", typeOf)
	R("internal/reflectlite.TypeOf", typeOf)

	// ---- values
	valueOf := func(m *Machine, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return m.packRV(rv{})
		}
		return m.packRV(rv{i.t, i.v, 0})
	}
	R("reflect.ValueOf", valueOf)
	R("internal/reflectlite.ValueOf", valueOf)
	R("(internal/reflectlite.Value).Len", func(m *Machine, a []value) value {
		return uint64(len(m.unpackRV(a[0]).get().([]value)))
	})
	R("(internal/reflectlite.Value).Kind", func(m *Machine, a []value) value { return uint64(kindOf(m.unpackRV(a[0]))) })
	R("(internal/reflectlite.Value).IsNil", func(m *Machine, a []value) value { return m.rIsNil(m.unpackRV(a[0])) })
	R("(internal/reflectlite.Value).Type", func(m *Machine, a []value) value { return m.rtIface(m.unpackRV(a[0]).t) })
	R("(internal/reflectlite.Value).Elem", func(m *Machine, a []value) value { return m.packRV(m.rElem(m.unpackRV(a[0]))) })
	R("(internal/reflectlite.Value).Set", func(m *Machine, a []value) value {
		r := m.unpackRV(a[0])
		m.store(m.mustSet(r, "Set"), m.assignTo(m.unpackRV(a[1]), r.t))
		return nil
	})
	swapper := func(m *Machine, a []value) value {
		s := a[0].(iface).v.([]value)
		return &native{"swapper", func(m *Machine, x []value) value {
			i, j := x[0].(uint64), x[1].(uint64)
			if i >= uint64(len(s)) || j >= uint64(len(s)) {
				panic(m.rpanic("reflect: slice index out of range"))
			}
			vi, vj := copyVal(s[i]), copyVal(s[j])
			m.store(&s[i], vj)
			m.store(&s[j], vi)
			return nil
		}}
	}
	R("reflect.Swapper", swapper)
	R("internal/reflectlite.Swapper", swapper)
	R("reflect.Zero", func(m *Machine, a []value) value {
		t := rt(a[0])
		return m.packRV(rv{t, m.zero(t), 0})
	})
	R("reflect.New", func(m *Machine, a []value) value {
		t := rt(a[0])
		return m.packRV(rv{types.NewPointer(t), m.newCell(m.zero(t)), 0})
	})
	R("reflect.NewAt", func(m *Machine, a []value) value {
		p, ok := a[1].(*value)
		if !ok {
			if u, is := a[1].(uptr); is {
				p, ok = u.p.(*value)
			}
		}
		if !ok {
			panic(unsupported(fmt.Sprintf("reflect.NewAt %T", a[1])))
		}
		return m.packRV(rv{types.NewPointer(rt(a[0])), p, 0})
	})
	R("reflect.Indirect", func(m *Machine, a []value) value {
		r := m.unpackRV(a[0])
		if kindOf(r) != reflect.Ptr {
			return a[0]
		}
		return m.packRV(m.rElem(r))
	})
	R("reflect.MakeSlice", func(m *Machine, a []value) value {
		t := rt(a[0])
		et := t.Underlying().(*types.Slice).Elem()
		n, c := int(m.concretize(a[1], "MakeSlice")), int(m.concretize(a[2], "MakeSlice"))
		s := make([]value, c)
		for i := range s {
			s[i] = m.zero(et)
		}
		return m.packRV(rv{t, s[:n], 0})
	})
	mkMap := func(m *Machine, a []value) value {
		t := rt(a[0])
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			panic(m.rpanic("reflect.MakeMapWithSize of non-map type"))
		}
		return m.packRV(rv{t, m.newMap(mt.Key(), mt.Elem()), 0})
	}
	R("reflect.MakeMap", mkMap)
	R("reflect.MakeMapWithSize", mkMap)
	R("reflect.Append", func(m *Machine, a []value) value {
		r := m.unpackRV(a[0])
		et := r.t.Underlying().(*types.Slice).Elem()
		var add []value
		for _, x := range a[1].([]value) {
			add = append(add, m.assignTo(m.unpackRV(x), et))
		}
		s, _ := r.get().([]value)
		return m.packRV(rv{r.t, m.appendVals(s, add, et), r.fl & rfRO})
	})
	R("reflect.AppendSlice", func(m *Machine, a []value) value {
		r := m.unpackRV(a[0])
		et := r.t.Underlying().(*types.Slice).Elem()
		s, _ := r.get().([]value)
		x, _ := m.unpackRV(a[1]).get().([]value)
		return m.packRV(rv{r.t, m.appendVals(s, x, et), r.fl & rfRO})
	})
	R("reflect.Copy", func(m *Machine, a []value) value {
		d, s := m.unpackRV(a[0]), m.unpackRV(a[1])
		cells := func(r rv) []value {
			switch x := r.get().(type) {
			case []value:
				return x
			case array:
				return x
			}
			return strBytes(r.get())
		}
		x, y := cells(d), cells(s)
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		tmp := make([]value, n)
		for i := range tmp {
			tmp[i] = copyVal(y[i])
		}
		for i := range tmp {
			m.store(&x[i], tmp[i])
		}
		return uint64(n)
	})
	R("reflect.DeepEqual", func(m *Machine, a []value) value {
		x, y := a[0].(iface), a[1].(iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !m.identical(x.t, y.t) {
			return false
		}
		return m.deepEqual(x.t, x.v, y.v, map[[2]*value]bool{})
	})

	V("Kind", func(m *Machine, r rv, a []value) value { return uint64(kindOf(r)) })
	R("(reflect.flag).kind", func(m *Machine, a []value) value { panic(unsupported("flag.kind")) })
	V("IsValid", func(m *Machine, r rv, a []value) value { return r.valid() })
	V("Type", func(m *Machine, r rv, a []value) value {
		if !r.valid() {
			panic(m.rpanic("reflect: call of reflect.Value.Type on zero Value"))
		}
		return m.rtIface(r.t)
	})
	V("Elem", func(m *Machine, r rv, a []value) value { return m.packRV(m.rElem(r)) })
	V("Interface", func(m *Machine, r rv, a []value) value { return m.rIface(r) })
	V("CanInterface", func(m *Machine, r rv, a []value) value {
		if !r.valid() {
			panic(m.rpanic("reflect: call of reflect.Value.CanInterface on zero Value"))
		}
		return r.fl&rfRO == 0
	})
	V("CanSet", func(m *Machine, r rv, a []value) value { return r.fl&(rfRO|rfAddr) == rfAddr })
	V("CanAddr", func(m *Machine, r rv, a []value) value { return r.fl&rfAddr != 0 })
	V("Addr", func(m *Machine, r rv, a []value) value {
		if r.fl&rfAddr == 0 {
			panic(m.rpanic("reflect.Value.Addr of unaddressable value"))
		}
		return m.packRV(rv{types.NewPointer(r.t), r.data, r.fl & rfRO})
	})
	V("UnsafeAddr", func(m *Machine, r rv, a []value) value {
		if !r.valid() || r.fl&rfAddr == 0 {
			panic(m.rpanic("reflect.Value.UnsafeAddr of unaddressable value"))
		}
		return uptr{r.data}
	})
	ptr := func(m *Machine, r rv, a []value) value {
		switch x := r.get().(type) {
		case *value:
			if x == nil {
				return uint64(0)
			}
			return uptr{x}
		case []value:
			if x == nil {
				return uint64(0)
			}
			if cap(x) == 0 {
				return uptr{&m.p.zeroBase}
			}
			return uptr{&x[:1][0]}
		case *mapv:
			if x == nil {
				return uint64(0)
			}
			return uptr{x}
		case *chanv:
			if x == nil {
				return uint64(0)
			}
			return uptr{x}
		case *ssa.Function:
			if x == nil {
				return uint64(0)
			}
			return uptr{x}
		case *closure:
			return uptr{x}
		}
		panic(m.rpanic("reflect: call of reflect.Value.Pointer on wrong kind"))
	}
	V("Pointer", ptr)
	V("UnsafePointer", func(m *Machine, r rv, a []value) value {
		x := ptr(m, r, a)
		if _, ok := x.(uint64); ok {
			return (*value)(nil)
		}
		return x
	})
	V("NumField", func(m *Machine, r rv, a []value) value {
		m.mustKind(r, "NumField", reflect.Struct)
		return uint64(r.t.Underlying().(*types.Struct).NumFields())
	})
	V("Field", func(m *Machine, r rv, a []value) value {
		return m.packRV(m.rField(r, int(m.concretize(a[1], "Field"))))
	})
	byIndex := func(m *Machine, r rv, ix []value) rv {
		for k, x := range ix {
			if k > 0 && kindOf(r) == reflect.Ptr {
				r = m.rElem(r)
				if !r.valid() {
					panic(m.rpanic("reflect: indirection through nil pointer to embedded struct"))
				}
			}
			r = m.rField(r, int(x.(uint64)))
		}
		return r
	}
	V("FieldByIndex", func(m *Machine, r rv, a []value) value { return m.packRV(byIndex(m, r, a[1].([]value))) })
	V("FieldByIndexErr", func(m *Machine, r rv, a []value) value {
		return tuple{m.packRV(byIndex(m, r, a[1].([]value))), iface{}}
	})
	V("FieldByName", func(m *Machine, r rv, a []value) value {
		m.mustKind(r, "FieldByName", reflect.Struct)
		res := intrinsics["(*reflect.rtype).FieldByName"](m, []value{m.rtype(r.t), a[1]}).(tuple)
		if res[1] == false {
			return m.packRV(rv{})
		}
		return m.packRV(byIndex(m, r, res[0].(structure)[5].([]value)))
	})
	V("Index", func(m *Machine, r rv, a []value) value { return m.packRV(m.rIndex(r, a[1])) })
	V("Len", func(m *Machine, r rv, a []value) value {
		switch x := r.get().(type) {
		case []value:
			return uint64(len(x))
		case array:
			return uint64(len(x))
		case string, *symStr:
			return uint64(strLen(x))
		case *mapv:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case *chanv:
			return uint64(len(x.buf))
		}
		panic(m.rpanic("reflect: call of reflect.Value.Len on " + kindOf(r).String() + " Value"))
	})
	V("Cap", func(m *Machine, r rv, a []value) value {
		switch x := r.get().(type) {
		case []value:
			return uint64(cap(x))
		case array:
			return uint64(len(x))
		}
		panic(m.rpanic("reflect: call of reflect.Value.Cap"))
	})
	V("Slice", func(m *Machine, r rv, a []value) value {
		i, j := int(m.concretize(a[1], "Slice")), int(m.concretize(a[2], "Slice"))
		switch x := r.get().(type) {
		case []value:
			if i < 0 || j < i || j > cap(x) {
				panic(m.rpanic("reflect.Value.Slice: slice index out of bounds"))
			}
			return m.packRV(rv{r.t, x[i:j], r.fl & rfRO})
		case array:
			if r.fl&rfAddr == 0 {
				panic(m.rpanic("reflect.Value.Slice: slice of unaddressable array"))
			}
			if i < 0 || j < i || j > len(x) {
				panic(m.rpanic("reflect.Value.Slice: slice index out of bounds"))
			}
			return m.packRV(rv{types.NewSlice(r.t.Underlying().(*types.Array).Elem()), []value(x)[i:j], r.fl & rfRO})
		case string, *symStr:
			return m.packRV(rv{r.t, strSlice(x, i, j), r.fl & rfRO})
		}
		panic(m.rpanic("reflect: call of reflect.Value.Slice"))
	})
	V("IsNil", func(m *Machine, r rv, a []value) value { return m.rIsNil(r) })
	V("IsZero", func(m *Machine, r rv, a []value) value {
		if !r.valid() {
			panic(m.rpanic("reflect: call of reflect.Value.IsZero on zero Value"))
		}
		return m.rIsZero(r.get())
	})
	V("Set", func(m *Machine, r rv, a []value) value {
		p := m.mustSet(r, "reflect.Value.Set")
		x := m.unpackRV(a[1])
		if !x.valid() {
			panic(m.rpanic("reflect: call of reflect.Value.Set on zero Value"))
		}
		if x.fl&rfRO != 0 {
			panic(m.rpanic("reflect: reflect.Value.Set using value obtained using unexported field"))
		}
		m.store(p, copyVal(m.assignTo(x, r.t)))
		return nil
	})
	V("SetZero", func(m *Machine, r rv, a []value) value {
		m.store(m.mustSet(r, "SetZero"), m.zero(r.t))
		return nil
	})
	setter := func(name string, ks ...reflect.Kind) {
		V(name, func(m *Machine, r rv, a []value) value {
			p := m.mustSet(r, "reflect.Value."+name)
			m.mustKind(r, name, ks...)
			v := a[1]
			if w, _ := m.intInfo(r.t); w > 0 {
				v = m.convert(types.Typ[types.Int64], r.t, v)
			}
			m.store(p, v)
			return nil
		})
	}
	setter("SetString", reflect.String)
	setter("SetBool", reflect.Bool)
	setter("SetInt", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	setter("SetUint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	setter("SetFloat", reflect.Float32, reflect.Float64)
	setter("SetBytes", reflect.Slice)
	V("SetLen", func(m *Machine, r rv, a []value) value {
		p := m.mustSet(r, "SetLen")
		s := (*p).([]value)
		n := int(m.concretize(a[1], "SetLen"))
		if n < 0 || n > cap(s) {
			panic(m.rpanic("reflect: slice length out of range in SetLen"))
		}
		m.store(p, s[:n])
		return nil
	})
	V("SetMapIndex", func(m *Machine, r rv, a []value) value {
		m.mustKind(r, "SetMapIndex", reflect.Map)
		if r.fl&rfRO != 0 {
			panic(m.rpanic("reflect: SetMapIndex using value obtained using unexported field"))
		}
		mt := r.t.Underlying().(*types.Map)
		k, e := m.unpackRV(a[1]), m.unpackRV(a[2])
		if k.fl&rfRO != 0 || e.fl&rfRO != 0 {
			panic(m.rpanic("reflect: SetMapIndex using value obtained using unexported field"))
		}
		mv, _ := r.get().(*mapv)
		kv := m.assignTo(k, mt.Key())
		if !e.valid() {
			m.mapDelete(mv, kv)
			return nil
		}
		m.mapSet(mv, kv, m.assignTo(e, mt.Elem()))
		return nil
	})
	V("MapIndex", func(m *Machine, r rv, a []value) value {
		m.mustKind(r, "MapIndex", reflect.Map)
		mt := r.t.Underlying().(*types.Map)
		k := m.unpackRV(a[1])
		mv, _ := r.get().(*mapv)
		i := m.mapFind(mv, m.assignTo(k, mt.Key()))
		if i < 0 {
			return m.packRV(rv{})
		}
		return m.packRV(rv{mt.Elem(), copyVal(mv.entries[i].v), (r.fl | k.fl) & rfRO})
	})
	V("MapKeys", func(m *Machine, r rv, a []value) value {
		m.mustKind(r, "MapKeys", reflect.Map)
		mt := r.t.Underlying().(*types.Map)
		mv, _ := r.get().(*mapv)
		it := m.mapIterFor(mv)
		out := []value{}
		for {
			k, ok := it.next(m)
			if !ok {
				return out
			}
			out = append(out, m.packRV(rv{mt.Key(), copyVal(mv.entries[k].k), r.fl & rfRO}))
		}
	})
	V("MapRange", func(m *Machine, r rv, a []value) value {
		m.mustKind(r, "MapRange", reflect.Map)
		mv, _ := r.get().(*mapv)
		return m.newCell(structure{m.packRV(r), &rmapIter{r: r, it: m.mapIterFor(mv), cur: -1}})
	})
	mi := func(a []value) *rmapIter { return (*ptrOf(a[0])).(structure)[1].(*rmapIter) }
	R("(*reflect.MapIter).Next", func(m *Machine, a []value) value {
		x := mi(a)
		k, ok := x.it.next(m)
		x.cur = k
		return ok
	})
	R("(*reflect.MapIter).Key", func(m *Machine, a []value) value {
		x := mi(a)
		return m.packRV(rv{x.r.t.Underlying().(*types.Map).Key(), copyVal(x.it.m.entries[x.cur].k), x.r.fl & rfRO})
	})
	R("(*reflect.MapIter).Value", func(m *Machine, a []value) value {
		x := mi(a)
		return m.packRV(rv{x.r.t.Underlying().(*types.Map).Elem(), copyVal(x.it.m.entries[x.cur].v), x.r.fl & rfRO})
	})
	V("Int", func(m *Machine, r rv, a []value) value {
		m.mustKind(r, "Int", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
		return m.convert(r.t, types.Typ[types.Int64], r.get())
	})
	V("Uint", func(m *Machine, r rv, a []value) value {
		m.mustKind(r, "Uint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
		return m.convert(r.t, types.Typ[types.Uint64], r.get())
	})
	V("Float", func(m *Machine, r rv, a []value) value {
		m.mustKind(r, "Float", reflect.Float32, reflect.Float64)
		return r.get()
	})
	V("Complex", func(m *Machine, r rv, a []value) value {
		m.mustKind(r, "Complex", reflect.Complex64, reflect.Complex128)
		return r.get()
	})
	V("Bool", func(m *Machine, r rv, a []value) value {
		m.mustKind(r, "Bool", reflect.Bool)
		return r.get()
	})
	V("String", func(m *Machine, r rv, a []value) value {
		if kindOf(r) == reflect.String {
			return r.get()
		}
		if !r.valid() {
			return "<invalid Value>"
		}
		return "<" + reflString(r.t) + " Value>"
	})
	V("Bytes", func(m *Machine, r rv, a []value) value {
		switch x := r.get().(type) {
		case []value:
			return x
		case array:
			return []value(x)
		}
		panic(m.rpanic("reflect: call of reflect.Value.Bytes"))
	})
	is := func(name string, ks ...reflect.Kind) {
		V(name, func(m *Machine, r rv, a []value) value {
			k := kindOf(r)
			for _, x := range ks {
				if x == k {
					return true
				}
			}
			return false
		})
	}
	is("CanInt", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	is("CanUint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	is("CanFloat", reflect.Float32, reflect.Float64)
	is("CanComplex", reflect.Complex64, reflect.Complex128)
	V("NumMethod", func(m *Machine, r rv, a []value) value { return uint64(len(m.reflMethods(r.t))) })
	V("Method", func(m *Machine, r rv, a []value) value {
		fs := m.reflMethods(r.t)
		return m.packRV(m.rMethod(r, fs[m.concretize(a[1], "Method")]))
	})
	V("MethodByName", func(m *Machine, r rv, a []value) value {
		if !r.valid() {
			panic(m.rpanic("reflect: call of reflect.Value.MethodByName on zero Value"))
		}
		n, ok := a[1].(string)
		if !ok {
			panic(unsupported("MethodByName symbolic"))
		}
		for _, f := range m.reflMethods(r.t) {
			if f.Name() == n {
				return m.packRV(m.rMethod(r, f))
			}
		}
		return m.packRV(rv{})
	})
	V("Call", func(m *Machine, r rv, a []value) value {
		var in []rv
		for _, x := range a[1].([]value) {
			in = append(in, m.unpackRV(x))
		}
		out := m.rCall(r, in)
		if out == nil {
			out = []value{}
		}
		return out
	})
	V("Convert", func(m *Machine, r rv, a []value) value { return m.packRV(m.rConvert(r, rt(a[1]))) })
	V("CanConvert", func(m *Machine, r rv, a []value) value {
		m.p.mu.Lock()
		defer m.p.mu.Unlock()
		return types.ConvertibleTo(r.t, rt(a[1]))
	})
	V("Comparable", func(m *Machine, r rv, a []value) value {
		if !r.valid() {
			return true
		}
		if i, ok := r.get().(iface); ok && types.IsInterface(r.t) {
			return i.t == nil || types.Comparable(i.t)
		}
		return types.Comparable(r.t)
	})
	V("Equal", func(m *Machine, r rv, a []value) value {
		o := m.unpackRV(a[1])
		if types.IsInterface(r.t) {
			r = m.rElem(r)
		}
		if o.t != nil && types.IsInterface(o.t) {
			o = m.rElem(o)
		}
		if !r.valid() || !o.valid() {
			return r.valid() == o.valid()
		}
		if !m.identical(r.t, o.t) {
			return false
		}
		return m.eqVals(r.get(), o.get())
	})
	V("Grow", func(m *Machine, r rv, a []value) value { return nil })
	V("typ", func(m *Machine, r rv, a []value) value {
		if !r.valid() {
			return (*value)(nil)
		}
		return m.rtype(r.t)
	})
}

type rmapIter struct {
	r   rv
	it  *mapIter
	cur int
}

func (m *Machine) fnType(t types.Type, op string) *types.Signature {
	s, ok := t.Underlying().(*types.Signature)
	if !ok {
		panic(m.rpanic("reflect: " + op + " of non-func type " + reflString(t)))
	}
	return s
}
