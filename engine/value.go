package main

import (
	"fmt"
	"go/types"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Values of the interpreted program:
//
//	bool, *Term(w=0)         booleans
//	uint64, *Term            integers of every size (bit pattern masked to the width)
//	float64, complex128      floating point (float32 values are kept rounded)
//	string, *symStr          strings (a symStr has a concrete length and at least one symbolic byte)
//	*value, *symAddr         pointers
//	[]value                  slices
//	structure, array         aggregates
//	*mapv                    maps
//	iface                    interfaces
//	*ssa.Function, *closure, *ssa.Builtin, *native   functions
//	*rtypeV                  the dynamic value behind reflect.Type
//	tuple                    multiple results
type value any

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type // nil for a nil interface
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type native struct {
	name string
	f    func(m *Machine, args []value) value
}

type symStr struct{ b []value }

type symAddr struct {
	cells []value
	idx   *Term // 64-bit, known in range
}

type rtypeV struct{ t types.Type }

type bad struct{}

// ---- strings

func strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *symStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strByte(v value, i int) value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *symStr:
		return s.b[i]
	}
	panic("strByte")
}

func strBytes(v value) []value {
	switch s := v.(type) {
	case string:
		b := make([]value, len(s))
		for i := range b {
			b[i] = uint64(s[i])
		}
		return b
	case *symStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

// mkStr copies b.
func mkStr(b []value) value {
	conc := true
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			conc = false
			break
		}
	}
	if conc {
		var sb strings.Builder
		sb.Grow(len(b))
		for _, x := range b {
			sb.WriteByte(byte(x.(uint64)))
		}
		return sb.String()
	}
	return &symStr{append([]value(nil), b...)}
}

func strSlice(v value, lo, hi int) value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *symStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

func strConcat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return &symStr{r}
}

// ---- terms

func (m *Machine) term(v value, w uint8) *Term {
	switch x := v.(type) {
	case *Term:
		if x.w != w {
			panic(fmt.Sprintf("term width %d, want %d", x.w, w))
		}
		return x
	case uint64:
		return m.tb.konst(w, x)
	case bool:
		return m.tb.boolc(x)
	}
	panic(fmt.Sprintf("term of %T", v))
}

func val(t *Term) value {
	if t.op == OConst {
		if t.w == 0 {
			return t.k == 1
		}
		return t.k
	}
	return t
}

func (m *Machine) vnot(v value) value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return val(m.tb.not(v.(*Term)))
}

func (m *Machine) vand(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return val(m.tb.and(a.(*Term), b.(*Term)))
}

func (m *Machine) vor(a, b value) value { return m.vnot(m.vand(m.vnot(a), m.vnot(b))) }

func (m *Machine) strEq(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	var r value = true
	for i := 0; i < n; i++ {
		x, y := strByte(a, i), strByte(b, i)
		if cx, ok := x.(uint64); ok {
			if cy, ok := y.(uint64); ok {
				if cx != cy {
					return false
				}
				continue
			}
		}
		r = m.vand(r, val(m.tb.eq(m.term(x, 8), m.term(y, 8))))
		if r == false {
			return false
		}
	}
	return r
}

// strLess is a < b.
func (m *Machine) strLess(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	na, nb := strLen(a), strLen(b)
	n := na
	if nb < n {
		n = nb
	}
	r := m.tb.boolc(na < nb)
	for i := n - 1; i >= 0; i-- {
		x, y := m.term(strByte(a, i), 8), m.term(strByte(b, i), 8)
		r = m.tb.ite(m.tb.cmp(OUlt, x, y), m.tb.boolc(true), m.tb.ite(m.tb.eq(x, y), r, m.tb.boolc(false)))
	}
	return val(r)
}

// ---- aggregates

func copyVal(v value) value {
	switch x := v.(type) {
	case structure:
		n := make(structure, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	case array:
		n := make(array, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	}
	return v
}

func (m *Machine) store(p *value, v value) {
	switch x := v.(type) {
	case structure:
		if d, ok := (*p).(structure); ok && len(d) == len(x) {
			for i := range x {
				m.store(&d[i], x[i])
			}
			return
		}
		v = copyVal(v)
	case array:
		if d, ok := (*p).(array); ok && len(d) == len(x) {
			for i := range x {
				m.store(&d[i], x[i])
			}
			return
		}
		v = copyVal(v)
	}
	if !m.inInit {
		m.undo = append(m.undo, undoRec{p, *p})
	}
	*p = v
}

type undoRec struct {
	p   *value
	old value
}

func (m *Machine) zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case u.Kind() == types.UntypedNil:
			return (*value)(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*mapv)(nil)
	case *types.Chan:
		return (*chanv)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return iface{}
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 1<<24 {
			panic(unsupported("very large array"))
		}
		a := make(array, u.Len())
		if len(a) > 0 {
			z := m.zero(u.Elem())
			switch z.(type) {
			case structure, array:
				for i := range a {
					a[i] = copyVal(z)
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		r := make(tuple, u.Len())
		for i := range r {
			r[i] = m.zero(u.At(i).Type())
		}
		return r
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported(fmt.Sprintf("zero of %v", t)))
}

func (m *Machine) newCell(v value) *value {
	p := new(value)
	*p = v
	return p
}

// ---- equality

func isNilFunc(v value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case nil:
		return true
	}
	return false
}

func (m *Machine) eqVals(x, y value) value {
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return val(m.tb.eq(m.term(x, 0), y.(*Term)))
	case uint64:
		if b, ok := y.(uint64); ok {
			return a == b
		}
		t, ok := y.(*Term)
		if !ok {
			return false
		}
		return val(m.tb.eq(m.term(x, t.w), t))
	case *Term:
		return val(m.tb.eq(a, m.term(y, a.w)))
	case string, *symStr:
		return m.strEq(x, y)
	case float64:
		return a == y.(float64)
	case complex128:
		return a == y.(complex128)
	case *value:
		b, ok := y.(*value)
		if !ok {
			return a == nil && isNilFunc(y)
		}
		return a == b
	case iface:
		b, ok := y.(iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("iface == %T", y)))
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !m.identical(a.t, b.t) {
			return false
		}
		if !types.Comparable(a.t) {
			panic(m.runtimePanic("comparing uncomparable type " + a.t.String()))
		}
		return m.eqVals(a.v, b.v)
	case structure:
		b := y.(structure)
		var r value = true
		for i := range a {
			r = m.vand(r, m.eqVals(a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case array:
		b := y.(array)
		var r value = true
		for i := range a {
			r = m.vand(r, m.eqVals(a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case []value:
		b, _ := y.([]value)
		return a == nil && b == nil
	case *mapv:
		b, _ := y.(*mapv)
		return a == b
	case *chanv:
		b, _ := y.(*chanv)
		return a == b
	case uptr:
		b, ok := y.(uptr)
		return ok && a == b
	case *ssa.Function, *closure, *native, *ssa.Builtin:
		return isNilFunc(x) && isNilFunc(y)
	case *rtypeV:
		b, ok := y.(*rtypeV)
		return ok && a == b
	case nil:
		return isNilFunc(y)
	}
	panic(unsupported(fmt.Sprintf("comparison of %T", x)))
}

// ---- maps

type mapv struct {
	kt, vt  types.Type
	entries []mapEntry // insertion order; dead entries have live=false
	idx     map[any]int
	nsym    int // live entries with symbolic keys
	n       int
	init    bool // created during package initialisation
	addr    uint64
}

type mapEntry struct {
	k, v value
	live bool
	sym  bool
}

type chanv struct {
	buf    []value
	cap    int
	closed bool
}

// hashKey returns a Go-comparable key when v is fully concrete.
func (m *Machine) hashKey(v value) (any, bool) {
	switch x := v.(type) {
	case bool, uint64, string, float64, complex128:
		return x, true
	case *value:
		return x, true
	case *rtypeV:
		return x, true
	case *chanv:
		return x, true
	case uptr:
		return x, true
	case *Term, *symStr:
		return nil, false
	case iface:
		if x.t == nil {
			return "nil-iface", true
		}
		if !types.Comparable(x.t) {
			panic(m.runtimePanic("hash of unhashable type " + x.t.String()))
		}
		k, ok := m.hashKey(x.v)
		if !ok {
			return nil, false
		}
		return [2]any{m.canon(x.t), k}, true
	case structure:
		return m.hashAgg(x)
	case array:
		return m.hashAgg(x)
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

func (m *Machine) hashAgg(x []value) (any, bool) {
	var sb strings.Builder
	for _, e := range x {
		k, ok := m.hashKey(e)
		if !ok {
			return nil, false
		}
		switch kk := k.(type) {
		case string:
			fmt.Fprintf(&sb, "s%d:%s;", len(kk), kk)
		case [2]any:
			fmt.Fprintf(&sb, "i%p:%v;", kk[0], kk[1])
		case *value:
			fmt.Fprintf(&sb, "p%p;", kk)
		default:
			fmt.Fprintf(&sb, "%T%v;", k, k)
		}
	}
	return "agg" + sb.String(), true
}

// find returns the index of the entry for k or -1, forking when the key or the
// stored keys are symbolic.
func (m *Machine) mapFind(mv *mapv, k value) int {
	if mv == nil {
		m.hashKey(k)
		return -1
	}
	hk, conc := m.hashKey(k)
	if conc {
		if i, ok := mv.idx[hk]; ok {
			return i
		}
		if mv.nsym == 0 {
			return -1
		}
	}
	for i := range mv.entries {
		e := &mv.entries[i]
		if !e.live || (conc && !e.sym) {
			continue
		}
		if m.truth(m.eqVals(e.k, k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapUndo(mv *mapv) {
	if mv.init && !m.inInit {
		// restore the whole map when the path ends
		for _, s := range m.mapSaved {
			if s.m == mv {
				return
			}
		}
		cp := *mv
		cp.entries = append([]mapEntry(nil), mv.entries...)
		cp.idx = make(map[any]int, len(mv.idx))
		for k, v := range mv.idx {
			cp.idx[k] = v
		}
		m.mapSaved = append(m.mapSaved, mapSave{mv, cp})
	}
}

type mapSave struct {
	m   *mapv
	old mapv
}

func (m *Machine) mapSet(mv *mapv, k, v value) {
	if mv == nil {
		panic(m.runtimePanic("assignment to entry in nil map"))
	}
	m.mapUndo(mv)
	v = copyVal(v)
	if i := m.mapFind(mv, k); i >= 0 {
		mv.entries[i].v = v
		return
	}
	hk, conc := m.hashKey(k)
	if conc {
		mv.idx[hk] = len(mv.entries)
	} else {
		mv.nsym++
	}
	mv.entries = append(mv.entries, mapEntry{copyVal(k), v, true, !conc})
	mv.n++
}

func (m *Machine) mapDelete(mv *mapv, k value) {
	if mv == nil {
		return
	}
	m.mapUndo(mv)
	i := m.mapFind(mv, k)
	if i < 0 {
		return
	}
	e := &mv.entries[i]
	e.live = false
	mv.n--
	if e.sym {
		mv.nsym--
	} else {
		hk, _ := m.hashKey(e.k)
		delete(mv.idx, hk)
	}
}

func (m *Machine) newMap(kt, vt types.Type) *mapv {
	return &mapv{kt: kt, vt: vt, idx: map[any]int{}, init: m.inInit}
}

// sliceAddr is the address of the first element of the backing array.
func sliceAddr(s []value) uint64 {
	if s == nil {
		return 0
	}
	if cap(s) == 0 {
		return 0xc000000100 // runtime.zerobase
	}
	return uint64(uintptr(unsafe.Pointer(&s[:1][0])))
}
