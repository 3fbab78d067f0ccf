package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// uptr is an unsafe pointer that went through uintptr, or the pointer made by unsafe.SliceData.
type uptr struct{ p value }
type sliceData struct{ s []value }
type strData struct{ s value }

func (m *Machine) fastBin(i *instr, a, b uint64) (value, bool) {
	w := i.w
	switch i.tok {
	case token.ADD:
		return (a + b) & mask(w), true
	case token.SUB:
		return (a - b) & mask(w), true
	case token.MUL:
		return (a * b) & mask(w), true
	case token.EQL:
		return a == b, true
	case token.NEQ:
		return a != b, true
	case token.LSS:
		if i.sign {
			return sx(a, w) < sx(b, w), true
		}
		return a < b, true
	case token.LEQ:
		if i.sign {
			return sx(a, w) <= sx(b, w), true
		}
		return a <= b, true
	case token.GTR:
		if i.sign {
			return sx(a, w) > sx(b, w), true
		}
		return a > b, true
	case token.GEQ:
		if i.sign {
			return sx(a, w) >= sx(b, w), true
		}
		return a >= b, true
	case token.AND:
		return a & b, true
	case token.OR:
		return a | b, true
	case token.XOR:
		return a ^ b, true
	case token.AND_NOT:
		return a &^ b, true
	case token.QUO, token.REM:
		if b == 0 {
			return nil, false
		}
		if i.sign {
			if i.tok == token.QUO {
				return foldBin(OSdiv, a, b, w), true
			}
			return foldBin(OSrem, a, b, w), true
		}
		if i.tok == token.QUO {
			return a / b, true
		}
		return a % b, true
	case token.SHL, token.SHR:
		if i.sign2 && sx(b, i.w2) < 0 {
			return nil, false
		}
		if i.tok == token.SHL {
			return foldBin(OShl, a, b, w), true
		}
		if i.sign {
			return foldBin(OAshr, a, b, w), true
		}
		return foldBin(OLshr, a, b, w), true
	}
	return nil, false
}

func (m *Machine) binop(i *instr, x, y value) value {
	switch i.tok {
	case token.EQL:
		return m.cmpEq(i, x, y)
	case token.NEQ:
		return m.vnot(m.cmpEq(i, x, y))
	}
	if i.w > 0 {
		return m.intBin(i, x, y)
	}
	switch a := x.(type) {
	case string, *symStr:
		switch i.tok {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return m.vnot(m.strLess(y, x))
		case token.GEQ:
			return m.vnot(m.strLess(x, y))
		}
	case float64:
		b := y.(float64)
		var r float64
		switch i.tok {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
		if bt, ok := i.t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return r
	case complex128:
		b := y.(complex128)
		switch i.tok {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	case bool, *Term:
		switch i.tok {
		case token.AND:
			return m.vand(x, y)
		case token.OR:
			return m.vor(x, y)
		}
	}
	panic(unsupported(fmt.Sprintf("binary %v on %T,%T", i.tok, x, y)))
}

func (m *Machine) cmpEq(i *instr, x, y value) value {
	// a comparison of an interface with a concrete operand boxes the latter
	xi, xok := x.(iface)
	yi, yok := y.(iface)
	if xok != yok {
		if xok {
			yi = iface{m.canon(i.t2), y}
			return m.eqVals(xi, yi)
		}
		xi = iface{m.canon(i.t), x}
		return m.eqVals(xi, yi)
	}
	return m.eqVals(x, y)
}

func (m *Machine) intBin(i *instr, x, y value) value {
	if _, ok := x.(uptr); ok {
		panic(unsupported("uintptr arithmetic"))
	}
	w := i.w
	tb := m.tb
	if i.tok == token.SHL || i.tok == token.SHR {
		a := m.term(x, w)
		b := m.term(y, i.w2)
		if i.sign2 {
			if m.truth(val(tb.cmp(OSlt, b, tb.konst(i.w2, 0)))) {
				panic(m.runtimePanic("negative shift amount"))
			}
		}
		// bring the count to the operand width, saturating
		var cnt *Term
		if i.w2 > w {
			big := tb.cmp(OUle, tb.konst(i.w2, uint64(w)), b)
			cnt = tb.ite(big, tb.konst(w, uint64(w)), tb.extract(b, 0, w))
		} else {
			cnt = tb.zext(b, w)
		}
		switch {
		case i.tok == token.SHL:
			return val(tb.bin(OShl, a, cnt))
		case i.sign:
			return val(tb.bin(OAshr, a, cnt))
		}
		return val(tb.bin(OLshr, a, cnt))
	}
	a, b := m.term(x, w), m.term(y, w)
	switch i.tok {
	case token.ADD:
		return val(tb.bin(OAdd, a, b))
	case token.SUB:
		return val(tb.bin(OSub, a, b))
	case token.MUL:
		return val(tb.bin(OMul, a, b))
	case token.AND:
		return val(tb.bin(OBAnd, a, b))
	case token.OR:
		return val(tb.bin(OBOr, a, b))
	case token.XOR:
		return val(tb.bin(OBXor, a, b))
	case token.AND_NOT:
		return val(tb.bin(OBAnd, a, tb.bin(OBXor, b, tb.konst(w, mask(w)))))
	case token.QUO, token.REM:
		if m.truth(val(tb.eq(b, tb.konst(w, 0)))) {
			panic(m.runtimePanic("integer divide by zero"))
		}
		op := OUdiv
		switch {
		case i.tok == token.QUO && i.sign:
			op = OSdiv
		case i.tok == token.REM && i.sign:
			op = OSrem
		case i.tok == token.REM:
			op = OUrem
		}
		return val(tb.bin(op, a, b))
	case token.LSS:
		return val(tb.cmp(ltOp(i.sign), a, b))
	case token.LEQ:
		return val(tb.cmp(leOp(i.sign), a, b))
	case token.GTR:
		return val(tb.cmp(ltOp(i.sign), b, a))
	case token.GEQ:
		return val(tb.cmp(leOp(i.sign), b, a))
	}
	panic(unsupported("integer " + i.tok.String()))
}

func ltOp(s bool) Op {
	if s {
		return OSlt
	}
	return OUlt
}
func leOp(s bool) Op {
	if s {
		return OSle
	}
	return OUle
}

func (m *Machine) unop(i *instr, x value) value {
	switch i.tok {
	case token.NOT:
		return m.vnot(x)
	case token.SUB:
		switch a := x.(type) {
		case uint64:
			return (-a) & mask(i.w)
		case *Term:
			return val(m.tb.bin(OSub, m.tb.konst(i.w, 0), a))
		case float64:
			return -a
		case complex128:
			return -a
		}
	case token.XOR:
		switch a := x.(type) {
		case uint64:
			return ^a & mask(i.w)
		case *Term:
			return val(m.tb.bin(OBXor, a, m.tb.konst(i.w, mask(i.w))))
		}
	}
	panic(unsupported(fmt.Sprintf("unary %v on %T", i.tok, x)))
}

func (m *Machine) loadAny(p value) value {
	switch x := p.(type) {
	case *symAddr:
		return m.readSym(x.cells, x.idx)
	case *symAddrW:
		return m.readSymW(x.cells, x.idx, x.w)
	case *value:
		if x == nil {
			panic(m.nilDeref())
		}
		return copyVal(*x)
	case sliceData:
		if len(x.s) > 0 {
			return copyVal(x.s[0])
		}
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func (m *Machine) storeAny(p value, v value) {
	w := uint8(64)
	if x, ok := p.(*symAddrW); ok {
		p = &x.symAddr
		w = x.w
	}
	switch x := p.(type) {
	case *symAddr:
		// conditional store to every cell
		for k := range x.cells {
			cond := m.tb.eq(x.idx, m.tb.konst(64, uint64(k)))
			if cond.isFalse() {
				continue
			}
			n, ok := m.mergeScalar(cond, v, x.cells[k], w)
			if !ok {
				// fork on the index
				idx := m.concretize(val(x.idx), "store index")
				m.store(&x.cells[idx], v)
				return
			}
			m.store(&x.cells[k], n)
		}
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

func scalarW(v value) int {
	switch x := v.(type) {
	case bool:
		return 0
	case *Term:
		return int(x.w)
	case uint64:
		return -1 // unknown width
	}
	return -2
}

func (m *Machine) mergeScalar(c *Term, a, b value, dw uint8) (value, bool) {
	wa, wb := scalarW(a), scalarW(b)
	if wa == -2 || wb == -2 {
		return nil, false
	}
	w := wa
	if w == -1 {
		w = wb
	}
	if w == -1 {
		if a == b {
			return a, true
		}
		w = int(dw)
	}
	return val(m.tb.ite(c, m.term(a, uint8(w)), m.term(b, uint8(w)))), true
}

// readSym reads cells[idx] for an index known to be in range.
func (m *Machine) readSym(cells []value, idx *Term) value {
	return m.readSymW(cells, idx, 64)
}

func (m *Machine) readSymW(cells []value, idx *Term, w uint8) value {
	scal := true
	ew := -1
	for _, c := range cells {
		switch k := scalarW(c); k {
		case -2:
			scal = false
		case -1:
		default:
			ew = k
		}
	}
	if !scal {
		k := m.concretize(val(idx), "index")
		return copyVal(cells[k])
	}
	if ew < 0 {
		ew = int(w)
	}
	if ew > 64 {
		ew = 64
	}
	// group equal values
	type grp struct {
		v    value
		dom  [4]uint64
		cond *Term
	}
	var groups []*grp
	at := map[value]*grp{}
	iv := idx
	for iv.op == OZext {
		iv = iv.a
	}
	var dom *[4]uint64
	if iv.op == OVar && m.dom[iv.k] != nil {
		dom = m.dom[iv.k]
	}
	for k, c := range cells {
		if dom != nil {
			if k > 255 || dom[k>>6]>>(k&63)&1 == 0 {
				continue
			}
		} else if iv.w < 64 && uint64(k) > mask(iv.w) {
			break
		}
		g := at[c]
		if g == nil {
			g = &grp{v: c}
			at[c] = g
			groups = append(groups, g)
		}
		if dom != nil {
			g.dom[k>>6] |= 1 << (k & 63)
		} else {
			e := m.tb.eq(iv, m.tb.konst(iv.w, uint64(k)))
			if g.cond == nil {
				g.cond = e
			} else {
				g.cond = m.tb.or(g.cond, e)
			}
		}
	}
	if len(groups) == 0 {
		panic(engineAbort{"assume", "empty index"})
	}
	r := m.term(groups[len(groups)-1].v, uint8(ew))
	for k := len(groups) - 2; k >= 0; k-- {
		g := groups[k]
		c := g.cond
		if dom != nil {
			c = m.domTerm(iv, &g.dom)
		}
		r = m.tb.ite(c, m.term(g.v, uint8(ew)), r)
	}
	return val(r)
}

// idx64 returns the index as 64-bit value.
func (m *Machine) idx64(v value, w uint8, sign bool) value {
	switch x := v.(type) {
	case uint64:
		if sign {
			return uint64(sx(x, w))
		}
		return x
	case *Term:
		if sign {
			return val(m.tb.sext(x, 64))
		}
		return val(m.tb.zext(x, 64))
	}
	panic(unsupported(fmt.Sprintf("index %T", v)))
}

func (m *Machine) bounds(iv value, n int) {
	switch x := iv.(type) {
	case uint64:
		if x >= uint64(n) {
			panic(m.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", int64(x), n)))
		}
	case *Term:
		if !m.truth(val(m.tb.cmp(OUlt, x, m.tb.konst(64, uint64(n))))) {
			panic(m.runtimePanic(fmt.Sprintf("index out of range with length %d", n)))
		}
	}
}

func elemW(m *Machine, t types.Type) uint8 {
	switch u := t.Underlying().(type) {
	case *types.Array:
		w, _ := m.intInfo(u.Elem())
		return w
	case *types.Slice:
		w, _ := m.intInfo(u.Elem())
		return w
	case *types.Pointer:
		return elemW(m, u.Elem())
	}
	return 8
}

func (m *Machine) index(x, idx value, i *instr) value {
	iv := m.idx64(idx, i.w, i.sign)
	switch s := x.(type) {
	case array:
		m.bounds(iv, len(s))
		if k, ok := iv.(uint64); ok {
			return s[k]
		}
		return m.readSymW(s, iv.(*Term), elemW(m, i.t))
	case string, *symStr:
		m.bounds(iv, strLen(x))
		if k, ok := iv.(uint64); ok {
			return strByte(x, int(k))
		}
		return m.readSymW(strBytes(x), iv.(*Term), 8)
	}
	panic(unsupported(fmt.Sprintf("index of %T", x)))
}

func (m *Machine) indexAddr(x, idx value, i *instr) value {
	iv := m.idx64(idx, i.w, i.sign)
	var cells []value
	switch s := x.(type) {
	case []value:
		cells = s
	case *value:
		if s == nil {
			panic(m.nilDeref())
		}
		a, ok := (*s).(array)
		if !ok {
			panic(unsupported(fmt.Sprintf("index address into %T", *s)))
		}
		cells = a
	case sliceData:
		cells = s.s[:cap(s.s)]
	default:
		panic(unsupported(fmt.Sprintf("index address of %T", x)))
	}
	m.bounds(iv, len(cells))
	if k, ok := iv.(uint64); ok {
		return &cells[k]
	}
	// a symbolic index: keep it symbolic for integer cells
	for _, c := range cells {
		if scalarW(c) == -2 {
			k := m.concretize(iv, "index")
			return &cells[k]
		}
	}
	// normalise concrete cells to the element width so that later merges know it
	if w := elemW(m, i.t); w != 0 {
		return &symAddrW{symAddr{cells, iv.(*Term)}, w}
	}
	return &symAddr{cells, iv.(*Term)}
}

type symAddrW struct {
	symAddr
	w uint8
}

func (m *Machine) sliceOp(fr *frame, i *instr) value {
	x := fr.get(i.a)
	var idx [3]int64
	var has [3]bool
	for k, o := range i.args {
		if o == noOp {
			continue
		}
		has[k] = true
		v := fr.get(o)
		t, ok := v.(*Term)
		if ok {
			idx[k] = sx(m.concretize(t, "slice bound"), t.w)
		} else {
			// widths below 64 are zero- or sign-extended by go/ssa's conversions beforehand
			idx[k] = int64(v.(uint64))
		}
	}
	oob := func() { panic(m.runtimePanic("slice bounds out of range")) }
	switch s := x.(type) {
	case string, *symStr:
		n := int64(strLen(x))
		lo, hi := idx[0], n
		if has[1] {
			hi = idx[1]
		}
		if lo < 0 || hi > n || lo > hi {
			panic(m.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n)))
		}
		return strSlice(x, int(lo), int(hi))
	case []value:
		lo, hi, mx := idx[0], int64(len(s)), int64(cap(s))
		if has[1] {
			hi = idx[1]
		}
		if has[2] {
			mx = idx[2]
		}
		if lo < 0 || hi < lo || mx < hi || mx > int64(cap(s)) {
			oob()
		}
		if s == nil {
			return s
		}
		return s[lo:hi:mx]
	case *value:
		if s == nil {
			panic(m.nilDeref())
		}
		a := (*s).(array)
		lo, hi, mx := idx[0], int64(len(a)), int64(len(a))
		if has[1] {
			hi = idx[1]
		}
		if has[2] {
			mx = idx[2]
		}
		if lo < 0 || hi < lo || mx < hi || mx > int64(len(a)) {
			oob()
		}
		return []value(a)[lo:hi:mx]
	}
	panic(unsupported(fmt.Sprintf("slice of %T", x)))
}

// ---- conversions

func (m *Machine) convert(from, to types.Type, x value) value {
	fu, tu := from.Underlying(), to.Underlying()
	if _, ok := tu.(*types.TypeParam); ok {
		panic(unsupported("conversion to type parameter"))
	}
	switch t := tu.(type) {
	case *types.Pointer:
		return m.fromUnsafe(x)
	case *types.Slice:
		// string -> []byte / []rune
		if w, _ := m.intInfo(t.Elem()); w == 8 {
			b := strBytes(x)
			r := make([]value, len(b), roundup(len(b)))
			copy(r, b)
			for k := len(b); k < cap(r); k++ {
				r[:cap(r)][k] = uint64(0)
			}
			return r
		}
		var out []value
		if s, ok := x.(string); ok {
			out = []value{}
			for _, r := range s {
				out = append(out, uint64(uint32(r)))
			}
			return out
		}
		out = []value{}
		it := &strIter{s: x}
		for {
			_, r, ok := m.strNext(it)
			if !ok {
				return out
			}
			out = append(out, r)
		}
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			if u, ok := x.(uptr); ok {
				return u.p
			}
			if n, ok := x.(uint64); ok {
				if n == 0 {
					return (*value)(nil)
				}
				panic(unsupported("integer to unsafe.Pointer"))
			}
			return x
		}
		if t.Info()&types.IsString != 0 {
			switch f := fu.(type) {
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return x
				}
				// integer -> string
				w, signed := m.intInfo(f)
				if n, ok := x.(uint64); ok {
					r := int64(n)
					if signed {
						r = sx(n, w)
					}
					if r < 0 || r > utf8.MaxRune {
						r = utf8.RuneError
					}
					return string(rune(r))
				}
				return m.runeToStr(m.tb, x.(*Term), w, signed)
			case *types.Slice:
				s := x.([]value)
				if w, _ := m.intInfo(f.Elem()); w == 8 {
					return mkStr(s)
				}
				var r value = ""
				for _, e := range s {
					var p value
					if n, ok := e.(uint64); ok {
						p = string(rune(int32(n)))
					} else {
						p = m.runeToStr(m.tb, e.(*Term), 32, true)
					}
					r = strConcat(r, p)
				}
				return r
			}
		}
		w, _ := m.intInfo(t)
		if w > 0 {
			switch v := x.(type) {
			case uint64:
				fw, fs := m.intInfo(fu)
				if fs && fw < w {
					return uint64(sx(v, fw)) & mask(w)
				}
				return v & mask(w)
			case *Term:
				_, fs := m.intInfo(fu)
				switch {
				case w < v.w:
					return val(m.tb.extract(v, 0, w))
				case w == v.w:
					return v
				case fs:
					return val(m.tb.sext(v, w))
				}
				return val(m.tb.zext(v, w))
			case float64:
				_, ts := m.intInfo(t)
				if ts {
					return uint64(int64(v)) & mask(w)
				}
				return uint64(v) & mask(w)
			case uptr:
				return v
			case *value, sliceData, strData: // unsafe.Pointer -> uintptr
				if p, ok := v.(*value); ok && p == nil {
					return uint64(0)
				}
				return uptr{v}
			}
		}
		if t.Info()&types.IsFloat != 0 {
			var f float64
			switch v := x.(type) {
			case float64:
				f = v
			case uint64:
				fw, fs := m.intInfo(fu)
				if fs {
					f = float64(sx(v, fw))
				} else {
					f = float64(v)
				}
			case *Term:
				fw, fs := m.intInfo(fu)
				n := m.concretize(v, "float conversion")
				if fs {
					f = float64(sx(n, fw))
				} else {
					f = float64(n)
				}
			default:
				panic(unsupported(fmt.Sprintf("convert %T to float", x)))
			}
			if t.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
		if t.Info()&types.IsComplex != 0 {
			return x
		}
	case *types.Array:
		s := x.([]value)
		if int64(len(s)) < t.Len() {
			panic(m.runtimePanic("cannot convert slice to array"))
		}
		return copyVal(array(s[:t.Len()]))
	}
	panic(unsupported(fmt.Sprintf("convert %v to %v (%T)", from, to, x)))
}

func (m *Machine) fromUnsafe(x value) value {
	switch u := x.(type) {
	case uptr:
		return u.p
	case *value, sliceData, strData:
		return x
	}
	panic(unsupported(fmt.Sprintf("unsafe.Pointer conversion of %T", x)))
}

// runeToStr encodes a symbolic rune, forking on the encoded length.
func (m *Machine) runeToStr(tb *TB, r *Term, w uint8, signed bool) value {
	if w < 32 {
		if signed {
			r = tb.sext(r, 32)
		} else {
			r = tb.zext(r, 32)
		}
	} else if w > 32 {
		if m.truth(val(tb.cmp(OUlt, tb.konst(w, utf8.MaxRune), r))) {
			return "\uFFFD"
		}
		r = tb.extract(r, 0, 32)
	}
	k := func(n uint64) *Term { return tb.konst(32, n) }
	byteOf := func(shift uint64, msk, or uint64) value {
		t := tb.bin(OLshr, r, k(shift))
		t = tb.bin(OBAnd, t, k(msk))
		t = tb.bin(OBOr, t, k(or))
		return val(tb.extract(t, 0, 8))
	}
	if m.truth(val(tb.cmp(OUlt, r, k(0x80)))) {
		return mkStr([]value{val(tb.extract(r, 0, 8))})
	}
	if m.truth(val(tb.cmp(OUlt, r, k(0x800)))) {
		return mkStr([]value{byteOf(6, 0x1f, 0xc0), byteOf(0, 0x3f, 0x80)})
	}
	bad := tb.or(tb.cmp(OUlt, k(utf8.MaxRune), r), tb.and(tb.cmp(OUle, k(0xd800), r), tb.cmp(OUle, r, k(0xdfff))))
	if m.truth(val(bad)) {
		return "\uFFFD"
	}
	if m.truth(val(tb.cmp(OUlt, r, k(0x10000)))) {
		return mkStr([]value{byteOf(12, 0xf, 0xe0), byteOf(6, 0x3f, 0x80), byteOf(0, 0x3f, 0x80)})
	}
	return mkStr([]value{byteOf(18, 7, 0xf0), byteOf(12, 0x3f, 0x80), byteOf(6, 0x3f, 0x80), byteOf(0, 0x3f, 0x80)})
}

// ---- type assertions

func (m *Machine) implements(t, it types.Type) bool {
	key := [2]types.Type{t, it}
	if r, ok := m.natCache[key]; ok {
		return r.(bool)
	}
	m.p.mu.Lock()
	r := types.Implements(t, it.Underlying().(*types.Interface))
	m.p.mu.Unlock()
	m.natCache[key] = r
	return r
}

func (m *Machine) typeAssert(x value, i *instr) value {
	v, ok := x.(iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("type assertion on %T", x)))
	}
	good := false
	var r value
	if i.n == 0 { // to interface
		if v.t != nil && m.implements(v.t, i.t) {
			good = true
			r = v
		}
	} else if v.t != nil && m.canon(v.t) == i.t {
		good = true
		r = v.v
	}
	if good {
		if i.commaOk {
			return tuple{r, true}
		}
		return r
	}
	if i.commaOk {
		return tuple{i.x, false}
	}
	s := "nil"
	if v.t != nil {
		s = v.t.String()
	}
	panic(m.runtimePanic(fmt.Sprintf("interface conversion: interface is %s, not %s", s, i.t)))
}

// ---- iteration

type strIter struct {
	s   value
	pos int
}

type mapIter struct {
	m    *mapv
	i    int
	n    int // entries present at the start
	perm bool
	done map[int]bool
}

func (m *Machine) makeRange(fr *frame, x value) value {
	switch s := x.(type) {
	case string, *symStr:
		return &strIter{s: x}
	case *mapv:
		if s == nil {
			return &mapIter{m: &mapv{}}
		}
		it := &mapIter{m: s, n: len(s.entries)}
		if m.mapOrder && fr != nil && fr.c.target {
			it.perm = true
			it.done = map[int]bool{}
		}
		return it
	}
	panic(unsupported(fmt.Sprintf("range over %T", x)))
}

func (it *mapIter) next(m *Machine) (int, bool) {
	if it.perm {
		var live []int
		for k := 0; k < it.n && k < len(it.m.entries); k++ {
			if it.m.entries[k].live && !it.done[k] {
				live = append(live, k)
			}
		}
		if len(live) == 0 {
			return 0, false
		}
		k := live[m.choose(len(live))]
		it.done[k] = true
		return k, true
	}
	for it.i < it.n && it.i < len(it.m.entries) {
		k := it.i
		it.i++
		if it.m.entries[k].live {
			return k, true
		}
	}
	return 0, false
}

func (m *Machine) next(fr *frame, it value) value {
	switch x := it.(type) {
	case *strIter:
		p, r, ok := m.strNext(x)
		if !ok {
			return tuple{false, uint64(0), uint64(0)}
		}
		return tuple{true, uint64(p), r}
	case *mapIter:
		k, ok := x.next(m)
		if !ok {
			return tuple{false, nil, nil}
		}
		e := x.m.entries[k]
		return tuple{true, copyVal(e.k), copyVal(e.v)}
	}
	panic(unsupported(fmt.Sprintf("next on %T", it)))
}

func (m *Machine) strNext(it *strIter) (int, value, bool) {
	n := strLen(it.s)
	if it.pos >= n {
		return 0, nil, false
	}
	p := it.pos
	if s, ok := it.s.(string); ok {
		r, sz := utf8.DecodeRuneInString(s[p:])
		it.pos += sz
		return p, uint64(uint32(r)), true
	}
	b := it.s.(*symStr).b
	r, sz := m.decodeRune(b[p:])
	it.pos += sz
	return p, r, true
}

// decodeRune decodes one UTF-8 sequence of possibly symbolic bytes.
func (m *Machine) decodeRune(b []value) (value, int) {
	tb := m.tb
	if len(b) == 0 {
		return uint64(utf8.RuneError), 0
	}
	conc := true
	for k := 0; k < len(b) && k < 4; k++ {
		if _, ok := b[k].(uint64); !ok {
			conc = false
		}
	}
	if conc {
		n := len(b)
		if n > 4 {
			n = 4
		}
		r, sz := utf8.DecodeRuneInString(mkStr(b[:n]).(string))
		return uint64(uint32(r)), sz
	}
	b0 := m.term(b[0], 8)
	in := func(t *Term, lo, hi uint64) *Term {
		return tb.and(tb.cmp(OUle, tb.konst(8, lo), t), tb.cmp(OUle, t, tb.konst(8, hi)))
	}
	bad := func() (value, int) { return uint64(utf8.RuneError), 1 }
	if m.truth(val(tb.cmp(OUlt, b0, tb.konst(8, 0x80)))) {
		return val(tb.zext(b0, 32)), 1
	}
	if !m.truth(val(in(b0, 0xc2, 0xf4))) || len(b) < 2 {
		return bad()
	}
	b1 := m.term(b[1], 8)
	low := func(t *Term, msk uint64) *Term { return tb.zext(tb.bin(OBAnd, t, tb.konst(8, msk)), 32) }
	sh := func(t *Term, n uint64) *Term { return tb.bin(OShl, t, tb.konst(32, n)) }
	or := func(a, b *Term) *Term { return tb.bin(OBOr, a, b) }
	if m.truth(val(tb.cmp(OUlt, b0, tb.konst(8, 0xe0)))) {
		if !m.truth(val(in(b1, 0x80, 0xbf))) {
			return bad()
		}
		return val(or(sh(low(b0, 0x1f), 6), low(b1, 0x3f))), 2
	}
	if m.truth(val(tb.cmp(OUlt, b0, tb.konst(8, 0xf0)))) {
		lo := tb.ite(tb.eq(b0, tb.konst(8, 0xe0)), tb.konst(8, 0xa0), tb.konst(8, 0x80))
		hi := tb.ite(tb.eq(b0, tb.konst(8, 0xed)), tb.konst(8, 0x9f), tb.konst(8, 0xbf))
		if !m.truth(val(tb.and(tb.cmp(OUle, lo, b1), tb.cmp(OUle, b1, hi)))) || len(b) < 3 {
			return bad()
		}
		b2 := m.term(b[2], 8)
		if !m.truth(val(in(b2, 0x80, 0xbf))) {
			return bad()
		}
		return val(or(sh(low(b0, 0xf), 12), or(sh(low(b1, 0x3f), 6), low(b2, 0x3f)))), 3
	}
	lo := tb.ite(tb.eq(b0, tb.konst(8, 0xf0)), tb.konst(8, 0x90), tb.konst(8, 0x80))
	hi := tb.ite(tb.eq(b0, tb.konst(8, 0xf4)), tb.konst(8, 0x8f), tb.konst(8, 0xbf))
	if !m.truth(val(tb.and(tb.cmp(OUle, lo, b1), tb.cmp(OUle, b1, hi)))) || len(b) < 4 {
		return bad()
	}
	b2, b3 := m.term(b[2], 8), m.term(b[3], 8)
	if !m.truth(val(in(b2, 0x80, 0xbf))) || !m.truth(val(in(b3, 0x80, 0xbf))) {
		return bad()
	}
	return val(or(sh(low(b0, 7), 18), or(sh(low(b1, 0x3f), 12), or(sh(low(b2, 0x3f), 6), low(b3, 0x3f))))), 4
}

// ---- builtins

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int) int {
	if n > 32768 {
		return (n + 8191) &^ 8191
	}
	for _, c := range sizeClasses {
		if c >= n {
			return c
		}
	}
	return n
}

func (m *Machine) appendVals(s []value, add []value, et types.Type) []value {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for k, v := range add {
			m.store(&r[len(s)+k], v)
		}
		return r
	}
	if len(add) == 0 {
		return s
	}
	nc := cap(s)
	dbl := nc + nc
	if n > dbl {
		nc = n
	} else if nc < 256 {
		nc = dbl
	} else {
		for nc < n {
			nc += (nc + 3*256) >> 2
		}
	}
	es := 8
	if et != nil {
		es = int(m.sizeof(et))
	}
	if es > 0 {
		nc = roundup(nc*es) / es
	}
	r := make([]value, nc)
	copy(r, s)
	for k, v := range add {
		r[len(s)+k] = copyVal(v)
	}
	if et != nil && n < nc {
		z := m.zero(et)
		for k := n; k < nc; k++ {
			r[k] = copyVal(z)
		}
	}
	// elements of the old array that are aggregates must not be shared
	for k := range s {
		switch r[k].(type) {
		case structure, array:
			r[k] = copyVal(r[k])
		}
	}
	return r[:n]
}

func (m *Machine) sizeof(t types.Type) int64 {
	if r, ok := m.natCache[t]; ok {
		return r.(int64)
	}
	m.p.mu.Lock()
	r := m.p.sizes.Sizeof(t)
	m.p.mu.Unlock()
	m.natCache[t] = r
	return r
}

func (m *Machine) callBuiltin(caller *frame, name string, ci *callInfo, args []value, fr *frame) value {
	switch name {
	case "append":
		s, _ := args[0].([]value)
		var et types.Type
		if ci != nil {
			et = ci.argT[0].Underlying().(*types.Slice).Elem()
		}
		switch a := args[1].(type) {
		case string, *symStr:
			return m.appendVals(s, strBytes(a), et)
		case []value:
			return m.appendVals(s, a, et)
		}
		panic(unsupported(fmt.Sprintf("append %T", args[1])))
	case "copy":
		d := args[0].([]value)
		var src []value
		switch a := args[1].(type) {
		case string, *symStr:
			src = strBytes(a)
		case []value:
			src = a
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for k := 0; k < n; k++ {
			tmp[k] = copyVal(src[k])
		}
		for k := 0; k < n; k++ {
			m.store(&d[k], tmp[k])
		}
		return uint64(n)
	case "len":
		switch a := args[0].(type) {
		case string, *symStr:
			return uint64(strLen(a))
		case []value:
			return uint64(len(a))
		case array:
			return uint64(len(a))
		case *value:
			if a == nil {
				return uint64(ci.argT[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			}
			return uint64(len((*a).(array)))
		case *mapv:
			if a == nil {
				return uint64(0)
			}
			return uint64(a.n)
		case *chanv:
			if a == nil {
				return uint64(0)
			}
			return uint64(len(a.buf))
		}
	case "cap":
		switch a := args[0].(type) {
		case []value:
			return uint64(cap(a))
		case array:
			return uint64(len(a))
		case *value:
			return uint64(len((*a).(array)))
		case *chanv:
			return uint64(a.cap)
		}
	case "delete":
		mv, _ := args[0].(*mapv)
		m.mapDelete(mv, args[1])
		return nil
	case "clear":
		switch a := args[0].(type) {
		case *mapv:
			if a != nil {
				m.mapUndo(a)
				a.entries = nil
				a.idx = map[any]int{}
				a.n, a.nsym = 0, 0
			}
		case []value:
			if len(a) > 0 {
				z := m.zero(ci.argT[0].Underlying().(*types.Slice).Elem())
				for k := range a {
					m.store(&a[k], copyVal(z))
				}
			}
		}
		return nil
	case "panic":
		v := args[0].(iface)
		panic(targetPanic{v})
	case "recover":
		return m.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := ci.argT[0]
		for _, a := range args[1:] {
			i := &instr{tok: token.LSS, t: t, t2: t}
			i.w, i.sign = m.intInfo(t)
			var c value
			if name == "min" {
				c = m.binopAny(i, a, r)
			} else {
				c = m.binopAny(i, r, a)
			}
			if m.truth(c) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			panic(m.runtimePanic(fmt.Sprintf("value method %s.%s called using nil pointer", m.modelStr(args[1], m.model), m.modelStr(args[2], m.model))))
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "SliceData":
		s := args[0].([]value)
		if s == nil {
			return (*value)(nil)
		}
		return sliceData{s}
	case "StringData":
		return strData{args[0]}
	case "String":
		n := int(m.concretize(args[1], "unsafe.String length"))
		switch p := args[0].(type) {
		case sliceData:
			return mkStr(p.s[:n:n])
		case strData:
			return strSlice(p.s, 0, n)
		case *value:
			if n == 0 {
				return ""
			}
			if n == 1 {
				return mkStr([]value{*p})
			}
		}
		panic(unsupported(fmt.Sprintf("unsafe.String of %T", args[0])))
	case "Slice":
		n := int(m.concretize(args[1], "unsafe.Slice length"))
		switch p := args[0].(type) {
		case sliceData:
			return p.s[:n:n]
		case strData:
			return strBytes(strSlice(p.s, 0, n))
		case *value:
			if p == nil {
				return []value(nil)
			}
		}
		panic(unsupported(fmt.Sprintf("unsafe.Slice of %T", args[0])))
	case "Add":
		if n, ok := args[1].(uint64); ok && n == 0 {
			return args[0]
		}
		panic(unsupported("unsafe.Add"))
	case "close":
		if c, ok := args[0].(*chanv); ok && c != nil {
			c.closed = true
			return nil
		}
	}
	panic(unsupported("builtin " + name))
}

func (m *Machine) binopAny(i *instr, x, y value) value {
	if a, ok := x.(uint64); ok && i.w > 0 {
		if b, ok := y.(uint64); ok {
			if r, ok := m.fastBin(i, a, b); ok {
				return r
			}
		}
	}
	return m.binop(i, x, y)
}

func float64bits(f float64) uint64     { return math.Float64bits(f) }
func float64frombits(b uint64) float64 { return math.Float64frombits(b) }

var _ = ssa.NaiveForm
