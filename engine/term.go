package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms are hash-consed bit-vector / Boolean expressions. Width 0 is Bool.
// All bit-vector constants are at most 64 bits wide.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // low w bits of a shifted by k
)

type Term struct {
	op   Op
	w    uint8
	k    uint64 // constant value, variable id, or extract shift
	a    *Term
	b    *Term
	c    *Term
	id   int32
	v1   int32 // -1: no variable, >=0: the only variable, -2: several
	gen  uint32
	ev   uint64
	name int32 // solver definition number in the current solver scope
}

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
}

// TB builds terms; one per machine, reset at every path.
type TB struct {
	tab  map[tkey]*Term
	n    int32
	gen  uint32
	vars []*Term
}

func newTB() *TB { return &TB{tab: map[tkey]*Term{}} }

func (tb *TB) reset() {
	clear(tb.tab)
	tb.n = 0
	tb.vars = tb.vars[:0]
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	s := 64 - w
	return int64(v<<s) >> s
}

func (tb *TB) mk(op Op, w uint8, k uint64, a, b, c *Term) *Term {
	key := tkey{op, w, k, tid(a), tid(b), tid(c)}
	if t, ok := tb.tab[key]; ok {
		return t
	}
	v := int32(-1)
	if op == OVar {
		v = int32(k)
	}
	for _, s := range [...]*Term{a, b, c} {
		if s == nil || s.v1 == -1 {
			continue
		}
		if v == -1 {
			v = s.v1
		} else if v != s.v1 {
			v = -2
		}
	}
	t := &Term{op: op, w: w, k: k, a: a, b: b, c: c, id: tb.n, v1: v, name: -1}
	tb.n++
	tb.tab[key] = t
	return t
}

func (tb *TB) konst(w uint8, k uint64) *Term { return tb.mk(OConst, w, k&mask(w), nil, nil, nil) }
func (tb *TB) boolc(b bool) *Term {
	if b {
		return tb.konst(0, 1)
	}
	return tb.konst(0, 0)
}
func (tb *TB) newVar(w uint8) *Term {
	t := tb.mk(OVar, w, uint64(len(tb.vars)), nil, nil, nil)
	tb.vars = append(tb.vars, t)
	return t
}

func (t *Term) isC() bool     { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }

func (tb *TB) not(a *Term) *Term {
	if a.isC() {
		return tb.konst(0, 1-a.k)
	}
	if a.op == ONot {
		return a.a
	}
	return tb.mk(ONot, 0, 0, a, nil, nil)
}

func (tb *TB) and(a, b *Term) *Term {
	if a.isFalse() || b.isTrue() || a == b {
		return a
	}
	if a.isTrue() || b.isFalse() {
		return b
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tb.boolc(false)
	}
	return tb.mk(OAnd, 0, 0, a, b, nil)
}

func (tb *TB) or(a, b *Term) *Term {
	if a.isTrue() || b.isFalse() || a == b {
		return a
	}
	if a.isFalse() || b.isTrue() {
		return b
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tb.boolc(true)
	}
	return tb.mk(OOr, 0, 0, a, b, nil)
}

func (tb *TB) ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.w == 0 {
		if a.isTrue() {
			return tb.or(c, b)
		}
		if a.isFalse() {
			return tb.and(tb.not(c), b)
		}
		if b.isTrue() {
			return tb.or(tb.not(c), a)
		}
		if b.isFalse() {
			return tb.and(c, a)
		}
	}
	if c.op == ONot {
		return tb.ite(c.a, b, a)
	}
	return tb.mk(OIte, a.w, 0, c, a, b)
}

func (tb *TB) eq(a, b *Term) *Term {
	if a == b {
		return tb.boolc(true)
	}
	if a.isC() && b.isC() {
		return tb.boolc(a.k == b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return tb.not(a)
		}
	}
	if b.isC() {
		switch a.op {
		case OIte:
			if a.b.isC() && a.c.isC() {
				x, y := a.b.k == b.k, a.c.k == b.k
				switch {
				case x && y:
					return tb.boolc(true)
				case x:
					return a.a
				case y:
					return tb.not(a.a)
				default:
					return tb.boolc(false)
				}
			}
		case OZext:
			if b.k&^mask(a.a.w) != 0 {
				return tb.boolc(false)
			}
			return tb.eq(a.a, tb.konst(a.a.w, b.k))
		case OSext:
			if uint64(sx(b.k&mask(a.a.w), a.a.w))&mask(a.w) != b.k {
				return tb.boolc(false)
			}
			return tb.eq(a.a, tb.konst(a.a.w, b.k))
		}
	} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tb.eq(a.a, b.a)
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OEq, 0, 0, a, b, nil)
}

func foldCmp(op Op, x, y uint64, w uint8) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sx(x, w) < sx(y, w)
	case OSle:
		return sx(x, w) <= sx(y, w)
	}
	panic("foldCmp")
}

func (tb *TB) cmp(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return tb.boolc(foldCmp(op, a.k, b.k, a.w))
	}
	if a == b {
		return tb.boolc(op == OUle || op == OSle)
	}
	// comparisons of zero-extended values against constants or each other are unsigned on the narrow width
	if (op == OSlt || op == OSle) && nonneg(a) && nonneg(b) {
		if op == OSlt {
			op = OUlt
		} else {
			op = OUle
		}
	}
	if op == OUlt || op == OUle {
		if a.op == OZext && b.isC() {
			if b.k > mask(a.a.w) {
				return tb.boolc(true)
			}
			return tb.cmp(op, a.a, tb.konst(a.a.w, b.k))
		}
		if b.op == OZext && a.isC() {
			if a.k > mask(b.a.w) {
				return tb.boolc(false)
			}
			return tb.cmp(op, tb.konst(b.a.w, a.k), b.a)
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tb.cmp(op, a.a, b.a)
		}
		if op == OUlt && b.isC() && b.k == 0 {
			return tb.boolc(false)
		}
		if op == OUle && a.isC() && a.k == 0 {
			return tb.boolc(true)
		}
		if op == OUle && b.isC() && b.k == mask(b.w) {
			return tb.boolc(true)
		}
	}
	return tb.mk(op, 0, 0, a, b, nil)
}

func nonneg(a *Term) bool {
	if a.isC() {
		return sx(a.k, a.w) >= 0
	}
	return a.op == OZext && a.a.w < a.w
}

func foldBin(op Op, x, y uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		if y == 0 {
			if sx(x, w) >= 0 {
				return m
			}
			return 1
		}
		if sx(y, w) == -1 {
			return (-x) & m
		}
		return uint64(sx(x, w)/sx(y, w)) & m
	case OSrem:
		if y == 0 {
			return x
		}
		if sx(y, w) == -1 {
			return 0
		}
		return uint64(sx(x, w)%sx(y, w)) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	}
	panic("foldBin")
}

func (tb *TB) bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isC() && b.isC() {
		return tb.konst(w, foldBin(op, a.k, b.k, w))
	}
	switch op {
	case OAdd, OBOr, OBXor:
		if b.isC() && b.k == 0 {
			return a
		}
		if a.isC() && a.k == 0 {
			return b
		}
	case OSub, OShl, OLshr, OAshr:
		if b.isC() && b.k == 0 {
			return a
		}
		if op == OSub && a == b {
			return tb.konst(w, 0)
		}
	case OBAnd:
		if b.isC() && b.k == mask(w) {
			return a
		}
		if a.isC() && a.k == mask(w) {
			return b
		}
		if (a.isC() && a.k == 0) || (b.isC() && b.k == 0) {
			return tb.konst(w, 0)
		}
	case OMul:
		if b.isC() && b.k == 1 {
			return a
		}
		if a.isC() && a.k == 1 {
			return b
		}
	case OUdiv, OUrem, OSdiv, OSrem:
		// narrow divisions of zero-extended values
		if b.isC() && b.k != 0 && a.op == OZext && b.k <= mask(a.a.w) && sx(b.k, w) > 0 {
			nop := op
			if op == OSdiv {
				nop = OUdiv
			}
			if op == OSrem {
				nop = OUrem
			}
			return tb.zext(tb.bin(nop, a.a, tb.konst(a.a.w, b.k)), w)
		}
		if b.isC() && b.k != 0 && bits.OnesCount64(b.k) == 1 && (op == OUdiv || op == OUrem) {
			if op == OUdiv {
				return tb.bin(OLshr, a, tb.konst(w, uint64(bits.TrailingZeros64(b.k))))
			}
			return tb.bin(OBAnd, a, tb.konst(w, b.k-1))
		}
	}
	return tb.mk(op, w, 0, a, b, nil)
}

func (tb *TB) zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tb.konst(w, a.k)
	}
	if a.op == OZext {
		return tb.zext(a.a, w)
	}
	return tb.mk(OZext, w, 0, a, nil, nil)
}

func (tb *TB) sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tb.konst(w, uint64(sx(a.k, a.w)))
	}
	if a.op == OZext && a.a.w < a.w {
		return tb.zext(a.a, w)
	}
	return tb.mk(OSext, w, 0, a, nil, nil)
}

// extract returns bits [shift, shift+w).
func (tb *TB) extract(a *Term, shift uint64, w uint8) *Term {
	if shift == 0 && a.w == w {
		return a
	}
	if a.isC() {
		return tb.konst(w, a.k>>shift)
	}
	if shift == 0 && (a.op == OZext || a.op == OSext) {
		if a.a.w >= w {
			return tb.extract(a.a, 0, w)
		}
		if a.op == OZext {
			return tb.zext(a.a, w)
		}
		return tb.sext(a.a, w)
	}
	if shift == 0 && a.op == OIte && (a.b.isC() || a.c.isC()) {
		return tb.ite(a.a, tb.extract(a.b, 0, w), tb.extract(a.c, 0, w))
	}
	return tb.mk(OExtract, w, shift, a, nil, nil)
}

// eval computes the value of t under the model (indexed by variable id).
func (tb *TB) eval(t *Term, model []uint64) uint64 {
	tb.gen++
	return tb.ev(t, model)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tb *TB) ev(t *Term, m []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return m[t.k]
	}
	if t.gen == tb.gen {
		return t.ev
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - tb.ev(t.a, m)
	case OAnd:
		r = tb.ev(t.a, m)
		if r == 1 {
			r = tb.ev(t.b, m)
		}
	case OOr:
		r = tb.ev(t.a, m)
		if r == 0 {
			r = tb.ev(t.b, m)
		}
	case OIte:
		if tb.ev(t.a, m) == 1 {
			r = tb.ev(t.b, m)
		} else {
			r = tb.ev(t.c, m)
		}
	case OEq:
		r = b2u(tb.ev(t.a, m) == tb.ev(t.b, m))
	case OUlt, OUle, OSlt, OSle:
		r = b2u(foldCmp(t.op, tb.ev(t.a, m), tb.ev(t.b, m), t.a.w))
	case OZext:
		r = tb.ev(t.a, m)
	case OSext:
		r = uint64(sx(tb.ev(t.a, m), t.a.w)) & mask(t.w)
	case OExtract:
		r = (tb.ev(t.a, m) >> t.k) & mask(t.w)
	default:
		r = foldBin(t.op, tb.ev(t.a, m), tb.ev(t.b, m), t.w)
	}
	t.gen = tb.gen
	t.ev = r
	return r
}

func (t *Term) collectVars(seen map[*Term]bool, out map[int]bool) {
	if t == nil || t.v1 == -1 || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		out[int(t.k)] = true
		return
	}
	t.a.collectVars(seen, out)
	t.b.collectVars(seen, out)
	t.c.collectVars(seen, out)
}

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr"}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// emit writes definitions for every shared sub-term of t that is not yet
// defined in the solver scope and returns the reference text for t.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OVar:
		for int(t.k) >= s.nvars {
			s.buf.WriteString(fmt.Sprintf("(declare-const v%d %s)\n", s.nvars, sortOf(s.tb.vars[s.nvars].w)))
			s.nvars++
		}
		return fmt.Sprintf("v%d", t.k)
	}
	if t.name >= 0 {
		return fmt.Sprintf("d%d", t.name)
	}
	var sb strings.Builder
	switch t.op {
	case OZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, s.ref(t.a))
	default:
		sb.WriteByte('(')
		sb.WriteString(opName[t.op])
		for _, x := range [...]*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				sb.WriteString(s.ref(x))
			}
		}
		sb.WriteByte(')')
	}
	if sb.Len() < 24 {
		return sb.String()
	}
	s.ndefs++
	t.name = s.ndefs
	s.defined = append(s.defined, t)
	fmt.Fprintf(&s.buf, "(define-fun d%d () %s %s)\n", t.name, sortOf(t.w), sb.String())
	return fmt.Sprintf("d%d", t.name)
}
