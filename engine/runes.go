package main

import (
	"sync"
	"unicode"
)

// A runeSeg is a range of code points over which a case map adds de at even
// and do at odd distances from lo (0 or 1 for predicates: false or true).
type runeSeg struct {
	lo, hi uint32
	de, do int32
}

var (
	segMu  sync.Mutex
	segTab = map[string][]runeSeg{}
)

func runeSegs(name string) []runeSeg {
	segMu.Lock()
	defer segMu.Unlock()
	if r, ok := segTab[name]; ok {
		return r
	}
	val := func(c rune) int32 {
		if f, ok := unicodePreds[name]; ok {
			return int32(b2u(f(c)))
		}
		return unicodeMaps[name](c) - c
	}
	var r []runeSeg
	for c := rune(0); c <= unicode.MaxRune; c++ {
		v := val(c)
		if n := len(r) - 1; n >= 0 {
			s := &r[n]
			switch k := uint32(c) - s.lo; {
			case k == 1:
				// the second one decides whether the range alternates, but a
				// plain range must not swallow the start of the next
				if s.de == v {
					s.do, s.hi = v, uint32(c)
					continue
				}
				if c < unicode.MaxRune && val(c+1) == s.de {
					s.do, s.hi = v, uint32(c)
					continue
				}
			case k%2 == 0 && s.de == v, k%2 == 1 && s.do == v:
				s.hi = uint32(c)
				continue
			}
		}
		r = append(r, runeSeg{uint32(c), uint32(c), v, v})
	}
	// check the table against the function
	i := 0
	for c := rune(0); c <= unicode.MaxRune; c++ {
		if uint32(c) > r[i].hi {
			i++
		}
		want := r[i].de
		if (uint32(c)-r[i].lo)%2 == 1 {
			want = r[i].do
		}
		if uint32(c) < r[i].lo || want != val(c) {
			panic("rune table is wrong")
		}
	}
	segTab[name] = r
	return r
}

// segOf forks over the ranges of the table that the code point may lie in.
func (m *Machine) segOf(segs []runeSeg, r *Term) *runeSeg {
	lo, hi := 0, len(segs)-1
	for lo < hi {
		mid := (lo + hi) / 2
		if m.branch(m.tb.cmp(OUle, r, m.tb.konst(32, uint64(segs[mid].hi)))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return &segs[lo]
}

func (m *Machine) oddIn(s *runeSeg, r *Term) *Term {
	tb := m.tb
	d := tb.bin(OSub, r, tb.konst(32, uint64(s.lo)))
	return tb.eq(tb.bin(OBAnd, d, tb.konst(32, 1)), tb.konst(32, 1))
}

// forkPred and forkMap decide a predicate or case map of a code point made of
// several unknown bytes by forking; one formula over all ranges is too much for
// the solver.
func forkPred(m *Machine, name string, r *Term) value {
	if m.truth(val(m.tb.cmp(OUlt, m.tb.konst(32, unicode.MaxRune), r))) {
		return false
	}
	s := m.segOf(runeSegs(name), r)
	if s.de == s.do {
		return s.de == 1
	}
	o := m.oddIn(s, r)
	if s.de == 1 {
		o = m.tb.not(o)
	}
	return val(o)
}

func forkMap(m *Machine, name string, r *Term) value {
	if m.truth(val(m.tb.cmp(OUlt, m.tb.konst(32, unicode.MaxRune), r))) {
		return r
	}
	s := m.segOf(runeSegs(name), r)
	d := s.de
	if s.de != s.do && m.truth(val(m.oddIn(s, r))) {
		d = s.do
	}
	if d == 0 {
		return r
	}
	return val(m.tb.bin(OAdd, r, m.tb.konst(32, uint64(uint32(d)))))
}
