package main

import (
	"fmt"
	"sync"
)

var sumMu sync.Mutex

var harnessIntr map[string]func(m *Machine, a []value) value

func (m *Machine) record1(kind string, v value, w uint8) {
	m.nondets = append(m.nondets, nondetRec{kind, v, w})
}

func init() {
	harnessIntr = map[string]func(m *Machine, a []value) value{
		// vByteIn(set string) byte: any byte of the set
		"vByteIn": func(m *Machine, a []value) value {
			s := a[0].(string)
			if len(s) == 0 {
				panic(engineAbort{"assume", "empty set"})
			}
			var d [4]uint64
			for i := 0; i < len(s); i++ {
				d[s[i]>>6] |= 1 << (s[i] & 63)
			}
			var v value
			uniq := true
			for i := 1; i < len(s); i++ {
				if s[i] != s[0] {
					uniq = false
				}
			}
			if uniq {
				v = uint64(s[0])
			} else {
				v = m.newVar(8, &d)
			}
			m.record1("byte", v, 8)
			return v
		},
		// vByte() byte: any byte
		"vByte": func(m *Machine, a []value) value {
			v := m.newVar(8, nil)
			m.record1("byte", v, 8)
			return v
		},
		// vBool() bool: symbolic
		"vBool": func(m *Machine, a []value) value {
			v := m.newVar(0, nil)
			m.record1("bool", v, 0)
			return v
		},
		// vInt(lo, hi int) int: symbolic integer in [lo,hi]
		"vInt": func(m *Machine, a []value) value {
			lo, hi := int64(a[0].(uint64)), int64(a[1].(uint64))
			v := m.newVar(64, nil)
			m.record1("int", v, 64)
			c := m.tb.and(m.tb.cmp(OSle, m.tb.konst(64, uint64(lo)), v), m.tb.cmp(OSle, v, m.tb.konst(64, uint64(hi))))
			m.assume(val(c))
			return v
		},
		// vChoose(n int) int: forks n ways
		"vChoose": func(m *Machine, a []value) value {
			k := m.choose(int(m.concretize(a[0], "vChoose")))
			m.record1("choose", uint64(k), 64)
			return uint64(k)
		},
		// vPick(b bool) bool: makes a symbolic bool concrete by forking
		"vPick": func(m *Machine, a []value) value { return m.truth(a[0]) },
		"vAnd":  func(m *Machine, a []value) value { return m.vand(a[0], a[1]) },
		"vOr":   func(m *Machine, a []value) value { return m.vor(a[0], a[1]) },
		"vNot":  func(m *Machine, a []value) value { return m.vnot(a[0]) },
		"vEqStr": func(m *Machine, a []value) value {
			return m.strEq(a[0], a[1])
		},
		"vAssume": func(m *Machine, a []value) value { m.assume(a[0]); return nil },
		"vAssert": func(m *Machine, a []value) value {
			m.assertTrue(a[0], m.modelStr(a[1], m.model))
			return nil
		},
		"vObserve": func(m *Machine, a []value) value {
			m.obs = append(m.obs, obsRec{m.modelStr(a[0], m.model), a[1]})
			return nil
		},
		"vCover":    func(m *Machine, a []value) value { m.covers[m.modelStr(a[0], m.model)] = true; return nil },
		"vMapOrder": func(m *Machine, a []value) value { m.mapOrder = a[0].(bool); return nil },
		"vTier":     func(m *Machine, a []value) value { return uint64(m.tier) },
		"vSymbolic": func(m *Machine, a []value) value { return true },
		"vConc": func(m *Machine, a []value) value { // is the string fully concrete
			_, ok := a[0].(string)
			return ok
		},
		"vDebug": func(m *Machine, a []value) value {
			fmt.Println("DEBUG", m.modelStr(a[0], m.model))
			return nil
		},
	}
}
