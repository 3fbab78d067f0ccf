package main

import (
	"bytes"
	"fmt"
	"go/format"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, a []value) value

var intrinsics map[string]intrinsic

// interpretable members of otherwise native packages
var reflectInterp = map[string]bool{
	"(reflect.Kind).String": true, "(reflect.ChanDir).String": true, "(reflect.StructTag).Get": true, "(reflect.StructTag).Lookup": true,
	"(*reflect.ValueError).Error": true, "(reflect.StructField).IsExported": true, "(reflect.Method).IsExported": true, "reflect.VisibleFields": true,
	"(*reflect.Kind).String": true,
}

func findIntrinsic(m *Machine, fn *ssa.Function) func(m *Machine, a []value) value {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	name = stripTypeArgs(name)
	if name == "reflect.TypeFor" && len(fn.TypeArgs()) == 1 {
		t := fn.TypeArgs()[0]
		return func(m *Machine, a []value) value { return m.rtIface(t) }
	}
	if f, ok := intrinsics[name]; ok {
		return f
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	switch {
	case pkg == "main" || (m.p.main != nil && fn.Pkg == m.p.main):
		if f, ok := harnessIntr[fn.Name()]; ok && fn.Signature.Recv() == nil {
			return f
		}
	case pkg == "reflect" || pkg == "internal/reflectlite":
		if reflectInterp[name] || fn.Synthetic == "package initializer" {
			return nil
		}
		if fn.Synthetic != "" && strings.Contains(fn.Synthetic, "wrapper") {
			return nil
		}
		return func(m *Machine, a []value) value { panic(unsupported("reflect: " + name)) }
	case pkg == "runtime" || strings.HasPrefix(pkg, "internal/runtime") || pkg == "syscall" || pkg == "internal/poll" || pkg == "internal/syscall/unix":
		if strings.HasPrefix(name, "(runtime.") || strings.HasPrefix(name, "(*runtime.") || fn.Synthetic != "" {
			return nil
		}
		if pkg == "syscall" && (strings.HasPrefix(name, "(syscall.Errno)") || name == "syscall.init") {
			return nil
		}
		return func(m *Machine, a []value) value { panic(unsupported("system: " + name)) }
	}
	return nil
}

func isConc(a []value) bool {
	for _, v := range a {
		switch x := v.(type) {
		case *Term, *symStr:
			return false
		case []value:
			for _, e := range x {
				if _, ok := e.(uint64); !ok {
					return false
				}
			}
		}
	}
	return true
}

func concBytes(v value) ([]byte, bool) {
	s, ok := v.([]value)
	if !ok {
		return nil, false
	}
	b := make([]byte, len(s))
	for i, e := range s {
		n, ok := e.(uint64)
		if !ok {
			return nil, false
		}
		b[i] = byte(n)
	}
	return b, true
}

func byteVals(b []byte) []value {
	r := make([]value, len(b))
	for i, c := range b {
		r[i] = uint64(c)
	}
	return r
}

func noop(m *Machine, a []value) value { return nil }

func (m *Machine) indexByte(b []value, c value) value {
	ct := m.term(c, 8)
	for i, x := range b {
		if n, ok := x.(uint64); ok {
			if k, ok := c.(uint64); ok {
				if n == k {
					return uint64(i)
				}
				continue
			}
		}
		if m.truth(val(m.tb.eq(m.term(x, 8), ct))) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (m *Machine) lastIndexByte(b []value, c value) value {
	ct := m.term(c, 8)
	for i := len(b) - 1; i >= 0; i-- {
		if m.truth(val(m.tb.eq(m.term(b[i], 8), ct))) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (m *Machine) indexSub(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return uint64(int64(strings.Index(x, y)))
		}
	}
	n, k := strLen(a), strLen(b)
	for i := 0; i+k <= n; i++ {
		if m.truth(m.strEq(strSlice(a, i, i+k), b)) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (m *Machine) countByte(b []value, c value) value {
	ct := m.term(c, 8)
	n := uint64(0)
	for _, x := range b {
		if m.truth(val(m.tb.eq(m.term(x, 8), ct))) {
			n++
		}
	}
	return n
}

func bstr(v value) value { return mkStr(v.([]value)) }

func (m *Machine) compareStr(a, b value) value {
	if m.truth(m.strEq(a, b)) {
		return uint64(0)
	}
	if m.truth(m.strLess(a, b)) {
		return ^uint64(0)
	}
	return uint64(1)
}

func ptrOf(v value) *value {
	p, ok := v.(*value)
	if !ok {
		panic(unsupported(fmt.Sprintf("atomic on %T", v)))
	}
	return p
}

func atomicLoad(m *Machine, a []value) value { return m.loadAny(a[0]) }
func atomicStore(m *Machine, a []value) value {
	m.store(ptrOf(a[0]), a[1])
	return nil
}
func atomicSwap(m *Machine, a []value) value {
	p := ptrOf(a[0])
	o := *p
	m.store(p, a[1])
	return o
}
func atomicCAS(m *Machine, a []value) value {
	p := ptrOf(a[0])
	if m.truth(m.eqVals(*p, a[1])) {
		m.store(p, a[2])
		return true
	}
	return false
}
func atomicAdd(w uint8) intrinsic {
	return func(m *Machine, a []value) value {
		p := ptrOf(a[0])
		n := ((*p).(uint64) + a[1].(uint64)) & mask(w)
		m.store(p, n)
		return n
	}
}
func atomicAnd(m *Machine, a []value) value {
	p := ptrOf(a[0])
	o := (*p).(uint64)
	m.store(p, o&a[1].(uint64))
	return o
}
func atomicOr(m *Machine, a []value) value {
	p := ptrOf(a[0])
	o := (*p).(uint64)
	m.store(p, o|a[1].(uint64))
	return o
}

// runePred summarises a predicate on runes as ranges, computed from the native
// function over all code points.
type runeRun struct {
	lo, hi uint32
	delta  int32
}

var runeSums = map[string][]runeRun{}

func predRuns(f func(rune) bool) []runeRun {
	var r []runeRun
	in := false
	for c := rune(0); c <= unicode.MaxRune+1; c++ {
		v := c <= unicode.MaxRune && f(c)
		if v && !in {
			r = append(r, runeRun{lo: uint32(c)})
		}
		if !v && in {
			r[len(r)-1].hi = uint32(c) - 1
		}
		in = v
	}
	return r
}

func mapRuns(f func(rune) rune) []runeRun {
	var r []runeRun
	for c := rune(0); c <= unicode.MaxRune; c++ {
		d := f(c) - c
		if d == 0 {
			continue
		}
		if n := len(r); n > 0 && r[n-1].hi == uint32(c)-1 && r[n-1].delta == d {
			r[n-1].hi++
			continue
		}
		r = append(r, runeRun{uint32(c), uint32(c), d})
	}
	return r
}

var unicodePreds = map[string]func(rune) bool{
	"IsLetter": unicode.IsLetter, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsDigit": unicode.IsDigit, "IsTitle": unicode.IsTitle,
	"IsNumber": unicode.IsNumber, "IsPrint": unicode.IsPrint, "IsGraphic": unicode.IsGraphic, "IsSpace": unicode.IsSpace, "IsControl": unicode.IsControl,
	"IsPunct": unicode.IsPunct, "IsSymbol": unicode.IsSymbol, "IsMark": unicode.IsMark,
}
var unicodeMaps = map[string]func(rune) rune{"ToUpper": unicode.ToUpper, "ToLower": unicode.ToLower, "ToTitle": unicode.ToTitle, "SimpleFold": unicode.SimpleFold}

func sumRuns(name string) []runeRun {
	sumMu.Lock()
	defer sumMu.Unlock()
	if r, ok := runeSums[name]; ok {
		return r
	}
	var r []runeRun
	if f, ok := unicodePreds[name]; ok {
		r = predRuns(f)
	} else if f, ok := extraPreds[name]; ok {
		r = predRuns(f)
	} else {
		r = mapRuns(unicodeMaps[name])
	}
	runeSums[name] = r
	return r
}

var extraPreds = map[string]func(rune) bool{"strconv.IsPrint": strconv.IsPrint, "strconv.IsGraphic": strconv.IsGraphic}

// maxOf bounds a term's value from above (unsigned), cheaply.
func (m *Machine) maxOf(t *Term) uint64 {
	if t.v1 >= 0 && m.dom[t.v1] != nil {
		mx := uint64(0)
		m.table(t2c(m, t), int(t.v1), func(v int, _ bool) {
			save := m.model[t.v1]
			m.model[t.v1] = uint64(v)
			if x := m.tb.eval(t, m.model); x > mx {
				mx = x
			}
			m.model[t.v1] = save
		})
		return mx
	}
	switch t.op {
	case OConst:
		return t.k
	case OZext:
		return m.maxOf(t.a)
	}
	return mask(t.w)
}

func t2c(m *Machine, t *Term) *Term { return m.tb.boolc(true) }

func predTerm(m *Machine, name string, r *Term) value {
	tb := m.tb
	// a single variable with a small domain: evaluate the predicate per value
	res := tb.boolc(false)
	mx := m.maxOf(r)
	for _, g := range sumRuns(name) {
		if uint64(g.lo) > mx {
			break
		}
		var c *Term
		if g.lo == g.hi {
			c = tb.eq(r, tb.konst(32, uint64(g.lo)))
		} else {
			c = tb.and(tb.cmp(OUle, tb.konst(32, uint64(g.lo)), r), tb.cmp(OUle, r, tb.konst(32, uint64(g.hi))))
		}
		res = tb.or(res, c)
	}
	return val(res)
}

func mapTerm(m *Machine, name string, r *Term) value {
	tb := m.tb
	res := r
	mx := m.maxOf(r)
	for _, g := range sumRuns(name) {
		if uint64(g.lo) > mx {
			break
		}
		c := tb.and(tb.cmp(OUle, tb.konst(32, uint64(g.lo)), r), tb.cmp(OUle, r, tb.konst(32, uint64(g.hi))))
		res = tb.ite(c, tb.bin(OAdd, r, tb.konst(32, uint64(int64(g.delta)))), res)
	}
	return val(res)
}

func str2(f func(a, b string) value) intrinsic {
	return nil
}

func init() {
	intrinsics = map[string]intrinsic{
		"runtime.KeepAlive":                         noop,
		"runtime.SetFinalizer":                      noop,
		"runtime.GC":                                noop,
		"runtime.Gosched":                           noop,
		"runtime.GOMAXPROCS":                        func(m *Machine, a []value) value { return uint64(1) },
		"runtime.NumCPU":                            func(m *Machine, a []value) value { return uint64(1) },
		"runtime.Caller":                            func(m *Machine, a []value) value { return tuple{uint64(0), "", uint64(0), false} },
		"runtime.Callers":                           func(m *Machine, a []value) value { return uint64(0) },
		"internal/abi.NoEscape":                     func(m *Machine, a []value) value { return a[0] },
		"internal/abi.Escape":                       func(m *Machine, a []value) value { return a[0] },
		"internal/race.Enable":                      noop,
		"internal/race.Disable":                     noop,
		"internal/asan.Read":                        noop,
		"internal/godebug.New":                      func(m *Machine, a []value) value { return m.newCell(structure{}) },
		"(*internal/godebug.Setting).Value":         func(m *Machine, a []value) value { return "" },
		"(*internal/godebug.Setting).IncNonDefault": noop,
		"(*internal/godebug.Setting).Name":          func(m *Machine, a []value) value { return "" },
		"(*sync.Mutex).Lock":                        noop,
		"(*sync.Mutex).Unlock":                      noop,
		"(*sync.Mutex).TryLock":                     func(m *Machine, a []value) value { return true },
		"(*sync.RWMutex).Lock":                      noop,
		"(*sync.RWMutex).Unlock":                    noop,
		"(*sync.RWMutex).RLock":                     noop,
		"(*sync.RWMutex).RUnlock":                   noop,
		"(*sync.Pool).Put":                          noop,
		"sync/atomic.LoadInt32":                     atomicLoad,
		"sync/atomic.LoadInt64":                     atomicLoad,
		"sync/atomic.LoadUint32":                    atomicLoad,
		"sync/atomic.LoadUint64":                    atomicLoad,
		"sync/atomic.LoadUintptr":                   atomicLoad,
		"sync/atomic.LoadPointer":                   atomicLoad,
		"sync/atomic.StoreInt32":                    atomicStore,
		"sync/atomic.StoreInt64":                    atomicStore,
		"sync/atomic.StoreUint32":                   atomicStore,
		"sync/atomic.StoreUint64":                   atomicStore,
		"sync/atomic.StoreUintptr":                  atomicStore,
		"sync/atomic.StorePointer":                  atomicStore,
		"sync/atomic.SwapInt32":                     atomicSwap,
		"sync/atomic.SwapInt64":                     atomicSwap,
		"sync/atomic.SwapUint32":                    atomicSwap,
		"sync/atomic.SwapUint64":                    atomicSwap,
		"sync/atomic.SwapPointer":                   atomicSwap,
		"sync/atomic.CompareAndSwapInt32":           atomicCAS,
		"sync/atomic.CompareAndSwapInt64":           atomicCAS,
		"sync/atomic.CompareAndSwapUint32":          atomicCAS,
		"sync/atomic.CompareAndSwapUint64":          atomicCAS,
		"sync/atomic.CompareAndSwapPointer":         atomicCAS,
		"sync/atomic.AddInt32":                      atomicAdd(32),
		"sync/atomic.AddInt64":                      atomicAdd(64),
		"sync/atomic.AddUint32":                     atomicAdd(32),
		"sync/atomic.AddUint64":                     atomicAdd(64),
		"sync/atomic.AndInt32":                      atomicAnd,
		"sync/atomic.AndUint32":                     atomicAnd,
		"sync/atomic.OrInt32":                       atomicOr,
		"sync/atomic.OrUint32":                      atomicOr,
		"internal/bytealg.MakeNoZero": func(m *Machine, a []value) value {
			n := int(m.concretize(a[0], "MakeNoZero"))
			s := make([]value, n, roundup(n))
			z := s[:cap(s)]
			for i := range z {
				z[i] = uint64(0)
			}
			return s
		},
		"internal/bytealg.IndexByte":           func(m *Machine, a []value) value { return m.indexByte(a[0].([]value), a[1]) },
		"internal/bytealg.IndexByteString":     func(m *Machine, a []value) value { return m.indexByte(strBytes(a[0]), a[1]) },
		"internal/bytealg.LastIndexByte":       func(m *Machine, a []value) value { return m.lastIndexByte(a[0].([]value), a[1]) },
		"internal/bytealg.LastIndexByteString": func(m *Machine, a []value) value { return m.lastIndexByte(strBytes(a[0]), a[1]) },
		"internal/bytealg.Index":               func(m *Machine, a []value) value { return m.indexSub(bstr(a[0]), bstr(a[1])) },
		"internal/bytealg.IndexString":         func(m *Machine, a []value) value { return m.indexSub(a[0], a[1]) },
		"internal/bytealg.Cutover":             func(m *Machine, a []value) value { return uint64(1 << 30) },
		"internal/bytealg.Count":               func(m *Machine, a []value) value { return m.countByte(a[0].([]value), a[1]) },
		"internal/bytealg.CountString":         func(m *Machine, a []value) value { return m.countByte(strBytes(a[0]), a[1]) },
		"internal/bytealg.Equal":               func(m *Machine, a []value) value { return m.strEq(bstr(a[0]), bstr(a[1])) },
		"internal/bytealg.Compare":             func(m *Machine, a []value) value { return m.compareStr(bstr(a[0]), bstr(a[1])) },
		"internal/bytealg.CompareString":       func(m *Machine, a []value) value { return m.compareStr(a[0], a[1]) },
		"internal/bytealg.IndexRabinKarp": func(m *Machine, a []value) value {
			if s, ok := a[0].([]value); ok {
				return m.indexSub(mkStr(s), mkStr(a[1].([]value)))
			}
			return m.indexSub(a[0], a[1])
		},
		"strings.Index":                    func(m *Machine, a []value) value { return m.indexSub(a[0], a[1]) },
		"bytes.Index":                      func(m *Machine, a []value) value { return m.indexSub(bstr(a[0]), bstr(a[1])) },
		"strings.Compare":                  func(m *Machine, a []value) value { return m.compareStr(a[0], a[1]) },
		"bytes.Equal":                      func(m *Machine, a []value) value { return m.strEq(bstr(a[0]), bstr(a[1])) },
		"bytes.Compare":                    func(m *Machine, a []value) value { return m.compareStr(bstr(a[0]), bstr(a[1])) },
		"strings.Clone":                    func(m *Machine, a []value) value { return a[0] },
		"internal/stringslite.Clone":       func(m *Machine, a []value) value { return a[0] },
		"(*strings.Builder).copyCheck":     noop,
		"math.Float64bits":                 func(m *Machine, a []value) value { return math.Float64bits(a[0].(float64)) },
		"math.Float64frombits":             func(m *Machine, a []value) value { return math.Float64frombits(a[0].(uint64)) },
		"math.Float32bits":                 func(m *Machine, a []value) value { return uint64(math.Float32bits(float32(a[0].(float64)))) },
		"math.Float32frombits":             func(m *Machine, a []value) value { return float64(math.Float32frombits(uint32(a[0].(uint64)))) },
		"internal/strconv.float64bits":     func(m *Machine, a []value) value { return math.Float64bits(a[0].(float64)) },
		"internal/strconv.float64frombits": func(m *Machine, a []value) value { return math.Float64frombits(a[0].(uint64)) },
		"internal/strconv.float32bits":     func(m *Machine, a []value) value { return uint64(math.Float32bits(float32(a[0].(float64)))) },
		"internal/strconv.float32frombits": func(m *Machine, a []value) value { return float64(math.Float32frombits(uint32(a[0].(uint64)))) },
		"math.Abs":                         func(m *Machine, a []value) value { return math.Abs(a[0].(float64)) },
		"math.Floor":                       func(m *Machine, a []value) value { return math.Floor(a[0].(float64)) },
		"math.Ceil":                        func(m *Machine, a []value) value { return math.Ceil(a[0].(float64)) },
		"math.Trunc":                       func(m *Machine, a []value) value { return math.Trunc(a[0].(float64)) },
		"unicode/utf8.DecodeRuneInString": func(m *Machine, a []value) value {
			r, n := m.decodeRune(headBytes(a[0]))
			return tuple{r, uint64(n)}
		},
		"unicode/utf8.DecodeRune": func(m *Machine, a []value) value {
			s := a[0].([]value)
			r, n := m.decodeRune(s)
			return tuple{r, uint64(n)}
		},
		"go/format.Source":                nil,
		"time.Now":                        func(m *Machine, a []value) value { panic(unsupported("time.Now")) },
		"os.runtime_args":                 func(m *Machine, a []value) value { return []value(nil) },
		"os.runtime_beforeExit":           noop,
		"internal/godebug.registerMetric": noop,
		"internal/godebug.setUpdate":      noop,
	}
	delete(intrinsics, "go/format.Source")
	for n := range unicodePreds {
		n := n
		f := unicodePreds[n]
		intrinsics["unicode."+n] = func(m *Machine, a []value) value {
			if c, ok := a[0].(uint64); ok {
				return f(rune(int32(c)))
			}
			if t := a[0].(*Term); t.v1 != -2 || (n != "IsUpper" && n != "IsLower") {
				return predTerm(m, n, t)
			}
			return forkPred(m, n, a[0].(*Term))
		}
	}
	for n := range extraPreds {
		n := n
		f := extraPreds[n]
		intrinsics[n] = func(m *Machine, a []value) value {
			if c, ok := a[0].(uint64); ok {
				return f(rune(int32(c)))
			}
			return predTerm(m, n, a[0].(*Term))
		}
	}
	intrinsics["internal/strconv.IsPrint"] = intrinsics["strconv.IsPrint"]
	intrinsics["internal/strconv.IsGraphic"] = intrinsics["strconv.IsGraphic"]
	for n := range unicodeMaps {
		n := n
		f := unicodeMaps[n]
		intrinsics["unicode."+n] = func(m *Machine, a []value) value {
			if c, ok := a[0].(uint64); ok {
				return uint64(uint32(f(rune(int32(c)))))
			}
			if t := a[0].(*Term); t.v1 != -2 {
				return mapTerm(m, n, t)
			}
			return forkMap(m, n, a[0].(*Term))
		}
	}
	// the pool hands out what New makes
	intrinsics["(*sync.Pool).Get"] = func(m *Machine, a []value) value {
		s := (*ptrOf(a[0])).(structure)
		f := s[len(s)-1]
		if isNilFunc(f) {
			return iface{}
		}
		return m.callValue(nil, f, nil)
	}
	// sync/atomic.Value{v any}
	intrinsics["(*sync/atomic.Value).Load"] = func(m *Machine, a []value) value { return (*ptrOf(a[0])).(structure)[0] }
	intrinsics["(*sync/atomic.Value).Store"] = func(m *Machine, a []value) value {
		m.store(&(*ptrOf(a[0])).(structure)[0], a[1])
		return nil
	}
	for _, n := range []string{"HasPrefix", "HasSuffix", "Contains"} {
		n := n
		intrinsics["strings."+n] = func(m *Machine, a []value) value {
			ls, lp := strLen(a[0]), strLen(a[1])
			switch n {
			case "HasPrefix":
				if lp > ls {
					return false
				}
				return m.strEq(strSlice(a[0], 0, lp), a[1])
			case "HasSuffix":
				if lp > ls {
					return false
				}
				return m.strEq(strSlice(a[0], ls-lp, ls), a[1])
			}
			// a substring test as one formula
			var r value = false
			for i := 0; i+lp <= ls; i++ {
				r = m.vor(r, m.strEq(strSlice(a[0], i, i+lp), a[1]))
				if r == true {
					return true
				}
			}
			return r
		}
	}
}

func headBytes(v value) []value {
	switch s := v.(type) {
	case string:
		if len(s) > 4 {
			s = s[:4]
		}
		return strBytes(s)
	case *symStr:
		return s.b
	}
	panic("headBytes")
}

// fastNative runs go/format.Source natively on concrete input; everything else
// about it is interpreted.
func fastFormat(m *Machine, fn *ssa.Function, a []value) (value, bool) {
	b, ok := concBytes(a[0])
	if !ok {
		return nil, false
	}
	out, err := format.Source(b)
	if err != nil {
		return nil, false
	}
	return tuple{byteVals(out), iface{}}, true
}

var _ = bytes.Equal
var _ = types.Typ
var _ = utf8.RuneError
