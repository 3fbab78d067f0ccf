package main

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"math/rand"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// engineAbort ends the current path inside the engine.
type engineAbort struct {
	kind string // assume, unsupported, steps, depth, solver, timeout
	msg  string
}

func unsupported(msg string) engineAbort { return engineAbort{"unsupported", msg} }

// targetPanic is a panic of the interpreted program.
type targetPanic struct{ v iface }

type decision struct {
	choice  int32
	payload uint64
}

// pathJob is a prefix of decisions still to be explored, with a model that
// satisfies the path condition of that prefix.
type pathJob struct {
	dec   []decision
	model []uint64
}

type nondetRec struct {
	kind string
	v    value // bool/uint64/*Term
	w    uint8
}

type obsRec struct {
	label string
	v     value
}

// Prog is everything the workers share.
type Prog struct {
	prog     *ssa.Program
	fset     *token.FileSet
	main     *ssa.Package
	target   map[*ssa.Package]bool // packages of the repository under test
	errStr   types.Type            // runtime.errorString
	hasher   typeutil.Hasher
	mu       sync.Mutex
	canonM   typeutil.Map
	rtypeT   types.Type // *reflect.rtype
	sizes    types.Sizes
	allPkgs  map[string]*ssa.Package
	valueT   types.Type
	reflPkg  *ssa.Package
	zeroBase value
}

type domClaim struct {
	n    int // length of the path condition
	cond *Term
	cur  bool
}

type claimKey struct {
	cond *Term
	cur  bool
}

// Machine interprets one path at a time.
type Machine struct {
	p      *Prog
	tb     *TB
	sol    *Solver
	rng    *rand.Rand
	job    *pathJob
	tier   int
	params map[string]int

	// path state
	pos      int // next decision to replay
	dec      []decision
	model    []uint64
	dom      []*[4]uint64 // per variable (w<=8): allowed values
	entang   []bool
	pc       []*Term // constraints; first nAsserted are already in the solver
	nAssert  int
	nondets  []nondetRec
	obs      []obsRec
	covers   map[string]bool
	undo     []undoRec
	mapSaved []mapSave
	inInit   bool
	steps    int64
	maxSteps int64
	depth    int
	mapOrder bool
	deadline time.Time
	emit     func(*pathJob) // publish a sibling path
	onAssert func(msg string, model []uint64)
	stats    *Stats

	// per machine caches
	code        map[*ssa.Function]*cfn
	globals     map[*ssa.Global]*value
	pkgState    map[*ssa.Package]int
	methCache   map[methKey]*ssa.Function
	canonC      map[types.Type]types.Type
	rtypes      map[types.Type]*rtypeV
	initErrs    map[string]bool
	lastPos     token.Pos
	cfns        []*cfn
	extState    map[string]any
	natCache    map[any]any
	claims      []domClaim
	claimed     map[claimKey]bool
	curCaller   *frame
	curFn       *cfn
	initAllowed bool
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

type Stats struct {
	mu         sync.Mutex
	Paths      int64
	Completed  int64
	Aborted    map[string]int64
	Steps      int64
	Decisions  int64
	Asserts    int64
	AssertNorm int64 // discharged by normalisation to true
	AssertSMT  int64 // discharged by an unsat answer
	AssertDom  int64
	AssertUnk  int64
	Branches   int64 // symbolic branches met
	BrDom      int64 // decided by the byte-domain procedure
	BrSMT      int64 // decided by the solver
	BrUnk      int64
	DomConf    int64 // one-sided domain decisions confirmed by the solver
	DomUnk     int64
	PathConf   int64 // path conditions confirmed satisfiable by the solver
	Covers     map[string]int64
}

func (p *Prog) newMachine(solver string, timeoutMS int) (*Machine, error) {
	m := &Machine{p: p, tb: newTB(), code: map[*ssa.Function]*cfn{}, globals: map[*ssa.Global]*value{}, pkgState: map[*ssa.Package]int{},
		methCache: map[methKey]*ssa.Function{}, canonC: map[types.Type]types.Type{}, rtypes: map[types.Type]*rtypeV{}, initErrs: map[string]bool{},
		params: map[string]int{}, extState: map[string]any{}, natCache: map[any]any{}}
	s, err := newSolver(solver, m.tb, timeoutMS)
	if err != nil {
		return nil, err
	}
	m.sol = s
	return m, nil
}

// canon returns one representative per class of identical types.
func (m *Machine) canon(t types.Type) types.Type {
	if c, ok := m.canonC[t]; ok {
		return c
	}
	t0 := t
	t = types.Unalias(t)
	m.p.mu.Lock()
	c := m.p.canonM.At(t)
	if c == nil {
		m.p.canonM.Set(t, t)
		c = t
	}
	m.p.mu.Unlock()
	m.canonC[t0] = c.(types.Type)
	return c.(types.Type)
}

func (m *Machine) identical(a, b types.Type) bool {
	return a == b || m.canon(a) == m.canon(b)
}

func (m *Machine) rtype(t types.Type) *rtypeV {
	c := m.canon(t)
	if r, ok := m.rtypes[c]; ok {
		return r
	}
	r := &rtypeV{c}
	m.rtypes[c] = r
	return r
}

// ---- path life cycle

func (m *Machine) startPath(job *pathJob) {
	m.tb.reset()
	m.sol.newPath()
	m.job = job
	m.pos = 0
	m.dec = append([]decision(nil), job.dec...)
	m.model = append([]uint64(nil), job.model...)
	m.dom = m.dom[:0]
	m.entang = m.entang[:0]
	m.pc = m.pc[:0]
	m.nAssert = 0
	m.nondets = m.nondets[:0]
	m.obs = m.obs[:0]
	m.covers = map[string]bool{}
	m.steps = 0
	m.depth = 0
	m.mapOrder = false
	m.extState = map[string]any{}
	m.claims = m.claims[:0]
	m.claimed = map[claimKey]bool{}
}

func (m *Machine) endPath() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		*m.undo[i].p = m.undo[i].old
	}
	m.undo = m.undo[:0]
	for i := len(m.mapSaved) - 1; i >= 0; i-- {
		*m.mapSaved[i].m = m.mapSaved[i].old
	}
	m.mapSaved = m.mapSaved[:0]
	if cap(m.undo) > 1<<20 {
		m.undo = nil
	}
}

func (m *Machine) replaying() bool { return m.pos < len(m.job.dec) }

// newVar makes a fresh variable; dom lists its allowed values for widths up to
// eight bits (nil: all).
func (m *Machine) newVar(w uint8, dom *[4]uint64) *Term {
	t := m.tb.newVar(w)
	id := int(t.k)
	if w <= 8 {
		if dom == nil {
			dom = new([4]uint64)
			n := 1 << w
			if w == 0 {
				n = 2
			}
			for i := 0; i < n; i++ {
				dom[i>>6] |= 1 << (i & 63)
			}
		} else {
			d := *dom
			dom = &d
		}
	} else {
		dom = nil
	}
	m.dom = append(m.dom, dom)
	m.entang = append(m.entang, false)
	first := uint64(0)
	if dom != nil {
		for i := 0; i < 256; i++ {
			if dom[i>>6]>>(i&63)&1 == 1 {
				first = uint64(i)
				break
			}
		}
	}
	if len(m.model) <= id {
		m.model = append(m.model, first)
	} else if dom != nil && dom[(m.model[id]&255)>>6]>>(m.model[id]&63)&1 == 0 {
		m.model[id] = first
	}
	if dom != nil {
		if c := m.domTerm(t, dom); !c.isTrue() {
			m.pc = append(m.pc, c)
		}
	}
	return t
}

func (m *Machine) domTerm(t *Term, dom *[4]uint64) *Term {
	if t.w == 0 {
		return m.tb.boolc(true)
	}
	n := 1 << t.w
	r := m.tb.boolc(false)
	full := true
	for i := 0; i < n; {
		if dom[i>>6]>>(i&63)&1 == 0 {
			full = false
			i++
			continue
		}
		j := i
		for j+1 < n && dom[(j+1)>>6]>>((j+1)&63)&1 == 1 {
			j++
		}
		r = m.tb.or(r, m.tb.and(m.tb.cmp(OUle, m.tb.konst(t.w, uint64(i)), t), m.tb.cmp(OUle, t, m.tb.konst(t.w, uint64(j)))))
		i = j + 1
	}
	if full {
		return m.tb.boolc(true)
	}
	return r
}

// constrain adds a path constraint (known to hold in the current model).
func (m *Machine) constrain(c *Term) {
	if c.isC() {
		if c.k == 0 {
			panic(engineAbort{"assume", "false"})
		}
		return
	}
	m.pc = append(m.pc, c)
	if c.v1 >= 0 {
		if d := m.dom[c.v1]; d != nil {
			nd := *d
			m.table(c, int(c.v1), func(v int, holds bool) {
				if !holds {
					nd[v>>6] &^= 1 << (v & 63)
				}
			})
			m.dom[c.v1] = &nd
			return
		}
		m.entang[c.v1] = true
		return
	}
	vs := map[int]bool{}
	c.collectVars(map[*Term]bool{}, vs)
	for v := range vs {
		m.entang[v] = true
	}
}

// table evaluates a condition over every allowed value of its only variable.
func (m *Machine) table(c *Term, v int, f func(val int, holds bool)) {
	save := m.model[v]
	d := m.dom[v]
	for w := 0; w < 4; w++ {
		x := d[w]
		for b := 0; x != 0; b, x = b+1, x>>1 {
			if x&1 == 0 {
				continue
			}
			i := w*64 + b
			m.model[v] = uint64(i)
			f(i, m.tb.eval(c, m.model) == 1)
		}
	}
	m.model[v] = save
}

func (m *Machine) flushPC() {
	for ; m.nAssert < len(m.pc); m.nAssert++ {
		m.sol.assert(m.pc[m.nAssert])
	}
}

// query asks whether the path condition together with c is satisfiable.
func (m *Machine) query(c *Term) (satResult, []uint64) {
	m.flushPC()
	r, mod := m.sol.check(c)
	return r, mod
}

// other decides whether the opposite of what the model says about cond is
// possible; it returns a model for it if so.
func (m *Machine) otherSide(cond *Term, cur bool) (satResult, []uint64) {
	if cond.v1 >= 0 && m.dom[cond.v1] != nil {
		found := -1
		m.table(cond, int(cond.v1), func(v int, holds bool) {
			if holds != cur && found < 0 {
				found = v
			}
		})
		if found < 0 {
			m.stats.BrDom++
			m.claim(cond, cur)
			return unsat, nil
		}
		if !m.entang[cond.v1] {
			m.stats.BrDom++
			mod := append([]uint64(nil), m.model...)
			mod[cond.v1] = uint64(found)
			return sat, mod
		}
	}
	m.stats.BrSMT++
	c := cond
	if cur {
		c = m.tb.not(cond)
	}
	return m.query(c)
}

// claim remembers that the byte-domain procedure found a condition to be
// one-sided here; the solver is asked to confirm it at the end of the path.
func (m *Machine) claim(cond *Term, cur bool) {
	k := claimKey{cond, cur}
	if m.claimed[k] {
		return // the path condition only grows
	}
	m.claimed[k] = true
	m.claims = append(m.claims, domClaim{len(m.pc), cond, cur})
}

// confirm has the solver decide what the byte-domain procedure decided on this
// path: that the path condition is satisfiable, and that none of the sides not
// taken was possible where it was not taken.
func (m *Machine) confirm() error {
	if len(m.pc) == 0 && len(m.claims) == 0 {
		return nil
	}
	m.sol.newPath()
	m.nAssert = 0
	if len(m.claims) > 0 {
		pre, any := m.tb.boolc(true), m.tb.boolc(false)
		n := 0
		for _, c := range m.claims {
			for ; n < c.n; n++ {
				pre = m.tb.and(pre, m.pc[n])
			}
			o := c.cond
			if c.cur {
				o = m.tb.not(o)
			}
			any = m.tb.or(any, m.tb.and(pre, o))
		}
		m.sol.noModel = true
		r, _ := m.sol.check(any)
		m.sol.noModel = false
		switch r {
		case sat:
			return fmt.Errorf("the solver finds a branch possible that the byte-domain procedure excluded")
		case unsat:
			m.stats.DomConf += int64(len(m.claims))
		case unknown:
			m.stats.DomUnk += int64(len(m.claims))
		}
	}
	if len(m.pc) > 0 {
		m.flushPC()
		m.sol.noModel = true
		r, _ := m.sol.check(nil)
		m.sol.noModel = false
		switch r {
		case unsat:
			return fmt.Errorf("the solver finds an explored path infeasible")
		case sat:
			m.stats.PathConf++
		}
	}
	return nil
}

// branch decides a symbolic condition, publishing the other side as a new path.
func (m *Machine) branch(cond *Term) bool {
	if cond.isC() {
		return cond.k == 1
	}
	if m.inInit {
		panic(unsupported("symbolic branch during package initialisation"))
	}
	m.stats.Branches++
	if m.replaying() {
		d := m.dec[m.pos]
		m.pos++
		if d.payload == 1 { // one-sided: implied by the path condition
			return d.choice == 1
		}
		if d.choice == 1 {
			m.constrain(cond)
			return true
		}
		m.constrain(m.tb.not(cond))
		return false
	}
	cur := m.tb.eval(cond, m.model) == 1
	r, mod := m.otherSide(cond, cur)
	ch := int32(b2u(cur))
	switch r {
	case unsat:
		m.record(decision{ch, 1})
		return cur
	case unknown:
		m.stats.BrUnk++
	case sat:
		if forkHist != nil {
			forkAt(m.posOf())
		}
		m.publish(decision{1 - ch, 0}, mod)
	}
	m.record(decision{ch, 0})
	if cur {
		m.constrain(cond)
	} else {
		m.constrain(m.tb.not(cond))
	}
	return cur
}

func (m *Machine) record(d decision) {
	m.dec = append(m.dec, d)
	m.pos = len(m.dec)
	m.stats.Decisions++
}

func (m *Machine) publish(d decision, model []uint64) {
	dec := make([]decision, len(m.dec)+1)
	copy(dec, m.dec)
	dec[len(m.dec)] = d
	m.emit(&pathJob{dec: dec, model: model})
}

// choose forks n ways without constraints.
func (m *Machine) choose(n int) int {
	if n <= 0 {
		panic(engineAbort{"assume", "empty choice"})
	}
	if n == 1 {
		return 0
	}
	if m.replaying() {
		d := m.dec[m.pos]
		m.pos++
		return int(d.choice)
	}
	for i := n - 1; i > 0; i-- {
		m.publish(decision{int32(i), 2}, append([]uint64(nil), m.model...))
	}
	m.record(decision{0, 2})
	return 0
}

// truth turns a value into a concrete bool, forking if necessary.
func (m *Machine) truth(v value) bool {
	switch b := v.(type) {
	case bool:
		return b
	case *Term:
		return m.branch(b)
	}
	panic(fmt.Sprintf("truth of %T", v))
}

// concretize forks over all feasible values of t.
func (m *Machine) concretize(v value, what string) uint64 {
	t, ok := v.(*Term)
	if !ok {
		return v.(uint64)
	}
	for n := 0; ; n++ {
		if n > 600 {
			panic(unsupported("too many values for " + what))
		}
		var guess uint64
		if m.replaying() {
			guess = m.dec[m.pos].payload
			m.pos++
		} else {
			guess = m.tb.eval(t, m.model)
			m.record(decision{0, guess})
		}
		if m.branch(m.tb.eq(t, m.tb.konst(t.w, guess))) {
			return guess
		}
	}
}

func (m *Machine) assume(v value) {
	switch b := v.(type) {
	case bool:
		if !b {
			panic(engineAbort{"assume", ""})
		}
	case *Term:
		if m.replaying() {
			m.constrain(b)
			m.pos++
			return
		}
		if m.tb.eval(b, m.model) != 1 {
			var r satResult
			var mod []uint64
			if b.v1 >= 0 && m.dom[b.v1] != nil && !m.entang[b.v1] {
				r, mod = m.otherSide(b, false)
			} else {
				m.stats.BrSMT++
				r, mod = m.query(b)
			}
			if r == unknown {
				m.stats.BrUnk++
				panic(engineAbort{"unknown", "assumption undecided"})
			}
			if r == unsat {
				panic(engineAbort{"assume", ""})
			}
			m.model = mod
		}
		m.record(decision{0, 0})
		m.constrain(b)
	}
}

// assertTrue is the property check.
func (m *Machine) assertTrue(v value, msg string) {
	m.stats.Asserts++
	switch b := v.(type) {
	case bool:
		if m.replaying() {
			if !b {
				panic(engineAbort{"assume", "asserted false on prefix"})
			}
			return
		}
		if !b {
			m.onAssert(msg, append([]uint64(nil), m.model...))
			panic(engineAbort{"violation", msg})
		}
		m.stats.AssertNorm++
	case *Term:
		if m.replaying() {
			d := m.dec[m.pos]
			m.pos++
			if d.payload == 0 {
				m.constrain(b)
			}
			return
		}
		r, mod := m.query(m.tb.not(b))
		switch r {
		case unsat:
			m.stats.AssertSMT++
			m.record(decision{0, 1})
			return
		case unknown:
			m.stats.AssertUnk++
		case sat:
			m.onAssert(msg, mod)
		}
		// continue under the assumption that it holds
		if m.tb.eval(b, m.model) != 1 {
			r, mod := m.query(b)
			if r != sat {
				panic(engineAbort{"violation", msg})
			}
			m.model = mod
		}
		m.record(decision{0, 0})
		m.constrain(b)
	}
}

// posOf describes the current source position.
func (m *Machine) posOf() string {
	if !m.lastPos.IsValid() {
		return ""
	}
	p := m.p.fset.Position(m.lastPos)
	return fmt.Sprintf("%s:%d", p.Filename, p.Line)
}

func (m *Machine) runtimePanic(msg string) targetPanic {
	return targetPanic{iface{m.p.errStr, msg}}
}

// modelStr evaluates a value under a model for reports and observations.
func (m *Machine) modelStr(v value, model []uint64) string {
	switch x := v.(type) {
	case string:
		return x
	case *symStr:
		b := make([]byte, len(x.b))
		for i, e := range x.b {
			switch e := e.(type) {
			case uint64:
				b[i] = byte(e)
			case *Term:
				b[i] = byte(m.tb.eval(e, model))
			}
		}
		return string(b)
	case bool:
		return fmt.Sprint(x)
	case uint64:
		return fmt.Sprint(int64(x))
	case *Term:
		n := m.tb.eval(x, model)
		if x.w == 0 {
			return fmt.Sprint(n == 1)
		}
		return fmt.Sprint(sx(n, x.w))
	case []value:
		return m.modelStr(mkStr(x), model)
	}
	return fmt.Sprintf("<%T>", v)
}

func (m *Machine) nondetValues(model []uint64) []uint64 {
	r := make([]uint64, len(m.nondets))
	for i, n := range m.nondets {
		switch x := n.v.(type) {
		case uint64:
			r[i] = x
		case bool:
			r[i] = b2u(x)
		case *Term:
			r[i] = m.tb.eval(x, model)
		}
	}
	return r
}

func (m *Machine) obsHash(model []uint64) uint64 {
	h := fnv.New64a()
	for _, o := range m.obs {
		h.Write([]byte(o.label))
		h.Write([]byte{0})
		h.Write([]byte(m.modelStr(o.v, model)))
		h.Write([]byte{1})
	}
	return h.Sum64()
}
