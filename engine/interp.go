package main

import (
	"fmt"
	"go/token"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	i    *instr
	args []value
	fn   value
	c    *cfn
}

type frame struct {
	caller    *frame
	c         *cfn
	regs      []value
	defers    []deferred
	panicking bool
	panicVal  targetPanic
	result    value
	done      bool
}

const maxDepth = 4000

func (m *Machine) callFn(caller *frame, fn *ssa.Function, args, env []value) value {
	return m.callCode(caller, m.getCode(fn), args, env)
}

// callValue calls a function value.
func (m *Machine) callValue(caller *frame, f value, args []value) value {
	switch x := f.(type) {
	case *ssa.Function:
		if x == nil {
			panic(m.nilDeref())
		}
		return m.callFn(caller, x, args, nil)
	case *closure:
		return m.callFn(caller, x.fn, args, x.env)
	case *native:
		return x.f(m, args)
	case *ssa.Builtin:
		return m.callBuiltin(caller, x.Name(), nil, args, nil)
	case nil:
		panic(m.nilDeref())
	}
	panic(unsupported(fmt.Sprintf("call of %T", f)))
}

func (m *Machine) nilDeref() targetPanic {
	return targetPanic{iface{m.p.errStr, "invalid memory address or nil pointer dereference"}}
}

func (m *Machine) callCode(caller *frame, c *cfn, args, env []value) value {
	if c.intr != nil {
		m.curCaller = caller
		return c.intr(m, args)
	}
	if c.noBody {
		panic(unsupported("no body: " + c.name))
	}
	if c.isInit && !m.initAllowed {
		return nil
	}
	m.initAllowed = false
	c.hits++
	m.depth++
	if m.depth > maxDepth {
		m.depth = 0
		panic(engineAbort{"depth", c.name})
	}
	fr := &frame{caller: caller, c: c, regs: make([]value, c.nreg)}
	copy(fr.regs, args)
	copy(fr.regs[c.np:], env)
	if c.hasDef {
		m.runWithDefers(fr)
	} else {
		m.run(fr, 0)
	}
	m.depth--
	return fr.result
}

func (m *Machine) runWithDefers(fr *frame) {
	depth := m.depth
	func() {
		defer func() {
			if fr.done {
				return
			}
			r := recover()
			tp, ok := r.(targetPanic)
			if !ok {
				if r != nil {
					panic(r)
				}
				return
			}
			m.depth = depth
			fr.panicking = true
			fr.panicVal = tp
			m.runDefers(fr)
			// recovered
			if fr.c.rec >= 0 {
				m.run(fr, fr.c.rec)
			} else {
				// no named results: return zero values
				res := fr.c.fn.Signature.Results()
				switch res.Len() {
				case 0:
					fr.result = nil
				case 1:
					fr.result = m.zero(res.At(0).Type())
				default:
					fr.result = m.zero(res)
				}
			}
			fr.done = true
		}()
		m.run(fr, 0)
		fr.done = true
	}()
	m.depth = depth
}

// runDefers runs the deferred calls of fr; it re-panics when fr is panicking at the end.
func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (m *Machine) runDefer(fr *frame, d deferred) {
	depth := m.depth
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		tp, is := r.(targetPanic)
		if !is {
			panic(r)
		}
		m.depth = depth
		// a new panic replaces the old one
		fr.panicking = true
		fr.panicVal = tp
	}()
	if d.i.call.builtin != "" {
		m.callBuiltin(fr, d.i.call.builtin, d.i.call, d.args, fr)
	} else if d.c != nil {
		var env []value
		if cl, is := d.fn.(*closure); is {
			env = cl.env
		}
		m.callCode(fr, d.c, d.args, env)
	} else {
		m.callValue(fr, d.fn, d.args)
	}
	ok = true
}

func (m *Machine) doRecover(caller *frame) value {
	// caller is the frame of the deferred function
	if caller != nil && caller.caller != nil && !caller.panicking && caller.caller.panicking {
		p := caller.caller
		p.panicking = false
		return p.panicVal.v
	}
	return iface{}
}

func (fr *frame) get(o opnd) value {
	if o >= 0 {
		return fr.regs[o]
	}
	return fr.c.consts[-o-1]
}

func (fr *frame) move(e *edge) int {
	switch len(e.moves) {
	case 0:
	case 1:
		fr.regs[e.moves[0].dst] = fr.get(e.moves[0].src)
	default:
		var buf [8]value
		tmp := buf[:0]
		for _, mv := range e.moves {
			tmp = append(tmp, fr.get(mv.src))
		}
		for i, mv := range e.moves {
			fr.regs[mv.dst] = tmp[i]
		}
	}
	return e.pc
}

func (m *Machine) checkBudget() {
	if m.maxSteps > 0 && m.steps > m.maxSteps {
		panic(engineAbort{"steps", ""})
	}
	if !m.deadline.IsZero() && time.Now().After(m.deadline) {
		panic(engineAbort{"timeout", ""})
	}
}

func (m *Machine) run(fr *frame, pc int) {
	c := fr.c
	code := c.code
	regs := fr.regs
	for {
		i := &code[pc]
		pc++
		if i.blockAt {
			m.steps += 4
			if m.steps&0xffff < 4 {
				m.checkBudget()
			}
		}
		switch i.op {
		case iNop:
		case iGlobal:
			regs[i.dst] = m.global(i.x.(*ssa.Global))
		case iAlloc:
			p := new(value)
			if i.n == 1 {
				*p = copyVal(i.x)
			} else {
				*p = i.x
			}
			regs[i.dst] = p
		case iBin:
			x, y := fr.get(i.a), fr.get(i.b)
			if a, ok := x.(uint64); ok && i.w > 0 {
				if b, ok := y.(uint64); ok {
					if r, ok := m.fastBin(i, a, b); ok {
						regs[i.dst] = r
						continue
					}
				}
			}
			m.lastPos = i.pos
			regs[i.dst] = m.binop(i, x, y)
		case iUn:
			regs[i.dst] = m.unop(i, fr.get(i.a))
		case iLoad:
			switch p := fr.get(i.a).(type) {
			case *value:
				if p == nil {
					m.lastPos = i.pos
					panic(m.nilDeref())
				}
				switch x := (*p).(type) {
				case structure:
					regs[i.dst] = copyVal(x)
				case array:
					regs[i.dst] = copyVal(x)
				case []value:
					if i.n == 1 {
						regs[i.dst] = mkStr(x) // string read through a []byte header
					} else {
						regs[i.dst] = x
					}
				default:
					regs[i.dst] = x
				}
			default:
				m.lastPos = i.pos
				regs[i.dst] = m.loadAny(p)
			}
		case iStore:
			switch p := fr.get(i.a).(type) {
			case *value:
				if p == nil {
					m.lastPos = i.pos
					panic(m.nilDeref())
				}
				m.store(p, fr.get(i.b))
			default:
				m.lastPos = i.pos
				m.storeAny(p, fr.get(i.b))
			}
		case iCall:
			if c.isInit {
				m.initCall(fr, i)
				continue
			}
			regs[i.dst] = m.doCall(fr, i)
		case iChangeIface, iChangeType:
			regs[i.dst] = fr.get(i.a)
		case iConvert:
			m.lastPos = i.pos
			regs[i.dst] = m.convert(i.t, i.t2, fr.get(i.a))
		case iExtract:
			t, ok := fr.get(i.a).(tuple)
			if !ok {
				panic(unsupported(fmt.Sprintf("extract from %T in %s", fr.get(i.a), c.name)))
			}
			regs[i.dst] = t[i.n]
		case iField:
			regs[i.dst] = fr.get(i.a).(structure)[i.n]
		case iFieldAddr:
			p, ok := fr.get(i.a).(*value)
			if !ok {
				panic(unsupported(fmt.Sprintf("field address of %T in %s", fr.get(i.a), c.name)))
			}
			if p == nil {
				m.lastPos = i.pos
				panic(m.nilDeref())
			}
			s, ok := (*p).(structure)
			if !ok {
				panic(unsupported(fmt.Sprintf("field of %T in %s", *p, c.name)))
			}
			regs[i.dst] = &s[i.n]
		case iIndex:
			m.lastPos = i.pos
			regs[i.dst] = m.index(fr.get(i.a), fr.get(i.b), i)
		case iIndexAddr:
			m.lastPos = i.pos
			regs[i.dst] = m.indexAddr(fr.get(i.a), fr.get(i.b), i)
		case iLookup:
			m.lastPos = i.pos
			x := fr.get(i.a)
			switch x := x.(type) {
			case *mapv:
				k := m.mapFind(x, fr.get(i.b))
				var v value
				if k >= 0 {
					v = copyVal(x.entries[k].v)
				} else {
					v = m.zero(i.t2)
				}
				if i.commaOk {
					regs[i.dst] = tuple{v, k >= 0}
				} else {
					regs[i.dst] = v
				}
			default:
				regs[i.dst] = m.index(x, fr.get(i.b), i)
			}
		case iMakeClosure:
			env := make([]value, len(i.args))
			for k, a := range i.args {
				env[k] = fr.get(a)
			}
			regs[i.dst] = &closure{i.x.(*ssa.Function), env}
		case iMakeIface:
			v := fr.get(i.a)
			regs[i.dst] = iface{i.t, v}
		case iMakeMap:
			regs[i.dst] = m.newMap(i.t, i.t2)
		case iMakeChan:
			n := m.concretize(fr.get(i.a), "chan size")
			regs[i.dst] = &chanv{cap: int(n)}
		case iMakeSlice:
			m.lastPos = i.pos
			n := int64(m.concretize(fr.get(i.a), "slice length"))
			k := int64(m.concretize(fr.get(i.b), "slice capacity"))
			if n < 0 || n > 1<<26 {
				panic(m.runtimePanic("makeslice: len out of range"))
			}
			if k < n || k > 1<<26 {
				panic(m.runtimePanic("makeslice: cap out of range"))
			}
			s := make([]value, k)
			switch i.x.(type) {
			case structure, array:
				for j := range s {
					s[j] = copyVal(i.x)
				}
			default:
				for j := range s {
					s[j] = i.x
				}
			}
			regs[i.dst] = s[:n]
		case iRange:
			regs[i.dst] = m.makeRange(fr, fr.get(i.a))
		case iNext:
			regs[i.dst] = m.next(fr, fr.get(i.a))
		case iPanic:
			m.lastPos = i.pos
			v := fr.get(i.a).(iface)
			if v.t == nil {
				v = iface{m.p.errStr, "panic called with nil argument"}
			}
			panic(targetPanic{v})
		case iReturn:
			switch len(i.args) {
			case 0:
			case 1:
				fr.result = fr.get(i.args[0])
			default:
				t := make(tuple, len(i.args))
				for k, a := range i.args {
					t[k] = fr.get(a)
				}
				fr.result = t
			}
			return
		case iRunDefers:
			m.runDefers(fr)
		case iDefer:
			m.pushDefer(fr, i)
		case iSlice:
			m.lastPos = i.pos
			regs[i.dst] = m.sliceOp(fr, i)
		case iSliceToArr:
			s := fr.get(i.a).([]value)
			at := i.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if int64(len(s)) < at.Len() {
				panic(m.runtimePanic("cannot convert slice to array pointer"))
			}
			if s == nil {
				regs[i.dst] = (*value)(nil)
			} else {
				p := new(value)
				*p = array(s[:at.Len()])
				regs[i.dst] = p
			}
		case iMapUpdate:
			mv, _ := fr.get(i.a).(*mapv)
			m.lastPos = i.pos
			m.mapSet(mv, fr.get(i.b), fr.get(i.c))
		case iTypeAssert:
			m.lastPos = i.pos
			regs[i.dst] = m.typeAssert(fr.get(i.a), i)
		case iIf:
			cond := fr.get(i.a)
			b, ok := cond.(bool)
			if !ok {
				m.lastPos = i.pos
				m.curFn = c
				b = m.branch(cond.(*Term))
			}
			if b {
				pc = fr.move(&i.e0)
			} else {
				pc = fr.move(&i.e1)
			}
		case iJump:
			pc = fr.move(&i.e0)
		default:
			panic(unsupported(fmt.Sprint(i.x)))
		}
	}
}

// initCall tolerates unsupported initialisers.
func (m *Machine) initCall(fr *frame, i *instr) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if a, ok := r.(engineAbort); ok && (a.kind == "unsupported" || a.kind == "steps") {
			m.initErrs[fr.c.name+": "+a.msg] = true
			if i.dst >= 0 && i.t != nil {
				if t, ok := i.t.(*types.Tuple); !ok || t.Len() > 0 {
					fr.regs[i.dst] = m.zero(i.t)
				}
			}
			return
		}
		panic(r)
	}()
	d := m.depth
	if f := i.call.static; f != nil && f.Synthetic == "package initializer" {
		return
	}
	fr.regs[i.dst] = m.doCall(fr, i)
	m.depth = d
}

func (m *Machine) doCall(fr *frame, i *instr) value {
	ci := i.call
	m.lastPos = i.pos
	var buf [6]value
	args := buf[:0]
	if ci.method != nil {
		recv, ok := fr.get(ci.dyn).(iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", fr.get(ci.dyn))))
		}
		if recv.t == nil {
			panic(m.nilDeref())
		}
		if ci.cacheT != recv.t {
			fn := m.findMethod(recv.t, ci.method)
			if fn == nil {
				panic(unsupported(fmt.Sprintf("no method %s on %s", ci.method.Name(), recv.t)))
			}
			ci.cacheT, ci.cacheC = recv.t, m.getCode(fn)
		}
		args = append(args, recv.v)
		for _, a := range i.args {
			args = append(args, fr.get(a))
		}
		return m.callCode(fr, ci.cacheC, args, nil)
	}
	for _, a := range i.args {
		args = append(args, fr.get(a))
	}
	if ci.static != nil {
		if ci.scode == nil {
			ci.scode = m.getCode(ci.static)
		}
		return m.callCode(fr, ci.scode, args, nil)
	}
	if ci.builtin != "" {
		return m.callBuiltin(fr, ci.builtin, ci, args, fr)
	}
	return m.callValue(fr, fr.get(ci.dyn), args)
}

func (m *Machine) findMethod(t types.Type, meth *types.Func) *ssa.Function {
	return m.methodByName(t, meth.Pkg(), meth.Name())
}

func (m *Machine) methodByName(t types.Type, pkg *types.Package, name string) *ssa.Function {
	if token.IsExported(name) {
		pkg = nil
	}
	k := methKey{m.canon(t), name, pkg}
	if f, ok := m.methCache[k]; ok {
		return f
	}
	m.p.mu.Lock()
	var f *ssa.Function
	func() {
		sel := m.p.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
		if sel != nil {
			f = m.p.prog.MethodValue(sel)
		}
	}()
	m.p.mu.Unlock()
	m.methCache[k] = f
	return f
}

func (m *Machine) pushDefer(fr *frame, i *instr) {
	ci := i.call
	d := deferred{i: i}
	if ci.method != nil {
		recv := fr.get(ci.dyn).(iface)
		if recv.t == nil {
			panic(m.nilDeref())
		}
		fn := m.findMethod(recv.t, ci.method)
		if fn == nil {
			panic(unsupported("defer method"))
		}
		d.c = m.getCode(fn)
		d.args = append(d.args, recv.v)
	} else if ci.static != nil {
		d.c = m.getCode(ci.static)
	} else if ci.builtin == "" {
		d.fn = fr.get(ci.dyn)
		if isNilFunc(d.fn) {
			// the panic happens when the deferred call runs
			d.fn = nil
		}
	}
	for _, a := range i.args {
		d.args = append(d.args, fr.get(a))
	}
	if i.a != noOp {
		if o, ok := fr.get(i.a).(*frame); ok && o != nil {
			o.defers = append(o.defers, d)
			return
		}
	}
	fr.defers = append(fr.defers, d)
}

// ---- globals and package initialisation

var skipInit = map[string]bool{"runtime": true, "syscall": true, "internal/cpu": true, "internal/syscall/unix": true, "internal/poll": true,
	"os": false, "internal/godebugs": false, "time": false, "internal/testlog": true, "internal/bytealg": true, "internal/runtime/maps": true, "reflect": true,
	"internal/reflectlite": true, "internal/godebug": true, "sync": true, "internal/sync": true, "crypto/internal/fips140deps/godebug": true}

func (m *Machine) global(g *ssa.Global) *value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	m.ensureInit(g.Pkg)
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := new(value)
	*p = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[g] = p
	return p
}

func (m *Machine) ensureInit(pkg *ssa.Package) {
	if pkg == nil || m.pkgState[pkg] != 0 {
		return
	}
	m.pkgState[pkg] = 1
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, ok := m.globals[g]; !ok {
				p := new(value)
				*p = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
				m.globals[g] = p
			}
		}
	}
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	oldIn, oldDepth, oldSteps, oldMax := m.inInit, m.depth, m.steps, m.maxSteps
	m.inInit = true
	m.maxSteps = oldSteps + 200_000_000
	m.initAllowed = true
	m.depth = 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch a := r.(type) {
				case engineAbort:
					if a.kind == "timeout" {
						panic(r)
					}
					m.initErrs[pkg.Pkg.Path()+": "+a.kind+" "+a.msg] = true
				case targetPanic:
					m.initErrs[pkg.Pkg.Path()+": panic "+m.modelStr(a.v.v, m.model)] = true
				default:
					panic(r)
				}
			}
		}()
		m.callFn(nil, f, nil, nil)
	}()
	m.initAllowed = false
	m.inInit, m.depth, m.steps, m.maxSteps = oldIn, oldDepth, oldSteps, oldMax
	m.pkgState[pkg] = 2
}
