package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opnd int32 // >=0: register, <0: constant -(x+1)

const noOp opnd = -1 << 30

type iop uint8

const (
	iNop iop = iota
	iAlloc
	iBin
	iUn
	iLoad
	iCall
	iChangeIface
	iChangeType
	iConvert
	iExtract
	iField
	iFieldAddr
	iIndex
	iIndexAddr
	iLookup
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iDefer
	iSlice
	iSliceToArr
	iStore
	iMapUpdate
	iTypeAssert
	iIf
	iJump
	iGlobal
	iMakeChan
	iUnsup
)

type move struct{ dst, src opnd }

type edge struct {
	pc    int
	moves []move
}

type instr struct {
	op      iop
	tok     token.Token
	commaOk bool
	sign    bool
	w       uint8
	w2      uint8
	sign2   bool
	dst     int32
	a, b, c opnd
	n       int
	args    []opnd
	t, t2   types.Type
	x       any
	call    *callInfo
	e0, e1  edge
	pos     token.Pos
	blockAt bool // start of a basic block, for cancellation checks
}

type callInfo struct {
	static  *ssa.Function
	scode   *cfn
	builtin string
	dyn     opnd
	method  *types.Func
	argT    []types.Type
	retT    types.Type
	cacheT  types.Type // last receiver type
	cacheC  *cfn
}

type cfn struct {
	fn      *ssa.Function
	name    string
	nreg    int
	np      int // parameters
	nfv     int
	consts  []value
	code    []instr
	rec     int // pc of the recover block or -1
	hasDef  bool
	intr    func(m *Machine, args []value) value
	noBody  bool
	target  bool
	isInit  bool
	hits    int64
	variant int
}

type compiler struct {
	m     *Machine
	f     *cfn
	regs  map[ssa.Value]opnd
	kidx  map[ssa.Value]opnd
	pcs   map[*ssa.BasicBlock]int
	fixup []func()
}

func (m *Machine) getCode(fn *ssa.Function) *cfn {
	if c, ok := m.code[fn]; ok {
		return c
	}
	if sub := osModel(m, fn); sub != nil {
		c := m.getCode(sub)
		m.code[fn] = c
		return c
	}
	c := &cfn{fn: fn, name: fn.String(), rec: -1}
	m.code[fn] = c
	if fn.Pkg != nil {
		c.target = m.p.target[fn.Pkg]
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		c.target = m.p.target[o.Pkg]
	}
	c.isInit = fn.Pkg != nil && fn.Synthetic == "package initializer"
	if in := findIntrinsic(m, fn); in != nil {
		c.intr = in
		return c
	}
	if len(fn.Blocks) == 0 {
		c.noBody = true
		return c
	}
	m.cfns = append(m.cfns, c)
	cc := &compiler{m: m, f: c, regs: map[ssa.Value]opnd{}, kidx: map[ssa.Value]opnd{}, pcs: map[*ssa.BasicBlock]int{}}
	cc.compile()
	return c
}

func (c *compiler) newReg() opnd {
	c.f.nreg++
	return opnd(c.f.nreg - 1)
}

func (c *compiler) konst(v value) opnd {
	c.f.consts = append(c.f.consts, v)
	return opnd(-len(c.f.consts))
}

func (c *compiler) emit(i instr) *instr {
	c.f.code = append(c.f.code, i)
	return &c.f.code[len(c.f.code)-1]
}

func (c *compiler) opnd(v ssa.Value) opnd {
	if v == nil {
		return noOp
	}
	if r, ok := c.regs[v]; ok {
		return r
	}
	if r, ok := c.kidx[v]; ok {
		return r
	}
	switch x := v.(type) {
	case *ssa.Const:
		k := c.konst(c.m.constVal(x))
		c.kidx[v] = k
		return k
	case *ssa.Function:
		k := c.konst(x)
		c.kidx[v] = k
		return k
	case *ssa.Builtin:
		k := c.konst(x)
		c.kidx[v] = k
		return k
	case *ssa.Global:
		r := c.newReg()
		c.emit(instr{op: iGlobal, dst: int32(r), x: x, pos: x.Pos()})
		return r
	}
	// a value defined later in block order (loops): allocate its register now
	r := c.newReg()
	c.regs[v] = r
	return r
}

func (m *Machine) constVal(k *ssa.Const) value {
	if k.Value == nil {
		return m.zero(k.Type())
	}
	if b, ok := k.Type().Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(k.Value)
		case b.Info()&types.IsString != 0:
			if k.Value.Kind() == constant.String {
				return constant.StringVal(k.Value)
			}
			return string(rune(k.Int64()))
		case b.Info()&types.IsInteger != 0:
			w, _ := m.intInfo(b)
			v := constant.ToInt(k.Value)
			if i, ok := constant.Int64Val(v); ok {
				return uint64(i) & mask(w)
			}
			u, _ := constant.Uint64Val(v)
			return u & mask(w)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(k.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			return k.Complex128()
		}
	}
	panic(unsupported("constant " + k.String()))
}

func (m *Machine) intInfo(t types.Type) (w uint8, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func (c *compiler) compile() {
	fn := c.f.fn
	c.f.np = len(fn.Params)
	c.f.nfv = len(fn.FreeVars)
	for _, p := range fn.Params {
		c.regs[p] = c.newReg()
	}
	for _, p := range fn.FreeVars {
		c.regs[p] = c.newReg()
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, ok := c.regs[v]; !ok {
					c.regs[v] = c.newReg()
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		c.pcs[b] = len(c.f.code)
		if b == fn.Recover {
			c.f.rec = len(c.f.code)
		}
		n0 := len(c.f.code)
		for _, in := range b.Instrs {
			c.instr(b, in)
		}
		if len(c.f.code) > n0 {
			c.f.code[n0].blockAt = true
		}
	}
	for _, f := range c.fixup {
		f()
	}
}

func (c *compiler) edge(from, to *ssa.BasicBlock) edge {
	var e edge
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, move{c.regs[phi], c.opnd(phi.Edges[pi])})
	}
	return e
}

func (c *compiler) edge2(from, to *ssa.BasicBlock, which int) edge {
	// an If whose two successors are the same block has two predecessor entries
	var e edge
	seen := 0
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			if seen == which || pi < 0 {
				pi = i
			}
			seen++
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, move{c.regs[phi], c.opnd(phi.Edges[pi])})
	}
	return e
}

func (c *compiler) call(cc *ssa.CallCommon, i *instr) {
	ci := &callInfo{dyn: noOp}
	i.call = ci
	if cc.IsInvoke() {
		ci.method = cc.Method
		ci.dyn = c.opnd(cc.Value)
		for _, a := range cc.Args {
			i.args = append(i.args, c.opnd(a))
		}
		return
	}
	for _, a := range cc.Args {
		i.args = append(i.args, c.opnd(a))
		ci.argT = append(ci.argT, a.Type())
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		ci.builtin = f.Name()
		if s, ok := cc.Value.Type().(*types.Signature); ok && s.Results().Len() == 1 {
			ci.retT = s.Results().At(0).Type()
		}
	case *ssa.Function:
		ci.static = f
	default:
		ci.dyn = c.opnd(cc.Value)
	}
}

func (c *compiler) instr(b *ssa.BasicBlock, in ssa.Instruction) {
	m := c.m
	var dst int32 = -1
	if v, ok := in.(ssa.Value); ok {
		dst = int32(c.regs[v])
	}
	i := instr{dst: dst, a: noOp, b: noOp, c: noOp, pos: in.Pos()}
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
		return
	case *ssa.Alloc:
		i.op = iAlloc
		i.t = x.Type().Underlying().(*types.Pointer).Elem()
		z := m.zero(i.t)
		i.x = z
		switch z.(type) {
		case structure, array:
			i.n = 1
		}
	case *ssa.BinOp:
		i.op = iBin
		i.tok = x.Op
		i.a, i.b = c.opnd(x.X), c.opnd(x.Y)
		i.t, i.t2 = x.X.Type(), x.Y.Type()
		i.w, i.sign = m.intInfo(x.X.Type())
		i.w2, i.sign2 = m.intInfo(x.Y.Type())
	case *ssa.UnOp:
		i.a = c.opnd(x.X)
		i.tok = x.Op
		i.t = x.X.Type()
		i.commaOk = x.CommaOk
		i.w, i.sign = m.intInfo(x.X.Type())
		i.op = iUn
		if x.Op == token.MUL {
			i.op = iLoad
			i.t = x.Type()
			if b, ok := i.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				i.n = 1
			}
			i.x = m.zeroKind(i.t)
		}
	case *ssa.Call:
		i.op = iCall
		c.call(&x.Call, &i)
		i.t = x.Type()
	case *ssa.Go:
		i.op = iUnsup
		i.x = "go statement"
	case *ssa.Select:
		i.op = iUnsup
		i.x = "select statement"
	case *ssa.Send:
		i.op = iUnsup
		i.x = "channel send"
	case *ssa.MakeChan:
		i.op = iMakeChan
		i.a = c.opnd(x.Size)
	case *ssa.Defer:
		i.op = iDefer
		c.call(&x.Call, &i)
		i.t = x.Call.Signature()
		c.f.hasDef = true
		if x.DeferStack != nil {
			i.a = c.opnd(x.DeferStack)
		}
	case *ssa.ChangeInterface:
		i.op = iChangeIface
		i.a = c.opnd(x.X)
	case *ssa.ChangeType:
		i.op = iChangeType
		i.a = c.opnd(x.X)
	case *ssa.Convert:
		i.op = iConvert
		i.a = c.opnd(x.X)
		i.t, i.t2 = x.X.Type(), x.Type()
	case *ssa.MultiConvert:
		i.op = iConvert
		i.a = c.opnd(x.X)
		i.t, i.t2 = x.X.Type(), x.Type()
	case *ssa.Extract:
		i.op = iExtract
		i.a = c.opnd(x.Tuple)
		i.n = x.Index
	case *ssa.Field:
		i.op = iField
		i.a = c.opnd(x.X)
		i.n = x.Field
	case *ssa.FieldAddr:
		i.op = iFieldAddr
		i.a = c.opnd(x.X)
		i.n = x.Field
	case *ssa.Index:
		i.op = iIndex
		i.a, i.b = c.opnd(x.X), c.opnd(x.Index)
		i.t = x.X.Type()
		i.w, i.sign = m.intInfo(x.Index.Type())
	case *ssa.IndexAddr:
		i.op = iIndexAddr
		i.a, i.b = c.opnd(x.X), c.opnd(x.Index)
		i.t = x.X.Type()
		i.w, i.sign = m.intInfo(x.Index.Type())
	case *ssa.Lookup:
		i.op = iLookup
		i.a, i.b = c.opnd(x.X), c.opnd(x.Index)
		i.t = x.X.Type()
		i.commaOk = x.CommaOk
		i.w, i.sign = m.intInfo(x.Index.Type())
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			i.t2 = mt.Elem()
		}
	case *ssa.MakeClosure:
		i.op = iMakeClosure
		i.x = x.Fn.(*ssa.Function)
		for _, v := range x.Bindings {
			i.args = append(i.args, c.opnd(v))
		}
	case *ssa.MakeInterface:
		i.op = iMakeIface
		i.a = c.opnd(x.X)
		i.t = m.canon(x.X.Type())
	case *ssa.MakeMap:
		i.op = iMakeMap
		mt := x.Type().Underlying().(*types.Map)
		i.t, i.t2 = mt.Key(), mt.Elem()
	case *ssa.MakeSlice:
		i.op = iMakeSlice
		i.a, i.b = c.opnd(x.Len), c.opnd(x.Cap)
		i.t = x.Type().Underlying().(*types.Slice).Elem()
		i.x = m.zero(i.t)
	case *ssa.Next:
		i.op = iNext
		i.a = c.opnd(x.Iter)
		i.commaOk = x.IsString
	case *ssa.Panic:
		i.op = iPanic
		i.a = c.opnd(x.X)
	case *ssa.Range:
		i.op = iRange
		i.a = c.opnd(x.X)
		i.t = x.X.Type()
	case *ssa.Return:
		i.op = iReturn
		for _, r := range x.Results {
			i.args = append(i.args, c.opnd(r))
		}
	case *ssa.RunDefers:
		i.op = iRunDefers
	case *ssa.Slice:
		i.op = iSlice
		i.a = c.opnd(x.X)
		i.args = []opnd{c.opnd(x.Low), c.opnd(x.High), c.opnd(x.Max)}
		i.t = x.X.Type()
	case *ssa.SliceToArrayPointer:
		i.op = iSliceToArr
		i.a = c.opnd(x.X)
		i.t = x.Type()
	case *ssa.Store:
		i.op = iStore
		i.a, i.b = c.opnd(x.Addr), c.opnd(x.Val)
	case *ssa.MapUpdate:
		i.op = iMapUpdate
		i.a, i.b, i.c = c.opnd(x.Map), c.opnd(x.Key), c.opnd(x.Value)
	case *ssa.TypeAssert:
		i.op = iTypeAssert
		i.a = c.opnd(x.X)
		i.t = m.canon(x.AssertedType)
		i.t2 = x.X.Type()
		i.commaOk = x.CommaOk
		if !types.IsInterface(x.AssertedType) {
			i.x = m.zero(x.AssertedType)
			i.n = 1
		} else {
			i.x = iface{}
		}
	case *ssa.If:
		i.op = iIf
		i.a = c.opnd(x.Cond)
		w1 := 0
		if b.Succs[0] == b.Succs[1] {
			w1 = 1
		}
		i.e0, i.e1 = c.edge2(b, b.Succs[0], 0), c.edge2(b, b.Succs[1], w1)
		at := len(c.f.code)
		// operands of phi edges may have emitted loads of globals, so at is taken after
		s0, s1 := b.Succs[0], b.Succs[1]
		c.fixup = append(c.fixup, func() {
			c.f.code[at].e0.pc = c.pcs[s0]
			c.f.code[at].e1.pc = c.pcs[s1]
		})
	case *ssa.Jump:
		i.op = iJump
		i.e0 = c.edge(b, b.Succs[0])
		at := len(c.f.code)
		s0 := b.Succs[0]
		c.fixup = append(c.fixup, func() { c.f.code[at].e0.pc = c.pcs[s0] })
	default:
		i.op = iUnsup
		i.x = fmt.Sprintf("%T", in)
	}
	c.emit(i)
}

// zeroKind is used to notice loads through re-typed unsafe pointers.
func (m *Machine) zeroKind(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return "string"
		}
		if u.Info()&types.IsInteger != 0 {
			return "int"
		}
	case *types.Slice:
		return "slice"
	}
	return ""
}

func stripTypeArgs(s string) string {
	// "(*sync/atomic.Pointer[go/types.Foo]).Load" -> "(*sync/atomic.Pointer).Load"
	if !strings.Contains(s, "[") {
		return s
	}
	var sb strings.Builder
	d := 0
	for _, r := range s {
		if r == '[' {
			d++
			continue
		}
		if r == ']' {
			d--
			continue
		}
		if d == 0 {
			sb.WriteRune(r)
		}
	}
	return sb.String()
}
