package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strconv"

	"github.com/jhump/gopoet"
)

// dNode holds anything in exported and unexported interface fields.
type dNode struct {
	A interface{}
	b interface{}
	N int
}

// dTyped holds references in fields of their own types.
type dTyped struct {
	P   gopoet.Package
	S   gopoet.Symbol
	m   gopoet.MethodReference
	t   gopoet.TypeName
	Sig gopoet.Signature
	pp  *gopoet.Package
	PS  *gopoet.Symbol
	pm  *gopoet.MethodReference
	psg *gopoet.Signature
	L   []gopoet.Symbol
	ar  [2]gopoet.TypeName
	M   map[string]gopoet.Symbol
	K   map[gopoet.Symbol]string
	Str string
	u   uint8
	Nil *dTyped
	f   func()
	R   gopoet.SymbolOrMethodRef
}

// dArr holds arrays and other structs by value.
type dArr struct {
	A  [2]interface{}
	b  [2]dNode
	P  [2]gopoet.Package
	s  [1][]gopoet.Symbol
	N  dNode
	n  struct{ X, y interface{} }
	pp [1]*gopoet.Symbol
}

type dMap func(gopoet.Symbol) gopoet.Symbol

func dSame(s gopoet.Symbol) gopoet.Symbol { return s }

// dText writes a data value with the paths and names of its references as
// mapped by f. References are written alike however they are represented.
func dText(v interface{}, f dMap) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case int:
		return strconv.Itoa(v)
	case uint8:
		return "u" + strconv.Itoa(int(v))
	case string:
		return strconv.Quote(v)
	case bool:
		return strconv.FormatBool(v)
	case gopoet.Package:
		p := f(gopoet.Symbol{Name: "x", Package: v}).Package
		return "pkg{" + p.ImportPath + "|" + p.Name + "}"
	case *gopoet.Package:
		if v == nil {
			return "nil*"
		}
		return dText(*v, f)
	case gopoet.Symbol:
		return dumpSym(f(v))
	case *gopoet.Symbol:
		if v == nil {
			return "nil*"
		}
		return dText(*v, f)
	case gopoet.MethodReference:
		return dumpSym(f(v.Type)) + "." + v.Method
	case *gopoet.MethodReference:
		if v == nil {
			return "nil*"
		}
		return dText(*v, f)
	case gopoet.Signature:
		s := mapSig(&v, f)
		return dumpSig(&s)
	case *gopoet.Signature:
		if v == nil {
			return "nil*"
		}
		return dText(*v, f)
	case gopoet.TypeName:
		return dump(mapSyms(v, f))
	case *gopoet.ConstSpec:
		if v == nil {
			return "nil*"
		}
		if panics(func() { v.SymbolAt(0) }) {
			return "const " + v.Names[0] + " " + v.String()
		}
		if len(v.Names) > 1 {
			return "consts " + dumpSym(f(v.SymbolAt(0))) + dumpSym(f(v.SymbolAt(1)))
		}
		return "const " + dumpSym(f(v.ToSymbol()))
	case gopoet.ConstSpec:
		return dText(&v, f)
	case *gopoet.VarSpec:
		if v == nil {
			return "nil*"
		}
		if panics(func() { v.SymbolAt(0) }) {
			return "var " + v.Names[0] + " " + v.String()
		}
		if len(v.Names) > 1 {
			return "vars " + dumpSym(f(v.SymbolAt(0))) + dumpSym(f(v.SymbolAt(1)))
		}
		return "var " + dumpSym(f(v.ToSymbol()))
	case gopoet.VarSpec:
		return dText(&v, f)
	case *gopoet.TypeSpec:
		if v == nil {
			return "nil*"
		}
		if v.Name == "" {
			return "type " + dump(mapSyms(v.Underlying(), f))
		}
		if panics(func() { v.ToSymbol() }) {
			return "type " + v.Name + " " + v.String()
		}
		return "type " + dumpSym(f(v.ToSymbol()))
	case gopoet.TypeSpec:
		return dText(&v, f)
	case *gopoet.FuncSpec:
		if v == nil {
			return "nil*"
		}
		if v.Receiver != nil || panics(func() { v.ToSymbol() }) {
			return "func " + v.Name + " " + v.String()
		}
		return "func " + dumpSym(f(v.ToSymbol().(gopoet.Symbol)))
	case gopoet.FuncSpec:
		return dText(&v, f)
	case *gopoet.InterfaceEmbed:
		return "embed " + dumpSym(f(v.Type)) + v.Comment
	case *gopoet.InterfaceMethod:
		return "method " + v.Name + dText(v.Signature, f) + v.Comment
	case reflect.Type:
		return dump(mapSyms(gopoet.TypeNameForReflectType(v), f))
	case types.Type:
		return dump(mapSyms(gopoet.TypeNameForGoType(v), f))
	case types.Object:
		return dText(gopoet.SymbolForGoObject(v), f)
	case *types.Package:
		return dText(gopoet.PackageForGoType(v), f)
	case []interface{}:
		s := "["
		for _, e := range v {
			s += dText(e, f) + " "
		}
		return s + "]"
	case [2]interface{}:
		return "[2 " + dText(v[0], f) + " " + dText(v[1], f) + "]"
	case *[2]interface{}:
		return "&" + dText(*v, f)
	case *[]interface{}:
		return "&" + dText(*v, f)
	case *map[string]interface{}:
		return "&" + dText(*v, f)
	case [][2]interface{}:
		s := "[]["
		for _, e := range v {
			s += dText(e, f) + " "
		}
		return s + "]"
	case dArr:
		s := "arr{" + dText(v.A, f) + dText(v.b[0], f) + dText(v.b[1], f) + dText(v.P[0], f) + dText(v.P[1], f)
		for _, e := range v.s[0] {
			s += dText(e, f)
		}
		return s + dText(v.N, f) + dText(v.n.X, f) + dText(v.n.y, f) + dText(v.pp[0], f) + "}"
	case *dArr:
		return "&" + dText(*v, f)
	case map[string]interface{}:
		s := "map" + strconv.Itoa(len(v)) + "["
		for _, k := range []string{"a", "b", "c", "d"} {
			if e, ok := v[k]; ok {
				s += k + ":" + dText(e, f) + " "
			}
		}
		return s + "]"
	case *interface{}:
		return "&" + dText(*v, f)
	case dNode:
		return "node{" + dText(v.A, f) + " " + dText(v.b, f) + " " + strconv.Itoa(v.N) + "}"
	case *dNode:
		if v == nil {
			return "nil*"
		}
		return "&" + dText(*v, f)
	case **dNode:
		return "&" + dText(*v, f)
	case []dNode:
		s := "[]node["
		for _, e := range v {
			s += dText(e, f) + " "
		}
		return s + "]"
	case map[string]dNode:
		return "mapnode" + strconv.Itoa(len(v)) + dText(v["a"], f) + dText(v["b"], f)
	case map[int]*dNode:
		return "mapnode" + strconv.Itoa(len(v)) + dText(v[1], f) + dText(v[2], f)
	case [1]dNode:
		return "[1]" + dText(v[0], f)
	case dTyped:
		s := "typed{" + dText(v.P, f) + dText(v.S, f) + dText(v.m, f) + dText(v.t, f) + dText(v.Sig, f)
		s += dText(v.pp, f) + dText(v.PS, f) + dText(v.pm, f) + dText(v.psg, f)
		for _, e := range v.L {
			s += " " + dText(e, f)
		}
		for _, e := range v.ar {
			s += " " + dText(e, f)
		}
		s += strconv.Itoa(len(v.M))
		for _, k := range []string{"a", "b", "c", "d"} {
			if e, ok := v.M[k]; ok {
				s += k + ":" + dText(e, f) + " "
			}
		}
		// keys are written in the order of their values
		n := 0
		for _, w := range []string{"u", "v", "w"} {
			for k, e := range v.K {
				if e == w {
					s += dText(k, f) + ":" + e
					n++
				}
			}
		}
		if n != len(v.K) {
			s += "?"
		}
		s += strconv.Quote(v.Str) + strconv.Itoa(int(v.u)) + strconv.FormatBool(v.Nil == nil) + strconv.FormatBool(v.f == nil)
		return s + dText(v.R, f) + "}"
	case *dTyped:
		if v == nil {
			return "nil*"
		}
		return "&" + dText(*v, f)
	}
	return "?"
}

// dSyms lists the references in a value.
func dSyms(v interface{}) []gopoet.Symbol {
	var ret []gopoet.Symbol
	dText(v, func(s gopoet.Symbol) gopoet.Symbol { ret = append(ret, s); return s })
	return ret
}

// dFile is a file holding one element of every kind.
type dFile struct {
	f  *gopoet.GoFile
	c  *gopoet.ConstSpec
	v  *gopoet.VarSpec
	t  *gopoet.TypeSpec
	fn *gopoet.FuncSpec
	me *gopoet.FuncSpec
	im *gopoet.InterfaceMethod
}

func newDFile(path, name string) *dFile {
	d := &dFile{f: gopoet.NewGoFile("x.go", path, name)}
	d.c = gopoet.NewConst("C").Initialize("1")
	d.v = gopoet.NewVar("V").SetType(gopoet.IntType)
	d.im = gopoet.NewInterfaceMethod("IM")
	d.t = gopoet.NewInterfaceTypeSpec("T", d.im)
	d.fn = gopoet.NewFunc("F")
	d.me = gopoet.NewMethod(gopoet.NewPointerReceiver("r", "T"), "Me")
	d.f.AddConst(d.c).AddVar(d.v).AddType(d.t).AddElement(d.fn).AddElement(d.me)
	return d
}

// go/types objects of a package
type dGo struct {
	pkg   *types.Package
	named *types.Named
	v     *types.Var
	c     *types.Const
	fn    *types.Func
	meth  *types.Func
}

func newDGo(path, name string) *dGo {
	d := &dGo{pkg: types.NewPackage(path, name)}
	tn := types.NewTypeName(token.NoPos, d.pkg, "G", nil)
	d.named = types.NewNamed(tn, types.Typ[types.Int], nil)
	d.v = types.NewVar(token.NoPos, d.pkg, "GV", types.Typ[types.Int])
	d.c = types.NewConst(token.NoPos, d.pkg, "GC", types.Typ[types.Int], nil)
	d.fn = types.NewFunc(token.NoPos, d.pkg, "GF", types.NewSignature(nil, nil, nil, false))
	recv := types.NewVar(token.NoPos, d.pkg, "r", types.NewPointer(d.named))
	d.meth = types.NewFunc(token.NoPos, d.pkg, "GM", types.NewSignature(recv, nil, nil, false))
	return d
}

type goObject = types.Object
