package main

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/token"
	"reflect"
	"strconv"
	"strings"

	"github.com/jhump/gopoet"
)

// fgen builds a file and, next to it, a description of what it is to declare.
type fgen struct {
	fspecs []*gopoet.FieldSpec
	elems  []gopoet.InterfaceElement
	f      *gopoet.GoFile
	own    string
	path   func() string // where the next reference points
	pname  func(path string) string
	names  map[string]string // declared package names by path
	blank  map[string]bool   // packages referenced by a Package without a name
	refs   []gopoet.Symbol
	want   []wDecl
	n      int
	tg     *tgen
	depth  int
	at     int              // the type that is of any kind (0: all)
	types  int              // types made
	spec   *gopoet.TypeSpec // a type declared in this file
}

type wDecl struct {
	kind  byte // c v t f
	group bool
	specs []wSpec
	fn    *wFunc
}

type wSpec struct {
	names []string
	typ   interface{} // a gopoet.TypeName, wStruct, wIface or nil
	alias bool
	init  func(q dMap) string
}

type wField struct {
	name string
	typ  interface{}
	tag  string
}

type wElem struct {
	embed  gopoet.Symbol
	method string
	sig    gopoet.Signature
}

type wStruct []wField
type wIface []wElem

type wFunc struct {
	name, recv, recvType string
	hasRecv, ptr         bool
	sig                  gopoet.Signature
	body                 func(q dMap) string
}

func newFgen(own string) *fgen {
	g := &fgen{own: own, path: cPath, names: map[string]string{}, blank: map[string]bool{}}
	g.f = gopoet.NewGoFile("x.go", own, "own")
	g.tg = &tgen{sym: g.sym, kinds: "npsamcfti"}
	g.depth = 1
	return g
}

// cPath is any of a few paths.
func cPath() string {
	p := dPath()
	for _, c := range []string{"a", "b"} {
		if vPick(p == c) {
			return c
		}
	}
	return "o"
}

func (g *fgen) id(p string) string {
	g.n++
	return p + strconv.Itoa(g.n)
}

func (g *fgen) pkg() gopoet.Package {
	p := gopoet.Package{ImportPath: g.path(), Name: "p"}
	if g.pname != nil {
		p.Name = g.pname(p.ImportPath)
	}
	g.note(p)
	return p
}

func (g *fgen) note(p gopoet.Package) {
	if _, ok := g.names[p.ImportPath]; !ok {
		g.names[p.ImportPath] = p.Name
	}
}

func (g *fgen) ref(s gopoet.Symbol) gopoet.Symbol {
	g.refs = append(g.refs, s)
	return s
}

func (g *fgen) sym() gopoet.Symbol {
	return g.ref(gopoet.Symbol{Name: g.id("S"), Package: g.pkg()})
}

func (g *fgen) typ() gopoet.TypeName {
	g.types++
	if g.at != 0 && g.at != g.types {
		return g.leaf()
	}
	return g.tg.typ(g.depth)
}

func (g *fgen) leaf() gopoet.TypeName {
	return gopoet.NamedType(g.sym())
}

// other is a type declared in another file.
func (g *fgen) other() *gopoet.TypeSpec {
	p := g.pkg()
	ts := gopoet.NewTypeSpec(g.id("O"), gopoet.IntType)
	gopoet.NewGoFile("other.go", p.ImportPath, p.Name).AddType(ts)
	g.ref(ts.ToSymbol())
	return ts
}

func (g *fgen) add(kind byte, group bool, specs ...wSpec) {
	g.want = append(g.want, wDecl{kind: kind, group: group, specs: specs})
}

func str(s string) func(dMap) string { return func(dMap) string { return s } }

func call(s gopoet.Symbol, arg string) func(dMap) string {
	return func(q dMap) string { return q(s).String() + "(" + arg + ")" }
}

// structSpec is an unnamed or named struct with the fields an own type can
// have.
func (g *fgen) structSpec(name string, d int) (*gopoet.TypeSpec, wStruct) {
	var fs []*gopoet.FieldSpec
	var w wStruct
	add := func(name, tag string, t gopoet.TypeNameOrSpec, wt interface{}) {
		f := gopoet.NewField(name, t)
		if tag != "" {
			f.SetTag(tag)
		}
		fs = append(fs, f)
		w = append(w, wField{name, wt, tag})
	}
	t := g.typ()
	add(g.id("F"), "", t, t)
	e := g.leaf()
	add("", "json:\"x\"", e, e)
	p := gopoet.PointerType(g.leaf())
	add("", "", p, p)
	o := g.other()
	add(g.id("F"), "a`b", o, o.ToTypeName())
	if d > 0 {
		s, ws := g.structSpec("", d-1)
		add(g.id("F"), "t", s, ws)
		i, wi := g.ifaceSpec("")
		add(g.id("F"), "", i, wi)
	}
	g.fspecs = append(g.fspecs, fs...)
	return gopoet.NewStructTypeSpec(name, fs...), w
}

func (g *fgen) ifaceSpec(name string) (*gopoet.TypeSpec, wIface) {
	var es []gopoet.InterfaceElement
	var w wIface
	m := gopoet.NewInterfaceMethod(g.id("M"))
	m.AddArg("a", g.typ()).AddArg("", gopoet.SliceType(g.leaf())).SetVariadic(true).AddResult("", g.leaf())
	es, w = append(es, m), append(w, wElem{method: m.Name, sig: m.Signature})
	s := g.sym()
	es, w = append(es, gopoet.NewInterfaceEmbed(s)), append(w, wElem{embed: s})
	m = gopoet.NewInterfaceMethod(g.id("M"))
	es, w = append(es, m), append(w, wElem{method: m.Name})
	s = g.sym()
	es, w = append(es, gopoet.NewInterfaceEmbed(s)), append(w, wElem{embed: s})
	g.elems = append(g.elems, es...)
	return gopoet.NewInterfaceTypeSpec(name, es...), w
}

const fKinds = 28

// elem adds an element of the kind.
func (g *fgen) elem(k int) {
	f := g.f
	switch k {
	case 0:
		n := g.id("c")
		f.AddConst(gopoet.NewConst(n).Initialize("%d", 1))
		g.add('c', false, wSpec{names: []string{n}, init: str("1")})
	case 1:
		n, t, s := g.id("C"), g.leaf(), g.sym()
		f.AddConst(gopoet.NewConst(n).SetType(t).Initialize("%s(%q)", s, "a%d"))
		g.add('c', false, wSpec{names: []string{n}, typ: t, init: call(s, "\"a%d\"")})
	case 2:
		t := g.leaf()
		a, b, c := g.id("C"), g.id("C"), g.id("C")
		d := gopoet.NewConstDecl(gopoet.NewConst(a).SetType(t).Initialize("iota"), gopoet.NewConst(b))
		d.AddConst(gopoet.NewConst("_")).AddConst(gopoet.NewConst(c).Initialize("5"))
		f.AddElement(d)
		g.add('c', true, wSpec{names: []string{a}, typ: t, init: str("iota")}, wSpec{names: []string{b}}, wSpec{names: []string{"_"}}, wSpec{names: []string{c}, init: str("5")})
	case 3:
		a, b := g.id("C"), g.id("C")
		s := g.sym()
		f.AddConst(gopoet.NewConst(a, b).SetInitializer(gopoet.Print("1, ").Printf("%v", s)))
		g.add('c', false, wSpec{names: []string{a, b}, init: func(q dMap) string { return "1, " + q(s).String() }})
	case 4:
		n, t := g.id("V"), g.typ()
		f.AddVar(gopoet.NewVar(n).SetType(t))
		g.add('v', false, wSpec{names: []string{n}, typ: t})
	case 5:
		n, s := g.id("v"), g.sym()
		f.AddVar(gopoet.NewVar(n).Initialize("%s(%d)", s, 2))
		g.add('v', false, wSpec{names: []string{n}, init: call(s, "2")})
	case 6:
		a, b, o := g.id("V"), g.id("V"), g.other()
		f.AddVar(gopoet.NewVar(a, b).SetType(o))
		g.add('v', false, wSpec{names: []string{a, b}, typ: o.ToTypeName()})
	case 7:
		n := g.id("V")
		s, w := g.structSpec("", 0)
		f.AddVar(gopoet.NewVar(n).SetType(s))
		g.add('v', false, wSpec{names: []string{n}, typ: w})
	case 8:
		a, b := g.id("V"), g.id("V")
		t, s := g.typ(), g.sym()
		d := gopoet.NewVarDecl(gopoet.NewVar(a).SetType(t)).AddVar(gopoet.NewVar(b).Initialize("%s", s))
		f.AddElement(d)
		g.add('v', true, wSpec{names: []string{a}, typ: t}, wSpec{names: []string{b}, init: func(q dMap) string { return q(s).String() }})
	case 9:
		n := g.id("T")
		s, w := g.structSpec(n, 1)
		f.AddType(s)
		g.add('t', false, wSpec{names: []string{n}, typ: w})
	case 10:
		n := g.id("T")
		s, w := g.ifaceSpec(n)
		f.AddType(s)
		g.add('t', false, wSpec{names: []string{n}, typ: w})
	case 11:
		n, t := g.id("T"), g.leaf()
		f.AddType(gopoet.NewTypeAlias(n, t))
		g.add('t', false, wSpec{names: []string{n}, typ: t, alias: true})
	case 12:
		n, t := g.id("T"), g.typ()
		f.AddType(gopoet.NewTypeSpec(n, t))
		g.add('t', false, wSpec{names: []string{n}, typ: t})
	case 13:
		a, b, c := g.id("T"), g.id("T"), g.id("T")
		s, w := g.structSpec(a, 0)
		i, wi := g.ifaceSpec(c)
		t := g.leaf()
		d := gopoet.NewTypeDecl(s).AddType(gopoet.NewTypeAlias(b, t)).AddType(i)
		f.AddElement(d)
		g.add('t', true, wSpec{names: []string{a}, typ: w}, wSpec{names: []string{b}, typ: t, alias: true}, wSpec{names: []string{c}, typ: wi})
	case 14:
		n, o := g.id("T"), g.other()
		f.AddType(gopoet.NewTypeSpec(n, o))
		g.add('t', false, wSpec{names: []string{n}, typ: o.ToTypeName()})
	case 15:
		n := g.id("T")
		s, w := g.structSpec("", 1)
		f.AddType(gopoet.NewTypeSpec(n, s))
		g.add('t', false, wSpec{names: []string{n}, typ: w})
	case 16:
		n := g.id("F")
		f.AddElement(gopoet.NewFunc(n))
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: n}})
	case 17:
		n, t, s := g.id("F"), g.typ(), g.sym()
		fn := gopoet.NewFunc(n).AddArg("a", t).AddArg("b", gopoet.SliceType(g.leaf())).SetVariadic(true).AddResult("", g.leaf())
		fn.Printlnf("%s(a, b...)", s).Print("return ").Printf("%s.%s", s, "Field")
		f.AddElement(fn)
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: n, sig: fn.Signature, body: func(q dMap) string {
			return q(s).String() + "(a, b...) return " + q(s).String() + ".Field"
		}}})
	case 18:
		n, t := g.id("M"), g.typ()
		fn := gopoet.NewMethod(gopoet.NewPointerReceiver("r", "Recv"), n).AddArg("", t)
		fn.Println("return")
		f.AddElement(fn)
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: n, hasRecv: true, recv: "r", recvType: "Recv", ptr: true, sig: fn.Signature, body: str("return")}})
	case 19:
		n, o := g.id("M"), g.typeSpec()
		fn := gopoet.NewMethod(gopoet.NewReceiverForType("", o), n).AddResult("r", g.leaf()).AddResult("", g.typ())
		fn.Println("return")
		f.AddElement(fn)
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: n, hasRecv: true, recvType: o.Name, sig: fn.Signature, body: str("return")}})
	case 20:
		n := g.id("f")
		fn := gopoet.NewFunc(n).AddArg("a", g.leaf()).AddArg("", g.typ()).AddArg("b", gopoet.PointerType(g.leaf()))
		f.AddElement(fn)
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: n, sig: fn.Signature}})
	case 21:
		n, o := g.id("M"), g.typeSpec()
		fn := gopoet.NewMethod(gopoet.NewPointerReceiverForType("rr", o), n).AddResult("", g.leaf())
		s := g.sym()
		fn.AddCode(gopoet.Printlnf("if x {\n%s()\n}", s).Println("return nil"))
		f.AddElement(fn)
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: n, hasRecv: true, recv: "rr", recvType: o.Name, ptr: true, sig: fn.Signature, body: func(q dMap) string {
			return "if x { " + q(s).String() + "() } return nil"
		}}})
	case 22:
		n := g.id("T")
		s, w := g.ifaceSpec("")
		f.AddType(gopoet.NewTypeAlias(n, s))
		g.add('t', false, wSpec{names: []string{n}, typ: w, alias: true})
	case 23:
		n, t := g.id("C"), g.leaf()
		f.AddElement(gopoet.NewConstDecl(gopoet.NewConst(n).SetType(t).Initialize("'x'")))
		g.add('c', false, wSpec{names: []string{n}, typ: t, init: str("'x'")})
	case 24:
		n := g.id("V")
		s, w := g.ifaceSpec("")
		sy := g.sym()
		f.AddElement(gopoet.NewVarDecl(gopoet.NewVar(n).SetType(s).Initialize("%s", sy)))
		g.add('v', false, wSpec{names: []string{n}, typ: w, init: func(q dMap) string { return q(sy).String() }})
	case 25:
		n := g.id("F")
		r := gopoet.FuncSpec{Name: n}
		r.Signature.AddArg("x", g.leaf())
		r.Signature.AddResult("y", g.leaf())
		r.CodeBlock.Println("// nothing")
		r.CodeBlock.AddCode(gopoet.Println("return"))
		f.AddElement(&r)
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: n, sig: r.Signature, body: str("// nothing return")}})
	case 26:
		n, o := g.id("T"), g.typeSpec()
		fs := gopoet.NewStructTypeSpec(n, gopoet.NewField("Self", o), gopoet.NewField("", o).SetTag("y"), gopoet.NewField("p", gopoet.PointerType(o.ToTypeName())))
		f.AddElement(gopoet.NewTypeDecl(fs))
		ot := o.ToTypeName()
		g.add('t', false, wSpec{names: []string{n}, typ: wStruct{{"Self", ot, ""}, {"", ot, "y"}, {"p", gopoet.PointerType(ot), ""}}})
	case 27:
		n := g.id("T")
		t := gopoet.StructType(gopoet.FieldType{Name: "A", Type: gopoet.StructType(gopoet.FieldType{Name: "B", Type: gopoet.InterfaceType([]gopoet.Symbol{g.sym()}, gopoet.MethodType{Name: "M"}), Tag: "x"})}, gopoet.FieldType{Type: g.leaf(), Tag: "e"}, gopoet.FieldType{Name: "C", Type: gopoet.StructType()}, gopoet.FieldType{Name: "D", Type: gopoet.InterfaceType(nil)})
		f.AddType(gopoet.NewTypeSpec(n, t))
		g.add('t', false, wSpec{names: []string{n}, typ: t})
	}
}

const fOdd = 7

// odd adds an element with one of its names out of the ordinary.
func (g *fgen) odd() {
	f := g.f
	k := vChoose(fOdd)
	names := []string{"_", "err", "int", "p", "own", "init", "ctx", ""}
	t1, t2, t3 := g.leaf(), g.leaf(), gopoet.SliceType(g.leaf())
	names = append(names, t1.Symbol().Name)
	at, i := vChoose([]int{5, 7, 6, 6, 4, 6, 1}[k]), 0
	name := names[vChoose(len(names))]
	nm := func(def string) string {
		i++
		if i-1 == at {
			vAssume(name != "")
			return name
		}
		return def
	}
	opt := func(def string) string {
		i++
		if i-1 == at {
			return name
		}
		return def
	}
	switch k {
	case 0:
		n, rt := nm("Meth"), nm("Recv")
		fn := gopoet.NewMethod(gopoet.NewPointerReceiver(opt("r"), rt), n)
		r := fn.Receiver.Name
		fn.AddArg(opt("a"), t1).AddArg(opt(""), t3).SetVariadic(true).AddResult("", t2)
		fn.Println("return nil")
		f.AddElement(fn)
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: n, hasRecv: true, recv: r, recvType: rt, ptr: true, sig: fn.Signature, body: str("return nil")}})
	case 1:
		n := nm("Fun")
		fn := gopoet.NewFunc(n)
		fn.AddArg(opt("a"), t1).AddArg(opt("b"), t2).AddArg(opt(""), gopoet.ErrorType)
		fn.AddResult(opt(""), t3).AddResult(opt(""), gopoet.ErrorType).AddResult(opt("x"), gopoet.BoolType)
		f.AddElement(fn)
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: n, sig: fn.Signature}})
	case 2:
		// signatures within types
		var s gopoet.Signature
		n := nm("T")
		s.AddArg(opt(""), t1).AddArg(opt(""), t3).SetVariadic(true).AddResult(opt(""), t2).AddResult(opt(""), gopoet.ErrorType)
		m := gopoet.NewInterfaceMethod(nm("M"))
		m.Signature = s
		own := gopoet.FuncType(s.Args, s.Results)
		if s.IsVariadic {
			own = gopoet.FuncTypeVariadic(s.Args, s.Results)
		}
		f.AddElement(gopoet.NewTypeDecl(gopoet.NewInterfaceTypeSpec(n, m), gopoet.NewTypeSpec("U", gopoet.MapType(gopoet.StringType, own))))
		g.add('t', true, wSpec{names: []string{n}, typ: wIface{{method: m.Name, sig: s}}}, wSpec{names: []string{"U"}, typ: gopoet.MapType(gopoet.StringType, own)})
	case 3:
		n, a, b := nm("T"), nm("F"), nm("f")
		s := gopoet.StructType(gopoet.FieldType{Name: nm("_"), Type: t1}, gopoet.FieldType{Name: opt("E"), Type: t2, Tag: "e"}, gopoet.FieldType{Name: "_", Type: t3})
		f.AddType(gopoet.NewStructTypeSpec(n, gopoet.NewField(a, t1).SetTag("x"), gopoet.NewField("_", gopoet.IntType), gopoet.NewField(b, s), gopoet.NewField(opt(""), gopoet.PointerType(t2))))
		e := ""
		if at == 5 {
			e = name
		}
		g.add('t', false, wSpec{names: []string{n}, typ: wStruct{{a, t1, "x"}, {"_", gopoet.IntType, ""}, {b, s, ""}, {e, gopoet.PointerType(t2), ""}}})
	case 4:
		a, b, c, d := nm("A"), nm("B"), nm("_"), nm("D")
		f.AddConst(gopoet.NewConst(a, b).Initialize("1, 2"))
		f.AddElement(gopoet.NewConstDecl(gopoet.NewConst(c).SetType(t1).Initialize("iota"), gopoet.NewConst(d)))
		g.add('c', false, wSpec{names: []string{a, b}, init: str("1, 2")})
		g.add('c', true, wSpec{names: []string{c}, typ: t1, init: str("iota")}, wSpec{names: []string{d}})
	case 5:
		a, b, c, d, e, al := nm("A"), nm("B"), nm("_"), nm("D"), nm("E"), nm("Al")
		s := g.sym()
		f.AddVar(gopoet.NewVar(a, b).SetType(t1))
		f.AddElement(gopoet.NewVarDecl(gopoet.NewVar(c, d).Initialize("%s()", s), gopoet.NewVar(e).SetType(t3).Initialize("nil")))
		f.AddType(gopoet.NewTypeAlias(al, t2))
		g.add('v', false, wSpec{names: []string{a, b}, typ: t1})
		g.add('v', true, wSpec{names: []string{c, d}, init: call(s, "")}, wSpec{names: []string{e}, typ: t3, init: str("nil")})
		g.add('t', false, wSpec{names: []string{al}, typ: t2, alias: true})
	case 6:
		// members in no order, some of them twice
		n := nm("T")
		o := []string{"", "K", "_", "R"}
		it := gopoet.InterfaceType([]gopoet.Symbol{{Name: "Z", Package: t1.Symbol().Package}, {Name: "error"}, t2.Symbol()},
			gopoet.MethodType{Name: "Q"}, gopoet.MethodType{Name: "A", Signature: gopoet.Signature{Args: []gopoet.ArgType{{Name: "z", Type: t3}, {Name: "b", Type: t2}, {Name: "a", Type: t2}}}}, gopoet.MethodType{Name: "x"}, gopoet.MethodType{Name: "B"})
		st := gopoet.StructType(gopoet.FieldType{Name: "z", Type: it, Tag: "q:\"2\" a:\"1\""}, gopoet.FieldType{Name: "A", Type: t1}, gopoet.FieldType{Name: "_", Type: t2}, gopoet.FieldType{Type: t2}, gopoet.FieldType{Name: "b", Type: t3})
		f.AddVar(gopoet.NewVar("z").SetType(it)).AddVar(gopoet.NewVar("a").SetType(st))
		g.add('v', false, wSpec{names: []string{"z"}, typ: it})
		g.add('v', false, wSpec{names: []string{"a"}, typ: st})
		zf, af := gopoet.NewField("z", it), gopoet.NewField("a", st)
		f.AddType(gopoet.NewStructTypeSpec(n, zf, af, gopoet.NewField("m", t1)))
		g.add('t', false, wSpec{names: []string{n}, typ: wStruct{{"z", it, ""}, {"a", st, ""}, {"m", t1, ""}}})
		var es []gopoet.InterfaceElement
		var w wIface
		for _, x := range append(o, "B", "a")[1:] {
			if x == "K" || x == "a" {
				es, w = append(es, gopoet.NewInterfaceEmbed(t2.Symbol())), append(w, wElem{embed: t2.Symbol()})
				continue
			}
			es, w = append(es, gopoet.NewInterfaceMethod(x)), append(w, wElem{method: x})
		}
		g.elems = append(g.elems, es...)
		g.fspecs = append(g.fspecs, zf, af)
		f.AddType(gopoet.NewInterfaceTypeSpec("I", es...))
		g.add('t', false, wSpec{names: []string{"I"}, typ: w})
		f.AddElement(gopoet.NewVarDecl(gopoet.NewVar("z", "y", "a").SetType(t1), gopoet.NewVar("c").SetType(it), gopoet.NewVar("b").SetType(t2)))
		g.add('v', true, wSpec{names: []string{"z", "y", "a"}, typ: t1}, wSpec{names: []string{"c"}, typ: it}, wSpec{names: []string{"b"}, typ: t2})
		f.AddElement(gopoet.NewTypeDecl(gopoet.NewTypeSpec("Z", t3), gopoet.NewTypeSpec("Y", it), gopoet.NewTypeSpec("A", st)))
		g.add('t', true, wSpec{names: []string{"Z"}, typ: t3}, wSpec{names: []string{"Y"}, typ: it}, wSpec{names: []string{"A"}, typ: st})
	}
}

// typeSpec is a type of this very file.
func (g *fgen) typeSpec() *gopoet.TypeSpec {
	if g.spec == nil {
		g.spec = gopoet.NewTypeSpec("Base", gopoet.IntType)
		g.f.AddType(g.spec)
		g.add('t', false, wSpec{names: []string{"Base"}, typ: gopoet.IntType})
	}
	return g.spec
}

// rendered is the source of the file.
func rendered(f *gopoet.GoFile) string {
	var b bytes.Buffer
	err := gopoet.WriteGoFile(&b, f)
	if err != nil {
		vObserve("error", err.Error())
	}
	vAssert(err == nil, "a file does not render")
	return b.String()
}

type source struct {
	text string
	fset *token.FileSet
	file *ast.File
}

func parseFile(text string) *source {
	s := &source{text: text, fset: token.NewFileSet()}
	f, err := parser.ParseFile(s.fset, "x.go", text, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		vObserve("error", err.Error())
	}
	vAssert(err == nil, "the rendered source does not parse")
	s.file = f
	return s
}

func (s *source) slice(from, to token.Pos) string {
	return s.text[s.fset.Position(from).Offset:s.fset.Position(to).Offset]
}

func fields(s string) string { return strings.Join(strings.Fields(s), " ") }

// resolve checks the imports of the source against the references made and
// returns the qualifier of each path.
func (s *source) resolve(own string, names map[string]string) (dMap, []string) {
	qual := map[string]string{}
	seen := map[string]bool{}
	var bound []string
	for _, i := range s.file.Imports {
		p, err := strconv.Unquote(i.Path.Value)
		vAssert(err == nil, "an import path is no string literal")
		vAssert(p != own, "the file imports itself")
		n := names[p]
		if i.Name != nil {
			n = i.Name.Name
		}
		vAssert(n != "" && n != "_" && n != ".", "an import binds no known name")
		vAssert(qual[p] == "", "a package is imported twice")
		vAssert(!seen[n], "two imports bind one name")
		qual[p], seen[n] = n, true
		bound = append(bound, n)
	}
	return func(y gopoet.Symbol) gopoet.Symbol {
		p := y.Package.ImportPath
		if p == "" && y.Package.Name == "" {
			return y
		}
		if p == own {
			return gopoet.Symbol{Name: y.Name, Package: gopoet.Package{ImportPath: p}}
		}
		vAssert(qual[p] != "", "the package of a reference is not imported")
		return gopoet.Symbol{Name: y.Name, Package: gopoet.Package{ImportPath: p, Name: qual[p]}}
	}, bound
}

// used is the set of names with which references in the source are qualified.
func (s *source) used() map[string]bool {
	ret := map[string]bool{}
	for _, d := range s.file.Decls {
		ast.Inspect(d, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := se.X.(*ast.Ident); ok && x.Name[0] >= 'a' { // declared names are capitalised here
					ret[x.Name] = true
				}
			}
			return true
		})
	}
	return ret
}

func matchW(e ast.Expr, w interface{}, q dMap) bool {
	switch w := w.(type) {
	case nil:
		return e == nil
	case gopoet.TypeName:
		return e != nil && matchType(e, mapSyms(w, q))
	case wStruct:
		s, ok := e.(*ast.StructType)
		if !ok || len(s.Fields.List) != len(w) {
			return false
		}
		for i, f := range s.Fields.List {
			if !matchTag(f.Tag, w[i].tag) || !matchW(f.Type, w[i].typ, q) {
				return false
			}
			if w[i].name == "" {
				if len(f.Names) != 0 {
					return false
				}
			} else if len(f.Names) != 1 || f.Names[0].Name != w[i].name {
				return false
			}
		}
		return true
	case wIface:
		s, ok := e.(*ast.InterfaceType)
		if !ok || len(s.Methods.List) != len(w) {
			return false
		}
		for i, f := range s.Methods.List {
			if w[i].method == "" {
				if len(f.Names) != 0 || !matchSym(f.Type, q(w[i].embed)) {
					return false
				}
				continue
			}
			ft, ok := f.Type.(*ast.FuncType)
			if !ok || len(f.Names) != 1 || f.Names[0].Name != w[i].method {
				return false
			}
			sig := mapSig(&w[i].sig, q)
			if !matchSig(ft, &sig) {
				return false
			}
		}
		return true
	}
	return false
}

func (s *source) matchNames(ids []*ast.Ident, names []string) bool {
	if len(ids) != len(names) {
		return false
	}
	for i, id := range ids {
		if id.Name != names[i] {
			return false
		}
	}
	return true
}

// match checks that the source declares what is wanted, in order.
func (s *source) match(want []wDecl, q dMap) {
	decls := s.file.Decls
	for len(decls) > 0 {
		g, ok := decls[0].(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			break
		}
		decls = decls[1:]
	}
	vAssert(len(decls) == len(want), "the number of declarations is another")
	for i, w := range want {
		if w.kind == 'f' {
			f, ok := decls[i].(*ast.FuncDecl)
			vAssert(ok, "a function is not declared at its place")
			s.matchFunc(f, w.fn, q)
			continue
		}
		d, ok := decls[i].(*ast.GenDecl)
		vAssert(ok, "a declaration is not at its place")
		vAssert(d.Tok == map[byte]token.Token{'c': token.CONST, 'v': token.VAR, 't': token.TYPE}[w.kind], "a declaration is of another kind")
		vAssert(d.Lparen.IsValid() == w.group, "a group is split or a single declaration grouped")
		vAssert(len(d.Specs) == len(w.specs), "the number of elements of a declaration is another")
		for j, ws := range w.specs {
			if w.kind == 't' {
				ts, ok := d.Specs[j].(*ast.TypeSpec)
				vAssert(ok && ts.Name.Name == ws.names[0] && ts.TypeParams == nil, "a type is declared by another name")
				vAssert(ts.Assign.IsValid() == ws.alias, "an alias is declared as a type or the other way")
				vAssert(matchW(ts.Type, ws.typ, q), "a type is not declared as modelled")
				continue
			}
			vs, ok := d.Specs[j].(*ast.ValueSpec)
			vAssert(ok && s.matchNames(vs.Names, ws.names), "a const or var is declared by other names")
			vAssert(matchW(vs.Type, ws.typ, q), "a const or var is not declared with its type")
			if ws.init == nil {
				vAssert(len(vs.Values) == 0, "a const or var has an initializer that is not in the model")
				continue
			}
			vAssert(len(vs.Values) > 0, "a const or var lacks its initializer")
			got := s.slice(vs.Values[0].Pos(), vs.Values[len(vs.Values)-1].End())
			vAssert(fields(got) == fields(ws.init(q)), "a const or var has another initializer")
		}
	}
}

func (s *source) matchFunc(f *ast.FuncDecl, w *wFunc, q dMap) {
	vAssert(f.Name.Name == w.name, "a function is declared by another name")
	vAssert((f.Recv != nil) == w.hasRecv, "a method is declared as a function or the other way")
	if w.hasRecv {
		vAssert(len(f.Recv.List) == 1, "a method has not one receiver")
		r := f.Recv.List[0]
		if w.recv == "" {
			vAssert(len(r.Names) == 0, "a receiver has a name that is not in the model")
		} else {
			vAssert(len(r.Names) == 1 && r.Names[0].Name == w.recv, "a receiver has another name")
		}
		t := r.Type
		if st, ok := t.(*ast.StarExpr); ok {
			vAssert(w.ptr, "a value receiver is declared as a pointer")
			t = st.X
		} else {
			vAssert(!w.ptr, "a pointer receiver is declared as a value")
		}
		id, ok := t.(*ast.Ident)
		vAssert(ok && id.Name == w.recvType, "a method is declared on another type")
	}
	sig := mapSig(&w.sig, q)
	vAssert(matchSig(f.Type, &sig), "a function has another signature")
	vAssert(f.Body != nil, "a function has no body")
	body := ""
	if w.body != nil {
		body = w.body(q)
	}
	got := s.slice(f.Body.Lbrace+1, f.Body.Rbrace)
	vAssert(fields(got) == fields(body), "a function has another body")
}

var _ = reflect.TypeOf
