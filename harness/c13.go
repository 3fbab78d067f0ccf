package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"

	"github.com/jhump/gopoet"
)

// dgen makes template data. Reference placements follow one spine of nested
// values; everything beside it is a second reference or an ordinary value.
type dgen struct {
	path  func() string
	name  string
	shape string // shapes to nest: n N s a m p i S M P A t T
	files map[string]*dFile
	gos   map[string]*dGo
	n     int
}

func (g *dgen) pkg() gopoet.Package {
	return gopoet.Package{ImportPath: g.path(), Name: g.name}
}

func (g *dgen) sym() gopoet.Symbol {
	g.n++
	return gopoet.Symbol{Name: "R" + strconv.Itoa(g.n), Package: g.pkg()}
}

func (g *dgen) file() *dFile { return newDFile(g.path(), g.name) }
func (g *dgen) gopkg() *dGo  { return newDGo(g.path(), g.name) }

func (g *dgen) sig() gopoet.Signature {
	var s gopoet.Signature
	s.AddArg("a", gopoet.NamedType(g.sym()))
	s.AddResult("", gopoet.SliceType(gopoet.NamedType(g.sym())))
	return s
}

const dRefs = 31
const dRefsAll = 37 // with those that are no arguments of code blocks

// ref is a reference of the kind.
func (g *dgen) ref(k int) interface{} {
	switch k {
	case 0:
		return g.sym()
	case 1:
		s := g.sym()
		return &s
	case 2:
		return g.pkg()
	case 3:
		p := g.pkg()
		return &p
	case 4:
		return gopoet.MethodReference{Type: g.sym(), Method: "M"}
	case 5:
		return &gopoet.MethodReference{Type: g.sym(), Method: "M"}
	case 6:
		return gopoet.NamedType(g.sym())
	case 7:
		return gopoet.MapType(gopoet.StringType, gopoet.PointerType(gopoet.NamedType(g.sym())))
	case 8:
		return g.sig()
	case 9:
		s := g.sig()
		return &s
	case 10:
		return g.file().c
	case 11:
		return g.file().v
	case 12:
		return g.file().t
	case 13:
		return g.file().fn
	case 14:
		return g.file().me
	case 15:
		return g.file().im
	case 16:
		return gopoet.NewInterfaceEmbed(g.sym()).SetComment("c")
	case 17:
		return gopoet.NewInterfaceMethod("IM").AddArg("", gopoet.NamedType(g.sym()))
	case 18: // unnamed type
		return gopoet.NewStructTypeSpec("", gopoet.NewField("F", gopoet.NamedType(g.sym())))
	case 19:
		return g.gopkg().pkg
	case 20:
		return g.gopkg().named
	case 21:
		return g.gopkg().v
	case 22:
		return g.gopkg().c
	case 23:
		return g.gopkg().fn
	case 24:
		return g.gopkg().meth
	case 25:
		return reflect.TypeOf(gopoet.Symbol{})
	case 26:
		return reflect.TypeOf([]*reflect.StructField{})
	case 27:
		return gopoet.NewConst("Loose")
	case 28:
		return *g.file().c
	case 29:
		return *g.file().t
	case 31:
		c := gopoet.NewConst("C1", "C2").Initialize("1, 2")
		g.file().f.AddConst(c)
		return c
	case 32:
		v := gopoet.NewVar("V1", "V2").SetType(gopoet.IntType)
		g.file().f.AddElement(gopoet.NewVarDecl(v))
		return v
	case 33:
		v := gopoet.NewVar("V1", "V2").SetType(gopoet.IntType)
		g.file().f.AddVar(v)
		return *v
	case 34:
		return *g.file().fn
	case 35:
		t := gopoet.NewTypeAlias("Al", gopoet.IntType)
		g.file().f.AddElement(gopoet.NewTypeDecl(t))
		return t
	case 36:
		return *g.file().v
	default:
		return gopoet.ErrorType
	}
}

// val nests the reference d levels deep.
func (g *dgen) val(d int, ref func() interface{}) interface{} {
	if d == 0 {
		return ref()
	}
	v := g.val(d-1, ref)
	switch g.shape[vChoose(len(g.shape))] {
	case 'n':
		return dNode{A: v, N: 7}
	case 'u': // unexported field
		return dNode{A: "text", b: v, N: 7}
	case 'N':
		return &dNode{A: 5, b: v}
	case 'D':
		p := &dNode{A: v}
		return &p
	case 's':
		return []interface{}{1, v, nil, "x", v}
	case 'a':
		return [2]interface{}{v, 1}
	case 'm':
		return map[string]interface{}{"a": v, "b": nil, "c": 3}
	case 'p':
		return &v
	case 'S':
		return []dNode{{A: 1}, {b: v}, {A: v}}
	case 'A':
		return [1]dNode{{b: v}}
	case 'M':
		return map[string]dNode{"a": {b: v}, "b": {A: 2}}
	case 'B':
		return &[2]interface{}{v, 1}
	case 'C':
		return &[]interface{}{v, 1, v}
	case 'E':
		return &map[string]interface{}{"a": 1, "b": v}
	case 'F':
		return [][2]interface{}{{1, 2}, {3, v}, {v, 4}}
	case 'G': // the parts can be altered
		a := &dArr{A: [2]interface{}{1, v}, N: dNode{A: 1, b: v}}
		a.b[1].A = v
		a.n.y = v
		a.P[1] = g.pkg()
		a.s[0] = []gopoet.Symbol{{Name: "int"}, g.sym()}
		a.pp[0] = &a.s[0][0]
		return a
	case 'H':
		a := dArr{A: [2]interface{}{v, 1}, N: dNode{A: v}}
		a.b[0].b = v
		a.n.X = v
		return a
	default:
		return map[int]*dNode{1: {A: v}, 2: nil}
	}
}

// dImports is one of a few states of an import set.
func dImports() *gopoet.Imports {
	imps := gopoet.NewImportsFor("o")
	switch vChoose(3) {
	case 1:
		imps.RegisterImport("b", "p")
	case 2:
		imps.RegisterImport("x", "p")
		imps.RegisterImport("a", "q")
	}
	return imps
}

// dCheck qualifies the value and checks the result and that the value is as
// before.
func dCheck(imps *gopoet.Imports, v interface{}) interface{} {
	before := dText(v, dSame)
	refs := dSyms(v)
	specs := imps.ImportSpecs()
	q := imps.QualifyTemplateData(v)
	vAssert(dText(v, dSame) == before, "the data given was altered")
	for _, r := range refs {
		if p := r.Package.ImportPath; p != "" && p != "o" {
			vAssert(hasImport(imps, p), "the package of a reference is not imported")
		}
	}
	for _, s := range imps.ImportSpecs() {
		known := false
		for _, b := range specs {
			known = known || b.ImportPath == s.ImportPath
		}
		for _, r := range refs {
			known = known || r.Package.ImportPath == s.ImportPath
		}
		vAssert(known, "a package is imported that is not referenced")
	}
	want := dText(v, func(s gopoet.Symbol) gopoet.Symbol { return c04Want(imps, "o", s) })
	got := dText(q, dSame)
	vObserve("data", got)
	vAssert(got == want, "the data is not the same with qualified references")
	return q
}

func dPath() string { return vIdent("abo", "", 1) }

// H_C13_refs puts a reference of every kind into every place.
// bound: all 37 kinds of references in all 12 kinds of places nested to depth 2 (3 in the thorough tier); the referenced package any of a, b, own, with colliding names, under three registration states
// covers: done
func H_C13_refs() {
	g := &dgen{path: dPath, name: "p", shape: "nuNDsampSAMQ"}
	imps := dImports()
	k := vChoose(dRefsAll)
	dCheck(imps, g.val(2+vTier(), func() interface{} { return g.ref(k) }))
	vCover("done")
}

// H_C13_boxes puts references into parts of data that could be altered in place.
// bound: all 37 kinds of references in pointers to arrays, slices and maps, slices of arrays, and structs (by value or pointer) with arrays and structs as exported and unexported fields, nested to depth 1 (2 in the thorough tier); the referenced package any of a, b, own, with colliding names, under three registration states
// covers: done
func H_C13_boxes() {
	g := &dgen{path: dPath, name: "p", shape: "BCEFGH"}
	imps := dImports()
	k := vChoose(dRefsAll)
	dCheck(imps, g.val(1+vTier(), func() interface{} { return g.ref(k) }))
	vCover("done")
}

// H_C13_text renders references of every kind.
// bound: all 37 kinds of references inside a slice; the referenced package any of a, b, own, under three registration states
// covers: done
func H_C13_text() {
	g := &dgen{path: dPath, name: "p"}
	imps := dImports()
	k := vChoose(dRefsAll)
	v := g.ref(k)
	f := func(s gopoet.Symbol) gopoet.Symbol { return c04Want(imps, "o", s) }
	q := imps.QualifyTemplateData([]interface{}{v}).([]interface{})
	want := ""
	switch v := v.(type) {
	case gopoet.Signature, *gopoet.Signature, *gopoet.InterfaceMethod:
		return
	case gopoet.TypeSpec:
		want = f(v.ToSymbol()).String()
		t := q[0].(gopoet.TypeSpec)
		vAssert(t.String() == want, "a type spec renders with another qualifier")
		return
	case gopoet.VarSpec:
		t := q[0].(gopoet.VarSpec)
		want = f(v.SymbolAt(0)).String()
		if len(v.Names) > 1 {
			want += ", " + f(v.SymbolAt(1)).String()
		}
		vAssert(t.String() == want, "a var renders with another qualifier")
		return
	case gopoet.FuncSpec:
		want = f(v.ToSymbol().(gopoet.Symbol)).String()
		t := q[0].(gopoet.FuncSpec)
		vAssert(t.String() == want, "a function renders with another qualifier")
		return
	case gopoet.ConstSpec:
		want = f(v.ToSymbol()).String()
		t := q[0].(gopoet.ConstSpec)
		vAssert(t.String() == want, "a const renders with another qualifier")
		return
	}
	switch {
	case k == 31:
		c := v.(*gopoet.ConstSpec)
		want = f(c.SymbolAt(0)).String() + ", " + f(c.SymbolAt(1)).String()
	case k == 32:
		c := v.(*gopoet.VarSpec)
		want = f(c.SymbolAt(0)).String() + ", " + f(c.SymbolAt(1)).String()
	case k == 14:
		want = "Me"
	case k == 27:
		want = "Loose"
	case k == 18:
		want = mapSyms(v.(*gopoet.TypeSpec).Underlying(), f).String()
	default:
		want = c12Text(v, f)
	}
	got := fmt.Sprint(q[0])
	vObserve("text", got)
	vAssert(got == want, "a reference renders with another qualifier")
	vCover("done")
}

// c12Text is the text of a reference.
func c12Text(v interface{}, f dMap) string {
	s := ""
	dText(v, func(sym gopoet.Symbol) gopoet.Symbol {
		s = f(sym).String()
		return sym
	})
	switch v := v.(type) {
	case gopoet.Package:
		return f(gopoet.Symbol{Name: "x", Package: v}).Package.Name
	case *gopoet.Package:
		return f(gopoet.Symbol{Name: "x", Package: *v}).Package.Name
	case gopoet.MethodReference:
		return s + "." + v.Method
	case *gopoet.MethodReference:
		return s + "." + v.Method
	case gopoet.TypeName:
		return mapSyms(v, f).String()
	case reflect.Type:
		return mapSyms(gopoet.TypeNameForReflectType(v), f).String()
	}
	switch v := v.(type) {
	case interface{ Path() string }:
		p := gopoet.Package{ImportPath: v.Path(), Name: v.(fmt.Stringer).String()}
		return f(gopoet.Symbol{Name: "x", Package: p}).Package.Name
	case interface{ FullName() string }:
		if sm, ok := gopoet.SymbolForGoObject(v.(goObject)).(gopoet.MethodReference); ok {
			return s + "." + sm.Method
		}
	}
	return s
}

// H_C13_typed qualifies references in fields and elements of their own types.
// bound: a struct with 18 fields of the reference types, exported and not, pointers, lists, arrays and maps among them, held in 7 ways; the first three packages any of a, b, own, under three registration states; some fields nil or empty
// covers: done
func H_C13_typed() {
	n := 0
	g := &dgen{name: "p"}
	g.path = func() string {
		n++
		if n <= 3 {
			return dPath()
		}
		return "aob"[n%3 : n%3+1]
	}
	t := dTyped{P: g.pkg(), S: g.sym(), m: gopoet.MethodReference{Type: g.sym(), Method: "M"}, t: gopoet.SliceType(gopoet.NamedType(g.sym())), Sig: g.sig(), Str: "s", u: 200}
	switch vChoose(4) {
	case 0:
	case 1:
		p, s, sig := g.pkg(), g.sym(), g.sig()
		t.pp, t.PS, t.pm, t.psg = &p, &s, &gopoet.MethodReference{Type: g.sym(), Method: "N"}, &sig
	case 2:
		t.L = []gopoet.Symbol{{Name: "error"}, g.sym(), g.sym()}
		t.ar = [2]gopoet.TypeName{nil, gopoet.NamedType(g.sym())}
		t.R = g.sym()
	case 3:
		t.M = map[string]gopoet.Symbol{"a": g.sym(), "b": g.sym(), "c": {Name: "int"}}
		t.K = map[gopoet.Symbol]string{g.sym(): "u", {Name: "rune"}: "v", g.sym(): "w"}
		t.R = &gopoet.MethodReference{Type: g.sym(), Method: "N"}
	}
	imps := dImports()
	var v interface{} = t
	switch vChoose(7) {
	case 1:
		v = &t
	case 2:
		v = []interface{}{&t, t}
	case 3:
		v = dNode{b: t}
	case 4:
		v = map[string]interface{}{"a": t, "b": &t}
	case 5:
		v = &dNode{A: &t, b: []interface{}{t}}
	case 6:
		v = [2]interface{}{&dNode{b: &t}, nil}
	}
	dCheck(imps, v)
	vCover("done")
}

// H_C13_plain returns data without references as it is.
// bound: ordinary data of depth 2 (3 in the thorough tier) in all 12 kinds of places around nil, numbers, text, empty and nil pointers, slices, maps, functions, channels
// covers: done
func H_C13_plain() {
	g := &dgen{path: dPath, name: "p", shape: "nuNDsampSAMQ"}
	k := vChoose(13)
	var nn *dNode
	var nt *dTyped
	var ns *gopoet.Symbol
	leaf := []interface{}{nil, 1, "x", true, nn, nt, ns, []interface{}{}, []interface{}(nil), map[string]interface{}{}, map[string]interface{}(nil), uint8(3), dTyped{Str: "z"}}[k]
	imps := dImports()
	v := g.val(2+vTier(), func() interface{} { return leaf })
	dCheck(imps, v)
	vCover("done")
}

// H_C13_deep nests a reference deeply.
// bound: a symbol, a const spec or a go/types type, depth 4 (6 in the thorough tier), in all 3 of pointer-to-struct with an unexported field, slice, map at each level
// covers: done
func H_C13_deep() {
	g := &dgen{path: dPath, name: "p", shape: "Nsm"}
	imps := dImports()
	k := []int{0, 10, 20}[vChoose(3)]
	dCheck(imps, g.val(4+2*vTier(), func() interface{} { return g.ref(k) }))
	vCover("done")
}

// H_C13_many qualifies many references of one name at once.
// bound: 12 symbols of one package name and 12 paths, an arbitrary one of them registered before, in a list and a map
// covers: done
func H_C13_many() {
	imps := gopoet.NewImportsFor("o")
	var l []interface{}
	m := map[string]interface{}{}
	for i := 0; i < 12; i++ {
		s := gopoet.Symbol{Name: "R", Package: gopoet.Package{ImportPath: "p" + strconv.Itoa(i), Name: "p"}}
		l = append(l, s)
		if i < 4 {
			m["abcd"[i:i+1]] = s
		}
	}
	imps.RegisterImport("p"+strconv.Itoa(vChoose(12)), "p")
	dCheck(imps, []interface{}{m, l})
	vCover("done")
}

type dList []gopoet.Symbol
type dTable map[string]*gopoet.TypeSpec
type dEmb struct {
	gopoet.Symbol
	dInner
}
type dInner struct{ q gopoet.Package }

type dMore struct {
	list  dList
	Table dTable
	Emb   dEmb
	Keys  map[interface{}]string
	Ptrs  []*gopoet.Symbol
	Str   fmt.Stringer
	strs  []fmt.Stringer
	RT    reflect.Type
	fs    []gopoet.FileElement
	PL    *dList
	pp    **gopoet.Symbol
	TS    gopoet.TypeNameOrSpec
	tss   [1]gopoet.TypeNameOrSpec
	Ch    chan int
	Fn    func() gopoet.Symbol
	big   [3]gopoet.Package
	Sub   struct{ S, t interface{} }
	Im    *gopoet.Imports
}

func dMoreText(v dMore, f dMap) string {
	s := "list" + strconv.Itoa(len(v.list))
	for _, e := range v.list {
		s += dText(e, f)
	}
	s += " table" + strconv.Itoa(len(v.Table)) + dText(v.Table["a"], f) + dText(v.Table["b"], f)
	s += " emb" + dText(v.Emb.Symbol, f) + dText(v.Emb.q, f) + " keys" + strconv.Itoa(len(v.Keys))
	n := 0
	for _, w := range []string{"u", "v", "w"} {
		for k, e := range v.Keys {
			if e == w {
				s += dText(k, f) + w
				n++
			}
		}
	}
	s += strconv.Itoa(n) + " ptrs"
	for _, e := range v.Ptrs {
		s += dText(e, f)
	}
	s += " str" + dText(v.Str, f)
	for _, e := range v.strs {
		s += dText(e, f)
	}
	if v.RT != nil {
		s += " rt" + v.RT.String()
	}
	s += " fs" + strconv.Itoa(len(v.fs))
	for _, e := range v.fs {
		s += dText(e, f)
	}
	if v.PL != nil {
		s += " pl"
		for _, e := range *v.PL {
			s += dText(e, f)
		}
	}
	if v.pp != nil {
		s += " pp" + dText(*v.pp, f)
	}
	s += " ts" + dText(v.TS, f) + dText(v.tss[0], f) + " big"
	for _, e := range v.big {
		s += dText(e, f)
	}
	s += " sub" + dText(v.Sub.S, f) + dText(v.Sub.t, f)
	return s + strconv.FormatBool(v.Ch == nil) + strconv.FormatBool(v.Fn == nil) + strconv.FormatBool(v.Im == nil)
}

// H_C13_more qualifies references in named, embedded, shared and mixed places.
// bound: a struct with 17 further fields (named lists and maps, embedded references, interface-typed keys, lists of pointers, Stringers, reflect.Type, file elements, pointers to pointers and lists, TypeNameOrSpec, channels, functions, unnamed structs), by value or pointer, in 6 subsets; packages any of a, b, own, three registration states
// covers: done
func H_C13_more() {
	n := 0
	g := &dgen{name: "p"}
	g.path = func() string {
		n++
		if n <= 2 {
			return dPath()
		}
		return "aob"[n%3 : n%3+1]
	}
	var v dMore
	switch vChoose(6) {
	case 0:
		v.list = dList{g.sym(), {Name: "error"}, g.sym()}
		v.Table = dTable{"a": g.file().t, "b": nil}
	case 1:
		v.Emb = dEmb{Symbol: g.sym(), dInner: dInner{q: g.pkg()}}
		v.Keys = map[interface{}]string{g.sym(): "u", 5: "v", g.pkg(): "w"}
		v.Ch = make(chan int)
	case 2:
		s := g.sym()
		v.Ptrs = []*gopoet.Symbol{&s, nil, &s}
		v.Str = g.sym()
		v.strs = []fmt.Stringer{reflect.TypeOf(s), g.file().t, nil, g.gopkg().named, gopoet.NamedType(g.sym())}
	case 3:
		v.RT = reflect.TypeOf(v)
		d := g.file()
		v.fs = []gopoet.FileElement{d.fn, d.me, g.file().fn}
		l := dList{g.sym()}
		v.PL = &l
	case 4:
		s := g.sym()
		p := &s
		v.pp = &p
		v.TS = g.file().t
		v.tss[0] = gopoet.SliceType(gopoet.NamedType(g.sym()))
		v.Fn = func() gopoet.Symbol { return s }
	case 5:
		v.big = [3]gopoet.Package{g.pkg(), {}, g.pkg()}
		v.Sub.S = gopoet.NewTypeSpec("", gopoet.PointerType(gopoet.NamedType(g.sym())))
		v.Sub.t = g.sig()
		v.Im = gopoet.NewImportsFor("zz")
		v.Im.RegisterImport("a", "keep")
	}
	before := dMoreText(v, dSame)
	imps := dImports()
	var refs []gopoet.Symbol
	dMoreText(v, func(s gopoet.Symbol) gopoet.Symbol { refs = append(refs, s); return s })
	var q dMore
	if vChoose(2) == 0 {
		q = imps.QualifyTemplateData(v).(dMore)
	} else {
		q = *imps.QualifyTemplateData(&v).(*dMore)
	}
	vAssert(dMoreText(v, dSame) == before, "the data given was altered")
	for _, r := range refs {
		if p := r.Package.ImportPath; p != "" && p != "o" {
			vAssert(hasImport(imps, p), "the package of a reference is not imported")
		}
	}
	want := dMoreText(v, func(s gopoet.Symbol) gopoet.Symbol { return c04Want(imps, "o", s) })
	got := dMoreText(q, dSame)
	vObserve("data", got)
	vAssert(got == want, "the data is not the same with qualified references")
	vAssert(q.Im == nil || q.Im.PrefixForPackage("a") == "keep.", "an import set in the data was changed")
	vCover("done")
}

type dLink struct {
	S    gopoet.Symbol
	Next *dLink
	any  interface{}
}

// H_C13_chain nests references very deeply, one at each level.
// bound: lists of 1..40 nodes (90 in the thorough tier) linked by pointers, interface-typed fields, slices, maps or all of them in turn, a symbol in each; the packages a, b, own in turn from any of them
// covers: done
func H_C13_chain() {
	imps := dImports()
	n := 1 + vChoose(40)
	if vTier() > 0 {
		n += vChoose(51)
	}
	how, at := vChoose(5), vChoose(3)
	sym := func(i int) gopoet.Symbol {
		return gopoet.Symbol{Name: "R", Package: gopoet.Package{ImportPath: "abo"[(i+at)%3 : (i+at)%3+1], Name: "p"}}
	}
	var head *dLink
	for i := n - 1; i >= 0; i-- {
		l := &dLink{S: sym(i)}
		h := how
		if h == 4 {
			h = i % 4
		}
		switch {
		case head == nil:
		case h == 0:
			l.Next = head
		case h == 1:
			l.any = head
		case h == 2:
			l.any = []interface{}{nil, *head}
		default:
			l.any = map[string]*dLink{"k": head}
		}
		head = l
	}
	q := imps.QualifyTemplateData(head).(*dLink)
	for i := 0; i < n; i++ {
		vAssert(q != nil, "a part of the data is gone")
		vAssert(q.S == c04Want(imps, "o", sym(i)), "a reference deep in the data is not qualified")
		var next *dLink
		switch a := q.any.(type) {
		case nil:
			next = q.Next
		case *dLink:
			next = a
		case []interface{}:
			vAssert(len(a) == 2 && a[0] == nil, "a list is another")
			l := a[1].(dLink)
			next = &l
		case map[string]*dLink:
			vAssert(len(a) == 1, "a map is another")
			next = a["k"]
		}
		q = next
	}
	vAssert(q == nil, "the data has grown")
	vCover("done")
}

// H_C13_nest nests a reference deeply in containers of one kind.
// bound: 1..40 levels (90 in the thorough tier) of lists, maps, map keys, arrays, pointers to interfaces, structs by value or slices of slices alone, the package any of a, b, own
// covers: done
func H_C13_nest() {
	type box struct{ in interface{} }
	imps := dImports()
	n := 1 + vChoose(40)
	if vTier() > 0 {
		n += vChoose(51)
	}
	how := vChoose(7)
	s := gopoet.Symbol{Name: "R", Package: gopoet.Package{ImportPath: cPath(), Name: "p"}}
	var v interface{} = s
	for i := 0; i < n; i++ {
		switch how {
		case 0:
			v = []interface{}{1, v}
		case 1:
			v = map[string]interface{}{"k": v, "l": nil}
		case 2:
			v = map[interface{}]int{v: i}
			if i < n-1 {
				v = [1]interface{}{&v}
			}
		case 3:
			v = [2]interface{}{v, "x"}
		case 4:
			w := v
			v = &w
		case 5:
			v = box{v}
		case 6:
			w := v
			v = &box{&w}
		}
	}
	if how == 2 {
		// maps cannot be keys, and pointers are keys as they are
		v = map[interface{}]int{[1]interface{}{box{s}}: n}
	}
	q := imps.QualifyTemplateData(v)
	for i := 0; i < n; i++ {
		switch how {
		case 0:
			l := q.([]interface{})
			vAssert(len(l) == 2 && l[0] == interface{}(1), "a list is another")
			q = l[1]
		case 1:
			m := q.(map[string]interface{})
			vAssert(len(m) == 2 && m["l"] == nil, "a map is another")
			q = m["k"]
		case 2:
			if i == 0 {
				m := q.(map[interface{}]int)
				vAssert(len(m) == 1, "a map is another")
				for k, x := range m {
					vAssert(x == n, "a map has another value")
					q = k.([1]interface{})[0].(box).in
				}
			}
		case 3:
			a := q.([2]interface{})
			vAssert(a[1] == interface{}("x"), "an array is another")
			q = a[0]
		case 4:
			q = *(q.(*interface{}))
		case 5:
			q = q.(box).in
		case 6:
			q = *(q.(*box).in.(*interface{}))
		}
	}
	vAssert(q == interface{}(c04Want(imps, "o", s)), "a reference deep in the data is not qualified")
	vCover("done")
}

type dRing struct {
	S      gopoet.Symbol
	n      int
	Parent *dRing
	kids   []*dRing
	M      map[string]interface{}
	any    interface{}
}

// H_C13_cycle qualifies data that refers to itself.
// bound: 12 shapes of 1..4 nodes (rings, trees with parents, doubly linked lists, siblings, through interfaces, lists, maps and pointers to interfaces), one of the nodes or none with a reference to any of a, b, own; handed over in 3 ways
// covers: done plain
func H_C13_cycle() {
	imps := dImports()
	p := cPath()
	shape, at := vChoose(12), vChoose(5)
	mk := func() (interface{}, []*dRing) {
		ns := make([]*dRing, 4)
		for i := range ns {
			ns[i] = &dRing{n: i}
			if i == at {
				ns[i].S = gopoet.Symbol{Name: "R", Package: gopoet.Package{ImportPath: p, Name: "p"}}
			}
		}
		a, b, c, d := ns[0], ns[1], ns[2], ns[3]
		switch shape {
		case 0:
			a.any = a
		case 1:
			a.Parent = a
		case 2:
			a.kids = []*dRing{b, c, d}
			b.Parent, c.Parent, d.Parent = a, a, a
		case 3:
			a.Parent, b.Parent, c.any, d.Parent = b, c, d, a
		case 4:
			a.any, b.any, b.Parent, c.any, c.Parent, d.Parent = b, c, a, d, b, c
		case 5:
			a.kids = []*dRing{b, c, d}
			b.kids, c.kids, d.kids = a.kids, a.kids, a.kids
		case 6:
			a.M = map[string]interface{}{"b": b}
			a.M["m"] = a.M
			b.any = []interface{}{c, a.M}
			c.M = map[string]interface{}{"d": d, "a": a}
		case 7:
			l := []interface{}{b, nil, c}
			l[1] = l
			a.any, b.any, d.Parent, c.Parent = l, l, a, d
		case 8:
			var x interface{}
			x = []interface{}{&x, b}
			a.any, b.any, c.any, b.Parent, c.Parent = &x, &x, x, c, d
		case 9:
			a.kids = []*dRing{b, b, c, nil, c, a}
			b.kids, b.Parent = a.kids[2:4], d
		case 10:
			// no cycle, one thing held twice
			a.Parent, a.any, a.kids = b, b, []*dRing{b, c, c, d}
			b.any, c.any = c, d
		case 11:
			for _, n := range ns {
				n.kids = ns
			}
		}
		return a, ns
	}
	v, ns := mk()
	a := v.(*dRing)
	var q interface{}
	how := vChoose(3)
	switch how {
	case 0:
		q = imps.QualifyTemplateData(a)
	case 1:
		q = imps.QualifyTemplateData([]interface{}{a, a}).([]interface{})[1]
	case 2:
		q = imps.QualifyTemplateData(map[string]*dRing{"x": ns[0]}).(map[string]*dRing)["x"]
	}
	want := gopoet.Symbol{Name: "R", Package: gopoet.Package{ImportPath: p, Name: "p"}}
	if at < 4 {
		if hasImport(imps, p) || p == "o" {
			want = c04Want(imps, "o", want)
		}
	}
	// walk both at once: what was one thing is still one thing
	seen := map[*dRing]*dRing{}
	count, reached := 0, false
	var walk func(o, c interface{}, d int)
	walk = func(o, c interface{}, d int) {
		vAssert((o == nil) == (c == nil), "a part of the data is gone or new")
		if o == nil || d > 24 {
			return
		}
		switch o := o.(type) {
		case *dRing:
			c, ok := c.(*dRing)
			vAssert(ok && (o == nil) == (c == nil), "a part of the data is gone or new")
			if o == nil {
				return
			}
			if s, ok := seen[o]; ok {
				vAssert(s == c, "a part that is held twice has become two")
				return
			}
			seen[o] = c
			count++
			vAssert(c.n == o.n, "a part of the data is another")
			if o.n == at {
				vAssert(c.S == want, "a reference is not qualified")
				reached = true
			} else {
				vAssert(c.S == gopoet.Symbol{}, "a symbol has changed")
			}
			walk(o.Parent, c.Parent, d+1)
			vAssert(len(o.kids) == len(c.kids), "a list has another length")
			for i := range o.kids {
				walk(o.kids[i], c.kids[i], d+1)
			}
			vAssert(len(o.M) == len(c.M), "a map has another size")
			for k := range o.M {
				walk(o.M[k], c.M[k], d+1)
			}
			walk(o.any, c.any, d+1)
		case []interface{}:
			c, ok := c.([]interface{})
			vAssert(ok && len(o) == len(c), "a list has another length")
			for i := range o {
				walk(o[i], c[i], d+4)
			}
		case map[string]interface{}:
			c, ok := c.(map[string]interface{})
			vAssert(ok && len(o) == len(c), "a map has another size")
			for k := range o {
				walk(o[k], c[k], d+4)
			}
		case *interface{}:
			c, ok := c.(*interface{})
			vAssert(ok, "a pointer is another")
			walk(*o, *c, d+4)
		}
	}
	walk(a, q, 0)
	vAssert(count <= 4, "there are more parts than before")
	if !reached {
		vCover("plain")
	}
	vCover("done")
}

// H_C13_nan qualifies maps with keys that are not equal to themselves.
// bound: maps of NaN, infinities and zero as keys of their own or interface type, to 1..3 entries, each a reference to any of a, b, own, text or nothing
// covers: done
func H_C13_nan() {
	imps := dImports()
	p := cPath()
	s := gopoet.Symbol{Name: "R", Package: gopoet.Package{ImportPath: p, Name: "p"}}
	nan := math.NaN()
	n := 1 + vChoose(3)
	m := map[float64]interface{}{}
	mi := map[interface{}]interface{}{}
	refs, texts, nils := 0, 0, 0
	for i := 0; i < n; i++ {
		k := nan
		if vChoose(2) == 1 {
			k = []float64{0, math.Inf(1), math.Inf(-1)}[i]
		}
		var v interface{}
		switch vChoose(3) {
		case 0:
			v = s
			refs++
		case 1:
			v = "text"
			texts++
		default:
			nils++
		}
		m[k], mi[k] = v, v
	}
	check := func(v interface{}) {
		switch v := v.(type) {
		case nil:
			nils--
		case string:
			vAssert(v == "text", "an entry has changed")
			texts--
		case gopoet.Symbol:
			vAssert(v == c04Want(imps, "o", s), "a reference is not qualified")
			refs--
		}
	}
	if vChoose(2) == 0 {
		q := imps.QualifyTemplateData(m).(map[float64]interface{})
		vAssert(len(q) == n, "entries of a map are lost")
		for _, v := range q {
			check(v)
		}
	} else {
		q := imps.QualifyTemplateData([]interface{}{mi}).([]interface{})[0].(map[interface{}]interface{})
		vAssert(len(q) == n, "entries of a map are lost")
		for _, v := range q {
			check(v)
		}
	}
	vAssert(refs == 0 && texts == 0 && nils == 0, "entries of a map have changed")
	vCover("done")
}

type dShared struct {
	Head dHead
	N    int
	Tail gopoet.Symbol
}
type dHead struct {
	S gopoet.Symbol
	T gopoet.TypeName
}
type dhidden struct {
	S   gopoet.Symbol
	Pkg *gopoet.Package
}
type dOuter struct {
	*dhidden
	dHead
	B *dHead
}

// H_C13_shared qualifies data that has several pointers to one value.
// bound: 2..4 pointers, in a list, map, struct or array, each any of the same struct, the struct that is its first field (at the same address), the symbol first in that, and another part of it; embedded pointers to an unexported struct; the package any of a, b, own
// covers: done embedded
func H_C13_shared() {
	imps := dImports()
	s := gopoet.Symbol{Name: "R", Package: gopoet.Package{ImportPath: cPath(), Name: "p"}}
	u := gopoet.Symbol{Name: "U", Package: gopoet.Package{ImportPath: "b", Name: "p"}}
	v := &dShared{Head: dHead{S: s, T: gopoet.NamedType(u)}, N: 4, Tail: u}
	check := func(x interface{}, k int) {
		want := func(s gopoet.Symbol) gopoet.Symbol { return c04Want(imps, "o", s) }
		switch k {
		case 0:
			y := x.(*dShared)
			vAssert(y.Head.S == want(s) && y.Tail == want(u) && y.N == 4, "a shared struct is not qualified")
			vAssert(y.Head.T.String() == want(u).String(), "a type in a shared struct is not qualified")
		case 1:
			y := x.(*dHead)
			vAssert(y.S == want(s) && y.T.String() == want(u).String(), "a shared part is not qualified")
		case 2:
			vAssert(*x.(*gopoet.Symbol) == want(s), "a shared symbol is not qualified")
		default:
			vAssert(*x.(*gopoet.Symbol) == want(u), "a shared symbol is not qualified")
		}
	}
	ptr := func(k int) interface{} {
		return []interface{}{v, &v.Head, &v.Head.S, &v.Tail}[k]
	}
	if vChoose(3) == 0 {
		p := &gopoet.Package{ImportPath: s.Package.ImportPath, Name: "p"}
		d := dOuter{dhidden: &dhidden{S: s, Pkg: p}, dHead: v.Head, B: &v.Head}
		q := imps.QualifyTemplateData([]dOuter{d, d}).([]dOuter)
		for _, o := range q {
			vAssert(o.dhidden.S == c04Want(imps, "o", s), "a reference in an embedded struct is not qualified")
			vAssert(o.Pkg.Name == c04Want(imps, "o", s).Package.Name, "a package in an embedded struct is not qualified")
			check(&o.dHead, 1)
			check(o.B, 1)
		}
		vAssert(d.dhidden.S == s && d.dHead.S == s, "the data given was altered")
		vCover("embedded")
		return
	}
	n := 2 + vChoose(3)
	ks := make([]int, n)
	for i := range ks {
		if i < 3 {
			ks[i] = vChoose(4)
		}
	}
	switch vChoose(4) {
	case 0:
		var l []interface{}
		for _, k := range ks {
			l = append(l, ptr(k))
		}
		for i, x := range imps.QualifyTemplateData(l).([]interface{}) {
			check(x, ks[i])
		}
	case 1:
		m := map[int]interface{}{}
		for i, k := range ks {
			m[i] = ptr(k)
		}
		q := imps.QualifyTemplateData(m).(map[int]interface{})
		vAssert(len(q) == n, "entries are missing")
		for i, k := range ks {
			check(q[i], k)
		}
	case 2:
		type t struct{ a, B interface{} }
		q := imps.QualifyTemplateData(&t{ptr(ks[0]), ptr(ks[1])}).(*t)
		check(q.a, ks[0])
		check(q.B, ks[1])
	default:
		q := imps.QualifyTemplateData([2]interface{}{ptr(ks[0]), []interface{}{ptr(ks[1])}}).([2]interface{})
		check(q[0], ks[0])
		check(q[1].([]interface{})[0], ks[1])
	}
	vAssert(v.Head.S == s && v.Tail == u, "the data given was altered")
	vCover("done")
}
