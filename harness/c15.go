package main

import (
	"go/types"
	"reflect"
	"strconv"
	"text/template"

	"github.com/jhump/gopoet"
)

// c15Check renders the file and checks that its imports are those its
// references need and that all references are resolved by them.
func c15Check(g *fgen) {
	text := rendered(g.f)
	vObserve("source", text)
	s := parseFile(text)
	q, bound := s.resolve(g.own, g.names)
	s.match(g.want, q)
	used := s.used()
	for _, n := range bound {
		vAssert(used[n], "an import is not used")
		delete(used, n)
	}
	vAssert(len(used) == 0, "a qualifier is used that no import binds")
	for _, r := range g.refs {
		q(r) // imported, unless of the own package
	}
}

// c15Names is one of a few ways for packages to be named: alike, without a
// known name, by their path, or like the numbered aliases of others.
func c15Names(g *fgen) {
	switch vChoose(4) {
	case 1:
		g.pname = func(string) string { return "" }
	case 2:
		g.pname = func(p string) string { return p[len(p)-1:] }
	case 3:
		g.pname = func(p string) string {
			if p == "b" {
				return "p1"
			}
			return "p"
		}
	}
}

// H_C15_elems imports what elements of all kinds refer to.
// bound: each of 28 kinds of elements before or after one of 4 kinds, with named types within; the first two references (four in the thorough tier) to any of a, b, own; packages named in 4 ways
// covers: done
func H_C15_elems() {
	g := newFgen("o")
	fewPaths(g, 2+2*vTier())
	c15Names(g)
	g.tg.kinds = "n"
	k1, k2 := vChoose(fKinds), []int{0, 5, 6, 17}[vChoose(4)]
	if vChoose(2) == 0 {
		k1, k2 = k2, k1
	}
	g.elem(k1)
	g.elem(k2)
	c15Check(g)
	vCover("done")
}

// H_C15_single imports nothing but what a single element refers to.
// bound: each of 28 kinds of elements, with a type of any kind of depth 1 at its first type (in the thorough tier the second to fourth as well); one path for all references, any of a, b, own; packages named in 4 ways
// covers: done
func H_C15_single() {
	g := newFgen("o")
	p := cPath()
	g.path = func() string { return p }
	c15Names(g)
	g.at = 1 + vChoose(1+3*vTier())
	g.elem(vChoose(fKinds))
	vAssume(g.at == 1 || g.types >= g.at)
	c15Check(g)
	vCover("done")
}

// c15Ref adds a reference of the kind to the file in some place and what is
// wanted for it.
func (g *fgen) c15Ref(place, k int) {
	dg := &dgen{path: g.path, name: "p"}
	v := dg.ref(k)
	for _, s := range dSyms(v) {
		if s.Package.ImportPath != "" {
			g.note(s.Package)
			if k != 14 && k != 15 {
				g.ref(s)
			}
		}
	}
	wanted := func(q dMap) string {
		t, ok := c12Want(k, v, q)
		vAssume(ok)
		return t
	}
	n := g.id("x")
	switch place {
	case 0:
		g.f.AddVar(gopoet.NewVar(n).Initialize("use(%v)", v))
		g.add('v', false, wSpec{names: []string{n}, init: func(q dMap) string { return "use(" + wanted(q) + ")" }})
	case 1:
		fn := gopoet.NewFunc(n).Print("use(").Printf("%s", v).Println(")")
		g.f.AddElement(fn)
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: n, body: func(q dMap) string { return "use(" + wanted(q) + ")" }}})
	case 2:
		t := template.Must(template.New("t").Parse("use({{range .}}{{.}}{{end}})"))
		g.f.AddConst(gopoet.NewConst(n).SetInitializer(gopoet.RenderCode(t, []interface{}{v})))
		g.add('c', false, wSpec{names: []string{n}, init: func(q dMap) string { return "use(" + wanted(q) + ")" }})
	case 3:
		t := template.Must(template.New("t").Parse("use({{.a}})"))
		fn := gopoet.NewMethod(gopoet.NewReceiver("r", "T"), n).RenderCode(t, map[string]interface{}{"a": v})
		g.f.AddElement(fn)
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: n, hasRecv: true, recv: "r", recvType: "T", body: func(q dMap) string { return "use(" + wanted(q) + ")" }}})
	}
}

// exprKinds are the kinds of references that have text of their own, and that
// of an expression or type.
var exprKinds = []int{0, 1, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15, 16, 20, 21, 22, 23, 24, 25, 26, 30}

// H_C15_refs imports what code refers to.
// bound: two references of all pairs of 21 kinds in 4 x 4 places (initializers, bodies, templates), quick tier: all kinds with themselves and 3 kinds with all; the packages any of a, b, own
// covers: done
func H_C15_refs() {
	g := newFgen("o")
	g.note(gopoet.Package{ImportPath: "github.com/jhump/gopoet", Name: "gopoet"})
	g.note(gopoet.Package{ImportPath: "reflect", Name: "reflect"})
	k1 := exprKinds[vChoose(len(exprKinds))]
	k2 := exprKinds[vChoose(len(exprKinds))]
	if vTier() == 0 && k1 != k2 && k1 > 4 {
		vAssume(false)
	}
	g.c15Ref(vChoose(4), k1)
	g.c15Ref(vChoose(4), k2)
	c15Check(g)
	vCover("done")
}

// H_C15_many imports many packages of one name.
// bound: 13 packages of one name or without a known name or with names like the aliases of others, referenced in 14 elements, an arbitrary one registered before under the alias of another
// covers: done
func H_C15_many() {
	g := newFgen("o")
	c15Names(g)
	n := 0
	g.path = func() string {
		n++
		if n%13 == 0 {
			return "o"
		}
		return "x/" + string([]byte{"abcdefghijklm"[n%13]})
	}
	g.tg.kinds = "n"
	at := vChoose(13)
	pre := "x/" + string([]byte{"bcdefghijklma"[at]})
	if g.pname == nil {
		g.f.RegisterImport(pre, "p1")
		g.names[pre] = "p1"
		g.blank[pre] = true
	}
	for i := 0; i < 14; i++ {
		g.elem((i*11 + 4) % fKinds)
	}
	delete(g.names, "")
	if g.blank[pre] {
		known := false
		for _, r := range g.refs {
			known = known || r.Package.ImportPath == pre
		}
		vAssume(known)
	}
	c15Check(g)
	vCover("done")
}

// H_C15_paths imports packages with arbitrary paths and no known name.
// bound: two import paths of 1..3 characters legal in paths, referenced as the type of a var and in its initializer, without a known name or with the name q
// covers: done
func H_C15_paths() {
	const set = "ab1./-_~"
	mk := func() string { return vIdent("abz", set, 1+vChoose(3)) }
	p1 := mk()
	p2 := mk()
	name := []string{"", "q"}[vChoose(2)]
	f := gopoet.NewGoFile("x.go", "own/path", "own")
	s1 := gopoet.Symbol{Name: "A", Package: gopoet.Package{ImportPath: p1, Name: name}}
	s2 := gopoet.Symbol{Name: "B", Package: gopoet.Package{ImportPath: p2, Name: name}}
	f.AddVar(gopoet.NewVar("v").SetType(gopoet.NamedType(s1)).Initialize("%s", s2))
	text := rendered(f)
	vObserve("source", text)
	s := parseFile(text)
	same := vPick(p1 == p2)
	n := 2
	if same {
		n = 1
	}
	vAssert(len(s.file.Imports) == n, "the number of imports is another")
	var q1, q2 string
	for _, i := range s.file.Imports {
		p, err := strconv.Unquote(i.Path.Value)
		vAssert(err == nil, "an import path is no string literal")
		q := name
		if i.Name != nil {
			q = i.Name.Name
		}
		vAssert(q != "", "a package without a known name is imported without alias")
		if vPick(p == p1) {
			vAssert(q1 == "", "a package is imported twice")
			q1 = q
		}
		if vPick(p == p2) {
			vAssert(q2 == "", "a package is imported twice")
			q2 = q
		}
	}
	vAssert(q1 != "" && q2 != "", "a package is not imported")
	if !same {
		vAssert(q1 != q2, "two packages have one qualifier")
	}
	v := s.file.Decls[len(s.file.Decls)-1]
	got := fields(s.slice(v.Pos(), v.End()))
	vAssert(got == "var v "+q1+".A = "+q2+".B", "a reference has another qualifier than its import")
	vCover("done")
}

// H_C15_own never imports the own package.
// bound: references to the own package of all 21 kinds in 4 places, the reference naming the package own, p or not at all; own paths of one or two elements and paths that extend it
// covers: done
func H_C15_own() {
	own := []string{"o", "x/own", "x"}[vChoose(3)]
	g := newFgen(own)
	path := []string{own, own, "x/own/sub", "o/own"}[vChoose(4)]
	g.path = func() string { return path }
	g.note(gopoet.Package{ImportPath: "github.com/jhump/gopoet", Name: "gopoet"})
	g.note(gopoet.Package{ImportPath: "reflect", Name: "reflect"})
	k := exprKinds[vChoose(len(exprKinds))]
	g.c15Ref(vChoose(4), k)
	c15Check(g)
	vCover("done")
}

// H_C15_rendered imports again what was rendered before.
// bound: a file of one of 28 kinds of elements, rendered, extended by another kind and rendered again; the packages named in 4 ways
// covers: done
func H_C15_rendered() {
	g := newFgen("o")
	fewPaths(g, 0)
	c15Names(g)
	g.tg.kinds = "n"
	k := vChoose(fKinds)
	g.elem(k)
	c15Check(g)
	g.elem((k*3 + 5) % fKinds)
	c15Check(g)
	vCover("done")
}

// H_C15_converted imports the packages of converted types.
// bound: a go/types or reflect type as the type of a var, field or argument, with its package's name or own path; nested in 4 ways
// covers: done
func H_C15_converted() {
	g := newFgen("o")
	path := cPath()
	var t gopoet.TypeName
	if vChoose(2) == 0 {
		d := newDGo(path, "p")
		var gt types.Type = d.named
		switch vChoose(4) {
		case 1:
			gt = types.NewPointer(gt)
		case 2:
			gt = types.NewMap(types.Typ[types.String], types.NewSlice(gt))
		case 3:
			gt = types.NewChan(types.SendRecv, types.NewArray(gt, 3))
		}
		t = gopoet.TypeNameForGoType(gt)
	} else {
		t = gopoet.TypeNameForReflectType([]reflect.Type{reflect.TypeOf(gopoet.Symbol{}), reflect.TypeOf([]*reflect.StructField{}), reflect.TypeOf(map[gopoet.Package]reflect.Kind{}), reflect.TypeOf((func(reflect.Value, ...gopoet.Symbol) error)(nil))}[vChoose(4)])
	}
	for _, s := range symsOf(t) {
		if p := s.Package; p.ImportPath != "" {
			n := p.Name
			if p.ImportPath == "reflect" {
				n = "reflect"
			}
			g.note(gopoet.Package{ImportPath: p.ImportPath, Name: n})
			g.ref(s)
		}
	}
	switch vChoose(3) {
	case 0:
		g.f.AddVar(gopoet.NewVar("v").SetType(t))
		g.add('v', false, wSpec{names: []string{"v"}, typ: t})
	case 1:
		g.f.AddType(gopoet.NewStructTypeSpec("S", gopoet.NewField("f", t)))
		g.add('t', false, wSpec{names: []string{"S"}, typ: wStruct{{"f", t, ""}}})
	case 2:
		fn := gopoet.NewFunc("f").AddArg("", t)
		g.f.AddElement(fn)
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: "f", sig: fn.Signature}})
	}
	c15Check(g)
	vCover("done")
}

// H_C15_near refers to packages whose paths resemble that of the file's own.
// bound: each of 28 kinds of elements in a file of the package x/io or io, all references to one package of any of 12 paths that extend, shorten, or otherwise resemble these; packages named or not, or named like the file's; its path the canonical import path of the file or not
// covers: done
func H_C15_near() {
	g := newFgen([]string{"x/io", "io"}[vChoose(2)])
	near := []string{"io", "x", "x/", "x/io/y", "y/x/io", "X/io", "x/i", "x/io2", "x/Io", "vendor/x/io", "i", "x/io"}
	p := near[vChoose(len(near))]
	g.path = func() string { return p }
	name := []string{"", "p", "own"}[vChoose(3)]
	vAssume(name != "" || p != "x/" && p != "x/Io")
	if vChoose(2) == 1 {
		g.f.CanonicalImportPath = p
	}
	g.pname = func(string) string { return name }
	g.tg.kinds = "n"
	g.elem(vChoose(fKinds))
	c15Check(g)
	vCover("done")
}

// H_C15_manual imports packages that are registered by hand, and refers to them in text.
// bound: two packages of any of 5 paths and 3 names each registered in any of 5 ways, before a third is referenced through the model; the text of a function written with the qualifiers reported; rendered twice
// covers: done
func H_C15_manual() {
	g := newFgen("x/own")
	paths := []string{"a", "x/a", "x/b", "v2", "x/own"}
	names := []string{"a", "", "own"}
	var q [2]string
	var ps [2]gopoet.Package
	for i := range ps {
		p := gopoet.Package{ImportPath: paths[vChoose(5)], Name: names[vChoose(3)]}
		ps[i] = p
		s := gopoet.Symbol{Name: "S", Package: p}
		sig := (&gopoet.Signature{}).AddArg("", gopoet.SliceType(gopoet.NamedType(s)))
		g.note(p)
		switch vChoose(5) {
		case 0:
			q[i] = trimDot(g.f.RegisterImport(p.ImportPath, p.Name))
		case 1:
			q[i] = trimDot(g.f.RegisterImportForPackage(p))
		case 2:
			q[i] = g.f.EnsureImported(s).Package.Name
		case 3:
			q[i] = symsOf(g.f.EnsureTypeImported(gopoet.PointerType(gopoet.NamedType(s))))[0].Package.Name
		case 4:
			g.f.EnsureAllTypesImported(sig)
			q[i] = trimDot(g.f.PrefixForPackage(p.ImportPath))
		}
	}
	g.path = func() string { return "x/a" }
	g.note(gopoet.Package{ImportPath: "x/a", Name: "p"})
	g.f.AddElement(gopoet.NewFunc("F").AddArg("x", g.leaf()))
	g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: "F", sig: gopoet.Signature{Args: []gopoet.ArgType{{Name: "x", Type: gopoet.NamedType(g.refs[0])}}}}})
	one := rendered(g.f)
	vObserve("source", one)
	s := parseFile(one)
	to, bound := s.resolve(g.own, g.names)
	s.match(g.want, to)
	n := map[string]bool{"x/a": true}
	for i, p := range ps {
		if p.ImportPath == "x/own" {
			vAssert(q[i] == "", "the file's own package has a qualifier")
			continue
		}
		n[p.ImportPath] = true
		vAssert(to(gopoet.Symbol{Name: "S", Package: p}).Package.Name == q[i], "a package registered by hand is not imported under its qualifier")
	}
	vAssert(len(bound) == len(n), "another package is imported than those registered and referenced")
	vAssert(rendered(g.f) == one, "the imports change when the file is rendered again")
	vCover("done")
}
