package main

import (
	"go/ast"
	"strconv"
	"strings"

	"github.com/jhump/gopoet"
)

// c14Check renders the file and checks it.
func c14Check(g *fgen) *source {
	text := rendered(g.f)
	vObserve("source", text)
	s := parseFile(text)
	vAssert(s.file.Name.Name == g.f.PackageName, "the package clause names another package")
	q, _ := s.resolve(g.own, g.names)
	s.match(g.want, q)
	return s
}

// fewPaths lets the first k references go anywhere.
func fewPaths(g *fgen, k int) {
	n := 0
	g.path = func() string {
		n++
		if n <= k {
			return cPath()
		}
		return "abo"[n%3 : n%3+1]
	}
}

// H_C14_elems declares elements of all kinds.
// bound: all pairs of 28 kinds of elements, with named types within; the first two references (in the thorough tier four) to any of a, b, own, all proposing one name
// covers: done
func H_C14_elems() {
	g := newFgen("o")
	fewPaths(g, 2+2*vTier())
	g.tg.kinds = "n"
	k1, k2 := vChoose(fKinds), vChoose(fKinds)
	g.elem(k1)
	g.elem(k2)
	c14Check(g)
	vCover("done")
}

// H_C14_triples declares three elements of all kinds.
// bound: all triples of 28 kinds of elements, with named types within; references to a, b, own in turn
// covers: done
// tier: thorough
func H_C14_triples() {
	g := newFgen("o")
	fewPaths(g, 0)
	g.tg.kinds = "n"
	k1, k2, k3 := vChoose(fKinds), vChoose(fKinds), vChoose(fKinds)
	g.elem(k1)
	g.elem(k2)
	g.elem(k3)
	c14Check(g)
	vCover("done")
}

// H_C14_types declares elements with types of all kinds within.
// bound: each of 28 kinds of elements with its first, second, third or fourth type any type of depth 1 (2 in the thorough tier); references to a, b, own in turn
// covers: done
func H_C14_types() {
	g := newFgen("o")
	fewPaths(g, 0)
	g.at = 1 + vChoose(4)
	g.depth = 1 + vTier()
	k := vChoose(fKinds)
	g.elem(k)
	vAssume(g.types >= g.at)
	c14Check(g)
	vCover("done")
}

// H_C14_long declares many elements in order.
// bound: files of 30 elements, in 28 different orders of kinds, named types within, references to a, b, own in turn
// covers: done
func H_C14_long() {
	g := newFgen("o")
	fewPaths(g, 0)
	g.tg.kinds = "n"
	k := vChoose(fKinds)
	for i := 0; i < 30; i++ {
		k = (k*5 + i) % fKinds
		g.elem(k)
	}
	vAssert(g.f.NumElements() == len(g.want), "elements are missing from the file")
	c14Check(g)
	vCover("done")
}

// H_C14_deep nests unnamed structs and interfaces.
// bound: a type or var with unnamed structs nested 1..5 deep, each with 6 fields
// covers: done
func H_C14_deep() {
	g := newFgen("o")
	fewPaths(g, 0)
	g.tg.kinds = "n"
	d := 1 + vChoose(5)
	n := g.id("X")
	switch vChoose(3) {
	case 0:
		s, w := g.structSpec(n, d)
		g.f.AddType(s)
		g.add('t', false, wSpec{names: []string{n}, typ: w})
	case 1:
		s, w := g.structSpec("", d)
		g.f.AddVar(gopoet.NewVar(n).SetType(s))
		g.add('v', false, wSpec{names: []string{n}, typ: w})
	case 2:
		s, w := g.structSpec("", d)
		g.f.AddType(gopoet.NewTypeAlias(n, gopoet.NewTypeSpec("", s)))
		g.add('t', false, wSpec{names: []string{n}, typ: w, alias: true})
	}
	c14Check(g)
	vCover("done")
}

// H_C14_names declares elements under arbitrary names.
// bound: a name of 1 or 2 letters (upper case, then upper case or digit) in any of 12 places (const, var, type, field, method, embedded type, argument, result, receiver and its type, function, package)
// covers: done
func H_C14_names() {
	at := vChoose(12)
	i := 0
	name := func(def string) string {
		i++
		if i-1 == at {
			return vIdent(upper, upper+digits, 1+vChoose(2))
		}
		return def
	}
	g := newFgen("o")
	f := g.f
	f.PackageName = name("own")
	c, v, t, fld, m, e := name("c1"), name("v1"), name("t1"), name("f1"), name("m1"), name("e1")
	a, r, rc, rt, fn := name("a1"), name("r1"), name("rc"), name("rt"), name("fn")
	f.AddConst(gopoet.NewConst(c).Initialize("1"))
	g.add('c', false, wSpec{names: []string{c}, init: str("1")})
	own := gopoet.NamedType(gopoet.Symbol{Name: e, Package: f.Package()})
	f.AddVar(gopoet.NewVar(v).SetType(own))
	g.add('v', false, wSpec{names: []string{v}, typ: own})
	im := gopoet.NewInterfaceMethod(m).AddArg(a, own).AddResult(r, gopoet.IntType)
	f.AddElement(gopoet.NewTypeDecl(gopoet.NewStructTypeSpec(t, gopoet.NewField(fld, own), gopoet.NewField("", own)), gopoet.NewInterfaceTypeSpec("i", im, gopoet.NewInterfaceEmbed(own.Symbol()))))
	g.add('t', true, wSpec{names: []string{t}, typ: wStruct{{fld, own, ""}, {"", own, ""}}}, wSpec{names: []string{"i"}, typ: wIface{{method: m, sig: im.Signature}, {embed: own.Symbol()}}})
	fs := gopoet.NewMethod(gopoet.NewPointerReceiver(rc, rt), fn).AddArg(a, gopoet.IntType).AddResult(r, own).Println("return")
	f.AddElement(fs)
	g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: fn, hasRecv: true, recv: rc, recvType: rt, ptr: true, sig: fs.Signature, body: str("return")}})
	c14Check(g)
	vCover("done")
}

// H_C14_odd declares elements with names out of the ordinary.
// bound: 7 groups of elements of all kinds, any one of their 4..7 names (arguments, results, receivers, fields and the like among them) any of _, err, int, p, own, init, ctx, none, or that of the type referred to; the first reference any of a, b, own
// covers: done
func H_C14_odd() {
	g := newFgen("o")
	fewPaths(g, 1+vTier())
	g.tg.kinds = "n"
	g.odd()
	c14Check(g)
	vCover("done")
}

// H_C14_empty declares groups without entries.
// bound: 3 kinds of groups, with or without a comment, at any of 3 places among 2 other elements of 28 kinds; new, emptied or alone
// covers: done
func H_C14_empty() {
	g := newFgen("o")
	fewPaths(g, 0)
	g.tg.kinds = "n"
	at, k, how := vChoose(3), vChoose(3), vChoose(3)
	comment := []string{"", "text"}[vChoose(2)]
	other := vChoose(fKinds)
	vAssume(how != 2 || other == 0)
	for i := 0; i < 3; i++ {
		if i == at {
			var e gopoet.FileElement
			switch k {
			case 0:
				d := gopoet.NewConstDecl().SetComment(comment)
				if how == 1 {
					d.AddConst(gopoet.NewConst("gone"))
					d.Consts = d.Consts[:0]
				}
				e = d
			case 1:
				d := gopoet.NewVarDecl().SetComment(comment)
				if how == 1 {
					d.AddVar(gopoet.NewVar("gone"))
					d.Vars = nil
				}
				e = d
			default:
				d := gopoet.NewTypeDecl().SetComment(comment)
				if how == 1 {
					d.AddType(gopoet.NewTypeSpec("gone", gopoet.IntType))
					d.Types = d.Types[1:]
				}
				e = d
			}
			g.f.AddElement(e)
			g.add("cvt"[k], true)
			continue
		}
		if how != 2 {
			g.elem(other)
		}
	}
	c14Check(g)
	vCover("done")
}

// H_C14_literals keeps literals in initializers and bodies.
// bound: a raw string of up to 5 arbitrary ASCII characters other than the backquote and carriage return, in the initializer of a const or var or in the body of a function
// covers: done
func H_C14_literals() {
	f := gopoet.NewGoFile("x.go", "o", "own")
	set := "\t\n"
	for c := byte(' '); c < 0x7f; c++ {
		if c != '`' {
			set += string([]byte{c})
		}
	}
	n := vChoose(6)
	b := make([]byte, n)
	for i := range b {
		b[i] = vByteIn(set)
	}
	lit := string(b)
	k := vChoose(4)
	switch k {
	case 0:
		f.AddConst(gopoet.NewConst("c").Initialize("`%s`", lit))
	case 1:
		f.AddVar(gopoet.NewVar("v").SetType(gopoet.StringType).SetInitializer(gopoet.Print("`").Print(lit).Print("`")))
	case 2:
		f.AddElement(gopoet.NewFunc("f").Println("use(`" + lit + "`)"))
	case 3:
		f.AddElement(gopoet.NewConstDecl(gopoet.NewConst("a").Initialize("1"), gopoet.NewConst("b").Initialize("%s", "`"+lit+"`")))
	}
	s := parseFile(rendered(f))
	var got []string
	ast.Inspect(s.file, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok && l.Value[0] == '`' {
			got = append(got, l.Value)
		}
		return true
	})
	vAssert(len(got) == 1, "the literal is lost")
	vObserve("literal", got[0])
	vAssert(vEqStr(got[0], "`"+lit+"`"), "the literal is another")
	vCover("done")
}

// H_C14_clause writes the package clause.
// bound: package names of 1..2 lower-case letters or digits, canonical import paths of up to 3 characters of the kinds legal in paths, or none; with and without elements and imports
// covers: done
func H_C14_clause() {
	name := "own"
	canon := ""
	if vChoose(2) == 0 {
		name = "p" + vIdent(lower+digits, "", 1)
	} else {
		canon = vStr("ab/.-~_1A", vChoose(4))
	}
	f := gopoet.NewGoFile("x.go", "o", name)
	f.CanonicalImportPath = canon
	n := vChoose(3)
	if n > 0 {
		f.RegisterImport("a/b", "b")
	}
	if n > 1 {
		f.AddVar(gopoet.NewVar("v").SetType(gopoet.IntType))
	}
	text := rendered(f)
	vObserve("source", text)
	s := parseFile(text)
	vAssert(s.file.Name.Name == name, "the package clause names another package")
	line := s.text[s.fset.Position(s.file.Package).Offset:]
	line = line[:strings.IndexByte(line, '\n')]
	want := "package " + name
	if canon != "" {
		want += " // import " + strconv.Quote(canon)
	}
	vAssert(line == want, "the package clause or its canonical import comment is another")
	decls := n
	if n == 2 {
		decls = 2
	}
	vAssert(len(s.file.Decls) == decls, "the file declares something else")
	vCover("done")
}

// H_C14_specs refers to declared types in every place.
// bound: a declared type of this file, of another file of the package or of another package, with 3 names of the package, as the type of a const, var or field, as underlying, aliased, embedded or receiver type, added before or after its use
// covers: done
func H_C14_specs() {
	g := newFgen("o")
	ts := gopoet.NewStructTypeSpec("Decl", gopoet.NewField("A", gopoet.IntType))
	dw := wSpec{names: []string{"Decl"}, typ: wStruct{{"A", gopoet.IntType, ""}}}
	where := vChoose(5)
	switch where {
	case 0:
		g.f.AddType(ts)
		g.add('t', false, dw)
	case 1: // added later
	case 2:
		gopoet.NewGoFile("y.go", "o", "own").AddType(ts)
	case 3:
		gopoet.NewGoFile("y.go", "d/e", "p").AddType(ts)
		g.names["d/e"] = "p"
	case 4:
		gopoet.NewGoFile("y.go", "d/e", "int").AddElement(gopoet.NewTypeDecl(gopoet.NewTypeSpec("X", gopoet.IntType), ts))
		g.names["d/e"] = "int"
		if vChoose(2) == 0 {
			g.names["a"] = "int"
			g.f.RegisterImport("a", "int")
		}
	}
	sym := gopoet.Symbol{Name: "Decl", Package: gopoet.Package{ImportPath: "o", Name: "own"}}
	if where > 2 {
		sym.Package = gopoet.Package{ImportPath: "d/e", Name: g.names["d/e"]}
	}
	t := gopoet.NamedType(sym)
	k := vChoose(8)
	switch k {
	case 0:
		g.f.AddConst(gopoet.NewConst("c").SetType(ts).Initialize("x"))
		g.add('c', false, wSpec{names: []string{"c"}, typ: t, init: str("x")})
	case 1:
		g.f.AddVar(gopoet.NewVar("v").SetType(ts))
		g.add('v', false, wSpec{names: []string{"v"}, typ: t})
	case 2:
		if where == 1 {
			vAssume(false)
		}
		g.f.AddType(gopoet.NewStructTypeSpec("S", gopoet.NewField("f", ts), gopoet.NewField("", ts).SetTag("t")))
		g.add('t', false, wSpec{names: []string{"S"}, typ: wStruct{{"f", t, ""}, {"", t, "t"}}})
	case 3:
		if where == 1 {
			vAssume(false)
		}
		g.f.AddType(gopoet.NewTypeSpec("S", ts))
		g.add('t', false, wSpec{names: []string{"S"}, typ: t})
	case 4:
		if where == 1 {
			vAssume(false)
		}
		g.f.AddType(gopoet.NewTypeAlias("S", ts))
		g.add('t', false, wSpec{names: []string{"S"}, typ: t, alias: true})
	case 5:
		ptr := vChoose(2) == 0
		r := gopoet.NewReceiverForType("r", ts)
		if ptr {
			r = gopoet.NewPointerReceiverForType("r", ts)
		}
		g.f.AddElement(gopoet.NewMethod(r, "M"))
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: "M", hasRecv: true, recv: "r", recvType: "Decl", ptr: ptr}})
	case 6:
		if where == 1 {
			vAssume(false)
		}
		pt := gopoet.MapType(gopoet.StringType, gopoet.PointerType(ts.ToTypeName()))
		fn := gopoet.NewFunc("F").AddArg("", pt)
		g.f.AddElement(fn)
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: "F", sig: fn.Signature}})
	case 7:
		g.f.AddVar(gopoet.NewVar("v").Initialize("%s{}", ts))
		g.add('v', false, wSpec{names: []string{"v"}, init: func(q dMap) string { return q(sym).String() + "{}" }})
	}
	if where == 1 {
		g.f.AddType(ts)
		g.want = append(g.want, wDecl{kind: 't', specs: []wSpec{dw}})
	}
	c14Check(g)
	vCover("done")
}

// H_C14_values declares consts and vars with every combination of what they can have.
// bound: a const or var with 1..3 names or blank ones, with no type, a type, a declared type or an unnamed struct, with no initializer, one in one piece or one in two, with a comment or not; by itself, or alone in a declaration, or before or after another in a group; the declaration with a comment or not
// covers: done
func H_C14_values() {
	g := newFgen("o")
	fewPaths(g, 0)
	g.tg.kinds = "n"
	isVar := vChoose(2) == 1
	names := [][]string{{"A"}, {"A", "B"}, {"A", "B", "C"}, {"_"}, {"_", "_"}, {"A", "_"}}[vChoose(6)]
	w := wSpec{names: names}
	var typ gopoet.TypeNameOrSpec
	switch vChoose(4) {
	case 1:
		t := gopoet.MapType(g.leaf(), g.leaf())
		typ, w.typ = t, t
	case 2:
		o := g.other()
		typ, w.typ = o, o.ToTypeName()
	case 3:
		typ, w.typ = g.structSpec("", 0)
	}
	var init *gopoet.CodeBlock
	s := g.sym()
	text := func(q dMap) string {
		return strings.Repeat(q(s).String()+"(1), ", len(names)-1) + q(s).String() + "(2)"
	}
	switch vChoose(3) {
	case 1:
		init = &gopoet.CodeBlock{}
		for i := 1; i < len(names); i++ {
			init.Printf("%s(1), ", s)
		}
		init.Printf("%s(%d)", s, 2)
		w.init = text
	case 2:
		args := []interface{}{}
		for range names {
			args = append(args, s)
		}
		init = gopoet.Printf(strings.Repeat("%v(1), ", len(names)-1)+"%v(2)", args...)
		w.init = text
	}
	if w.typ == nil && w.init == nil {
		vAssume(!isVar) // a var needs one of them
	}
	comment := []string{"", "Says this.", "One.\n\nTwo."}[vChoose(3)]
	how, gcom := vChoose(4), ""
	if how > 0 && vChoose(2) == 1 {
		gcom = "About the group."
	}
	other := wSpec{names: []string{"Other"}, init: str("5")}
	specs := []wSpec{w}
	switch how {
	case 2:
		specs = []wSpec{w, other}
	case 3:
		specs = []wSpec{other, w}
	}
	if isVar {
		v := gopoet.NewVar(names...).SetComment(comment).SetInitializer(init)
		if typ != nil {
			v.SetType(typ)
		}
		switch how {
		case 0:
			g.f.AddVar(v)
		case 1:
			g.f.AddElement(gopoet.NewVarDecl(v).SetComment(gcom))
		case 2:
			g.f.AddElement(gopoet.NewVarDecl(v, gopoet.NewVar("Other").Initialize("5")).SetComment(gcom))
		case 3:
			g.f.AddElement(gopoet.NewVarDecl(gopoet.NewVar("Other").Initialize("5")).AddVar(v).SetComment(gcom))
		}
		g.add('v', how > 1 || gcom != "", specs...)
	} else {
		if how != 3 && (typ != nil || init == nil) {
			vAssume(init != nil) // only a const after another can do without
		}
		vAssume(typ == nil || init != nil)
		c := gopoet.NewConst(names...).SetComment(comment).SetInitializer(init)
		if typ != nil {
			c.SetType(typ)
		}
		if how == 3 && init == nil {
			vAssume(len(names) == 1)
		}
		switch how {
		case 0:
			g.f.AddConst(c)
		case 1:
			g.f.AddElement(gopoet.NewConstDecl(c).SetComment(gcom))
		case 2:
			g.f.AddElement(gopoet.NewConstDecl(c, gopoet.NewConst("Other").Initialize("5")).SetComment(gcom))
		case 3:
			g.f.AddElement(gopoet.NewConstDecl(gopoet.NewConst("Other").Initialize("5")).AddConst(c).SetComment(gcom))
		}
		g.add('c', how > 1 || gcom != "", specs...)
	}
	c14Check(g)
	vCover("done")
}

// H_C14_typedecls declares types with every combination of what they can have.
// bound: a defined type, alias, struct or interface, or one declared from an unnamed spec or a declared one, with a comment or not; the fields with no, one-line or longer comments, embedded or not, with or without tags, interface methods and embeds with comments; by itself, alone in a declaration, before or after another in a group; the declaration with a comment or not
// covers: done
func H_C14_typedecls() {
	g := newFgen("o")
	fewPaths(g, 0)
	g.tg.kinds = "n"
	w := wSpec{names: []string{"T"}}
	com := func() string { return []string{"", "Says this.", "One.\n\nTwo."}[vChoose(3)] }
	mkStruct := func(name string) *gopoet.TypeSpec {
		n := vChoose(4)
		var fs []*gopoet.FieldSpec
		ws := wStruct{}
		for i := 0; i < n; i++ {
			f := wField{}
			if i != 1 {
				f.name = g.id("F")
			}
			f.tag = []string{"", "x\"y"}[(i+n)%2]
			t := g.leaf()
			f.typ = t
			fs = append(fs, gopoet.NewField(f.name, t).SetTag(f.tag))
			ws = append(ws, f)
		}
		if n > 0 {
			fs[n-1].SetComment(com())
		}
		if n > 1 {
			fs[0].SetComment(com())
		}
		w.typ = ws
		return gopoet.NewStructTypeSpec(name, fs...)
	}
	mkIface := func(name string) *gopoet.TypeSpec {
		n := vChoose(4)
		var es []gopoet.InterfaceElement
		wi := wIface{}
		for i := 0; i < n; i++ {
			if i == 1 {
				s := g.sym()
				es, wi = append(es, gopoet.NewInterfaceEmbed(s).SetComment(com())), append(wi, wElem{embed: s})
				continue
			}
			m := gopoet.NewInterfaceMethod(g.id("M"))
			m.AddArg("", g.leaf())
			if i == 0 {
				m.SetComment(com())
			}
			es, wi = append(es, m), append(wi, wElem{method: m.Name, sig: m.Signature})
		}
		w.typ = wi
		return gopoet.NewInterfaceTypeSpec(name, es...)
	}
	var ts *gopoet.TypeSpec
	switch k := vChoose(7); k {
	case 0:
		t := gopoet.SliceType(g.leaf())
		ts, w.typ = gopoet.NewTypeSpec("T", t), t
	case 1:
		t := gopoet.PointerType(g.leaf())
		ts, w.typ, w.alias = gopoet.NewTypeAlias("T", t), t, true
	case 2:
		ts = mkStruct("T")
	case 3:
		ts = mkIface("T")
	case 4:
		ts = gopoet.NewTypeSpec("T", mkStruct(""))
	case 5:
		ts, w.alias = gopoet.NewTypeAlias("T", mkIface("")), true
	case 6:
		o := g.other()
		ts, w.typ = gopoet.NewTypeSpec("T", o), o.ToTypeName()
		if vChoose(2) == 1 {
			ts, w.alias = gopoet.NewTypeAlias("T", o), true
		}
	}
	ts.SetComment(com())
	how, gcom := vChoose(4), ""
	if how > 0 && vChoose(2) == 1 {
		gcom = "About the group."
	}
	other, ow := gopoet.NewTypeSpec("Other", gopoet.IntType), wSpec{names: []string{"Other"}, typ: gopoet.IntType}
	switch how {
	case 0:
		g.f.AddType(ts)
		g.add('t', false, w)
	case 1:
		g.f.AddElement(gopoet.NewTypeDecl(ts).SetComment(gcom))
		g.add('t', gcom != "", w)
	case 2:
		g.f.AddElement(gopoet.NewTypeDecl(ts, other).SetComment(gcom))
		g.add('t', true, w, ow)
	case 3:
		g.f.AddElement(gopoet.NewTypeDecl(other).AddType(ts).SetComment(gcom))
		g.add('t', true, ow, w)
	}
	c14Check(g)
	vCover("done")
}

// H_C14_funcdecls declares functions and methods with every combination of what they can have.
// bound: a function, or a method with a value or pointer receiver, named or not, of a type given by name, by reference or as a spec; 0..2 arguments and 0..2 results, named or not, variadic or not; an empty body, one statement or several lines; a comment or not
// covers: done
func H_C14_funcdecls() {
	g := newFgen("o")
	fewPaths(g, 0)
	g.tg.kinds = "n"
	w := &wFunc{name: "Fn"}
	fn := gopoet.NewFunc("Fn")
	if k := vChoose(7); k > 0 {
		w.hasRecv, w.recvType, w.ptr = true, "Recv", k%2 == 0
		w.recv = []string{"", "r", "_"}[vChoose(3)]
		var r *gopoet.ReceiverSpec
		var t gopoet.TypeNameOrSpec = gopoet.NamedType(gopoet.Symbol{Name: "Recv"})
		if k > 4 {
			t = gopoet.NewTypeSpec("Recv", gopoet.IntType)
		}
		switch {
		case k == 1:
			r = gopoet.NewReceiver(w.recv, "Recv")
		case k == 2:
			r = gopoet.NewPointerReceiver(w.recv, "Recv")
		case w.ptr:
			r = gopoet.NewPointerReceiverForType(w.recv, t)
		default:
			r = gopoet.NewReceiverForType(w.recv, t)
		}
		fn = gopoet.NewMethod(r, "Fn")
	}
	named := vChoose(2) == 1
	nm := func(s string) string {
		if named {
			return s
		}
		return ""
	}
	na, nr := vChoose(3), vChoose(3)
	for i := 0; i < na; i++ {
		t := g.leaf()
		if i == na-1 {
			t = gopoet.SliceType(t)
		}
		fn.AddArg(nm([]string{"a", "b"}[i]), t)
	}
	named = vChoose(2) == 1
	for i := 0; i < nr; i++ {
		fn.AddResult(nm([]string{"x", "y"}[i]), g.leaf())
	}
	if na > 0 && vChoose(2) == 1 {
		fn.SetVariadic(true)
	}
	w.sig = fn.Signature
	switch vChoose(3) {
	case 1:
		s := g.sym()
		fn.Printf("return %s", s)
		w.body = func(q dMap) string { return "return " + q(s).String() }
	case 2:
		s := g.sym()
		fn.Println("for {").Printlnf("%s()", s).Println("}")
		w.body = func(q dMap) string { return "for { " + q(s).String() + "() }" }
	}
	fn.SetComment([]string{"", "Fn does this.", "Fn.\n\nTwo."}[(na+nr)%3])
	g.f.AddElement(fn)
	g.want = append(g.want, wDecl{kind: 'f', fn: w})
	c14Check(g)
	vCover("done")
}
