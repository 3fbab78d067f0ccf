package main

import (
	"bytes"
	"errors"
	"strconv"
	"text/template"

	"github.com/jhump/gopoet"
)

// c22Type is what a type or spec says about itself.
func c22Type(t gopoet.TypeNameOrSpec) string {
	switch t := t.(type) {
	case nil:
		return "none"
	case *gopoet.TypeSpec:
		return c22Spec(t)
	case gopoet.TypeName:
		return dump(t) + t.String()
	}
	return "?"
}

// c22Spec is what a declared type says about itself.
func c22Spec(t *gopoet.TypeSpec) string {
	if t == nil {
		return "nil"
	}
	s := "type " + t.Name + "/" + t.Comment + "/" + strconv.FormatBool(t.IsAlias()) + dump(t.Underlying()) + t.String()
	if !panics(func() { s += dumpSym(t.ToSymbol()) }) {
		s += "!"
	}
	if !panics(func() { s += dump(t.ToTypeName()) }) {
		s += "!"
	}
	return s + "\n"
}

func c22Value(names []string, comment string, t gopoet.TypeNameOrSpec, at func(int) gopoet.Symbol, text string) string {
	s := "value " + comment + "/" + text
	for i, n := range names {
		s += "," + n
		if !panics(func() { s += dumpSym(at(i)) }) {
			s += "!"
		}
	}
	return s + c22Type(t) + "\n"
}

func c22Func(f *gopoet.FuncSpec) string {
	s := "func " + f.Name + "/" + f.Comment + "/" + f.String() + dumpSig(&f.Signature)
	if r := f.Receiver; r != nil {
		s += "recv " + r.Name + "/" + r.Type + strconv.FormatBool(r.IsPointer)
	}
	if !panics(func() { s += dump(f.ToTypeName()) }) {
		s += "!"
	}
	if !panics(func() { s += dText(f.ToSymbol(), dSame) }) {
		s += "!"
	}
	return s + "\n"
}

// c22Snap is everything that can be read of the file's model, and the parts it
// is made of.
func c22Snap(f *gopoet.GoFile) (string, []interface{}) {
	var parts []interface{}
	s := f.Name + "/" + f.FileComment + "/" + f.PackageComment + "/" + f.PackageName + "/" + f.CanonicalImportPath + "/" + f.Package().ImportPath + "|" + f.Package().Name
	for i := 0; i < f.NumElements(); i++ {
		parts = append(parts, f.ElementAt(i))
		switch e := f.ElementAt(i).(type) {
		case *gopoet.ConstDecl:
			s += "\nconst " + e.Comment
			for _, c := range e.Consts {
				parts = append(parts, c, c.Initializer)
				s += c22Value(c.Names, c.Comment, c.Type, c.SymbolAt, c.String())
			}
		case *gopoet.VarDecl:
			s += "\nvar " + e.Comment
			for _, v := range e.Vars {
				parts = append(parts, v, v.Initializer)
				s += c22Value(v.Names, v.Comment, v.Type, v.SymbolAt, v.String())
			}
		case *gopoet.TypeDecl:
			s += "\ntype " + e.Comment
			for _, t := range e.Types {
				parts = append(parts, t)
				s += c22Spec(t)
			}
		case *gopoet.FuncSpec:
			parts = append(parts, e.Receiver)
			s += c22Func(e)
		default:
			s += "\n?"
		}
	}
	return s, parts
}

// c22Parts is everything that can be read of fields and interface elements.
func c22Parts(fs []*gopoet.FieldSpec, es []gopoet.InterfaceElement) string {
	s := ""
	for _, f := range fs {
		s += "field " + f.Name + "/" + f.Comment + "/" + string(f.Tag) + "/" + f.String() + c22Type(f.Type) + "\n"
	}
	for _, e := range es {
		switch e := e.(type) {
		case *gopoet.InterfaceEmbed:
			s += "embed " + e.Comment + dumpSym(e.Type) + e.String() + "\n"
		case *gopoet.InterfaceMethod:
			s += "method " + e.Name + "/" + e.Comment + dumpSig(&e.Signature) + e.String()
			if !panics(func() { s += dump(e.ToTypeName()) }) {
				s += "!"
			}
			if !panics(func() { s += dText(e.ToMethodRef(), dSame) }) {
				s += "!"
			}
			s += "\n"
		}
	}
	return s
}

// c22Imports checks that what the file imported before is imported alike.
func c22Imports(had, have []gopoet.ImportSpec) {
	i := 0
	for _, s := range have {
		if i < len(had) && had[i].ImportPath == s.ImportPath {
			vAssert(had[i] == s, "rendering changes the alias of a package")
			i++
		}
	}
	vAssert(i == len(had), "rendering takes a package from the imports")
}

// c22Same renders the file and checks that its model stays as it was.
func c22Same(g *fgen, render func()) {
	had := g.f.ImportSpecs()
	s1, p1 := c22Snap(g.f)
	e1 := c22Parts(g.fspecs, g.elems)
	render()
	s2, p2 := c22Snap(g.f)
	vObserve("model", s1)
	vAssert(len(p1) == len(p2), "rendering adds elements to the model or takes them from it")
	for i := range p1 {
		vAssert(p1[i] == p2[i], "rendering replaces an element of the model")
	}
	vAssert(s1 == s2, "rendering changes the model")
	vAssert(c22Parts(g.fspecs, g.elems) == e1, "rendering changes fields or interface elements of the model")
	c22Imports(had, g.f.ImportSpecs())
}

// c22Pre is one of a few states of the imports.
func c22Pre(f *gopoet.GoFile) {
	switch vChoose(3) {
	case 1:
		f.RegisterImport("a", "q")
	case 2:
		f.RegisterImport("x", "p")
		f.RegisterImport("b", "")
	}
}

// H_C22_odd keeps elements with names out of the ordinary.
// bound: 7 groups of elements of all kinds, any one of their 4..7 names (arguments, results, receivers, fields and the like among them) any of _, err, int, p, own, init, ctx, none, or that of the type referred to; three states of the file's imports
// covers: done
func H_C22_odd() {
	g := newFgen("o")
	fewPaths(g, vTier())
	g.tg.kinds = "n"
	c22Pre(g.f)
	g.odd()
	c22Same(g, func() { rendered(g.f) })
	vCover("done")
}

// H_C22_elems reads elements of all kinds before and after rendering them.
// bound: each of 28 kinds of elements, in the thorough tier also after one of 3 kinds, with a type of any kind of depth 1 at its first type; the first reference to any of a, b, own (the first three in the thorough tier), the others to b; three states of the file's imports; comments on all parts
// covers: done
func H_C22_elems() {
	g := newFgen("o")
	fewPaths(g, 1+2*vTier())
	g.at = 1
	c22Pre(g.f)
	if k := vChoose(1 + 3*vTier()); k > 0 {
		g.elem([]int{13, 2, 19}[k-1])
		g.at = g.types + 1
	}
	g.elem(vChoose(fKinds))
	for _, f := range g.fspecs {
		f.SetComment("field")
	}
	c22Same(g, func() { rendered(g.f) })
	vCover("done")
}

// H_C22_comments keeps comments as they are.
// bound: any of 12 texts that are empty, blank, or begin or end with blanks, line breaks or comment markers, or an arbitrary byte, at any of 41 places, with comments at all others
// covers: done
func H_C22_comments() {
	texts := []string{"", "\n", "a\n", "\na", " ", " a", "a ", "a\t\n\n", "a\r\nb", "// a", "a\n\n\nb", "/* a */"}
	text := ""
	if k := vChoose(len(texts) + 1); k < len(texts) {
		text = texts[k]
	} else {
		text = string([]byte{vByte()})
	}
	f, fs, es := c19Parts("own", c19At(text, vChoose(len(c19Places)), true))
	g := &fgen{f: f, fspecs: fs, elems: es}
	c22Same(g, func() { gopoet.WriteGoFile(&bytes.Buffer{}, f) })
	vCover("done")
}

// H_C22_many reads many elements before and after rendering them.
// bound: files of 20 elements in 28 orders, rendered, rendered into the file of another package, or both; three states of the file's imports
// covers: done
func H_C22_many() {
	g := newFgen("o")
	fewPaths(g, 0)
	g.tg.kinds = "n"
	c22Pre(g.f)
	k := vChoose(fKinds)
	for i := 0; i < 20; i++ {
		k = (k*5 + i) % fKinds
		g.elem(k)
	}
	c22Same(g, func() { rendered(g.f) })
	vCover("done")
}

// c22Templ names what data of the template is used.
var c22Templ = template.Must(template.New("t").Parse("use({{range .L}}{{printf \"%T\" .}},{{end}}{{if .S.A}}1{{end}})"))

// H_C22_data reads arguments and template data before and after rendering.
// bound: a reference of 31 kinds as an argument or template data in 3 forms (by value, behind a pointer, in a map), in 4 places of a file, beside another reference; the packages any of a, b, own; three states of the file's imports
// covers: done
func H_C22_data() {
	g := newFgen("o")
	dg := &dgen{path: cPath, name: "p"}
	v := dg.ref(vChoose(dRefs))
	dg.path = func() string { return "b" }
	w := dg.sym()
	s := &dNode{A: v, b: w, N: 3}
	list := []interface{}{w, v}
	c22Pre(g.f)
	var d interface{}
	cb := &gopoet.CodeBlock{}
	switch vChoose(4) {
	case 0:
		args := []interface{}{v, w, &w, s, 5}
		d = args
		cb.Print("/* ").Printf("%T %v %v %T %d", args...).Print(" */")
		list = args
	case 1:
		m := map[string]interface{}{"L": list, "S": s}
		d = m
		cb.RenderCode(c22Templ, m)
	case 2:
		st := struct {
			L []interface{}
			S *dNode
		}{list, s}
		d = []interface{}{st.L, st.S}
		cb.RenderCode(c22Templ, st)
	case 3:
		st := struct {
			L [2]interface{}
			S **dNode
		}{[2]interface{}{w, v}, &s}
		d = []interface{}{list, s, &s}
		cb.RenderCode(c22Templ, &st)
	}
	switch vChoose(4) {
	case 0:
		g.f.AddElement(gopoet.NewFunc("F").AddCode(cb))
	case 1:
		g.f.AddVar(gopoet.NewVar("V").SetInitializer(cb))
	case 2:
		g.f.AddElement(gopoet.NewConstDecl(gopoet.NewConst("C").Initialize("1"), gopoet.NewConst("D").SetInitializer(cb)))
	case 3:
		g.f.AddElement(gopoet.NewFunc("F").Println("{").AddCode(gopoet.Print("").AddCode(cb).Println("")).Println("}"))
	}
	text := func() string {
		s := dText(d, dSame)
		for _, x := range list {
			if st, ok := x.(interface{ String() string }); ok {
				s += "|" + st.String()
			}
		}
		return s
	}
	before := text()
	c22Same(g, func() {
		var b bytes.Buffer
		// types are no expressions, and a const of no file is refused
		panics(func() { gopoet.WriteGoFile(&b, g.f) })
	})
	vAssert(text() == before, "rendering changes arguments or template data")
	vObserve("data", before)
	vCover("done")
}

// H_C22_refs derives references from declared elements after they and others that refer to them are rendered.
// bound: a file with an element of every kind and another of another package that refers to each of them in types, code and data; both rendered in 3 orders; references of the elements, and types derived before, compared
// covers: done
func H_C22_refs() {
	d := newDFile("a", "p")
	g := newFgen("o")
	g.f.RegisterImport("y", "p")
	t0, m0, i0 := d.t.ToTypeName(), d.me.ToTypeName(), d.im.ToTypeName()
	sig := gopoet.Signature{}
	sig.AddArg("x", t0).AddArg("", gopoet.SliceType(m0)).AddResult("", i0).SetVariadic(true)
	v := []interface{}{d.c, d.v, d.t, d.fn, d.me, d.im}[vChoose(6)]
	g.f.AddElement(gopoet.NewFunc("F").Printlnf("use(%v)", v).RenderCode(c16Templ, map[string]interface{}{"L": []interface{}{v, t0}, "N": dNode{A: v, b: &sig}}))
	fn := gopoet.NewFunc("G")
	fn.Signature = sig
	g.f.AddElement(fn).AddVar(gopoet.NewVar("V").SetType(m0)).AddType(gopoet.NewTypeSpec("U", d.t))
	text := func() string {
		s := dump(t0) + dump(m0) + dump(i0) + dumpSig(&sig) + t0.String() + m0.String() + i0.String()
		for _, v := range []interface{}{d.c, d.v, d.t, d.fn, d.me, d.im} {
			s += dText(v, dSame)
		}
		s += dText(d.me.ToSymbol(), dSame) + dText(d.im.ToMethodRef(), dSame) + dump(d.me.ToTypeName()) + dump(d.im.ToTypeName()) + dump(d.fn.ToTypeName())
		s1, _ := c22Snap(d.f)
		return s + s1
	}
	before := text()
	order := vChoose(3)
	c22Same(g, func() {
		if order == 0 {
			rendered(d.f)
		}
		rendered(g.f)
		if order == 1 {
			rendered(d.f)
		}
	})
	vAssert(text() == before, "rendering changes the references of declared elements")
	vObserve("refs", before)
	vCover("done")
}

// H_C22_fail reads the model before and after a rendering that fails, and renders then.
// bound: each of 28 kinds of elements in a file that fails to render because of its package name, an element that is no Go, a template that fails, or its destination; rendered again without the cause
// covers: format template write
func H_C22_fail() {
	build := func() *fgen {
		g := newFgen("o")
		fewPaths(g, 0)
		g.tg.kinds = "n"
		return g
	}
	k := vChoose(fKinds)
	g := build()
	g.elem(k)
	c := vChoose(4)
	bad := gopoet.NewFunc("Bad").AddArg("x", gopoet.NamedType(gopoet.NewSymbol("b", "T")))
	on := true
	switch c {
	case 1:
		g.f.AddElement(bad.Println("}{"))
	case 2:
		bad.RenderCode(template.Must(template.New("t").Funcs(template.FuncMap{"f": func() (string, error) {
			if on {
				return "", errors.New("f")
			}
			return "return", nil
		}}).Parse("{{f}}")), nil)
		g.f.AddElement(bad)
		g.note(gopoet.NewPackage("b"))
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: "Bad", sig: bad.Signature, body: str("return")}})
	}
	c22Same(g, func() {
		var err error
		if c == 0 {
			g.f.PackageName = "1"
		}
		out := &wOut{}
		if c == 3 {
			out.writeErr = errors.New("write")
		}
		p := panics(func() { err = gopoet.WriteGoFile(out, g.f) })
		vAssert(p || err != nil, "a file renders where it has to fail")
		_, isFormat := err.(*gopoet.FormatError)
		vAssert(isFormat == (c < 2), "a file that is no Go is not refused with a FormatError")
		vAssert(len(out.data) == 0, "a failed rendering writes")
		g.f.PackageName = "own"
		on = false
	})
	switch c {
	case 0, 1:
		vCover("format")
	case 2:
		vCover("template")
	case 3:
		vCover("write")
	}
	if c != 1 {
		c15Check(g)
	}
}
