package main

import (
	"bytes"
	"errors"
	"strconv"
	"text/template"

	"github.com/jhump/gopoet"
)

// c16Out is what rendering the file results in: its source, or the source that
// could not be formatted.
func c16Out(f *gopoet.GoFile) string {
	var b bytes.Buffer
	err := gopoet.WriteGoFile(&b, f)
	if fe, ok := err.(*gopoet.FormatError); ok {
		return "ERR" + string(fe.Unformatted)
	}
	vAssert(err == nil, "a file does not render")
	return b.String()
}

// H_C16_elems renders files again.
// bound: each of 28 kinds of elements followed by one of 4 kinds, with named types within; the first two references (three in the thorough tier) to any of a, b, own; packages named in 4 ways; rendered three times
// covers: done
func H_C16_elems() {
	g := newFgen("o")
	fewPaths(g, 2+vTier())
	c15Names(g)
	g.tg.kinds = "n"
	g.elem(vChoose(fKinds))
	g.elem([]int{2, 9, 17, 21}[vChoose(4)])
	one := c16Out(g.f)
	vObserve("source", one)
	vAssert(c16Out(g.f) == one, "rendering again gives another source")
	vAssert(c16Out(g.f) == one, "rendering a third time gives another source")
	vCover("done")
}

// H_C16_long renders long files again, many times.
// bound: files of 20 elements in 28 orders, rendered 12 times
// covers: done
func H_C16_long() {
	g := newFgen("o")
	fewPaths(g, 0)
	g.tg.kinds = "n"
	k := vChoose(fKinds)
	for i := 0; i < 20; i++ {
		k = (k*5 + i) % fKinds
		g.elem(k)
	}
	one := c16Out(g.f)
	vObserve("source", one)
	for i := 0; i < 11; i++ {
		vAssert(c16Out(g.f) == one, "rendering again gives another source")
	}
	vCover("done")
}

var c16Templ = template.Must(template.New("t").Parse("{{define \"x\"}}{{range .}}{{.}},{{end}}{{end}}use({{template \"x\" .L}}{{range $k, $v := .M}}{{$k}}:{{$v}};{{end}}{{with .N}}{{.A}}{{end}})"))

// c16Code is a code block with a reference of the kind held in some way, and
// others beside it.
func c16Code(g *dgen, k, how int) *gopoet.CodeBlock {
	v := g.ref(k)
	w := g.sym()
	switch how {
	case 0:
		return gopoet.Printf("use(%v, %s)", v, w)
	case 1:
		return gopoet.RenderCode(c16Templ, map[string]interface{}{"L": []interface{}{v, w}, "M": map[string]interface{}{"a": v}, "N": &dNode{A: w}})
	case 2:
		return gopoet.RenderCode(c16Templ, &struct {
			L []interface{}
			M map[gopoet.Symbol]interface{}
			N dNode
		}{[]interface{}{w, &w}, map[gopoet.Symbol]interface{}{w: v}, dNode{A: v, b: v}})
	case 3:
		return gopoet.Print("a(").AddCode(gopoet.Printf("%v", v)).AddCode(gopoet.RenderCode(c16Templ, map[string]interface{}{"N": dNode{A: v}})).Print(")")
	default:
		args := []interface{}{v, w, v, 5}
		return gopoet.Printf("f(%v, %v)", args[:2]...).Printf("g(%v, %v)", args[2:]...)
	}
}

// H_C16_code renders one block of code into two files.
// bound: a block with a reference of all 29 kinds held in 5 ways; files in the packages a and o; the referenced packages any of a, b, o; the order of rendering is any of 4 against rendering alone; each file's imports in two states
// covers: done
func H_C16_code() {
	k, how := vChoose(dRefs), vChoose(5)
	vAssume(k != 28 && k != 29)              // have no text of their own
	vAssume(k != 27 || how == 1 || how == 2) // not part of any file
	p := cPath()
	st := vChoose(4)
	build := func() (*gopoet.GoFile, *gopoet.GoFile) {
		n := 0
		g := &dgen{path: func() string {
			n++
			if n == 1 {
				return p
			}
			return "b"
		}, name: "p"}
		cb := c16Code(g, k, how)
		fa := gopoet.NewGoFile("a.go", "a", "pa")
		fo := gopoet.NewGoFile("o.go", "o", "po")
		if st&1 != 0 {
			fa.RegisterImport("x", "p")
		}
		if st&2 != 0 {
			fo.RegisterImport("y", "p")
		}
		fa.AddElement(gopoet.NewFunc("F").AddCode(cb))
		if st == 0 {
			fo.AddVar(gopoet.NewVar("V").SetInitializer(cb))
		} else {
			fo.AddElement(gopoet.NewFunc("G").AddCode(cb))
		}
		return fa, fo
	}
	fa, _ := build()
	wa := c16Out(fa)
	_, fo := build()
	wo := c16Out(fo)
	vObserve("a", wa)
	vObserve("o", wo)
	fa, fo = build()
	for _, c := range []string{"aoao", "ooaa", "oaoa", "aaoo"}[vChoose(4)] {
		if c == 'a' {
			vAssert(c16Out(fa) == wa, "a file renders otherwise when code is shared with another")
		} else {
			vAssert(c16Out(fo) == wo, "a file renders otherwise when code is shared with another")
		}
	}
	vCover("done")
}

// H_C16_data renders one data value of a template into two files.
// bound: data with a reference of 9 kinds in any of 12 kinds of places nested to depth 1 (2 in the thorough tier), handed to a template in two files, alone or after the other
// covers: done
func H_C16_data() {
	k := []int{0, 1, 3, 5, 7, 10, 12, 18, 20}[vChoose(9)]
	p := cPath()
	t := template.Must(template.New("t").Parse("{{if .}}x{{end}}"))
	shape := "nuNDsampSAMQ"
	s1, s2 := vChoose(len(shape)), 0
	if vTier() > 0 {
		s2 = vChoose(len(shape))
	}
	build := func() (*gopoet.GoFile, *gopoet.GoFile, interface{}) {
		g := &dgen{path: func() string { return p }, name: "p"}
		g.shape = shape[s1 : s1+1]
		v := g.ref(k)
		d := g.val(1, func() interface{} { return v })
		if vTier() > 0 {
			g.shape = shape[s2 : s2+1]
			in := d
			d = g.val(1, func() interface{} { return in })
		}
		fa := gopoet.NewGoFile("a.go", "a", "pa")
		fo := gopoet.NewGoFile("o.go", "o", "po")
		fo.RegisterImport("y", "p")
		fa.AddElement(gopoet.NewFunc("F").RenderCode(t, d))
		fo.AddElement(gopoet.NewFunc("G").RenderCode(t, d))
		return fa, fo, d
	}
	// the text of pointers varies, so the references are compared
	text := func(f *gopoet.GoFile) string {
		c16Out(f)
		s := ""
		for _, i := range f.ImportSpecs() {
			s += i.String() + ";"
		}
		return s
	}
	fa, _, _ := build()
	wa := text(fa)
	_, fo, _ := build()
	wo := text(fo)
	fa, fo, d := build()
	before := dText(d, dSame)
	if vChoose(2) == 0 {
		vAssert(text(fa) == wa && text(fo) == wo, "a file imports otherwise when data is shared with another")
	} else {
		vAssert(text(fo) == wo && text(fa) == wa, "a file imports otherwise when data is shared with another")
	}
	vAssert(dText(d, dSame) == before, "rendering changed template data")
	vObserve("imports", wa+wo)
	vCover("done")
}

// H_C16_types renders shared types and specs into two files.
// bound: a type of any kind of depth 1 (2 in the thorough tier) or an unnamed struct or interface spec, as the type of vars, fields, arguments and elements of two files in packages a and o, references to a, b, o
// covers: done
func H_C16_types() {
	g0 := newFgen("a")
	fewPaths(g0, 1)
	g0.depth = 1 + vTier()
	var t gopoet.TypeNameOrSpec
	var tn gopoet.TypeName
	// the shared parts are built twice from one description; types are not
	// altered by rendering, which C06 decides, but the specs around them might be
	k := vChoose(3)
	if k == 0 {
		tn = g0.typ()
		t = tn
	}
	n := 0
	g0.path = func() string { n++; return "abo"[n%3 : n%3+1] }
	g0.tg.kinds = "n"
	place := vChoose(5)
	build := func() (*gopoet.GoFile, *gopoet.GoFile) {
		n = 0
		g0.n = 0
		switch k {
		case 1:
			s, _ := g0.structSpec("", 1)
			t, tn = s, s.ToTypeName()
		case 2:
			s, _ := g0.ifaceSpec("")
			t, tn = s, s.ToTypeName()
		}
		fa := gopoet.NewGoFile("a.go", "a", "pa")
		fo := gopoet.NewGoFile("o.go", "o", "po")
		fo.RegisterImport("y", "p")
		for _, f := range []*gopoet.GoFile{fa, fo} {
			switch place {
			case 0:
				f.AddVar(gopoet.NewVar("V").SetType(t))
			case 1:
				f.AddType(gopoet.NewTypeSpec("T", t))
			case 2:
				f.AddElement(gopoet.NewFunc("F").AddArg("a", tn).AddResult("", tn))
			case 3:
				f.AddType(gopoet.NewStructTypeSpec("S", gopoet.NewField("f", t)))
			case 4:
				f.AddType(gopoet.NewTypeAlias("T", t)).AddConst(gopoet.NewConst("c").SetType(t).Initialize("%s", tn))
			}
		}
		return fa, fo
	}
	fa, _ := build()
	wa := c16Out(fa)
	_, fo := build()
	wo := c16Out(fo)
	vObserve("a", wa)
	vObserve("o", wo)
	fa, fo = build()
	for _, c := range []string{"aoao", "oaoa"}[vChoose(2)] {
		if c == 'a' {
			vAssert(c16Out(fa) == wa, "a file renders otherwise when types are shared with another")
		} else {
			vAssert(c16Out(fo) == wo, "a file renders otherwise when types are shared with another")
		}
	}
	vCover("done")
}

// H_C16_elements renders elements of one file that others refer to.
// bound: a file with each of 28 kinds of elements, another that refers to its elements in code, types and template data; rendered alone, before or after each other
// covers: done
func H_C16_elements() {
	k := vChoose(10)
	build := func() (*gopoet.GoFile, *gopoet.GoFile) {
		d := newDFile("a", "p")
		fo := gopoet.NewGoFile("o.go", "o", "po")
		fo.RegisterImport("y", "p")
		var v interface{} = []interface{}{d.c, d.v, d.t, d.fn, d.me, d.im}[k%6]
		fo.AddElement(gopoet.NewFunc("F").Printlnf("use(%v)", v).RenderCode(c16Templ, map[string]interface{}{"L": []interface{}{v, v}, "N": dNode{A: v, b: v}}))
		if k > 5 {
			fo.AddType(gopoet.NewStructTypeSpec("S", gopoet.NewField("f", d.t), gopoet.NewField("g", gopoet.PointerType(d.t.ToTypeName()))))
			fo.AddElement(gopoet.NewFunc("G").AddArg("", d.me.ToTypeName()).AddArg("", d.im.ToTypeName()))
			d.f.AddVar(gopoet.NewVar("X").SetType(d.t).Initialize("%s", d.c))
		}
		return d.f, fo
	}
	fa, _ := build()
	wa := c16Out(fa)
	_, fo := build()
	wo := c16Out(fo)
	vObserve("a", wa)
	vObserve("o", wo)
	fa, fo = build()
	for _, c := range []string{"aoao", "oaoa"}[vChoose(2)] {
		if c == 'a' {
			vAssert(c16Out(fa) == wa, "a file renders otherwise when another refers to it")
		} else {
			vAssert(c16Out(fo) == wo, "a file renders otherwise when it refers to another")
		}
	}
	vCover("done")
}

// H_C16_odd renders elements with names out of the ordinary again.
// bound: 7 groups of elements of all kinds, any one of their 4..7 names any of _, err, int, p, own, init, ctx or none; rendered twice
// covers: done
func H_C16_odd() {
	g := newFgen("o")
	fewPaths(g, vTier())
	g.tg.kinds = "n"
	g.odd()
	one := c16Out(g.f)
	vObserve("source", one)
	vAssert(c16Out(g.f) == one, "rendering again gives another source")
	vCover("done")
}

// H_C16_parts renders parts of the elements of one file in another.
// bound: the underlying type, fields, methods, signature, initializer or code of a struct, interface, defined type, alias, var, const, function or method of a file, used in another of the same or another package; each file's imports in two states; the references any of a, b, o; four orders of rendering against rendering alone
// covers: done
func H_C16_parts() {
	k, st := vChoose(11), vChoose(8)
	p := cPath()
	build := func() (*gopoet.GoFile, *gopoet.GoFile) {
		fa := gopoet.NewGoFile("a.go", "a", "pa")
		fo := gopoet.NewGoFile("o.go", "o", "po")
		if st&4 != 0 {
			fo = gopoet.NewGoFile("o.go", "a", "pa")
		}
		if st&1 != 0 {
			fa.RegisterImport("x", "p")
		}
		if st&2 != 0 {
			fo.RegisterImport("y", "p")
		}
		n := 0
		sym := func() gopoet.Symbol {
			n++
			s := gopoet.Symbol{Name: "S" + strconv.Itoa(n), Package: gopoet.Package{ImportPath: "b", Name: "p"}}
			if n != 2 {
				s.Package.ImportPath = p
			}
			return s
		}
		typ := func() gopoet.TypeName { return gopoet.NamedType(sym()) }
		both := func(t gopoet.TypeNameOrSpec) {
			if st&4 != 0 {
				fo.AddType(gopoet.NewTypeSpec("U", t))
			} else {
				fo.AddVar(gopoet.NewVar("V").SetType(t))
			}
		}
		switch k {
		case 0, 1:
			m := gopoet.NewInterfaceMethod("M").AddArg("a", typ()).AddResult("r", typ()).AddResult("", gopoet.PointerType(typ()))
			it := gopoet.NewInterfaceTypeSpec("I", m, gopoet.NewInterfaceEmbed(sym()))
			fa.AddType(it)
			if k == 0 {
				both(it.Underlying())
			} else {
				both(gopoet.NewInterfaceTypeSpec("", m, gopoet.NewInterfaceMethod("N").AddArg("", it.Underlying())))
			}
		case 2, 3:
			fs := gopoet.NewField("F", typ()).SetTag("t")
			ss := gopoet.NewStructTypeSpec("S", fs, gopoet.NewField("", typ()), gopoet.NewField("G", gopoet.NewStructTypeSpec("", gopoet.NewField("H", typ()))))
			fa.AddType(ss)
			if k == 2 {
				both(ss.Underlying())
			} else {
				both(gopoet.NewStructTypeSpec("", fs, gopoet.NewField("J", ss.Underlying())))
			}
		case 4:
			ts := gopoet.NewTypeSpec("T", gopoet.MapType(typ(), gopoet.FuncType([]gopoet.ArgType{{Type: typ()}}, []gopoet.ArgType{{Name: "e", Type: typ()}})))
			fa.AddType(ts)
			both(ts.Underlying())
		case 5:
			ts := gopoet.NewTypeAlias("T", gopoet.NewStructTypeSpec("", gopoet.NewField("F", typ()), gopoet.NewField("G", typ())))
			fa.AddType(ts)
			both(ts.Underlying())
		case 6:
			v := gopoet.NewVar("X").SetType(typ()).Initialize("%s(%s)", sym(), typ())
			fa.AddVar(v)
			fo.AddVar(gopoet.NewVar("Y").SetType(v.Type).SetInitializer(v.Initializer))
		case 7:
			c := gopoet.NewConst("X").SetType(typ()).Initialize("%s(%s)", sym(), typ())
			fa.AddConst(c)
			fo.AddConst(gopoet.NewConst("Y").SetType(c.Type).SetInitializer(c.Initializer))
		case 8:
			f := gopoet.NewFunc("F").AddArg("a", typ()).AddResult("", typ()).AddResult("b", typ()).Printlnf("return %s()", sym())
			fa.AddElement(f)
			fn := gopoet.NewFunc("G").Printlnf("%s()", sym())
			fn.Signature = f.Signature
			fn.AddCode(&f.CodeBlock)
			fo.AddElement(fn)
		case 9:
			f := gopoet.NewMethod(gopoet.NewPointerReceiver("r", "R"), "F").AddArg("a", gopoet.SliceType(typ())).SetVariadic(true).AddResult("", typ()).Printlnf("return %s()", sym())
			fa.AddElement(f)
			fo.AddElement(&gopoet.FuncSpec{Name: "G", Receiver: f.Receiver, Signature: f.Signature, CodeBlock: f.CodeBlock})
		case 10:
			f := gopoet.NewFunc("F").AddArg("a", typ()).AddResult("", typ()).AddResult("b", typ())
			fa.AddElement(f)
			im := gopoet.NewInterfaceMethod("M")
			im.Signature = f.Signature
			fo.AddType(gopoet.NewInterfaceTypeSpec("I", im))
			both(gopoet.FuncTypeFromSig(&f.Signature))
		}
		return fa, fo
	}
	fa, _ := build()
	wa := c16Out(fa)
	_, fo := build()
	wo := c16Out(fo)
	vObserve("a", wa)
	vObserve("o", wo)
	fa, fo = build()
	for _, c := range []string{"aoao", "oaoa", "aaoo", "ooaa"}[vChoose(4)] {
		if c == 'a' {
			vAssert(c16Out(fa) == wa, "a file renders otherwise when another uses parts of its elements")
		} else {
			vAssert(c16Out(fo) == wo, "a file renders otherwise when it uses parts of another's elements")
		}
	}
	vCover("done")
}

// H_C16_order renders independently of the iteration order of maps.
// bound: template data with a map of 3 entries of 6 kinds of keys and values, references among both; three imports of one name, over every iteration order of every map
// covers: done
// repeat: 30
func H_C16_order() {
	k := vChoose(6)
	sym := func(i int) gopoet.Symbol {
		return gopoet.Symbol{Name: "S" + strconv.Itoa(i), Package: gopoet.Package{ImportPath: string([]byte{"cab"[i]}), Name: "p"}}
	}
	build := func() *gopoet.GoFile {
		var d interface{}
		switch k {
		case 0:
			d = map[string]interface{}{"z": sym(0), "x": sym(1), "y": sym(2)}
		case 1:
			d = map[gopoet.Symbol]int{sym(0): 1, sym(1): 2, sym(2): 3}
		case 2:
			d = map[interface{}]gopoet.Symbol{"z": sym(0), 5: sym(1), int8(5): sym(2)}
		case 3:
			s := sym(1)
			d = &struct{ m map[int]*gopoet.Symbol }{map[int]*gopoet.Symbol{3: &s, 1: nil, 2: {Name: "q", Package: sym(2).Package}}}
		case 4:
			d = []interface{}{map[gopoet.Package]gopoet.Symbol{sym(0).Package: sym(1), sym(2).Package: {Name: "int"}}, sym(0)}
		case 5:
			d = map[[1]string]gopoet.TypeName{{"b"}: gopoet.NamedType(sym(0)), {"a"}: gopoet.SliceType(gopoet.NamedType(sym(1))), {"c"}: gopoet.NamedType(sym(2))}
		}
		f := gopoet.NewGoFile("o.go", "o", "1")
		text := "{{printf \"%v\" .}}"
		if k == 2 || k == 3 {
			text = "{{if .}}{{end}}"
		}
		f.AddElement(gopoet.NewFunc("F").RenderCode(template.Must(template.New("t").Parse(text)), d))
		return f
	}
	if k == 2 || k == 3 {
		// the text of pointers varies
		f1, f2 := build(), build()
		c16Out(f1)
		vMapOrder(true)
		c16Out(f2)
		s1, s2 := f1.ImportSpecs(), f2.ImportSpecs()
		vMapOrder(false)
		vAssert(len(s1) == 5-k && len(s2) == len(s1) && s1[0] == s2[0] && s1[1] == s2[1] && s1[len(s1)-1] == s2[len(s1)-1], "the imports depend on the iteration order")
		vCover("done")
		return
	}
	want := c16Out(build())
	vMapOrder(true)
	got := c16Out(build())
	vMapOrder(false)
	vObserve("source", want)
	vAssert(got == want, "the source depends on the iteration order")
	vCover("done")
}

// H_C16_methods renders declared elements that share parts within one file.
// bound: a signature, code block, field type or receiver shared by 2 elements of a file, and added to after sharing; references to a, b, own; rendered twice
// covers: done
func H_C16_methods() {
	g := newFgen("o")
	p := cPath()
	g.path = func() string { return p }
	k := vChoose(4)
	s := g.sym()
	t := gopoet.NamedType(s)
	f := g.f
	switch k {
	case 0:
		a := gopoet.NewFunc("A").AddArg("x", t)
		b := gopoet.NewFunc("B")
		b.Signature = a.Signature
		a.AddArg("y", t)
		b.AddArg("z", gopoet.IntType)
		f.AddElement(a).AddElement(b)
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: "A", sig: gopoet.Signature{Args: []gopoet.ArgType{{Name: "x", Type: t}, {Name: "y", Type: t}}}}})
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: "B", sig: gopoet.Signature{Args: []gopoet.ArgType{{Name: "x", Type: t}, {Name: "z", Type: gopoet.IntType}}}}})
	case 1:
		cb := gopoet.Printlnf("use(%s)", s)
		a := gopoet.NewFunc("A").AddCode(cb).Println("one()")
		b := gopoet.NewFunc("B").AddCode(cb).Println("two()")
		cb.Println("three()")
		f.AddElement(a).AddElement(b)
		body := func(end string) func(q dMap) string {
			return func(q dMap) string { return "use(" + q(s).String() + ") " + end }
		}
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: "A", body: body("one()")}}, wDecl{kind: 'f', fn: &wFunc{name: "B", body: body("two()")}})
	case 2:
		fs := gopoet.NewField("f", t)
		f.AddType(gopoet.NewStructTypeSpec("A", fs)).AddType(gopoet.NewStructTypeSpec("B", fs, gopoet.NewField("g", t)))
		g.add('t', false, wSpec{names: []string{"A"}, typ: wStruct{{"f", t, ""}}})
		g.add('t', false, wSpec{names: []string{"B"}, typ: wStruct{{"f", t, ""}, {"g", t, ""}}})
	case 3:
		r := gopoet.NewPointerReceiver("r", "T")
		f.AddElement(gopoet.NewMethod(r, "A")).AddElement(gopoet.NewMethod(r, "B").AddArg("", t))
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: "A", hasRecv: true, recv: "r", recvType: "T", ptr: true}})
		g.want = append(g.want, wDecl{kind: 'f', fn: &wFunc{name: "B", hasRecv: true, recv: "r", recvType: "T", ptr: true, sig: gopoet.Signature{Args: []gopoet.ArgType{{Type: t}}}}})
	}
	c15Check(g)
	c15Check(g)
	vCover("done")
}

// H_C16_failed renders files before and after others that fail.
// bound: a file of one of 28 kinds of elements, another that fails because it is no Go in 3 ways, because of a template or of its destination, and a third; rendered in turn, twice; what is reported for the one that fails stays as it was
// covers: done
func H_C16_failed() {
	g := newFgen("o")
	fewPaths(g, 0)
	g.tg.kinds = "n"
	g.elem(vChoose(fKinds))
	h := newFgen("o")
	fewPaths(h, 0)
	h.tg.kinds = "n"
	h.elem(9)
	h.elem(17)
	bad := gopoet.NewGoFile("bad.go", "bad", "bad")
	c := vChoose(5)
	out := &wOut{}
	switch c {
	case 0:
		bad.PackageName = "1"
	case 1:
		bad.AddElement(gopoet.NewFunc("F").Println("}{").Printlnf("use(%s)", gopoet.NewSymbol("a", "S")))
	case 2:
		bad.AddElement(gopoet.NewFunc("F").Println(""))
		bad.AddElement(gopoet.NewFunc("1"))
	case 3:
		bad.AddElement(gopoet.NewFunc("F").Println("use(").RenderCode(c17Bad, 5))
	case 4:
		out.writeErr = errors.New("write")
	}
	fail := func() *gopoet.FormatError {
		var err error
		p := panics(func() { err = gopoet.WriteGoFile(out, bad) })
		vAssert(p || err != nil, "a file renders where it has to fail")
		fe, _ := err.(*gopoet.FormatError)
		return fe
	}
	one, two := c16Out(g.f), c16Out(h.f)
	vObserve("source", one)
	e1 := fail()
	said := ""
	if e1 != nil {
		said = string(e1.Unformatted) + e1.Error()
	}
	vAssert(c16Out(g.f) == one, "a file renders otherwise after another fails")
	e2 := fail()
	vAssert(c16Out(h.f) == two, "a file renders otherwise after another fails")
	vAssert(c16Out(g.f) == one, "a file renders otherwise after others do")
	vAssert((e1 == nil) == (e2 == nil), "a file fails otherwise when rendered again")
	if e1 != nil {
		vAssert(string(e2.Unformatted)+e2.Error() == said, "a file fails otherwise when rendered again")
		vAssert(string(e1.Unformatted)+e1.Error() == said, "what was reported of a failure changes with other renderings")
	}
	vCover("done")
}
