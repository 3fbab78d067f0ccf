package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"text/template"

	"github.com/jhump/gopoet"
)

// c12Raw is the text of the code block as rendered into a file of the package,
// before formatting, and the imports of the file. The package clause of the
// file is broken so the formatter gives up at once and reports what it was
// given.
func c12Raw(cb *gopoet.CodeBlock, pre func(f *gopoet.GoFile)) (string, *gopoet.GoFile) {
	f := gopoet.NewGoFile("x.go", "o", "1")
	if pre != nil {
		pre(f)
	}
	fn := gopoet.NewFunc("F")
	fn.Print("<[").AddCode(cb).Print("]>")
	f.AddElement(fn)
	return c12Body(f), f
}

func c12Body(f *gopoet.GoFile) string {
	var b bytes.Buffer
	err := gopoet.WriteGoFile(&b, f)
	fe, ok := err.(*gopoet.FormatError)
	vAssert(ok, "a file without a legal package clause is not refused with a FormatError")
	s := string(fe.Unformatted)
	i := strings.Index(s, "<[")
	vAssert(i >= 0, "the first piece of the body is missing")
	j := strings.LastIndex(s, "]>")
	vAssert(j >= i+2, "the last piece of the body is missing")
	return s[i+2 : j]
}

// c12Piece adds a piece of text to the block in one of all ways and returns
// the text it is to add.
func c12Piece(cb *gopoet.CodeBlock, k int, t string) string {
	switch k {
	case 0:
		cb.Print(t)
		return t
	case 1:
		cb.Println(t)
		return t + "\n"
	case 2:
		cb.Printf("%s", t)
		return t
	case 3:
		cb.Printlnf("%s", t)
		return t + "\n"
	case 4:
		cb.AddCode(gopoet.Print(t))
		return t
	case 5:
		cb.AddCode(gopoet.Println(t).Print("%d"))
		return t + "\n%d"
	case 6:
		cb.AddCode(gopoet.Printf("%%%v.", t))
		return "%" + t + "."
	case 7:
		cb.AddCode(gopoet.Printlnf("%v%d%%", t, 5))
		return t + "5%\n"
	case 8:
		cb.AddCode(&gopoet.CodeBlock{})
		return ""
	default:
		cb.AddCode((&gopoet.CodeBlock{}).AddCode(gopoet.Print(t)).AddCode(gopoet.Print("%%")))
		return t + "%%"
	}
}

// H_C12_text renders arbitrary text.
// bound: three pieces of text of up to 3, 2 and 1 arbitrary bytes, added in all triples of 10 ways (4 pieces in the thorough tier)
// covers: done
func H_C12_text() {
	cb := &gopoet.CodeBlock{}
	want := ""
	for i := 0; i < 3+vTier(); i++ {
		k := vChoose(10)
		n := vChoose(4 - i)
		b := make([]byte, n)
		for j := range b {
			b[j] = vByte()
		}
		want += c12Piece(cb, k, string(b))
	}
	got, _ := c12Raw(cb, nil)
	vObserve("text", got)
	vAssert(vEqStr(got, want), "the text of a code block is not rendered as it was added")
	vCover("done")
}

// H_C12_func adds text to the body of a function.
// bound: three pieces of 2 arbitrary bytes each, added in all triples of 5 ways
// covers: done
func H_C12_func() {
	f := gopoet.NewGoFile("x.go", "o", "1")
	fn := gopoet.NewFunc("F")
	fn.Print("<[")
	want := ""
	for i := 0; i < 3; i++ {
		t := string([]byte{vByte(), vByte()})
		switch vChoose(5) {
		case 0:
			fn.Print(t)
			want += t
		case 1:
			fn.Println(t)
			want += t + "\n"
		case 2:
			fn.Printf("%%d%s", t)
			want += "%d" + t
		case 3:
			fn.Printlnf("%s%v", t, i)
			want += t + strconv.Itoa(i) + "\n"
		case 4:
			fn.AddCode(gopoet.Println(t))
			want += t + "\n"
		}
	}
	fn.Print("]>")
	f.AddElement(fn)
	got := c12Body(f)
	vObserve("text", got)
	vAssert(vEqStr(got, want), "the body is not rendered as it was added")
	vCover("done")
}

var c12Formats = []string{"%%", "50%% of\n", "%%d", "", "%", "%v", "%s and %s", "%[2]v %[1]v", "%[3]*.[2]*[1]f|", "%-12s|", "%12v|", "%q", "%x", "%t", "%!", "%d", "%v %v %v %v", "%[1]v%[1]s", "%[5]v", "%z", "%.1s", "%06d", "%+d", "%5t", "%%%v%%", "%2$s", "x%", "%s%"}

// H_C12_formats formats text as Go does.
// bound: 28 formats (escapes, explicit indexes, widths, flags, bad verbs and ends among them), 0..3 arguments, each any of 8 (symbols, a package, a type, a method, text, numbers, nil), added in 5 ways
// covers: done
func H_C12_formats() {
	format := c12Formats[vChoose(len(c12Formats))]
	n := vChoose(4)
	sym := gopoet.Symbol{Name: "R", Package: gopoet.Package{ImportPath: "a", Name: "p"}}
	own := gopoet.Symbol{Name: "O", Package: gopoet.Package{ImportPath: "o", Name: "p"}}
	argOf := func(k int) (interface{}, string, bool) {
		switch k {
		case 0:
			return sym, "p.R", true
		case 1:
			return own, "O", true
		case 2:
			return gopoet.SliceType(gopoet.NamedType(sym)), "[]p.R", true
		case 3:
			return gopoet.MethodReference{Type: sym, Method: "M"}, "p.R.M", true
		case 4:
			return "a%sb", "", false
		case 5:
			return 7, "", false
		case 6:
			return nil, "", false
		default:
			return true, "", false
		}
	}
	var args, want []interface{}
	refs := false
	k := vChoose(8)
	for i := 0; i < n; i++ {
		a, t, ref := argOf((k + 3*i) % 8)
		args = append(args, a)
		if ref {
			refs = true
			want = append(want, c12Str{t})
		} else {
			want = append(want, a)
		}
	}
	cb := &gopoet.CodeBlock{}
	text := ""
	how := vChoose(5)
	switch how {
	case 0:
		cb.Printf(format, args...)
	case 1:
		cb.Printlnf(format, args...)
	case 2:
		cb.AddCode(gopoet.Printf(format, args...))
	case 3:
		cb.AddCode(gopoet.Printlnf(format, args...))
	case 4:
		cb.Print("<%d>").AddCode(gopoet.Print("").Printf(format, args...)).Print("%s")
	}
	text = fmt.Sprintf(format, want...)
	switch how {
	case 1, 3:
		text += "\n"
	case 4:
		text = "<%d>" + text + "%s"
	}
	// how Go reports verbs that do not apply, and where
	vAssume(!(refs || how == 1 || how == 3) || !strings.Contains(text, "!"))
	got, _ := c12Raw(cb, nil)
	vObserve("text", got)
	vAssert(got == text, "formatted text is not as Go formats it")
	vCover("done")
}

// c12Str is text by its method.
type c12Str struct{ s string }

func (s c12Str) String() string { return s.s }

// H_C12_long renders long sequences of pieces in order.
// bound: 40 pieces in blocks added to one another to depth 4, an arbitrary one of them with an arbitrary byte
// covers: done
func H_C12_long() {
	at := vChoose(40)
	want := ""
	n := 0
	var build func(d int) *gopoet.CodeBlock
	build = func(d int) *gopoet.CodeBlock {
		cb := &gopoet.CodeBlock{}
		for i := 0; i < 3; i++ {
			t := strconv.Itoa(n) + "%"
			if n == at {
				t += string([]byte{vByte()})
			}
			n++
			want += c12Piece(cb, n%4, t)
			if i == 1 && d > 0 {
				cb.AddCode(build(d - 1))
			}
		}
		return cb
	}
	cb := &gopoet.CodeBlock{}
	for i := 0; i < 3; i++ {
		cb.AddCode(build(4))
	}
	got, _ := c12Raw(cb, nil)
	vObserve("text", got)
	vAssert(vEqStr(got, want), "the pieces are not rendered in order")
	vCover("done")
}

// c12Want is the text an argument is rendered as, if it is of a kind that is
// qualified or known to have text.
func c12Want(k int, v interface{}, f dMap) (string, bool) {
	switch k {
	case 8, 9, 27, 28, 29: // signatures have no text, the others are no elements of a file or no pointers
		return "", false
	case 14:
		return "Me", true
	case 15, 17:
		return "IM", true
	case 18:
		return mapSyms(v.(*gopoet.TypeSpec).Underlying(), f).String(), true
	}
	return c12Text(v, f), true
}

// c12Pre is one of a few states of the imports of a file.
func c12Pre(f *gopoet.GoFile) {
	switch vChoose(3) {
	case 1:
		f.RegisterImport("b", "p")
	case 2:
		f.RegisterImport("x", "p")
		f.RegisterImport("a", "q")
	}
}

// c12Imports checks that the file imports exactly the packages of the
// references given, and those it did before.
func c12Imports(f *gopoet.GoFile, had []gopoet.ImportSpec, refs []gopoet.Symbol) {
	for _, r := range refs {
		if p := r.Package.ImportPath; p != "" && p != "o" {
			vAssert(hasImport(&f.Imports, p), "the package of an argument is not imported")
		}
	}
	for _, s := range f.ImportSpecs() {
		known := false
		for _, b := range had {
			known = known || b == s
		}
		for _, r := range refs {
			known = known || r.Package.ImportPath == s.ImportPath
		}
		vAssert(known, "a package is imported that is not referenced")
	}
}

// H_C12_refs renders arguments of every kind.
// bound: two arguments of all pairs of 26 kinds; the referenced packages any of a, b, own, with colliding names, three states of the file's imports
// covers: done
func H_C12_refs() {
	g := &dgen{path: dPath, name: "p"}
	k1, k2 := vChoose(dRefs), vChoose(dRefs)
	v1 := g.ref(k1)
	if k1 != k2 {
		n := 0
		g.path = func() string { n++; return "abo"[n%3 : n%3+1] }
	}
	v2 := g.ref(k2)
	var had []gopoet.ImportSpec
	cb := gopoet.Printf("%v(%s", v1, v2).Printlnf(")%d", 7)
	_, ok1 := c12Want(k1, v1, dSame)
	_, ok2 := c12Want(k2, v2, dSame)
	vAssume(ok1 && ok2)
	got, f := c12Raw(cb, func(f *gopoet.GoFile) { c12Pre(f); had = f.ImportSpecs() })
	var refs []gopoet.Symbol
	for i, v := range []interface{}{v1, v2} {
		if k := []int{k1, k2}[i]; k != 14 && k != 15 && k != 17 {
			refs = append(refs, dSyms(v)...)
		}
	}
	c12Imports(f, had, refs)
	q := func(s gopoet.Symbol) gopoet.Symbol { return c04Want(&f.Imports, "o", s) }
	w1, _ := c12Want(k1, v1, q)
	w2, _ := c12Want(k2, v2, q)
	vObserve("text", got)
	vAssert(got == w1+"("+w2+")7\n", "an argument is not rendered with the qualifier of its package")
	vCover("done")
}

// H_C12_types renders types as arguments.
// bound: all types of depth 2 along a spine (3 in the thorough tier), given as they are; one package name, paths a, b, own
// covers: done
func H_C12_types() {
	g := &tgen{sym: c06Sym(), kinds: "bnpsamcfti"}
	t := g.typ(2 + vTier())
	var had []gopoet.ImportSpec
	got, f := c12Raw(gopoet.Printf("%s|%v", t, t), func(f *gopoet.GoFile) { c12Pre(f); had = f.ImportSpecs() })
	c12Imports(f, had, symsOf(t))
	w := mapSyms(t, func(s gopoet.Symbol) gopoet.Symbol { return c04Want(&f.Imports, "o", s) }).String()
	vObserve("text", got)
	vAssert(got == w+"|"+w, "a type is not rendered with the qualifiers of its packages")
	vCover("done")
}

// H_C12_many renders many references, one after another and in one call.
// bound: 14 references of 14 kinds, 13 packages of one name, an arbitrary one of them registered before
// covers: done
func H_C12_many() {
	n := 0
	g := &dgen{name: "p"}
	g.path = func() string { n++; return "p" + strconv.Itoa(n%13) }
	kinds := []int{0, 2, 4, 6, 10, 11, 12, 13, 19, 20, 21, 23, 24, 1}
	var args []interface{}
	cb := &gopoet.CodeBlock{}
	var refs []gopoet.Symbol
	for i, k := range kinds {
		v := g.ref(k)
		refs = append(refs, dSyms(v)...)
		if i < 7 {
			args = append(args, v, i)
		} else {
			cb.Printlnf("%v", v)
			args = append(args, v, i)
		}
	}
	first := len(args)
	cb.Printf(strings.Repeat("%s %d|", first/2), args...)
	at := vChoose(13)
	got, f := c12Raw(cb, func(f *gopoet.GoFile) { f.RegisterImport("p"+strconv.Itoa(at), "p") })
	c12Imports(f, []gopoet.ImportSpec{{ImportPath: "p" + strconv.Itoa(at)}}, refs)
	q := func(s gopoet.Symbol) gopoet.Symbol { return c04Want(&f.Imports, "o", s) }
	want := ""
	for i := 7; i < 14; i++ {
		w, _ := c12Want(kinds[i], args[2*i], q)
		want += w + "\n"
	}
	for i := 0; i < 14; i++ {
		w, _ := c12Want(kinds[i], args[2*i], q)
		want += w + " " + strconv.Itoa(i) + "|"
	}
	vObserve("text", got)
	vAssert(got == want, "the arguments are not rendered with the qualifiers of their packages")
	vCover("done")
}

// H_C12_other leaves other arguments as they are.
// bound: 12 ordinary arguments, among them structs, lists and pointers that hold references
// covers: done
func H_C12_other() {
	s := gopoet.Symbol{Name: "R", Package: gopoet.Package{Name: "p", ImportPath: "a"}}
	n := 3
	args := []interface{}{nil, 5, "a.b", int8(-4), true, []int{1, 2}, map[string]int{"a": 1}, struct{ A, B int }{1, 2}, &n == nil, []byte("xy"), 'c', dNode{A: 5}}
	k := vChoose(len(args))
	for _, verb := range []string{"%v", "%d", "%q", "%#v", "%x", "%5v", "%T"} {
		got, f := c12Raw(gopoet.Printf(verb, args[k]), nil)
		vAssert(got == fmt.Sprintf(verb, args[k]), "an ordinary argument is not rendered as fmt does")
		vAssert(len(f.ImportSpecs()) == 0, "an ordinary argument causes an import")
	}
	got, f := c12Raw(gopoet.Printf("%[2]s %[1]d %[2]v %*d %%", 3, s, 4, 5), nil)
	vAssert(got == fmt.Sprintf("%[2]s %[1]d %[2]v %*d %%", 3, "p.R", 4, 5), "formatting is not that of fmt")
	vAssert(hasImport(&f.Imports, "a"), "the package of an argument is not imported")
	vCover("done")
}

// H_C12_template renders templates.
// bound: a template over a list of three references of all 26 kinds (the last two fixed), with text before and after, the packages any of a, b, own, three states of the file's imports
// covers: done
func H_C12_template() {
	g := &dgen{path: dPath, name: "p"}
	k := vChoose(dRefs)
	v := g.ref(k)
	_, ok := c12Want(k, v, dSame)
	vAssume(ok)
	g.path = func() string { return "b" }
	data := map[string]interface{}{"L": []interface{}{v, g.ref(0), g.ref(6)}, "S": dTyped{S: g.sym(), Str: "%s<"}}
	t := template.Must(template.New("t").Parse("{{range .L}}{{.}};{{end}}%d {{.S.S}} {{.S.Str}}"))
	var had []gopoet.ImportSpec
	cb := gopoet.Print("a").RenderCode(t, data).AddCode(gopoet.RenderCode(t, data).Print("z"))
	got, f := c12Raw(cb, func(f *gopoet.GoFile) { c12Pre(f); had = f.ImportSpecs() })
	var refs []gopoet.Symbol
	if k != 14 && k != 15 {
		refs = dSyms(v)
	}
	refs = append(refs, gopoet.NewSymbol("b", "x"))
	c12Imports(f, had, refs)
	q := func(s gopoet.Symbol) gopoet.Symbol { return c04Want(&f.Imports, "o", s) }
	w, _ := c12Want(k, v, q)
	pb := q(gopoet.Symbol{Name: "x", Package: gopoet.Package{Name: "p", ImportPath: "b"}}).Package.Name
	one := w + ";" + pb + ".R" + c12Num(k, 1) + ";" + pb + ".R" + c12Num(k, 2) + ";%d " + pb + ".R" + c12Num(k, 3) + " %s<"
	vObserve("text", got)
	vAssert(got == "a"+one+one+"z", "a template is not rendered with the qualifiers of its references")
	vCover("done")
}

// c12Num is the number of the i-th symbol after a reference of the kind.
func c12Num(k, i int) string {
	g := &dgen{path: func() string { return "b" }, name: "p"}
	g.ref(k)
	return strconv.Itoa(g.n + i)
}

// H_C12_places renders a reference in every place a code block can stand.
// bound: a reference of all 26 kinds in the body of a function or method or the initializer of a const or var, single or second of a group; packages a, b, own, three states of the file's imports
// covers: done
func H_C12_places() {
	g := &dgen{path: dPath, name: "p"}
	k := vChoose(dRefs)
	v := g.ref(k)
	_, ok := c12Want(k, v, dSame)
	vAssume(ok)
	cb := gopoet.Print("<[").Printf("%%%v,", v).Print("%]>")
	f := gopoet.NewGoFile("x.go", "o", "1")
	c12Pre(f)
	had := f.ImportSpecs()
	switch vChoose(6) {
	case 0:
		f.AddElement(gopoet.NewFunc("F").AddCode(cb))
	case 1:
		f.AddElement(gopoet.NewMethod(gopoet.NewReceiver("r", "T"), "F").Println("{{").AddCode(cb))
	case 2:
		f.AddConst(gopoet.NewConst("C").SetInitializer(cb))
	case 3:
		f.AddVar(gopoet.NewVar("V").SetType(gopoet.IntType).SetInitializer(cb))
	case 4:
		f.AddElement(gopoet.NewConstDecl(gopoet.NewConst("C").Initialize("1")).AddConst(gopoet.NewConst("D").Initialize("<[%%%v,%%]>", v)))
	case 5:
		f.AddElement(gopoet.NewVarDecl(gopoet.NewVar("C").Initialize("1"), gopoet.NewVar("D", "E").Initialize("<[%%%v,%%]>", v)).AddVar(gopoet.NewVar("G").Initialize("2")))
	}
	got := c12Body(f)
	var refs []gopoet.Symbol
	if k != 14 && k != 15 && k != 17 {
		refs = dSyms(v)
	}
	c12Imports(f, had, refs)
	w, _ := c12Want(k, v, func(s gopoet.Symbol) gopoet.Symbol { return c04Want(&f.Imports, "o", s) })
	vObserve("text", got)
	vAssert(got == "%"+w+",%", "a code block is not rendered with qualified references")
	vCover("done")
}

// H_C12_grow builds blocks from one another, step by step.
// bound: three blocks of 0..3, 0..1 and 0 pieces; all sequences of 3 steps (4 in the thorough tier), each adding a piece to a block or the contents of a block to a block, itself included
// covers: done
func H_C12_grow() {
	var cb [3]gopoet.CodeBlock
	var want [3]string
	n := 0
	add := func(i int) {
		t := string([]byte{vByte()}) + strconv.Itoa(n)
		n++
		cb[i].Print(t)
		want[i] += t
	}
	for i := range cb {
		if i < 2 {
			for k := vChoose(4 - 2*i); k > 0; k-- {
				add(i)
			}
		}
	}
	for s := 0; s < 3+vTier(); s++ {
		i, j := vChoose(3), vChoose(4)
		if j == 3 {
			add(i)
			continue
		}
		cb[i].AddCode(&cb[j])
		want[i] += want[j]
	}
	for i := range cb {
		got, _ := c12Raw(&cb[i], nil)
		vObserve("text", got)
		vAssert(vEqStr(got, want[i]), "the text of a code block is not what was added to it")
	}
	vCover("done")
}
