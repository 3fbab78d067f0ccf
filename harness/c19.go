package main

import (
	"bytes"
	"strings"

	"github.com/jhump/gopoet"
)

// c19Places are the places a comment can be at, and the start of the line of
// code that follows each, without white space. The first two are the comment of
// the file and the documentation of the package.
var c19Places = []string{
	"package", "package",
	"const(", "C1", "C2", // a group of consts
	"constC3", "const(", "C4", // a single one; a single one in a commented declaration
	"var(", "V1", "V2", "varV3", "var(", "V4",
	"type(", "T1", "T2", "typeT3", "type(", "T4",
	"typeS1", "F1", "*p.E1", "F2struct{", "F3", "F4interface{", "M1(", "p.E2", // a struct and unnamed types in it
	"typeI1", "M2(", "p.E3", "M3(", // an interface
	"typeS2=", "F5", "typeS3", "F6", // declared as an unnamed type
	"F7", "M4(", "F8", // in the types of a const and vars
	"funcG1(", "func(rT1)G2(",
}

// c19File builds a file with the comments given.
func c19File(pkg string, at func(i int) string) *gopoet.GoFile {
	f, _, _ := c19Parts(pkg, at)
	return f
}

// c19Parts is c19File and its fields and interface elements.
func c19Parts(pkg string, at func(i int) string) (*gopoet.GoFile, []*gopoet.FieldSpec, []gopoet.InterfaceElement) {
	var fs []*gopoet.FieldSpec
	var es []gopoet.InterfaceElement
	fld := func(n string, t gopoet.TypeNameOrSpec) *gopoet.FieldSpec {
		fs = append(fs, gopoet.NewField(n, t))
		return fs[len(fs)-1]
	}
	meth := func(n string) *gopoet.InterfaceMethod {
		m := gopoet.NewInterfaceMethod(n)
		es = append(es, m)
		return m
	}
	emb := func(s gopoet.Symbol) *gopoet.InterfaceEmbed {
		e := gopoet.NewInterfaceEmbed(s)
		es = append(es, e)
		return e
	}
	n := -1
	c := func() string { n++; return at(n) }
	ref := func(s string) gopoet.Symbol {
		return gopoet.Symbol{Name: s, Package: gopoet.Package{ImportPath: "p", Name: "p"}}
	}
	f := gopoet.NewGoFile("x.go", "o", pkg)
	f.FileComment = c()
	f.PackageComment = c()
	f.AddElement(gopoet.NewConstDecl().SetComment(c()).
		AddConst(gopoet.NewConst("C1").Initialize("1").SetComment(c())).
		AddConst(gopoet.NewConst("C2").Initialize("2").SetComment(c())))
	f.AddConst(gopoet.NewConst("C3").Initialize("3").SetComment(c()))
	f.AddElement(gopoet.NewConstDecl().SetComment(c19Forced(c())).AddConst(gopoet.NewConst("C4").SetType(gopoet.IntType).Initialize("4").SetComment(c())))
	f.AddElement(gopoet.NewVarDecl().SetComment(c()).
		AddVar(gopoet.NewVar("V1").Initialize("1").SetComment(c())).
		AddVar(gopoet.NewVar("V2", "W2").SetType(gopoet.IntType).SetComment(c())))
	f.AddVar(gopoet.NewVar("V3").SetType(gopoet.NamedType(ref("X1"))).SetComment(c()))
	f.AddElement(gopoet.NewVarDecl().SetComment(c19Forced(c())).AddVar(gopoet.NewVar("V4").SetType(gopoet.IntType).SetComment(c())))
	f.AddElement(gopoet.NewTypeDecl().SetComment(c()).
		AddType(gopoet.NewTypeSpec("T1", gopoet.IntType).SetComment(c())).
		AddType(gopoet.NewTypeAlias("T2", gopoet.IntType).SetComment(c())))
	f.AddType(gopoet.NewTypeSpec("T3", gopoet.SliceType(gopoet.IntType)).SetComment(c()))
	f.AddElement(gopoet.NewTypeDecl().SetComment(c19Forced(c())).AddType(gopoet.NewTypeSpec("T4", gopoet.IntType).SetComment(c())))

	s1 := c()
	fields := []*gopoet.FieldSpec{
		fld("F1", gopoet.StringType).SetTag("k:\"v\"").SetComment(c()),
		fld("", gopoet.PointerType(gopoet.NamedType(ref("E1")))).SetComment(c()),
	}
	f2 := c()
	f3 := fld("F3", gopoet.IntType).SetComment(c())
	fields = append(fields, fld("F2", gopoet.NewStructTypeSpec("", f3)).SetComment(f2))
	f4 := c()
	m1 := meth("M1").SetComment(c())
	e2 := emb(ref("E2")).SetComment(c())
	fields = append(fields, fld("F4", gopoet.NewInterfaceTypeSpec("", m1, e2)).SetComment(f4).SetTag("t"))
	f.AddType(gopoet.NewStructTypeSpec("S1", fields...).SetComment(s1))

	i1 := c()
	f.AddType(gopoet.NewInterfaceTypeSpec("I1",
		meth("M2").AddArg("a", gopoet.IntType).SetComment(c()),
		emb(ref("E3")).SetComment(c()),
		meth("M3").AddResult("", gopoet.ErrorType).SetComment(c())).SetComment(i1))

	s2 := c()
	f.AddType(gopoet.NewTypeAlias("S2", gopoet.NewStructTypeSpec("", fld("F5", gopoet.IntType).SetComment(c()))).SetComment(s2))
	s3 := c()
	f.AddType(gopoet.NewTypeSpec("S3", gopoet.NewStructTypeSpec("", fld("F6", gopoet.IntType).SetComment(c()))).SetComment(s3))

	f.AddVar(gopoet.NewVar("V5").SetType(gopoet.NewStructTypeSpec("", fld("F7", gopoet.IntType).SetComment(c()))))
	f.AddElement(gopoet.NewVarDecl(gopoet.NewVar("V6").SetType(gopoet.NewInterfaceTypeSpec("", meth("M4").SetComment(c()))),
		gopoet.NewVar("V7").Initialize("7")))
	f.AddConst(gopoet.NewConst("C5").SetType(gopoet.NewStructTypeSpec("", fld("F8", gopoet.IntType).SetComment(c()))).Initialize("0"))

	f.AddElement(gopoet.NewFunc("G1").SetComment(c()).AddArg("a", gopoet.NamedType(ref("X2"))).Println("_ = 1"))
	f.AddElement(gopoet.NewMethod(gopoet.NewReceiver("r", "T1"), "G2").SetComment(c()))
	vAssert(n == len(c19Places)-1, "the harness has other places")
	return f, fs, es
}

// c19Forced is the comment of a declaration of a single element: without one it
// is rendered in another form.
func c19Forced(s string) string {
	if s == "" {
		return "forced"
	}
	return s
}

// c19Lines are the lines of a comment.
func c19Lines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

// c19Squeeze is a line without white space.
func c19Squeeze(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ', '\t', '\r':
		default:
			b = append(b, s[i])
		}
	}
	return string(b)
}

// c19Check compares the text of a file with comments to the one without. In
// formatted text lines of comments without text come and go.
func c19Check(got, bare string, at func(i int) string, formatted bool) {
	var code []string
	for _, l := range strings.Split(bare, "\n") {
		if l = c19Squeeze(l); l != "" && l[0] != '/' {
			code = append(code, l)
		}
	}
	want := func(i int) []string {
		s := at(i)
		if i == 6 || i == 12 || i == 18 {
			s = c19Forced(s)
		}
		return c19Lines(s)
	}
	place := 0
	n := 0
	var cur []string // the comment lines since the last line of code
	var gap = -1     // the number of comment lines before the last blank line
	for _, l := range strings.Split(got, "\n") {
		t := strings.TrimLeft(l, " \t")
		if strings.HasPrefix(t, "//") {
			t = t[2:]
			vAssert(t == "" || t[0] == ' ' || t[0] == '\t', "the text of a comment is rendered as a directive")
			cur = append(cur, t)
			continue
		}
		t = c19Squeeze(l)
		if t == "" {
			gap = len(cur)
			continue
		}
		vAssert(n < len(code), "the code has more lines than without comments")
		vAssert(vEqStr(t, code[n]), "the code differs from that without comments")
		n++
		var expect []string
		if n == 1 {
			first := want(0)
			if formatted {
				first = c19NonBlank(first)
				cur, gap = c19NonBlankGap(cur, gap)
			}
			if len(first) > 0 {
				vAssert(gap == len(first), "the comment of the file is not set apart from that of the package")
				vCover("file")
			} else {
				vAssert(gap <= 0, "the comment of the package is set apart from it")
			}
			expect = append(first, want(1)...)
			place = 2
		} else if place < len(c19Places) && strings.HasPrefix(code[n-1], c19Places[place]) {
			expect = want(place)
			place++
			if len(cur) > 0 {
				vAssert(gap <= 0, "a comment is set apart from what it is on")
			}
		}
		if formatted {
			expect = c19NonBlank(expect)
			cur = c19NonBlank(cur)
		}
		vAssert(len(cur) == len(expect), "a comment has more or fewer lines")
		for i := range expect {
			if formatted {
				vAssert(vEqStr(c19Squeeze(cur[i]), c19Squeeze(expect[i])), "a line of a comment has another text")
				continue
			}
			// the text may be set apart from the marker
			c, e := cur[i], expect[i]
			if len(c) == len(e)+1 {
				c = c[1:]
			}
			if e == "" {
				c = strings.TrimLeft(c, " \t")
			}
			vAssert(vEqStr(strings.TrimRight(c, " \t\r"), strings.TrimRight(e, " \t\r")), "a line of a comment has another text")
		}
		cur, gap = nil, -1
	}
	vAssert(n == len(code), "the code has fewer lines than without comments")
	vAssert(place == len(c19Places), "a place for a comment is not in the file")
	vAssert(len(cur) == 0, "there is a comment at the end of the file")
}

func c19NonBlank(ls []string) []string {
	var ret []string
	for _, l := range ls {
		if c19Squeeze(l) != "" {
			ret = append(ret, l)
		}
	}
	return ret
}

func c19NonBlankGap(ls []string, gap int) ([]string, int) {
	if gap > 0 {
		gap = len(c19NonBlank(ls[:gap]))
	}
	return c19NonBlank(ls), gap
}

// c19Raw is the text of a file before it is formatted.
func c19Raw(f *gopoet.GoFile) string {
	var b bytes.Buffer
	err := gopoet.WriteGoFile(&b, f)
	fe, ok := err.(*gopoet.FormatError)
	vAssert(ok, "a file without a legal package clause is not refused with a FormatError")
	return string(fe.Unformatted)
}

// c19At is one comment at a place of 41, and others around it or none.
func c19At(text string, place int, others bool) func(i int) string {
	return func(i int) string {
		switch {
		case i == place:
			return text
		case others:
			return "c" + string([]byte{'a' + byte(i/10), '0' + byte(i%10)})
		}
		return ""
	}
}

// H_C19_text writes a comment of arbitrary bytes at every place, and looks at the source before it is formatted.
// bound: a comment of 0..3 arbitrary bytes (4 thorough) at any of 41 places, with and without comments at all others
// covers: empty lines file done
func H_C19_text() {
	b := make([]byte, vChoose(4+vTier()))
	for i := range b {
		b[i] = vByte()
	}
	if len(b) == 0 {
		vCover("empty")
	}
	text := string(b)
	at := c19At(text, vChoose(len(c19Places)), vChoose(2) == 1)
	got := c19Raw(c19File("1", at))
	if len(c19Lines(text)) > 1 {
		vCover("lines")
	}
	bare := c19Raw(c19File("1", func(int) string { return "" }))
	c19Check(got, bare, at, false)
	vCover("done")
}

const c19Set = "aZ0/*\"`'{}()[];:=,.!%\\~@$^&|?<>_\n"

// H_C19_format writes a comment at every place and looks at the source as it is written out.
// bound: a comment of 2 bytes (3 thorough), each any of the letters a and Z, the digit 0, the line break and 31 punctuation characters (other than those that start lists and headings, which the formatter of Go rearranges, as it does pairs of quotes), at any of 41 places, with and without comments at all others
// covers: lines file done
func H_C19_format() {
	b := make([]byte, 2+vTier())
	for i := range b {
		b[i] = vByteIn(c19Set)
		if i > 0 {
			// the formatter of Go turns pairs of quotes into typographic ones
			vAssume(vNot(vAnd(b[i] == b[i-1], vOr(b[i] == '`', b[i] == '\''))))
		}
	}
	text := string(b)
	at := c19At(text, vChoose(len(c19Places)), vChoose(2) == 1)
	got := rendered(c19File("own", at))
	if len(c19Lines(text)) > 1 {
		vCover("lines")
	}
	bare := rendered(c19File("own", func(int) string { return "" }))
	c19Check(got, bare, at, true)
	vCover("done")
}

var c19Words = []string{"go:build x", "+build x", "go:noinline", "line y.go:1", "package q", "import \"C\"", "export F", "/*", "*/", "//", "/* x */", "\r\n", "func X() {}", "}\n\nfunc X() {\n", "Code generated by x. DO NOT EDIT.", "Deprecated: x", "\n\n\n", " x", "\tx", "x ", "%d%s%", "TODO(x): y", "nolint:x", "\u2028\u00e9", "`", "\""}

// H_C19_words writes comments that look like code or instructions to tools.
// bound: any of 26 texts, alone or around an arbitrary byte, at any of 41 places, with comments at all others, before formatting; in the thorough tier also before or after the byte, any two texts around one, and with no comments at the others
// covers: file done
func H_C19_words() {
	w := c19Words[vChoose(len(c19Words))]
	text := w
	switch vChoose(2 + 3*vTier()) {
	case 1:
		text = w + string([]byte{vByte()}) + w
	case 2:
		text = string([]byte{vByte()}) + w
	case 3:
		text = w + string([]byte{vByte()})
	case 4:
		text = w + string([]byte{vByte()}) + c19Words[vChoose(len(c19Words))]
	}
	at := c19At(text, vChoose(len(c19Places)), vTier() == 0 || vChoose(2) == 1)
	got := c19Raw(c19File("1", at))
	bare := c19Raw(c19File("1", func(int) string { return "" }))
	c19Check(got, bare, at, false)
	vCover("done")
}

var c19Tokens = []string{"/*", "*/", "//", "\n", "x", "}", "`"}

// H_C19_markers writes comments made of markers.
// bound: any sequence of 1..3 (5 thorough) of the markers of block and line comments, line breaks, letters, braces and back quotes, at 3 of 41 places, with comments at all others, before formatting
// covers: file done
func H_C19_markers() {
	text := ""
	for i := 1 + vChoose(3+2*vTier()); i > 0; i-- {
		text += c19Tokens[vChoose(len(c19Tokens))]
	}
	at := c19At(text, []int{0, 3, 20}[vChoose(3)], true)
	got := c19Raw(c19File("1", at))
	bare := c19Raw(c19File("1", func(int) string { return "" }))
	c19Check(got, bare, at, false)
	vCover("done")
}
