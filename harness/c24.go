package main

import (
	"bytes"
	"go/format"
	"go/parser"
	"go/token"
	"strings"

	"github.com/jhump/gopoet"
)

// c24Place puts the code into a file in some place.
func c24Place(f *gopoet.GoFile, k int, cb *gopoet.CodeBlock) {
	switch k {
	case 0:
		f.AddElement(gopoet.NewFunc("F").AddCode(cb))
	case 1:
		f.AddVar(gopoet.NewVar("V").SetInitializer(cb))
	case 2:
		f.AddElement(gopoet.NewConstDecl(gopoet.NewConst("C").SetInitializer(cb), gopoet.NewConst("D").Initialize("2")))
	case 3:
		f.AddElement(gopoet.NewMethod(gopoet.NewReceiver("r", "T"), "M").Println("f(").AddCode(cb).Println(")"))
	}
}

// c24Text is a plain source of what c24Place makes.
func c24Text(k int, code string) string {
	switch k {
	case 0:
		return "func F() {\n" + code + "}\n"
	case 1:
		return "var V = " + code + "\n"
	case 2:
		return "const (\nC = " + code + "\nD = 2\n)\n"
	default:
		return "func (r T) M() {\nf(\n" + code + ")\n\n}\n"
	}
}

// c24Plain compares what became of the file with a plain source of the same
// declarations.
func c24Plain(f *gopoet.GoFile, code, text string) {
	_, perr := parser.ParseFile(token.NewFileSet(), "x.go", "package o\n\n"+text, parser.SkipObjectResolution)
	ok := c24Check(f, code)
	vAssert(ok || perr != nil, "a file that is Go is refused")
	vAssert(!ok || perr == nil, "a file that is no Go is written as something else")
}

// c24Check renders the file: either the source is Go and in its canonical
// format, or nothing is written and all of it is reported.
func c24Check(f *gopoet.GoFile, code string) bool {
	out := &wOut{}
	err := gopoet.WriteGoFile(out, f)
	if err == nil {
		vCover("go")
		vObserve("source", string(out.data))
		parseFile(string(out.data))
		return true
	}
	fe, ok := err.(*gopoet.FormatError)
	vAssert(ok, "a file that is no Go is not refused with a FormatError")
	vAssert(len(out.data) == 0, "a file that is no Go is written")
	vAssert(fe.Err != nil, "a FormatError has no cause")
	vAssert(fe.Error() == fe.Err.Error(), "a FormatError does not tell its cause")
	vObserve("unformatted", string(fe.Unformatted))
	vAssert(strings.Contains(string(fe.Unformatted), code), "the source reported lacks some of the code")
	// it is reported rightly
	_, perr := parser.ParseFile(token.NewFileSet(), "x.go", fe.Unformatted, parser.SkipObjectResolution)
	vAssert(perr != nil, "a file that is Go is refused")
	vCover("refused")
	return false
}

// H_C24_code renders arbitrary code.
// bound: code of 0..2 arbitrary bytes in a body or initializer, 0..1 (2 thorough) in a group of constants or a call
// covers: go refused
func H_C24_code() {
	place, n := vChoose(4), 3
	if place > 1 {
		n = 2 + vTier()
	}
	b := make([]byte, vChoose(n))
	for i := range b {
		b[i] = vByte()
	}
	code := string(b)
	f := gopoet.NewGoFile("x.go", "o", "o")
	c24Place(f, place, gopoet.Print(code))
	c24Plain(f, code, c24Text(place, code))
}

// H_C24_tokens renders arbitrary sequences of Go tokens as code.
// bound: code of 3 tokens (4 in the thorough tier) of a set of 14, among them all brackets, quotes and comment markers, in a body, call or initializer
// covers: go refused
func H_C24_tokens() {
	toks := []string{"x", "1", "{", "}", "(", ")", ";", "\n", "//", "/*", "*/", "`", "\"", "="}
	code := ""
	for n := 0; n < 3+vTier(); n++ {
		if n > 0 {
			code += " "
		}
		code += toks[vChoose(len(toks))]
	}
	f := gopoet.NewGoFile("x.go", "o", "o")
	k := vChoose(4)
	c24Place(f, k, gopoet.Print(code))
	c24Plain(f, code, c24Text(k, code))
}

// H_C24_pieces renders code that ends and begins declarations.
// bound: code of 3 of 20 pieces (the third of 6 in the quick tier; ends of blocks, beginnings of declarations, comments and literals, whole statements) in the body of a function, with an empty function, type, group or nothing behind it
// covers: go refused
func H_C24_pieces() {
	ps := []string{"", "}", "{", "}//{", "}\n\nfunc G() {", "}\n\ntype t struct {", "}\n\nvar _ = func() {", "}\n/*", "*/", "/*x*/", "x()", "if x {", "return `", "`", "\"", "switch {", "case 1:", "}, {", "}; import \"x\"; func g() {", "label:"}
	code := ""
	for n := 0; n < 3; n++ {
		m := len(ps)
		if n == 2 && vTier() == 0 {
			m = 6
		}
		if p := ps[vChoose(m)]; p != "" {
			code += p + "\n"
		}
	}
	f := gopoet.NewGoFile("x.go", "o", "o")
	k := vChoose(5)
	if k == 4 {
		code = strings.TrimSuffix(code, "\n")
	}
	f.AddElement(gopoet.NewFunc("F").Print(code))
	text := "func F() {\n" + code + "}\n"
	switch k {
	case 1:
		text += "func H() {\n}\n"
		f.AddElement(gopoet.NewFunc("H"))
	case 2:
		text += "type S struct {\n}\n"
		f.AddType(gopoet.NewStructTypeSpec("S"))
	case 3:
		text += "func (S) H() {\n// {\n}\nconst (\nC = 1\n)\n"
		f.AddElement(gopoet.NewMethod(gopoet.NewReceiver("", "S"), "H").Println("// {")).AddElement(gopoet.NewConstDecl(gopoet.NewConst("C").Initialize("1")))
	}
	c24Plain(f, strings.TrimSuffix(code, "\n"), text)
}

// H_C24_names renders elements with arbitrary names.
// bound: the name of the package, of a const, var, type, function, receiver, argument, field or method of 1 arbitrary byte, alone, before or after an x (any 2 bytes in the thorough tier)
// covers: go refused
func H_C24_names() {
	name := string([]byte{vByte()})
	switch vChoose(3 + vTier()) {
	case 1:
		name += "x"
	case 2:
		name = "x" + name
	case 3:
		name += string([]byte{vByte()})
	}
	f := gopoet.NewGoFile("x.go", "o", "o")
	switch vChoose(9) {
	case 0:
		f.PackageName = name
	case 1:
		f.AddConst(gopoet.NewConst(name).Initialize("1"))
	case 2:
		f.AddVar(gopoet.NewVar("a", name).SetType(gopoet.IntType))
	case 3:
		f.AddType(gopoet.NewTypeSpec(name, gopoet.IntType))
	case 4:
		f.AddElement(gopoet.NewFunc(name))
	case 5:
		f.AddElement(gopoet.NewMethod(gopoet.NewReceiver(name, "T"), "M"))
	case 6:
		f.AddElement(gopoet.NewFunc("F").AddArg(name, gopoet.IntType))
	case 7:
		f.AddType(gopoet.NewStructTypeSpec("S", gopoet.NewField(name, gopoet.IntType)))
	case 8:
		f.AddType(gopoet.NewInterfaceTypeSpec("I", gopoet.NewInterfaceMethod(name)))
	}
	c24Check(f, name)
}

// H_C24_canonical formats the source that was written again.
// bound: each of 28 kinds of elements, with a type of any kind of depth 1 at its first type, after a function with code in a poor format
// covers: done
func H_C24_canonical() {
	g := newFgen("o")
	fewPaths(g, 0)
	g.at = 1
	g.f.AddElement(gopoet.NewFunc("Z").Println("if  a{b  ( ) ;c()}").Print("\t\tx:=  map[ string]int{\"a\":1,").Println("\"bcd\":  2}"))
	g.elem(vChoose(fKinds))
	one := rendered(g.f)
	vObserve("source", one)
	two, err := format.Source([]byte(one))
	vAssert(err == nil, "the source written does not parse")
	vAssert(bytes.Equal(two, []byte(one)), "the source written is not in its canonical format")
	vCover("done")
}
