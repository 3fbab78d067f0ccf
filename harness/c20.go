package main

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/token"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/jhump/gopoet"
)

// c20Tag is any tag of up to n bytes.
func c20Tag(n int) string {
	b := make([]byte, vChoose(n+1))
	for i := range b {
		b[i] = vByte()
	}
	return string(b)
}

const c20Contexts = 16

// c20File puts a field with a tag, of one of several types, somewhere in a
// file. The field is called Fx and followed by one called Gx without a tag.
func c20File(f *gopoet.GoFile, tag string, ctx, kind int) {
	st := reflect.StructTag(tag)
	ref := gopoet.NamedType(gopoet.Symbol{Name: "T", Package: gopoet.Package{ImportPath: "p", Name: "p"}})
	types := []gopoet.TypeName{gopoet.IntType, gopoet.PointerType(ref), gopoet.StructType(), gopoet.InterfaceType(nil), ref}
	name := "Fx"
	if kind == len(types)-1 { // an embedded field
		name = ""
	}
	t := types[kind]
	str := gopoet.StructType(gopoet.FieldType{Name: name, Type: t, Tag: st}, gopoet.FieldType{Name: "Gx", Type: gopoet.IntType})
	spec := func(n string) *gopoet.TypeSpec {
		fs := gopoet.NewField(name, t).SetTag(tag)
		if kind == 2 {
			fs = gopoet.NewField(name, gopoet.NewStructTypeSpec("")).SetTag(tag)
		}
		return gopoet.NewStructTypeSpec(n, fs, gopoet.NewField("Gx", gopoet.IntType))
	}
	switch ctx {
	case 0:
		f.AddType(spec("S"))
	case 1:
		f.AddType(gopoet.NewTypeSpec("S", str))
	case 2:
		f.AddType(gopoet.NewTypeSpec("S", spec("")))
	case 3:
		f.AddType(gopoet.NewTypeAlias("S", spec("")))
	case 4:
		f.AddType(gopoet.NewStructTypeSpec("S", gopoet.NewField("A", spec("")).SetComment("c").SetTag("other")))
	case 5:
		f.AddType(gopoet.NewStructTypeSpec("S", gopoet.NewField("A", str)))
	case 6:
		f.AddVar(gopoet.NewVar("v").SetType(spec("")))
	case 7:
		f.AddVar(gopoet.NewVar("v").SetType(str))
	case 8:
		f.AddType(gopoet.NewTypeSpec("S", gopoet.SliceType(gopoet.PointerType(str))))
	case 9:
		f.AddElement(gopoet.NewFunc("F").AddArg("a", gopoet.MapType(gopoet.IntType, str)))
	case 10:
		f.AddElement(gopoet.NewFunc("F").Printlnf("_ = %s{}", str))
	case 11:
		f.AddElement(gopoet.NewFunc("F").Printlnf("_ = %v{}", spec("")))
	case 12:
		f.AddType(gopoet.NewInterfaceTypeSpec("S", gopoet.NewInterfaceMethod("M").AddResult("", str)))
	case 13:
		f.AddType(gopoet.NewTypeSpec("S", gopoet.StructType(gopoet.FieldType{Name: "A", Type: gopoet.StructType(gopoet.FieldType{Name: "B", Type: str, Tag: "inner"}), Tag: "outer"})))
	case 14:
		f.AddConst(gopoet.NewConst("c").SetType(spec("")).Initialize("0"))
	case 15:
		f.AddElement(gopoet.NewVarDecl(gopoet.NewVar("v").SetType(gopoet.IntType), gopoet.NewVar("w").SetType(gopoet.NewTypeSpec("", str))))
	}
}

// c20Literal reads a Go string literal with nothing but white space around it.
// There is none in an empty text.
func c20Literal(s string) (string, bool) {
	s = strings.Trim(s, " \t\n;")
	if s == "" {
		return "", true
	}
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == 0 || r == 0xfeff || n == 1 && r == utf8.RuneError {
			return "", false // not in a source of Go
		}
		i += n
	}
	v, err := strconv.Unquote(s)
	return v, err == nil && s[0] != '\''
}

// c20Around is what is before and after the tag in the text made by f, and in
// that made with other tags.
func c20Around(f func(tag string) string) (string, string) {
	s := f("Qq")
	i := strings.Index(s, "Qq")
	vAssert(i > 0, "the tag is not rendered")
	j := i + 2
	vAssert(j < len(s) && s[i-1] == s[j] && (s[j] == '"' || s[j] == '`'), "the tag is not a string literal")
	before, after := strings.TrimRight(s[:i-1], " \t"), strings.TrimLeft(s[j+1:], " \t")
	vAssert(strings.Index(after, "Qq") < 0, "the tag is rendered more than once")
	return before, after
}

// c20Check compares the tag in the text made by f.
func c20Check(f func(tag string) string, tag string) {
	before, after := c20Around(f)
	s := f(tag)
	vAssert(strings.HasPrefix(s, before), "the text before the tag depends on it")
	s = s[len(before):]
	vAssert(strings.HasSuffix(s, after), "the text after the tag depends on it")
	s = s[:len(s)-len(after)]
	got, ok := c20Literal(s)
	vAssert(ok, "the tag is not a string literal")
	vAssert(vEqStr(got, tag), "the tag has another value")
	switch t := strings.TrimLeft(s, " \t\n"); {
	case t == "" || t[0] == ';':
		vAssert(tag == "", "the tag is not rendered")
		vCover("none")
	case t[0] == '"':
		vCover("quoted")
	default:
		vCover("raw")
	}
}

// H_C20_text reads the tag in the source before it is formatted.
// bound: a tag of 0..1 arbitrary bytes (2 at two of the places, 2 everywhere in the thorough tier) on a field of 5 kinds of type (a struct, an interface and an embedded one among them) in a struct at 16 kinds of places
// covers: none quoted raw done
func H_C20_text() {
	ctx, kind := vChoose(c20Contexts), vChoose(5)
	n := 1
	if vTier() > 0 || kind == 0 && (ctx == 1 || ctx == 4) {
		n = 2
	}
	tag := c20Tag(n)
	c20Check(func(tag string) string {
		f := gopoet.NewGoFile("x.go", "o", "1")
		c20File(f, tag, ctx, kind)
		var b bytes.Buffer
		fe, ok := gopoet.WriteGoFile(&b, f).(*gopoet.FormatError)
		vAssert(ok, "a file without a legal package clause is not refused with a FormatError")
		return string(fe.Unformatted)
	}, tag)
	vCover("done")
}

// H_C20_type reads the tag in the text of a type.
// bound: a tag of 0..2 arbitrary bytes (3 thorough) on the first, second or an embedded field in the type itself, of 0..1 (2 thorough) in one it is made of
// covers: none quoted raw done
func H_C20_type() {
	which, in := vChoose(4), vChoose(4)
	n := 1
	if in == 0 {
		n = 2
	}
	tag := c20Tag(n + vTier())
	c20Check(func(tag string) string {
		fld := gopoet.FieldType{Name: "F", Type: gopoet.IntType, Tag: reflect.StructTag(tag)}
		emb := gopoet.FieldType{Type: gopoet.NamedType(gopoet.Symbol{Name: "F"}), Tag: reflect.StructTag(tag)}
		oth := gopoet.FieldType{Name: "G", Type: gopoet.IntType}
		var t gopoet.TypeName
		switch which {
		case 0:
			t = gopoet.StructType(fld, oth)
		case 1:
			t = gopoet.StructType(oth, fld)
		case 2:
			t = gopoet.StructType(oth, emb)
		case 3:
			t = gopoet.StructType(fld)
		}
		switch in {
		case 1:
			t = gopoet.ChannelType(t, reflect.BothDir)
		case 2:
			t = gopoet.FuncType([]gopoet.ArgType{{Type: t}}, nil)
		case 3:
			t = gopoet.StructType(gopoet.FieldType{Name: "A", Type: t, Tag: "x"})
		}
		return t.String()
	}, tag)
	vCover("done")
}

// H_C20_parsed parses the source as it is written out.
// bound: a tag of 1 arbitrary byte (2 thorough) between two fixed ones, on a field of 5 kinds of type at 16 kinds of places
// covers: done
func H_C20_parsed() {
	b := []byte{vByte()}
	if vTier() > 0 {
		b = append(b, vByte())
	}
	tag := "k:" + string(b) + "\""
	ctx, kind := vChoose(c20Contexts), vChoose(5)
	f := gopoet.NewGoFile("x.go", "o", "own")
	c20File(f, tag, ctx, kind)
	file, err := parser.ParseFile(token.NewFileSet(), "x.go", rendered(f), 0)
	vAssert(err == nil, "the source does not parse")
	n := 0
	ast.Inspect(file, func(x ast.Node) bool {
		st, ok := x.(*ast.StructType)
		if !ok || len(st.Fields.List) != 2 {
			return true
		}
		n++
		first, second := st.Fields.List[0], st.Fields.List[1]
		vAssert(second.Tag == nil, "a field without a tag gets one")
		vAssert(first.Tag != nil, "the tag is not rendered")
		v, err := strconv.Unquote(first.Tag.Value)
		vAssert(err == nil, "the tag is not a string literal")
		vAssert(vEqStr(v, tag), "the tag has another value")
		return true
	})
	vAssert(n > 0, "the struct is not rendered")
	vCover("done")
}

// H_C20_runes reads tags with characters of several bytes.
// bound: any sequence of 3 bytes that starts with 0xe0..0xef (in the thorough tier also of 4 that starts with 0xf0..0xff), alone, in the text of a type; in the thorough tier also after an x or before a quote, and at two kinds of places of a file before formatting
// covers: quoted raw done
func H_C20_runes() {
	b := []byte{vByte(), vByte(), vByte()}
	if vTier() > 0 && vChoose(2) == 0 {
		vAssume(b[0] >= 0xf0)
		b = append(b, vByte())
	} else {
		vAssume(vAnd(b[0] >= 0xe0, b[0] < 0xf0))
	}
	tag := string(b)
	switch vChoose(1 + 2*vTier()) {
	case 1:
		tag = "x" + tag
	case 2:
		tag += "\""
	}
	in := vChoose(1 + 2*vTier())
	c20Check(func(tag string) string {
		if in == 0 {
			return gopoet.StructType(gopoet.FieldType{Name: "F", Type: gopoet.IntType, Tag: reflect.StructTag(tag)}).String()
		}
		f := gopoet.NewGoFile("x.go", "o", "1")
		c20File(f, tag, []int{0, 8}[in-1], 0)
		return c20Raw(f)
	}, tag)
	vCover("done")
}

func c20Raw(f *gopoet.GoFile) string {
	var b bytes.Buffer
	fe, ok := gopoet.WriteGoFile(&b, f).(*gopoet.FormatError)
	vAssert(ok, "a file without a legal package clause is not refused with a FormatError")
	return string(fe.Unformatted)
}

var c20Words = []string{"json:\"a,omitempty\" xml:\"b\"", "`", "``", "\"", "\\", "\\n", "\n", "\r\n", "\t", "\ufeff", "\u2028", "\u00e9", "\U0001f600", "\x7f", "\x00", "\xff", "%s %d %", "${x}", "*/", "// x", "/* x", " ", "'", "json:\"`\"", strings.Repeat("long ", 60), "\u00a0", "\u200b", "\ud7ff\ue000"}

// H_C20_words reads tags with texts of all kinds.
// bound: any of 28 texts (quotes, escapes, line breaks, control and format characters, comment markers, long ones), alone, twice or before an arbitrary byte (in the thorough tier also after or around one), in the text of a type and at 3 (16 thorough) kinds of places of a file before formatting
// covers: quoted raw done
func H_C20_words() {
	tag := c20Words[vChoose(len(c20Words))]
	switch vChoose(3 + 2*vTier()) {
	case 1:
		tag += tag
	case 2:
		tag += string([]byte{vByte()})
	case 3:
		tag = string([]byte{vByte()}) + tag
	case 4:
		tag += string([]byte{vByte()}) + tag
	}
	in := c20Contexts - vChoose(4)*5
	if vTier() > 0 {
		in = vChoose(c20Contexts + 1)
	}
	c20Check(func(tag string) string {
		if in == c20Contexts {
			return gopoet.StructType(gopoet.FieldType{Name: "F", Type: gopoet.IntType, Tag: reflect.StructTag(tag)}).String()
		}
		f := gopoet.NewGoFile("x.go", "o", "1")
		c20File(f, tag, in, 0)
		return c20Raw(f)
	}, tag)
	vCover("done")
}
