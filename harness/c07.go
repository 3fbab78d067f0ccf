package main

import (
	"reflect"

	"github.com/jhump/gopoet"
)

// c07Sym makes references with arbitrary one-letter names, from no package, or
// through an arbitrary qualifier.
func c07Sym() func() gopoet.Symbol {
	n := 0
	return func() gopoet.Symbol {
		n++
		s := gopoet.Symbol{Name: vIdent("TUV", idRest, 1+n%2)}
		if n%3 != 0 {
			s.Package = gopoet.Package{Name: vIdent("xyz_", idRest, 2), ImportPath: "some/path"}
		}
		return s
	}
}

func c07Names() func() string {
	n := 0
	return func() string {
		n++
		return vIdent("qvwMF_", idRest, 1+n%2)
	}
}

func c07Check(t gopoet.TypeName) {
	text := t.String()
	vObserve("text", text)
	e, ok := parseType(text)
	vAssert(ok, "text is not a Go type")
	vAssert(matchType(e, t), "text denotes another type")
	vCover("done")
}

// c07Short makes references with arbitrary names of one letter.
func c07Short() func() gopoet.Symbol {
	n := 0
	return func() gopoet.Symbol {
		n++
		s := gopoet.Symbol{Name: vIdent(upper, "", 1)}
		if n%3 != 0 {
			s.Package = gopoet.Package{Name: vIdent(lower, "", 1), ImportPath: "some/path"}
		}
		return s
	}
}

// H_C07_deep prints nested types.
// bound: all types of nesting depth 2 along a spine (3 in the thorough tier) over all kinds, references to arbitrary one-letter names
// covers: done
func H_C07_deep() {
	g := &tgen{sym: c07Short(), kinds: "bnpsamcfti"}
	c07Check(g.typ(2 + vTier()))
}

// H_C07_wide prints types with parts side by side.
// bound: all types of depth 2 (3 in the thorough tier) with siblings on both sides, references to arbitrary one-letter names
// covers: done
func H_C07_wide() {
	g := &tgen{sym: c07Short(), kinds: "bnpsamcfti", wide: true}
	c07Check(g.typ(2 + vTier()))
}

// H_C07_names prints references with arbitrary names.
// bound: a struct, a function or an interface with two references and two names of 1..2 arbitrary identifier bytes each
// covers: done
func H_C07_names() {
	sym, nm := c07Sym(), c07Names()
	a, b := gopoet.NamedType(sym()), gopoet.NamedType(sym())
	switch vChoose(3) {
	case 0:
		c07Check(gopoet.StructType(gopoet.FieldType{Name: nm(), Type: a}, gopoet.FieldType{Name: nm(), Type: b}))
	case 1:
		c07Check(gopoet.FuncType([]gopoet.ArgType{{Name: nm(), Type: a}}, []gopoet.ArgType{{Name: nm(), Type: b}}))
	case 2:
		c07Check(gopoet.InterfaceType([]gopoet.Symbol{sym()}, gopoet.MethodType{Name: nm(), Signature: gopoet.Signature{Args: []gopoet.ArgType{{Type: a}}}}))
	}
}

// H_C07_chans nests channels with other single-element types.
// bound: all nestings of depth 4 (5 in the thorough tier) of the three channel kinds, pointer, slice and function result
// covers: done
func H_C07_chans() {
	t := gopoet.NamedType(c07Short()())
	for i := 0; i < 4+vTier(); i++ {
		switch k := vChoose(6); k {
		case 0, 1, 2:
			t = gopoet.ChannelType(t, reflect.ChanDir(k+1))
		case 3:
			t = gopoet.PointerType(t)
		case 4:
			t = gopoet.SliceType(t)
		case 5:
			t = gopoet.FuncType(nil, []gopoet.ArgType{{Type: t}})
		}
	}
	c07Check(t)
}

// H_C07_basic prints every basic type alone and inside.
// bound: every basic kind
// covers: done
func H_C07_basic() {
	t := gopoet.BasicType(basicKinds[vChoose(len(basicKinds))])
	switch vChoose(3) {
	case 1:
		t = gopoet.MapType(t, t)
	case 2:
		t = gopoet.FuncTypeVariadic([]gopoet.ArgType{{Type: gopoet.SliceType(t)}}, []gopoet.ArgType{{Type: t}})
	}
	c07Check(t)
}

// H_C07_array prints every length.
// bound: every length of 0..255 (0..9999 in the thorough tier), and 2^31-1, 2^31, 2^32, 2^53+1, 2^63-1
// covers: done
func H_C07_array() {
	lens := []int{1<<31 - 1, 1 << 31, 1 << 32, 1<<53 + 1, 1<<63 - 1}
	k := vChoose(len(lens) + 1)
	if k < len(lens) {
		c07Check(gopoet.ArrayType(gopoet.IntType, int64(lens[k])))
		return
	}
	max := 255
	if vTier() > 0 {
		max = 9999
	}
	c07Check(gopoet.ArrayType(gopoet.IntType, int64(vInt(0, max))))
}

// H_C07_args prints signatures with many parameters.
// bound: signatures of 0..3 parameters and 0..2 results (4 and 3 in the thorough tier), each named, blank or not named, all of one or of different types, variadic or not
// covers: done
func H_C07_args() {
	names := "abcdefghijklmn"
	nm := func() string { names = names[1:]; return names[:1] }
	arg := func(i int) gopoet.ArgType {
		a := gopoet.ArgType{Type: gopoet.IntType}
		if i%2 == 1 {
			a.Type = gopoet.NamedType(gopoet.Symbol{Name: vIdent(upper, "", 1), Package: gopoet.Package{Name: "x", ImportPath: "x"}})
		}
		switch vChoose(3) {
		case 1:
			a.Name = nm()
		case 2:
			a.Name = "_"
		}
		return a
	}
	var s gopoet.Signature
	na, nr := vChoose(4+vTier()), vChoose(3+vTier())
	for i := 0; i < na; i++ {
		s.Args = append(s.Args, arg(i))
	}
	if na > 0 && vChoose(2) == 1 {
		s.Args[na-1].Type = gopoet.SliceType(s.Args[na-1].Type)
		s.IsVariadic = true
	}
	for i := 0; i < nr; i++ {
		s.Results = append(s.Results, arg(i))
	}
	c07Check(gopoet.FuncTypeFromSig(&s))
}

// H_C07_members prints structs and interfaces with many members.
// bound: structs and interfaces of 0..3 members (4 in the thorough tier), each embedded (value, pointer) or named with or without tag, or embedded or method
// covers: done
func H_C07_members() {
	names := "MNOPQRSTUVWXYZ"
	nm := func() string { names = names[1:]; return names[:1] }
	sym := c07Short()
	n := vChoose(4 + vTier())
	if vChoose(2) == 0 {
		var fs []gopoet.FieldType
		for i := 0; i < n; i++ {
			f := gopoet.FieldType{Type: gopoet.NamedType(sym())}
			switch vChoose(4) {
			case 1:
				f.Type = gopoet.PointerType(f.Type)
				f.Tag = "a:\"b\""
			case 2:
				f.Name = nm()
			case 3:
				f.Name = nm()
				f.Tag = reflect.StructTag(vIdent("a`\n", "", 1))
			}
			fs = append(fs, f)
		}
		c07Check(gopoet.StructType(fs...))
		return
	}
	ne := 0
	if n > 0 {
		ne = vChoose(n + 1)
	}
	var es []gopoet.Symbol
	var ms []gopoet.MethodType
	for i := 0; i < n; i++ {
		if i < ne {
			es = append(es, sym())
			continue
		}
		m := gopoet.MethodType{Name: nm()}
		switch vChoose(3) {
		case 1:
			m.Signature.AddArg(nm(), gopoet.SliceType(gopoet.NamedType(sym()))).SetVariadic(true)
		case 2:
			m.Signature.AddResult("", gopoet.NamedType(sym()))
			m.Signature.AddResult("", gopoet.ErrorType)
		}
		ms = append(ms, m)
	}
	c07Check(gopoet.InterfaceType(es, ms...))
}
