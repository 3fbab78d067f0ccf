package main

import "github.com/jhump/gopoet"

// c05Sym makes references into packages of one-letter paths a..c, the file's own
// or no package; all of them propose the same package name.
func c05Sym() func() gopoet.Symbol {
	n := 0
	return func() gopoet.Symbol {
		n++
		s := gopoet.Symbol{Name: "T" + string(rune('a'+n))}
		if n == 1 && vChoose(2) == 0 {
			return s // predeclared
		}
		s.Package = gopoet.Package{Name: "p", ImportPath: vIdent("abo", "", 1)}
		return s
	}
}

func c05Check(imps *gopoet.Imports, before []gopoet.ImportSpec, refs []gopoet.Symbol) {
	// the imports are those before plus those referenced
	for _, s := range before {
		now, n := specOf(imps, s.ImportPath)
		vAssert(n == 1 && now == s, "another import changed")
	}
	for _, s := range imps.ImportSpecs() {
		known := false
		for _, b := range before {
			if b.ImportPath == s.ImportPath {
				known = true
			}
		}
		for _, r := range refs {
			if r.Package.ImportPath == s.ImportPath {
				known = true
			}
		}
		vAssert(known, "a package was registered that is not referenced")
		vAssert(s.ImportPath != "o", "own package registered")
	}
	for _, r := range refs {
		if p := r.Package.ImportPath; p != "" && p != "o" {
			vAssert(hasImport(imps, p), "a referenced package was not registered")
		}
	}
}

// c05First is like c05Sym but only the first reference is arbitrary.
func c05First() func() gopoet.Symbol {
	n := 0
	return func() gopoet.Symbol {
		n++
		s := gopoet.Symbol{Name: "T" + string(rune('a'+n)), Package: gopoet.Package{Name: "p"}}
		if n == 1 {
			s.Package.ImportPath = vIdent("abo", "", 1)
		} else if n%3 == 2 {
			s.Package.ImportPath = "a"
		} else if n%3 == 0 {
			return gopoet.Symbol{Name: "error"}
		} else {
			s.Package.ImportPath = "o"
		}
		return s
	}
}

func c05Type(depth int, wide bool) {
	imps := gopoet.NewImportsFor("o")
	switch vChoose(3) {
	case 1:
		imps.RegisterImport("b", "p")
	case 2:
		imps.RegisterImport("x", "p")
		imps.RegisterImport("a", "")
	}
	sym := c05Sym()
	if depth > 1 {
		sym = c05First()
	}
	g := &tgen{sym: sym, kinds: "bnpsamcfti", wide: wide}
	t := g.typ(depth)
	c05One(imps, t)
}

func c05One(imps *gopoet.Imports, t gopoet.TypeName) {
	refs := symsOf(t)
	before := imps.ImportSpecs()
	known := true
	for _, r := range refs {
		if p := r.Package.ImportPath; p != "" && p != "o" && !hasImport(imps, p) {
			known = false
		}
	}
	want := func() string {
		return dump(mapSyms(t, func(s gopoet.Symbol) gopoet.Symbol { return c04Want(imps, "o", s) }))
	}
	var strict gopoet.TypeName
	refused := panics(func() { strict = imps.QualifyType(t) })
	vAssert(refused == !known, "strict form refuses exactly types with unregistered packages")
	vAssert(len(imps.ImportSpecs()) == len(before), "strict form registered a package")
	if refused {
		vCover("refused")
	} else {
		vCover("accepted")
		vAssert(dump(strict) == want(), "strict form: structure or qualifiers differ")
	}
	q := imps.EnsureTypeImported(t)
	c05Check(imps, before, refs)
	w := want()
	vAssert(dump(q) == w, "structure or qualifiers differ")
	vAssert(dump(imps.QualifyType(t)) == w, "strict form differs after registration")
	vAssert(dump(imps.EnsureTypeImported(q)) == w, "repeating changes the type")
	vObserve("type", dump(q))
}

// H_C05_deep qualifies deeply nested types.
// bound: all types of nesting depth 2 along a spine (3 in the thorough tier) over all kinds, references to paths a, b, own or predeclared that all propose one package name, under three registration states
// covers: refused accepted
func H_C05_deep() { c05Type(2+vTier(), false) }

// H_C05_wide qualifies types with several references side by side.
// bound: all types of depth 1 with siblings on either side of the spine
// covers: refused accepted
func H_C05_wide() { c05Type(1, true) }

// H_C05_spine nests single-element types deeply.
// bound: all nestings of depth 6 (8 in the thorough tier) of pointer, slice, map, channel and one-field struct around a reference
// covers: refused
func H_C05_spine() {
	imps := gopoet.NewImportsFor("o")
	imps.RegisterImport("b", "p")
	t := gopoet.NamedType(gopoet.Symbol{Name: "T", Package: gopoet.Package{Name: "p", ImportPath: vIdent("ab", "", 1)}})
	for i := 0; i < 6+2*vTier(); i++ {
		switch vChoose(4) {
		case 0:
			t = gopoet.PointerType(t)
		case 1:
			t = gopoet.MapType(gopoet.StringType, t)
		case 2:
			t = gopoet.ChannelType(gopoet.SliceType(t), 2)
		case 3:
			t = gopoet.StructType(gopoet.FieldType{Name: "F", Type: gopoet.IntType}, gopoet.FieldType{Name: "G", Type: t, Tag: "x"})
		}
	}
	c05One(imps, t)
}

// withPath is the type with its references to package a changed to ones to
// another.
func withPath(t gopoet.TypeName, path string) gopoet.TypeName {
	return mapSyms(t, func(s gopoet.Symbol) gopoet.Symbol {
		if s.Package.ImportPath == "a" {
			s.Package.ImportPath = path
		}
		return s
	})
}

// H_C05_alike qualifies types that differ in nothing but the package.
// bound: all types of depth 1 (2 in the thorough tier) over all kinds; then the same with another package, arbitrary, of the same name; then the first again
// covers: accepted
func H_C05_alike() {
	imps := gopoet.NewImportsFor("o")
	g := &tgen{sym: func() gopoet.Symbol {
		return gopoet.Symbol{Name: "T", Package: gopoet.Package{Name: "p", ImportPath: "a"}}
	}, kinds: "bnpsamcfti"}
	t := g.typ(1 + vTier())
	u := withPath(t, vIdent("bo", "", 1))
	c05One(imps, t)
	c05One(imps, u)
	c05One(imps, gopoet.PointerType(t))
	c05One(imps, t)
	sig := gopoet.Signature{Args: []gopoet.ArgType{{Name: "x", Type: t}}}
	other := gopoet.Signature{Args: []gopoet.ArgType{{Name: "x", Type: u}}}
	for i := 0; i < 2; i++ {
		for _, s := range []*gopoet.Signature{&sig, &other} {
			w := mapSig(s, func(s gopoet.Symbol) gopoet.Symbol { return c04Want(imps, "o", s) })
			vAssert(dumpSig(imps.EnsureAllTypesImported(s)) == dumpSig(&w), "structure or qualifiers differ")
			vAssert(dumpSig(imps.QualifySignature(s)) == dumpSig(&w), "structure or qualifiers differ")
		}
	}
}

// H_C05_signature qualifies signatures.
// bound: all signatures of depth 1 and with siblings (2 in the thorough tier), arguments, results, names and variadic flag varying, under two registration states
// covers: refused accepted
func H_C05_signature() {
	imps := gopoet.NewImportsFor("o")
	if vChoose(2) == 1 {
		imps.RegisterImport("b", "p")
	}
	g := &tgen{sym: c05Sym(), kinds: "bnpsamcfti", wide: vTier() == 0 || vChoose(2) == 0}
	d := 1
	if !g.wide {
		d = 2
	}
	s := g.sig(d)
	refs := symsOf(gopoet.FuncTypeFromSig(&s))
	before := imps.ImportSpecs()
	known := true
	for _, r := range refs {
		if p := r.Package.ImportPath; p != "" && p != "o" && !hasImport(imps, p) {
			known = false
		}
	}
	want := func() string {
		w := mapSig(&s, func(s gopoet.Symbol) gopoet.Symbol { return c04Want(imps, "o", s) })
		return dumpSig(&w)
	}
	var strict *gopoet.Signature
	refused := panics(func() { strict = imps.QualifySignature(&s) })
	vAssert(refused == !known, "strict form refuses exactly signatures with unregistered packages")
	vAssert(len(imps.ImportSpecs()) == len(before), "strict form registered a package")
	if refused {
		vCover("refused")
	} else {
		vCover("accepted")
		vAssert(dumpSig(strict) == want(), "strict form: structure or qualifiers differ")
	}
	q := imps.EnsureAllTypesImported(&s)
	c05Check(imps, before, refs)
	vAssert(dumpSig(q) == want(), "structure or qualifiers differ")
	vAssert(dumpSig(imps.EnsureAllTypesImported(q)) == want(), "repeating changes the signature")
	vObserve("sig", dumpSig(q))
}

// H_C05_names keeps every name, tag, length, direction and kind.
// bound: a type with all kinds of parts where names are 1..2 arbitrary bytes, tags 2 arbitrary bytes, the length any of 0..2^62, the direction and the basic kind any
// covers: done
func H_C05_names() {
	nm := func() string { return string([]byte{vByte(), vByte()}) }
	ref := func(p string) gopoet.TypeName {
		return gopoet.NamedType(gopoet.Symbol{Name: nm(), Package: gopoet.Package{ImportPath: p, Name: "p"}})
	}
	n := vInt(0, 1<<62)
	var t gopoet.TypeName
	imps := gopoet.NewImportsFor("o")
	imps.RegisterImport("a", "q")
	switch vChoose(7) {
	case 0:
		arr := gopoet.ArrayType(ref("a"), int64(n))
		q := imps.EnsureTypeImported(arr)
		vAssert(q.Len() == arr.Len(), "length changed")
		vAssert(q.Elem().Symbol().Name == arr.Elem().Symbol().Name, "name changed")
		vCover("done")
		return
	case 1:
		t = gopoet.StructType(gopoet.FieldType{Name: nm(), Type: ref("a"), Tag: "t"}, gopoet.FieldType{Name: nm(), Type: gopoet.IntType}, gopoet.FieldType{Type: ref("b")})
	case 2:
		f := gopoet.FieldType{Name: nm(), Type: ref("a")}
		f.Tag = "x"
		t = gopoet.StructType(f, gopoet.FieldType{Name: nm(), Type: gopoet.BasicType(basicKinds[vChoose(len(basicKinds))])})
	case 3:
		t = gopoet.InterfaceType([]gopoet.Symbol{{Name: nm()}, {Name: nm(), Package: gopoet.Package{ImportPath: "a", Name: "p"}}},
			gopoet.MethodType{Name: nm()}, gopoet.MethodType{Name: nm(), Signature: gopoet.Signature{Args: []gopoet.ArgType{{Name: nm(), Type: gopoet.SliceType(ref("b"))}}, IsVariadic: true}})
	case 4:
		t = gopoet.FuncType([]gopoet.ArgType{{Name: nm(), Type: ref("a")}, {Name: nm(), Type: gopoet.IntType}}, []gopoet.ArgType{{Name: nm(), Type: ref("b")}, {Name: nm(), Type: gopoet.ErrorType}})
	case 5:
		t = gopoet.ChannelType(ref("a"), 1)
		if vChoose(2) == 0 {
			t = gopoet.ChannelType(ref("a"), 2)
		}
	case 6:
		t = gopoet.MapType(gopoet.BasicType(basicKinds[vChoose(len(basicKinds))]), ref("a"))
	}
	before := dump(t)
	q := imps.EnsureTypeImported(t)
	want := dump(mapSyms(t, func(s gopoet.Symbol) gopoet.Symbol { return c04Want(imps, "o", s) }))
	vAssert(dump(q) == want, "structure, names or qualifiers differ")
	vAssert(dump(t) == before, "original changed")
	vObserve("q", dump(q))
	vCover("done")
}
