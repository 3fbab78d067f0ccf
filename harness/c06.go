package main

import "github.com/jhump/gopoet"

// c06Imports are two independent import sets in which all paths get other
// qualifiers, one of them of a package that is referenced.
func c06Imports() (*gopoet.Imports, *gopoet.Imports) {
	i1 := gopoet.NewImportsFor("a")
	i2 := gopoet.NewImportsFor("o")
	i2.RegisterImport("z", "p")
	if vChoose(2) == 0 {
		i1.RegisterImport("b", "q")
	}
	return i1, i2
}

func c06Sym() func() gopoet.Symbol {
	n := 0
	return func() gopoet.Symbol {
		n++
		s := gopoet.Symbol{Name: "T" + string(rune('a'+n)), Package: gopoet.Package{Name: "p", ImportPath: "b"}}
		if n == 1 {
			s.Package.ImportPath = vIdent("abo", "", 1)
		} else if n%3 == 2 {
			s.Package.ImportPath = "a"
		} else if n%3 == 0 {
			return gopoet.Symbol{Name: "error"}
		}
		return s
	}
}

func c06Type(g *tgen, d int) {
	t := g.typ(d)
	i1, i2 := c06Imports()
	before, text := dump(t), t.String()
	q1 := i1.EnsureTypeImported(t)
	d1, s1 := dump(q1), q1.String()
	vAssert(dump(t) == before, "the original changed")
	vAssert(t.String() == text, "the text of the original changed")
	q2 := i2.EnsureTypeImported(t)
	d2 := dump(q2)
	i1.QualifyType(t)
	vAssert(dump(t) == before, "the original changed on another use")
	vAssert(dump(q1) == d1 && q1.String() == s1, "a qualified type changed on another use of the original")
	// the qualified one is left alone as well
	i2.EnsureTypeImported(q1)
	vAssert(dump(q1) == d1, "qualifying a qualified type changed it")
	i1.EnsureTypeImported(q2)
	vAssert(dump(q2) == d2, "qualifying a qualified type changed it")
	vAssert(t.String() == text, "the text of the original changed")
	if d1 != before {
		vCover("changed")
	} else {
		vCover("same")
	}
	vObserve("q", d1+d2)
}

// H_C06_types qualifies nested types into files of two packages.
// bound: all types of nesting depth 2 along a spine (3 in the thorough tier) over all kinds; references to a, b, own or none, all proposing one name; two import sets, two states
// covers: changed same
func H_C06_types() { c06Type(&tgen{sym: c06Sym(), kinds: "bnpsamcfti"}, 2+vTier()) }

// H_C06_wide qualifies types with several references side by side.
// bound: all types of depth 1 with siblings around the spine (2 in the thorough tier)
// covers: changed same
func H_C06_wide() { c06Type(&tgen{sym: c06Sym(), kinds: "bnpsamcfti", wide: true}, 1+vTier()) }

// H_C06_signature qualifies signatures whose argument lists are shared.
// bound: all signatures of depth 1 with siblings, held by value and shared by two signatures with spare capacity in the argument list
// covers: changed
func H_C06_signature() {
	g := &tgen{sym: c06Sym(), kinds: "bnpsamcfti", wide: true}
	s := g.sig(1)
	// a list with spare capacity, shared
	args := append(make([]gopoet.ArgType, 0, len(s.Args)+2), s.Args...)
	s.Args = args
	other := gopoet.Signature{Args: append(args, gopoet.ArgType{Name: "extra", Type: g.leaf()})}
	t := gopoet.FuncTypeFromSig(&s)
	before, ob, tb := dumpSig(&s), dumpSig(&other), t.String()
	i1, i2 := c06Imports()
	q1 := i1.EnsureAllTypesImported(&s)
	d1 := dumpSig(q1)
	q2 := i2.EnsureAllTypesImported(&other)
	d2 := dumpSig(q2)
	i2.EnsureAllTypesImported(&s)
	i1.EnsureAllTypesImported(&other)
	i1.QualifySignature(&s)
	vAssert(dumpSig(&s) == before && t.String() == tb, "the original changed")
	vAssert(dumpSig(&other) == ob, "a signature sharing arguments changed")
	vAssert(dumpSig(q1) == d1, "a qualified signature changed")
	vAssert(dumpSig(q2) == d2, "a qualified signature changed")
	if d1 != before {
		vCover("changed")
	}
	vObserve("q", d1)
}

// H_C06_data qualifies template data into files of two packages.
// bound: data with a reference of any of 31 kinds in any of 12 kinds of places (depth 2 in the thorough tier), packages a, b, own, two import sets
// covers: changed same
func H_C06_data() { c06Data("nuNDsampSAMQ") }

// H_C06_boxes qualifies template data with parts that could be altered in place.
// bound: as for data, in pointers to arrays, slices and maps, slices of arrays, and structs (by value or pointer) with arrays and structs as exported and unexported fields (depth 2 in the thorough tier)
// covers: changed same
func H_C06_boxes() { c06Data("BCEFGH") }

func c06Data(shape string) {
	g := &dgen{path: dPath, name: "p", shape: shape}
	k := vChoose(dRefs)
	v := g.val(1+vTier(), func() interface{} { return g.ref(k) })
	before := dText(v, dSame)
	i1, i2 := c06Imports()
	q1 := i1.QualifyTemplateData(v)
	d1 := dText(q1, dSame)
	vAssert(dText(v, dSame) == before, "the data changed")
	q2 := i2.QualifyTemplateData(v)
	d2 := dText(q2, dSame)
	vAssert(dText(v, dSame) == before, "the data changed on another use")
	vAssert(dText(q1, dSame) == d1, "qualified data changed on another use of the original")
	i2.QualifyTemplateData(q1)
	vAssert(dText(q1, dSame) == d1, "qualifying qualified data changed it")
	vAssert(dText(q2, dSame) == d2, "qualified data changed on another use")
	vAssert(dText(v, dSame) == before, "the data changed on a later use")
	if d1 != before {
		vCover("changed")
	} else {
		vCover("same")
	}
	vObserve("q", d1+d2)
}
