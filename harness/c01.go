package main

import "github.com/jhump/gopoet"

// one registration, lookup or qualification of a path in a history
type c01Entry struct{ path, prefix string }

func c01Find(known []c01Entry, path string) int {
	for i := range known {
		if known[i].path == path {
			return i
		}
	}
	return -1
}

func c01Use(imps *gopoet.Imports, how int, path, name string) string {
	switch how {
	case 0:
		return imps.RegisterImport(path, name)
	case 1:
		return imps.RegisterImportForPackage(gopoet.Package{Name: name, ImportPath: path})
	case 2:
		s := imps.EnsureImported(gopoet.Symbol{Name: "S", Package: gopoet.Package{Name: name, ImportPath: path}})
		if s.Package.Name == "" {
			return ""
		}
		return s.Package.Name + "."
	default:
		t := imps.EnsureTypeImported(gopoet.NamedType(gopoet.Symbol{Name: "S", Package: gopoet.Package{Name: name, ImportPath: path}}))
		if n := t.Symbol().Package.Name; n != "" {
			return n + "."
		}
		return ""
	}
}

func c01Check(imps *gopoet.Imports, known []c01Entry, own string) {
	vAssert(imps.PrefixForPackage(own) == "", "own package has a qualifier")
	for i := range known {
		vAssert(imps.PrefixForPackage(known[i].path) == known[i].prefix, "qualifier of a path changed")
		vAssert(len(known[i].prefix) > 1 && known[i].prefix[len(known[i].prefix)-1] == '.', "qualifier is empty or lacks the dot")
		for j := 0; j < i; j++ {
			vAssert(vNot(vEqStr(known[i].prefix, known[j].prefix)), "two paths share a qualifier")
		}
	}
	specs := imps.ImportSpecs()
	vAssert(len(specs) == len(known), "wrong number of imports")
	for _, s := range specs {
		vAssert(s.ImportPath != own, "file imports its own package")
	}
}

// H_C01_history registers packages in an arbitrary history.
// bound: every history of 4 operations (5 in the thorough tier), each a registration (plain or by package) of one of all one-letter paths a..d (own package included), with any proposed name of shape [ab] or [ab][12] or unknown
// covers: collide again own unknown
func H_C01_history() {
	own := "a"
	imps := gopoet.NewImportsFor(own)
	var known []c01Entry
	n := 4 + vTier()
	for k := 0; k < n; k++ {
		path := vIdent("abcd", "", 1)
		name := ""
		switch vChoose(3) {
		case 1:
			name = vIdent("ab", "", 1)
		case 2:
			name = vIdent("ab", "12", 2)
		default:
			vCover("unknown")
		}
		got := c01Use(imps, k%2, path, name)
		if path == own {
			vAssert(got == "", "own package gets a qualifier")
			vCover("own")
			continue
		}
		if i := c01Find(known, path); i >= 0 {
			vAssert(got == known[i].prefix, "another registration of a path gives another qualifier")
			vCover("again")
			continue
		}
		if name != "" && got != name+"." {
			vCover("collide")
		}
		known = append(known, c01Entry{path, got})
	}
	c01Check(imps, known, own)
	for i := range known {
		vObserve("prefix", known[i].prefix)
	}
}

// H_C01_qualify uses the qualifying calls in the history instead.
// bound: every history of 3 operations, each one of the four registering calls, over one-letter paths a..c and names of shape [ab] or [ab][12] or unknown
// covers: done
func H_C01_qualify() {
	own := vIdent("abc", "", 1)
	imps := gopoet.NewImportsFor(own)
	var known []c01Entry
	for k := 0; k < 3; k++ {
		path := vIdent("abc", "", 1)
		name := ""
		switch vChoose(3) {
		case 1:
			name = vIdent("ab", "", 1)
		case 2:
			name = vIdent("ab", "12", 2)
		}
		got := c01Use(imps, 2+vChoose(2), path, name)
		if path == own {
			vAssert(got == "", "own package gets a qualifier")
			continue
		}
		if i := c01Find(known, path); i >= 0 {
			vAssert(got == known[i].prefix, "another use of a path gives another qualifier")
			continue
		}
		known = append(known, c01Entry{path, got})
	}
	c01Check(imps, known, own)
	vCover("done")
}

// H_C01_many makes numbered aliases with two digits.
// bound: 14 (24 in the thorough tier) packages that all propose one name of 1..3 arbitrary identifier bytes, before or after two packages whose names are that name with one or two arbitrary digits
// covers: before after
func H_C01_many() {
	imps := gopoet.NewImportsFor("own")
	name := vIdentUpTo(lower+"_", idRest, 3)
	n := 14 + 10*vTier()
	var known []c01Entry
	reg := func(path, nm string) {
		known = append(known, c01Entry{path, imps.RegisterImport(path, nm)})
	}
	odd := func() {
		reg("odd1", name+vIdent("123456789", "", 1))
		reg("odd2", name+vIdent("123456789", digits, 2))
	}
	before := vChoose(2) == 0
	if before {
		vCover("before")
		odd()
	}
	for i := 0; i < n; i++ {
		reg("x/"+string(rune('a'+i)), name)
	}
	if !before {
		vCover("after")
		odd()
	}
	// proposing other names later changes nothing
	for i := 0; i < n; i++ {
		vAssert(imps.RegisterImport("x/"+string(rune('a'+i)), "other") == imps.PrefixForPackage("x/"+string(rune('a'+i))), "later name changes the qualifier")
	}
	c01Check(imps, known, "own")
	vObserve("last", known[len(known)-1].prefix)
}

// H_C01_bytes uses arbitrary bytes in paths and names.
// bound: own path, two paths and two names of 2 arbitrary bytes each
// covers: same different own
func H_C01_bytes() {
	two := func() string {
		b := []byte{vByte(), vByte()}
		return string(b)
	}
	own, p1, p2, n1, n2 := two(), two(), two(), two(), two()
	imps := gopoet.NewImportsFor(own)
	q1 := imps.RegisterImport(p1, n1)
	q2 := imps.RegisterImport(p2, n2)
	vAssert(vEqStr(imps.PrefixForPackage(p1), q1), "qualifier of the first path changed")
	vAssert(vEqStr(imps.PrefixForPackage(p2), q2), "qualifier of the second path changed")
	if p1 == own {
		vAssert(q1 == "", "own package gets a qualifier")
		vCover("own")
		return
	}
	vAssert(q1 == n1+".", "first package does not get its name")
	if p2 == own {
		vAssert(q2 == "", "own package gets a qualifier")
		return
	}
	if p1 == p2 {
		vAssert(q1 == q2, "one path has two qualifiers")
		vCover("same")
		return
	}
	vAssert(vNot(vEqStr(q1, q2)), "two paths share a qualifier")
	vCover("different")
}

// H_C01_unregistered asks for packages that were never registered.
// bound: any own path, registered path and asked path of 2 bytes over [ab/]; lookup, strict symbol, type and signature forms
// covers: refused known own
func H_C01_unregistered() {
	own, reg, ask := vStr("ab/", 2), vStr("ab/", 2), vStr("ab/", 2)
	imps := gopoet.NewImportsFor(own)
	imps.RegisterImport(reg, "p")
	before := len(imps.ImportSpecs())
	sym := gopoet.Symbol{Name: "S", Package: gopoet.Package{Name: "p", ImportPath: ask}}
	how := vChoose(4)
	got := panics(func() {
		switch how {
		case 0:
			imps.PrefixForPackage(ask)
		case 1:
			imps.Qualify(sym)
		case 2:
			imps.QualifyType(gopoet.SliceType(gopoet.NamedType(sym)))
		case 3:
			imps.QualifySignature((&gopoet.Signature{}).AddResult("", gopoet.NamedType(sym)))
		}
	})
	if ask == own {
		vAssert(!got, "own package refused")
		vCover("own")
	} else if ask == reg {
		vAssert(!got, "registered package refused")
		vCover("known")
	} else {
		vAssert(got, "unregistered package accepted")
		vCover("refused")
	}
	vAssert(len(imps.ImportSpecs()) == before, "a lookup registered a package")
	vAssert(panics(func() { imps.PrefixForPackage("zz") }), "never registered path accepted")
	vAssert(len(imps.ImportSpecs()) == before, "a lookup registered a package")
}
