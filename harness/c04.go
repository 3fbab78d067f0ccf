package main

import "github.com/jhump/gopoet"

// c04Setup registers an arbitrary subset of the packages "a" and "b", which may
// collide, in arbitrary order, in a file of package "o".
func c04Setup() *gopoet.Imports {
	imps := gopoet.NewImportsFor("o")
	switch vChoose(5) {
	case 1:
		imps.RegisterImport("a", "p")
	case 2:
		imps.RegisterImport("b", "p")
		imps.RegisterImport("a", "p")
	case 3:
		imps.RegisterImport("a", "p1")
		imps.RegisterImport("b", "p")
	case 4:
		imps.RegisterImport("x", "p")
		imps.RegisterImport("a", "")
	}
	return imps
}

func hasImport(imps *gopoet.Imports, path string) bool {
	_, n := specOf(imps, path)
	return n > 0
}

// expected qualified form of a symbol under the imports (all registered)
func c04Want(imps *gopoet.Imports, own string, s gopoet.Symbol) gopoet.Symbol {
	if s.Package.ImportPath == "" && s.Package.Name == "" {
		return s
	}
	q := ""
	if s.Package.ImportPath != own {
		q = trimDot(imps.PrefixForPackage(s.Package.ImportPath))
	}
	return gopoet.Symbol{Name: s.Name, Package: gopoet.Package{Name: q, ImportPath: s.Package.ImportPath}}
}

// H_C04_symbol qualifies an arbitrary symbol.
// bound: any symbol with a name of 0..3 arbitrary bytes, any one-letter path a..d or the file's own or none, a package name of shape p, p1..p9, [a-z] or none, under five registration states with and without collisions
// covers: own predeclared registered new aliased refused accepted
func H_C04_symbol() {
	imps := c04Setup()
	nb := make([]byte, vChoose(4))
	for i := range nb {
		nb[i] = vByte()
	}
	sym := gopoet.Symbol{Name: string(nb)}
	switch vChoose(4) {
	case 0:
		vCover("predeclared")
	case 1:
		sym.Package.ImportPath = vIdent("abcdo", "", 1)
	case 2:
		sym.Package.ImportPath = vIdent("abcdo", "", 1)
		sym.Package.Name = vIdent(lower, "", 1)
	case 3:
		sym.Package.ImportPath = vIdent("abcdo", "", 1)
		sym.Package.Name = vIdent("p", "123456789", 2)
	}
	path := sym.Package.ImportPath
	pre := path == ""
	own := path == "o"
	had := !pre && hasImport(imps, path)
	before := imps.ImportSpecs()
	// strict form
	var got gopoet.Symbol
	refused := panics(func() { got = imps.Qualify(sym) })
	vAssert(refused == !(pre || own || had), "strict form refuses exactly unregistered packages")
	vAssert(len(imps.ImportSpecs()) == len(before), "strict form registered a package")
	if refused {
		vCover("refused")
	} else {
		vCover("accepted")
		vAssert(got == c04Want(imps, "o", sym), "strict form gives the wrong symbol")
		vAssert(imps.Qualify(got) == got, "repeating the strict form changes the symbol")
	}
	// registering form
	reg := imps.EnsureImported(sym)
	if pre {
		vAssert(reg == sym, "predeclared symbol changed")
		vAssert(len(imps.ImportSpecs()) == len(before), "predeclared symbol registered a package")
		return
	}
	vAssert(reg.Name == sym.Name, "name changed")
	vAssert(reg.Package.ImportPath == path, "import path changed")
	if own {
		vCover("own")
		vAssert(reg.Package.Name == "", "own package has a qualifier")
		vAssert(len(imps.ImportSpecs()) == len(before), "own package registered")
	} else {
		vAssert(reg.Package.Name+"." == imps.PrefixForPackage(path), "not the file's qualifier")
		n := len(before)
		if !had {
			n++
			vCover("new")
		} else {
			vCover("registered")
		}
		vAssert(len(imps.ImportSpecs()) == n, "registering form registers exactly the package")
		_, cnt := specOf(imps, path)
		vAssert(cnt == 1, "package not listed once")
		if reg.Package.Name != sym.Package.Name {
			vCover("aliased")
		}
	}
	for _, s := range before {
		now, _ := specOf(imps, s.ImportPath)
		vAssert(now == s, "another import changed")
	}
	n := len(imps.ImportSpecs())
	vAssert(imps.EnsureImported(reg) == reg, "repeating changes the symbol")
	vAssert(imps.EnsureImported(sym) == reg, "repeating on the original gives another symbol")
	vAssert(imps.Qualify(sym) == reg, "strict form differs from the registering form")
	vAssert(len(imps.ImportSpecs()) == n, "repeating registered something")
	vObserve("text", reg.String())
}

// H_C04_sequence qualifies several symbols in one file, then looks at all again.
// bound: three symbols (four in the thorough tier) with one-letter paths a..c or own, package names of shape [pq] or p1 or none
// covers: done
func H_C04_sequence() {
	imps := gopoet.NewImportsFor("o")
	var syms, quals []gopoet.Symbol
	for i := 0; i < 3+vTier(); i++ {
		s := gopoet.Symbol{Name: "S" + string(rune('0'+i))}
		s.Package.ImportPath = vIdent("abco", "", 1)
		switch vChoose(3) {
		case 0:
			s.Package.Name = vIdent("pq", "", 1)
		case 1:
			s.Package.Name = "p1"
		}
		syms = append(syms, s)
		quals = append(quals, imps.EnsureImported(s))
	}
	for i, s := range syms {
		vAssert(quals[i] == c04Want(imps, "o", s), "symbol does not carry the file's qualifier")
		vAssert(imps.Qualify(s) == quals[i], "later registrations changed a qualifier")
		for j := 0; j < i; j++ {
			same := s.Package.ImportPath == syms[j].Package.ImportPath
			vAssert((quals[i].Package == quals[j].Package) == same, "references to one package differ or to two packages agree")
		}
	}
	vCover("done")
}

// H_C04_names qualifies symbols of packages of all kinds of names.
// bound: two symbols (three in the thorough tier) with package names of 1..2 arbitrary ASCII identifier bytes, paths of 1..2 bytes over a, b, '/', '.', '-' or own
// covers: own other done
func H_C04_names() {
	imps := gopoet.NewImportsFor("o")
	var syms, quals []gopoet.Symbol
	for i := 0; i < 2+vTier(); i++ {
		s := gopoet.Symbol{Name: "S"}
		s.Package.ImportPath = "o"
		if vChoose(4) > 0 {
			s.Package.ImportPath = vIdentUpTo("ab", "ab/.-", 2)
		}
		s.Package.Name = vIdentUpTo(lower+upper+"_", idRest, 2)
		q := imps.EnsureImported(s)
		syms, quals = append(syms, s), append(quals, q)
		vAssert(q.Name == "S" && q.Package.ImportPath == s.Package.ImportPath, "name or path changed")
		if s.Package.ImportPath == "o" {
			vAssert(q.Package.Name == "", "own package has a qualifier")
			vCover("own")
			continue
		}
		vAssert(q.Package.Name+"." == imps.PrefixForPackage(s.Package.ImportPath), "not the file's qualifier")
		if i == 0 {
			vAssert(q == s, "the first symbol carries another qualifier than the name of its package")
		}
		vCover("other")
	}
	for i, s := range syms {
		vAssert(imps.Qualify(s) == quals[i] && imps.EnsureImported(quals[i]) == quals[i], "qualifying again gives another symbol")
		vAssert(quals[i] == c04Want(imps, "o", s), "symbol does not carry the file's qualifier")
		for _, sp := range imps.ImportSpecs() {
			if sp.ImportPath == s.Package.ImportPath {
				vAssert(sp.PackageAlias == "" || sp.PackageAlias == quals[i].Package.Name, "the import has another name")
			}
		}
	}
	vCover("done")
}

// H_C04_alike qualifies symbols that differ in nothing but the package's path,
// or not even in that.
// bound: three symbols (four in the thorough tier) of one of two names, packages of any of the paths a..c or own or none, all of one name or none
// covers: done
func H_C04_alike() {
	imps := gopoet.NewImportsFor("o")
	var syms, quals []gopoet.Symbol
	for i := 0; i < 3+vTier(); i++ {
		s := gopoet.Symbol{Name: []string{"T", "U"}[vChoose(2)]}
		if k := vChoose(5); k < 4 {
			s.Package.ImportPath = string([]byte{"abco"[k]})
			s.Package.Name = []string{"p", ""}[vChoose(2)]
		}
		syms = append(syms, s)
		quals = append(quals, imps.EnsureImported(s))
	}
	for i, s := range syms {
		vAssert(quals[i] == c04Want(imps, "o", s), "symbol does not carry the file's qualifier")
		vAssert(imps.EnsureImported(s) == quals[i] && imps.Qualify(s) == quals[i], "qualifying again gives another symbol")
	}
	vCover("done")
}
