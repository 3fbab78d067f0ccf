package main

import (
	"strconv"

	"github.com/jhump/gopoet"
)

type c02Reg struct{ path, name string }

// H_C02_list looks at the import list after an arbitrary registration history.
// bound: every history of 3 registrations (4 in the thorough tier) of one-letter paths a..d (one of them the file's own), proposed names of shape [ab], [ab]1 or unknown, over every iteration order of the underlying map
// covers: alias noalias unknown
// repeat: 20
func H_C02_list() {
	imps := gopoet.NewImportsFor("b")
	var regs []c02Reg
	n := 3 + vTier()
	for k := 0; k < n; k++ {
		path := vIdent("abcd", "", 1)
		name := ""
		switch vChoose(3) {
		case 1:
			name = vIdent("ab", "", 1)
		case 2:
			name = vIdent("ab", "1", 2)
		}
		imps.RegisterImport(path, name)
		if path == "b" {
			continue
		}
		dup := false
		for _, r := range regs {
			if r.path == path {
				dup = true
			}
		}
		if !dup {
			regs = append(regs, c02Reg{path, name})
		}
	}
	vMapOrder(true)
	specs := imps.ImportSpecs()
	vMapOrder(false)
	vAssert(len(specs) == len(regs), "number of import specs")
	for i, s := range specs {
		if i > 0 {
			vAssert(specs[i-1].ImportPath < s.ImportPath, "import specs not sorted by path")
		}
		q := trimDot(imps.PrefixForPackage(s.ImportPath))
		found := false
		for _, r := range regs {
			if r.path != s.ImportPath {
				continue
			}
			found = true
			if r.name == "" {
				vAssert(s.PackageAlias == q, "package of unknown name lacks its alias")
				vCover("unknown")
			} else if r.name == q {
				vAssert(s.PackageAlias == "", "alias although the package name is in use")
				vCover("noalias")
			} else {
				vAssert(s.PackageAlias == q, "alias is not the qualifier in use")
				vCover("alias")
			}
		}
		vAssert(found, "import spec for a package that was never registered")
		vObserve("spec", s.String())
	}
	// the list belongs to the caller
	was := append([]gopoet.ImportSpec(nil), specs...)
	for i := range specs {
		specs[i] = gopoet.ImportSpec{PackageAlias: "x", ImportPath: "y"}
	}
	again := imps.ImportSpecs()
	vAssert(len(again) == len(was), "another number of import specs when asked again")
	for i := range again {
		vAssert(again[i] == was[i], "another import list when asked again")
	}
}

// H_C02_order sorts paths that are prefixes of each other and contain punctuation.
// bound: three distinct paths of 1..3 bytes over "a/.-Z~", over every map iteration order
// covers: done
// repeat: 20
func H_C02_order() {
	set := "a/.-Z~"
	imps := gopoet.NewImportsFor("own")
	var paths []string
	for i := 0; i < 3; i++ {
		p := vStr(set, 1+vChoose(3))
		for _, q := range paths {
			vAssume(vNot(vEqStr(p, q)))
		}
		paths = append(paths, p)
		imps.RegisterImport(p, "p")
	}
	vMapOrder(true)
	specs := imps.ImportSpecs()
	vMapOrder(false)
	vAssert(len(specs) == 3, "number of import specs")
	for i, s := range specs {
		if i > 0 {
			vAssert(specs[i-1].ImportPath < s.ImportPath, "import specs not sorted by path")
		}
	}
	vCover("done")
}

// H_C02_text reads the text of an import back.
// bound: paths of 0..2 arbitrary bytes (3 in the thorough tier), no alias or an alias of 1..2 identifier bytes
// covers: alias plain
func H_C02_text() {
	b := make([]byte, vChoose(3+vTier()))
	for i := range b {
		b[i] = vByte()
	}
	spec := gopoet.ImportSpec{ImportPath: string(b)}
	if vChoose(2) == 1 {
		spec.PackageAlias = vIdentUpTo(lower+"_.", idRest, 2)
	}
	text := spec.String()
	if spec.PackageAlias != "" {
		n := len(spec.PackageAlias)
		vAssert(len(text) > n+1, "text too short")
		vAssert(text[:n] == spec.PackageAlias, "text does not start with the alias")
		vAssert(text[n] == ' ', "no space after the alias")
		text = text[n+1:]
		vCover("alias")
	} else {
		vCover("plain")
	}
	got, err := strconv.Unquote(text)
	vAssert(err == nil, "path is not a Go string literal")
	vAssert(got == string(b), "literal does not denote the path")
	vAssert(text[0] == '"', "path is not in double quotes")
}

// H_C02_first keeps what was declared on first registration.
// bound: one package registered twice with names of 0..2 identifier bytes each, after another package that may have the same name
// covers: done
func H_C02_first() {
	imps := gopoet.NewImportsFor("own")
	nm := func() string {
		if n := vChoose(3); n > 0 {
			return vIdent(lower, idCont, n)
		}
		return ""
	}
	other, n1, n2 := vIdent(lower, idCont, 2), nm(), nm()
	imps.RegisterImport("o/zz", other)
	imps.RegisterImport("o/ab", n1)
	imps.RegisterImportForPackage(gopoet.Package{Name: n2, ImportPath: "o/ab"})
	s, n := specOf(imps, "o/ab")
	vAssert(n == 1, "package listed more or less than once")
	q := trimDot(imps.PrefixForPackage("o/ab"))
	if n1 == "" || n1 != q {
		vAssert(s.PackageAlias == q, "alias is not the qualifier in use")
	} else {
		vAssert(s.PackageAlias == "", "alias although the first name is in use")
	}
	so, _ := specOf(imps, "o/zz")
	vAssert(so.PackageAlias == "", "alias although the name is in use")
	vCover("done")
}
