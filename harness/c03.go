package main

import (
	"go/token"

	"github.com/jhump/gopoet"
)

// the ASCII characters Go accepts in import paths, less the slash
const pathChars = lower + upper + digits + "+-./@_~"

func c03Check(imps *gopoet.Imports, path, prefix string) {
	vAssert(len(prefix) > 1 && prefix[len(prefix)-1] == '.', "no qualifier")
	q := trimDot(prefix)
	vAssert(token.IsIdentifier(q), "qualifier is not a legal identifier")
	vAssert(q != "_", "qualifier is blank")
	vAssert(q != "init", "init cannot be imported")
	s, n := specOf(imps, path)
	vAssert(n == 1, "not listed once")
	vAssert(s.PackageAlias == q, "import statement does not bind the qualifier")
	vObserve("q", q)
}

// H_C03_ascii invents a qualifier for a path of ASCII characters.
// bound: paths of 1..4 bytes (5 in the thorough tier), every character Go accepts in import paths, that start and end with no slash and have no empty element
// covers: done
func H_C03_ascii() {
	n := 1 + vChoose(4+vTier())
	p := vStr(pathChars, n)
	vAssume(p[0] != '/')
	vAssume(p[n-1] != '/')
	for i := 1; i < n; i++ {
		vAssume(vNot(vAnd(p[i-1] == '/', p[i] == '/')))
	}
	imps := gopoet.NewImportsFor("own/pkg/path")
	c03Check(imps, p, imps.RegisterImport(p, ""))
	vCover("done")
}

// H_C03_keyword has paths that end in any lower-case word, keywords included.
// bound: last elements of 2..6 bytes (9 in the thorough tier) that agree with a keyword or "init" but for one arbitrary character
// covers: done
func H_C03_keyword() {
	words := []string{"if", "go", "for", "map", "var", "func", "case", "chan", "else", "goto", "type", "init", "break", "const", "defer", "range", "import", "return", "select", "struct", "switch"}
	if vTier() > 0 {
		words = append(words, "default", "package", "continue", "fallthrough", "interface")
	}
	w := []byte(words[vChoose(len(words))])
	w[vChoose(len(w))] = vByteIn(lower + digits + "_-")
	imps := gopoet.NewImportsFor("own")
	p := "x.org/" + string(w)
	c03Check(imps, p, imps.RegisterImport(p, ""))
	vCover("done")
}

// H_C03_unicode has paths with one character that is not ASCII.
// bound: every two-byte and three-byte UTF-8 character that is printable and legal in an import path, alone, first or last in the path's last element
// covers: two three
func H_C03_unicode() {
	var c string
	if vChoose(2) == 0 {
		a, b := vByte(), vByte()
		vAssume(a >= 0xc2)
		vAssume(a <= 0xdf)
		vAssume(b >= 0x80)
		vAssume(b <= 0xbf)
		c = string([]byte{a, b})
		vCover("two")
	} else {
		a, b, d := vByte(), vByte(), vByte()
		vAssume(a >= 0xe1)
		vAssume(a <= 0xec)
		vAssume(b >= 0x80)
		vAssume(b <= 0xbf)
		vAssume(d >= 0x80)
		vAssume(d <= 0xbf)
		c = string([]byte{a, b, d})
		vCover("three")
	}
	p := "x/" + []string{c, c + "a", "a" + c, "1" + c}[vChoose(4)]
	imps := gopoet.NewImportsFor("own")
	c03Check(imps, p, imps.RegisterImport(p, ""))
}

// H_C03_collide invents qualifiers for paths that collide with others.
// bound: two or three paths with last elements of 1..2 characters out of "a1-._", unknown names, after a package of a legal name of 1..3 characters of the same kind
// covers: done numbered
func H_C03_collide() {
	imps := gopoet.NewImportsFor("own")
	first := vIdentUpTo("a_", "a1_", 3)
	vAssume(first != "_")
	imps.RegisterImport("z/z", first)
	for i := 0; i < 2+vTier(); i++ {
		e := vStr("a1-._", 1+vChoose(2))
		if e == "." || e == ".." {
			vAssume(false)
		}
		p := "x" + string(rune('0'+i)) + "/" + e
		q := imps.RegisterImport(p, "")
		c03Check(imps, p, q)
		if len(q) > len(e)+1 {
			vCover("numbered")
		}
	}
	vCover("done")
}

// H_C03_numbered has legally named packages collide.
// bound: 12 packages of one legal name of 1..3 identifier bytes
// covers: done
func H_C03_numbered() {
	imps := gopoet.NewImportsFor("own")
	name := vIdentUpTo(lower+upper+"_", idRest, 3)
	vAssume(name != "_")
	vAssume(vPick(token.IsIdentifier(name)))
	for i := 0; i < 12; i++ {
		p := "x/" + string(rune('a'+i))
		q := trimDot(imps.RegisterImport(p, name))
		vAssert(token.IsIdentifier(q), "qualifier is not a legal identifier")
		vAssert(q != "_", "qualifier is blank")
	}
	vCover("done")
}

// H_C03_suffix has paths whose last elements are words with prefixes and suffixes that are common in package paths.
// bound: a keyword, "init", a digit, an underscore or any one or two characters (two in the thorough tier), behind no, or any of 5, prefixes, before no, or any of 9, suffixes, one digit of which is any; as the only path element or not
// covers: done
func H_C03_suffix() {
	w := []string{"go", "if", "type", "range", "init", "_", "1", ""}[vChoose(8)]
	if w == "" {
		w = vStr(pathChars, 1+vTier())
	}
	d := string([]byte{vByteIn(digits)})
	w = []string{"", "go-", "go.", "v" + d + ".", "-", "_"}[vChoose(6)] + w
	w += []string{"", ".v" + d, "/v" + d, "-go", ".go", "-v" + d, "~" + d, ".git", "." + d + "." + d, "v" + d}[vChoose(10)]
	if vChoose(2) == 0 {
		w = "x.org/a/" + w
	}
	vAssume(w[0] != '/')
	vAssume(w[len(w)-1] != '/')
	imps := gopoet.NewImportsFor("own/pkg")
	c03Check(imps, w, imps.RegisterImport(w, ""))
	vCover("done")
}
