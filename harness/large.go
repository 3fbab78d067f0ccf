package main

import (
	"bytes"
	"errors"
	"go/format"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"github.com/jhump/gopoet"
)

const bigKinds = 7

// bigSize is the size of something large.
func bigSize() int {
	sizes := []int{9, 12, 17, 33, 65, 100}
	if vTier() > 0 {
		sizes = append(sizes, 11, 21, 31, 51, 129, 257)
	}
	return sizes[vChoose(len(sizes))]
}

// bigType is a type that is made of n parts or nested n deep.
func bigType(kind, n int, sym func() gopoet.Symbol) gopoet.TypeName {
	id := func(p string, i int) string { return p + strconv.Itoa(i) }
	ref := func() gopoet.TypeName { return gopoet.NamedType(sym()) }
	switch kind {
	case 0: // arguments
		s := gopoet.Signature{}
		for i := 0; i < n; i++ {
			s.AddArg(id("a", i), ref())
		}
		return gopoet.FuncTypeFromSig(s.AddArg("", gopoet.SliceType(ref())).SetVariadic(true))
	case 1: // results, one of which has a name
		s := gopoet.Signature{}
		for i := 0; i < n; i++ {
			s.AddResult("", gopoet.MapType(gopoet.IntType, ref()))
		}
		s.Results[n-1].Name = "last"
		return gopoet.FuncTypeFromSig(&s)
	case 2:
		fs := make([]gopoet.FieldType, n)
		for i := range fs {
			fs[i] = gopoet.FieldType{Name: id("F", i), Type: ref()}
			if i%4 == 1 {
				fs[i] = gopoet.FieldType{Type: gopoet.PointerType(ref()), Tag: "x:\"y\""}
			}
		}
		return gopoet.StructType(fs...)
	case 3:
		es := make([]gopoet.Symbol, n/2)
		for i := range es {
			es[i] = sym()
		}
		ms := make([]gopoet.MethodType, n)
		for i := range ms {
			ms[i].Name = id("M", n-i)
			ms[i].Signature.AddArg("", ref())
			if i%3 == 0 {
				ms[i].Signature.AddResult("", gopoet.ErrorType)
			}
		}
		return gopoet.InterfaceType(es, ms...)
	case 4: // deep
		t := ref()
		for i := 0; i < n; i++ {
			switch i % 9 {
			case 0:
				t = gopoet.PointerType(t)
			case 1:
				t = gopoet.SliceType(t)
			case 2:
				t = gopoet.MapType(gopoet.StringType, t)
			case 3:
				t = gopoet.FuncType([]gopoet.ArgType{{Name: "a", Type: ref()}, {Type: t}}, nil)
			case 4:
				t = gopoet.ChannelType(t, reflect.ChanDir(1+i%2))
			case 5:
				t = gopoet.StructType(gopoet.FieldType{Name: "F", Type: t, Tag: "t"}, gopoet.FieldType{Type: ref()})
			case 6:
				t = gopoet.ArrayType(t, int64(i))
			case 7:
				t = gopoet.FuncType(nil, []gopoet.ArgType{{Type: ref()}, {Type: t}})
			case 8:
				m := gopoet.MethodType{Name: "M"}
				m.Signature.AddArg("", gopoet.SliceType(t)).SetVariadic(true)
				t = gopoet.InterfaceType(nil, m)
			}
		}
		return t
	case 5: // one kind nested deeply
		t := ref()
		for i := 0; i < n; i++ {
			t = gopoet.FuncType(nil, []gopoet.ArgType{{Name: "result", Type: t}})
		}
		return t
	default: // a long name
		s := sym()
		s.Name = strings.Repeat("x", n*20)
		return gopoet.StructType(gopoet.FieldType{Name: "F" + s.Name, Type: gopoet.PointerType(gopoet.NamedType(s)), Tag: reflect.StructTag(s.Name)})
	}
}

// bigSym refers to up to k packages of one name, and to ones that differ by an
// arbitrary digit.
func bigSym(k int) func() gopoet.Symbol {
	n := 0
	return func() gopoet.Symbol {
		n++
		if n%10 == 3 {
			return gopoet.Symbol{Name: "error"}
		}
		if n%10 == 5 {
			return gopoet.NewSymbol("o", "O"+strconv.Itoa(n))
		}
		return gopoet.Symbol{Name: "T" + strconv.Itoa(n), Package: gopoet.Package{ImportPath: "x/" + strconv.Itoa(n*7%k) + "/p", Name: "p"}}
	}
}

// H_C01_large registers very many packages of one name.
// bound: 40, 120 or 300 packages of one name, or without one, in one of two orders, one with the name of an alias before or after them; all registered again, with other names; with 40, that name ends in two arbitrary digits
// covers: done
func H_C01_large() {
	n := []int{40, 120, 300}[vChoose(3)]
	imps := gopoet.NewImportsFor("own")
	odd := "17"
	if n == 40 {
		odd = vIdent("1234", digits, 2)
	}
	var known []c01Entry
	reg := func(path, name string) {
		known = append(known, c01Entry{path, imps.RegisterImport(path, name)})
	}
	name := []string{"p", ""}[vChoose(2)]
	rev := vChoose(2) == 0
	if rev {
		reg("odd", "p"+odd)
	}
	for i := 0; i < n; i++ {
		j := i
		if rev {
			j = n - i
		}
		reg("x/"+strconv.Itoa(j)+"/p", name)
	}
	if !rev {
		reg("odd", "p"+odd)
	}
	vAssert(imps.PrefixForPackage("own") == "", "own package has a qualifier")
	for _, k := range known {
		vAssert(imps.RegisterImport(k.path, "other") == k.prefix, "another registration of a path gives another qualifier")
		vAssert(imps.PrefixForPackage(k.path) == k.prefix, "qualifier of a path changed")
	}
	seen := map[string]bool{}
	for _, k := range known {
		vAssert(!seen[k.prefix], "two paths share a qualifier")
		seen[k.prefix] = true
	}
	vAssert(len(imps.ImportSpecs()) == len(known), "wrong number of imports")
	vCover("done")
}

// H_C02_large lists very many imports.
// bound: 40 or 120 (300 thorough) packages of one name, without one or of different names, registered in 3 orders, one of them with a path of an arbitrary digit
// covers: done
func H_C02_large() {
	n := []int{40, 120, 300}[vChoose(2+vTier())]
	step := []int{1, 8, 299}[vChoose(3)]
	how := vChoose(3)
	imps := gopoet.NewImportsFor("own")
	names := map[string]string{}
	for i := 0; i < n; i++ {
		j := strconv.Itoa(i * step % 301)
		path := strings.Repeat("a", i%5) + "/" + j + "/p"
		name := []string{"p", "", "p" + j}[how]
		imps.RegisterImport(path, name)
		names[path] = name
	}
	path := "aa/" + string([]byte{vByteIn(digits)})
	imps.RegisterImport(path, "p")
	names[path] = "p"
	specs := imps.ImportSpecs()
	vAssert(len(specs) == n+1, "number of import specs")
	for i, s := range specs {
		vAssert(i == 0 || specs[i-1].ImportPath < s.ImportPath, "import specs not sorted by path")
		q := trimDot(imps.PrefixForPackage(s.ImportPath))
		name, ok := names[s.ImportPath]
		vAssert(ok, "a package is listed that was not registered")
		if name == q {
			vAssert(s.PackageAlias == "", "alias though the package's own name is used")
		} else {
			vAssert(s.PackageAlias == q, "alias missing or other than the qualifier")
		}
	}
	vCover("done")
}

// H_C03_large invents very many qualifiers.
// bound: 120 packages of unknown names whose paths end in one of 4 elements, long ones among them
// covers: done
func H_C03_large() {
	base := []string{"a-b", "type", "1", strings.Repeat("x.", 100)}[vChoose(4)]
	imps := gopoet.NewImportsFor("own")
	for i := 0; i < 120; i++ {
		q := trimDot(imps.RegisterImport("x/"+strconv.Itoa(i)+"/"+base, ""))
		vAssert(token.IsIdentifier(q) && q != "_", "qualifier is not a legal identifier")
	}
	vCover("done")
}

// H_C05_large qualifies large types.
// bound: types of 7 forms with 9..100 (257 thorough) parts or levels, references to 3 or 150 packages of one name, one of which is registered before
// covers: refused accepted
func H_C05_large() {
	k := []int{3, 150}[vChoose(2)]
	t := bigType(vChoose(bigKinds), bigSize(), bigSym(k))
	imps := gopoet.NewImportsFor("o")
	if vChoose(2) == 0 {
		imps.RegisterImport("x/"+string([]byte{vByteIn("12")})+"/p", "p")
	} else {
		for _, s := range symsOf(t) {
			if s.Package.ImportPath != "" {
				imps.RegisterImport(s.Package.ImportPath, "")
			}
		}
	}
	c05One(imps, t)
}

// H_C06_large qualifies large types for two files.
// bound: types of 7 forms with 9..100 (257 thorough) parts or levels, references to 3 or 150 packages of one name; two import sets, two states
// covers: changed
func H_C06_large() {
	k := []int{3, 150}[vChoose(2)]
	t := bigType(vChoose(bigKinds), bigSize(), bigSym(k))
	before := dump(t)
	i1, i2 := c06Imports()
	q1 := i1.EnsureTypeImported(t)
	d1 := dump(q1)
	i2.RegisterImport("y/p", "p")
	q2 := i2.EnsureTypeImported(t)
	d2 := dump(q2)
	vAssert(dump(t) == before, "the original changed")
	vAssert(dump(q1) == d1, "a qualified type changed on another use of the original")
	i2.EnsureTypeImported(q1)
	i1.EnsureTypeImported(q2)
	vAssert(dump(q1) == d1 && dump(q2) == d2, "qualifying a qualified type changed it")
	vAssert(dump(t) == before, "the original changed")
	if sig := t.Signature(); sig != nil {
		s := dumpSig(sig)
		i3 := gopoet.NewImportsFor("z")
		i3.RegisterImport("y/p", "p")
		i3.EnsureAllTypesImported(sig)
		vAssert(dumpSig(sig) == s, "the original changed")
	}
	if d1 != before {
		vCover("changed")
	}
}

// H_C07_large prints large types.
// bound: types of 7 forms with 9..100 (257 thorough) parts or levels, by themselves or in a slice, struct or function
// covers: done
func H_C07_large() {
	kind, n := vChoose(bigKinds), bigSize()
	if kind == 4 || kind == 5 {
		vAssume(n < 101)
	}
	t := bigType(kind, n, bigSym(150))
	switch vChoose(4) {
	case 1:
		t = gopoet.SliceType(t)
	case 2:
		t = gopoet.StructType(gopoet.FieldType{Name: "A", Type: t, Tag: "x"}, gopoet.FieldType{Name: "B", Type: gopoet.IntType})
	case 3:
		t = gopoet.FuncType([]gopoet.ArgType{{Type: t}, {Name: "b", Type: gopoet.IntType}}, []gopoet.ArgType{{Type: t}})
	}
	c07Check(t)
}

// H_C08_large builds and reads large types.
// bound: functions, structs and interfaces of 9..100 (257 thorough) parts
// covers: done
func H_C08_large() {
	n := bigSize()
	fs := make([]gopoet.FieldType, n)
	es := make([]gopoet.Symbol, n)
	ms := make([]gopoet.MethodType, n)
	args, res := make([]gopoet.ArgType, n), make([]gopoet.ArgType, n+1)
	at := vChoose(3) * (n - 1) / 2
	for i := range fs {
		nm := "N" + strconv.Itoa(i)
		if i == at {
			nm = vIdent(upper, idRest, 2)
		}
		fs[i] = gopoet.FieldType{Name: nm, Type: c23Leaf(i), Tag: reflect.StructTag(nm)}
		es[i] = gopoet.NewSymbol("a", nm)
		ms[i].Name = nm
		ms[i].Signature.AddArg(nm, c23Leaf(i))
		args[i] = gopoet.ArgType{Name: nm, Type: gopoet.SliceType(c23Leaf(i))}
		res[i+1] = gopoet.ArgType{Type: c23Leaf(i)}
	}
	res[0] = gopoet.ArgType{Type: gopoet.IntType}
	st, it, ft := gopoet.StructType(fs...), gopoet.InterfaceType(es, ms...), gopoet.FuncTypeVariadic(args, res)
	gf, ge, gm, sig := st.Fields(), it.Embeds(), it.Methods(), ft.Signature()
	vAssert(st.Kind() == gopoet.KindStruct && it.Kind() == gopoet.KindInterface && ft.Kind() == gopoet.KindFunc, "wrong kind")
	vAssert(len(gf) == n && len(ge) == n && len(gm) == n && len(sig.Args) == n && len(sig.Results) == n+1 && sig.IsVariadic, "parts are missing")
	for i := range fs {
		vAssert(gf[i] == fs[i] && ge[i] == es[i] && gm[i].Name == ms[i].Name && gm[i].Signature.Args[0] == ms[i].Signature.Args[0], "another part than given")
		vAssert(sig.Args[i] == args[i] && sig.Results[i+1] == res[i+1], "another part than given")
	}
	vCover("done")
}

// H_C09_large converts large types of go/types.
// bound: functions, structs, interfaces and nestings of 9..100 (257 thorough) parts or levels
// covers: done
func H_C09_large() {
	n := bigSize()
	pkg := types.NewPackage("a/x", "q")
	var ps, rs, fs []*types.Var
	var tags []string
	var ms []*types.Func
	var w gopoet.Signature
	var wf []gopoet.FieldType
	var wm []gopoet.MethodType
	for i := 0; i < n; i++ {
		nm := "N" + strconv.Itoa(i)
		if i == n-2 {
			nm = vIdent("QZ", idRest, 2)
		}
		b := goBasics[i%len(goBasics)]
		gt := types.NewSlice(types.NewNamed(types.NewTypeName(token.NoPos, pkg, nm, nil), types.Typ[b.g], nil))
		wt := gopoet.SliceType(gopoet.NamedType(gopoet.Package{ImportPath: "a/x", Name: "q"}.Symbol(nm)))
		ps = append(ps, types.NewParam(token.NoPos, nil, nm, gt))
		rs = append(rs, types.NewParam(token.NoPos, nil, "", types.Typ[b.g]))
		fs = append(fs, types.NewField(token.NoPos, pkg, nm, gt, false))
		tags = append(tags, nm+"t")
		ms = append(ms, types.NewFunc(token.NoPos, pkg, "M"+strconv.Itoa(1000+i), types.NewSignature(nil, types.NewTuple(ps[:i+1][i]), nil, true)))
		w.AddArg(nm, wt).AddResult("", gopoet.BasicType(b.r))
		wf = append(wf, gopoet.FieldType{Name: nm, Type: wt, Tag: reflect.StructTag(nm + "t")})
		m := gopoet.MethodType{Name: "M" + strconv.Itoa(1000+i)}
		m.Signature.AddArg(nm, wt).SetVariadic(true)
		wm = append(wm, m)
	}
	switch vChoose(4) {
	case 0:
		c09Check(types.NewSignature(nil, types.NewTuple(ps...), types.NewTuple(rs...), true), gopoet.FuncTypeFromSig(w.SetVariadic(true)))
	case 1:
		c09Check(types.NewStruct(fs, tags), gopoet.StructType(wf...))
	case 2:
		it := types.NewInterface(ms, nil)
		it.Complete()
		c09Check(it, gopoet.InterfaceType(nil, wm...))
	case 3:
		gt, wt := fs[0].Type(), wf[0].Type
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				gt, wt = types.NewPointer(gt), gopoet.PointerType(wt)
			} else {
				gt, wt = types.NewMap(types.Typ[types.String], gt), gopoet.MapType(gopoet.StringType, wt)
			}
		}
		c09Check(gt, wt)
	}
}

// H_C12_large renders very long code.
// bound: 200 or 3000 pieces of text, or one text of 5000 or 70000 bytes, an arbitrary byte at its end
// covers: done
func H_C12_large() {
	cb := &gopoet.CodeBlock{}
	want := ""
	last := string([]byte{vByte()})
	switch vChoose(4) {
	case 0, 1:
		n := 200
		if vChoose(2) == 0 {
			n = 3000
		}
		parts := make([]string, n)
		for i := range parts {
			parts[i] = strconv.Itoa(i) + "%" + "\n"
			if i%2 == 0 {
				cb.Print(parts[i])
			} else {
				cb.AddCode(gopoet.Printf("%d%%\n", i))
			}
		}
		cb.Print(last)
		want = strings.Join(parts, "") + last
	case 2:
		want = strings.Repeat("0123456789abcde\n%", 300) + last
		cb.Print(want)
	case 3:
		want = strings.Repeat("0123456789abcdef", 4400) + last
		cb.Printf("%s", want[:66000]).Println(want[66000:])
		want += "\n"
	}
	got, _ := c12Raw(cb, nil)
	vAssert(vEqStr(got, want), "the text is not rendered as it was given")
	vCover("done")
}

// H_C13_large qualifies large lists, maps and structs of references.
// bound: lists, maps and lists of structs of 9..100 (257 thorough) references to 150 packages of one name, or with one reference at an end or in the middle
// covers: done
func H_C13_large() {
	n := bigSize()
	sym := bigSym(150)
	imps := gopoet.NewImportsFor("o")
	ref := gopoet.NewImportsFor("o")
	type node struct {
		T gopoet.TypeName
		s interface{}
		n int
	}
	at := []int{-1, 0, n / 2, n - 1}[vChoose(4)]
	list := make([]interface{}, n)
	m := map[int]interface{}{}
	nodes := make([]*node, n)
	syms := make([]gopoet.Symbol, n)
	for i := range list {
		list[i], nodes[i] = i, &node{n: i}
		m[i] = "x"
		if at < 0 || at == i {
			syms[i] = sym()
			list[i], m[i], nodes[i].s = syms[i], &syms[i], syms[i]
			nodes[i].T = gopoet.SliceType(gopoet.NamedType(syms[i]))
		}
	}
	what := vChoose(3)
	want := func(i int) gopoet.Symbol { return ref.EnsureImported(syms[i]) }
	had := append([]gopoet.Symbol(nil), syms...)
	switch what {
	case 0:
		got := imps.QualifyTemplateData(list).([]interface{})
		vAssert(len(got) == n, "a list gets another length")
		for i := range got {
			if at < 0 || at == i {
				vAssert(got[i] == interface{}(want(i)), "a reference is not qualified")
				vAssert(list[i] == interface{}(syms[i]), "the data given changes")
			} else {
				vAssert(got[i] == interface{}(i), "an entry that is no reference changes")
			}
		}
	case 1:
		got := imps.QualifyTemplateData(m).(map[int]interface{})
		vAssert(len(got) == n, "a map gets another length")
		for i := range list {
			if at < 0 || at == i {
				q := imps.EnsureImported(syms[i])
				vAssert(*(got[i].(*gopoet.Symbol)) == q && q.Name == syms[i].Name, "a reference is not qualified")
			} else {
				vAssert(got[i] == interface{}("x"), "an entry that is no reference changes")
			}
		}
	case 2:
		got := imps.QualifyTemplateData(nodes).([]*node)
		vAssert(len(got) == n, "a list gets another length")
		for i := range got {
			vAssert(got[i].n == i, "a field that is no reference changes")
			if at < 0 || at == i {
				q := want(i)
				vAssert(got[i].s == interface{}(q) && got[i].T.Elem().Symbol() == q, "a reference is not qualified")
			} else {
				vAssert(got[i].s == nil && got[i].T == nil, "a field that is nil changes")
			}
		}
	}
	for i := range had {
		vAssert(syms[i] == had[i], "the data given changes")
	}
	vCover("done")
}

// bigFile is a file of n elements of all kinds.
func bigFile() (*fgen, int) {
	g := newFgen("o")
	fewPaths(g, 0)
	g.tg.kinds = "n"
	n := 120
	if vTier() > 0 && vChoose(2) == 0 {
		n = 600
	}
	step := []int{1, 5, 11}[vChoose(3)]
	for i := 0; i < n; i++ {
		g.elem((i*step + i/fKinds) % fKinds)
	}
	return g, n
}

// H_C14_large declares very many elements.
// bound: files of 120 (600 in the thorough tier) elements of 28 kinds in 3 orders; groups of 9..100 (257 thorough) consts, vars or types, structs and interfaces of as many members, functions of as many lines
// covers: done
func H_C14_large() {
	if vChoose(2) == 0 {
		g, _ := bigFile()
		vAssert(g.f.NumElements() == len(g.want), "elements are missing from the file")
		c14Check(g)
		vCover("done")
		return
	}
	g := newFgen("o")
	fewPaths(g, 0)
	g.tg.kinds = "n"
	n := bigSize()
	id := func(i int) string { return "N" + strconv.Itoa(n-i) }
	var specs []wSpec
	switch vChoose(6) {
	case 0:
		d := gopoet.NewConstDecl()
		for i := 0; i < n; i++ {
			c := gopoet.NewConst(id(i))
			w := wSpec{names: []string{id(i)}}
			if i%3 == 0 {
				t := g.leaf()
				c.SetType(t).Initialize("%d", i)
				w.typ, w.init = t, str(strconv.Itoa(i))
			}
			d.AddConst(c)
			specs = append(specs, w)
		}
		g.f.AddElement(d)
		g.add('c', true, specs...)
	case 1:
		d := gopoet.NewVarDecl()
		for i := 0; i < n; i++ {
			t := g.leaf()
			d.AddVar(gopoet.NewVar(id(i)).SetType(t))
			specs = append(specs, wSpec{names: []string{id(i)}, typ: t})
		}
		g.f.AddElement(d)
		g.add('v', true, specs...)
	case 2:
		d := gopoet.NewTypeDecl()
		for i := 0; i < n; i++ {
			t := g.leaf()
			d.AddType(gopoet.NewTypeSpec(id(i), t))
			specs = append(specs, wSpec{names: []string{id(i)}, typ: t})
		}
		g.f.AddElement(d)
		g.add('t', true, specs...)
	case 3:
		names := make([]string, n)
		for i := range names {
			names[i] = id(i)
		}
		t := g.leaf()
		g.f.AddVar(gopoet.NewVar(names...).SetType(t))
		g.add('v', false, wSpec{names: names, typ: t})
	case 4:
		fs := make([]*gopoet.FieldSpec, n)
		w := wStruct{}
		for i := range fs {
			t := g.leaf()
			fs[i] = gopoet.NewField(id(i), t).SetTag(id(i))
			w = append(w, wField{name: id(i), typ: t, tag: id(i)})
		}
		g.f.AddType(gopoet.NewStructTypeSpec("T", fs...))
		g.add('t', false, wSpec{names: []string{"T"}, typ: w})
	case 5:
		t := bigType(vChoose(bigKinds), n, g.sym)
		g.f.AddVar(gopoet.NewVar("V").SetType(t))
		g.add('v', false, wSpec{names: []string{"V"}, typ: t})
	}
	c14Check(g)
	vCover("done")
}

// H_C15_large imports very many packages.
// bound: 100 elements that refer to 60 packages of one name, without a known name or of different names
// covers: done
func H_C15_large() {
	g := newFgen("o")
	c15Names(g)
	n := 0
	g.path = func() string {
		n++
		i := n * 7 % 60
		return "x/" + string([]byte{"abcdef"[i%6], '/', "qrstuvwxyz"[i/6]})
	}
	g.tg.kinds = "n"
	for i := 0; i < 100; i++ {
		g.elem((i*11 + 4) % fKinds)
	}
	delete(g.names, "")
	c15Check(g)
	vCover("done")
}

// H_C16_large renders large files again.
// bound: files of 120 (600 in the thorough tier) elements of 28 kinds in 3 orders, rendered twice, before and after another
// covers: done
func H_C16_large() {
	g, _ := bigFile()
	one := c16Out(g.f)
	h := newFgen("a")
	fewPaths(h, 0)
	h.elem(3)
	two := c16Out(h.f)
	vAssert(c16Out(g.f) == one, "rendering again gives another source")
	vAssert(c16Out(h.f) == two, "rendering again gives another source")
	vCover("done")
}

// H_C17_large writes large files with faults.
// bound: sources of 5 to 140 KB, any combination of failing to render and to write, after none, some or all of the bytes, and of a panic
// covers: ok fault render panic
func H_C17_large() {
	ft := fault{render: vBool(), panic: vBool(), write: vBool()}
	f := c17File(1, "p", ft)
	n := []int{50, 400, 1400}[vChoose(3)]
	for i := n; i > 0; i-- {
		f.AddVar(gopoet.NewVar("longer"+strconv.Itoa(i)).Initialize("%q", strings.Repeat("some more text to write ", 3)))
	}
	o := &wOut{}
	if ft.write {
		o.writeErr = errors.New("write")
		o.short = []int{0, 1, 4096, 32768, 1 << 20}[vChoose(5)]
	}
	var err error
	if panics(func() { err = gopoet.WriteGoFile(o, f) }) {
		vAssert(ft.panic, "rendering panics")
		vAssert(len(o.data) == 0, "something is written though rendering failed")
		vCover("panic")
		return
	}
	vAssert(!ft.panic, "a panic is lost")
	switch {
	case ft.render:
		_, ok := err.(*gopoet.FormatError)
		vAssert(ok, "a failure to render is not reported as a FormatError")
		vAssert(len(o.data) == 0, "something is written though rendering failed")
		vCover("render")
	case ft.write:
		vAssert(err == o.writeErr, "a failure to write is not reported")
		vCover("fault")
	default:
		vAssert(err == nil, "an error is reported though nothing failed")
		s := string(o.data)
		vAssert(strings.Count(s, "\nvar longer") == n && strings.HasSuffix(s, "text to write \"\n"), "the source is not complete")
		vCover("ok")
	}
}

// onceOut fails at one of its writes only.
type onceOut struct {
	at, n int
	err   error
}

func (o *onceOut) Write(b []byte) (int, error) {
	o.n++
	if o.n == o.at {
		return 0, o.err
	}
	return len(b), nil
}

// H_C17_once writes to something that fails at one of its writes.
// bound: sources of 5 to 140 KB; the first to fourth write fails, those after it do not
// covers: done
func H_C17_once() {
	f := gopoet.NewGoFile("x.go", "o", "o")
	for i := []int{50, 400, 1400}[vChoose(3)]; i > 0; i-- {
		f.AddVar(gopoet.NewVar("longer"+strconv.Itoa(i)).Initialize("%q", strings.Repeat("some more text to write ", 3)))
	}
	o := &onceOut{at: 1 + vChoose(4), err: errors.New("write")}
	err := gopoet.WriteGoFile(o, f)
	if o.n >= o.at {
		vAssert(err == o.err, "a failure to write is not reported")
	} else {
		vAssert(err == nil, "an error is reported though nothing failed")
	}
	vCover("done")
}

// H_C19_large writes long comments.
// bound: a comment of 5000 bytes in one line, of 40 or 300 lines, or of 100 blank lines, an arbitrary byte at its end, at any of 41 places, before formatting
// covers: file done
func H_C19_large() {
	text := ""
	switch vChoose(4) {
	case 0:
		text = strings.Repeat("word */ // x", 420)
	case 1:
		text = strings.Repeat("a line\n\t// another\n", 20)
	case 2:
		text = strings.Repeat("x\n", 300)
	case 3:
		text = strings.Repeat("\n", 100)
	}
	text += string([]byte{vByte()})
	at := c19At(text, vChoose(len(c19Places)), false)
	got := c19Raw(c19File("1", at))
	bare := c19Raw(c19File("1", func(int) string { return "" }))
	c19Check(got, bare, at, false)
	vCover("done")
}

// H_C20_large reads long tags.
// bound: tags of 100 and 1000 (5000 thorough) bytes with 3 kinds of contents, an arbitrary byte at the start or end, in the text of a type and at two kinds of places of a file
// covers: quoted raw done
func H_C20_large() {
	n := []int{100, 1000, 5000}[vChoose(2+vTier())]
	tag := strings.Repeat([]string{"x", "a`b", "json:\"x\" "}[vChoose(3)], n/8)
	if vChoose(2) == 0 {
		tag = string([]byte{vByte()}) + tag
	} else {
		tag += string([]byte{vByte()})
	}
	in := vChoose(3)
	c20Check(func(tag string) string {
		if in == 0 {
			return gopoet.StructType(gopoet.FieldType{Name: "F", Type: gopoet.IntType, Tag: reflect.StructTag(tag)}).String()
		}
		f := gopoet.NewGoFile("x.go", "o", "1")
		c20File(f, tag, []int{0, 8}[in-1], 0)
		return c20Raw(f)
	}, tag)
	vCover("done")
}

// H_C21_large writes large files to a file system.
// bound: sources of 5, 40 and 140 KB, onto nothing, a shorter or a longer file; all of them or the others empty
// covers: done
func H_C21_large() {
	defer vfsScratch()()
	n := []int{600, 5000, 17000}[vChoose(3)]
	mk := func(k int) *gopoet.GoFile {
		f := c21File("a", "x"+strconv.Itoa(k)+".go", "0")
		if k == 1 {
			f.AddVar(gopoet.NewVar("W").Initialize("%q", strings.Repeat("12345678", n)))
		}
		return f
	}
	t := newTree()
	switch vChoose(3) {
	case 1:
		t.put("r/a/x1.go", strings.Repeat("short ", 100))
	case 2:
		t.put("r/a/x1.go", strings.Repeat("long ", 40000))
	}
	t.create()
	vAssert(gopoet.WriteGoFilesToFileSystem("r", mk(0), mk(1), mk(2)) == nil, "writing files fails")
	for k := 0; k < 3; k++ {
		t.put("r/a/x"+strconv.Itoa(k)+".go", rendered(mk(k)))
	}
	t.check()
	vCover("done")
}

// H_C22_large reads a large file before and after rendering it.
// bound: files of 120 (600 in the thorough tier) elements of 28 kinds in 3 orders
// covers: done
func H_C22_large() {
	g, _ := bigFile()
	c22Same(g, func() { rendered(g.f) })
	vCover("done")
}

// H_C23_large builds large things step by step.
// bound: files, declarations, signatures and code of 9..100 (257 thorough) parts
// covers: done
func H_C23_large() {
	n := bigSize()
	f := gopoet.NewGoFile("x.go", "a", "a")
	cd, vd, td := gopoet.NewConstDecl(), gopoet.NewVarDecl(), gopoet.NewTypeDecl()
	var s gopoet.Signature
	var cs []*gopoet.ConstSpec
	var vs []*gopoet.VarSpec
	var ts []*gopoet.TypeSpec
	at := vChoose(3) * (n - 1) / 2
	var args []gopoet.ArgType
	for i := 0; i < n; i++ {
		nm := "N" + strconv.Itoa(i)
		if i == at {
			nm = vIdent(upper, idRest, 2)
		}
		t := c23Leaf(i)
		cs, vs, ts = append(cs, gopoet.NewConst(nm)), append(vs, gopoet.NewVar(nm)), append(ts, gopoet.NewTypeSpec(nm, t))
		cd.AddConst(cs[i])
		vd.AddVar(vs[i])
		td.AddType(ts[i])
		args = append(args, gopoet.ArgType{Name: nm, Type: t})
		s.AddArg(nm, t).AddResult(nm, t)
		f.AddElement(gopoet.NewFunc(nm))
	}
	vAssert(f.NumElements() == n && len(cd.Consts) == n && len(vd.Vars) == n && len(td.Types) == n, "something added is missing")
	vAssert(c23Args(s.Args, args) && c23Args(s.Results, args), "the arguments are not those that were added")
	for i := 0; i < n; i++ {
		vAssert(cd.Consts[i] == cs[i] && vd.Vars[i] == vs[i] && td.Types[i] == ts[i], "something is not where it was added")
		vAssert(f.ElementAt(i).(*gopoet.FuncSpec).Name == args[i].Name, "something is not where it was added")
	}
	vCover("done")
}

// H_C24_large renders large files that are Go or not.
// bound: sources of 5 to 140 KB with code in a poor format, correct or with an error at the start, in the middle or at the end; in the thorough tier an arbitrary character of punctuation in its place
// covers: go refused
func H_C24_large() {
	n := []int{50, 400, 1400}[vChoose(3)]
	at := []int{-1, 0, n / 2, n - 1}[vChoose(4)]
	bad := ")"
	if vTier() > 0 {
		bad = string([]byte{vByteIn(")]}({[/+;:,.=\"'`#$?@\\")})
	}
	f := gopoet.NewGoFile("x.go", "o", "o")
	for i := 0; i < n; i++ {
		v := gopoet.NewVar("longer" + strconv.Itoa(i))
		init := "f(1,2,   " + strconv.Quote(strings.Repeat("some more text ", 5)) + ")"
		if i == at {
			init += bad
		}
		f.AddVar(v.Initialize("%s", init))
	}
	o := &wOut{}
	err := gopoet.WriteGoFile(o, f)
	if err == nil {
		vAssert(at < 0 || bad != ")", "a source that is no Go is written")
		src, ferr := format.Source(o.data)
		vAssert(ferr == nil, "the source written does not parse")
		vAssert(bytes.Equal(src, o.data), "the source written is not in its canonical format")
		vCover("go")
		return
	}
	vAssert(at >= 0, "a file that is Go is refused")
	fe, ok := err.(*gopoet.FormatError)
	vAssert(ok && fe.Err != nil, "a file that is no Go is not refused with a FormatError")
	vAssert(len(o.data) == 0, "a file that is no Go is written")
	for i := 0; i < n; i += 7 {
		vAssert(bytes.Contains(fe.Unformatted, []byte("var longer"+strconv.Itoa(i)+" = f(1,2,   \"some")), "the source reported lacks some of the code")
	}
	vAssert(strings.HasSuffix(strings.TrimRight(string(fe.Unformatted), "\n"), "text \")"+map[bool]string{true: bad}[at == n-1]), "the source reported lacks its end")
	vCover("refused")
}

// H_C04_large qualifies symbols of very many packages.
// bound: symbols of 120 packages of one name; each qualified twice and looked up
// covers: done
func H_C04_large() {
	imps := gopoet.NewImportsFor("o")
	sym := bigSym(120)
	for i := 0; i < 150; i++ {
		s := sym()
		had := len(imps.ImportSpecs())
		known := s.Package.ImportPath == "" || s.Package.ImportPath == "o" || hasImport(imps, s.Package.ImportPath)
		q := imps.EnsureImported(s)
		vAssert(q.Name == s.Name && q.Package.ImportPath == s.Package.ImportPath, "another symbol")
		vAssert(imps.EnsureImported(q) == q && imps.Qualify(s) == q, "qualifying again gives another symbol")
		if !known {
			had++
		}
		vAssert(len(imps.ImportSpecs()) == had, "wrong number of imports")
		switch s.Package.ImportPath {
		case "", "o":
			vAssert(q.Package.Name == "", "a qualifier where none is needed")
		default:
			vAssert(q.Package.Name+"." == imps.PrefixForPackage(s.Package.ImportPath), "another qualifier than the package's")
		}
	}
	vCover("done")
}
