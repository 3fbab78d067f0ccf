package main

import (
	"reflect"
	"strconv"

	"github.com/jhump/gopoet"
)

// H_C23_refs makes packages, symbols and method references from their parts.
// bound: import paths of 1..4 arbitrary bytes, names of 2 arbitrary bytes; a package made from its path alone only for paths that end in an element
// covers: based struct root
func H_C23_refs() {
	path := ""
	for n := 1 + vChoose(4); n > 0; n-- {
		path += string([]byte{vByte()})
	}
	name, meth := string([]byte{vByte(), vByte()}), string([]byte{vByte(), vByte()})
	p := gopoet.Package{ImportPath: path, Name: string([]byte{vByte()})}
	if vChoose(2) == 0 {
		vAssume(path[len(path)-1] != '/')
		base := path
		for i := 0; i < len(path); i++ {
			if path[i] == '/' {
				base = path[i+1:]
			}
		}
		if base == path {
			vCover("root")
		}
		p = gopoet.NewPackage(path)
		vAssert(p.ImportPath == path, "a package has another import path than given")
		vAssert(p.Name == base, "a package is not named by the last element of its path")
		vAssert(gopoet.NewSymbol(path, name) == gopoet.Symbol{Name: name, Package: p}, "a symbol made from a path is another one")
		vCover("based")
	} else {
		vCover("struct")
	}
	vAssert(p.String() == p.Name, "the text of a package is not its name")
	s := p.Symbol(name)
	vAssert(s == gopoet.Symbol{Name: name, Package: p}, "a symbol of a package is another one")
	vAssert(s.String() == p.Name+"."+name, "the text of a symbol is not package and name")
	vAssert(gopoet.Symbol{Name: name}.String() == name, "the text of a symbol without a package is not its name")
	r := gopoet.MethodReference{Type: s, Method: meth}
	vAssert(r.String() == p.Name+"."+name+"."+meth, "the text of a method reference is not that of a method expression")
	r.Type.Package = gopoet.Package{ImportPath: path}
	vAssert(r.String() == name+"."+meth, "the text of a method reference of no package is not that of a method expression")
	t := gopoet.NamedType(s)
	vAssert(t.String() == s.String(), "the text of a named type is not that of its symbol")
}

func c23Leaf(i int) gopoet.TypeName {
	return []gopoet.TypeName{gopoet.IntType, gopoet.SliceType(gopoet.StringType), gopoet.NamedType(gopoet.NewSymbol("a", "T"))}[i%3]
}

func c23Args(got, want []gopoet.ArgType) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !(got[i] == want[i]) {
			return false
		}
	}
	return true
}

// H_C23_sigs builds signatures step by step.
// bound: all sequences of 4 steps (5 in the thorough tier) of adding an argument or result with a name of 0..1 arbitrary bytes and setting the variadic mark or the comment, on a signature, function, method or method of an interface
// covers: done
func H_C23_sigs() {
	what := vChoose(4)
	var s gopoet.Signature
	sig := &s
	f := gopoet.NewFunc("F")
	r := gopoet.NewPointerReceiver("r", "T")
	m := gopoet.NewInterfaceMethod("M")
	switch what {
	case 1:
		sig = &f.Signature
	case 2:
		f = gopoet.NewMethod(r, "F")
		sig = &f.Signature
	case 3:
		sig = &m.Signature
	}
	var args, results []gopoet.ArgType
	variadic := false
	comment := ""
	for n := 0; n < 4+vTier(); n++ {
		a := gopoet.ArgType{Type: c23Leaf(n)}
		if vChoose(2) == 0 {
			a.Name = string([]byte{vByte()})
		}
		chained := false
		switch op := vChoose(4); op {
		case 0, 1:
			if op == 0 {
				args = append(args, a)
			} else {
				results = append(results, a)
			}
			switch what {
			case 0:
				if op == 0 {
					chained = sig.AddArg(a.Name, a.Type) == sig
				} else {
					chained = sig.AddResult(a.Name, a.Type) == sig
				}
			case 3:
				if op == 0 {
					chained = m.AddArg(a.Name, a.Type) == m
				} else {
					chained = m.AddResult(a.Name, a.Type) == m
				}
			default:
				if op == 0 {
					chained = f.AddArg(a.Name, a.Type) == f
				} else {
					chained = f.AddResult(a.Name, a.Type) == f
				}
			}
		case 2:
			variadic = !variadic
			switch what {
			case 0:
				chained = sig.SetVariadic(variadic) == sig
			case 3:
				chained = m.SetVariadic(variadic) == m
			default:
				chained = f.SetVariadic(variadic) == f
			}
		case 3:
			switch what {
			case 0:
				chained = true
			case 3:
				comment = a.Name
				chained = m.SetComment(comment) == m
			default:
				comment = a.Name
				chained = f.SetComment(comment) == f
			}
		}
		vAssert(chained, "a builder method returns something else than what it was called on")
		vAssert(c23Args(sig.Args, args), "the arguments are not those that were added")
		vAssert(c23Args(sig.Results, results), "the results are not those that were added")
		vAssert(sig.IsVariadic == variadic, "the variadic mark is not the one that was set")
		switch what {
		case 1:
			vAssert(f.Comment == comment && f.Name == "F" && f.Receiver == nil, "building changes something else")
		case 2:
			vAssert(f.Comment == comment && f.Name == "F" && f.Receiver == r && *r == gopoet.ReceiverSpec{Name: "r", Type: "T", IsPointer: true}, "building changes something else")
		case 3:
			vAssert(m.Comment == comment && m.Name == "M", "building changes something else")
		}
	}
	vCover("done")
}

// H_C23_values builds consts, vars, fields, types and their declarations step by step.
// bound: consts, vars and fields of 0..2 names of arbitrary bytes; all sequences of 3 setters (4 in the thorough tier), with comments and tags of 0..2 arbitrary bytes
// covers: const var field other
func H_C23_values() {
	text := func() string {
		b := make([]byte, vChoose(3))
		for i := range b {
			b[i] = vByte()
		}
		return string(b)
	}
	var names []string
	for n := vChoose(3); len(names) < n; {
		names = append(names, string([]byte{vByte()}))
	}
	c, v := gopoet.NewConst(names...), gopoet.NewVar(names...)
	fname := ""
	if len(names) > 0 {
		fname = names[0]
	}
	f := gopoet.NewField(fname, gopoet.IntType)
	var typ gopoet.TypeNameOrSpec
	var init *gopoet.CodeBlock
	comment, tag := "", ""
	what := vChoose(4)
	if what == 2 {
		typ = gopoet.IntType
	}
	for n := 0; n < 3+vTier(); n++ {
		chained := true
		op := vChoose(3)
		var t gopoet.TypeNameOrSpec = c23Leaf(n)
		if n == 1 {
			t = gopoet.NewTypeSpec("T", gopoet.IntType)
		}
		cb := gopoet.Print("1")
		switch what {
		case 0:
			switch op {
			case 0:
				comment = text()
				chained = c.SetComment(comment) == c
			case 1:
				typ = t
				chained = c.SetType(t) == c
			case 2:
				init = cb
				chained = c.SetInitializer(cb) == c
			}
		case 1:
			switch op {
			case 0:
				comment = text()
				chained = v.SetComment(comment) == v
			case 1:
				typ = t
				chained = v.SetType(t) == v
			case 2:
				init = cb
				chained = v.SetInitializer(cb) == v
			}
		case 2:
			switch op {
			case 0:
				comment = text()
				chained = f.SetComment(comment) == f
			case 1:
				tag = text()
				chained = f.SetTag(tag) == f
			}
		case 3:
			comment = text()
			switch op {
			case 0:
				d, e := gopoet.NewConstDecl(c), gopoet.NewInterfaceEmbed(gopoet.NewSymbol("a", "E"))
				chained = d.SetComment(comment) == d && e.SetComment(comment) == e
				vAssert(d.Comment == comment && len(d.Consts) == 1 && d.Consts[0] == c, "a declaration is not as it was built")
				vAssert(e.Comment == comment && e.Type == gopoet.NewSymbol("a", "E") && e.String() == "a.E", "an embedded interface is not as it was built")
			case 1:
				d := gopoet.NewVarDecl(v)
				chained = d.SetComment(comment) == d
				vAssert(d.Comment == comment && len(d.Vars) == 1 && d.Vars[0] == v, "a declaration is not as it was built")
			case 2:
				ts := gopoet.NewTypeSpec(fname, gopoet.IntType)
				d := gopoet.NewTypeDecl(ts)
				chained = d.SetComment(comment) == d && ts.SetComment(comment+"x") == ts
				vAssert(d.Comment == comment && len(d.Types) == 1 && d.Types[0] == ts, "a declaration is not as it was built")
				vAssert(ts.Comment == comment+"x" && ts.Name == fname && ts.Underlying() == gopoet.IntType, "a type is not as it was built")
			}
			comment = ""
		}
		vAssert(chained, "a builder method returns something else than what it was called on")
		same := func(got []string) bool {
			if len(got) != len(names) {
				return false
			}
			for i := range got {
				if got[i] != names[i] {
					return false
				}
			}
			return true
		}
		switch what {
		case 0:
			vAssert(same(c.Names) && c.Comment == comment && c.Type == typ && c.Initializer == init, "a const is not as it was built")
			vCover("const")
		case 1:
			vAssert(same(v.Names) && v.Comment == comment && v.Type == typ && v.Initializer == init, "a var is not as it was built")
			vCover("var")
		case 2:
			vAssert(f.Name == fname && f.Comment == comment && string(f.Tag) == tag && f.Type == typ && f.String() == fname, "a field is not as it was built")
			vCover("field")
		default:
			vCover("other")
		}
	}
}

// H_C23_file adds elements to a file step by step.
// bound: all sequences of 4 additions (5 in the thorough tier) of 8 kinds, empty declarations that are filled later among them
// covers: done
func H_C23_file() {
	f := gopoet.NewGoFile("x.go", "a/b", "q")
	var want []interface{}
	var late []func()
	for n := 0; n < 4+vTier(); n++ {
		id := strconv.Itoa(n)
		var ret *gopoet.GoFile
		switch vChoose(8) {
		case 7:
			var d gopoet.FileElement
			switch vChoose(3) {
			case 0:
				cd := &gopoet.ConstDecl{}
				d, late = cd, append(late, func() { cd.AddConst(gopoet.NewConst("C" + id).Initialize("1")) })
			case 1:
				vd := gopoet.NewVarDecl()
				d, late = vd, append(late, func() { vd.AddVar(gopoet.NewVar("V" + id).SetType(gopoet.IntType)) })
			default:
				td := gopoet.NewTypeDecl()
				d, late = td, append(late, func() { td.AddType(gopoet.NewTypeSpec("T"+id, gopoet.IntType)) })
			}
			ret, want = f.AddElement(d), append(want, d)
		case 0:
			c := gopoet.NewConst("C" + id)
			ret, want = f.AddConst(c), append(want, c)
		case 1:
			v := gopoet.NewVar("V" + id)
			ret, want = f.AddVar(v), append(want, v)
		case 2:
			t := gopoet.NewTypeSpec("T"+id, gopoet.IntType)
			ret, want = f.AddType(t), append(want, t)
		case 3:
			d := gopoet.NewConstDecl(gopoet.NewConst("C" + id)).AddConst(gopoet.NewConst("D" + id))
			ret, want = f.AddElement(d), append(want, d)
		case 4:
			d := gopoet.NewVarDecl().AddVar(gopoet.NewVar("V" + id))
			ret, want = f.AddElement(d), append(want, d)
		case 5:
			d := gopoet.NewTypeDecl(gopoet.NewTypeSpec("T"+id, gopoet.IntType)).AddType(gopoet.NewTypeAlias("U"+id, gopoet.IntType))
			ret, want = f.AddElement(d), append(want, d)
		case 6:
			fn := gopoet.NewFunc("F" + id)
			ret, want = f.AddElement(fn), append(want, fn)
		}
		vAssert(ret == f, "adding to a file returns something else than the file")
		vAssert(f.NumElements() == len(want), "a file has not as many elements as were added")
		for i, w := range want {
			ok := false
			switch e := f.ElementAt(i).(type) {
			case *gopoet.ConstDecl:
				ok = w == interface{}(e) || len(e.Consts) == 1 && w == interface{}(e.Consts[0]) && e.Comment == ""
			case *gopoet.VarDecl:
				ok = w == interface{}(e) || len(e.Vars) == 1 && w == interface{}(e.Vars[0]) && e.Comment == ""
			case *gopoet.TypeDecl:
				ok = w == interface{}(e) || len(e.Types) == 1 && w == interface{}(e.Types[0]) && e.Comment == ""
			case *gopoet.FuncSpec:
				ok = w == interface{}(e)
			}
			vAssert(ok, "an element of a file is not the one that was added there")
		}
		vAssert(f.Package() == gopoet.Package{ImportPath: "a/b", Name: "q"}, "adding to a file changes its package")
		vAssert(len(f.ImportSpecs()) == 0, "adding to a file imports something")
	}
	for _, l := range late {
		l()
	}
	vAssert(f.NumElements() == len(want), "a file has not as many elements as were added")
	for i, w := range want {
		n := 1
		switch e := f.ElementAt(i).(type) {
		case *gopoet.ConstDecl:
			n = len(e.Consts)
		case *gopoet.VarDecl:
			n = len(e.Vars)
		case *gopoet.TypeDecl:
			n = len(e.Types)
		}
		switch w.(type) {
		case *gopoet.ConstDecl, *gopoet.TypeDecl:
			vAssert(n == 1 || n == 2, "what is added to a declaration in a file is not in the file")
		default:
			vAssert(n == 1, "what is added to a declaration in a file is not in the file")
		}
	}
	vCover("done")
}

// H_C23_lists builds from lists that are changed or used again afterwards.
// bound: 12 kinds of constructors given a list of 1..3 entries with room for 0 or 2 more; two made of the same list, added to where that is possible; then the list's first entry is replaced and an entry appended
// covers: done
func H_C23_lists() {
	n, room := 1+vChoose(3), 2*vChoose(2)
	id := func(i int) string { return "N" + strconv.Itoa(i) }
	sym := func(i int) gopoet.Symbol { return gopoet.NewSymbol("a", id(i)) }
	texts := func(read func(k int) string, add func(k int, i int), edit func()) {
		base := ""
		for i := 0; i < n; i++ {
			base += id(i) + ","
		}
		w := [2]string{base, base}
		for k := range w {
			vAssert(read(k) == w[k], "something built from a list does not hold its entries")
		}
		if add != nil {
			for k := range w {
				add(k, 10+k)
				w[k] += id(10+k) + ","
			}
		}
		edit()
		for k := range w {
			vAssert(read(k) == w[k], "something built from a list changes with the list or with another built from it")
		}
	}
	switch vChoose(12) {
	case 0:
		l := make([]*gopoet.ConstSpec, n, n+room)
		for i := range l {
			l[i] = gopoet.NewConst(id(i))
		}
		d := [2]*gopoet.ConstDecl{gopoet.NewConstDecl(l...), gopoet.NewConstDecl(l...)}
		texts(func(k int) (s string) {
			for _, c := range d[k].Consts {
				s += c.Names[0] + ","
			}
			return s
		}, func(k, i int) { d[k].AddConst(gopoet.NewConst(id(i))) }, func() { l[0] = nil; _ = append(l, nil) })
	case 1:
		l := make([]*gopoet.VarSpec, n, n+room)
		for i := range l {
			l[i] = gopoet.NewVar(id(i))
		}
		d := [2]*gopoet.VarDecl{gopoet.NewVarDecl(l...), gopoet.NewVarDecl(l...)}
		texts(func(k int) (s string) {
			for _, c := range d[k].Vars {
				s += c.Names[0] + ","
			}
			return s
		}, func(k, i int) { d[k].AddVar(gopoet.NewVar(id(i))) }, func() { l[0] = nil; _ = append(l, nil) })
	case 2:
		l := make([]*gopoet.TypeSpec, n, n+room)
		for i := range l {
			l[i] = gopoet.NewTypeSpec(id(i), gopoet.IntType)
		}
		d := [2]*gopoet.TypeDecl{gopoet.NewTypeDecl(l...), gopoet.NewTypeDecl(l...)}
		texts(func(k int) (s string) {
			for _, c := range d[k].Types {
				s += c.Name + ","
			}
			return s
		}, func(k, i int) { d[k].AddType(gopoet.NewTypeSpec(id(i), gopoet.IntType)) }, func() { l[0] = nil; _ = append(l, nil) })
	case 3:
		l := make([]string, n, n+room)
		for i := range l {
			l[i] = id(i)
		}
		c, v := gopoet.NewConst(l...), gopoet.NewVar(l...)
		texts(func(k int) (s string) {
			for _, x := range [][]string{c.Names, v.Names}[k] {
				s += x + ","
			}
			return s
		}, nil, func() { l[0] = ""; _ = append(l, "") })
	case 4: // through the rendered source
		l := make([]*gopoet.FieldSpec, n, n+room)
		for i := range l {
			l[i] = gopoet.NewField(id(i), gopoet.IntType)
		}
		f := gopoet.NewGoFile("x.go", "o", "o").AddType(gopoet.NewStructTypeSpec("A", l...))
		one := rendered(f)
		l[0] = gopoet.NewField("X", gopoet.IntType)
		_ = append(l, nil)
		vAssert(rendered(f) == one, "a struct changes with the list of fields it was built from")
	case 5:
		l := make([]gopoet.InterfaceElement, n, n+room)
		for i := range l {
			l[i] = gopoet.NewInterfaceMethod(id(i))
		}
		f := gopoet.NewGoFile("x.go", "o", "o").AddType(gopoet.NewInterfaceTypeSpec("A", l...))
		one := rendered(f)
		l[0] = gopoet.NewInterfaceEmbed(sym(5))
		_ = append(l, nil)
		vAssert(rendered(f) == one, "an interface changes with the list of elements it was built from")
	case 6:
		l := make([]gopoet.FieldType, n, n+room)
		for i := range l {
			l[i] = gopoet.FieldType{Name: id(i), Type: gopoet.IntType}
		}
		t := [2]gopoet.TypeName{gopoet.StructType(l...), gopoet.StructType(l...)}
		texts(func(k int) (s string) {
			for _, x := range t[k].Fields() {
				s += x.Name + ","
			}
			return s
		}, nil, func() { l[0] = gopoet.FieldType{}; _ = append(l, gopoet.FieldType{}) })
	case 7:
		l := make([]gopoet.Symbol, n, n+room)
		for i := range l {
			l[i] = sym(i)
		}
		t := [2]gopoet.TypeName{gopoet.InterfaceType(l), gopoet.InterfaceType(l)}
		texts(func(k int) (s string) {
			for _, x := range t[k].Embeds() {
				s += x.Name + ","
			}
			return s
		}, nil, func() { l[0] = gopoet.Symbol{}; _ = append(l, sym(5)) })
	case 8:
		l := make([]gopoet.MethodType, n, n+room)
		for i := range l {
			l[i] = gopoet.MethodType{Name: id(i)}
			l[i].Signature.AddArg(id(i), gopoet.IntType)
		}
		t := [2]gopoet.TypeName{gopoet.InterfaceType(nil, l...), gopoet.InterfaceType(nil, l...)}
		texts(func(k int) (s string) {
			for _, x := range t[k].Methods() {
				vAssert(x.Name == x.Signature.Args[0].Name, "a method changes with the list it was built from")
				s += x.Name + ","
			}
			return s
		}, nil, func() {
			l[0].Signature.Args[0].Name = "x"
			t[0].Methods()[n-1].Signature.Args[0].Name = "y"
			l[0] = gopoet.MethodType{}
			_ = append(l, l[0])
		})
	case 9: // by its signature
		var s gopoet.Signature
		s.Args, s.Results = make([]gopoet.ArgType, n, n+room), make([]gopoet.ArgType, n, n+room)
		for i := range s.Args {
			s.Args[i] = gopoet.ArgType{Name: id(i), Type: gopoet.SliceType(gopoet.IntType)}
			s.Results[i] = s.Args[i]
		}
		t := [2]gopoet.TypeName{gopoet.FuncTypeFromSig(&s)}
		switch vChoose(3) {
		case 0:
			t[1] = gopoet.FuncTypeFromSig(&s)
		case 1:
			t[1] = gopoet.FuncType(s.Args, s.Results)
		case 2:
			t[1] = gopoet.FuncTypeVariadic(s.Args, s.Results)
		}
		texts(func(k int) (r string) {
			sig := t[k].Signature()
			vAssert(len(sig.Args) == len(sig.Results), "a function type changes with its signature")
			for i, x := range sig.Args {
				vAssert(sig.Results[i] == x, "a function type changes with its signature")
				r += x.Name + ","
			}
			return r
		}, nil, func() {
			s.Args[0].Name = "x"
			s.Results[n-1].Name = "z"
			s.AddArg("y", gopoet.IntType)
			s.AddArg("y", gopoet.IntType)
			s.AddResult("", gopoet.IntType)
			t[0].Signature().AddArg("y", gopoet.IntType).Args[0].Name = "z"
			t[1].Signature().AddResult("y", gopoet.IntType)
		})
	case 10: // types of functions and methods
		fn, im := gopoet.NewFunc("F"), gopoet.NewInterfaceMethod("M")
		for i := 0; i < n; i++ {
			fn.AddArg(id(i), gopoet.IntType)
			im.AddArg(id(i), gopoet.IntType)
		}
		ts := gopoet.NewInterfaceTypeSpec("I", im)
		gopoet.NewGoFile("x.go", "o", "o").AddType(ts)
		t := [2]gopoet.TypeName{fn.ToTypeName(), im.ToTypeName()}
		texts(func(k int) (r string) {
			for _, x := range t[k].Signature().Args[k:] { // the method's receiver comes first
				r += x.Name + ","
			}
			return r
		}, nil, func() {
			fn.AddArg("x", gopoet.IntType).AddResult("", gopoet.IntType)
			im.AddArg("x", gopoet.IntType).AddResult("", gopoet.IntType)
			fn.Args[0].Name = "y"
			im.Args[0].Name = "y"
		})
		vAssert(len(t[0].Signature().Results) == 0 && len(t[1].Signature().Results) == 0, "the type of a function changes with it")
		t[0].Signature().AddArg("z", gopoet.IntType)
		vAssert(len(fn.Args) == n+1, "a function changes with the type derived from it")
	case 11: // arguments and code
		l := make([]interface{}, n, n+room)
		format := ""
		for i := range l {
			l[i] = sym(i)
			format += "%v,"
		}
		a := &gopoet.CodeBlock{}
		a.Printf(format, l...)
		b := (&gopoet.CodeBlock{}).AddCode(a)
		blocks := [2]*gopoet.CodeBlock{a, b}
		pre := func(f *gopoet.GoFile) { f.RegisterImport("a", "a") }
		texts(func(k int) string {
			s, _ := c12Raw(blocks[k], pre)
			r := ""
			for i := 0; i < len(s); i++ {
				if s[i] == 'a' {
					i += 2
				}
				r += s[i : i+1]
			}
			return r
		}, func(k, i int) { blocks[k].Printf("%v,", sym(i)) }, func() { l[0] = 5; _ = append(l, 6) })
	}
	vCover("done")
}

// H_C23_derived builds types and declarations from one another.
// bound: a type or function declared from another type, signature or unnamed spec of 5 kinds, which is then added to; each read before and after
// covers: done
func H_C23_derived() {
	t := gopoet.NamedType(gopoet.NewSymbol("a", "T"))
	k := vChoose(5)
	f := gopoet.NewGoFile("x.go", "o", "o")
	var change func()
	switch k {
	case 0:
		fn := gopoet.NewFunc("F").AddArg("a", t)
		f.AddVar(gopoet.NewVar("V").SetType(fn.ToTypeName()))
		change = func() { fn.AddArg("b", t).SetVariadic(true); fn.Args[0] = gopoet.ArgType{Type: gopoet.IntType} }
	case 1:
		s := (&gopoet.Signature{}).AddArg("a", t).AddResult("", t)
		ft := gopoet.FuncTypeFromSig(s)
		f.AddType(gopoet.NewTypeSpec("T", ft))
		change = func() { s.AddArg("b", t).AddResult("", t).SetVariadic(true); s.Results[0].Name = "r" }
	case 2:
		in := gopoet.NewStructTypeSpec("", gopoet.NewField("F", t))
		f.AddType(gopoet.NewTypeSpec("T", in)).AddVar(gopoet.NewVar("V").SetType(in.ToTypeName()))
		change = func() {
			in.Name = "X"
			in.SetComment("c")
			g := gopoet.NewGoFile("y.go", "p", "p").AddType(in)
			rendered(g)
		}
	case 3:
		st := gopoet.StructType(gopoet.FieldType{Name: "F", Type: t, Tag: "x"})
		f.AddType(gopoet.NewTypeSpec("T", st)).AddType(gopoet.NewTypeSpec("U", st))
		change = func() {
			fs := st.Fields()
			fs[0] = gopoet.FieldType{Name: "G", Type: gopoet.IntType}
			g := gopoet.NewGoFile("y.go", "p", "p").AddType(gopoet.NewTypeSpec("T", st).SetComment("c"))
			rendered(g)
		}
	case 4:
		m := gopoet.MethodType{Name: "M"}
		m.Signature.AddArg("a", t)
		it := gopoet.InterfaceType([]gopoet.Symbol{t.Symbol()}, m)
		f.AddType(gopoet.NewTypeSpec("T", it)).AddType(gopoet.NewTypeSpec("U", it))
		change = func() {
			m.Signature.AddArg("b", t)
			m.Signature.Args[0].Name = "c"
			it.Methods()[0].Signature.Args[0].Name = "d"
			it.Embeds()[0].Name = "e"
		}
	}
	one := rendered(f)
	change()
	vObserve("source", one)
	vAssert(rendered(f) == one, "what was built from something changes with it")
	vCover("done")
}

// c23All is everything that can be asked of the file and its elements.
func c23All(f *gopoet.GoFile, what ...interface{}) string {
	s := ""
	for i := 0; i < f.NumElements(); i++ {
		switch e := f.ElementAt(i).(type) {
		case *gopoet.FuncSpec:
			what = append(what, e)
		case *gopoet.TypeDecl:
			for _, t := range e.Types {
				what = append(what, t)
			}
		case *gopoet.ConstDecl:
			for _, c := range e.Consts {
				what = append(what, c)
			}
		case *gopoet.VarDecl:
			for _, v := range e.Vars {
				what = append(what, v)
			}
		}
	}
	for _, w := range what {
		switch w := w.(type) {
		case *gopoet.FuncSpec:
			s += w.String() + w.ToTypeName().String() + strconv.Itoa(len(w.ToTypeName().Signature().Args))
			switch r := w.ToSymbol().(type) {
			case gopoet.Symbol:
				s += r.String()
			case gopoet.MethodReference:
				s += r.String()
			}
		case *gopoet.InterfaceMethod:
			s += w.String() + w.ToTypeName().String() + w.ToMethodRef().String()
		case *gopoet.TypeSpec:
			s += w.String() + w.Underlying().String()
			if w.Name != "" {
				s += w.ToSymbol().String() + w.ToTypeName().String()
			}
		case *gopoet.ConstSpec:
			s += w.String()
			for i := range w.Names {
				s += w.SymbolAt(i).String()
			}
		case *gopoet.VarSpec:
			s += w.String()
			for i := range w.Names {
				s += w.SymbolAt(i).String()
			}
		}
		s += ";"
	}
	return s + f.Package().String()
}

// H_C23_reads asks for everything in between the steps of building.
// bound: all sequences of 3 (4 in the thorough tier) of 6..7 changes to a function, method, method of an interface, struct type, const, var or file, with and without everything asked for and rendered before each
// covers: done
func H_C23_reads() {
	t := gopoet.NamedType(gopoet.NewSymbol("a", "T"))
	k := vChoose(7)
	var steps [4]int
	n := 3 + vTier()
	for i := 0; i < n; i++ {
		steps[i] = vChoose(6)
	}
	build := func(look bool) (string, string) {
		f := gopoet.NewGoFile("x.go", "o", "o")
		f.RegisterImport("a", "al")
		var what []interface{}
		var do func(step int, id string)
		switch k {
		case 0, 1:
			fn := gopoet.NewFunc("F")
			if k == 1 {
				fn = gopoet.NewMethod(gopoet.NewReceiver("r", "R"), "F")
			}
			f.AddElement(fn)
			do = func(step int, id string) {
				switch step {
				case 0:
					fn.AddArg("a"+id, t)
				case 1:
					fn.AddResult("", t)
				case 2:
					fn.AddArg("b"+id, gopoet.SliceType(t)).SetVariadic(true)
				case 3:
					fn.Name += id
				case 4:
					if k == 1 {
						fn.Receiver = gopoet.NewPointerReceiver("q", "Q"+id)
					} else {
						fn.SetComment("c" + id)
					}
				case 5:
					fn.Printlnf("%s()", gopoet.NewSymbol("a", "f"+id))
				}
			}
		case 2:
			m := gopoet.NewInterfaceMethod("M")
			it := gopoet.NewInterfaceTypeSpec("I", m)
			f.AddType(it)
			what = append(what, m)
			do = func(step int, id string) {
				switch step {
				case 0:
					m.AddArg("a"+id, t)
				case 1:
					m.AddResult("", t)
				case 2:
					m.AddArg("b"+id, gopoet.SliceType(t)).SetVariadic(true)
				case 3:
					m.Name += id
				case 4:
					it.Name += id
				case 5:
					it.SetComment("c" + id)
					m.SetComment("d" + id)
				}
			}
		case 3:
			fs := gopoet.NewField("F", t)
			st := gopoet.NewStructTypeSpec("S", fs)
			f.AddType(st).AddVar(gopoet.NewVar("V").SetType(st))
			do = func(step int, id string) {
				switch step {
				case 0:
					fs.SetTag("t" + id)
				case 1:
					fs.Name += id
				case 2:
					fs.Type = gopoet.SliceType(t)
				case 3:
					st.Name += id
				case 4:
					st.SetComment("c" + id)
				case 5:
					fs.SetComment("d" + id)
				}
			}
		case 4, 5:
			c := gopoet.NewConst("C").Initialize("0")
			v := gopoet.NewVar("C").Initialize("0")
			if k == 4 {
				f.AddConst(c)
			} else {
				f.AddVar(v)
			}
			do = func(step int, id string) {
				switch step {
				case 0:
					c.Names, v.Names = append(c.Names, "N"+id), append(v.Names, "N"+id)
				case 1:
					c.SetType(t)
					v.SetType(t)
				case 2:
					c.Initialize("%s(%s)", t, id)
					v.Initialize("%s(%s)", t, id)
				case 3:
					c.Names[0], v.Names[0] = "O"+id, "O"+id
				case 4:
					c.SetComment("c" + id)
					v.SetComment("c" + id)
				case 5:
					c.SetInitializer(gopoet.Print(id))
					v.SetInitializer(gopoet.Print(id))
				}
			}
		case 6:
			td := gopoet.NewTypeDecl()
			f.AddElement(td)
			do = func(step int, id string) {
				switch step {
				case 0:
					ts := gopoet.NewTypeSpec("T"+id, t)
					f.AddType(ts)
					what = append(what, ts)
				case 1:
					f.AddConst(gopoet.NewConst("C"+id).Initialize("%s", t))
				case 2:
					f.AddElement(gopoet.NewFunc("F"+id).AddArg("a", t))
				case 3:
					f.PackageName = "n" + id
				case 4:
					f.FileComment = "c" + id
				case 5:
					td.SetComment("d" + id)
				}
			}
		}
		for i := 0; i < n; i++ {
			// an argument behind a variadic one is none
			vAssume(k > 2 || i == 0 || steps[i-1] != 2 || steps[i] != 0)
			vAssume(k > 2 || i < 2 || steps[i-2] != 2 || steps[i] != 0)
			vAssume(k > 2 || i < 3 || steps[i-3] != 2 || steps[i] != 0)
			if look {
				c23All(f, what...)
				c16Out(f)
			}
			do(steps[i], strconv.Itoa(i))
		}
		return c23All(f, what...), c16Out(f)
	}
	m1, s1 := build(false)
	m2, s2 := build(true)
	vObserve("model", m1)
	vObserve("source", s1)
	vAssert(m1 == m2, "what a model says depends on what was asked before")
	vAssert(s1 == s2, "what a model renders to depends on what was asked before")
	vCover("done")
}

// H_C23_blocks builds blocks of code from one another, each of which is added to.
// bound: two blocks of 0..4 pieces; one of them made of or added to the other or both to a third, in 4 ways; all sequences of 4 additions to any of the three
// covers: done
func H_C23_blocks() {
	var cb [3]*gopoet.CodeBlock
	var want [3]string
	n := 0
	add := func(i int) {
		t := "<" + strconv.Itoa(n) + ">"
		n++
		if n%2 == 0 {
			cb[i].Print(t)
		} else {
			cb[i].Printf("%s", t)
		}
		want[i] += t
	}
	for i := range cb {
		cb[i] = &gopoet.CodeBlock{}
	}
	for i := 0; i < 2; i++ {
		for k := vChoose(5); k > 0; k-- {
			add(i)
		}
	}
	switch vChoose(4) {
	case 0:
		cb[2].AddCode(cb[0])
		want[2] = want[0]
	case 1:
		cb[2].AddCode(cb[0]).AddCode(cb[1])
		want[2] = want[0] + want[1]
	case 2:
		fn := gopoet.NewFunc("F").AddCode(cb[0]).AddCode(cb[1])
		cb[2] = &fn.CodeBlock
		want[2] = want[0] + want[1]
	case 3:
		cb[1].AddCode(cb[0])
		want[1] += want[0]
	}
	for s := 0; s < 4; s++ {
		add(vChoose(3))
	}
	for i := range cb {
		got, _ := c12Raw(cb[i], nil)
		vObserve("text", got)
		vAssert(got == want[i], "a block does not hold what was added to it")
	}
	vCover("done")
}

var _ = reflect.TypeOf
