package main

import (
	"github.com/jhump/gopoet"
)

// c18Pkg is any package.
func c18Pkg() gopoet.Package {
	p := gopoet.Package{ImportPath: vIdent(lower, lower+"/", 3), Name: vIdentUpTo(lower, idRest, 2)}
	return p
}

func c18File(p gopoet.Package) *gopoet.GoFile {
	return gopoet.NewGoFile("x.go", p.ImportPath, p.Name)
}

func c18Name() string { return vIdentUpTo(lower+upper+"_", idRest, 2) }

// c18Elem is a declared element, seen through what it says about itself.
type c18Elem struct {
	names []string
	at    func(i int) gopoet.Symbol
	sym   func() gopoet.SymbolOrMethodRef
	str   func() string
	add   func(f *gopoet.GoFile)
}

// c18Var makes a const or var with some names.
func c18Value(isVar bool, names []string, how int) c18Elem {
	if isVar {
		v := gopoet.NewVar(names...)
		v.Initialize("1").SetComment("c")
		return c18Elem{names, v.SymbolAt, func() gopoet.SymbolOrMethodRef { return v.ToSymbol() }, v.String, func(f *gopoet.GoFile) {
			switch how {
			case 0:
				f.AddVar(v)
			case 1:
				f.AddElement(gopoet.NewVarDecl(v))
			case 2:
				f.AddElement(gopoet.NewVarDecl(gopoet.NewVar("other")).AddVar(v))
			case 3:
				f.AddElement(gopoet.NewVarDecl(v, gopoet.NewVar("other")))
			}
		}}
	}
	c := gopoet.NewConst(names...)
	c.Initialize("1").SetComment("c")
	return c18Elem{names, c.SymbolAt, func() gopoet.SymbolOrMethodRef { return c.ToSymbol() }, c.String, func(f *gopoet.GoFile) {
		switch how {
		case 0:
			f.AddConst(c)
		case 1:
			f.AddElement(gopoet.NewConstDecl(c))
		case 2:
			f.AddElement(gopoet.NewConstDecl(gopoet.NewConst("other")).AddConst(c))
		case 3:
			f.AddElement(gopoet.NewConstDecl(c, gopoet.NewConst("other")))
		}
	}}
}

// H_C18_values looks at consts and vars of 0..3 names, before and after they are added to a file.
// bound: const or var with 0..3 names of 1..2 arbitrary identifier bytes, never added or added alone, in a declaration of its own, first or last in a group; package path of 3 arbitrary path bytes, package name of 1..2 identifier bytes; the file's package renamed afterwards
// covers: never added none one several renamed
func H_C18_values() {
	var names []string
	for n := vChoose(4); len(names) < n; {
		names = append(names, c18Name())
	}
	e := c18Value(vChoose(2) == 1, names, vChoose(4))
	p := c18Pkg()
	f := c18File(p)
	for step := 0; step < 2; step++ {
		added := step == 1
		var want string
		for i, n := range names {
			var got gopoet.Symbol
			refused := panics(func() { got = e.at(i) })
			vAssert(refused == !added, "a const or var refers to itself exactly when added to a file")
			text := n
			if added {
				vAssert(got == (gopoet.Symbol{Name: n, Package: p}), "the symbol of a const or var names another element")
				text = p.Name + "." + n
				vAssert(got.String() == text, "the text of a symbol is not package and name")
			}
			if i > 0 {
				want += ", "
			}
			want += text
		}
		var one gopoet.SymbolOrMethodRef
		refused := panics(func() { one = e.sym() })
		vAssert(refused == !(added && len(names) == 1), "the symbol is given exactly for one name and when added to a file")
		if !refused {
			vAssert(one == gopoet.SymbolOrMethodRef(gopoet.Symbol{Name: names[0], Package: p}), "the symbol of a const or var names another element")
		}
		var s string
		vAssert(!panics(func() { s = e.str() }), "the text form panics")
		vAssert(s == want, "the text form is not the list of names")
		if !added {
			vCover("never")
			e.add(f)
			continue
		}
		vCover("added")
		switch len(names) {
		case 0:
			vCover("none")
		case 1:
			vCover("one")
		default:
			vCover("several")
		}
	}
	if len(names) == 1 {
		f.PackageName = vIdent(lower, "", 1)
		vAssert(e.at(0).Package == (gopoet.Package{ImportPath: p.ImportPath, Name: f.PackageName}), "a const or var names another package than its file's")
		vCover("renamed")
	}
}

func c18SameType(got, want gopoet.TypeName, msg string) {
	vAssert(dump(got) == dump(want), msg)
}

// H_C18_types looks at declared types, before and after they are added to a file.
// bound: a defined type, alias, struct or interface, or a type declared from an unnamed or from another declared spec; underlying types nested 1 deep (2 thorough) along one spine; names and packages as for values; added alone, in its own declaration, or in a group
// covers: never added alias unnamed struct interface fromspec
func H_C18_types() {
	g := &tgen{sym: func() gopoet.Symbol {
		return gopoet.Symbol{Name: "T", Package: gopoet.Package{ImportPath: "a", Name: "p"}}
	}, kinds: "bnpsamcfti"}
	p := c18Pkg()
	f := c18File(p)
	name := ""
	if vChoose(4) > 0 {
		name = c18Name()
	}
	var ts *gopoet.TypeSpec
	var under gopoet.TypeName
	alias := false
	switch vChoose(6) {
	case 0:
		under = g.typ(1 + vTier())
		ts = gopoet.NewTypeSpec(name, under)
	case 1:
		under = g.typ(1 + vTier())
		ts = gopoet.NewTypeAlias(name, under)
		alias = true
		vCover("alias")
	case 2:
		ft := g.typ(1 + vTier())
		var fld gopoet.TypeNameOrSpec = ft
		if vChoose(2) == 1 {
			fld = gopoet.NewTypeSpec("", ft)
		}
		ts = gopoet.NewStructTypeSpec(name, gopoet.NewField("F", fld).SetTag("k"), gopoet.NewField("", g.leaf()))
		under = gopoet.StructType(gopoet.FieldType{Name: "F", Type: ft, Tag: "k"}, gopoet.FieldType{Type: g.leaf()})
		vCover("struct")
	case 3:
		s := g.sig(1 + vTier())
		m := gopoet.NewInterfaceMethod("M")
		m.Signature = s
		ts = gopoet.NewInterfaceTypeSpec(name, gopoet.NewInterfaceEmbed(g.sym()), m)
		under = gopoet.InterfaceType([]gopoet.Symbol{g.sym()}, gopoet.MethodType{Name: "M", Signature: s})
		vCover("interface")
	case 4:
		under = g.typ(1)
		ts = gopoet.NewTypeSpec(name, gopoet.NewTypeSpec("", under))
		vCover("fromspec")
	case 5:
		o := gopoet.NewTypeSpec("O", g.typ(1))
		gopoet.NewGoFile("y.go", "b", "q").AddType(o)
		under = gopoet.NamedType(gopoet.Symbol{Name: "O", Package: gopoet.Package{ImportPath: "b", Name: "q"}})
		ts = gopoet.NewTypeSpec(name, o)
		vCover("fromspec")
	}
	vAssert(ts.IsAlias() == alias, "a type says wrongly whether it is an alias")
	for step := 0; step < 2; step++ {
		added := step == 1
		c18SameType(ts.Underlying(), under, "the underlying type is another one")
		var sym gopoet.Symbol
		var tn gopoet.TypeName
		refusedSym := panics(func() { sym = ts.ToSymbol() })
		refusedTyp := panics(func() { tn = ts.ToTypeName() })
		s := ts.String()
		vAssert(refusedSym == !(added && name != ""), "a type's symbol is given exactly when named and added to a file")
		vAssert(refusedTyp == !(added || name == ""), "a type's type name is given exactly when unnamed or added to a file")
		want := gopoet.Symbol{Name: name, Package: p}
		if !refusedSym {
			vAssert(sym == want, "the symbol of a type names another element")
		}
		if name == "" {
			vCover("unnamed")
			c18SameType(tn, under, "an unnamed type is not its underlying type")
			vAssert(s == under.String(), "the text of an unnamed type is not that of its underlying type")
			return
		}
		if !refusedTyp {
			vAssert(tn.Kind() == gopoet.KindNamed, "a declared type is not a named type")
			vAssert(tn.Symbol() == want, "the type name of a type names another element")
			vAssert(tn.String() == p.Name+"."+name, "the text of a type name is not package and name")
		}
		if added {
			vCover("added")
			vAssert(s == p.Name+"."+name, "the text of a declared type is not package and name")
			break
		}
		vCover("never")
		vAssert(s == name, "the text of a type of no file is not its name")
		switch vChoose(3) {
		case 0:
			f.AddType(ts)
		case 1:
			f.AddElement(gopoet.NewTypeDecl(ts))
		case 2:
			f.AddElement(gopoet.NewTypeDecl(gopoet.NewTypeSpec("other", gopoet.IntType), ts).AddType(gopoet.NewTypeSpec("more", gopoet.IntType)))
		}
	}
}

// H_C18_moved looks at elements that are added to another file after one.
// bound: a const, var, defined type, alias, struct, interface with a method, function or method, added alone or in a declaration to files of two packages, one after the other, or to one, then the other, then the first again
// covers: done
func H_C18_moved() {
	files := []*gopoet.GoFile{gopoet.NewGoFile("x.go", "a/p", "p"), gopoet.NewGoFile("y.go", "b/q", "q")}
	m := gopoet.NewInterfaceMethod("M")
	var one gopoet.FileElement
	var add func(f *gopoet.GoFile)
	var sym func() string
	k := vChoose(8)
	switch k {
	case 0:
		c := gopoet.NewConst("E").Initialize("1")
		one, sym = gopoet.NewConstDecl(c, gopoet.NewConst("F")), func() string { return dumpSym(c.ToSymbol()) + c.String() }
		add = func(f *gopoet.GoFile) { f.AddConst(c) }
	case 1:
		v := gopoet.NewVar("E").Initialize("1")
		one, sym = gopoet.NewVarDecl(gopoet.NewVar("F"), v), func() string { return dumpSym(v.SymbolAt(0)) + v.String() }
		add = func(f *gopoet.GoFile) { f.AddVar(v) }
	case 6, 7:
		fn := gopoet.NewFunc("E")
		if k == 7 {
			fn = gopoet.NewMethod(gopoet.NewPointerReceiver("r", "E"), "N")
		}
		one = fn
		add = func(f *gopoet.GoFile) { f.AddElement(fn) }
		sym = func() string {
			if r, ok := fn.ToSymbol().(gopoet.MethodReference); ok {
				vAssert(k == 7 && r.Method == "N", "another method")
				vAssert(fn.ToTypeName().Signature().Args[0].Type.Elem().Symbol() == r.Type, "the receiver is of another type")
				return dumpSym(r.Type) + r.Type.String()
			}
			return dumpSym(fn.ToSymbol().(gopoet.Symbol)) + fn.String()
		}
	default:
		t := gopoet.NewTypeSpec("E", gopoet.IntType)
		switch k {
		case 3:
			t = gopoet.NewTypeAlias("E", gopoet.IntType)
		case 4:
			t = gopoet.NewStructTypeSpec("E")
		case 5:
			t = gopoet.NewInterfaceTypeSpec("E", m)
		}
		one = gopoet.NewTypeDecl(gopoet.NewTypeSpec("F", gopoet.IntType), t)
		add = func(f *gopoet.GoFile) { f.AddType(t) }
		sym = func() string {
			if k == 5 {
				vAssert(m.ToMethodRef().Type == t.ToSymbol(), "the method of an interface is that of another")
				vAssert(m.ToTypeName().Signature().Args[0].Type.Symbol() == t.ToSymbol(), "the method of an interface is that of another")
			}
			return dumpSym(t.ToTypeName().Symbol()) + t.String()
		}
	}
	for i := 0; i < 2+vChoose(2); i++ {
		f := files[i%2]
		if vChoose(2) == 0 {
			add(f)
		} else {
			f.AddElement(one)
		}
		p := f.Package()
		s := sym()
		vObserve("sym", s)
		vAssert(s == dumpSym(gopoet.Symbol{Name: "E", Package: p})+p.Name+".E", "an element names another file's package than that it was added to")
	}
	vCover("done")
}

// c18Sig is any signature, and the types of the receiver argument and the rest.
func c18MethodType(got gopoet.TypeName, name string, rcvr gopoet.TypeName, sig gopoet.Signature) {
	vAssert(got.Kind() == gopoet.KindFunc, "the type of a method is not a function type")
	s := got.Signature()
	n := 0
	if rcvr != nil {
		n = 1
		vAssert(len(s.Args) > 0, "the type of a method has no receiver argument")
		c18SameType(s.Args[0].Type, rcvr, "the receiver is not reproduced in the type of a method")
		vAssert(s.Args[0].Name == name, "the receiver's name is not reproduced in the type of a method")
	}
	vAssert(len(s.Args) == len(sig.Args)+n, "the type of a function has more or fewer arguments")
	vAssert(len(s.Results) == len(sig.Results), "the type of a function has more or fewer results")
	for i, a := range sig.Args {
		vAssert(s.Args[i+n].Name == a.Name, "the type of a function has arguments of other names")
		c18SameType(s.Args[i+n].Type, a.Type, "the type of a function has arguments of other types")
	}
	for i, a := range sig.Results {
		vAssert(s.Results[i].Name == a.Name, "the type of a function has results of other names")
		c18SameType(s.Results[i].Type, a.Type, "the type of a function has results of other types")
	}
	vAssert(s.IsVariadic == sig.IsVariadic, "the type of a function loses or gains its variadic mark")
}

// c18More is the signature with 0..3 arguments put before its own.
func c18More(s gopoet.Signature) gopoet.Signature {
	var as []gopoet.ArgType
	for i := vChoose(4); i > 0; i-- {
		as = append(as, gopoet.ArgType{Name: []string{"", "x", "y", "z"}[i], Type: []gopoet.TypeName{nil, gopoet.IntType, gopoet.StringType, gopoet.BoolType}[i]})
	}
	s.Args = append(as, s.Args...)
	return s
}

// H_C18_funcs looks at functions and methods, before and after they are added to a file.
// bound: a function or a method with a value or pointer receiver, the receiver made from a name, a type or a type spec and named or not; any signature of tgen nested 1 deep (2 thorough) with 0..3 arguments before; names of 1..2 and packages of arbitrary bytes
// covers: func method pointer never added variadic
func H_C18_funcs() {
	g := &tgen{sym: func() gopoet.Symbol {
		return gopoet.Symbol{Name: "T", Package: gopoet.Package{ImportPath: "a", Name: "p"}}
	}, kinds: "bnpsamcfti"}
	p := c18Pkg()
	f := c18File(p)
	name := c18Name()
	sig := c18More(g.sig(1 + vTier()))
	if sig.IsVariadic {
		vCover("variadic")
	}
	var fn *gopoet.FuncSpec
	var rname string
	var rcvr gopoet.TypeName
	var rsym gopoet.Symbol
	isMethod := vChoose(2) == 1
	ptr := false
	if isMethod {
		if vChoose(2) == 1 {
			rname = vIdent(lower, "", 1)
		}
		tname := c18Name()
		rsym = gopoet.Symbol{Name: tname, Package: p}
		rcvr = gopoet.NamedType(rsym)
		ptr = vChoose(2) == 1
		var r *gopoet.ReceiverSpec
		switch vChoose(3) {
		case 0:
			if ptr {
				r = gopoet.NewPointerReceiver(rname, tname)
			} else {
				r = gopoet.NewReceiver(rname, tname)
			}
		case 1:
			var from gopoet.TypeName = rcvr
			if ptr && vChoose(2) == 1 {
				r = gopoet.NewReceiverForType(rname, gopoet.PointerType(from))
			} else if ptr {
				r = gopoet.NewPointerReceiverForType(rname, from)
			} else {
				r = gopoet.NewReceiverForType(rname, from)
			}
		case 2:
			ts := gopoet.NewTypeSpec(tname, gopoet.IntType)
			if ptr {
				r = gopoet.NewPointerReceiverForType(rname, ts)
			} else {
				r = gopoet.NewReceiverForType(rname, ts)
			}
		}
		if ptr {
			rcvr = gopoet.PointerType(rcvr)
			vCover("pointer")
		}
		fn = gopoet.NewMethod(r, name)
		vCover("method")
	} else {
		fn = gopoet.NewFunc(name)
		vCover("func")
	}
	fn.Println("panic(0)").SetComment("c")
	for _, a := range sig.Args {
		fn.AddArg(a.Name, a.Type)
	}
	for _, a := range sig.Results {
		fn.AddResult(a.Name, a.Type)
	}
	fn.SetVariadic(sig.IsVariadic)
	for step := 0; step < 2; step++ {
		added := step == 1
		var sym gopoet.SymbolOrMethodRef
		var tn gopoet.TypeName
		refusedSym := panics(func() { sym = fn.ToSymbol() })
		refusedTyp := panics(func() { tn = fn.ToTypeName() })
		s := fn.String()
		vAssert(refusedSym == !added, "a function's symbol is given exactly when added to a file")
		vAssert(refusedTyp == (isMethod && !added), "a function's type is given exactly when no method or added to a file")
		if !refusedSym {
			if isMethod {
				ref := gopoet.MethodReference{Type: rsym, Method: name}
				vAssert(sym == gopoet.SymbolOrMethodRef(ref), "the reference of a method names another element")
				vAssert(ref.String() == p.Name+"."+rsym.Name+"."+name, "the text of a method reference is not that of a method expression")
			} else {
				vAssert(sym == gopoet.SymbolOrMethodRef(gopoet.Symbol{Name: name, Package: p}), "the symbol of a function names another element")
			}
		}
		if !refusedTyp {
			c18MethodType(tn, rname, rcvr, sig)
			// and it is a type of its own
			c18MethodType(fn.ToTypeName(), rname, rcvr, sig)
		}
		vAssert(len(fn.Args) == len(sig.Args) && len(fn.Results) == len(sig.Results), "asking for the type changes the function")
		for i, a := range sig.Args {
			vAssert(fn.Args[i].Name == a.Name && dump(fn.Args[i].Type) == dump(a.Type), "asking for the type changes the function")
		}
		text := name
		if added && !isMethod {
			text = p.Name + "." + name
		}
		vAssert(s == text, "the text of a function is not its name, qualified for other than methods")
		if added {
			vCover("added")
		} else {
			vCover("never")
			f.AddElement(fn)
		}
	}
}

// H_C18_ifacemethods looks at the methods of declared interfaces.
// bound: a method of an interface that is none's, an unnamed one's, or a declared one's, never added or added to a file; any signature of tgen nested 1 deep (2 thorough) with 0..3 arguments before; one more method and an embed besides
// covers: none unnamed never added
func H_C18_ifacemethods() {
	g := &tgen{sym: func() gopoet.Symbol {
		return gopoet.Symbol{Name: "T", Package: gopoet.Package{ImportPath: "a", Name: "p"}}
	}, kinds: "bnpsamcfti"}
	p := c18Pkg()
	name, mname := c18Name(), c18Name()
	sig := c18More(g.sig(1 + vTier()))
	m := gopoet.NewInterfaceMethod(mname).SetComment("c")
	for _, a := range sig.Args {
		m.AddArg(a.Name, a.Type)
	}
	for _, a := range sig.Results {
		m.AddResult(a.Name, a.Type)
	}
	m.SetVariadic(sig.IsVariadic)
	state := vChoose(4)
	var ts *gopoet.TypeSpec
	els := []gopoet.InterfaceElement{gopoet.NewInterfaceEmbed(g.sym()), gopoet.NewInterfaceMethod("Other"), m}
	switch state {
	case 0:
		vCover("none")
	case 1:
		ts = gopoet.NewInterfaceTypeSpec("", els...)
		vCover("unnamed")
	case 2:
		ts = gopoet.NewInterfaceTypeSpec(name, els...)
		vCover("never")
	case 3:
		ts = gopoet.NewInterfaceTypeSpec(name, els...)
		c18File(p).AddType(ts)
		vCover("added")
	}
	var ref gopoet.MethodReference
	var tn gopoet.TypeName
	vAssert(panics(func() { ref = m.ToMethodRef() }) == (state != 3), "a method's reference is given exactly when its type is added to a file")
	vAssert(panics(func() { tn = m.ToTypeName() }) == (state != 1 && state != 3), "a method's type is given exactly when its type is known")
	vAssert(m.String() == mname, "the text of a method is not its name")
	if state == 3 {
		sym := gopoet.Symbol{Name: name, Package: p}
		vAssert(ref == gopoet.MethodReference{Type: sym, Method: mname}, "the reference of a method names another element")
		vAssert(ref.String() == p.Name+"."+name+"."+mname, "the text of a method reference is not that of a method expression")
		c18MethodType(tn, "", gopoet.NamedType(sym), sig)
	}
	if state == 1 {
		c18MethodType(tn, "", ts.Underlying(), sig)
	}
	vAssert(len(m.Args) == len(sig.Args) && len(m.Results) == len(sig.Results), "asking for the type changes the method")
	for i, a := range sig.Args {
		vAssert(m.Args[i].Name == a.Name && dump(m.Args[i].Type) == dump(a.Type), "asking for the type changes the method")
	}
}

// H_C18_receivers makes receivers from arbitrary types and type specs.
// bound: every type of tgen nested 2 deep (3 thorough; 1 where the package has no name), named types of 1..2 arbitrary bytes; path and name of their package given, the path only, or neither; named and unnamed specs; receiver name of 0..1 bytes
// covers: refused value pointer spec text
func H_C18_receivers() {
	name := c18Name()
	pkg := []gopoet.Package{{ImportPath: "a", Name: "p"}, {}, {ImportPath: "a"}}[vChoose(3)]
	g := &tgen{sym: func() gopoet.Symbol {
		return gopoet.Symbol{Name: name, Package: pkg}
	}, kinds: "bnpsamcfti"}
	rn := ""
	if vChoose(2) == 1 {
		rn = vIdent(lower, "", 1)
	}
	var r *gopoet.ReceiverSpec
	var refused, wantRefused, wantPtr bool
	want := name
	ptr := vChoose(2) == 1
	switch vChoose(3) {
	case 0: // from a type
		d := 1
		if pkg.Name != "" {
			d = 2 + vTier()
		}
		t := g.typ(d)
		named := t.Kind() == gopoet.KindNamed
		toNamed := t.Kind() == gopoet.KindPtr && t.Elem().Kind() == gopoet.KindNamed
		if ptr {
			wantRefused, wantPtr = !named, true
			refused = panics(func() { r = gopoet.NewPointerReceiverForType(rn, t) })
		} else {
			wantRefused, wantPtr = !named && !toNamed, toNamed
			refused = panics(func() { r = gopoet.NewReceiverForType(rn, t) })
		}
	case 1: // from a spec
		var ts *gopoet.TypeSpec
		n := name
		if vChoose(3) == 0 {
			n = ""
		}
		switch vChoose(3) {
		case 0:
			ts = gopoet.NewTypeSpec(n, g.typ(1))
		case 1:
			ts = gopoet.NewStructTypeSpec(n)
		case 2:
			ts = gopoet.NewTypeSpec(n, gopoet.IntType)
			c18File(gopoet.Package{ImportPath: "b", Name: "q"}).AddType(ts)
		}
		wantRefused, wantPtr = n == "", ptr
		if ptr {
			refused = panics(func() { r = gopoet.NewPointerReceiverForType(rn, ts) })
		} else {
			refused = panics(func() { r = gopoet.NewReceiverForType(rn, ts) })
		}
		vCover("spec")
	case 2: // from a name
		wantPtr = ptr
		if ptr {
			r = gopoet.NewPointerReceiver(rn, name)
		} else {
			r = gopoet.NewReceiver(rn, name)
		}
		vCover("text")
	}
	vAssert(refused == wantRefused, "a receiver is refused for other than unnamed types")
	if refused {
		vCover("refused")
		return
	}
	vAssert(r.Type == want, "a receiver names another type")
	vAssert(r.Name == rn, "a receiver has another name")
	vAssert(r.IsPointer == wantPtr, "a receiver is a pointer where it is to be a value, or the other way around")
	if wantPtr {
		vCover("pointer")
	} else {
		vCover("value")
	}
}
