package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"github.com/jhump/gopoet"
)

// ggen makes go/types types together with what they should become. Like tgen,
// every kind is tried at every depth of one spine.
type ggen struct {
	str   func() string // names
	kinds string
	wide  bool
	n     int
}

var goBasics = []struct {
	g types.BasicKind
	r reflect.Kind
}{
	{types.Bool, reflect.Bool}, {types.String, reflect.String}, {types.Int, reflect.Int}, {types.Int8, reflect.Int8}, {types.Int16, reflect.Int16}, {types.Int32, reflect.Int32}, {types.Int64, reflect.Int64},
	{types.Uint, reflect.Uint}, {types.Uint8, reflect.Uint8}, {types.Uint16, reflect.Uint16}, {types.Uint32, reflect.Uint32}, {types.Uint64, reflect.Uint64}, {types.Uintptr, reflect.Uintptr},
	{types.Float32, reflect.Float32}, {types.Float64, reflect.Float64}, {types.Complex64, reflect.Complex64}, {types.Complex128, reflect.Complex128},
}

// named is a named type of an arbitrary package, or a predeclared one.
func (g *ggen) named() (*types.Named, gopoet.Symbol) {
	g.n++
	if g.n%4 == 3 {
		return types.Universe.Lookup("error").Type().(*types.Named), gopoet.Symbol{Name: "error"}
	}
	path, pn, tn := vIdent(idRest, "", 1)+"/x", g.str(), g.str()
	pkg := types.NewPackage(path, pn)
	under := []types.Type{types.Typ[types.Int], types.NewStruct(nil, nil), types.NewInterfaceType(nil, nil).Complete(), types.NewPointer(types.Typ[types.Bool])}[g.n%4]
	return types.NewNamed(types.NewTypeName(token.NoPos, pkg, tn, nil), under, nil), gopoet.Symbol{Name: tn, Package: gopoet.Package{ImportPath: path, Name: pn}}
}

func (g *ggen) leaf() (types.Type, gopoet.TypeName) {
	t, s := g.named()
	return t, gopoet.NamedType(s)
}

func (g *ggen) typ(d int) (types.Type, gopoet.TypeName) {
	kinds := g.kinds
	if d == 0 {
		kinds = "bn"
	}
	switch kinds[vChoose(len(kinds))] {
	case 'b':
		b := goBasics[(d*7+3)%len(goBasics)]
		return types.Typ[b.g], gopoet.BasicType(b.r)
	case 'n':
		return g.leaf()
	case 'p':
		t, w := g.typ(d - 1)
		return types.NewPointer(t), gopoet.PointerType(w)
	case 's':
		t, w := g.typ(d - 1)
		return types.NewSlice(t), gopoet.SliceType(w)
	case 'a':
		t, w := g.typ(d - 1)
		return types.NewArray(t, int64(d*10)), gopoet.ArrayType(w, int64(d*10))
	case 'm':
		k, kw := g.leaf()
		t, w := g.typ(d - 1)
		if vChoose(2) == 0 {
			return types.NewMap(k, t), gopoet.MapType(kw, w)
		}
		return types.NewMap(t, k), gopoet.MapType(w, kw)
	case 'c':
		t, w := g.typ(d - 1)
		switch vChoose(3) {
		case 0:
			return types.NewChan(types.SendRecv, t), gopoet.ChannelType(w, reflect.BothDir)
		case 1:
			return types.NewChan(types.SendOnly, t), gopoet.ChannelType(w, reflect.SendDir)
		}
		return types.NewChan(types.RecvOnly, t), gopoet.ChannelType(w, reflect.RecvDir)
	case 'f':
		s, w := g.sig(d, nil)
		return s, gopoet.FuncTypeFromSig(&w)
	case 't':
		var fs []*types.Var
		var ws []gopoet.FieldType
		var tags []string
		add := func(t types.Type, w gopoet.TypeName, emb bool, tag string) {
			nm := g.str()
			fs = append(fs, types.NewField(token.NoPos, nil, nm+string(rune('a'+len(fs))), t, emb))
			f := gopoet.FieldType{Name: nm + string(rune('a'+len(ws))), Type: w, Tag: reflect.StructTag(tag)}
			if emb {
				f.Name = ""
			}
			ws = append(ws, f)
			tags = append(tags, tag)
		}
		k := vChoose(4)
		if k > 0 && g.wide {
			l, lw := g.leaf()
			add(l, lw, true, "")
		}
		switch k {
		case 1:
			t, w := g.typ(d - 1)
			add(t, w, false, g.str())
			if !g.wide && vChoose(2) == 0 {
				tags = nil // go/types allows to leave out the tags
				ws[0].Tag = ""
			}
		case 2:
			t, w := g.typ(d - 1)
			add(t, w, false, "")
			l, lw := g.leaf()
			add(l, lw, true, g.str())
		case 3:
			l, lw := g.leaf()
			add(types.NewPointer(l), gopoet.PointerType(lw), true, "")
			add(l, lw, false, "x")
		}
		return types.NewStruct(fs, tags), gopoet.StructType(ws...)
	default:
		k := vChoose(4)
		var es []types.Type
		var ew []gopoet.Symbol
		var ms []*types.Func
		var mw []gopoet.MethodType
		for i := 0; i < k&1 || (g.wide && i < 2*(k&1)); i++ {
			g.n = 4*g.n + 1 // an interface type
			e, w := g.named()
			es, ew = append(es, e), append(ew, w)
		}
		if k&2 != 0 {
			if g.wide {
				ms = append(ms, types.NewFunc(token.NoPos, nil, "A", types.NewSignature(nil, nil, nil, false)))
				mw = append(mw, gopoet.MethodType{Name: "A"})
			}
			n := "M"
			if !g.wide {
				n = g.str()
			}
			s, w := g.sig(d, nil)
			ms = append(ms, types.NewFunc(token.NoPos, nil, n, s))
			mw = append(mw, gopoet.MethodType{Name: n, Signature: w})
		}
		return types.NewInterfaceType(ms, es), gopoet.InterfaceType(ew, mw...)
	}
}

func (g *ggen) sig(d int, recv *types.Var) (*types.Signature, gopoet.Signature) {
	var w gopoet.Signature
	var ps, rs []*types.Var
	par := func(l *[]*types.Var, lw *[]gopoet.ArgType, name string, t types.Type, tw gopoet.TypeName) {
		*l = append(*l, types.NewParam(token.NoPos, nil, name, t))
		*lw = append(*lw, gopoet.ArgType{Name: name, Type: tw})
	}
	k := vChoose(4)
	if g.wide && k > 0 {
		t, tw := g.leaf()
		par(&ps, &w.Args, g.str(), t, tw)
		par(&rs, &w.Results, "", t, tw)
	}
	switch k {
	case 1:
		t, tw := g.typ(d - 1)
		par(&ps, &w.Args, "", t, tw)
	case 2:
		t, tw := g.typ(d - 1)
		par(&ps, &w.Args, g.str(), types.NewSlice(t), gopoet.SliceType(tw))
		w.IsVariadic = true
	case 3:
		t, tw := g.typ(d - 1)
		par(&rs, &w.Results, g.str(), t, tw)
		l, lw := g.leaf()
		par(&rs, &w.Results, g.str(), l, lw)
	}
	return types.NewSignature(recv, types.NewTuple(ps...), types.NewTuple(rs...), w.IsVariadic), w
}

func c09Check(t types.Type, w gopoet.TypeName) {
	got := dump(gopoet.TypeNameForGoType(t))
	vObserve("type", got)
	vAssert(got == dump(w), "converted to another type")
	vCover("done")
}

// c09Name is one of two letters or an underscore, and an arbitrary byte.
func c09Name() string { return vIdent("Nn_", "", 1) + string([]byte{vByte()}) }

func c09Str() func() string {
	n := 0
	return func() string {
		n++
		if n > 6 {
			return "n"
		}
		return c09Name()
	}
}

// H_C09_deep converts nested types.
// bound: all types of nesting depth 3 along a spine (4 in the thorough tier) over all kinds; package paths of one letter or digit before /x; package, type, parameter, method and field names and tags of a letter of either case or underscore and an arbitrary byte
// covers: done
func H_C09_deep() {
	g := &ggen{str: c09Str(), kinds: "bnpsamcfti"}
	c09Check(g.typ(3 + vTier()))
}

// H_C09_wide converts types with parts side by side.
// bound: all types of depth 3 (4 in the thorough tier) with siblings before and behind the spine
// covers: done
func H_C09_wide() {
	g := &ggen{str: c09Str(), kinds: "bnpsamcfti", wide: true}
	c09Check(g.typ(3 + vTier()))
}

// H_C09_basic converts every basic type.
// bound: every basic kind with a kind of its own, byte, rune and unsafe.Pointer
// covers: done
func H_C09_basic() {
	k := vChoose(len(goBasics) + 3)
	switch k {
	case len(goBasics):
		c09Check(types.Typ[types.UnsafePointer], gopoet.NamedType(gopoet.Symbol{Name: "Pointer", Package: gopoet.Package{Name: "unsafe", ImportPath: "unsafe"}}))
	case len(goBasics) + 1:
		c09Check(types.Universe.Lookup("byte").Type(), gopoet.BasicType(reflect.Uint8))
	case len(goBasics) + 2:
		c09Check(types.Universe.Lookup("rune").Type(), gopoet.BasicType(reflect.Int32))
	default:
		c09Check(types.Typ[goBasics[k].g], gopoet.BasicType(goBasics[k].r))
	}
}

// H_C09_array keeps the length.
// bound: every length of 0..2^62
// covers: done
func H_C09_array() {
	n := int64(vInt(0, 1<<62))
	t := gopoet.TypeNameForGoType(types.NewArray(types.Typ[types.Int], n))
	vAssert(t.Kind() == gopoet.KindArray && t.Len() == n && t.Elem() == gopoet.IntType, "converted to another type")
	vCover("done")
}

// H_C09_args converts long parameter lists.
// bound: signatures of 0..4 parameters and 0..3 results of different types, each named with a letter or underscore and an arbitrary byte or not, variadic or not
// covers: done
func H_C09_args() {
	var w gopoet.Signature
	var ps, rs []*types.Var
	np, nr := vChoose(5), vChoose(4)
	nm := func(i int) string {
		if vChoose(2) == 0 {
			return ""
		}
		if i > 2 {
			return "z"
		}
		return c09Name()
	}
	for i := 0; i < np; i++ {
		n := nm(i)
		ps = append(ps, types.NewParam(token.NoPos, nil, n, types.NewSlice(types.Typ[goBasics[i].g])))
		w.AddArg(n, gopoet.SliceType(gopoet.BasicType(goBasics[i].r)))
	}
	for i := 0; i < nr; i++ {
		n := nm(i)
		rs = append(rs, types.NewParam(token.NoPos, nil, n, types.NewSlice(types.Typ[goBasics[i+4].g])))
		w.AddResult(n, gopoet.SliceType(gopoet.BasicType(goBasics[i+4].r)))
	}
	w.IsVariadic = np > 0 && vChoose(2) == 0
	c09Check(types.NewSignature(nil, types.NewTuple(ps...), types.NewTuple(rs...), w.IsVariadic), gopoet.FuncTypeFromSig(&w))
}

// H_C09_objects converts packages and package-level objects.
// bound: a package, variable, constant, type name or function; package path of 1..3 letters, digits, and -_./, package and object names of a letter of either case or underscore and an arbitrary byte
// covers: done
func H_C09_objects() {
	path := vIdent(idRest, "-./"+idRest, 3)[:1+vChoose(3)]
	pn, on := c09Name(), c09Name()
	pkg := types.NewPackage(path, pn)
	p := gopoet.PackageForGoType(pkg)
	vAssert(p.ImportPath == path && p.Name == pn, "package converted to another")
	var obj types.Object
	switch vChoose(5) {
	case 0:
		obj = types.NewVar(token.NoPos, pkg, on, types.Typ[types.Int])
	case 1:
		obj = types.NewConst(token.NoPos, pkg, on, types.Typ[types.Int], constant.MakeInt64(3))
	case 2:
		obj = types.NewTypeName(token.NoPos, pkg, on, types.Typ[types.Int])
	case 3:
		obj = types.NewFunc(token.NoPos, pkg, on, types.NewSignature(nil, nil, nil, false))
	case 4:
		// the type of a variable must not matter
		sig := types.NewSignature(types.NewVar(token.NoPos, pkg, "r", types.Typ[types.Int]), nil, nil, false)
		obj = types.NewVar(token.NoPos, pkg, on, sig)
	}
	s, ok := gopoet.SymbolForGoObject(obj).(gopoet.Symbol)
	vAssert(ok, "not a symbol")
	vAssert(s.Name == on && s.Package.ImportPath == path && s.Package.Name == pn, "converted to another symbol")
	vObserve("sym", dumpSym(s))
	vCover("done")
}

// H_C09_methods converts methods.
// bound: methods with value, pointer and interface receivers; package path of a letter, package, type and method names of a letter of either case or underscore and an arbitrary byte; and error.Error
// covers: done
func H_C09_methods() {
	k := vChoose(4)
	var m *types.Func
	var want gopoet.MethodReference
	if k == 3 {
		m = types.Universe.Lookup("error").Type().Underlying().(*types.Interface).ExplicitMethod(0)
		want = gopoet.MethodReference{Type: gopoet.Symbol{Name: "error"}, Method: "Error"}
	} else {
		path, pn, tn, mn := vIdent(idRest, "", 1), c09Name(), c09Name(), c09Name()
		pkg := types.NewPackage(path, pn)
		named := types.NewNamed(types.NewTypeName(token.NoPos, pkg, tn, nil), types.Typ[types.Int], nil)
		var rt types.Type = named
		if k == 1 {
			rt = types.NewPointer(named)
		}
		recv := types.NewVar(token.NoPos, pkg, "r", rt)
		m = types.NewFunc(token.NoPos, pkg, mn, types.NewSignature(recv, nil, nil, false))
		if k == 2 {
			named.SetUnderlying(types.NewInterfaceType([]*types.Func{m}, nil).Complete())
		} else {
			named.AddMethod(m)
		}
		want = gopoet.MethodReference{Type: gopoet.Symbol{Name: tn, Package: gopoet.Package{ImportPath: path, Name: pn}}, Method: mn}
		// as a type, the receiver of a concrete method is the first argument
		f := gopoet.TypeNameForGoType(m.Type())
		if k < 2 {
			a := f.Signature().Args
			w := gopoet.NamedType(want.Type)
			if k == 1 {
				w = gopoet.PointerType(w)
			}
			vAssert(len(a) == 1 && dump(a[0].Type) == dump(w) && a[0].Name == "r", "receiver missing")
		} else {
			vAssert(len(f.Signature().Args) == 0, "interface method has a receiver")
		}
	}
	r, ok := gopoet.SymbolForGoObject(m).(gopoet.MethodReference)
	vAssert(ok, "not a method reference")
	vAssert(dumpSym(r.Type) == dumpSym(want.Type) && r.Method == want.Method, "another method")
	vObserve("ref", dumpSym(r.Type)+r.Method)
	vCover("done")
}

// H_C09_predeclared converts predeclared objects.
// bound: 9 predeclared types, constants, functions and nil; the nil package
// covers: done
func H_C09_predeclared() {
	n := []string{"error", "int", "string", "true", "iota", "nil", "len", "append", "byte"}[vChoose(9)]
	s, ok := gopoet.SymbolForGoObject(types.Universe.Lookup(n)).(gopoet.Symbol)
	vAssert(ok && s == gopoet.Symbol{Name: n}, "a predeclared object has a package")
	vAssert(gopoet.PackageForGoType(nil) == gopoet.Package{}, "no package became a package")
	vCover("done")
}

var pathWords = []string{"vendor", "x/vendor/y", "vendor/y", "x/myvendor/y", "internal", "a/internal/b", "gopkg.in/x.v2", "x/v2", "main", "C", "builtin", "unsafe", "x_test", "x.org/a/x_test", "x [x.test]", "./x", "_/home/x", "command-line-arguments", "", "cmd/go", "a//b", "A/B", "github.com/jhump/gopoet", "golang.org/x/y", "testmain"}

// H_C09_paths converts references to packages with paths that mean something to tools.
// bound: 25 import paths, alone or before or after an arbitrary byte; as the package of a named type, an embedded interface, a method's receiver, a function, or given itself; package names as the path's last element or an arbitrary letter
// covers: done
func H_C09_paths() {
	path := pathWords[vChoose(len(pathWords))]
	switch vChoose(3) {
	case 1:
		path += string([]byte{vByte()})
	case 2:
		path = string([]byte{vByte()}) + path
	}
	name := path[strings.LastIndex(path, "/")+1:]
	if vChoose(2) == 0 {
		name = vIdent(idRest, "", 1)
	}
	pkg := types.NewPackage(path, name)
	want := gopoet.Package{ImportPath: path, Name: name}
	tn := types.NewTypeName(token.NoPos, pkg, "T", nil)
	iface := types.NewInterfaceType(nil, nil)
	iface.Complete()
	switch vChoose(5) {
	case 0:
		vAssert(gopoet.PackageForGoType(pkg) == want, "package converted to another")
	case 1:
		t := gopoet.TypeNameForGoType(types.NewPointer(types.NewNamed(tn, types.Typ[types.Int], nil)))
		vAssert(t.Elem().Symbol() == want.Symbol("T"), "type converted to another")
	case 2:
		e := types.NewInterfaceType(nil, []types.Type{types.NewNamed(tn, iface, nil)})
		e.Complete()
		t := gopoet.TypeNameForGoType(e)
		vAssert(len(t.Embeds()) == 1 && t.Embeds()[0] == want.Symbol("T"), "embedded interface converted to another")
	case 3:
		named := types.NewNamed(tn, types.Typ[types.Int], nil)
		fn := types.NewFunc(token.NoPos, pkg, "M", types.NewSignature(types.NewVar(token.NoPos, pkg, "r", types.NewPointer(named)), nil, nil, false))
		m, ok := gopoet.SymbolForGoObject(fn).(gopoet.MethodReference)
		vAssert(ok && m.Type == want.Symbol("T") && m.Method == "M", "method converted to another")
	case 4:
		fn := types.NewFunc(token.NoPos, pkg, "F", types.NewSignature(nil, nil, nil, false))
		s, ok := gopoet.SymbolForGoObject(fn).(gopoet.Symbol)
		vAssert(ok && s == want.Symbol("F"), "function converted to another")
	}
	vCover("done")
}
