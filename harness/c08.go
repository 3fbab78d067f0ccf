package main

import (
	"reflect"

	"github.com/jhump/gopoet"
)

// c08Empty checks every accessor that does not apply to the type's kind.
func c08Empty(t gopoet.TypeName) {
	k := t.Kind()
	if k != gopoet.KindNamed {
		vAssert(t.Symbol() == gopoet.Symbol{}, "Symbol of an unnamed type")
	}
	switch k {
	case gopoet.KindPtr, gopoet.KindSlice, gopoet.KindArray, gopoet.KindMap, gopoet.KindChan:
	default:
		vAssert(t.Elem() == nil, "Elem of a type without element")
	}
	if k != gopoet.KindMap {
		vAssert(t.Key() == nil, "Key of a type that is no map")
	}
	if k != gopoet.KindArray {
		vAssert(t.Len() == -1, "Len of a type that is no array")
	}
	if k != gopoet.KindChan {
		vAssert(t.Dir() == 0, "Dir of a type that is no channel")
	}
	if k != gopoet.KindBasic {
		vAssert(t.BasicKind() == reflect.Invalid, "BasicKind of a type that is not basic")
	}
	if k != gopoet.KindFunc {
		vAssert(t.Signature() == nil, "Signature of a type that is no func")
	}
	if k != gopoet.KindStruct {
		vAssert(t.Fields() == nil, "Fields of a type that is no struct")
	}
	if k != gopoet.KindInterface {
		vAssert(t.Methods() == nil, "Methods of a type that is no interface")
		vAssert(t.Embeds() == nil, "Embeds of a type that is no interface")
	}
}

func c08Sym() gopoet.Symbol {
	nm := func() string { return string([]byte{vByte(), vByte()}) }
	return gopoet.Symbol{Name: nm(), Package: gopoet.Package{ImportPath: nm(), Name: nm()}}
}

// H_C08_elem builds the types with elements.
// bound: pointer, slice, map, named and array of an arbitrary symbol; array lengths any 64-bit value; element and key types nil or not
// covers: ok refused
func H_C08_elem() {
	s1, s2 := c08Sym(), c08Sym()
	e, k := gopoet.NamedType(s1), gopoet.NamedType(s2)
	vAssert(e.Kind() == gopoet.KindNamed, "kind of a named type")
	vAssert(e.Symbol() == s1, "symbol of a named type")
	c08Empty(e)
	if vChoose(3) == 1 {
		e = nil
	}
	if vChoose(3) == 1 {
		k = nil
	}
	n := vInt(-1<<63, 1<<63-1)
	how := vChoose(4)
	var t gopoet.TypeName
	refused := panics(func() {
		switch how {
		case 0:
			t = gopoet.PointerType(e)
		case 1:
			t = gopoet.SliceType(e)
		case 2:
			t = gopoet.ArrayType(e, int64(n))
		case 3:
			t = gopoet.MapType(k, e)
		}
	})
	bad := e == nil || how == 3 && k == nil || how == 2 && n < 0
	vAssert(refused == bad, "constructor refuses exactly invalid inputs")
	if refused {
		vCover("refused")
		return
	}
	vCover("ok")
	vAssert(t.Elem() == e, "element type")
	switch how {
	case 0:
		vAssert(t.Kind() == gopoet.KindPtr, "kind")
	case 1:
		vAssert(t.Kind() == gopoet.KindSlice, "kind")
	case 2:
		vAssert(t.Kind() == gopoet.KindArray, "kind")
		vAssert(t.Len() == int64(n), "length")
	case 3:
		vAssert(t.Kind() == gopoet.KindMap, "kind")
		vAssert(t.Key() == k, "key type")
	}
	c08Empty(t)
}

// H_C08_chan builds channels.
// bound: any direction value of 64 bits, element type nil or not
// covers: ok refused zero
func H_C08_chan() {
	e := gopoet.NamedType(c08Sym())
	if vChoose(2) == 1 {
		e = nil
	}
	d := reflect.ChanDir(vInt(-1<<63, 1<<63-1))
	var t gopoet.TypeName
	refused := panics(func() { t = gopoet.ChannelType(e, d) })
	ok := vPick(vAnd(d >= 0, d <= 3))
	vAssert(refused == (!ok || e == nil), "constructor refuses exactly invalid inputs")
	if refused {
		vCover("refused")
		return
	}
	vCover("ok")
	vAssert(t.Kind() == gopoet.KindChan, "kind")
	vAssert(t.Elem() == e, "element type")
	if d == 0 {
		vCover("zero")
		vAssert(t.Dir() == reflect.BothDir, "direction 0 is not both")
	} else {
		vAssert(t.Dir() == d, "direction")
	}
	c08Empty(t)
}

// H_C08_basic builds basic types.
// bound: every kind value of 0..64
// covers: ok refused unsafe
func H_C08_basic() {
	k := reflect.Kind(vInt(0, 64))
	var t gopoet.TypeName
	refused := panics(func() { t = gopoet.BasicType(k) })
	if k == reflect.UnsafePointer {
		vCover("unsafe")
		vAssert(!refused, "unsafe pointer refused")
		vAssert(t.Kind() == gopoet.KindNamed, "kind of unsafe.Pointer")
		vAssert(t.Symbol() == gopoet.NewSymbol("unsafe", "Pointer"), "symbol of unsafe.Pointer")
		c08Empty(t)
		return
	}
	basic := vPick(vOr(vAnd(k >= reflect.Bool, k <= reflect.Complex128), k == reflect.String))
	vAssert(refused == !basic, "constructor refuses exactly the kinds that are not basic")
	if refused {
		vCover("refused")
		return
	}
	vCover("ok")
	vAssert(t.Kind() == gopoet.KindBasic, "kind")
	vAssert(t.BasicKind() == k, "basic kind")
	c08Empty(t)
}

// H_C08_func builds function types.
// bound: 0..3 arguments and 0..2 results, each nil or a basic, slice, array or named type, with arbitrary names; the variadic flag; through all three constructors
// covers: ok refused variadic
func H_C08_func() {
	mk := func(n int) []gopoet.ArgType {
		var as []gopoet.ArgType
		for i := 0; i < n; i++ {
			a := gopoet.ArgType{Name: string([]byte{vByte()})}
			switch vChoose(4) {
			case 0:
			case 1:
				a.Type = gopoet.SliceType(gopoet.IntType)
			case 2:
				a.Type = gopoet.ArrayType(gopoet.IntType, 3)
			case 3:
				a.Type = gopoet.NamedType(gopoet.Symbol{Name: string([]byte{vByte()})})
			}
			as = append(as, a)
		}
		return as
	}
	args, results := mk(vChoose(4)), mk(vChoose(3+vTier()))
	variadic := vChoose(2) == 1
	bad := false
	for _, a := range args {
		bad = bad || a.Type == nil
	}
	for _, a := range results {
		bad = bad || a.Type == nil
	}
	if variadic && (len(args) == 0 || args[len(args)-1].Type == nil || args[len(args)-1].Type.Kind() != gopoet.KindSlice) {
		bad = true
	}
	var t gopoet.TypeName
	direct := vChoose(2) == 0
	refused := panics(func() {
		if direct {
			s := gopoet.Signature{}
			for _, a := range args {
				s.AddArg(a.Name, a.Type)
			}
			for _, a := range results {
				s.AddResult(a.Name, a.Type)
			}
			t = gopoet.FuncTypeFromSig(s.SetVariadic(variadic))
		} else if variadic {
			t = gopoet.FuncTypeVariadic(args, results)
		} else {
			t = gopoet.FuncType(args, results)
		}
	})
	vAssert(refused == bad, "constructor refuses exactly invalid inputs")
	if refused {
		vCover("refused")
		return
	}
	vCover("ok")
	vAssert(t.Kind() == gopoet.KindFunc, "kind")
	s := t.Signature()
	vAssert(s.IsVariadic == variadic, "variadic flag")
	if variadic {
		vCover("variadic")
	}
	vAssert(len(s.Args) == len(args), "number of arguments")
	vAssert(len(s.Results) == len(results), "number of results")
	for i, a := range args {
		vAssert(s.Args[i] == a, "argument")
	}
	for i, a := range results {
		vAssert(s.Results[i] == a, "result")
	}
	c08Empty(t)
}

// H_C08_members builds structs and interfaces and edits the lists they hand out.
// bound: 0..3 fields, or 0..2 embeds and 0..2 methods, with arbitrary names, types and tags
// covers: struct interface
func H_C08_members() {
	nm := func() string { return string([]byte{vByte()}) }
	if vChoose(2) == 0 {
		var fs []gopoet.FieldType
		for i, n := 0, vChoose(4); i < n; i++ {
			f := gopoet.FieldType{Name: nm(), Type: gopoet.NamedType(c08Sym())}
			f.Tag = reflect.StructTag(nm())
			fs = append(fs, f)
		}
		want := append([]gopoet.FieldType(nil), fs...)
		t := gopoet.StructType(fs...)
		vAssert(t.Kind() == gopoet.KindStruct, "kind")
		for round := 0; round < 3; round++ {
			got := t.Fields()
			vAssert(len(got) == len(want), "number of fields")
			for i := range want {
				vAssert(got[i] == want[i], "field")
				got[i] = gopoet.FieldType{Name: "changed"}
			}
			if round == 1 {
				got = append(got[:0], gopoet.FieldType{Name: "x"}, gopoet.FieldType{Name: "y"})
			}
		}
		c08Empty(t)
		vCover("struct")
		return
	}
	var es []gopoet.Symbol
	var ms []gopoet.MethodType
	for i, n := 0, vChoose(3); i < n; i++ {
		es = append(es, c08Sym())
	}
	for i, n := 0, vChoose(3); i < n; i++ {
		m := gopoet.MethodType{Name: nm()}
		m.Signature.AddArg(nm(), gopoet.SliceType(gopoet.NamedType(c08Sym()))).AddResult(nm(), gopoet.IntType).SetVariadic(vChoose(2) == 0)
		ms = append(ms, m)
	}
	wes, wms := append([]gopoet.Symbol(nil), es...), append([]gopoet.MethodType(nil), ms...)
	t := gopoet.InterfaceType(es, ms...)
	vAssert(t.Kind() == gopoet.KindInterface, "kind")
	for round := 0; round < 3; round++ {
		ge, gm := t.Embeds(), t.Methods()
		vAssert(len(ge) == len(wes), "number of embeds")
		vAssert(len(gm) == len(wms), "number of methods")
		for i := range wes {
			vAssert(ge[i] == wes[i], "embed")
			ge[i] = gopoet.Symbol{Name: "changed"}
		}
		for i := range wms {
			vAssert(gm[i].Name == wms[i].Name, "method name")
			vAssert(gm[i].Signature.IsVariadic == wms[i].Signature.IsVariadic, "method variadic flag")
			vAssert(len(gm[i].Signature.Args) == 1 && gm[i].Signature.Args[0] == wms[i].Signature.Args[0], "method argument")
			vAssert(len(gm[i].Signature.Results) == 1 && gm[i].Signature.Results[0] == wms[i].Signature.Results[0], "method result")
			gm[i] = gopoet.MethodType{Name: "changed"}
		}
		if round == 1 {
			_ = append(ge[:0], gopoet.Symbol{Name: "x"}, gopoet.Symbol{Name: "y"}, gopoet.Symbol{Name: "z"})
			_ = append(gm[:0], gopoet.MethodType{Name: "x"}, gopoet.MethodType{Name: "y"}, gopoet.MethodType{Name: "z"})
		}
	}
	c08Empty(t)
	vCover("interface")
}

// H_C08_predefined looks at the predefined types.
// bound: all of them
// covers: done
func H_C08_predefined() {
	all := []gopoet.TypeName{gopoet.BoolType, gopoet.StringType, gopoet.IntType, gopoet.Int8Type, gopoet.Int16Type, gopoet.Int32Type, gopoet.Int64Type, gopoet.UintType, gopoet.Uint8Type, gopoet.Uint16Type, gopoet.Uint32Type, gopoet.Uint64Type, gopoet.UintptrType, gopoet.Float32Type, gopoet.Float64Type, gopoet.Complex64Type, gopoet.Complex128Type}
	i := vChoose(len(all))
	vAssert(all[i].Kind() == gopoet.KindBasic, "kind of a predefined type")
	vAssert(all[i].BasicKind() == basicKinds[i], "kind of a predefined basic type")
	c08Empty(all[i])
	vAssert(gopoet.RuneType == gopoet.Int32Type, "rune")
	vAssert(gopoet.ByteType == gopoet.Uint8Type, "byte")
	vAssert(gopoet.ErrorType.Symbol() == gopoet.Symbol{Name: "error"}, "error")
	vAssert(gopoet.UnsafePointerType.Symbol() == gopoet.Symbol{Name: "Pointer", Package: gopoet.Package{ImportPath: "unsafe", Name: "unsafe"}}, "unsafe.Pointer")
	vCover("done")
}
