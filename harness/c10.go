package main

import (
	"bytes"
	"go/ast"
	"go/types"
	"io"
	"reflect"
	"strconv"
	"text/template"
	"unsafe"

	"github.com/jhump/gopoet"
)

// types declared here belong to this program's main package
type (
	rInt    int
	rStruct struct{ A int }
	rIface  interface{ M() }
	rFunc   func(int) string
	rMap    map[string]rInt
	rPtr    *rInt
	rChan   chan<- rInt
	rBool   bool
	rByte   byte
	rCplx   complex64
	rSlice  []rSlice
	RPub    struct{ *rInt }
	RPub2   int
)

// rSym is what a named type is a reference to: path and name.
func rSym(path, name string) gopoet.TypeName {
	return gopoet.NamedType(gopoet.Symbol{Name: name, Package: gopoet.Package{ImportPath: path}})
}

func rMain(name string) gopoet.TypeName {
	return rSym(reflect.TypeOf(rInt(0)).PkgPath(), name)
}

type rPair struct {
	t reflect.Type
	w gopoet.TypeName
}

func rElem(p interface{}) reflect.Type { return reflect.TypeOf(p).Elem() }

// named types of several packages and kinds
func rNamed() []rPair {
	return []rPair{
		{reflect.TypeOf(rInt(0)), rMain("rInt")},
		{reflect.TypeOf(rStruct{}), rMain("rStruct")},
		{rElem((*rIface)(nil)), rMain("rIface")},
		{reflect.TypeOf(rFunc(nil)), rMain("rFunc")},
		{reflect.TypeOf(rMap(nil)), rMain("rMap")},
		{reflect.TypeOf(rPtr(nil)), rMain("rPtr")},
		{reflect.TypeOf(rChan(nil)), rMain("rChan")},
		{reflect.TypeOf(rBool(false)), rMain("rBool")},
		{reflect.TypeOf(rByte(0)), rMain("rByte")},
		{reflect.TypeOf(rCplx(0)), rMain("rCplx")},
		{reflect.TypeOf(rSlice(nil)), rMain("rSlice")},
		{rElem((*error)(nil)), rSym("", "error")},
		{rElem((*io.Reader)(nil)), rSym("io", "Reader")},
		{reflect.TypeOf(bytes.Buffer{}), rSym("bytes", "Buffer")},
		{reflect.TypeOf(template.Template{}), rSym("text/template", "Template")},
		{reflect.TypeOf(ast.File{}), rSym("go/ast", "File")},
		{reflect.TypeOf(types.Bool), rSym("go/types", "BasicKind")},
		{reflect.TypeOf(reflect.Int), rSym("reflect", "Kind")},
		{reflect.TypeOf(unsafe.Pointer(nil)), rSym("unsafe", "Pointer")},
		{reflect.TypeOf(gopoet.Symbol{}), rSym("github.com/jhump/gopoet", "Symbol")},
	}
}

// rLocal are types declared in functions, named like predeclared ones
func rLocal() []rPair {
	type str = string
	type i = int
	type by = byte
	type string str
	type int str
	type bool i
	type error interface{ Error() str }
	type uint8 by
	type any struct{}
	type rInt struct{}
	return []rPair{
		{reflect.TypeOf(string("")), rMain("string")},
		{reflect.TypeOf(int("")), rMain("int")},
		{reflect.TypeOf(bool(0)), rMain("bool")},
		{rElem((*error)(nil)), rMain("error")},
		{reflect.TypeOf(uint8(0)), rMain("uint8")},
		{reflect.TypeOf(any{}), rMain("any")},
		{reflect.TypeOf(rInt{}), rMain("rInt")},
	}
}

// unnamed types that cannot be made at run time
func rLits() []rPair {
	f := func(n string, t gopoet.TypeName) gopoet.FieldType { return gopoet.FieldType{Name: n, Type: t} }
	var nothing gopoet.Signature
	var read gopoet.Signature
	read.AddArg("", gopoet.SliceType(gopoet.Uint8Type)).AddResult("", gopoet.IntType).AddResult("", gopoet.ErrorType)
	var vari gopoet.Signature
	vari.AddArg("", gopoet.IntType).AddArg("", gopoet.SliceType(rMain("rInt"))).SetVariadic(true)
	return []rPair{
		{reflect.TypeOf(struct{}{}), gopoet.StructType()},
		{rElem((*interface{})(nil)), gopoet.InterfaceType(nil)},
		{reflect.TypeOf(struct {
			rStruct
			A int `json:"a"`
			b *rInt
		}{}), gopoet.StructType(f("", rMain("rStruct")), gopoet.FieldType{Name: "A", Type: gopoet.IntType, Tag: `json:"a"`}, f("b", gopoet.PointerType(rMain("rInt"))))},
		{reflect.TypeOf(struct {
			*bytes.Buffer `x:"y"`
			io.Reader
			error
			_ string "blank"
		}{}), gopoet.StructType(gopoet.FieldType{Type: gopoet.PointerType(rSym("bytes", "Buffer")), Tag: `x:"y"`}, f("", rSym("io", "Reader")), f("", rSym("", "error")), gopoet.FieldType{Name: "_", Type: gopoet.StringType, Tag: "blank"})},
		{reflect.TypeOf(struct {
			A, B struct{ C []rMap }
			int
			rInt
		}{}), gopoet.StructType(f("A", gopoet.StructType(f("C", gopoet.SliceType(rMain("rMap"))))), f("B", gopoet.StructType(f("C", gopoet.SliceType(rMain("rMap"))))), f("", gopoet.IntType), f("", rMain("rInt")))},
		{reflect.TypeOf(struct {
			*rStruct
			*rInt `t:"1"`
			rIface
			rFunc
			*rSlice
			*bool
			int8
		}{}), gopoet.StructType(f("", gopoet.PointerType(rMain("rStruct"))), gopoet.FieldType{Type: gopoet.PointerType(rMain("rInt")), Tag: `t:"1"`}, f("", rMain("rIface")), f("", rMain("rFunc")), f("", gopoet.PointerType(rMain("rSlice"))), f("", gopoet.PointerType(gopoet.BoolType)), f("", gopoet.Int8Type))},
		{reflect.TypeOf(struct {
			*RPub
			a, _ RPub
			RPub2
			*uint8
			B *RPub `b`
		}{}), gopoet.StructType(f("", gopoet.PointerType(rMain("RPub"))), f("a", rMain("RPub")), f("_", rMain("RPub")), f("", rMain("RPub2")), f("", gopoet.PointerType(gopoet.Uint8Type)), gopoet.FieldType{Name: "B", Type: gopoet.PointerType(rMain("RPub")), Tag: "b"})},
		{rElem((*interface {
			M()
			A(...int) rInt
		})(nil)), gopoet.InterfaceType(nil, gopoet.MethodType{Name: "A", Signature: gopoet.Signature{Args: []gopoet.ArgType{{Type: gopoet.SliceType(gopoet.IntType)}}, Results: []gopoet.ArgType{{Type: rMain("rInt")}}, IsVariadic: true}}, gopoet.MethodType{Name: "M", Signature: nothing})},
		{rElem((*interface {
			io.Reader
			Zed(struct{ X rInt }, func(rInt) (rBool, error))
		})(nil)), gopoet.InterfaceType(nil, gopoet.MethodType{Name: "Read", Signature: read}, gopoet.MethodType{Name: "Zed", Signature: gopoet.Signature{Args: []gopoet.ArgType{{Type: gopoet.StructType(f("X", rMain("rInt")))}, {Type: gopoet.FuncType([]gopoet.ArgType{{Type: rMain("rInt")}}, []gopoet.ArgType{{Type: rMain("rBool")}, {Type: gopoet.ErrorType}})}}}})},
		{rElem((*[1 << 40]struct{})(nil)), gopoet.ArrayType(gopoet.StructType(), 1<<40)},
		{reflect.TypeOf(func(int, ...rInt) {}), gopoet.FuncTypeFromSig(&vari)},
		{reflect.TypeOf((func(p []byte) (n int, err error))(nil)), gopoet.FuncTypeFromSig(&read)},
	}
}

func rBasics() []rPair {
	vs := []interface{}{false, "", 0, int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0), float32(0), float64(0), complex64(0), complex128(0)}
	var r []rPair
	for _, v := range vs {
		t := reflect.TypeOf(v)
		r = append(r, rPair{t, gopoet.BasicType(t.Kind())})
	}
	return r
}

func rLeaves() []rPair {
	return append(append(append(rNamed(), rLits()...), rLocal()...), rBasics()...)
}

func c10Check(p rPair) {
	got := dump(gopoet.TypeNameForReflectType(p.t))
	vObserve("type", got)
	vAssert(got == dump(p.w), "converted to another type")
	vCover("done")
}

// H_C10_leaves converts types that are given.
// bound: 20 named types of 9 packages and all kinds, 7 types of functions named like predeclared ones, 12 unnamed structs, interfaces and functions with embedded, unexported, tagged and blank fields, 17 basic types
// covers: done
func H_C10_leaves() {
	l := rLeaves()
	c10Check(l[vChoose(len(l))])
}

type rgen struct {
	leaves []rPair
	all    bool // the leaf of the spine may be any
	n      int
}

func (g *rgen) leaf() rPair {
	g.n++
	return g.leaves[(g.n*7)%len(g.leaves)]
}

func (g *rgen) typ(d int) rPair {
	if d == 0 {
		if g.all {
			return g.leaves[vChoose(len(g.leaves))]
		}
		return g.leaf()
	}
	p := g.typ(d - 1)
	k := g.leaf()
	switch vChoose(11) {
	case 0:
		return rPair{reflect.PtrTo(p.t), gopoet.PointerType(p.w)}
	case 1:
		return rPair{reflect.SliceOf(p.t), gopoet.SliceType(p.w)}
	case 2:
		n := []int{0, 1, 77}[vChoose(3)]
		return rPair{reflect.ArrayOf(n, p.t), gopoet.ArrayType(p.w, int64(n))}
	case 3:
		return rPair{reflect.MapOf(reflect.TypeOf(rInt(0)), p.t), gopoet.MapType(rMain("rInt"), p.w)}
	case 4: // the spine in the key
		return rPair{reflect.MapOf(reflect.PtrTo(p.t), k.t), gopoet.MapType(gopoet.PointerType(p.w), k.w)}
	case 5:
		dir := reflect.ChanDir(1 + vChoose(3))
		return rPair{reflect.ChanOf(dir, p.t), gopoet.ChannelType(p.w, dir)}
	case 6:
		return rPair{reflect.FuncOf([]reflect.Type{k.t, p.t}, nil, false), gopoet.FuncType([]gopoet.ArgType{{Type: k.w}, {Type: p.w}}, nil)}
	case 7:
		return rPair{reflect.FuncOf([]reflect.Type{k.t, reflect.SliceOf(p.t)}, nil, true), gopoet.FuncTypeVariadic([]gopoet.ArgType{{Type: k.w}, {Type: gopoet.SliceType(p.w)}}, nil)}
	case 8:
		return rPair{reflect.FuncOf(nil, []reflect.Type{p.t, k.t}, false), gopoet.FuncType(nil, []gopoet.ArgType{{Type: p.w}, {Type: k.w}})}
	case 9: // slice last but not variadic
		return rPair{reflect.FuncOf([]reflect.Type{reflect.SliceOf(p.t)}, []reflect.Type{k.t}, false), gopoet.FuncType([]gopoet.ArgType{{Type: gopoet.SliceType(p.w)}}, []gopoet.ArgType{{Type: k.w}})}
	default:
		tag := []string{"", `json:"x,omitempty"`, "a b\n`"}[vChoose(3)]
		nm := "F" + strconv.Itoa(d)
		return rPair{reflect.StructOf([]reflect.StructField{{Name: nm, Type: p.t, Tag: reflect.StructTag(tag)}, {Name: "G", Type: k.t}}),
			gopoet.StructType(gopoet.FieldType{Name: nm, Type: p.w, Tag: reflect.StructTag(tag)}, gopoet.FieldType{Name: "G", Type: k.w})}
	}
}

// H_C10_deep converts nested types.
// bound: all types of nesting depth 3 (4 in the thorough tier) of 11 forms (pointer, slice, array, map key and element, channel, function forms, struct) around leaves of 56 kinds
// covers: done
func H_C10_deep() {
	g := &rgen{leaves: rLeaves()}
	c10Check(g.typ(3 + vTier()))
}

// H_C10_around puts every leaf into every form.
// bound: all types of nesting depth 1 (2 in the thorough tier) of 11 forms around each of 56 leaves
// covers: done
func H_C10_around() {
	g := &rgen{leaves: rLeaves(), all: true}
	c10Check(g.typ(1 + vTier()))
}

// H_C10_tags converts structs with tags.
// bound: structs of two fields with tags of up to 3 and 1 arbitrary bytes, by itself or in a pointer, slice, map, function or struct
// covers: done
func H_C10_tags() {
	tag := func(n int) reflect.StructTag {
		b := make([]byte, vChoose(n+1))
		for i := range b {
			b[i] = vByte()
		}
		return reflect.StructTag(b)
	}
	t1, t2 := tag(3), tag(1)
	p := rPair{reflect.StructOf([]reflect.StructField{{Name: "F", Type: reflect.TypeOf(0), Tag: t1}, {Name: "G", Type: reflect.TypeOf(rInt(0)), Tag: t2}}),
		gopoet.StructType(gopoet.FieldType{Name: "F", Type: gopoet.IntType, Tag: t1}, gopoet.FieldType{Name: "G", Type: rMain("rInt"), Tag: t2})}
	switch vChoose(6) {
	case 1:
		p = rPair{reflect.PtrTo(p.t), gopoet.PointerType(p.w)}
	case 2:
		p = rPair{reflect.SliceOf(p.t), gopoet.SliceType(p.w)}
	case 3:
		p = rPair{reflect.MapOf(p.t, p.t), gopoet.MapType(p.w, p.w)}
	case 4:
		p = rPair{reflect.FuncOf([]reflect.Type{p.t}, nil, false), gopoet.FuncType([]gopoet.ArgType{{Type: p.w}}, nil)}
	case 5:
		p = rPair{reflect.StructOf([]reflect.StructField{{Name: "H", Type: p.t, Tag: t2}}), gopoet.StructType(gopoet.FieldType{Name: "H", Type: p.w, Tag: t2})}
	}
	got := dump(gopoet.TypeNameForReflectType(p.t))
	vObserve("type", got)
	vAssert(vEqStr(got, dump(p.w)), "converted to another type")
	vCover("done")
}
