package main

import (
	"reflect"
	"strconv"

	"github.com/jhump/gopoet"
)

// tgen makes arbitrary types. Along one spine of nested types every kind is
// tried at every depth; the siblings of the spine are named types.
type tgen struct {
	sym   func() gopoet.Symbol // a reference
	kinds string               // kinds to try: b n p s a m c f t i
	n     int                  // names made so far
	wide  bool                 // up to two siblings before and after the spine
	name  func() string        // parameter, field and method names (nil: fixed ones)
	tag   func() string
}

func (g *tgen) id(prefix string) string {
	if g.name != nil {
		return g.name()
	}
	g.n++
	return prefix + strconv.Itoa(g.n)
}

func (g *tgen) leaf() gopoet.TypeName { return gopoet.NamedType(g.sym()) }

var basicKinds = []reflect.Kind{reflect.Bool, reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128}

func (g *tgen) typ(d int) gopoet.TypeName {
	kinds := g.kinds
	if d == 0 {
		kinds = "bn"
	}
	switch kinds[vChoose(len(kinds))] {
	case 'b':
		return gopoet.BasicType(basicKinds[(d*7+3)%len(basicKinds)])
	case 'n':
		return g.leaf()
	case 'p':
		return gopoet.PointerType(g.typ(d - 1))
	case 's':
		return gopoet.SliceType(g.typ(d - 1))
	case 'a':
		return gopoet.ArrayType(g.typ(d-1), int64(d*10+2))
	case 'm':
		if vChoose(2) == 0 {
			return gopoet.MapType(g.typ(d-1), g.leaf())
		}
		return gopoet.MapType(g.leaf(), g.typ(d-1))
	case 'c':
		return gopoet.ChannelType(g.typ(d-1), reflect.ChanDir(1+vChoose(3)))
	case 'f':
		s := g.sig(d)
		return gopoet.FuncTypeFromSig(&s)
	case 't':
		k := vChoose(3)
		fs := []gopoet.FieldType{}
		if k > 0 && g.wide {
			fs = append(fs, gopoet.FieldType{Name: g.id("F"), Type: g.leaf()})
		}
		switch k {
		case 1:
			f := gopoet.FieldType{Name: g.id("F"), Type: g.typ(d - 1)}
			if g.tag != nil {
				f.Tag = reflect.StructTag(g.tag())
			}
			fs = append(fs, f)
		case 2:
			var e gopoet.TypeName = g.leaf()
			if vChoose(2) == 0 {
				e = gopoet.PointerType(e)
			}
			fs = append(fs, gopoet.FieldType{Type: e, Tag: "k:\"v\""})
			fs = append(fs, gopoet.FieldType{Name: g.id("F"), Type: g.leaf(), Tag: "w"})
		}
		return gopoet.StructType(fs...)
	default:
		k := vChoose(4)
		var es []gopoet.Symbol
		for i := 0; i < k&1; i++ {
			es = append(es, g.sym())
			if g.wide {
				es = append(es, g.sym())
			}
		}
		var ms []gopoet.MethodType
		if k&2 != 0 {
			if g.wide {
				ms = append(ms, gopoet.MethodType{Name: g.id("M")})
			}
			ms = append(ms, gopoet.MethodType{Name: g.id("M"), Signature: g.sig(d)})
		}
		return gopoet.InterfaceType(es, ms...)
	}
}

// sig makes a signature whose spine goes through one argument or result.
func (g *tgen) sig(d int) gopoet.Signature {
	var s gopoet.Signature
	nm := func(p string, on bool) string {
		if on {
			return g.id(p)
		}
		return ""
	}
	switch vChoose(5) {
	case 0: // nothing
	case 1: // spine is an unnamed argument
		if g.wide {
			s.Args = append(s.Args, gopoet.ArgType{Type: g.leaf()})
		}
		s.Args = append(s.Args, gopoet.ArgType{Type: g.typ(d - 1)})
	case 2: // spine is the variadic argument, named or not
		named := vChoose(2) == 0
		if g.wide {
			s.Args = append(s.Args, gopoet.ArgType{Name: nm("a", named), Type: g.leaf()})
		}
		s.Args = append(s.Args, gopoet.ArgType{Name: nm("a", named), Type: gopoet.SliceType(g.typ(d - 1))})
		s.IsVariadic = true
		if g.wide {
			s.Results = append(s.Results, gopoet.ArgType{Type: g.leaf()})
		}
	case 3: // spine is the only or the second result
		if g.wide {
			s.Results = append(s.Results, gopoet.ArgType{Type: g.leaf()})
		}
		s.Results = append(s.Results, gopoet.ArgType{Type: g.typ(d - 1)})
	case 4: // some parameters and results named
		which := vChoose(3)
		s.Args = append(s.Args, gopoet.ArgType{Name: nm("a", which != 1), Type: g.leaf()})
		s.Args = append(s.Args, gopoet.ArgType{Name: nm("a", which != 0), Type: gopoet.SliceType(gopoet.IntType)})
		s.Results = append(s.Results, gopoet.ArgType{Name: nm("r", which != 1), Type: g.typ(d - 1)})
		if g.wide {
			s.Results = append(s.Results, gopoet.ArgType{Name: nm("r", which != 0), Type: g.leaf()})
		}
	}
	return s
}

// dump writes a type with the paths and names of its references.
func dump(t gopoet.TypeName) string {
	if t == nil {
		return "<nil>"
	}
	switch t.Kind() {
	case gopoet.KindNamed:
		return dumpSym(t.Symbol())
	case gopoet.KindBasic:
		return t.BasicKind().String()
	case gopoet.KindPtr:
		return "(* " + dump(t.Elem()) + ")"
	case gopoet.KindSlice:
		return "([] " + dump(t.Elem()) + ")"
	case gopoet.KindArray:
		return "([" + strconv.FormatInt(t.Len(), 10) + "] " + dump(t.Elem()) + ")"
	case gopoet.KindMap:
		return "(map " + dump(t.Key()) + " " + dump(t.Elem()) + ")"
	case gopoet.KindChan:
		return "(chan" + strconv.Itoa(int(t.Dir())) + " " + dump(t.Elem()) + ")"
	case gopoet.KindFunc:
		return "(func " + dumpSig(t.Signature()) + ")"
	case gopoet.KindStruct:
		s := "(struct"
		for _, f := range t.Fields() {
			s += " " + f.Name + ":" + dump(f.Type) + "`" + string(f.Tag) + "`"
		}
		return s + ")"
	case gopoet.KindInterface:
		s := "(interface"
		for _, e := range t.Embeds() {
			s += " " + dumpSym(e)
		}
		for _, m := range t.Methods() {
			s += " " + m.Name + dumpSig(&m.Signature)
		}
		return s + ")"
	}
	return "?"
}

func dumpSym(s gopoet.Symbol) string {
	return "{" + s.Package.ImportPath + "|" + s.Package.Name + "|" + s.Name + "}"
}

func dumpSig(s *gopoet.Signature) string {
	r := "("
	for _, a := range s.Args {
		r += a.Name + ":" + dump(a.Type) + ","
	}
	if s.IsVariadic {
		r += "..."
	}
	r += ")("
	for _, a := range s.Results {
		r += a.Name + ":" + dump(a.Type) + ","
	}
	return r + ")"
}

// mapSyms builds an independent copy of the type with every reference mapped.
func mapSyms(t gopoet.TypeName, f func(gopoet.Symbol) gopoet.Symbol) gopoet.TypeName {
	switch t.Kind() {
	case gopoet.KindNamed:
		return gopoet.NamedType(f(t.Symbol()))
	case gopoet.KindPtr:
		return gopoet.PointerType(mapSyms(t.Elem(), f))
	case gopoet.KindSlice:
		return gopoet.SliceType(mapSyms(t.Elem(), f))
	case gopoet.KindArray:
		return gopoet.ArrayType(mapSyms(t.Elem(), f), t.Len())
	case gopoet.KindMap:
		k := mapSyms(t.Key(), f)
		return gopoet.MapType(k, mapSyms(t.Elem(), f))
	case gopoet.KindChan:
		return gopoet.ChannelType(mapSyms(t.Elem(), f), t.Dir())
	case gopoet.KindFunc:
		s := mapSig(t.Signature(), f)
		return gopoet.FuncTypeFromSig(&s)
	case gopoet.KindStruct:
		var fs []gopoet.FieldType
		for _, fl := range t.Fields() {
			fs = append(fs, gopoet.FieldType{Name: fl.Name, Type: mapSyms(fl.Type, f), Tag: fl.Tag})
		}
		return gopoet.StructType(fs...)
	case gopoet.KindInterface:
		var es []gopoet.Symbol
		for _, e := range t.Embeds() {
			es = append(es, f(e))
		}
		var ms []gopoet.MethodType
		for _, m := range t.Methods() {
			ms = append(ms, gopoet.MethodType{Name: m.Name, Signature: mapSig(&m.Signature, f)})
		}
		return gopoet.InterfaceType(es, ms...)
	}
	return t
}

func mapSig(s *gopoet.Signature, f func(gopoet.Symbol) gopoet.Symbol) gopoet.Signature {
	r := gopoet.Signature{IsVariadic: s.IsVariadic}
	for _, a := range s.Args {
		r.Args = append(r.Args, gopoet.ArgType{Name: a.Name, Type: mapSyms(a.Type, f)})
	}
	for _, a := range s.Results {
		r.Results = append(r.Results, gopoet.ArgType{Name: a.Name, Type: mapSyms(a.Type, f)})
	}
	return r
}

// symsOf lists the references in a type in source order.
func symsOf(t gopoet.TypeName) []gopoet.Symbol {
	var ret []gopoet.Symbol
	mapSyms(t, func(s gopoet.Symbol) gopoet.Symbol { ret = append(ret, s); return s })
	return ret
}
