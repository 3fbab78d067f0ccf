package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"reflect"
	"strconv"

	"github.com/jhump/gopoet"
)

// parseType reads a Go type expression.
func parseType(text string) (ast.Expr, bool) {
	e, err := parser.ParseExpr("[]" + text)
	if err != nil {
		return nil, false
	}
	a, ok := e.(*ast.ArrayType)
	if !ok || a.Len != nil {
		return nil, false
	}
	return a.Elt, true
}

// matchSym says whether the expression refers to the symbol through its
// package's name.
func matchSym(e ast.Expr, s gopoet.Symbol) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return s.Package.Name == "" && e.Name == s.Name
	case *ast.SelectorExpr:
		x, ok := e.X.(*ast.Ident)
		return ok && s.Package.Name != "" && x.Name == s.Package.Name && e.Sel.Name == s.Name
	}
	return false
}

var basicNames = map[string]reflect.Kind{
	"bool": reflect.Bool, "string": reflect.String, "int": reflect.Int, "int8": reflect.Int8, "int16": reflect.Int16, "int32": reflect.Int32, "rune": reflect.Int32, "int64": reflect.Int64,
	"uint": reflect.Uint, "uint8": reflect.Uint8, "byte": reflect.Uint8, "uint16": reflect.Uint16, "uint32": reflect.Uint32, "uint64": reflect.Uint64, "uintptr": reflect.Uintptr,
	"float32": reflect.Float32, "float64": reflect.Float64, "complex64": reflect.Complex64, "complex128": reflect.Complex128,
}

// matchType says whether the expression denotes exactly the type.
func matchType(e ast.Expr, t gopoet.TypeName) bool {
	if p, ok := e.(*ast.ParenExpr); ok {
		return matchType(p.X, t)
	}
	switch t.Kind() {
	case gopoet.KindBasic:
		id, ok := e.(*ast.Ident)
		return ok && basicNames[id.Name] == t.BasicKind() && basicNames[id.Name] != reflect.Invalid
	case gopoet.KindNamed:
		return matchSym(e, t.Symbol())
	case gopoet.KindPtr:
		s, ok := e.(*ast.StarExpr)
		return ok && matchType(s.X, t.Elem())
	case gopoet.KindSlice:
		a, ok := e.(*ast.ArrayType)
		return ok && a.Len == nil && matchType(a.Elt, t.Elem())
	case gopoet.KindArray:
		a, ok := e.(*ast.ArrayType)
		if !ok {
			return false
		}
		l, ok := a.Len.(*ast.BasicLit)
		if !ok || l.Kind != token.INT {
			return false
		}
		n, err := strconv.ParseInt(l.Value, 10, 64)
		return err == nil && n == t.Len() && matchType(a.Elt, t.Elem())
	case gopoet.KindMap:
		m, ok := e.(*ast.MapType)
		return ok && matchType(m.Key, t.Key()) && matchType(m.Value, t.Elem())
	case gopoet.KindChan:
		c, ok := e.(*ast.ChanType)
		if !ok {
			return false
		}
		var want ast.ChanDir
		if t.Dir()&reflect.SendDir != 0 {
			want |= ast.SEND
		}
		if t.Dir()&reflect.RecvDir != 0 {
			want |= ast.RECV
		}
		return c.Dir == want && matchType(c.Value, t.Elem())
	case gopoet.KindFunc:
		f, ok := e.(*ast.FuncType)
		return ok && matchSig(f, t.Signature())
	case gopoet.KindStruct:
		s, ok := e.(*ast.StructType)
		return ok && matchFields(s.Fields.List, t.Fields())
	case gopoet.KindInterface:
		i, ok := e.(*ast.InterfaceType)
		if !ok {
			return false
		}
		es, ms := t.Embeds(), t.Methods()
		if len(i.Methods.List) != len(es)+len(ms) {
			return false
		}
		for k, f := range i.Methods.List {
			if k < len(es) {
				if len(f.Names) != 0 || !matchSym(f.Type, es[k]) {
					return false
				}
				continue
			}
			m := ms[k-len(es)]
			ft, ok := f.Type.(*ast.FuncType)
			if !ok || len(f.Names) != 1 || f.Names[0].Name != m.Name || !matchSig(ft, &m.Signature) {
				return false
			}
		}
		return true
	}
	return false
}

func matchFields(list []*ast.Field, fields []gopoet.FieldType) bool {
	if len(list) != len(fields) {
		return false
	}
	for k, f := range list {
		w := fields[k]
		if !matchTag(f.Tag, string(w.Tag)) || !matchType(f.Type, w.Type) {
			return false
		}
		if w.Name == "" {
			if len(f.Names) != 0 {
				return false
			}
		} else if len(f.Names) != 1 || f.Names[0].Name != w.Name {
			return false
		}
	}
	return true
}

func matchTag(l *ast.BasicLit, tag string) bool {
	if l == nil {
		return tag == ""
	}
	if tag == "" || l.Kind != token.STRING {
		return false
	}
	s, err := strconv.Unquote(l.Value)
	return err == nil && s == tag
}

func matchSig(f *ast.FuncType, s *gopoet.Signature) bool {
	if f.TypeParams != nil {
		return false
	}
	var res []*ast.Field
	if f.Results != nil {
		res = f.Results.List
	}
	return matchArgs(f.Params.List, s.Args, s.IsVariadic) && matchArgs(res, s.Results, false)
}

// matchArgs matches parameters or results. If any has a name, the unnamed ones
// are blank.
func matchArgs(list []*ast.Field, args []gopoet.ArgType, variadic bool) bool {
	named := false
	for _, a := range args {
		if a.Name != "" {
			named = true
		}
	}
	i := 0
	for _, f := range list {
		n := len(f.Names)
		if (n > 0) != named {
			return false
		}
		for k := 0; k == 0 || k < n; k++ {
			if i >= len(args) {
				return false
			}
			a := args[i]
			if named {
				want := a.Name
				if want == "" {
					want = "_"
				}
				if f.Names[k].Name != want {
					return false
				}
			}
			t := a.Type
			e := f.Type
			if el, ok := e.(*ast.Ellipsis); ok {
				if !variadic || i != len(args)-1 {
					return false
				}
				t, e = t.Elem(), el.Elt
			} else if variadic && i == len(args)-1 {
				return false
			}
			if !matchType(e, t) {
				return false
			}
			i++
		}
	}
	return i == len(args)
}
