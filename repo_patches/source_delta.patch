From 2bc948d3f7711bb05bba0a5716654fa26f9ee073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 01/37] fix: parenthesize a receive-only channel that is the
 element of a bi-directional channel

---
 types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index a811c6a..a6442c0 100644
--- a/types.go
+++ b/types.go
@@ -859,7 +859,14 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString("<-")
 		}
 		b.WriteRune(' ')
-		typeNameToBuffer(tn.Elem(), b)
+		if tn.Dir() == reflect.BothDir && tn.Elem().Kind() == KindChan && tn.Elem().Dir() == reflect.RecvDir {
+			// without parentheses, the arrow would bind to the outer channel
+			b.WriteRune('(')
+			typeNameToBuffer(tn.Elem(), b)
+			b.WriteRune(')')
+		} else {
+			typeNameToBuffer(tn.Elem(), b)
+		}
 	case KindFunc:
 		b.WriteString("func")
 		signatureToBuffer(tn.Signature(), b)
-- 
2.43.0


From e9dcf66c1b5864735735d166992ecc96010b0093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 02/37] fix: separate the embeds and the methods of an
 interface type's text

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index a6442c0..24d7d76 100644
--- a/types.go
+++ b/types.go
@@ -907,7 +907,7 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString(emb.Name)
 		}
 		for i, mtd := range tn.Methods() {
-			if i > 0 {
+			if i > 0 || len(tn.Embeds()) > 0 {
 				b.WriteString("; ")
 			}
 			b.WriteString(mtd.Name)
-- 
2.43.0


From 85ff9a10a1f808b6a8a346a97bc1e38aa9d3b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 03/37] fix: keep result types when converting a reflect func
 type

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 24d7d76..c68b524 100644
--- a/types.go
+++ b/types.go
@@ -624,7 +624,7 @@ func signatureFromReflectType(t reflect.Type, sig *Signature) {
 	}
 	sig.Results = make([]ArgType, t.NumOut())
 	for i := 0; i < t.NumOut(); i++ {
-		sig.Args[i] = ArgType{
+		sig.Results[i] = ArgType{
 			Type: TypeNameForReflectType(t.Out(i)),
 		}
 	}
-- 
2.43.0


From 0eb74187144a8452c992a74265d3fdf00c6ef679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 04/37] fix: keep embedded fields embedded when converting a
 reflect struct type

---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index c68b524..97cd959 100644
--- a/types.go
+++ b/types.go
@@ -592,8 +592,12 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 		fields := make([]FieldType, t.NumField())
 		for i := 0; i < t.NumField(); i++ {
 			field := t.Field(i)
+			var name string
+			if !field.Anonymous {
+				name = field.Name
+			}
 			fields[i] = FieldType{
-				Name: field.Name,
+				Name: name,
 				Type: TypeNameForReflectType(field.Type),
 				Tag:  field.Tag,
 			}
-- 
2.43.0


From fd8d1dff18a6eaa7090172efc277d138c3c34f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 05/37] fix: convert reflect map types

---
 types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types.go b/types.go
index 97cd959..ba92805 100644
--- a/types.go
+++ b/types.go
@@ -580,6 +580,9 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 	case reflect.Array:
 		return ArrayType(TypeNameForReflectType(t.Elem()), int64(t.Len()))
 
+	case reflect.Map:
+		return MapType(TypeNameForReflectType(t.Key()), TypeNameForReflectType(t.Elem()))
+
 	case reflect.Chan:
 		return ChannelType(TypeNameForReflectType(t.Elem()), t.ChanDir())
 
-- 
2.43.0


From 329138ca5d02b011e9608e2f48e4b1fce87bb078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 06/37] fix: convert predeclared go/types objects, which have
 no package

---
 model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 9dc510d..e3df954 100644
--- a/model.go
+++ b/model.go
@@ -64,8 +64,13 @@ func (p Package) String() string {
 }
 
 // PackageForGoType returns a Package for the given Go types package. This is
-// useful for converting between package representations.
+// useful for converting between package representations. If the given package
+// is nil, as is the case for predeclared objects and types like "error", then
+// the zero value is returned.
 func PackageForGoType(pkg *types.Package) Package {
+	if pkg == nil {
+		return Package{}
+	}
 	return Package{
 		Name:       pkg.Name(),
 		ImportPath: pkg.Path(),
-- 
2.43.0


From 10937ee000f1e3f896ff2b6918c96b3948ae2a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 07/37] fix: write to the first entry of a non-empty GOPATH
 instead of always failing

---
 model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model.go b/model.go
index e3df954..37fa4ee 100644
--- a/model.go
+++ b/model.go
@@ -271,7 +271,7 @@ func WriteGoFilesToGoPath(files ...*GoFile) error {
 		return errors.New("GOPATH is empty")
 	}
 	paths := strings.Split(gopath, string(filepath.ListSeparator))
-	if len(paths) != 0 {
+	if len(paths) == 0 {
 		return errors.New("GOPATH is empty")
 	}
 	return WriteGoFilesToFileSystem(paths[0], files...)
-- 
2.43.0


From d34ed62d901506c067fe164c1e85009a6cead0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 08/37] fix: report a failure to close a written file

---
 model.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index 37fa4ee..1a2571e 100644
--- a/model.go
+++ b/model.go
@@ -236,8 +236,12 @@ func WriteGoFiles(outFn func(path string) (io.WriteCloser, error), files ...*GoF
 		if err != nil {
 			return err
 		}
-		err = func() error {
-			defer w.Close()
+		err = func() (err error) {
+			defer func() {
+				if closeErr := w.Close(); err == nil {
+					err = closeErr
+				}
+			}()
 			return WriteGoFile(w, file)
 		}()
 		if err != nil {
-- 
2.43.0


From 04bad7f7bb7e7f5ab9d90349b808e5a613533655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 09/37] fix: accept a correctly encoded replacement character
 in names

---
 names.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/names.go b/names.go
index 856c3d5..469c65b 100644
--- a/names.go
+++ b/names.go
@@ -14,7 +14,7 @@ func Unexport(s string) string {
 		return s
 	}
 	r, sz := utf8.DecodeRuneInString(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && sz <= 1 {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	r = unicode.ToLower(r)
@@ -32,7 +32,7 @@ func Export(s string) string {
 		return s
 	}
 	r, sz := utf8.DecodeRuneInString(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && sz <= 1 {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	if unicode.IsUpper(r) {
-- 
2.43.0


From 2f0bcffb475a5b78900d8ec700feaa494a4c6d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:54 +0000
Subject: [PATCH 10/37] fix: prefix names whose first character has a case
 mapping but is no letter

---
 names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/names.go b/names.go
index 469c65b..7cc2314 100644
--- a/names.go
+++ b/names.go
@@ -39,7 +39,7 @@ func Export(s string) string {
 		return s // already exported
 	}
 	upperR := unicode.ToUpper(r)
-	if upperR == r {
+	if !unicode.IsUpper(upperR) {
 		if r == '_' {
 			return "X" + s[sz:]
 		}
-- 
2.43.0


From dec0a1cdea529ebfdafa03e7514a6f0e721803e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 11/37] fix: derive a valid identifier when an import path is
 used as package alias

---
 imports.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/imports.go b/imports.go
index 6a159ae..199e95a 100644
--- a/imports.go
+++ b/imports.go
@@ -2,10 +2,14 @@ package gopoet
 
 import (
 	"fmt"
+	"go/token"
 	"path"
 	"reflect"
 	"sort"
 	"strconv"
+	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // Imports accumulate a set of package imports, used for generating a Go source
@@ -81,7 +85,7 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 
 	p := packageName
 	if packageName == "" {
-		p = path.Base(importPath)
+		p = aliasForPath(importPath)
 	}
 	pkgBase := p
 	suffix := 1
@@ -103,6 +107,26 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 	}
 }
 
+// aliasForPath derives a package alias from the last element of the given import
+// path. Since path elements need not be valid identifiers, other characters are
+// replaced with underscores.
+func aliasForPath(importPath string) string {
+	alias := strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, path.Base(importPath))
+	if strings.Trim(alias, "_") == "" {
+		return "pkg"
+	}
+	first, _ := utf8.DecodeRuneInString(alias)
+	if unicode.IsDigit(first) || alias == "init" || token.Lookup(alias).IsKeyword() {
+		return "_" + alias
+	}
+	return alias
+}
+
 // EnsureImported ensures that the given symbol is imported and returns a new
 // symbol that has the correct package prefix (based on how the given symbol's
 // package was imported/aliased). If the symbol is already in Imports source
-- 
2.43.0


From a05f3ef0bb05a3b47d016fff7f06f60e4fec0ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 12/37] fix: qualify and import references to declared types
 used as const, var or field types

---
 model.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/model.go b/model.go
index 1a2571e..ae39123 100644
--- a/model.go
+++ b/model.go
@@ -496,7 +496,12 @@ func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
 	case TypeName:
 		return imports.EnsureTypeImported(t)
 	case *TypeSpec:
-		t.qualify(imports)
+		if t.Name == "" {
+			t.qualify(imports)
+		} else if t.parent != nil {
+			// just a reference to the type, which is declared elsewhere
+			return imports.EnsureTypeImported(t.ToTypeName())
+		}
 		return t
 	default:
 		panic(fmt.Sprintf("unrecognized type %T", t))
@@ -1137,12 +1142,7 @@ func (t *TypeSpec) isTypeNameOrSpec() {}
 func (t *TypeSpec) qualify(imports *Imports) {
 	t.underlying = imports.EnsureTypeImported(t.underlying)
 	for _, fs := range t.structBody {
-		switch t := fs.Type.(type) {
-		case TypeName:
-			fs.Type = imports.EnsureTypeImported(t)
-		case *TypeSpec:
-			t.qualify(imports)
-		}
+		fs.Type = qualifyType(imports, fs.Type)
 	}
 	for _, ie := range t.interfaceBody {
 		ie.qualify(imports)
-- 
2.43.0


From 02e5b8eda7dbe306c61488ecfae6173316f58291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 13/37] fix: keep the tag of a field with an unnamed struct or
 interface type on the field's line

---
 model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index ae39123..660f486 100644
--- a/model.go
+++ b/model.go
@@ -1159,6 +1159,7 @@ func (t *TypeSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 		b.WriteString("= ")
 	}
 	t.writeUnderlying(b)
+	b.WriteRune('\n')
 }
 
 func (t *TypeSpec) writeUnderlying(b *bytes.Buffer) {
@@ -1168,17 +1169,16 @@ func (t *TypeSpec) writeUnderlying(b *bytes.Buffer) {
 		for _, f := range t.structBody {
 			f.writeTo(b)
 		}
-		b.WriteString("}\n")
+		b.WriteRune('}')
 	case KindInterface:
 		b.WriteString(" interface {\n")
 		for _, el := range t.interfaceBody {
 			el.writeTo(b)
 		}
-		b.WriteString("}\n")
+		b.WriteRune('}')
 	default:
 		b.WriteRune(' ')
 		typeNameToBuffer(t.underlying, b)
-		b.WriteRune('\n')
 	}
 }
 
-- 
2.43.0


From 7864ab74cbf59dbfc0c91d5d04b6d2361d15b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 14/37] fix: render methods used in code as their name,
 whatever their package's qualifier

---
 code.go      | 19 ++++---------------
 templates.go |  3 ++-
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/code.go b/code.go
index 672132a..0b75d09 100644
--- a/code.go
+++ b/code.go
@@ -173,22 +173,11 @@ func (l line) qualify(imports *Imports) {
 			l.args[i] = imports.EnsureImported(a.ToSymbol())
 		case *TypeSpec:
 			l.args[i] = imports.EnsureImported(a.ToSymbol())
-		case *InterfaceMethod:
-			mr := a.ToMethodRef()
-			sym := imports.EnsureImported(mr.Type)
-			if sym != mr.Type {
-				l.args[i] = &MethodReference{Type: sym, Method: mr.Method}
-			}
 		case *FuncSpec:
-			symOrMr := a.ToSymbol()
-			switch sm := symOrMr.(type) {
-			case Symbol:
-				l.args[i] = imports.EnsureImported(sm)
-			case MethodReference:
-				sym := imports.EnsureImported(sm.Type)
-				if sym != sm.Type {
-					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
-				}
+			// methods (and interface methods, too) are rendered as just their
+			// name, like for a method invocation, so need no import
+			if a.Receiver == nil {
+				l.args[i] = imports.EnsureImported(a.ToSymbol().(Symbol))
 			}
 		case reflect.Type:
 			t := TypeNameForReflectType(a)
diff --git a/templates.go b/templates.go
index c0f8302..13cc43c 100644
--- a/templates.go
+++ b/templates.go
@@ -123,7 +123,8 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				}
 			}
 		case FuncSpec:
-			if t.parent != nil {
+			// methods are rendered as just their name, so need no import
+			if t.parent != nil && t.Receiver == nil {
 				oldPkg := t.parent.PackageName
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
-- 
2.43.0


From 97eaecccf7b34c268b81f1685d3cf7c4b577a5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 15/37] fix: render go/types methods used in code as method
 references, aliased or not

---
 code.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/code.go b/code.go
index 0b75d09..e759323 100644
--- a/code.go
+++ b/code.go
@@ -192,9 +192,7 @@ func (l line) qualify(imports *Imports) {
 				l.args[i] = imports.EnsureImported(sm)
 			case MethodReference:
 				sym := imports.EnsureImported(sm.Type)
-				if sym != sm.Type {
-					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
-				}
+				l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
 			}
 		case *types.Package:
 			p := PackageForGoType(a)
-- 
2.43.0


From 4781e7e287bcc68a8e790b4e56ae2d3d7f1267d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 16/37] fix: leave the model alone when rendering a file so
 that other files can share it

---
 code.go  | 20 +++++++++-----
 model.go | 80 +++++++++++++++++++++++++++++++++++++-------------------
 2 files changed, 66 insertions(+), 34 deletions(-)

diff --git a/code.go b/code.go
index e759323..85e85bf 100644
--- a/code.go
+++ b/code.go
@@ -29,7 +29,7 @@ type CodeBlock struct {
 type codeElement interface {
 	isCodeElement()
 	writeTo(b *bytes.Buffer)
-	qualify(imports *Imports)
+	qualify(imports *Imports) codeElement
 }
 
 // Print adds the given text to the code block. It returns the code block, for
@@ -109,10 +109,14 @@ func RenderCode(template *template.Template, data interface{}) *CodeBlock {
 	return (&CodeBlock{}).RenderCode(template, data)
 }
 
-func (cb *CodeBlock) qualify(imports *Imports) {
-	for _, e := range cb.elements {
-		e.qualify(imports)
+// qualify returns a copy of the code block with qualified references. The code
+// block itself is left alone since it can be used in other files, too.
+func (cb *CodeBlock) qualify(imports *Imports) *CodeBlock {
+	elements := make([]codeElement, len(cb.elements))
+	for i, e := range cb.elements {
+		elements[i] = e.qualify(imports)
 	}
+	return &CodeBlock{elements: elements}
 }
 
 func (cb *CodeBlock) writeTo(b *bytes.Buffer) {
@@ -134,7 +138,8 @@ func (l line) writeTo(b *bytes.Buffer) {
 	fmt.Fprintf(b, l.format, l.args...)
 }
 
-func (l line) qualify(imports *Imports) {
+func (l line) qualify(imports *Imports) codeElement {
+	l.args = append([]interface{}(nil), l.args...)
 	for i := range l.args {
 		switch a := l.args[i].(type) {
 		case Package:
@@ -199,6 +204,7 @@ func (l line) qualify(imports *Imports) {
 			l.args[i] = imports.registerPackage(p)
 		}
 	}
+	return l
 }
 
 // templ represents a template and data value, which will be rendered to a code
@@ -217,6 +223,6 @@ func (t *templ) writeTo(b *bytes.Buffer) {
 	}
 }
 
-func (t *templ) qualify(imports *Imports) {
-	t.data = imports.QualifyTemplateData(t.data)
+func (t *templ) qualify(imports *Imports) codeElement {
+	return &templ{templ: t.templ, data: imports.QualifyTemplateData(t.data)}
 }
diff --git a/model.go b/model.go
index 660f486..91ac27a 100644
--- a/model.go
+++ b/model.go
@@ -199,14 +199,16 @@ func (e *FormatError) Error() string {
 //
 // The formatted code is then written to the given io.Writer.
 func WriteGoFile(w io.Writer, f *GoFile) error {
-	// make sure all package references are properly qualified for
+	// make sure all package references are properly qualified for this file;
+	// this makes copies since parts of the elements may be used in other files
+	elements := make([]FileElement, len(f.elements))
 	for i := range f.elements {
-		f.elements[i].qualify(&f.Imports)
+		elements[i] = f.elements[i].qualify(&f.Imports)
 	}
 
 	// now we generate the code
 	var buf bytes.Buffer
-	if err := f.writeTo(&buf); err != nil {
+	if err := f.writeTo(&buf, elements); err != nil {
 		return err
 	}
 	// format it
@@ -349,7 +351,7 @@ func (f *GoFile) Package() Package {
 	}
 }
 
-func (f *GoFile) writeTo(w *bytes.Buffer) error {
+func (f *GoFile) writeTo(w *bytes.Buffer, elements []FileElement) error {
 	writeComment(f.FileComment, w)
 	if f.FileComment != "" {
 		// separate file comment from package doc
@@ -375,7 +377,7 @@ func (f *GoFile) writeTo(w *bytes.Buffer) error {
 	}
 
 	// now we print all of the file elements
-	for _, el := range f.elements {
+	for _, el := range elements {
 		w.WriteRune('\n')
 		el.writeTo(w)
 	}
@@ -400,7 +402,7 @@ type FileElement interface {
 	isFileElement()
 	writeTo(b *bytes.Buffer)
 	setParent(*GoFile)
-	qualify(imports *Imports)
+	qualify(imports *Imports) FileElement
 }
 
 // ConstDecl is a FileElement representing a declaration of one or more consts.
@@ -480,13 +482,17 @@ func (c *ConstDecl) setParent(f *GoFile) {
 	}
 }
 
-func (c *ConstDecl) qualify(imports *Imports) {
-	for _, cs := range c.Consts {
+func (c *ConstDecl) qualify(imports *Imports) FileElement {
+	ret := &ConstDecl{Comment: c.Comment, Consts: make([]*ConstSpec, len(c.Consts))}
+	for i := range c.Consts {
+		cs := *c.Consts[i]
 		cs.Type = qualifyType(imports, cs.Type)
 		if cs.Initializer != nil {
-			cs.Initializer.qualify(imports)
+			cs.Initializer = cs.Initializer.qualify(imports)
 		}
+		ret.Consts[i] = &cs
 	}
+	return ret
 }
 
 func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
@@ -497,7 +503,7 @@ func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
 		return imports.EnsureTypeImported(t)
 	case *TypeSpec:
 		if t.Name == "" {
-			t.qualify(imports)
+			return t.qualify(imports)
 		} else if t.parent != nil {
 			// just a reference to the type, which is declared elsewhere
 			return imports.EnsureTypeImported(t.ToTypeName())
@@ -721,13 +727,17 @@ func (v *VarDecl) setParent(f *GoFile) {
 	}
 }
 
-func (v *VarDecl) qualify(imports *Imports) {
-	for _, vs := range v.Vars {
+func (v *VarDecl) qualify(imports *Imports) FileElement {
+	ret := &VarDecl{Comment: v.Comment, Vars: make([]*VarSpec, len(v.Vars))}
+	for i := range v.Vars {
+		vs := *v.Vars[i]
 		vs.Type = qualifyType(imports, vs.Type)
 		if vs.Initializer != nil {
-			vs.Initializer.qualify(imports)
+			vs.Initializer = vs.Initializer.qualify(imports)
 		}
+		ret.Vars[i] = &vs
 	}
+	return ret
 }
 
 // VarSpec describes a single var expression (which can actually identify more
@@ -927,10 +937,12 @@ func (t *TypeDecl) setParent(f *GoFile) {
 	}
 }
 
-func (t *TypeDecl) qualify(imports *Imports) {
-	for _, ts := range t.Types {
-		ts.qualify(imports)
+func (t *TypeDecl) qualify(imports *Imports) FileElement {
+	ret := &TypeDecl{Comment: t.Comment, Types: make([]*TypeSpec, len(t.Types))}
+	for i, ts := range t.Types {
+		ret.Types[i] = ts.qualify(imports)
 	}
+	return ret
 }
 
 // TypeSpec describes a single type. The underlying type is not optional and not
@@ -1139,14 +1151,29 @@ func (t *TypeSpec) setParent(f *GoFile) {
 
 func (t *TypeSpec) isTypeNameOrSpec() {}
 
-func (t *TypeSpec) qualify(imports *Imports) {
-	t.underlying = imports.EnsureTypeImported(t.underlying)
-	for _, fs := range t.structBody {
+func (t *TypeSpec) qualify(imports *Imports) *TypeSpec {
+	ret := *t
+	ret.underlying = imports.EnsureTypeImported(t.underlying)
+	ret.structBody = make([]*FieldSpec, len(t.structBody))
+	for i := range t.structBody {
+		fs := *t.structBody[i]
 		fs.Type = qualifyType(imports, fs.Type)
+		ret.structBody[i] = &fs
 	}
-	for _, ie := range t.interfaceBody {
-		ie.qualify(imports)
+	ret.interfaceBody = make([]InterfaceElement, len(t.interfaceBody))
+	for i, ie := range t.interfaceBody {
+		switch ie := ie.(type) {
+		case *InterfaceEmbed:
+			embed := *ie
+			embed.qualify(imports)
+			ret.interfaceBody[i] = &embed
+		case *InterfaceMethod:
+			method := *ie
+			method.qualify(imports)
+			ret.interfaceBody[i] = &method
+		}
 	}
+	return &ret
 }
 
 func (t *TypeSpec) writeTo(b *bytes.Buffer, includeComment bool) {
@@ -1634,12 +1661,11 @@ func (f *FuncSpec) setParent(file *GoFile) {
 	f.parent = file
 }
 
-func (f *FuncSpec) qualify(imports *Imports) {
-	newSig := imports.EnsureAllTypesImported(&f.Signature)
-	if newSig != &f.Signature {
-		f.Signature = *newSig
-	}
-	f.CodeBlock.qualify(imports)
+func (f *FuncSpec) qualify(imports *Imports) FileElement {
+	ret := *f
+	ret.Signature = *imports.EnsureAllTypesImported(&f.Signature)
+	ret.CodeBlock = *f.CodeBlock.qualify(imports)
+	return &ret
 }
 
 // ReceiverSpec describes the receiver for a method definition. Unlike an
-- 
2.43.0


From 94096ecace7e33322c1574c323f3ea50d36033e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 17/37] fix: render go/types packages used in code like any
 other package

---
 code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code.go b/code.go
index 85e85bf..bdaa183 100644
--- a/code.go
+++ b/code.go
@@ -201,7 +201,7 @@ func (l line) qualify(imports *Imports) codeElement {
 			}
 		case *types.Package:
 			p := PackageForGoType(a)
-			l.args[i] = imports.registerPackage(p)
+			l.args[i] = Package{Name: imports.registerPackage(p), ImportPath: p.ImportPath}
 		}
 	}
 	return l
-- 
2.43.0


From 03db6711c79ca22cc2ccd1f0ef5d0a07efe2050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 18/37] fix: qualify template data with unexported fields in
 structs that are not addressable

---
 templates.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/templates.go b/templates.go
index 13cc43c..329f142 100644
--- a/templates.go
+++ b/templates.go
@@ -147,26 +147,28 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 			// intentionally do not touch these
 		default:
 			var newStruct reflect.Value
-			for i := 0; i < data.NumField(); i++ {
-				var newV reflect.Value
-				var changedV bool
-				fld, ok := getField(data, i)
+			src := data
+			if !src.CanAddr() {
+				// unexported fields are only accessible in an addressable struct
+				src = reflect.New(data.Type()).Elem()
+				src.Set(data)
+			}
+			for i := 0; i < src.NumField(); i++ {
+				fld, ok := getField(src, i)
 				if !ok {
 					// do not recurse
-					newV = data.Field(i)
-					changedV = false
-				} else {
-					newV, changedV = qualifyTemplateData(imports, fld)
+					continue
+				}
+				newV, changedV := qualifyTemplateData(imports, fld)
+				if !changedV {
+					continue
 				}
-				if newStruct.IsValid() {
-					newStruct.Field(i).Set(newV)
-				} else if changedV {
+				if !newStruct.IsValid() {
 					newStruct = reflect.New(data.Type()).Elem()
-					for j := 0; j < i; j++ {
-						newStruct.Field(j).Set(data.Field(j))
-					}
-					newStruct.Field(i).Set(newV)
+					newStruct.Set(data)
 				}
+				newFld, _ := getField(newStruct, i)
+				newFld.Set(newV)
 			}
 			if newStruct.IsValid() {
 				return newStruct, true
-- 
2.43.0


From 09d7a47f377ce491f68fc09e17904f4b8d77dc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 19/37] fix: qualify template data with arrays that are not
 addressable

---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 329f142..66bd391 100644
--- a/templates.go
+++ b/templates.go
@@ -197,7 +197,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				} else {
 					newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
 				}
-				reflect.Copy(newArray, data.Slice(0, i))
+				reflect.Copy(newArray, data)
 				newArray.Index(i).Set(newV)
 			}
 		}
-- 
2.43.0


From 6e05bf014c0259d9ac0af96070b65830641c86b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 20/37] fix: convert go/types and reflect values in template
 data even if their qualifier is unchanged

---
 templates.go | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/templates.go b/templates.go
index 66bd391..1bf6abe 100644
--- a/templates.go
+++ b/templates.go
@@ -19,36 +19,23 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				}
 			case reflect.Type:
 				origT := TypeNameForReflectType(d)
-				newT := imports.EnsureTypeImported(origT)
-				if newT != origT {
-					newRv = reflect.ValueOf(newT)
-				}
+				newRv = reflect.ValueOf(imports.EnsureTypeImported(origT))
 			case types.Type:
 				origT := TypeNameForGoType(d)
-				newT := imports.EnsureTypeImported(origT)
-				if newT != origT {
-					newRv = reflect.ValueOf(newT)
-				}
+				newRv = reflect.ValueOf(imports.EnsureTypeImported(origT))
 			case types.Object:
 				sym := SymbolForGoObject(d)
 				switch sym := sym.(type) {
 				case Symbol:
-					newSym := imports.EnsureImported(sym)
-					if newSym != sym {
-						newRv = reflect.ValueOf(newSym)
-					}
+					newRv = reflect.ValueOf(imports.EnsureImported(sym))
 				case MethodReference:
 					newSym := imports.EnsureImported(sym.Type)
-					if newSym != sym.Type {
-						newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})
-					}
+					newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})
 				}
 			case *types.Package:
 				origP := PackageForGoType(d)
 				newP := imports.registerPackage(origP)
-				if newP != origP.Name {
-					newRv = reflect.ValueOf(Package{Name: newP, ImportPath: origP.ImportPath})
-				}
+				newRv = reflect.ValueOf(Package{Name: newP, ImportPath: origP.ImportPath})
 			default:
 				qualified = false
 			}
-- 
2.43.0


From b94cc7f59b483dd6bfd2174465fb25a25a962e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 21/37] fix: do not recurse into go/types values in template
 data

---
 templates.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/templates.go b/templates.go
index 1bf6abe..aa31287 100644
--- a/templates.go
+++ b/templates.go
@@ -163,6 +163,11 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		}
 
 	case reflect.Ptr:
+		switch reflect.Zero(data.Type()).Interface().(type) {
+		case types.Type, types.Object, *types.Package, *types.Scope:
+			// cannot be replaced here and must not be taken apart
+			return data, false
+		}
 		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
 			if newElem.CanAddr() {
 				return newElem.Addr(), true
-- 
2.43.0


From 958499d16591f6a8db7a214e04a8e9a27694f315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 22/37] fix: keep the import path of declared elements in
 qualified template data

---
 templates.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/templates.go b/templates.go
index aa31287..6192d97 100644
--- a/templates.go
+++ b/templates.go
@@ -85,7 +85,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newCs := t
-					newCs.parent = &GoFile{PackageName: newPkg}
+					newCs.parent = &GoFile{PackageName: newPkg, Imports: Imports{pkgPath: t.parent.pkgPath}}
 					return reflect.ValueOf(&newCs).Elem(), true
 				}
 			}
@@ -95,7 +95,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newVs := t
-					newVs.parent = &GoFile{PackageName: newPkg}
+					newVs.parent = &GoFile{PackageName: newPkg, Imports: Imports{pkgPath: t.parent.pkgPath}}
 					return reflect.ValueOf(&newVs).Elem(), true
 				}
 			}
@@ -105,7 +105,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newTs := t
-					newTs.parent = &GoFile{PackageName: newPkg}
+					newTs.parent = &GoFile{PackageName: newPkg, Imports: Imports{pkgPath: t.parent.pkgPath}}
 					return reflect.ValueOf(&newTs).Elem(), true
 				}
 			}
@@ -116,7 +116,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newFs := t
-					newFs.parent = &GoFile{PackageName: newPkg}
+					newFs.parent = &GoFile{PackageName: newPkg, Imports: Imports{pkgPath: t.parent.pkgPath}}
 					return reflect.ValueOf(&newFs).Elem(), true
 				}
 			}
-- 
2.43.0


From 4e0ee8e2b40366c91ff96f8cf097da2b43068001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 23/37] fix: qualify the entries of maps in template data in a
 fixed order

---
 templates.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 6192d97..c1637c7 100644
--- a/templates.go
+++ b/templates.go
@@ -1,8 +1,10 @@
 package gopoet
 
 import (
+	"fmt"
 	"go/types"
 	"reflect"
+	"sort"
 )
 
 func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
@@ -200,7 +202,12 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 	case reflect.Map:
 		var newMap reflect.Value
 		seenKeys := make([]reflect.Value, 0, data.Len())
-		for _, k := range data.MapKeys() {
+		keys := data.MapKeys()
+		// the order in which packages are registered must not vary
+		sort.Slice(keys, func(i, j int) bool {
+			return fmt.Sprintf("%#v", keys[i].Interface()) < fmt.Sprintf("%#v", keys[j].Interface())
+		})
+		for _, k := range keys {
 			newK, changedK := qualifyTemplateData(imports, k)
 			newV, changedV := qualifyTemplateData(imports, data.MapIndex(k))
 			if newMap.IsValid() {
-- 
2.43.0


From 82769d10225568062199d9685db5f329e20c03b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 24/37] fix: qualify template data with pointers to interfaces

---
 templates.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/templates.go b/templates.go
index c1637c7..1032947 100644
--- a/templates.go
+++ b/templates.go
@@ -171,12 +171,10 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 			return data, false
 		}
 		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
-			if newElem.CanAddr() {
-				return newElem.Addr(), true
-			}
-			dest := reflect.New(newElem.Type())
+			// NB: if the element is an interface, newElem has a concrete type
+			dest := reflect.New(data.Type().Elem())
 			dest.Elem().Set(newElem)
-			return dest, true
+			return dest.Convert(data.Type()), true
 		}
 
 	case reflect.Array, reflect.Slice:
-- 
2.43.0


From d5cd9b6fd90648e0566a863a5e492df33bdf340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 25/37] fix: qualify unnamed type specs used in code and
 template data

---
 code.go      | 2 +-
 templates.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/code.go b/code.go
index bdaa183..5aa4a8b 100644
--- a/code.go
+++ b/code.go
@@ -177,7 +177,7 @@ func (l line) qualify(imports *Imports) codeElement {
 		case *VarSpec:
 			l.args[i] = imports.EnsureImported(a.ToSymbol())
 		case *TypeSpec:
-			l.args[i] = imports.EnsureImported(a.ToSymbol())
+			l.args[i] = imports.EnsureTypeImported(a.ToTypeName())
 		case *FuncSpec:
 			// methods (and interface methods, too) are rendered as just their
 			// name, like for a method invocation, so need no import
diff --git a/templates.go b/templates.go
index 1032947..4e0029d 100644
--- a/templates.go
+++ b/templates.go
@@ -102,6 +102,10 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				}
 			}
 		case TypeSpec:
+			if t.Name == "" {
+				// unnamed types are rendered as their underlying type
+				return reflect.ValueOf(t.qualify(imports)).Elem(), true
+			}
 			if t.parent != nil {
 				oldPkg := t.parent.PackageName
 				newPkg := imports.registerPackage(t.parent.Package())
-- 
2.43.0


From f134c415b660b1b1a0f86bb2cae7b55759118d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 26/37] fix: do not import the zero value of Package found in
 code or template data

---
 imports.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/imports.go b/imports.go
index 199e95a..f94f846 100644
--- a/imports.go
+++ b/imports.go
@@ -47,6 +47,10 @@ func (i *Imports) RegisterImportForPackage(pkg Package) string {
 // the prefix (which includes a trailing dot if non-empty), it just returns the
 // package alias.
 func (i *Imports) registerPackage(pkg Package) string {
+	if pkg == (Package{}) {
+		// no package, like for predeclared symbols
+		return ""
+	}
 	p := i.RegisterImportForPackage(pkg)
 	if len(p) > 0 && p[len(p)-1] == '.' {
 		p = p[:len(p)-1]
-- 
2.43.0


From efc1dfd616ba99e266f6ccf345181186120cf2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 27/37] fix: prefix names whose first character is a combining
 mark

---
 names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/names.go b/names.go
index 7cc2314..993af3a 100644
--- a/names.go
+++ b/names.go
@@ -39,7 +39,7 @@ func Export(s string) string {
 		return s // already exported
 	}
 	upperR := unicode.ToUpper(r)
-	if !unicode.IsUpper(upperR) {
+	if !unicode.IsLetter(r) || !unicode.IsUpper(upperR) {
 		if r == '_' {
 			return "X" + s[sz:]
 		}
-- 
2.43.0


From a74f1fbee49c2bcbc2bd451d1c0073811bb4ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:50 +0000
Subject: [PATCH 28/37] fix: qualify embedded interfaces referenced in code
 blocks

---
 code.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code.go b/code.go
index 5aa4a8b..4ce2f10 100644
--- a/code.go
+++ b/code.go
@@ -184,6 +184,8 @@ func (l line) qualify(imports *Imports) codeElement {
 			if a.Receiver == nil {
 				l.args[i] = imports.EnsureImported(a.ToSymbol().(Symbol))
 			}
+		case *InterfaceEmbed:
+			l.args[i] = imports.EnsureImported(a.Type)
 		case reflect.Type:
 			t := TypeNameForReflectType(a)
 			l.args[i] = imports.EnsureTypeImported(t)
-- 
2.43.0


From 20572d290aef4dd03c3890203cfe1111aaf1c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 29/37] fix: keep the comments of unnamed types of consts and
 vars

---
 model.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index 91ac27a..b3d6956 100644
--- a/model.go
+++ b/model.go
@@ -514,6 +514,16 @@ func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
 	}
 }
 
+// writeType writes the type of a const or var. The bodies of unnamed structs and
+// interfaces are written along with their comments.
+func writeType(t TypeNameOrSpec, b *bytes.Buffer) {
+	if ts, ok := t.(*TypeSpec); ok && ts.Name == "" {
+		ts.writeUnderlying(b)
+	} else {
+		fmt.Fprintf(b, "%v", t)
+	}
+}
+
 // ConstSpec describes a single const expression (which can actually identify
 // more than one const). The Names field is not optional and must have at least
 // one value. Just like in Go source, the Type field is optional but the
@@ -641,7 +651,8 @@ func (c *ConstSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 	}
 	fmt.Fprintf(b, "%s", strings.Join(c.Names, ", "))
 	if c.Type != nil {
-		fmt.Fprintf(b, " %v", c.Type)
+		b.WriteRune(' ')
+		writeType(c.Type, b)
 	}
 	if c.Initializer != nil {
 		b.WriteString(" = ")
@@ -851,7 +862,8 @@ func (v *VarSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 	}
 	fmt.Fprintf(b, "%s", strings.Join(v.Names, ", "))
 	if v.Type != nil {
-		fmt.Fprintf(b, " %v", v.Type)
+		b.WriteRune(' ')
+		writeType(v.Type, b)
 	}
 	if v.Initializer != nil {
 		b.WriteString(" = ")
-- 
2.43.0


From 9efad22ac23aa38942ae1973c269a35baf2d3a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 30/37] fix: order map keys of several types in template data
 by type first

---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 4e0029d..c247010 100644
--- a/templates.go
+++ b/templates.go
@@ -207,7 +207,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		keys := data.MapKeys()
 		// the order in which packages are registered must not vary
 		sort.Slice(keys, func(i, j int) bool {
-			return fmt.Sprintf("%#v", keys[i].Interface()) < fmt.Sprintf("%#v", keys[j].Interface())
+			return fmt.Sprintf("%[1]T %#[1]v", keys[i].Interface()) < fmt.Sprintf("%[1]T %#[1]v", keys[j].Interface())
 		})
 		for _, k := range keys {
 			newK, changedK := qualifyTemplateData(imports, k)
-- 
2.43.0


From 52f90fb01c187c6e3b77f32ad17349b9977321d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:58 +0000
Subject: [PATCH 31/37] fix: FuncTypeFromSig and TypeName.Signature copy the
 signature, so that a function type does not change with it

---
 types.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index ba92805..1206959 100644
--- a/types.go
+++ b/types.go
@@ -153,6 +153,15 @@ func (s *Signature) SetVariadic(isVariadic bool) *Signature {
 	return s
 }
 
+// clone returns a copy of the signature that shares no lists with it.
+func (s *Signature) clone() Signature {
+	return Signature{
+		Args:       append([]ArgType(nil), s.Args...),
+		Results:    append([]ArgType(nil), s.Results...),
+		IsVariadic: s.IsVariadic,
+	}
+}
+
 // ArgType represents the name and type of a function argument or result value.
 // The name is optional, but the type is not. See Signature.
 type ArgType struct {
@@ -324,7 +333,7 @@ func (t *funcTypeName) Key() TypeName           { return nil }
 func (t *funcTypeName) Len() int64              { return -1 }
 func (t *funcTypeName) Dir() reflect.ChanDir    { return 0 }
 func (t *funcTypeName) BasicKind() reflect.Kind { return reflect.Invalid }
-func (t *funcTypeName) Signature() *Signature   { return (*Signature)(t) }
+func (t *funcTypeName) Signature() *Signature   { s := (*Signature)(t).clone(); return &s }
 func (t *funcTypeName) Fields() []FieldType     { return nil }
 func (t *funcTypeName) Methods() []MethodType   { return nil }
 func (t *funcTypeName) Embeds() []Symbol        { return nil }
@@ -742,7 +751,9 @@ func FuncTypeFromSig(sig *Signature) TypeName {
 	if sig.IsVariadic && (len(sig.Args) == 0 || sig.Args[len(sig.Args)-1].Type.Kind() != KindSlice) {
 		panic("cannot create a function type with variadic signature where last arg is not a slice")
 	}
-	return (*funcTypeName)(sig)
+	// the type must not change when the given signature does
+	s := sig.clone()
+	return (*funcTypeName)(&s)
 }
 
 // StructType returns a TypeName that represents an unnamed struct type with the
-- 
2.43.0


From f24e6db6d94adf45053bfb3e00cfd37151d61447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:59 +0000
Subject: [PATCH 32/37] fix: struct and interface types copy the lists of their
 parts, so that they do not change with them

---
 types.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/types.go b/types.go
index 1206959..0c324db 100644
--- a/types.go
+++ b/types.go
@@ -376,11 +376,20 @@ func (t *interfaceTypeName) Dir() reflect.ChanDir    { return 0 }
 func (t *interfaceTypeName) BasicKind() reflect.Kind { return reflect.Invalid }
 func (t *interfaceTypeName) Signature() *Signature   { return nil }
 func (t *interfaceTypeName) Fields() []FieldType     { return nil }
-func (t *interfaceTypeName) Methods() []MethodType   { return append([]MethodType{}, t.methods...) }
+func (t *interfaceTypeName) Methods() []MethodType   { return cloneMethods(t.methods) }
 func (t *interfaceTypeName) Embeds() []Symbol        { return append([]Symbol{}, t.embeds...) }
 func (t *interfaceTypeName) String() string          { return typeNameToString(t) }
 func (t *interfaceTypeName) isTypeNameOrSpec()       {}
 
+// cloneMethods returns copies of the methods that share no lists with them.
+func cloneMethods(methods []MethodType) []MethodType {
+	ret := make([]MethodType, len(methods))
+	for i, m := range methods {
+		ret[i] = MethodType{Name: m.Name, Signature: m.Signature.clone()}
+	}
+	return ret
+}
+
 var (
 	basicTypes = map[reflect.Kind]struct{}{
 		reflect.Bool:       {},
@@ -759,15 +768,15 @@ func FuncTypeFromSig(sig *Signature) TypeName {
 // StructType returns a TypeName that represents an unnamed struct type with the
 // given fields.
 func StructType(fields ...FieldType) TypeName {
-	return &structTypeName{fields: fields}
+	return &structTypeName{fields: append([]FieldType(nil), fields...)}
 }
 
 // InterfaceType returns a TypeName that represents an unnamed interface type
 // with the given embedded interfaces and explicit methods.
 func InterfaceType(embeds []Symbol, methods ...MethodType) TypeName {
 	return &interfaceTypeName{
-		methods: methods,
-		embeds:  embeds,
+		methods: cloneMethods(methods),
+		embeds:  append([]Symbol(nil), embeds...),
 	}
 }
 
-- 
2.43.0


From e91f552b7f664325b7019958a04b91470fb7c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 33/37] fix: constructors of declarations copy the lists given,
 so that elements do not share them

---
 model.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/model.go b/model.go
index b3d6956..4ba3b13 100644
--- a/model.go
+++ b/model.go
@@ -423,7 +423,7 @@ type ConstDecl struct {
 
 // NewConstDecl creates a new declaration for the given consts.
 func NewConstDecl(cs ...*ConstSpec) *ConstDecl {
-	return &ConstDecl{Consts: cs}
+	return &ConstDecl{Consts: append([]*ConstSpec(nil), cs...)}
 }
 
 // AddConst adds the given const to this declaration. This method returns the
@@ -554,7 +554,7 @@ type ConstSpec struct {
 
 // NewConst returns a new const expression with the given name(s).
 func NewConst(names ...string) *ConstSpec {
-	return &ConstSpec{Names: names}
+	return &ConstSpec{Names: append([]string(nil), names...)}
 }
 
 // SetComment sets the comment for this const expression. See
@@ -679,7 +679,7 @@ type VarDecl struct {
 
 // NewVarDecl creates a new declaration for the given vars.
 func NewVarDecl(vs ...*VarSpec) *VarDecl {
-	return &VarDecl{Vars: vs}
+	return &VarDecl{Vars: append([]*VarSpec(nil), vs...)}
 }
 
 // AddVar adds the given var to this declaration. This method returns the var
@@ -766,7 +766,7 @@ type VarSpec struct {
 
 // NewVar returns a new var expression that defines the given name(s).
 func NewVar(names ...string) *VarSpec {
-	return &VarSpec{Names: names}
+	return &VarSpec{Names: append([]string(nil), names...)}
 }
 
 // SetComment sets the comment for this var expression. See VarDecl.SetComment
@@ -890,7 +890,7 @@ type TypeDecl struct {
 
 // NewTypeDecl creates a new declaration for the given types.
 func NewTypeDecl(ts ...*TypeSpec) *TypeDecl {
-	return &TypeDecl{Types: ts}
+	return &TypeDecl{Types: append([]*TypeSpec(nil), ts...)}
 }
 
 // AddType adds the given type to this declaration. This method returns the type
@@ -1043,7 +1043,7 @@ func NewTypeSpec(typeName string, t TypeNameOrSpec) *TypeSpec {
 func NewStructTypeSpec(typeName string, fields ...*FieldSpec) *TypeSpec {
 	ret := &TypeSpec{
 		Name:       typeName,
-		structBody: fields,
+		structBody: append([]*FieldSpec(nil), fields...),
 	}
 	fieldTypes := make([]FieldType, len(fields))
 	for i, f := range fields {
@@ -1070,7 +1070,7 @@ func NewStructTypeSpec(typeName string, fields ...*FieldSpec) *TypeSpec {
 func NewInterfaceTypeSpec(typeName string, elements ...InterfaceElement) *TypeSpec {
 	ret := &TypeSpec{
 		Name:          typeName,
-		interfaceBody: elements,
+		interfaceBody: append([]InterfaceElement(nil), elements...),
 	}
 	var embeds []Symbol
 	var methods []MethodType
-- 
2.43.0


From c0beb6aa46785092f239585e35bc304861601404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 34/37] fix: Printf copies its arguments, so that code does not
 change with the list given

---
 code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code.go b/code.go
index 4ce2f10..8e35076 100644
--- a/code.go
+++ b/code.go
@@ -48,7 +48,7 @@ func (cb *CodeBlock) Println(text string) *CodeBlock {
 // supported types in the argument list when rendered. It returns the code
 // block, for method chaining.
 func (cb *CodeBlock) Printf(fmt string, args ...interface{}) *CodeBlock {
-	cb.elements = append(cb.elements, line{format: fmt, args: args})
+	cb.elements = append(cb.elements, line{format: fmt, args: append([]interface{}(nil), args...)})
 	return cb
 }
 
-- 
2.43.0


From aa5953289b836cb78bca0f6ef517cd72104e00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:58 +0000
Subject: [PATCH 35/37] fix: render declarations without any entries, rather
 than failing with a panic

---
 model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index 4ba3b13..9094275 100644
--- a/model.go
+++ b/model.go
@@ -461,7 +461,7 @@ func (c *ConstDecl) SetComment(comment string) *ConstDecl {
 func (c *ConstDecl) isFileElement() {}
 
 func (c *ConstDecl) writeTo(b *bytes.Buffer) {
-	if len(c.Consts) > 1 || c.Comment != "" {
+	if len(c.Consts) != 1 || c.Comment != "" {
 		writeComment(c.Comment, b)
 		b.WriteString("const (\n")
 		for _, cs := range c.Consts {
@@ -717,7 +717,7 @@ func (v *VarDecl) SetComment(comment string) *VarDecl {
 func (v *VarDecl) isFileElement() {}
 
 func (v *VarDecl) writeTo(b *bytes.Buffer) {
-	if len(v.Vars) > 1 || v.Comment != "" {
+	if len(v.Vars) != 1 || v.Comment != "" {
 		writeComment(v.Comment, b)
 		b.WriteString("var (\n")
 		for _, vs := range v.Vars {
@@ -928,7 +928,7 @@ func (t *TypeDecl) SetComment(comment string) *TypeDecl {
 func (t *TypeDecl) isFileElement() {}
 
 func (t *TypeDecl) writeTo(b *bytes.Buffer) {
-	if len(t.Types) > 1 || t.Comment != "" {
+	if len(t.Types) != 1 || t.Comment != "" {
 		writeComment(t.Comment, b)
 		b.WriteString("type (\n")
 		for _, ts := range t.Types {
-- 
2.43.0


From 9a88ca63ae5190ebcd6c09ea2a4b1fc70d347cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:07 +0000
Subject: [PATCH 36/37] fix: keep and qualify entries of maps in template data
 that cannot be looked up by their keys

---
 templates.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/templates.go b/templates.go
index c247010..fb5d5da 100644
--- a/templates.go
+++ b/templates.go
@@ -203,26 +203,28 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	case reflect.Map:
 		var newMap reflect.Value
-		seenKeys := make([]reflect.Value, 0, data.Len())
-		keys := data.MapKeys()
+		// NB: entries cannot be looked up by keys that are not equal to
+		// themselves, like NaN
+		type entry struct{ key, val reflect.Value }
+		entries := make([]entry, 0, data.Len())
+		for iter := data.MapRange(); iter.Next(); {
+			entries = append(entries, entry{key: iter.Key(), val: iter.Value()})
+		}
 		// the order in which packages are registered must not vary
-		sort.Slice(keys, func(i, j int) bool {
-			return fmt.Sprintf("%[1]T %#[1]v", keys[i].Interface()) < fmt.Sprintf("%[1]T %#[1]v", keys[j].Interface())
+		sort.Slice(entries, func(i, j int) bool {
+			return fmt.Sprintf("%[1]T %#[1]v", entries[i].key.Interface()) < fmt.Sprintf("%[1]T %#[1]v", entries[j].key.Interface())
 		})
-		for _, k := range keys {
-			newK, changedK := qualifyTemplateData(imports, k)
-			newV, changedV := qualifyTemplateData(imports, data.MapIndex(k))
+		for i, e := range entries {
+			newK, changedK := qualifyTemplateData(imports, e.key)
+			newV, changedV := qualifyTemplateData(imports, e.val)
 			if newMap.IsValid() {
 				newMap.SetMapIndex(newK, newV)
 			} else if changedK || changedV {
 				newMap = reflect.MakeMap(data.Type())
-				for _, sk := range seenKeys {
-					newMap.SetMapIndex(sk, data.MapIndex(sk))
+				for _, seen := range entries[:i] {
+					newMap.SetMapIndex(seen.key, seen.val)
 				}
 				newMap.SetMapIndex(newK, newV)
-				seenKeys = nil
-			} else {
-				seenKeys = append(seenKeys, k)
 			}
 		}
 		if newMap.IsValid() {
-- 
2.43.0


From 9992bc17ff4294c315dc16b96e3107ac64d124df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 37/37] fix: qualify template data that refers to itself,
 rather than recursing until the stack overflows, and keep shared data shared

---
 imports.go   |  6 ++++
 templates.go | 83 ++++++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 84 insertions(+), 5 deletions(-)

diff --git a/imports.go b/imports.go
index f94f846..6296b0e 100644
--- a/imports.go
+++ b/imports.go
@@ -22,6 +22,10 @@ type Imports struct {
 	pkgPath       string
 	importsByPath map[string]importDef
 	pathsByName   map[string]string
+
+	// copies has what became of pointers, slices and maps in the template data
+	// that is being qualified
+	copies map[dataRef]dataCopy
 }
 
 type importDef struct {
@@ -359,6 +363,8 @@ func (i *Imports) QualifyTemplateData(data interface{}) interface{} {
 	// (not data's concrete type) so we know we can safely re-write it if it
 	// implements TypeName
 	rv := reflect.ValueOf([]interface{}{data}).Index(0)
+	i.copies = map[dataRef]dataCopy{}
+	defer func() { i.copies = nil }()
 	newData, _ := qualifyTemplateData(i, rv)
 	return newData.Interface()
 }
diff --git a/templates.go b/templates.go
index fb5d5da..9548fc0 100644
--- a/templates.go
+++ b/templates.go
@@ -174,15 +174,27 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 			// cannot be replaced here and must not be taken apart
 			return data, false
 		}
+		if data.IsNil() {
+			return data, false
+		}
+		dest, done, changed := imports.startCopy(data)
+		if done {
+			return dest, changed
+		}
 		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
 			// NB: if the element is an interface, newElem has a concrete type
-			dest := reflect.New(data.Type().Elem())
 			dest.Elem().Set(newElem)
-			return dest.Convert(data.Type()), true
+			return dest, true
 		}
 
 	case reflect.Array, reflect.Slice:
-		var newArray reflect.Value
+		var newArray, newSlice reflect.Value
+		if data.Kind() == reflect.Slice && data.Len() > 0 {
+			var done, changed bool
+			if newSlice, done, changed = imports.startCopy(data); done {
+				return newSlice, changed
+			}
+		}
 		for i := 0; i < data.Len(); i++ {
 			newV, changedV := qualifyTemplateData(imports, data.Index(i))
 			if newArray.IsValid() {
@@ -191,7 +203,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				if data.Kind() == reflect.Array {
 					newArray = reflect.New(data.Type()).Elem()
 				} else {
-					newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
+					newArray = newSlice
 				}
 				reflect.Copy(newArray, data)
 				newArray.Index(i).Set(newV)
@@ -202,6 +214,13 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		}
 
 	case reflect.Map:
+		if data.Len() == 0 {
+			return data, false
+		}
+		freshMap, done, changed := imports.startCopy(data)
+		if done {
+			return freshMap, changed
+		}
 		var newMap reflect.Value
 		// NB: entries cannot be looked up by keys that are not equal to
 		// themselves, like NaN
@@ -220,7 +239,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 			if newMap.IsValid() {
 				newMap.SetMapIndex(newK, newV)
 			} else if changedK || changedV {
-				newMap = reflect.MakeMap(data.Type())
+				newMap = freshMap
 				for _, seen := range entries[:i] {
 					newMap.SetMapIndex(seen.key, seen.val)
 				}
@@ -232,5 +251,59 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		}
 	}
 
+	imports.dropCopy(data)
 	return data, false
 }
+
+// dataRef identifies a pointer, slice or map in template data.
+type dataRef struct {
+	typ reflect.Type
+	ptr uintptr
+	len int
+}
+
+func newDataRef(data reflect.Value) dataRef {
+	ref := dataRef{typ: data.Type(), ptr: data.Pointer()}
+	if data.Kind() == reflect.Slice {
+		ref.len = data.Len()
+	}
+	return ref
+}
+
+// dataCopy is what became of a pointer, slice or map in template data.
+type dataCopy struct {
+	val     reflect.Value
+	changed bool
+}
+
+// startCopy returns an empty copy of the given pointer, slice or map. If the
+// same one was encountered before, because it is shared or refers to itself,
+// then it is done: this returns what became of it and if that is a change.
+func (i *Imports) startCopy(data reflect.Value) (dest reflect.Value, done, changed bool) {
+	ref := newDataRef(data)
+	if c, ok := i.copies[ref]; ok {
+		return c.val, true, c.changed
+	}
+	switch data.Kind() {
+	case reflect.Ptr:
+		dest = reflect.New(data.Type().Elem()).Convert(data.Type())
+	case reflect.Slice:
+		dest = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
+	case reflect.Map:
+		dest = reflect.MakeMap(data.Type())
+	}
+	// anything that refers to it from within gets the copy
+	i.copies[ref] = dataCopy{val: dest, changed: true}
+	return dest, false, false
+}
+
+// dropCopy notes that the given data needs no copy after all.
+func (i *Imports) dropCopy(data reflect.Value) {
+	switch data.Kind() {
+	case reflect.Ptr, reflect.Slice, reflect.Map:
+		ref := newDataRef(data)
+		if _, ok := i.copies[ref]; ok {
+			i.copies[ref] = dataCopy{val: data}
+		}
+	}
+}
-- 
2.43.0

