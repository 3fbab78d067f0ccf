#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Import qualifiers are unique and stable",
 "Within one file's import set, two different import paths never receive the same qualifier, and the qualifier first given to a path is the one every later registration, lookup or qualification of that path reports, whatever names later requests propose. The file's own package always gets the empty qualifier and is never imported. Asking for the qualifier of a package that was never registered panics and registers nothing.",
 ["histories","inputs"],"every sequence of registrations and lookups, for all import paths and package names",
 "TestImportPackages replays one fixed list of eleven registrations; uniqueness quantifies over all histories and all name collisions, including collisions between an invented alias and a later real name.",
 ["imports.go"],[("prefix assignment with numeric suffixes","imports.go prefixForPackage")],
 ["RegisterImport","RegisterImportForPackage","PrefixForPackage"],
 [("importsByPath / pathsByName","the two directions of the path<->qualifier map","imports.go Imports")])
p("C02","The import list declares exactly the registered packages",
 "The import list contains exactly one entry for every registered package other than the file's own, sorted by import path, whatever the registration order. Each entry carries an alias exactly when the qualifier in use differs from the package name that was declared on first registration (or when that name was unknown), so that the import statement always binds the qualifier used in code. An entry's text form is the optional alias followed by the import path as a Go string literal.",
 ["histories","inputs"],"every sequence of registrations, all import paths and package names, every map iteration order",
 "One list of nine imports is compared today; the map iteration order, the alias flag under every collision pattern and arbitrary path characters are not exercised.",
 ["imports.go"],[("import spec construction and sort","imports.go ImportSpecs"),("alias flag","imports.go prefixForPackage"),("text form","imports.go ImportSpec.String")],
 ["ImportSpecs","ImportSpec.String","ImportSpec fields"])
p("C03","Invented qualifiers are legal Go identifiers",
 "When a package is referenced without a known name, the qualifier chosen for it is a legal, non-blank Go identifier that is not a keyword, for every legal import path (dots, dashes, leading digits, keywords, non-ASCII characters included). When a collision forces a numbered alias for a legally named package, that alias is legal as well.",
 ["inputs"],"all import paths Go accepts, with unknown or legal package names, with and without collisions",
 "The tests use only paths whose last element happens to be an identifier.",
 ["imports.go"],[("alias derivation from the import path","imports.go prefixForPackage")],
 ["RegisterImport","RegisterImportForPackage","ImportSpecs"])
p("C04","Symbol qualification yields the file's qualifier",
 "Qualifying a symbol returns the same name in the same import path with the package name replaced by the file's qualifier for that path (empty for the file's own package), leaves predeclared symbols alone, and repeating it changes nothing. The registering form registers the package when needed; the strict form panics exactly when the package was never registered and is not the file's own, and never registers anything.",
 ["inputs","histories"],"all symbols, all prior registration histories",
 "Nothing in the suite calls the qualification API directly (a TODO in imports_test.go says so); the end-to-end tests contain no alias.",
 ["imports.go"],[("symbol rewriting","imports.go qualify"),("public forms","imports.go EnsureImported, Qualify")],
 ["EnsureImported","Qualify","ImportSpecs"])
p("C05","Type qualification rewrites every reference and nothing else",
 "Qualifying a type or signature returns a type of identical structure - kinds, lengths, channel directions, map keys, parameter, result, field and method names, struct tags, variadic flag, embedded interfaces - in which every named reference carries the file's qualifier for its import path. The registering form registers exactly the packages referenced; the strict form panics exactly when some referenced package was never registered, and registers nothing.",
 ["inputs","histories"],"all type expressions and signatures, all prior registrations",
 "No test rewrites a type whose package is aliased or local; only plain named, slice, chan and func types without aliases occur end to end.",
 ["imports.go","types.go"],[("recursive type rewriting","imports.go qualifyType, qualifySignature, qualifyArgs, qualifyFields, qualifyMethods, qualifySymbols")],
 ["EnsureTypeImported","QualifyType","EnsureAllTypesImported","QualifySignature","ImportSpecs"])
p("C06","Qualification never alters what it was given",
 "Qualifying a type, a signature or a template data value never modifies the value that was passed in or anything reachable from it: afterwards it reads and renders exactly as before, so one model can be rendered into files of different packages.",
 ["inputs"],"all types, signatures and data values, all registration states",
 "No test looks at the original value after qualification.",
 ["imports.go","templates.go","types.go"],[("copy-on-write of slices and type nodes","imports.go qualifyArgs, qualifyFields, qualifyMethods, qualifySymbols"),("re-creation of data","templates.go qualifyTemplateData")],
 ["EnsureTypeImported","EnsureAllTypesImported","QualifyTemplateData"])
p("C07","The text of a type denotes exactly that type",
 "For every type that can be constructed, its text form, read as a Go type expression, is syntactically valid and denotes the same type: same nesting, channel directions, array lengths, parameters and results with their names, variadic marker, fields with names and tags, embedded interfaces and methods in order.",
 ["inputs"],"all type expressions (nesting, directions, names, tags), all package qualifiers",
 "checkTypeName never looks at the text form; only a handful of types are rendered end to end.",
 ["types.go"],[("type printer","types.go typeNameToBuffer, typeNameToString"),("signature printer","types.go signatureToBuffer")],
 ["TypeName.String"])
p("C08","A type reports exactly what it was built from",
 "Each type constructor returns a type whose kind and accessors report precisely the parts it was given, with every accessor that does not apply to the kind returning its documented empty value. Constructors panic exactly on the documented invalid inputs (missing element types, negative lengths, invalid directions, non-basic kinds, variadic functions whose last parameter is not a slice). The field, method and embed lists handed out are copies: changing them does not change the type.",
 ["inputs"],"all kinds, directions, lengths and component lists",
 "The tests cover a few element types and one invalid signature; lengths, directions, kinds and invalid combinations are infinite families.",
 ["types.go"],[("constructors","types.go BasicType .. InterfaceType"),("accessors","types.go *TypeName methods")],
 ["type constructors","TypeName methods"])
p("C09","Conversion from go/types is faithful",
 "Converting a go/types type gives a type with the same meaning: same structure, element types, lengths, directions, parameter and result names and types, variadic flag, field names (embedded fields stay embedded), tags, embedded interfaces and explicit methods, with every named type - predeclared ones such as error included - keeping its package path, package name and name. Converting a go/types package or object keeps its path and name, with a method becoming a reference to its receiver type's method and a predeclared object an unqualified symbol.",
 ["inputs"],"all go/types types made of named, basic and composite types; all packages and package-level objects",
 "TestTypeNameForGoType is an empty TODO.",
 ["types.go","model.go"],[("conversion","types.go TypeNameForGoType, signatureFromGoType"),("objects","model.go SymbolForGoObject, PackageForGoType")],
 ["TypeNameForGoType","SymbolForGoObject","PackageForGoType"])
p("C10","Conversion from reflect is faithful",
 "Converting a reflect type gives a type with the same meaning: same structure, element types, lengths, directions, parameter types, result types, variadic flag, field names (embedded fields stay embedded) and tags, methods of unnamed interfaces, and every named type keeps its name and import path.",
 ["inputs"],"all reflect types built of named, basic and composite types",
 "TestTypeNameForReflectType is an empty TODO.",
 ["types.go"],[("conversion","types.go TypeNameForReflectType, signatureFromReflectType")],
 ["TypeNameForReflectType"])
p("C11","Export and unexport change visibility and nothing else",
 "For every valid UTF-8 name, exporting returns an exported name (its first character is an upper-case letter) and is the identity on names already exported: it upper-cases a first letter that can be upper-cased, replaces a leading underscore with X, and prefixes X when the first character cannot start an identifier or has no upper case. Unexporting lower-cases the first character. Everything after the first character is preserved, the empty name stays empty, and only malformed UTF-8 is rejected.",
 ["inputs"],"all strings: every first character in Unicode, every malformed encoding, any remainder",
 "Eight ASCII samples are tested; the claim ranges over all of Unicode and all byte strings.",
 ["names.go"],[("case mapping","names.go Export, Unexport")],
 ["Export","Unexport"])
p("C12","Code blocks render their text with qualified references",
 "A code block renders its pieces in order: plain text verbatim (percent signs included), formatted text as fmt would, with a trailing newline exactly where requested, and added blocks in sequence. Every argument that is a package, symbol, method reference, type (native, reflect or go/types), go/types object or package, or a declared const, var, type or function is rendered with the qualifier of the file it is rendered into, and its package is imported there (a declared method is rendered as its bare name and imports nothing). Other arguments are left as they are.",
 ["inputs","programs"],"all sequences of pieces, all argument kinds, all package names and collision states, same or different target package",
 "The end-to-end tests use local consts, vars and types and two unaliased symbols; nine of the sixteen argument kinds and every aliased case never occur.",
 ["code.go"],[("argument rewriting","code.go line.qualify"),("rendering","code.go line.writeTo, CodeBlock.writeTo")],
 ["WriteGoFile","CodeBlock methods","FuncSpec methods","Initialize"])
p("C13","Template data is re-created with qualified references",
 "Qualifying template data returns data of the same shape in which every reference it can reach - through structs (unexported fields included), pointers, slices, arrays, maps and interfaces able to hold the result - renders with the file's qualifier and has its package imported, and every other value is unchanged. References held in interface-typed positions as go/types or reflect values become equivalent references that render correctly, aliased or not. It never panics on data that holds only supported references and ordinary acyclic values.",
 ["inputs","programs"],"all data shapes and placements of references, all collision states",
 "No test calls the template API at all.",
 ["templates.go","templates_unsafe.go","imports.go"],[("recursive re-creation","templates.go qualifyTemplateData"),("unexported fields","templates_unsafe.go getField"),("entry point","imports.go QualifyTemplateData")],
 ["QualifyTemplateData","CodeBlock.RenderCode"])
p("C14","A rendered file declares exactly the model",
 "The rendered source of a file parses, carries the package clause (with canonical import comment when set), and declares exactly the added elements in order: each const, var, type and function with its names, types, initializers, receivers, signatures, fields, tags, embedded and explicit methods and bodies as modelled; grouped declarations stay grouped and single ones single. Types given as declared type specs are rendered as correct references to them.",
 ["programs","inputs"],"all files built through the public API from legal names and well-formed code",
 "Two golden files pin one combination of elements; receivers, aliases, unnamed specs, tags on nested structs, grouped/ungrouped variants and cross references are not covered.",
 ["model.go","types.go","code.go"],[("file and element writers","model.go writeTo methods"),("element qualification","model.go qualify methods"),("formatting","model.go WriteGoFile")],
 ["WriteGoFile"])
p("C15","Rendered imports match rendered references",
 "In the rendered source of a file whose packages were all referenced through the model, every qualified reference resolves through exactly one import statement to the package it was meant for, no import is missing, duplicated or unused, references to the file's own package are unqualified, and the file never imports itself. Packages registered by hand are imported under the qualifier that was reported for them.",
 ["programs","inputs"],"all files, all placements of references, all name collisions between referenced packages",
 "The golden files contain four distinct, unaliased imports and no collision.",
 ["model.go","imports.go","code.go"],[("qualification pass before writing","model.go WriteGoFile"),("import preamble","model.go GoFile.writeTo")],
 ["WriteGoFile"])
p("C16","Rendering is repeatable and deterministic",
 "Rendering the same file again produces byte-identical source, and the result does not depend on map iteration order. Rendering one file does not change what another file renders to, even when the two share code blocks, types, references or template data.",
 ["histories","programs"],"all sequences of renderings of files that may share code, types and data; all map iteration orders",
 "Each test renders each file once.",
 ["model.go","code.go","templates.go","imports.go"],[("in-place qualification","code.go line.qualify, templ.qualify; model.go qualify methods"),("sorted imports","imports.go ImportSpecs")],
 ["WriteGoFile","WriteGoFiles"])
p("C17","Multi-file writing reports every failure and stops there",
 "Writing several files opens, writes and closes one destination per file, in order, each at the file's package path joined with its name, and the first failure to open, render, write or close is returned. Nothing is opened after a failure, every opened destination is closed exactly once even then, and success means that every file's complete source was handed over.",
 ["fault_sequences","programs"],"every combination of open, render, write and close failures over the files",
 "Tests only use destinations that never fail.",
 ["model.go"],[("writing loop","model.go WriteGoFiles"),("rendering and write","model.go WriteGoFile")],
 ["WriteGoFiles","WriteGoFile"])
p("C18","Declared elements refer to themselves correctly",
 "Every const, var, type, function or method added to a file yields references (symbols, type names, method references, text forms) that name exactly that element in that file's package, with receivers - pointer or value - reproduced in method types; a reference needing a package panics exactly when the element was never added to a file, while text forms never panic. Receivers built from types or type specs name the type and its pointer-ness, and are refused for unnamed types.",
 ["inputs","programs"],"all elements, attached or not, all names and packages",
 "Only ToTypeName of one type spec is called by a test; everything else is reached through one happy path.",
 ["model.go"],[("references","model.go ToSymbol, SymbolAt, ToTypeName, ToMethodRef, String"),("receivers","model.go NewReceiverForType, NewPointerReceiverForType"),("ownership","model.go setParent methods")],
 ["ToSymbol","SymbolAt","ToTypeName","ToMethodRef","String","NewReceiver*"])
p("C19","Comments never change the code",
 "Whatever valid text a comment contains - line breaks, comment markers, code - it appears in the rendered file only as comment text at its place (file header, package doc, declaration, spec, field, method), line for line, and the declarations of the file are the same as without it. The file comment never becomes part of the package documentation.",
 ["inputs"],"all comment texts, at every place a comment can be set",
 "Tests use single-line plain comments only.",
 ["model.go"],[("comment writer","model.go writeComment"),("placement","model.go GoFile.writeTo and element writers")],
 ["WriteGoFile"])
p("C20","Struct tags survive rendering",
 "For every tag text, the tag in the rendered struct - in a type's text form, in a declared struct and in nested unnamed structs - is a Go string literal whose value is exactly that text, and fields without a tag get none.",
 ["inputs"],"all tag strings (backquotes, control characters, invalid UTF-8, quotes, newlines)",
 "Tests use backquotable json tags only.",
 ["types.go","model.go"],[("tag quoting in type text","types.go typeNameToBuffer"),("tag quoting in declarations","model.go FieldSpec.writeTo")],
 ["TypeName.String","WriteGoFile"])
p("C21","Files land at their package path below the root",
 "A file can only be created with a bare name ending in .go; anything else is refused. Writing to a file system creates, for each file, the directories of its package path below the given root and a file of exactly that name holding exactly the rendered source, replacing any previous content; writing to the Go path uses the first entry of GOPATH as that root and fails only when GOPATH is empty.",
 ["inputs","fault_sequences"],"all file names, roots, package paths and GOPATH values; all directory and open failures",
 "No test creates a file with a bad name or writes to a file system or GOPATH.",
 ["model.go"],[("name validation","model.go NewGoFile"),("file system writer","model.go WriteGoFilesToFileSystem"),("go path","model.go WriteGoFilesToGoPath")],
 ["NewGoFile","WriteGoFilesToFileSystem","WriteGoFilesToGoPath"])
p("C22","Rendering leaves the model as it was",
 "Rendering a file - successfully, or failing for whatever reason - leaves its model as it was: the list of its elements, everything that their fields, references, types and text forms say, and all arguments and template data read the same afterwards. The only thing it adds are packages in the file's imports, and none that was there is lost or gets another alias. After a failed rendering the same file renders once the cause is gone.",
 ["programs","fault_sequences"],"every element kind, reference kind and import state; every way for rendering to fail",
 "Tests render a file once and look at nothing but its source.",
 ["model.go","code.go","templates.go","imports.go"],[("qualified copies of elements","model.go qualify methods, WriteGoFile"),("qualified copies of code","code.go line.qualify, templ.qualify")],
 ["WriteGoFile","NumElements, ElementAt","fields and accessors of all specs","ImportSpecs"])
p("C23","The model holds what was put into it",
 "Every constructor and builder method records exactly what it is given, in order, leaves everything else as it was and returns what it was called on; packages, symbols and method references made from their parts have exactly these parts and their documented text. What was built is independent of what it was built from: adding to or changing a list, signature or function afterwards, building another thing from the same list, or editing what an accessor handed out, changes nothing that was built before.",
 ["histories","inputs"],"all sequences of builder calls, all lists with and without spare capacity, all changes made afterwards",
 "Tests build each model once with fresh lists; sharing shows only when a list has spare capacity or is used again.",
 ["model.go","types.go","code.go"],[("lists copied on construction","types.go FuncTypeFromSig, StructType, InterfaceType; model.go New*Decl, NewStructTypeSpec, NewInterfaceTypeSpec"),("builder methods","model.go, types.go, code.go Add*, Set*")],
 ["Add*, Set*, New* functions","fields and accessors","NumElements, ElementAt"])
p("C24","Code that is no Go is reported and never written",
 "For every name and every text of code, rendering a file either hands over source that parses as a Go file and is in its canonical format, or fails with a FormatError, hands over nothing, and gives the complete unformatted source - which indeed does not parse - and the cause.",
 ["inputs"],"all texts of code and names",
 "No test renders malformed code.",
 ["model.go"],[("formatting and its errors","model.go WriteGoFile, FormatError")],
 ["WriteGoFile","FormatError"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
