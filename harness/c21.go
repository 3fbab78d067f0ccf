package main

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/jhump/gopoet"
)

// H_C21_name creates files with arbitrary names.
// bound: a name of 0..5 arbitrary bytes, or of 2 (4 thorough) arbitrary bytes around or before ".go"
// covers: accepted refused
func H_C21_name() {
	var name string
	arb := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = vByte()
		}
		return string(b)
	}
	switch vChoose(3) {
	case 0:
		name = arb(vChoose(6))
	case 1:
		name = arb(1+vTier()) + ".go" + arb(1+vTier())
	case 2:
		name = arb(2+2*vTier()) + ".go"
	}
	ok := len(name) >= 3 && vPick(vEqStr(name[len(name)-3:], ".go"))
	for i := 0; i < len(name) && ok; i++ {
		ok = !vPick(name[i] == '/')
	}
	var f *gopoet.GoFile
	refused := panics(func() { f = gopoet.NewGoFile(name, "a/b", "p") })
	vAssert(refused == !ok, "a file is refused for other than names that do not end in .go or are paths")
	if refused {
		vCover("refused")
		return
	}
	vAssert(vEqStr(f.Name, name), "a file has another name")
	vAssert(f.Package() == (gopoet.Package{ImportPath: "a/b", Name: "p"}), "a file is in another package")
	vCover("accepted")
}

func c21File(path, name, content string) *gopoet.GoFile {
	f := gopoet.NewGoFile(name, path, "own")
	f.AddVar(gopoet.NewVar("V").Initialize("%q", content))
	f.AddElement(gopoet.NewFunc("F").AddArg("a", gopoet.NamedType(gopoet.NewSymbol("a", "T"))))
	return f
}

// c21Tree is what is to be below the current directory.
type c21Tree struct {
	files map[string]string
	dirs  map[string]bool
}

func (t *c21Tree) mkdir(p string) {
	for p = filepath.Clean(p); p != "." && p != "/"; p = filepath.Dir(p) {
		t.dirs[p] = true
	}
}

func (t *c21Tree) put(p, content string) {
	t.mkdir(filepath.Dir(p))
	t.files[filepath.Clean(p)] = content
}

func (t *c21Tree) create() {
	for p := range t.dirs {
		vAssert(os.MkdirAll(p, 0755) == nil, "cannot set up the directories")
	}
	for p, c := range t.files {
		vAssert(ioutil.WriteFile(p, []byte(c), 0644) == nil, "cannot set up the files")
	}
}

func (t *c21Tree) check() {
	var want []string
	for p := range t.dirs {
		want = append(want, p+"/")
	}
	for p := range t.files {
		want = append(want, p)
	}
	sort.Strings(want)
	vAssert(strings.Join(vfsList(), " ") == strings.Join(want, " "), "there are other files or directories than there are to be")
	t.checkFiles()
}

func (t *c21Tree) checkFiles() {
	for p, c := range t.files {
		b, err := ioutil.ReadFile(p)
		vAssert(err == nil, "a file cannot be read")
		vAssert(vEqStr(string(b), c), "a file has other content")
	}
}

func newTree() *c21Tree { return &c21Tree{map[string]string{}, map[string]bool{}} }

// c21Before is what there is before: nothing, other files, files in place of
// the ones to be written, or some of their directories.
func c21Before(t *c21Tree, full string, kind int) {
	switch kind {
	case 1:
		t.put(filepath.Join(filepath.Dir(full), "other.go"), "other")
	case 2:
		t.put(full, strings.Repeat("// longer than what is written\n", 40))
		t.put(full+".bak", "bak")
	case 3:
		t.put(full, "x")
	case 4:
		t.put(full, "")
	case 5:
		t.mkdir(filepath.Dir(filepath.Dir(full)))
	}
}

var c21Roots = []string{"r", "r/s", ".", "", "./r/", "r//s", "r/../q"}

// H_C21_write writes files to a file system.
// bound: 1..2 files (3 thorough) of any of 5 package paths and 3 names, below any of 7 roots; before that nothing, another file, or a longer, shorter or empty file of the first one's or the last one's name, or part of the directories
// covers: one several same replaced done
func H_C21_write() {
	defer vfsScratch()()
	root := c21Roots[vChoose(len(c21Roots))]
	paths := []string{"a", "a/b", "b/c/d", "a/x.go", ""}
	names := []string{"x.go", "y.go", ".go"}
	t := newTree()
	before := vChoose(6)
	var files []*gopoet.GoFile
	var fulls, sources []string
	n := 1 + vChoose(2+vTier())
	for i := 0; i < n; i++ {
		p := paths[vChoose(len(paths))]
		name := names[0]
		if i == 0 || vTier() > 0 {
			name = names[vChoose(len(names))]
		}
		content := string([]byte{'0' + byte(i)})
		fulls = append(fulls, filepath.Join(root, p, name))
		sources = append(sources, rendered(c21File(p, name, content)))
		files = append(files, c21File(p, name, content))
	}
	at := 0
	if before > 1 && n > 1 {
		at = vChoose(2) * (n - 1)
	}
	// a directory cannot be where a file is to be
	for i, f := range fulls {
		for _, g := range fulls {
			vAssume(!strings.HasPrefix(g, f+"/"))
		}
		_ = i
	}
	c21Before(t, fulls[at], before)
	t.create()
	err := gopoet.WriteGoFilesToFileSystem(root, files...)
	vAssert(err == nil, "writing files fails")
	for i := range fulls {
		if _, ok := t.files[fulls[i]]; ok {
			vCover("replaced")
		}
		t.put(fulls[i], sources[i])
	}
	t.check()
	vAssert(!vSymbolic() || vfsStillOpen() == 0, "a file is left open")
	if n == 1 {
		vCover("one")
	} else {
		vCover("several")
		if fulls[0] == fulls[1] {
			vCover("same")
		}
	}
	vCover("done")
}

// H_C21_fail writes files where one cannot be written.
// bound: 1..3 files, any one of which has a directory in its place, a file in place of one of its directories, or no legal package name; 4 roots
// covers: isdir notdir illegal first later
func H_C21_fail() {
	defer vfsScratch()()
	root := c21Roots[vChoose(4)]
	n := 1 + vChoose(3)
	bad := vChoose(n)
	kind := vChoose(4)
	t := newTree()
	var files []*gopoet.GoFile
	names := []string{"x.go", "y.go", "z.go"}
	paths := []string{"a", "b/c", "a/d"}
	var fulls, sources []string
	for i := 0; i < n; i++ {
		f := c21File(paths[i], names[i], "0")
		sources = append(sources, rendered(f))
		fulls = append(fulls, filepath.Join(root, paths[i], names[i]))
		if i == bad && kind == 3 {
			f.PackageName = "1"
		}
		files = append(files, f)
	}
	t.put("keep/me.go", "keep")
	block := ""
	switch kind {
	case 0:
		t.mkdir(fulls[bad])
		vCover("isdir")
	case 1: // a file where its innermost directory is to be
		block = filepath.Dir(fulls[bad])
		vCover("notdir")
	case 2: // or the outermost
		block = filepath.Join(root, strings.Split(paths[bad], "/")[0])
	case 3:
		vCover("illegal")
	}
	if block != "" {
		for i := 0; i < bad; i++ { // not in the way of the files before
			vAssume(!strings.HasPrefix(fulls[i], block+"/"))
		}
		t.put(block, "block")
	}
	t.create()
	err := gopoet.WriteGoFilesToFileSystem(root, files...)
	vAssert(err != nil, "a failure to write a file is not reported")
	for i := 0; i < bad; i++ {
		t.put(fulls[i], sources[i])
	}
	t.checkFiles()
	for i := bad + 1; i < n; i++ {
		_, err := os.Stat(fulls[i])
		vAssert(err != nil, "a file is written after a failure")
	}
	vAssert(!vSymbolic() || vfsStillOpen() == 0, "a file is left open")
	if bad == 0 {
		vCover("first")
	} else {
		vCover("later")
	}
}

// H_C21_gopath writes files to the Go path.
// bound: GOPATH unset, or any text of up to 4 (6 thorough) of the letters r and q, the dot, the slash other than at the start, and the list separator; 2 files; the variable set to another value before
// covers: unset empty single list
func H_C21_gopath() {
	defer vfsScratch()()
	t := newTree()
	files := []*gopoet.GoFile{c21File("a/b", "x.go", "0"), c21File("c", "y.go", "1")}
	sources := []string{rendered(c21File("a/b", "x.go", "0")), rendered(c21File("c", "y.go", "1"))}
	if vChoose(2) == 1 {
		os.Setenv("GOPATH", "before")
		vAssert(gopoet.WriteGoFilesToGoPath(files[1]) == nil, "writing files fails")
		t.put("before/c/y.go", sources[1])
		t.check()
	}
	os.Unsetenv("GOPATH")
	var gopath string
	if vChoose(2) == 1 {
		b := []byte{}
		for n := vChoose(5 + 2*vTier()); len(b) < n; {
			set := "rq./:"
			if len(b) == 0 || b[len(b)-1] == ':' {
				set = "rq.:"
			}
			c := vByteIn(set)
			for i := 0; i < len(set); i++ {
				if vPick(c == set[i]) {
					c = set[i]
					break
				}
			}
			b = append(b, c)
		}
		gopath = string(b)
		vAssume(strings.Index(gopath, "..") < 0) // nothing outside of the scratch directory
		os.Setenv("GOPATH", gopath)
	} else {
		vCover("unset")
	}
	err := gopoet.WriteGoFilesToGoPath(files...)
	if gopath == "" {
		vAssert(err != nil, "there is no error without a Go path")
		t.check()
		vCover("empty")
		return
	}
	vAssert(err == nil, "writing files fails")
	first := gopath
	if i := strings.IndexByte(gopath, ':'); i >= 0 {
		first = gopath[:i]
		vCover("list")
	} else {
		vCover("single")
	}
	t.put(filepath.Join(first, "a/b/x.go"), sources[0])
	t.put(filepath.Join(first, "c/y.go"), sources[1])
	t.check()
}

// H_C21_content writes content of arbitrary bytes.
// bound: a comment of 2 (3 thorough) printable bytes, in a file that replaces one of up to 2 KB
// covers: done
func H_C21_content() {
	defer vfsScratch()()
	b := make([]byte, 2+vTier())
	for i := range b {
		b[i] = vByteIn(lower + upper + digits)
	}
	mk := func() *gopoet.GoFile {
		f := c21File("a", "x.go", "0")
		f.FileComment = string(b)
		return f
	}
	t := newTree()
	c21Before(t, "r/a/x.go", 2)
	t.create()
	vAssert(gopoet.WriteGoFilesToFileSystem("r", mk()) == nil, "writing files fails")
	t.put("r/a/x.go", rendered(mk()))
	t.check()
	vCover("done")
}
