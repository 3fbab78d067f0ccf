package main

import (
	"bytes"
	"errors"
	"io"
	"os"
	"path/filepath"
	"syscall"
	"text/template"

	"github.com/jhump/gopoet"
)

// wOut is a destination that records what happens to it.
type wOut struct {
	data     []byte
	closed   int
	writeErr error
	closeErr error
	short    int
	late     bool // written to after it was closed
}

func (o *wOut) Write(b []byte) (int, error) {
	if o.closed > 0 {
		o.late = true
	}
	if o.writeErr != nil {
		n := o.short
		if n > len(b) {
			n = len(b)
		}
		o.data = append(o.data, b[:n]...)
		return n, o.writeErr
	}
	o.data = append(o.data, b...)
	return len(b), nil
}

func (o *wOut) Close() error {
	o.closed++
	if o.closed > 1 {
		return errors.New("closed before")
	}
	return o.closeErr
}

// fault says what happens to a file: opening it, rendering it (with an error or
// a panic), writing it and closing it may fail.
type fault struct {
	open, render, panic, write, close bool
}

func (ft fault) any() bool {
	return vPick(vOr(vOr(vOr(ft.open, ft.render), vOr(ft.write, ft.close)), ft.panic))
}

var c17Bad = template.Must(template.New("t").Parse("{{.Missing.Field}}"))

func c17File(i int, path string, ft fault) *gopoet.GoFile {
	name := "own"
	if ft.render {
		name = "1"
	}
	f := gopoet.NewGoFile(string([]byte{"xyzw"[i]})+".go", path, name)
	fn := gopoet.NewFunc("F").AddArg("a", gopoet.NamedType(gopoet.NewSymbol("a", "T")))
	if ft.panic {
		fn.RenderCode(c17Bad, 5)
	}
	f.AddElement(fn).AddVar(gopoet.NewVar("v").Initialize("%d", i))
	return f
}

// c17Run writes files that meet with faults and checks what comes of it.
func c17Run(paths []string, faults []fault) {
	n := len(faults)
	var files []*gopoet.GoFile
	for i := range faults {
		files = append(files, c17File(i, paths[i], faults[i]))
	}
	var outs []*wOut
	var opened []string
	var first error
	failed := false
	open := func(p string) (io.WriteCloser, error) {
		i := len(opened)
		vAssert(i < n, "more destinations are opened than there are files")
		if i > 0 {
			failed = failed || faults[i-1].any()
		}
		vAssert(!failed, "a destination is opened after a failure")
		for _, o := range outs {
			vAssert(o.closed == 1, "a destination is opened before the one before it is closed")
		}
		opened = append(opened, p)
		ft := faults[i]
		if ft.open {
			first = errors.New("open")
			return nil, first
		}
		o := &wOut{}
		if ft.write {
			o.writeErr = errors.New("write")
			o.short = i * 7
		}
		if ft.close {
			o.closeErr = errors.New("close")
		}
		if !ft.render {
			if ft.write {
				first = o.writeErr
			} else if ft.close {
				first = o.closeErr
			}
		}
		outs = append(outs, o)
		return o, nil
	}
	var err error
	panicked := panics(func() { err = gopoet.WriteGoFiles(open, files...) })
	k := len(opened)
	stop := n // the file that fails
	if k > 0 && faults[k-1].any() {
		stop = k - 1
	}
	vAssert(stop < n || k == n, "not every file is opened")
	wantPanic := stop < n && !faults[stop].open && faults[stop].panic
	vAssert(panicked == wantPanic, "rendering panics or its panic is lost")
	for i, p := range opened {
		vAssert(p == filepath.Join(paths[i], string([]byte{"xyzw"[i]})+".go"), "a file is opened at another path")
	}
	for _, o := range outs {
		vAssert(o.closed == 1, "an opened destination is not closed exactly once")
		vAssert(!o.late, "a destination is written to after it was closed")
	}
	for i := 0; i < stop; i++ {
		vAssert(string(outs[i].data) == rendered(c17File(i, paths[i], fault{})), "a file's source is not handed over")
	}
	if panicked {
		vCover("panic")
		return
	}
	if stop == n {
		vAssert(err == nil, "an error is reported though nothing failed")
		vCover("ok")
		return
	}
	vAssert(err != nil, "a failure is not reported")
	if first != nil {
		vAssert(err == first, "another error than that of the first failure is returned")
		vCover("fault")
	} else {
		fe, ok := err.(*gopoet.FormatError)
		vAssert(ok, "a failure to render is not reported as a FormatError")
		vAssert(fe.Error() != "" && len(fe.Unformatted) > 0, "a FormatError lacks its cause or its source")
		vCover("render")
	}
}

func c17Fault() fault {
	return fault{open: vBool(), render: vBool(), panic: vBool(), write: vBool(), close: vBool()}
}

// H_C17_faults writes files with faults at any points.
// bound: 0..3 files, each with any combination of failing to open, to render, to write, to close and of a panic when rendered
// covers: ok fault render panic
func H_C17_faults() {
	n := vChoose(4)
	var faults []fault
	var paths []string
	for i := 0; i < n; i++ {
		faults = append(faults, c17Fault())
		paths = append(paths, []string{"p/q", "o", "p/q"}[i])
	}
	c17Run(paths, faults)
}

// H_C17_later fails at any of several files.
// bound: 4 files, each with any combination of failing to open, to write and to close; in the thorough tier also to render
// covers: ok fault
func H_C17_later() {
	faults := make([]fault, 4)
	for i := range faults {
		faults[i] = fault{open: vBool(), write: vBool(), close: vBool()}
		if vTier() > 0 {
			faults[i].render = vBool()
		}
	}
	c17Run([]string{"a", "b", "a", "c"}, faults)
}

// H_C17_paths opens files at their package paths.
// bound: two files with package paths of 0..3 characters legal in paths (4 in the thorough tier), with canonical import paths that are others or none
// covers: ok
func H_C17_paths() {
	set := "a./-_"
	p1 := vStr(set, vChoose(4+vTier()))
	p2 := vStr(set, vChoose(4+vTier()))
	var got []string
	f1, f2 := gopoet.NewGoFile("x.go", p1, "p"), gopoet.NewGoFile("y.go", p2, "p")
	if vChoose(2) == 1 {
		f1.CanonicalImportPath, f2.CanonicalImportPath = "c/d", "e"
	}
	o := &wOut{}
	err := gopoet.WriteGoFiles(func(p string) (io.WriteCloser, error) {
		got = append(got, p)
		o = &wOut{}
		return o, nil
	}, f1, f2)
	vAssert(err == nil && len(got) == 2, "files are not written")
	vObserve("paths", got[0]+" "+got[1])
	vAssert(got[0] == filepath.Join(p1, "x.go"), "a file is opened at another path")
	vAssert(got[1] == filepath.Join(p2, "y.go"), "a file is opened at another path")
	vCover("ok")
}

// H_C17_single renders one file to a writer.
// bound: one file with any combination of failing to render, to write (after 0..2 bytes) and of a panic; sources of 3 lengths
// covers: ok fault render panic
func H_C17_single() {
	ft := fault{render: vBool(), panic: vBool(), write: vBool()}
	f := c17File(1, "p", ft)
	for i := vChoose(3) * 20; i > 0; i-- {
		f.AddVar(gopoet.NewVar("longer").Initialize("%q", "some more text to write"))
	}
	o := &wOut{}
	if ft.write {
		o.writeErr = errors.New("write")
		o.short = vChoose(3)
	}
	var err error
	if panics(func() { err = gopoet.WriteGoFile(o, f) }) {
		vAssert(ft.panic, "rendering panics")
		vAssert(len(o.data) == 0, "something is written though rendering failed")
		vCover("panic")
		return
	}
	vAssert(!ft.panic, "a panic is lost")
	vAssert(o.closed == 0, "a writer is closed")
	switch {
	case ft.render:
		_, ok := err.(*gopoet.FormatError)
		vAssert(ok, "a failure to render is not reported as a FormatError")
		vAssert(len(o.data) == 0, "something is written though rendering failed")
		vCover("render")
	case ft.write:
		vAssert(err == o.writeErr, "a failure to write is not reported")
		vCover("fault")
	default:
		vAssert(err == nil, "an error is reported though nothing failed")
		s := parseFile(string(o.data))
		vAssert(len(s.file.Decls) >= 2, "the source is not complete")
		vCover("ok")
	}
}

type c17Timeout struct{}

func (c17Timeout) Error() string   { return "slow" }
func (c17Timeout) Timeout() bool   { return true }
func (c17Timeout) Temporary() bool { return true }

// c17Errs are errors that a destination may report.
func c17Errs() []error {
	return []error{
		errors.New("some"), io.EOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrUnexpectedEOF,
		os.ErrClosed, os.ErrExist, os.ErrNotExist, os.ErrPermission, os.ErrInvalid,
		syscall.EINTR, syscall.EAGAIN, syscall.EEXIST, syscall.EBADF, syscall.ENOSPC,
		&os.PathError{Op: "close", Path: "p", Err: os.ErrClosed}, &os.PathError{Op: "mkdir", Path: "p", Err: syscall.EEXIST},
		&gopoet.FormatError{Err: errors.New("other")}, (*gopoet.FormatError)(nil), c17Timeout{}, bytes.ErrTooLarge, errors.New(""),
	}
}

// H_C17_errors meets with any kind of error.
// bound: the first or second of three files fails to open, write, close, or both write and close, with any of 22 errors, well-known ones among them, and closing with any of these
// covers: done
func H_C17_errors() {
	errs := c17Errs()
	e1, e2 := errs[vChoose(len(errs))], error(nil)
	at, how := vChoose(2), vChoose(4)
	if how == 3 {
		e2 = errs[vChoose(len(errs))]
	}
	var outs []*wOut
	n := 0
	err := gopoet.WriteGoFiles(func(string) (io.WriteCloser, error) {
		o := &wOut{}
		i := n
		n++
		if i == at {
			switch how {
			case 0:
				return nil, e1
			case 1:
				o.writeErr, o.short = e1, 3
			case 2:
				o.closeErr = e1
			case 3:
				o.writeErr, o.closeErr = e1, e2
			}
		}
		outs = append(outs, o)
		return o, nil
	}, c17File(0, "a", fault{}), c17File(1, "a", fault{}), c17File(2, "b", fault{}))
	vAssert(err == e1, "another error than that of the first failure is returned")
	vAssert(n == at+1, "a destination is opened after a failure")
	for _, o := range outs {
		vAssert(o.closed == 1 && !o.late, "an opened destination is not closed exactly once")
	}
	o := &wOut{writeErr: e1}
	vAssert(gopoet.WriteGoFile(o, c17File(0, "a", fault{})) == e1 && o.closed == 0, "a failure to write is not reported")
	vCover("done")
}
