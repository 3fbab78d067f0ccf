package main

import (
	"runtime"

	"github.com/jhump/gopoet"
)

const (
	lower  = "abcdefghijklmnopqrstuvwxyz"
	upper  = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	digits = "0123456789"
	idRest = lower + upper + digits + "_"
	idCont = lower + digits
)

// vIndent as long as n: an arbitrary identifier-shaped string of 1..n bytes.
func vIdentUpTo(first, rest string, n int) string {
	return vIdent(first, rest, 1+vChoose(n))
}

// panics runs f and says whether it panicked. A panic of the run time (nil
// dereference, index out of range, ...) is not swallowed.
func panics(f func()) (did bool) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(vAbort); ok {
				panic(a)
			}
			if e, ok := r.(runtime.Error); ok {
				panic(e)
			}
			did = true
		}
	}()
	f()
	return false
}

func trimDot(prefix string) string {
	if len(prefix) > 0 && prefix[len(prefix)-1] == '.' {
		return prefix[:len(prefix)-1]
	}
	return prefix
}

// specOf returns the import spec for the path and the number of specs with it.
func specOf(imps *gopoet.Imports, path string) (gopoet.ImportSpec, int) {
	n := 0
	var ret gopoet.ImportSpec
	for _, s := range imps.ImportSpecs() {
		if s.ImportPath == path {
			ret = s
			n++
		}
	}
	return ret, n
}
