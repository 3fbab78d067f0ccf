package main

import (
	"unicode"
	"unicode/utf8"

	"github.com/jhump/gopoet"
)

// c11Check runs both directions on the name.
func c11Check(s string) {
	r, sz := utf8.DecodeRuneInString(s)
	rest := s[sz:]
	var ex, un string
	pe := panics(func() { ex = gopoet.Export(s) })
	pu := panics(func() { un = gopoet.Unexport(s) })
	if r == utf8.RuneError && sz == 1 {
		vAssert(pe && pu, "malformed text accepted")
		vCover("malformed")
		return
	}
	vAssert(!pe, "Export refuses a well-formed name")
	vAssert(!pu, "Unexport refuses a well-formed name")
	vAssert(un == string(unicode.ToLower(r))+rest, "Unexport does not lower-case just the first character")
	first, _ := utf8.DecodeRuneInString(ex)
	vAssert(unicode.IsUpper(first), "the exported name is not exported")
	up := unicode.ToUpper(r)
	switch {
	case unicode.IsUpper(r):
		vAssert(ex == s, "an exported name changed")
		vCover("upper")
	case r == '_':
		vAssert(ex == "X"+rest, "underscore not replaced with X")
	case unicode.IsLetter(r) && unicode.IsUpper(up):
		vAssert(ex == string(up)+rest, "letter not upper-cased")
		vCover("lower")
	default:
		vAssert(ex == "X"+s, "X not prefixed")
		vCover("other")
	}
	vAssert(gopoet.Export(ex) == ex, "exporting twice changes the name")
	vObserve("export", ex)
	vObserve("unexport", un)
}

// H_C11_ascii covers every first byte below 0x80.
// bound: every name of one ASCII character followed by 0..3 arbitrary bytes
// covers: upper lower other
func H_C11_ascii() {
	b := []byte{vByte()}
	vAssume(b[0] < 0x80)
	for n := vChoose(4); n > 0; n-- {
		b = append(b, vByte())
	}
	c11Check(string(b))
}

// H_C11_two covers every two-byte start.
// bound: every byte string of 2 bytes with the first at least 0x80 and below 0xe0, with one arbitrary byte behind
// covers: malformed upper lower other
func H_C11_two() {
	b := []byte{vByte(), vByte(), vByte()}
	vAssume(vAnd(b[0] >= 0x80, b[0] < 0xe0))
	c11Check(string(b))
}

// H_C11_three covers every three-byte start.
// bound: every byte string of 3 bytes with the first in 0xe0..0xef
// covers: malformed upper lower other
func H_C11_three() {
	b := []byte{vByte(), vByte(), vByte()}
	vAssume(vAnd(b[0] >= 0xe0, b[0] < 0xf0))
	c11Check(string(b))
}

// H_C11_four covers every four-byte start.
// bound: every byte string of 4 bytes with the first in 0xf0..0xff
// covers: malformed upper lower other
func H_C11_four() {
	b := []byte{vByte(), vByte(), vByte(), vByte()}
	vAssume(b[0] >= 0xf0)
	c11Check(string(b))
}

// H_C11_short covers truncated encodings and the empty name.
// bound: every byte string of 0..3 bytes with the first at least 0xc0 that is cut off before its encoding ends
// covers: malformed empty
func H_C11_short() {
	n := vChoose(4)
	if n == 0 {
		vAssert(gopoet.Export("") == "" && gopoet.Unexport("") == "", "the empty name changed")
		vCover("empty")
		return
	}
	b := []byte{vByte()}
	vAssume(b[0] >= 0xc0)
	for i := 1; i < n; i++ {
		b = append(b, vByte())
	}
	if n == 2 {
		vAssume(b[0] >= 0xe0)
	}
	if n == 3 {
		vAssume(b[0] >= 0xf0)
	}
	c11Check(string(b))
}
