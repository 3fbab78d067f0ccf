// Package main holds the symbolic harnesses. It is laid over the repository as
// a command of its module and uses nothing but gopoet's exported API. The same
// source is (a) executed symbolically by the engine, which intercepts the v*
// functions below, and (b) compiled natively to replay what the solver found.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
)

type vState struct {
	vals   []uint64
	pos    int
	tier   int
	obs    [][2]string
	covers map[string]bool
	extra  int
}

var vst vState

type vAbort struct{ kind, msg string }

func vNext(def uint64) uint64 {
	if vst.pos < len(vst.vals) {
		v := vst.vals[vst.pos]
		vst.pos++
		return v
	}
	vst.extra++
	if vst.extra > 100000 {
		panic(vAbort{"assume", "out of values"})
	}
	return def
}

// vByteIn is an arbitrary byte of the set.
func vByteIn(set string) byte { return byte(vNext(uint64(set[0]))) }

// vByte is an arbitrary byte.
func vByte() byte { return byte(vNext(0)) }

// vBool is an arbitrary truth value.
func vBool() bool { return vNext(0) != 0 }

// vInt is an arbitrary integer in [lo,hi].
func vInt(lo, hi int) int {
	n := int(vNext(uint64(lo)))
	if n < lo || n > hi {
		panic(vAbort{"assume", "range"})
	}
	return n
}

// vChoose is an arbitrary integer in [0,n); the engine forks on it.
func vChoose(n int) int {
	if n == 1 {
		vNext(0)
		return 0
	}
	return int(vNext(0))
}

// vPick makes a condition concrete.
func vPick(b bool) bool { return b }

func vAnd(a, b bool) bool        { return a && b }
func vOr(a, b bool) bool         { return a || b }
func vNot(a bool) bool           { return !a }
func vEqStr(a, b string) bool    { return a == b }
func vConc(a string) bool        { return true }
func vDebug(s string)            {}
func vSymbolic() bool            { return false }
func vTier() int                 { return vst.tier }
func vMapOrder(on bool)          {}
func vCover(name string)         { vst.covers[name] = true }
func vObserve(label, val string) { vst.obs = append(vst.obs, [2]string{label, val}) }

func vAssume(ok bool) {
	if !ok {
		panic(vAbort{"assume", ""})
	}
}

func vAssert(ok bool, msg string) {
	if !ok {
		panic(vAbort{"assert", msg})
	}
}

// vIdent is an arbitrary string of exactly n bytes of the set, the first from the set first.
func vIdent(first, rest string, n int) string {
	b := make([]byte, n)
	for i := range b {
		if i == 0 {
			b[i] = vByteIn(first)
		} else {
			b[i] = vByteIn(rest)
		}
	}
	return string(b)
}

func vStr(set string, n int) string { return vIdent(set, set, n) }

type vReq struct {
	H      string
	Tier   int
	V      []uint64
	Repeat int
}

type vRes struct {
	Status string
	Msg    string
	Hash   uint64
	Covers []string
	Obs    [][2]string `json:",omitempty"`
}

func vRunOnce(h func(), rq *vReq) (res vRes) {
	vst = vState{vals: rq.V, tier: rq.Tier, covers: map[string]bool{}}
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(vAbort); ok {
				res.Status, res.Msg = a.kind, a.msg
			} else {
				res.Status, res.Msg = "panic", fmt.Sprint(r)
			}
		}
		res.Obs = vst.obs
	}()
	h()
	res.Status = "ok"
	hs := fnv.New64a()
	for _, o := range vst.obs {
		hs.Write([]byte(o[0]))
		hs.Write([]byte{0})
		hs.Write([]byte(o[1]))
		hs.Write([]byte{1})
	}
	res.Hash = hs.Sum64()
	for c := range vst.covers {
		res.Covers = append(res.Covers, c)
	}
	sort.Strings(res.Covers)
	return res
}

var vRegistry = map[string]func(){}

func main() {
	debug.SetMaxStack(96 << 20)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		var rq vReq
		if err := json.Unmarshal(in.Bytes(), &rq); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		h := vRegistry[rq.H]
		if h == nil {
			fmt.Fprintln(os.Stderr, "no harness", rq.H)
			os.Exit(2)
		}
		var r vRes
		for i := 0; i <= rq.Repeat; i++ {
			r = vRunOnce(h, &rq)
			if r.Status != "ok" {
				break
			}
		}
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
