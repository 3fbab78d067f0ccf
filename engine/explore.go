package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness is one H_<property>_<name> function.
type Harness struct {
	Name    string
	Prop    string
	Doc     string
	Bound   string
	Covers  []string
	Tier    string // "", "thorough"
	Seconds int    // time budget in the quick tier
	Repeat  int    // native repetitions when replaying (map order)
	fn      *ssa.Function
}

func findHarnesses(p *Prog, hdir string) ([]*Harness, error) {
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, hdir, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var hs []*Harness
	for _, pkg := range pkgs {
		for _, f := range pkg.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_") {
					continue
				}
				h := &Harness{Name: fd.Name.Name}
				parts := strings.SplitN(h.Name, "_", 3)
				if len(parts) != 3 {
					continue
				}
				h.Prop = parts[1]
				var doc []string
				cur := ""
				if fd.Doc != nil {
					for _, l := range strings.Split(fd.Doc.Text(), "\n") {
						l = strings.TrimSpace(l)
						switch {
						case strings.HasPrefix(l, "bound:"):
							h.Bound = strings.TrimSpace(l[6:])
							cur = "bound"
						case strings.HasPrefix(l, "covers:"):
							h.Covers = strings.Fields(l[7:])
							cur = ""
						case strings.HasPrefix(l, "tier:"):
							h.Tier = strings.TrimSpace(l[5:])
							cur = ""
						case strings.HasPrefix(l, "seconds:"):
							fmt.Sscan(l[8:], &h.Seconds)
							cur = ""
						case strings.HasPrefix(l, "repeat:"):
							fmt.Sscan(l[7:], &h.Repeat)
							cur = ""
						case cur == "bound" && l != "":
							h.Bound += " " + l
						default:
							doc = append(doc, l)
							cur = ""
						}
					}
				}
				h.Doc = strings.TrimSpace(strings.Join(doc, " "))
				h.fn = p.main.Func(h.Name)
				if h.fn == nil {
					return nil, fmt.Errorf("harness %s not compiled", h.Name)
				}
				hs = append(hs, h)
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	return hs, nil
}

type pathResult struct {
	kind   string // ok, assume, violation, panic, abort kinds
	msg    string
	pos    string
	values []uint64
	hash   uint64
	covers []string
	obs    []string
}

// Cex is a candidate violation.
type Cex struct {
	Harness string
	Msg     string
	Pos     string
	Values  []uint64
	Kind    string
}

// Explorer runs every path of one harness.
type Explorer struct {
	h        *Harness
	p        *Prog
	ms       []*Machine
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []*pathJob
	active   int
	stop     bool
	deadline time.Time
	maxPaths int64
	rng      *rand.Rand
	sampleN  int

	Results   map[string]int64 // by kind
	AbortMsgs map[string]int64
	Cexs      []Cex
	cexSeen   map[string]int
	Samples   []pathResult // completed paths, for native validation
	nComplete int64
	Aborts    []pathResult
	Covers    map[string]int64
	Left      int
	MaxDec    int
	FirstObs  []string
	TimedOut  bool
}

func (e *Explorer) run() {
	e.cond = sync.NewCond(&e.mu)
	e.Results = map[string]int64{}
	e.AbortMsgs = map[string]int64{}
	e.Covers = map[string]int64{}
	e.cexSeen = map[string]int{}
	e.stack = []*pathJob{{}}
	var wg sync.WaitGroup
	for _, m := range e.ms {
		m := m
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker(m)
		}()
	}
	wg.Wait()
	e.Left = len(e.stack)
	if e.Left > 0 {
		e.TimedOut = true
	}
}

func (e *Explorer) worker(m *Machine) {
	m.emit = func(j *pathJob) {
		e.mu.Lock()
		e.stack = append(e.stack, j)
		e.mu.Unlock()
		e.cond.Signal()
	}
	for {
		e.mu.Lock()
		for len(e.stack) == 0 && e.active > 0 && !e.stop {
			e.cond.Wait()
		}
		if e.stop || len(e.stack) == 0 {
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		if time.Now().After(e.deadline) || (e.maxPaths > 0 && e.nComplete >= e.maxPaths) {
			e.stop = true
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		j := e.stack[len(e.stack)-1]
		e.stack = e.stack[:len(e.stack)-1]
		e.active++
		e.mu.Unlock()

		r := e.runPath(m, j)

		e.mu.Lock()
		e.active--
		e.note(r, len(m.dec))
		if r.kind == "timeout" {
			e.stack = append(e.stack, j)
			e.stop = true
		}
		e.mu.Unlock()
		e.cond.Broadcast()
	}
}

func (e *Explorer) note(r pathResult, nd int) {
	e.Results[r.kind]++
	if nd > e.MaxDec {
		e.MaxDec = nd
	}
	switch r.kind {
	case "ok":
		e.nComplete++
		for _, c := range r.covers {
			e.Covers[c]++
		}
		if e.FirstObs == nil {
			e.FirstObs = r.obs
		}
		// reservoir sample
		if len(e.Samples) < e.sampleN {
			e.Samples = append(e.Samples, r)
		} else if k := e.rng.Int63n(e.nComplete); k < int64(e.sampleN) {
			e.Samples[k] = r
		}
	case "panic":
		e.addCex(Cex{e.h.Name, "panic: " + r.msg, r.pos, r.values, "panic"})
	case "assume", "violation", "timeout":
	default:
		e.AbortMsgs[r.kind+": "+r.msg]++
		if len(e.Aborts) < 4000 {
			e.Aborts = append(e.Aborts, r)
		}
	}
}

func (e *Explorer) addCex(c Cex) {
	k := c.Msg
	e.cexSeen[k]++
	if e.cexSeen[k] > 5 {
		return
	}
	e.Cexs = append(e.Cexs, c)
}

func (e *Explorer) runPath(m *Machine, j *pathJob) (res pathResult) {
	m.startPath(j)
	m.deadline = e.deadline
	m.onAssert = func(msg string, model []uint64) {
		c := Cex{e.h.Name, msg, m.posOf(), m.nondetValues(model), "assert"}
		e.mu.Lock()
		e.addCex(c)
		e.mu.Unlock()
	}
	defer m.endPath()
	defer func() {
		m.stats.Steps += m.steps
		m.stats.Paths++
		r := recover()
		if r == nil {
			confirmPath(m, &res)
			return
		}
		defer confirmPath(m, &res)
		m.inInit = false
		m.initAllowed = false
		res.pos = m.posOf()
		switch x := r.(type) {
		case engineAbort:
			res.kind, res.msg = x.kind, x.msg
			if x.kind == "solver" {
				m.sol.restart()
			}
		case targetPanic:
			res.kind = "panic"
			res.msg = m.panicStr(x)
		default:
			res.kind = "engine"
			res.msg = fmt.Sprint(r)
			if os.Getenv("VSYM_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "engine panic at %s: %v\n%s\n", m.posOf(), r, debug.Stack())
			}
		}
		res.values = m.nondetValues(m.model)
	}()
	m.callFn(nil, e.h.fn, nil, nil)
	res.kind = "ok"
	res.values = m.nondetValues(m.model)
	res.hash = m.obsHash(m.model)
	for c := range m.covers {
		res.covers = append(res.covers, c)
	}
	sort.Strings(res.covers)
	for _, o := range m.obs {
		if len(res.obs) < 12 {
			s := m.modelStr(o.v, m.model)
			if len(s) > 400 {
				s = s[:400] + "..."
			}
			res.obs = append(res.obs, o.label+"="+s)
		}
	}
	m.stats.Completed++
	return res
}

// confirmPath lets the solver decide what was decided without it.
func confirmPath(m *Machine, res *pathResult) {
	if res.kind == "timeout" || res.kind == "solver" || res.kind == "engine" {
		return
	}
	defer func() {
		m.sol.noModel = false
		if r := recover(); r != nil {
			m.sol.restart()
			m.stats.DomUnk += int64(len(m.claims))
		}
	}()
	if err := m.confirm(); err != nil {
		res.kind, res.msg = "unconfirmed", err.Error()
	}
}

func (m *Machine) panicStr(p targetPanic) string {
	if p.v.t == nil {
		return "nil"
	}
	switch p.v.v.(type) {
	case string, *symStr:
		s := m.modelStr(p.v.v, m.model)
		if m.identical(p.v.t, m.p.errStr) {
			s = "runtime error: " + s
		}
		return s
	}
	// an error value: ask it
	out := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				out = fmt.Sprintf("value of type %s", p.v.t)
			}
		}()
		for _, n := range []string{"Error", "String"} {
			if f := m.methodByName(p.v.t, nil, n); f != nil {
				out = m.modelStr(m.callFn(nil, f, []value{p.v.v}, nil), m.model)
				return
			}
		}
		out = fmt.Sprintf("value of type %s", p.v.t)
	}()
	return out
}
