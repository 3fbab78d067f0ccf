package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type satResult int

const (
	unsat satResult = iota
	sat
	unknown
)

// Solver drives one SMT process over a pipe.  Each path gets its own scope.
type Solver struct {
	name    string
	args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	tb      *TB
	buf     bytes.Buffer
	nvars   int
	ndefs   int32
	nq      int
	defined []*Term
	paths   int

	Queries   int
	Sat       int
	Unsat     int
	Unknown   int
	Errors    int
	Time      time.Duration
	MaxTime   time.Duration
	timeoutMS int
	noModel   bool
	log       io.Writer
}

func solverCmd(kind string, timeoutMS int) (string, []string) {
	switch kind {
	case "cvc5":
		return "cvc5", []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", timeoutMS)}
	case "z3-new":
		return "z3-new", []string{"-in", "-smt2"}
	default:
		return "z3", []string{"-in", "-smt2"}
	}
}

func newSolver(kind string, tb *TB, timeoutMS int) (*Solver, error) {
	n, a := solverCmd(kind, timeoutMS)
	s := &Solver{name: n, args: a, tb: tb, timeoutMS: timeoutMS}
	if f := os.Getenv("VSYM_SMTLOG"); f != "" {
		w, _ := os.Create(fmt.Sprintf("%s.%p", f, s))
		s.log = w
	}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.name, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.buf.Reset()
	s.buf.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	if strings.HasPrefix(s.name, "z3") {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", s.timeoutMS)
	}
	s.buf.WriteString("(push 1)\n")
	s.nvars = 0
	s.defined = s.defined[:0]
	return nil
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	io.WriteString(s.in, "(exit)\n")
	s.in.Close()
	done := make(chan struct{})
	go func() { s.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		s.cmd.Process.Kill()
	}
	s.cmd = nil
}

// newPath drops everything asserted so far.
func (s *Solver) newPath() {
	s.paths++
	if s.paths%2000 == 0 {
		s.Close()
		s.start()
		return
	}
	s.nvars = 0
	s.ndefs = 0
	for _, t := range s.defined {
		t.name = -1
	}
	s.defined = s.defined[:0]
	s.buf.WriteString("(pop 1)\n(push 1)\n")
}

func (s *Solver) assert(t *Term) {
	r := s.ref(t)
	s.buf.WriteString("(assert ")
	s.buf.WriteString(r)
	s.buf.WriteString(")\n")
}

func (s *Solver) flush() error {
	if s.log != nil {
		s.log.Write(s.buf.Bytes())
	}
	_, err := s.in.Write(s.buf.Bytes())
	s.buf.Reset()
	return err
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

// check decides the asserted constraints together with cond; on sat it returns
// a model for all variables.
func (s *Solver) check(cond *Term) (satResult, []uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
	}()
	s.Queries++
	// declare every variable so that a model covers all of them
	for _, v := range s.tb.vars {
		s.ref(v)
	}
	if cond != nil {
		r := s.ref(cond)
		s.nq++
		fmt.Fprintf(&s.buf, "(declare-const q%d Bool)\n(assert (= q%d %s))\n(check-sat-assuming (q%d))\n", s.nq, s.nq, r, s.nq)
	} else {
		s.buf.WriteString("(check-sat)\n")
	}
	if err := s.flush(); err != nil {
		return s.fail()
	}
	l, err := s.readLine()
	if err != nil {
		return s.fail()
	}
	switch l {
	case "unsat":
		s.Unsat++
		return unsat, nil
	case "unknown", "timeout":
		s.Unknown++
		return unknown, nil
	case "sat":
	default:
		if os.Getenv("VSYM_SMTERR") != "" {
			fmt.Fprintln(os.Stderr, "solver says:", l)
		}
		// any "(error" line makes the answer inconclusive
		return s.fail()
	}
	s.Sat++
	if s.noModel {
		return sat, nil
	}
	n := len(s.tb.vars)
	model := make([]uint64, n)
	if n == 0 {
		return sat, model
	}
	s.buf.WriteString("(get-value (")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&s.buf, "v%d ", i)
	}
	s.buf.WriteString("))\n")
	if s.flush() != nil {
		return s.fail()
	}
	txt, err := s.readSexpr()
	if err != nil {
		return s.fail()
	}
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(toks); i++ {
		if toks[i][0] != 'v' {
			continue
		}
		id, err := strconv.Atoi(toks[i][1:])
		if err != nil || id >= n {
			continue
		}
		val := toks[i+1]
		switch {
		case val == "true":
			model[id] = 1
		case val == "false":
			model[id] = 0
		case strings.HasPrefix(val, "#x"):
			model[id], _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			model[id], _ = strconv.ParseUint(val[2:], 2, 64)
		case val == "_":
			if i+2 < len(toks) && strings.HasPrefix(toks[i+2], "bv") {
				model[id], _ = strconv.ParseUint(toks[i+2][2:], 10, 64)
			}
		}
	}
	return sat, model
}

func (s *Solver) readSexpr() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// fail restarts the solver after an error; the answer is inconclusive.
func (s *Solver) fail() (satResult, []uint64) {
	s.Errors++
	s.Unknown++
	panic(engineAbort{kind: "solver", msg: "solver error or exit"})
}

func (s *Solver) restart() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.start()
}
