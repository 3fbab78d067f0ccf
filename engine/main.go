package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsym check|explore|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "explore":
		cmdExplore(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
}

// explore runs harnesses by pattern and prints what happened (development aid).
func cmdExplore(args []string) {
	fs := flag.NewFlagSet("explore", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	hdir := fs.String("harness", "/verif/harness", "")
	pat := fs.String("run", ".", "")
	workers := fs.Int("j", 8, "")
	secs := fs.Int("s", 30, "")
	tier := fs.Int("tier", 0, "")
	tags := fs.String("tags", "", "")
	solver := fs.String("solver", "z3", "")
	maxPaths := fs.Int64("paths", 0, "")
	fs.Parse(args)
	p, err := loadProg(*repo, *hdir, *tags)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	hs, err := findHarnesses(p, *hdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	re := regexp.MustCompile(*pat)
	var ms []*Machine
	for i := 0; i < *workers; i++ {
		m, err := p.newMachine(*solver, 10000)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		m.tier = *tier
		m.stats = &Stats{}
		m.maxSteps = 400_000_000
		ms = append(ms, m)
	}
	for _, h := range hs {
		if !re.MatchString(h.Name) {
			continue
		}
		t0 := time.Now()
		e := &Explorer{h: h, p: p, ms: ms, deadline: t0.Add(time.Duration(*secs) * time.Second), rng: rand.New(rand.NewSource(1)), sampleN: 20, maxPaths: *maxPaths}
		for _, m := range ms {
			*m.stats = Stats{}
		}
		e.run()
		var st Stats
		q := 0
		var qt time.Duration
		for _, m := range ms {
			st.Paths += m.stats.Paths
			st.Steps += m.stats.Steps
			st.Asserts += m.stats.Asserts
			st.AssertSMT += m.stats.AssertSMT
			st.AssertNorm += m.stats.AssertNorm
			st.Branches += m.stats.Branches
			st.BrSMT += m.stats.BrSMT
			st.BrDom += m.stats.BrDom
			st.DomConf += m.stats.DomConf
			st.PathConf += m.stats.PathConf
			q += m.sol.Queries
			qt += m.sol.Time
		}
		fmt.Printf("%s: %.1fs results=%v left=%d steps=%d maxdec=%d asserts=%d(smt %d) branches=%d(smt %d dom %d) conf=%d/%d queries=%d %.1fs covers=%v\n", h.Name, time.Since(t0).Seconds(), e.Results, e.Left, st.Steps, e.MaxDec, st.Asserts, st.AssertSMT, st.Branches, st.BrSMT, st.BrDom, st.DomConf, st.PathConf, q, qt.Seconds(), e.Covers)
		for k, n := range e.AbortMsgs {
			fmt.Printf("   abort %d x %s\n", n, k)
		}
		for i, a := range e.Aborts {
			if i < 3 {
				fmt.Printf("   at %s values=%v\n", a.pos, a.values)
			}
		}
		for _, c := range e.Cexs {
			fmt.Printf("   CEX %s at %s values=%v\n", c.Msg, c.Pos, c.Values)
		}
		if len(e.FirstObs) > 0 {
			fmt.Printf("   obs %q\n", e.FirstObs)
		}
	}
	errs := map[string]bool{}
	for _, m := range ms {
		for k := range m.initErrs {
			errs[k] = true
		}
		m.sol.Close()
	}
	var ks []string
	for k := range errs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	printForks()
	if os.Getenv("VSYM_DEBUG") != "" {
		for _, k := range ks {
			fmt.Println("   init:", k)
		}
	}
}
