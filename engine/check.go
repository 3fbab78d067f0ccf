package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type knownFinding struct {
	Kind     string `json:"kind"` // "finding" or "fixed"
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Message  string `json:"message"` // regular expression matched against the assertion message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type harnessReport struct {
	Harness     string           `json:"harness"`
	What        string           `json:"what"`
	Bound       string           `json:"bound"`
	Paths       int64            `json:"paths_completed"`
	Results     map[string]int64 `json:"path_outcomes"`
	Exhausted   bool             `json:"all_paths_within_bound_explored"`
	Left        int              `json:"paths_left_unexplored"`
	MaxDec      int              `json:"longest_decision_sequence"`
	Asserts     int64            `json:"assertions_decided"`
	Covers      map[string]int64 `json:"covers"`
	Missing     []string         `json:"covers_missing,omitempty"`
	Aborts      map[string]int64 `json:"aborted_paths,omitempty"`
	Validated   int              `json:"paths_replayed_natively"`
	Mismatch    int              `json:"native_mismatches"`
	AbortsRun   int              `json:"aborted_paths_run_natively"`
	Unconfirmed int              `json:"counterexamples_not_reproduced"`
	Seconds     float64          `json:"seconds"`
	Sample      any              `json:"sample,omitempty"`
}

var exitCode int32

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tierS := fs.String("tier", "quick", "")
	workers := fs.Int("j", 8, "")
	solver := fs.String("solver", "z3", "")
	budget := fs.Int("budget", 0, "seconds for the whole exploration (0: by tier)")
	keep := fs.Bool("keepgoing", false, "go on with other harnesses after a violation")
	pat := fs.String("run", "", "only harnesses matching")
	fs.Parse(args)
	t0 := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	tier := 0
	if *tierS == "thorough" {
		tier = 1
	}
	if *budget == 0 {
		*budget = 150
		if tier == 1 {
			*budget = 800
		}
	}
	hdir := filepath.Join(*verif, "harness")
	fail := func(err error) int {
		fmt.Fprintln(os.Stderr, "vsym:", err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "vsym")
	if err != nil {
		return fail(err)
	}
	defer os.RemoveAll(tmp)
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		<-sig
		os.RemoveAll(tmp)
		os.Exit(3)
	}()

	hs, natErr := []*Harness(nil), error(nil)
	p, err := loadProg(*repo, hdir, "")
	if err != nil {
		return fail(err)
	}
	all, err := findHarnesses(p, hdir)
	if err != nil {
		return fail(err)
	}
	for _, h := range all {
		if h.Prop != *prop || (h.Tier == "thorough" && tier == 0) {
			continue
		}
		if *pat != "" && !regexp.MustCompile(*pat).MatchString(h.Name) {
			continue
		}
		hs = append(hs, h)
	}
	if len(hs) == 0 {
		return fail(fmt.Errorf("no harness for %s", *prop))
	}
	nat, natErr := buildNative(*repo, hdir, "", tmp, all)
	if natErr != nil {
		return fail(natErr)
	}
	nats := []*Native{nat}
	for i := 1; i < *workers; i++ {
		nats = append(nats, &Native{bin: nat.bin, dir: nat.dir})
	}
	defer func() {
		for _, n := range nats {
			n.stop()
		}
	}()
	var ms []*Machine
	for i := 0; i < *workers; i++ {
		m, err := p.newMachine(*solver, 10000)
		if err != nil {
			return fail(err)
		}
		m.tier = tier
		m.stats = &Stats{}
		m.maxSteps = 400_000_000
		if tier == 1 {
			m.maxSteps = 4_000_000_000
		}
		ms = append(ms, m)
	}
	defer func() {
		for _, m := range ms {
			m.sol.Close()
		}
	}()
	var known []knownFinding
	if b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			return fail(err)
		}
	}
	rng := rand.New(rand.NewSource(seed))
	end := t0.Add(time.Duration(*budget) * time.Second)
	var reps []*harnessReport
	var violations []string
	knownSeen := map[int]bool{}
	replayDir := filepath.Join(*verif, "evidence", "replay")
	os.MkdirAll(replayDir, 0o755)
	nrep := 0
	var validated, abortsRun, mismatches, unconfirmed int
	report := func(h *Harness, msg string, vals []uint64, how string, nr nRes) {
		for i, k := range known {
			if k.Kind == "finding" && k.Property == *prop && (k.Harness == "" || k.Harness == h.Name) && regexp.MustCompile(k.Message).MatchString(msg) {
				knownSeen[i] = true
				return
			}
		}
		nrep++
		f := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.json", *prop, h.Name, nrep))
		b, _ := json.MarshalIndent(map[string]any{"property": *prop, "harness": h.Name, "what": h.Doc, "tier": tier, "values": vals, "repeat": h.Repeat,
			"message": msg, "found_by": how, "native_result": nr.Status + ": " + nr.Msg, "native_observations": nr.Obs,
			"replay_command": "cd /verif && ./check.sh replay " + f}, "", " ")
		os.WriteFile(f, b, 0o644)
		violations = append(violations, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, f))
		fmt.Printf("%s: %s (%s); native: %s %s\n", h.Name, msg, how, nr.Status, nr.Msg)
	}
	for hi, h := range hs {
		if len(violations) > 0 && tier == 0 && !*keep {
			fmt.Printf("stopped after a violation, %d harnesses not run\n", len(hs)-hi)
			break
		}
		left := time.Until(end)
		share := left / time.Duration(len(hs)-hi)
		// unused time of earlier harnesses flows on; allow three fair shares
		lim := share * 3
		if lim > left {
			lim = left
		}
		if lim < 2*time.Second {
			lim = 2 * time.Second
		}
		if h.Seconds > 0 && tier == 0 && lim > time.Duration(h.Seconds)*time.Second {
			lim = time.Duration(h.Seconds) * time.Second
		}
		hst := time.Now()
		e := &Explorer{h: h, p: p, ms: ms, deadline: hst.Add(lim), rng: rng, sampleN: 64}
		if tier == 1 {
			e.sampleN = 400
		}
		var a0 int64
		for _, m := range ms {
			a0 += m.stats.Asserts
		}
		e.run()
		var a1 int64
		for _, m := range ms {
			a1 += m.stats.Asserts
		}
		r := &harnessReport{Harness: h.Name, What: h.Doc, Bound: h.Bound, Paths: e.nComplete, Results: e.Results, Left: e.Left, MaxDec: e.MaxDec, Asserts: a1 - a0, Covers: e.Covers, Aborts: e.AbortMsgs}
		r.Exhausted = e.Left == 0 && len(e.AbortMsgs) == 0
		// replay counterexamples against the real build
		reported := map[string]int{}
		for _, c := range e.Cexs {
			if reported[c.Msg] > 0 {
				continue
			}
			rep := 0
			if h.Repeat > 0 {
				rep = h.Repeat
			}
			nr := nat.run(nReq{h.Name, tier, c.Values, rep})
			if nr.bad() {
				reported[c.Msg]++
				msg := c.Msg
				if nr.Msg != "" {
					msg = nr.Msg
				}
				report(h, msg, c.Values, "counterexample from the solver at "+c.Pos, nr)
			} else {
				r.Unconfirmed++
				unconfirmed++
				fmt.Fprintf(os.Stderr, "note: %s: counterexample %q %v at %s not reproduced natively (%s)\n", h.Name, c.Msg, c.Values, c.Pos, nr.Status)
			}
		}
		// completed paths: compare what the engine computed with the real build
		var mu sync.Mutex
		var stop atomic.Bool
		runAll := func(list []pathResult, f func(pr pathResult, nr nRes)) {
			var wg sync.WaitGroup
			var next int64 = -1
			stop.Store(false)
			for _, n := range nats {
				n := n
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						k := int(atomic.AddInt64(&next, 1))
						if k >= len(list) || stop.Load() {
							return
						}
						nr := n.run(nReq{h.Name, tier, list[k].values, 0})
						mu.Lock()
						f(list[k], nr)
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
		}
		natBad := 0
		runAll(e.Samples, func(pr pathResult, nr nRes) {
			if nr.bad() {
				natBad++
				stop.Store(true)
				if natBad == 1 {
					report(h, nr.Msg, pr.values, "native run of an explored path", nr)
				}
				return
			}
			if nr.Status == "ok" && nr.Hash == pr.hash && strings.Join(nr.Covers, " ") == strings.Join(pr.covers, " ") {
				r.Validated++
				validated++
				return
			}
			r.Mismatch++
			mismatches++
			if r.Mismatch <= 3 {
				fmt.Fprintf(os.Stderr, "note: %s: engine and native disagree on %v: native %s %s %v, engine %v covers %v vs %v\n", h.Name, pr.values, nr.Status, nr.Msg, nr.Obs, pr.obs, nr.Covers, pr.covers)
			}
		})
		// paths the engine could not finish: their inputs are at least run natively
		ab := e.Aborts
		if len(ab) > 400 {
			rng.Shuffle(len(ab), func(i, j int) { ab[i], ab[j] = ab[j], ab[i] })
			ab = ab[:400]
		}
		natBad = 0
		runAll(ab, func(pr pathResult, nr nRes) {
			abortsRun++
			r.AbortsRun++
			if nr.bad() {
				natBad++
				stop.Store(true)
				if natBad == 1 {
					report(h, nr.Msg, pr.values, "input of a path the engine could not finish ("+pr.kind+"), run natively", nr)
				}
			}
		})
		for _, c := range h.Covers {
			if e.Covers[c] == 0 {
				r.Missing = append(r.Missing, c)
				fmt.Fprintf(os.Stderr, "note: %s: cover %q not reached\n", h.Name, c)
			}
		}
		if len(e.Samples) > 0 {
			r.Sample = map[string]any{"inputs": e.Samples[0].values, "observed": e.Samples[0].obs}
		}
		r.Seconds = time.Since(hst).Seconds()
		reps = append(reps, r)
		fmt.Printf("%-40s paths=%d asserts=%d left=%d aborted=%d validated=%d %.1fs\n", h.Name, r.Paths, r.Asserts, r.Left, sumMap(r.Aborts), r.Validated, r.Seconds)
	}
	for i := range known {
		if knownSeen[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, known[i].What)
		}
	}
	writeEvidence(*verif, *prop, *tierS, seed, t0, reps, ms, p, hs, validated, mismatches, abortsRun, unconfirmed, len(violations), nats, *solver)
	seen := map[string]bool{}
	for _, v := range violations {
		if !seen[v] {
			seen[v] = true
			fmt.Println(v)
		}
	}
	if len(violations) > 0 {
		return 1
	}
	return 0
}

func sumMap(m map[string]int64) int64 {
	var n int64
	for _, v := range m {
		n += v
	}
	return n
}

func writeEvidence(verif, prop, tier string, seed int64, t0 time.Time, reps []*harnessReport, ms []*Machine, p *Prog, hs []*Harness, validated, mismatches, abortsRun, unconfirmed, nviol int, nats []*Native, solver string) {
	var st Stats
	var q, qs, qu, qk int
	var qt, qmax time.Duration
	fn := map[string]int64{}
	lib := map[string]bool{}
	instrs := 0
	counted := map[string]bool{}
	initErrs := map[string]bool{}
	for _, m := range ms {
		s := m.stats
		st.Paths += s.Paths
		st.Completed += s.Completed
		st.Steps += s.Steps
		st.Decisions += s.Decisions
		st.Asserts += s.Asserts
		st.AssertNorm += s.AssertNorm
		st.AssertSMT += s.AssertSMT
		st.AssertUnk += s.AssertUnk
		st.Branches += s.Branches
		st.BrDom += s.BrDom
		st.BrSMT += s.BrSMT
		st.BrUnk += s.BrUnk
		st.DomConf += s.DomConf
		st.DomUnk += s.DomUnk
		st.PathConf += s.PathConf
		q += m.sol.Queries
		qs += m.sol.Sat
		qu += m.sol.Unsat
		qk += m.sol.Unknown
		qt += m.sol.Time
		if m.sol.MaxTime > qmax {
			qmax = m.sol.MaxTime
		}
		for k := range m.initErrs {
			initErrs[k] = true
		}
		for _, c := range m.cfns {
			if c.hits == 0 {
				continue
			}
			if c.target {
				fn[c.name] += c.hits
				if !counted[c.name] {
					counted[c.name] = true
					instrs += len(c.code)
				}
			} else if c.fn.Pkg != nil && c.fn.Pkg != p.main {
				lib[c.fn.Pkg.Pkg.Path()] = true
			}
		}
	}
	var fns, libs []string
	for k := range fn {
		fns = append(fns, k)
	}
	for k := range lib {
		libs = append(libs, k)
	}
	sort.Strings(fns)
	sort.Strings(libs)
	var runs int64
	for _, n := range nats {
		runs += n.Runs
	}
	samples := []any{}
	exhausted := true
	for _, r := range reps {
		if r.Sample != nil {
			samples = append(samples, map[string]any{"harness": r.Harness, "path": r.Sample})
		}
		exhausted = exhausted && r.Exhausted
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        st.Decisions + st.Paths,
			"transitions":                   st.Steps / 4,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"exhaustive":                    exhausted,
			"explanation":                   "states: nodes of the symbolic path tree (decisions taken plus path ends); transitions: basic blocks executed symbolically; traces: completed paths whose model was run through the natively compiled repository with identical observations",
			"paths_started":                 st.Paths, "paths_completed": st.Completed,
			"symbolic_branches": st.Branches, "branches_decided_by_byte_domain": st.BrDom, "branches_sent_to_solver": st.BrSMT, "branches_undecided": st.BrUnk,
			"one_sided_branches_confirmed_unsat_by_solver": st.DomConf, "one_sided_branches_not_confirmed": st.DomUnk, "path_conditions_confirmed_sat_by_solver": st.PathConf,
			"assertions": st.Asserts, "assertions_constant_after_normalisation": st.AssertNorm, "assertions_proved_unsat": st.AssertSMT, "assertions_undecided": st.AssertUnk,
			"solver": solver, "solver_queries": q, "solver_sat": qs, "solver_unsat": qu, "solver_unknown": qk, "solver_seconds_total": qt.Seconds(), "solver_seconds_max_query": qmax.Seconds(),
			"functions_encoded": fns, "ssa_instructions_encoded": instrs, "library_packages_encoded": libs,
			"harnesses": reps, "native_runs": runs, "native_mismatches": mismatches, "aborted_paths_run_natively": abortsRun, "counterexamples_not_reproduced": unconfirmed,
			"initialisers_skipped": keys(initErrs),
		},
		"assumptions": []string{
			"inputs are bounded as stated per harness; nothing is claimed outside those bounds or for paths listed as unexplored or aborted",
			"intrinsic models: sync and sync/atomic are sequential, internal/bytealg is modelled by its specification, unicode predicates and case maps by range tables computed from the same toolchain's unicode package over all code points, reflect by a model on go/types, map iteration by insertion order unless the harness forks over all orders, the file system and environment by a tree of directories and files in memory (no links, permissions or concurrent changes)",
			"SSA construction (golang.org/x/tools/go/ssa) and the SMT solver are trusted; sampled paths are re-run against the native build and compared",
		},
		"wall_s": time.Since(t0).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp struct {
		Property, Harness string
		Tier, Repeat      int
		Values            []uint64
	}
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "vsym")
	defer os.RemoveAll(tmp)
	hdir := filepath.Join(*verif, "harness")
	p, err := loadProg(*repo, hdir, "")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	all, _ := findHarnesses(p, hdir)
	nat, err := buildNative(*repo, hdir, "", tmp, all)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	nr := nat.run(nReq{rp.Harness, rp.Tier, rp.Values, rp.Repeat})
	nat.stop()
	for _, o := range nr.Obs {
		fmt.Printf("%s = %q\n", o[0], o[1])
	}
	fmt.Printf("%s %s\n", nr.Status, nr.Msg)
	if nr.bad() {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, fs.Arg(0))
		return 1
	}
	return 0
}
