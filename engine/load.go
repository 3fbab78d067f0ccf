package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const harnessDir = "zzverif" // virtual directory below the repository

func goEnv(repo string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		switch strings.SplitN(e, "=", 2)[0] {
		case "GOFLAGS", "GOPROXY", "GOWORK", "GOTOOLCHAIN", "GO111MODULE", "GOOS", "GOARCH", "CGO_ENABLED", "PWD":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "PWD="+repo)
}

// harnessFiles maps virtual file names below the repository to harness sources.
func harnessFiles(repo, dir string) (map[string]string, error) {
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil || len(fs) == 0 {
		return nil, fmt.Errorf("no harness files in %s", dir)
	}
	sort.Strings(fs)
	r := map[string]string{}
	for _, f := range fs {
		r[filepath.Join(repo, harnessDir, filepath.Base(f))] = f
	}
	return r, nil
}

func loadProg(repo, hdir string, tags string) (*Prog, error) {
	files, err := harnessFiles(repo, hdir)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for v, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		overlay[v] = b
	}
	var flags []string
	if tags != "" {
		flags = append(flags, "-tags="+tags)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repo, Overlay: overlay, Env: goEnv(repo), BuildFlags: flags}
	pkgs, err := packages.Load(cfg, "./"+harnessDir)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{prog: prog, fset: prog.Fset, main: spkgs[0], target: map[*ssa.Package]bool{}, allPkgs: map[string]*ssa.Package{}, sizes: types.SizesFor("gc", "amd64")}
	for _, sp := range prog.AllPackages() {
		p.allPkgs[sp.Pkg.Path()] = sp
	}
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		if q.Module != nil && q.Module.Main && q != pkgs[0] {
			if sp := p.allPkgs[q.PkgPath]; sp != nil {
				p.target[sp] = true
			}
		}
	})
	if len(p.target) == 0 {
		return nil, fmt.Errorf("load: no package of the repository is used by the harness")
	}
	p.canonM.SetHasher(p.hasher)
	if rp := p.allPkgs["runtime"]; rp != nil {
		p.errStr = rp.Pkg.Scope().Lookup("errorString").Type()
	}
	if rp := p.allPkgs["reflect"]; rp != nil {
		p.rtypeT = types.NewPointer(rp.Pkg.Scope().Lookup("rtype").Type())
		p.valueT = rp.Pkg.Scope().Lookup("Value").Type()
		p.reflPkg = rp
	}
	return p, nil
}
