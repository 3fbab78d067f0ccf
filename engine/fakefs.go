package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// osModel is the function of the harness that stands for one of package os: the
// harness models the file system and the environment in Go (vfs.go).
func osModel(m *Machine, fn *ssa.Function) *ssa.Function {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != "os" || m.p.main == nil || fn.Synthetic != "" {
		return nil
	}
	name := fn.Name()
	if strings.HasPrefix(fn.String(), "(*os.File).") {
		name = "File" + name
	} else if fn.Signature.Recv() != nil {
		return nil
	}
	return m.p.main.Func("vfs" + name)
}
