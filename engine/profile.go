package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
)

// With VSYM_FORKS set, the positions at which paths fork are counted, to help
// in tuning harnesses.
var (
	forkHist map[string]int
	forkMu   sync.Mutex
)

func init() {
	if os.Getenv("VSYM_FORKS") != "" {
		forkHist = map[string]int{}
	}
}

func forkAt(pos string) {
	forkMu.Lock()
	forkHist[pos]++
	forkMu.Unlock()
}

func printForks() {
	type pc struct {
		p string
		n int
	}
	var l []pc
	for p, n := range forkHist {
		l = append(l, pc{p, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, e := range l {
		if i == 15 {
			break
		}
		fmt.Println("   fork", e.n, e.p)
	}
}
