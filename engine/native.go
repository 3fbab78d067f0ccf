package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Native is the harness compiled by the real toolchain against the real tree.
type Native struct {
	bin  string
	dir  string
	mu   sync.Mutex
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *bytes.Buffer
	Runs int64
}

type nReq struct {
	H      string
	Tier   int
	V      []uint64
	Repeat int
}

type nRes struct {
	Status string
	Msg    string
	Hash   uint64
	Covers []string
	Obs    [][2]string
}

func buildNative(repo, hdir, tags, dir string, hs []*Harness) (*Native, error) {
	files, err := harnessFiles(repo, hdir)
	if err != nil {
		return nil, err
	}
	var reg strings.Builder
	reg.WriteString("package main\n\nfunc init() {\n")
	for _, h := range hs {
		fmt.Fprintf(&reg, "\tvRegistry[%q] = %s\n", h.Name, h.Name)
	}
	reg.WriteString("}\n")
	rf := filepath.Join(dir, "zz_registry.go")
	if err := os.WriteFile(rf, []byte(reg.String()), 0o644); err != nil {
		return nil, err
	}
	files[filepath.Join(repo, harnessDir, "zz_registry.go")] = rf
	ov, _ := json.Marshal(map[string]any{"Replace": files})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, ov, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "native"+tags)
	args := []string{"build", "-overlay", of, "-o", bin}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	args = append(args, "./"+harnessDir)
	c := exec.Command("go", args...)
	c.Dir = repo
	c.Env = goEnv(repo)
	if out, err := c.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("native build: %v\n%s", err, out)
	}
	return &Native{bin: bin, dir: dir}, nil
}

func (n *Native) start() error {
	os.Chmod(n.dir, 0o711) // harnesses that write files become another user
	n.cmd = exec.Command(n.bin)
	n.cmd.Dir = n.dir
	n.cmd.Env = []string{"HOME=" + n.dir, "TMPDIR=" + n.dir, "GOTRACEBACK=none", "GOMEMLIMIT=2GiB"}
	in, err := n.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := n.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	n.errb = &bytes.Buffer{}
	n.cmd.Stderr = n.errb
	if err := n.cmd.Start(); err != nil {
		return err
	}
	n.in, n.out = in, bufio.NewReaderSize(out, 1<<20)
	return nil
}

func (n *Native) stop() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

// run executes one replay natively; a crash or hang of the process is reported as such.
func (n *Native) run(rq nReq) nRes {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.Runs++
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return nRes{Status: "error", Msg: err.Error()}
		}
	}
	b, _ := json.Marshal(rq)
	if _, err := n.in.Write(append(b, '\n')); err != nil {
		n.stop()
		return nRes{Status: "error", Msg: err.Error()}
	}
	type ans struct {
		l   []byte
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		l, err := n.out.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			n.cmd.Wait()
			msg := n.errb.String()
			if len(msg) > 300 {
				msg = msg[:300]
			}
			n.cmd = nil
			return nRes{Status: "crash", Msg: strings.TrimSpace(msg)}
		}
		var r nRes
		if err := json.Unmarshal(a.l, &r); err != nil {
			return nRes{Status: "error", Msg: err.Error()}
		}
		return r
	case <-time.After(30 * time.Second):
		n.stop()
		return nRes{Status: "hang", Msg: "no answer within 30 s"}
	}
}

func (r nRes) bad() bool {
	return r.Status == "assert" || r.Status == "panic" || r.Status == "crash" || r.Status == "hang"
}
