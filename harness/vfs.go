package main

import (
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// A model of the file system and the environment. In symbolic runs the engine
// calls vfsX in place of os.X, and vfsFileX in place of (*os.File).X. Natively
// the real functions are called, by an unprivileged user in a directory of the
// check's own.

type vfsNode struct {
	dir  bool
	data []byte
	mode os.FileMode
}

type vfsHandle struct {
	node   *vfsNode
	name   string
	flag   int
	off    int
	closed bool
}

var vfsNodes map[string]*vfsNode
var vfsHandles map[*os.File]*vfsHandle
var vfsEnv map[string]string
var vfsOpened int

const vfsCwd = "/w"

// vfsScratch starts with an empty directory, the current one, and an empty
// environment. The directory is gone after cleanup.
func vfsScratch() (cleanup func()) {
	if vSymbolic() {
		vfsNodes = map[string]*vfsNode{}
		for _, d := range []string{"/", "/w", "/tmp", "/tmp/scratch"} {
			vfsNodes[d] = &vfsNode{dir: true, mode: 0777}
		}
		vfsHandles = map[*os.File]*vfsHandle{}
		vfsEnv = map[string]string{}
		vfsOpened = 0
		return func() {}
	}
	return vfsNative()
}

const vfsUser = 65534

func vfsNative() func() {
	base := filepath.Join(os.Getenv("HOME"), "fs")
	fail := func(err error) {
		if err != nil {
			panic(vAbort{"error", "scratch directory: " + err.Error()})
		}
	}
	if os.Getuid() == 0 {
		fail(os.MkdirAll(base, 0700))
		fail(os.Chown(base, vfsUser, vfsUser))
		fail(os.Chdir(base))
		fail(syscall.Setgroups(nil))
		fail(syscall.Setgid(vfsUser))
		fail(syscall.Setuid(vfsUser))
		if os.Getuid() != vfsUser || syscall.Access("/etc/shadow", 4) == nil {
			fail(os.ErrPermission)
		}
	}
	dir := filepath.Join(base, strconv.FormatInt(time.Now().UnixNano(), 36))
	fail(os.Mkdir(dir, 0700))
	fail(os.Chdir(dir))
	fail(os.Unsetenv("GOPATH"))
	return func() {
		os.Chdir(base)
		os.RemoveAll(dir)
	}
}

// vfsList lists what is below the current directory, directories with a slash
// at the end.
func vfsList() []string {
	var ret []string
	if vSymbolic() {
		for p, n := range vfsNodes {
			if strings.HasPrefix(p, vfsCwd+"/") {
				p = p[len(vfsCwd)+1:]
				if n.dir {
					p += "/"
				}
				ret = append(ret, p)
			}
		}
	} else {
		filepath.Walk(".", func(p string, i os.FileInfo, err error) error {
			if err == nil && p != "." {
				if i.IsDir() {
					p += "/"
				}
				ret = append(ret, p)
			}
			return nil
		})
	}
	sort.Strings(ret)
	return ret
}

func vfsAbs(p string) string {
	if !filepath.IsAbs(p) {
		p = vfsCwd + "/" + p
	}
	return filepath.Clean(p)
}

func vfsErr(op, path string, e syscall.Errno) error {
	return &os.PathError{Op: op, Path: path, Err: e}
}

// vfsWalk finds a node; there is an error if it cannot be reached.
func vfsWalk(op, path string) (*vfsNode, error) {
	if path == "" {
		return nil, vfsErr(op, path, syscall.ENOENT)
	}
	abs := vfsAbs(path)
	for i := 1; i < len(abs); i++ {
		if abs[i] == '/' {
			n := vfsNodes[abs[:i]]
			if n == nil {
				return nil, vfsErr(op, path, syscall.ENOENT)
			}
			if !n.dir {
				return nil, vfsErr(op, path, syscall.ENOTDIR)
			}
			if n.mode&0100 == 0 {
				return nil, vfsErr(op, path, syscall.EACCES)
			}
		}
	}
	n := vfsNodes[abs]
	if n != nil && !n.dir && strings.HasSuffix(path, "/") {
		return nil, vfsErr(op, path, syscall.ENOTDIR)
	}
	return n, nil
}

// vfsMake adds an entry to a directory that is known to be there.
func vfsMake(op, path string, n *vfsNode) error {
	abs := vfsAbs(path)
	parent := vfsNodes[filepath.Dir(abs)]
	if parent == nil {
		return vfsErr(op, path, syscall.ENOENT)
	}
	if parent.mode&0300 != 0300 {
		return vfsErr(op, path, syscall.EACCES)
	}
	vfsNodes[abs] = n
	return nil
}

func vfsMkdir(path string, perm os.FileMode) error {
	n, err := vfsWalk("mkdir", path)
	if err != nil {
		return err
	}
	if n != nil {
		return vfsErr("mkdir", path, syscall.EEXIST)
	}
	return vfsMake("mkdir", path, &vfsNode{dir: true, mode: perm & 0755})
}

func vfsMkdirAll(path string, perm os.FileMode) error {
	n, err := vfsWalk("mkdir", path)
	if n != nil {
		if n.dir {
			return nil
		}
		return vfsErr("mkdir", path, syscall.ENOTDIR)
	}
	if path == "" {
		return err
	}
	abs := vfsAbs(path)
	if abs != "/" {
		if err := vfsMkdirAll(filepath.Dir(abs), perm); err != nil {
			return err
		}
	}
	return vfsMkdir(abs, perm)
}

func vfsOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	n, err := vfsWalk("open", name)
	if err != nil {
		return nil, err
	}
	write := flag&(os.O_WRONLY|os.O_RDWR) != 0
	switch {
	case n == nil && flag&os.O_CREATE == 0:
		return nil, vfsErr("open", name, syscall.ENOENT)
	case n == nil:
		if strings.HasSuffix(name, "/") {
			return nil, vfsErr("open", name, syscall.EISDIR)
		}
		n = &vfsNode{mode: perm & 0755}
		if err := vfsMake("open", name, n); err != nil {
			return nil, err
		}
	case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, vfsErr("open", name, syscall.EEXIST)
	case n.dir && (write || flag&os.O_CREATE != 0):
		return nil, vfsErr("open", name, syscall.EISDIR)
	case write && n.mode&0200 == 0, flag&os.O_WRONLY == 0 && n.mode&0400 == 0:
		return nil, vfsErr("open", name, syscall.EACCES)
	}
	if flag&os.O_TRUNC != 0 && write {
		n.data = nil
	}
	f := new(os.File)
	vfsHandles[f] = &vfsHandle{node: n, name: name, flag: flag}
	vfsOpened++
	return f, nil
}

func vfsCreate(name string) (*os.File, error) {
	return vfsOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func vfsOpen(name string) (*os.File, error) { return vfsOpenFile(name, os.O_RDONLY, 0) }

func vfsReadFile(name string) ([]byte, error) {
	f, err := vfsOpen(name)
	if err != nil {
		return nil, err
	}
	h := vfsHandles[f]
	h.closed = true
	if h.node.dir {
		return nil, vfsErr("read", name, syscall.EISDIR)
	}
	return append([]byte{}, h.node.data...), nil
}

func vfsWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := vfsOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = vfsFileWrite(f, data)
	if e := vfsFileClose(f); err == nil {
		err = e
	}
	return err
}

func vfsRemove(name string) error {
	n, err := vfsWalk("remove", name)
	if err != nil {
		return err
	}
	if n == nil {
		return vfsErr("remove", name, syscall.ENOENT)
	}
	abs := vfsAbs(name)
	for p := range vfsNodes {
		if strings.HasPrefix(p, abs+"/") {
			return vfsErr("remove", name, syscall.ENOTEMPTY)
		}
	}
	delete(vfsNodes, abs)
	return nil
}

func vfsRemoveAll(name string) error {
	abs := vfsAbs(name)
	for p := range vfsNodes {
		if p == abs || strings.HasPrefix(p, abs+"/") {
			delete(vfsNodes, p)
		}
	}
	return nil
}

func vfsRename(from, to string) error {
	n, err := vfsWalk("rename", from)
	if err != nil {
		return err
	}
	m, err := vfsWalk("rename", to)
	if err != nil {
		return err
	}
	if n == nil {
		return vfsErr("rename", from, syscall.ENOENT)
	}
	if n.dir || m != nil && m.dir {
		return vfsErr("rename", to, syscall.EISDIR)
	}
	if err := vfsMake("rename", to, n); err != nil {
		return err
	}
	if vfsAbs(from) != vfsAbs(to) {
		delete(vfsNodes, vfsAbs(from))
	}
	return nil
}

func vfsCreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	i := strings.LastIndex(pattern, "*")
	pre, post := pattern, ""
	if i >= 0 {
		pre, post = pattern[:i], pattern[i+1:]
	}
	return vfsOpenFile(filepath.Join(dir, pre+strconv.Itoa(1000+vfsOpened)+post), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

type vfsInfo struct {
	name string
	node *vfsNode
}

func (i vfsInfo) Name() string       { return i.name }
func (i vfsInfo) Size() int64        { return int64(len(i.node.data)) }
func (i vfsInfo) ModTime() time.Time { return time.Time{} }
func (i vfsInfo) IsDir() bool        { return i.node.dir }
func (i vfsInfo) Sys() interface{}   { return nil }
func (i vfsInfo) Mode() os.FileMode {
	if i.node.dir {
		return i.node.mode | os.ModeDir
	}
	return i.node.mode
}

func vfsStat(name string) (os.FileInfo, error) {
	n, err := vfsWalk("stat", name)
	if err != nil {
		return nil, err
	}
	if n == nil {
		return nil, vfsErr("stat", name, syscall.ENOENT)
	}
	return vfsInfo{filepath.Base(name), n}, nil
}

func vfsLstat(name string) (os.FileInfo, error) { return vfsStat(name) }

func vfsChmod(name string, mode os.FileMode) error {
	n, err := vfsWalk("chmod", name)
	if err != nil {
		return err
	}
	if n == nil {
		return vfsErr("chmod", name, syscall.ENOENT)
	}
	n.mode = mode & 0777
	return nil
}

func vfsTruncate(name string, size int64) error {
	f, err := vfsOpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	return vfsFileTruncate(f, size)
}

func vfsGetwd() (string, error) { return vfsCwd, nil }

func vfsTempDir() string { return "/tmp" }

func vfsGetenv(k string) string { return vfsEnv[k] }

func vfsLookupEnv(k string) (string, bool) {
	v, ok := vfsEnv[k]
	return v, ok
}

func vfsSetenv(k, v string) error {
	vfsEnv[k] = v
	return nil
}

func vfsUnsetenv(k string) error {
	delete(vfsEnv, k)
	return nil
}

func vfsHandleOf(op string, f *os.File) (*vfsHandle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := vfsHandles[f]
	if h == nil {
		return nil, os.ErrInvalid
	}
	if h.closed {
		return nil, &os.PathError{Op: op, Path: h.name, Err: os.ErrClosed}
	}
	return h, nil
}

func vfsFileWrite(f *os.File, b []byte) (int, error) {
	h, err := vfsHandleOf("write", f)
	if err != nil {
		return 0, err
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, vfsErr("write", h.name, syscall.EBADF)
	}
	if h.flag&os.O_APPEND != 0 {
		h.off = len(h.node.data)
	}
	d := append([]byte{}, h.node.data...)
	for len(d) < h.off {
		d = append(d, 0)
	}
	if end := h.off + len(b); end < len(d) {
		d = append(append(d[:h.off:h.off], b...), d[end:]...)
	} else {
		d = append(d[:h.off:h.off], b...)
	}
	h.node.data = d
	h.off += len(b)
	return len(b), nil
}

func vfsFileWriteString(f *os.File, s string) (int, error) { return vfsFileWrite(f, []byte(s)) }

func vfsFileReadFrom(f *os.File, r io.Reader) (int64, error) {
	n := int64(0)
	buf := make([]byte, 4096)
	for {
		k, err := r.Read(buf)
		if k > 0 {
			if _, e := vfsFileWrite(f, buf[:k]); e != nil {
				return n, e
			}
			n += int64(k)
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func vfsFileRead(f *os.File, b []byte) (int, error) {
	h, err := vfsHandleOf("read", f)
	if err != nil {
		return 0, err
	}
	if h.off >= len(h.node.data) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, h.node.data[h.off:])
	h.off += n
	return n, nil
}

func vfsFileClose(f *os.File) error {
	h, err := vfsHandleOf("close", f)
	if err != nil {
		return err
	}
	h.closed = true
	return nil
}

func vfsFileSeek(f *os.File, off int64, whence int) (int64, error) {
	h, err := vfsHandleOf("seek", f)
	if err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(h.off)
	case io.SeekEnd:
		off += int64(len(h.node.data))
	}
	h.off = int(off)
	return off, nil
}

func vfsFileTruncate(f *os.File, size int64) error {
	h, err := vfsHandleOf("truncate", f)
	if err != nil {
		return err
	}
	d := append([]byte{}, h.node.data...)
	for int64(len(d)) < size {
		d = append(d, 0)
	}
	h.node.data = d[:size]
	return nil
}

func vfsFileSync(f *os.File) error {
	_, err := vfsHandleOf("sync", f)
	return err
}

func vfsFileChmod(f *os.File, mode os.FileMode) error {
	h, err := vfsHandleOf("chmod", f)
	if err != nil {
		return err
	}
	h.node.mode = mode & 0777
	return nil
}

func vfsFileName(f *os.File) string { return vfsHandles[f].name }

func vfsFileStat(f *os.File) (os.FileInfo, error) {
	h, err := vfsHandleOf("stat", f)
	if err != nil {
		return nil, err
	}
	return vfsInfo{filepath.Base(h.name), h.node}, nil
}

// what is open in the model
func vfsStillOpen() int {
	n := 0
	for _, h := range vfsHandles {
		if !h.closed {
			n++
		}
	}
	return n
}
