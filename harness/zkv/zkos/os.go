// Package zkos replaces package os for the code under verification: an
// in-memory file system with numbered mutating operations, so that a crash
// point or a failing operation is an ordinary (symbolic) integer.
package zkos

import (
	"errors"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zktime"
)

type node struct {
	dir   bool
	data  []byte
	mode  os.FileMode
	mtime time.Time
}

// State of the model; a harness may inspect and set all of it.
var (
	fs  = map[string]*node{"/": &node{dir: true, mode: 0755 | os.ModeDir}}
	cwd = "/"

	// Op counts mutating operations since Arm.
	Op int
	// CrashAt: the process dies in the CrashAt'th mutating operation (-1: never).
	CrashAt = -1
	// FaultAt: the FaultAt'th mutating operation fails (-1: never).
	FaultAt = -1
	// Crashed is set once the crash has happened.
	Crashed bool
	// Faulted is set once the fault has been injected.
	Faulted bool
	// OpenHook, if any, is called before a file is opened or a directory listed.
	OpenHook func(name string)

	// OpenFail, if any, tells if opening a file to read it fails.
	OpenFail func(name string) bool
	// CrashBlocks: a crashed process blocks instead of panicking.
	CrashBlocks bool
	// Log of the mutating operations, for diagnosis.
	OpLog []string
	armed bool
	temp  int

	Args                  = []string{"zkv"}
	Stderr                = &File{name: "/dev/stderr", discard: true}
	Stdout                = &File{name: "/dev/stdout", discard: true}
	Stdin                 = &File{name: "/dev/stdin", discard: true}
	env                   = map[string]string{"HOME": "/home/zkv"}
	errIO                 = errors.New("input/output error (injected)")
	errNotDir             = errors.New("not a directory")
	errIsDir              = errors.New("is a directory")
	errNotEmpty           = errors.New("directory not empty")
	Interrupt   os.Signal = os.Interrupt
	Kill        os.Signal = os.Kill
)

// CrashSignal is the panic value that unwinds a crashed process.
type CrashSignal struct{}

// Arm starts numbering operations at zero with the given crash and fault
// points.
func Arm(crashAt, faultAt int) {
	Op, CrashAt, FaultAt, Crashed, Faulted, armed = 0, crashAt, faultAt, false, false, true
	OpLog = nil
}

// Disarm ends fault and crash injection; the file system stays as it is.
func Disarm() { armed, Crashed, Faulted = false, false, false }

// Reset empties the file system.
func Reset() {
	fs = map[string]*node{"/": &node{dir: true, mode: 0755 | os.ModeDir}}
	cwd = "/"
	Disarm()
}

// Files lists every path below dir, sorted but for names that are not known,
// such as the digest of something, which come last.
func Files(dir string) []string {
	dir = abs(dir)
	var r, free []string
	for k := range fs {
		if k == dir || strings.HasPrefix(k, dir+"/") || dir == "/" {
			if zkv.Free(k) {
				free = append(free, k)
			} else {
				r = append(r, k)
			}
		}
	}
	sort.Strings(r)
	return append(r, free...)
}

// Peek returns a file's bytes without counting as an operation.
func Peek(name string) ([]byte, bool) {
	n := fs[abs(name)]
	if n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// Put stores a file and its parents without counting as an operation.
func Put(name string, data []byte) {
	p := abs(name)
	for d := parent(p); ; d = parent(d) {
		if fs[d] == nil {
			fs[d] = &node{dir: true, mode: 0700 | os.ModeDir}
		}
		if d == "/" {
			break
		}
	}
	fs[p] = &node{data: append([]byte{}, data...), mode: 0600}
}

// Exists reports whether a path is there.
func Exists(name string) bool { return fs[abs(name)] != nil }

func die() {
	if CrashBlocks {
		select {}
	}
	panic(CrashSignal{})
}

// step is called by every mutating operation. It returns true when the
// operation has to fail, and does not return when the process is dead.
// partial is called with crash or fault set, to apply part of the effect.
func step(what string, partial func()) bool {
	if !armed {
		return false
	}
	if Crashed {
		die()
	}
	n := Op
	Op++
	OpLog = append(OpLog, what)
	if zkv.Fork(n == CrashAt) {
		Crashed = true
		if partial != nil {
			partial()
		}
		die()
	}
	if zkv.Fork(n == FaultAt) {
		Faulted = true
		if partial != nil {
			partial()
		}
		return true
	}
	return false
}

// Alive panics or blocks when the process has crashed.
func alive() {
	zkv.Gate()
	if armed && Crashed {
		die()
	}
}

// abs returns the canonical absolute form of a path.
func abs(name string) string {
	if name == "" {
		return ""
	}
	if name[0] != '/' {
		name = cwd + "/" + name
	}
	return path.Clean(name)
}

func parent(p string) string {
	if i := strings.LastIndexByte(p, '/'); i > 0 {
		return p[:i]
	}
	return "/"
}

func base(p string) string { return p[strings.LastIndexByte(p, '/')+1:] }

func perr(op, name string, err error) error { return &os.PathError{Op: op, Path: name, Err: err} }

func lookup(op, name string) (*node, string, error) {
	if name == "" || strings.IndexByte(name, 0) >= 0 {
		return nil, "", perr(op, name, os.ErrNotExist)
	}
	p := abs(name)
	n := fs[p]
	if n == nil {
		return nil, p, perr(op, name, os.ErrNotExist)
	}
	return n, p, nil
}

func parentDir(op, name, p string) error {
	d := fs[parent(p)]
	if d == nil {
		return perr(op, name, os.ErrNotExist)
	}
	if !d.dir {
		return perr(op, name, errNotDir)
	}
	return nil
}

// ---- File ----

type File struct {
	n       *node
	path    string
	name    string
	pos     int
	flag    int
	closed  bool
	discard bool
	listed  bool
	left    []os.FileInfo
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	alive()
	if f.discard {
		return 0, io.EOF
	}
	if f.n.dir {
		return 0, perr("read", f.name, errIsDir)
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, perr("read", f.name, os.ErrPermission)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) put(b []byte) {
	if f.flag&os.O_APPEND != 0 {
		f.pos = len(f.n.data)
	}
	end := f.pos + len(b)
	if end > len(f.n.data) {
		d := make([]byte, end)
		copy(d, f.n.data)
		f.n.data = d
	} else {
		f.n.data = append([]byte{}, f.n.data...)
	}
	copy(f.n.data[f.pos:], b)
	f.pos = end
	f.n.mtime = zktime.Peek()
}

// cut picks how much of an n-byte write took effect.
func cut(n int) int {
	switch {
	case n == 0:
		return 0
	case n == 1:
		return zkv.Choose("fs.cut", 2)
	}
	switch zkv.Choose("fs.cut", 5) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return n / 2
	case 3:
		return n - 1
	}
	return n
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.discard {
		return len(b), nil
	}
	alive()
	if f.n.dir || f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, os.ErrPermission)
	}
	wrote := 0
	if step("write "+f.path, func() {
		wrote = cut(len(b))
		if !Crashed && wrote == len(b) && wrote > 0 {
			wrote-- // a failed write is short
		}
		f.put(b[:wrote])
	}) {
		return wrote, perr("write", f.name, errIO)
	}
	f.put(b)
	return len(b), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	p := f.pos
	f.pos = int(off)
	n, err := f.Write(b)
	f.pos = p
	return n, err
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	if f.discard || f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return nil
	}
	if step("close "+f.path, nil) {
		return perr("close", f.name, errIO)
	}
	return nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	np := off
	switch whence {
	case 1:
		np += int64(f.pos)
	case 2:
		np += int64(len(f.n.data))
	}
	if np < 0 {
		return 0, perr("seek", f.name, os.ErrInvalid)
	}
	f.pos = int(np)
	return np, nil
}

func (f *File) Stat() (os.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	return info(base(f.path), f.n), nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if step("sync "+f.path, nil) {
		return perr("sync", f.name, errIO)
	}
	return nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if step("truncate "+f.path, nil) {
		return perr("truncate", f.name, errIO)
	}
	truncate(f.n, int(size))
	return nil
}

func truncate(n *node, size int) {
	d := make([]byte, size)
	copy(d, n.data)
	n.data = d
	n.mtime = zktime.Peek()
}

func (f *File) Chmod(mode os.FileMode) error { return f.check("chmod") }

func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if !f.n.dir {
		return nil, perr("readdir", f.name, errNotDir)
	}
	if !f.listed {
		f.listed = true
		f.left = list(f.path)
	}
	if n <= 0 {
		r := f.left
		f.left = nil
		return r, nil
	}
	if len(f.left) == 0 {
		return nil, io.EOF
	}
	if n > len(f.left) {
		n = len(f.left)
	}
	r := f.left[:n]
	f.left = f.left[n:]
	return r, nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.Readdir(n)
	var r []string
	for _, x := range l {
		r = append(r, x.Name())
	}
	return r, err
}

func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	l, err := f.Readdir(n)
	var r []os.DirEntry
	for _, x := range l {
		r = append(r, x.(*fileInfo))
	}
	return r, err
}

// ---- FileInfo ----

type fileInfo struct {
	name string
	n    *node
	size int64
}

func info(name string, n *node) *fileInfo { return &fileInfo{name, n, int64(len(n.data))} }

func (i *fileInfo) Name() string               { return i.name }
func (i *fileInfo) Size() int64                { return i.size }
func (i *fileInfo) Mode() os.FileMode          { return i.n.mode }
func (i *fileInfo) ModTime() time.Time         { return i.n.mtime }
func (i *fileInfo) IsDir() bool                { return i.n.dir }
func (i *fileInfo) Sys() interface{}           { return nil }
func (i *fileInfo) Type() os.FileMode          { return i.n.mode & os.ModeType }
func (i *fileInfo) Info() (os.FileInfo, error) { return i, nil }
func (i *fileInfo) String() string             { return i.name }

func list(p string) []os.FileInfo {
	var names []string
	for k := range fs {
		if k != "/" && parent(k) == p {
			names = append(names, base(k))
		}
	}
	sort.Strings(names)
	var r []os.FileInfo
	for _, n := range names {
		q := p + "/" + n
		if p == "/" {
			q = "/" + n
		}
		r = append(r, info(n, fs[q]))
	}
	return r
}

// ---- package functions ----

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if name == "/dev/null" {
		return &File{name: name, discard: true}, nil
	}
	alive()
	if OpenHook != nil {
		OpenHook(name)
	}
	if name == "" || strings.IndexByte(name, 0) >= 0 {
		return nil, perr("open", name, os.ErrNotExist)
	}
	p := abs(name)
	n := fs[p]
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if !wr && OpenFail != nil && OpenFail(name) {
		return nil, perr("open", name, errIO)
	}
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, os.ErrNotExist)
		}
		if err := parentDir("open", name, p); err != nil {
			return nil, err
		}
		if step("create "+p, nil) {
			return nil, perr("open", name, errIO)
		}
		n = &node{mode: perm, mtime: zktime.Peek()}
		fs[p] = n
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, os.ErrExist)
		}
		if n.dir && wr {
			return nil, perr("open", name, errIsDir)
		}
		if flag&os.O_TRUNC != 0 && wr {
			if step("trunc "+p, nil) {
				return nil, perr("open", name, errIO)
			}
			n.data = nil
			n.mtime = zktime.Peek()
		}
	}
	return &File{n: n, path: p, name: name, flag: flag}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func Stat(name string) (os.FileInfo, error) {
	alive()
	n, p, err := lookup("stat", name)
	if err != nil {
		return nil, err
	}
	return info(base(p), n), nil
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func Mkdir(name string, perm os.FileMode) error {
	alive()
	p := abs(name)
	if fs[p] != nil {
		return perr("mkdir", name, os.ErrExist)
	}
	if err := parentDir("mkdir", name, p); err != nil {
		return err
	}
	if step("mkdir "+p, nil) {
		return perr("mkdir", name, errIO)
	}
	fs[p] = &node{dir: true, mode: perm | os.ModeDir, mtime: zktime.Peek()}
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	p := abs(name)
	if n := fs[p]; n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", name, errNotDir)
	}
	if p != "/" {
		if err := MkdirAll(parent(p), perm); err != nil {
			return err
		}
	}
	return Mkdir(p, perm)
}

func Remove(name string) error {
	alive()
	n, p, err := lookup("remove", name)
	if err != nil {
		return err
	}
	if n.dir && len(list(p)) > 0 {
		return perr("remove", name, errNotEmpty)
	}
	if step("remove "+p, nil) {
		return perr("remove", name, errIO)
	}
	delete(fs, p)
	return nil
}

func RemoveAll(name string) error {
	alive()
	p := abs(name)
	for _, k := range Files(p) {
		if k == "/" {
			continue
		}
		if step("remove "+k, nil) {
			return perr("remove", k, errIO)
		}
		delete(fs, k)
	}
	return nil
}

func Rename(from, to string) error {
	alive()
	n, p, err := lookup("rename", from)
	if err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: os.ErrNotExist}
	}
	q := abs(to)
	if err := parentDir("rename", to, q); err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: os.ErrNotExist}
	}
	if d := fs[q]; d != nil && d != n {
		switch {
		case d.dir && !n.dir:
			return &os.LinkError{Op: "rename", Old: from, New: to, Err: os.ErrExist}
		case d.dir && len(list(q)) > 0:
			return &os.LinkError{Op: "rename", Old: from, New: to, Err: errNotEmpty}
		case !d.dir && n.dir:
			return &os.LinkError{Op: "rename", Old: from, New: to, Err: errNotDir}
		}
	}
	if step("rename "+p+" "+q, nil) {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: errIO}
	}
	if p == q {
		return nil
	}
	if n.dir {
		for _, k := range Files(p) {
			if k != p {
				fs[q+k[len(p):]] = fs[k]
				delete(fs, k)
			}
		}
	}
	delete(fs, p)
	fs[q] = n
	return nil
}

func Link(a, b string) error {
	n, pa, err := lookup("link", a)
	if err != nil {
		return err
	}
	pb := abs(b)
	if n.dir {
		return perr("link", a, os.ErrPermission)
	}
	if fs[pb] != nil {
		return perr("link", b, os.ErrExist)
	}
	if err := parentDir("link", b, pb); err != nil {
		return err
	}
	if step("link "+pa+" "+pb, nil) {
		return perr("link", b, errIO)
	}
	fs[pb] = n
	return nil
}
func Symlink(a, b string) error { return perr("symlink", a, os.ErrPermission) }
func Readlink(a string) (string, error) {
	return "", perr("readlink", a, os.ErrInvalid)
}

func Truncate(name string, size int64) error {
	n, p, err := lookup("truncate", name)
	if err != nil {
		return err
	}
	if step("truncate "+p, nil) {
		return perr("truncate", name, errIO)
	}
	truncate(n, int(size))
	return nil
}

func Chmod(name string, mode os.FileMode) error {
	n, _, err := lookup("chmod", name)
	if err != nil {
		return err
	}
	n.mode = n.mode&^os.ModePerm | mode&os.ModePerm
	return nil
}
func Chown(name string, uid, gid int) error  { _, _, err := lookup("chown", name); return err }
func Lchown(name string, uid, gid int) error { return Chown(name, uid, gid) }
func Chtimes(name string, a, m time.Time) error {
	n, _, err := lookup("chtimes", name)
	if err != nil {
		return err
	}
	n.mtime = m
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	if f.n.dir {
		return nil, perr("read", name, errIsDir)
	}
	return append([]byte{}, f.n.data...), nil
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadDir(name string) ([]os.DirEntry, error) {
	l, err := ListDir(name)
	if err != nil {
		return nil, err
	}
	var r []os.DirEntry
	for _, x := range l {
		r = append(r, x.(*fileInfo))
	}
	return r, nil
}

// ListDir is ioutil.ReadDir.
func ListDir(name string) ([]os.FileInfo, error) {
	alive()
	if OpenHook != nil {
		OpenHook(name)
	}
	n, p, err := lookup("open", name)
	if err != nil {
		return nil, err
	}
	if !n.dir {
		return nil, perr("readdirent", name, errNotDir)
	}
	return list(p), nil
}

var digits = "0123456789"

func itoa(n int) string {
	if n < 10 {
		return digits[n : n+1]
	}
	return itoa(n/10) + digits[n%10:n%10+1]
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	temp++
	pre, suf := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, suf = pattern[:i], pattern[i+1:]
			break
		}
	}
	return dir + "/" + pre + itoa(100000000+temp) + suf
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0700)
}

func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(*fileInfo)
	y, ok2 := b.(*fileInfo)
	return ok1 && ok2 && x.n == y.n
}

func NewFile(fd uintptr, name string) *File { return &File{name: name, discard: true} }
func Pipe() (r, w *File, err error)         { return nil, nil, os.ErrInvalid }
func DirFS(dir string) interface{}          { return nil }

func Exit(code int) {
	Exited, ExitCode = true, code
	zkv.Stop()
}

var (
	Exited   bool
	ExitCode int
)

func Getwd() (string, error)    { return cwd, nil }
func Chdir(d string) error      { cwd = abs(d); return nil }
func Hostname() (string, error) { return "zkv", nil }
func TempDir() string           { return "/tmp" }
func UserHomeDir() (string, error) {
	return env["HOME"], nil
}
func UserCacheDir() (string, error)  { return env["HOME"] + "/.cache", nil }
func UserConfigDir() (string, error) { return env["HOME"] + "/.config", nil }
func Getenv(k string) string         { return env[k] }
func LookupEnv(k string) (string, bool) {
	v, ok := env[k]
	return v, ok
}
func Setenv(k, v string) error { env[k] = v; return nil }
func Unsetenv(k string) error  { delete(env, k); return nil }
func Clearenv()                { env = map[string]string{} }
func Environ() []string        { return nil }
func ExpandEnv(s string) string {
	return s
}
func Getpid() int                 { return 4242 }
func Getppid() int                { return 1 }
func Getuid() int                 { return 1000 }
func Geteuid() int                { return 1000 }
func Getgid() int                 { return 1000 }
func Getegid() int                { return 1000 }
func Getpagesize() int            { return 4096 }
func Executable() (string, error) { return "/zkv", nil }
