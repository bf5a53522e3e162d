package zzsym

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// ---- an in-memory file system standing in for package os under the engine ----

type node struct {
	name string // base name
	dir  bool
	data []byte
	kids map[string]*node
	mode fs.FileMode
	bad  error // reading fails
	link string // a symbolic link to this path
}

type openFile struct {
	n      *node
	path   string
	pos    int
	closed bool
	append bool
	write  bool
	listed bool
}

var (
	root  *node
	files map[*os.File]*openFile

	// FailWrite, when set, decides whether a write of a path fails.
	FailWrite func(path string) error
	// diskFull makes every write fail, after the file was opened and emptied.
	diskFull, natFull bool
	// WriteLog records paths written.
	WriteLog []string
	// FailOpen, when set, decides whether opening or reading a path fails.
	FailOpen func(path string) error
)

const memCwd = "/w"

func mem() *node {
	if root == nil {
		root = &node{dir: true, kids: map[string]*node{}, mode: fs.ModeDir | 0o755}
		files = map[*os.File]*openFile{}
		memMkdir("/w")
		memMkdir("/tmp")
	}
	return root
}

func split(p string) []string {
	if !strings.HasPrefix(p, "/") {
		p = memCwd + "/" + p
	}
	var out []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return out
}

func memFind(p string) (*node, error) { return memLook(p, true, 0) }

// memLook finds a path, following symbolic links (that at the end only if asked to).
func memLook(p string, last bool, depth int) (*node, error) {
	n := mem()
	if p == "" {
		return nil, syscall.ENOENT
	}
	if depth > 10 {
		return nil, syscall.ELOOP
	}
	parts := split(p)
	for i, s := range parts {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		k := n.kids[s]
		if k == nil {
			return nil, syscall.ENOENT
		}
		if k.link != "" && (last || i < len(parts)-1) {
			t := k.link
			if !strings.HasPrefix(t, "/") {
				t = "/" + strings.Join(parts[:i], "/") + "/" + t
			}
			var err error
			k, err = memLook(t, true, depth+1)
			if err != nil {
				return nil, err
			}
		}
		n = k
	}
	if strings.HasSuffix(p, "/") && !n.dir {
		return nil, syscall.ENOTDIR
	}
	return n, nil
}

func memMkdir(p string) error {
	n := mem()
	for _, s := range split(p) {
		k := n.kids[s]
		if k == nil {
			k = &node{name: s, dir: true, kids: map[string]*node{}, mode: fs.ModeDir | 0o755}
			n.kids[s] = k
		}
		if !k.dir {
			return syscall.ENOTDIR
		}
		n = k
	}
	return nil
}

func memCreate(p string) (*node, error) {
	parts := split(p)
	if len(parts) == 0 {
		return nil, syscall.EISDIR
	}
	n := mem()
	for _, s := range parts[:len(parts)-1] {
		k := n.kids[s]
		if k == nil {
			return nil, syscall.ENOENT
		}
		if !k.dir {
			return nil, syscall.ENOTDIR
		}
		n = k
	}
	last := parts[len(parts)-1]
	k := n.kids[last]
	if k == nil {
		k = &node{name: last, mode: 0o644}
		n.kids[last] = k
	}
	if k.link != "" {
		return memFind(p)
	}
	if k.dir {
		return nil, syscall.EISDIR
	}
	return k, nil
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

func osReadFile(name string) ([]byte, error) {
	if FailOpen != nil {
		if err := FailOpen(name); err != nil {
			return nil, perr("open", name, err)
		}
	}
	n, err := memFind(name)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if n.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	if n.bad != nil {
		return nil, perr("open", name, n.bad)
	}
	return append([]byte{}, n.data...), nil
}

func osWriteFile(name string, data []byte, perm os.FileMode) error {
	WriteLog = append(WriteLog, name)
	if FailWrite != nil {
		if err := FailWrite(name); err != nil {
			return perr("open", name, err)
		}
	}
	n, err := memCreate(name)
	if err != nil {
		return perr("open", name, err)
	}
	if diskFull && len(data) > 0 {
		n.data = nil
		return perr("write", name, syscall.EFBIG)
	}
	n.data = append([]byte{}, data...)
	return nil
}

func newFile(of *openFile) *os.File {
	f := new(os.File)
	mem()
	files[f] = of
	return f
}

func osOpen(name string) (*os.File, error) { return osOpenFile(name, os.O_RDONLY, 0) }

func osCreate(name string) (*os.File, error) {
	return osOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func osOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if wr {
		WriteLog = append(WriteLog, name)
		if FailWrite != nil {
			if err := FailWrite(name); err != nil {
				return nil, perr("open", name, err)
			}
		}
	} else if FailOpen != nil {
		if err := FailOpen(name); err != nil {
			return nil, perr("open", name, err)
		}
	}
	n, err := memFind(name)
	if err != nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, err)
		}
		n, err = memCreate(name)
		if err != nil {
			return nil, perr("open", name, err)
		}
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if n.dir && wr {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if n.bad != nil {
		return nil, perr("open", name, n.bad)
	}
	if flag&os.O_TRUNC != 0 && wr {
		n.data = nil
	}
	return newFile(&openFile{n: n, path: name, append: flag&os.O_APPEND != 0, write: wr}), nil
}

func of(f *os.File) (*openFile, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	o := files[f]
	if o == nil {
		Unsupported("a file that does not come from the model file system")
	}
	if o.closed {
		return nil, perr("use", o.path, os.ErrClosed)
	}
	return o, nil
}

func fileRead(f *os.File, b []byte) (int, error) {
	o, err := of(f)
	if err != nil {
		return 0, err
	}
	if o.n.dir {
		return 0, perr("read", o.path, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if o.pos >= len(o.n.data) {
		return 0, io.EOF
	}
	c := copy(b, o.n.data[o.pos:])
	o.pos += c
	return c, nil
}

func fileReadAt(f *os.File, b []byte, off int64) (int, error) {
	o, err := of(f)
	if err != nil {
		return 0, err
	}
	if int(off) >= len(o.n.data) {
		return 0, io.EOF
	}
	c := copy(b, o.n.data[off:])
	if c < len(b) {
		return c, io.EOF
	}
	return c, nil
}

func fileWriteTo(f *os.File, w io.Writer) (int64, error) {
	o, err := of(f)
	if err != nil {
		return 0, err
	}
	c, err := w.Write(o.n.data[o.pos:])
	o.pos += c
	return int64(c), err
}

func osNewFile(fd uintptr, name string) *os.File { return new(os.File) }

func runtimeArgs() []string { return []string{"osv-detector"} }
func runtimeEnvs() []string { return nil }

func fileWrite(f *os.File, b []byte) (int, error) {
	if f != nil && files[f] == nil {
		return len(b), nil // the standard streams
	}
	o, err := of(f)
	if err != nil {
		return 0, err
	}
	if !o.write {
		return 0, perr("write", o.path, syscall.EBADF)
	}
	if diskFull && len(b) > 0 {
		return 0, perr("write", o.path, syscall.EFBIG)
	}
	if o.append {
		o.pos = len(o.n.data)
	}
	for len(o.n.data) < o.pos {
		o.n.data = append(o.n.data, 0)
	}
	end := o.pos + len(b)
	nd := append([]byte{}, o.n.data[:o.pos]...)
	nd = append(nd, b...)
	if end < len(o.n.data) {
		nd = append(nd, o.n.data[end:]...)
	}
	o.n.data = nd
	o.pos = end
	return len(b), nil
}

func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

func fileClose(f *os.File) error {
	o, err := of(f)
	if err != nil {
		return err
	}
	o.closed = true
	return nil
}

func fileSync(f *os.File) error { return nil }

func fileTruncate(f *os.File, size int64) error {
	o, err := of(f)
	if err != nil {
		return err
	}
	if int(size) <= len(o.n.data) {
		o.n.data = append([]byte{}, o.n.data[:size]...)
	}
	return nil
}

func fileName(f *os.File) string {
	if o := files[f]; o != nil {
		return o.path
	}
	return "?"
}

type finfo struct {
	name string
	n    *node
}

func (i finfo) Name() string { return i.name }
func (i finfo) Size() int64 {
	if i.n.dir {
		return 4096
	}
	return int64(len(i.n.data))
}
func (i finfo) Mode() fs.FileMode          { return i.n.mode }
func (i finfo) ModTime() time.Time         { return time.Time{} }
func (i finfo) IsDir() bool                { return i.n.dir }
func (i finfo) Sys() any                   { return nil }
func (i finfo) Type() fs.FileMode          { return i.n.mode & fs.ModeType }
func (i finfo) Info() (fs.FileInfo, error) { return i, nil }

func osStat(name string) (os.FileInfo, error) {
	n, err := memFind(name)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return finfo{filepath.Base(name), n}, nil
}

func osLstat(name string) (os.FileInfo, error) {
	n, err := memLook(name, false, 0)
	if err != nil {
		return nil, perr("lstat", name, err)
	}
	return finfo{filepath.Base(name), n}, nil
}

func osReadlink(name string) (string, error) {
	n, err := memLook(name, false, 0)
	if err != nil {
		return "", perr("readlink", name, err)
	}
	if n.link == "" {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	return n.link, nil
}

func fileStat(f *os.File) (os.FileInfo, error) {
	o, err := of(f)
	if err != nil {
		return nil, err
	}
	return finfo{filepath.Base(o.path), o.n}, nil
}

func kidNames(n *node) []string {
	var out []string
	for k := range n.kids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func osReadDir(name string) ([]os.DirEntry, error) {
	n, err := memFind(name)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if !n.dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	if n.bad != nil {
		return nil, perr("open", name, n.bad)
	}
	var out []os.DirEntry
	for _, k := range kidNames(n) {
		out = append(out, finfo{k, n.kids[k]})
	}
	return out, nil
}

func fileReadDir(f *os.File, c int) ([]os.DirEntry, error) {
	o, err := of(f)
	if err != nil {
		return nil, err
	}
	if c > 0 {
		Unsupported("partial ReadDir")
	}
	if o.listed {
		return []os.DirEntry{}, nil
	}
	o.listed = true
	return osReadDir(o.path)
}

func fileReaddirnames(f *os.File, c int) ([]string, error) {
	o, err := of(f)
	if err != nil {
		return nil, err
	}
	if c > 0 {
		Unsupported("partial Readdirnames")
	}
	if !o.n.dir {
		return nil, perr("readdirent", o.path, syscall.ENOTDIR)
	}
	return kidNames(o.n), nil
}

func osMkdirAll(p string, perm os.FileMode) error {
	if err := memMkdir(p); err != nil {
		return perr("mkdir", p, err)
	}
	return nil
}

func osMkdir(p string, perm os.FileMode) error {
	if _, err := memFind(p); err == nil {
		return perr("mkdir", p, syscall.EEXIST)
	}
	return osMkdirAll(p, perm)
}

func memRemove(p string) {
	parts := split(p)
	n := mem()
	for _, s := range parts[:len(parts)-1] {
		n = n.kids[s]
		if n == nil {
			return
		}
	}
	delete(n.kids, parts[len(parts)-1])
}

func osRemove(p string) error {
	n, err := memFind(p)
	if err != nil {
		return perr("remove", p, err)
	}
	if n.dir && len(n.kids) > 0 {
		return perr("remove", p, syscall.ENOTEMPTY)
	}
	memRemove(p)
	return nil
}

func osRemoveAll(p string) error { memRemove(p); return nil }

func osRename(a, b string) error {
	n, err := memFind(a)
	if err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	if n.dir {
		Unsupported("rename of a directory")
	}
	WriteLog = append(WriteLog, b)
	if FailWrite != nil {
		if err := FailWrite(b); err != nil {
			return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
		}
	}
	m, err := memCreate(b)
	if err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	m.data = n.data
	memRemove(a)
	return nil
}

func osTempDir() string         { return "/tmp" }
func osGetwd() (string, error)  { return memCwd, nil }

var tmpN int

func osCreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = osTempDir()
	}
	tmpN++
	name := strings.Replace(pattern, "*", string(rune('0'+tmpN)), 1)
	if !strings.Contains(pattern, "*") {
		name += string(rune('0' + tmpN))
	}
	return osOpenFile(filepath.Join(dir, name), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

// ---- what harnesses use: same effect on the model and on the real file system ----

var errTest = errors.New("injected failure")

// PutFile creates a file (and its directories).
func PutFile(p string, data string) {
	if Symbolic() {
		_ = memMkdir(filepath.Dir(p))
		n, err := memCreate(p)
		if err != nil {
			panic(err)
		}
		n.data = []byte(data)
		return
	}
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(data), 0o644); err != nil {
		panic(err)
	}
}

// PutDir creates a directory.
func PutDir(p string) {
	if Symbolic() {
		_ = memMkdir(p)
		return
	}
	if err := os.MkdirAll(p, 0o755); err != nil {
		panic(err)
	}
}

// PutLink creates a symbolic link.
func PutLink(target, p string) {
	if Symbolic() {
		_ = memMkdir(filepath.Dir(p))
		n, err := memCreate(p)
		if err != nil {
			panic(err)
		}
		n.link = target
		n.mode = fs.ModeSymlink | 0o777
		return
	}
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(err)
	}
	if err := os.Symlink(target, p); err != nil {
		panic(err)
	}
}

// DiskFull makes every write to a file fail from here on, or work again.
func DiskFull(on bool) {
	if Symbolic() {
		diskFull = on
		return
	}
	natFull = on
	signal.Ignore(syscall.SIGXFSZ)
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	l.Cur = l.Max
	if on {
		l.Cur = 0
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
}

// RemoveFile deletes a file.
func RemoveFile(p string) {
	if Symbolic() {
		memRemove(p)
		return
	}
	_ = os.Remove(p)
}

// GetFile reads a file.
func GetFile(p string) (string, bool) {
	if Symbolic() {
		n, err := memFind(p)
		if err != nil || n.dir {
			return "", false
		}
		return string(n.data), true
	}
	b, err := os.ReadFile(p)
	return string(b), err == nil
}

// ListDir gives the names in a directory.
func ListDir(p string) []string {
	if Symbolic() {
		n, err := memFind(p)
		if err != nil || !n.dir {
			return nil
		}
		return kidNames(n)
	}
	es, _ := os.ReadDir(p)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out
}

// TempDir is the temporary directory of the process.
func TempDir() string {
	if Symbolic() {
		return "/tmp"
	}
	return os.TempDir()
}

// Cwd is the directory harnesses run in.
func Cwd() string {
	if Symbolic() {
		return memCwd
	}
	d, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	return d
}
