// Package vfs is the in-memory file system the symbolic engine substitutes for
// package os. Native replays never call it.
package vfs

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type node struct {
	dir  bool
	data string
	mode os.FileMode
}

type handle struct {
	path string
	pos  int
	app  bool
}

var nodes = map[string]*node{"/": {dir: true, mode: 0755}}
var handles = map[*os.File]*handle{}
var cwd = "/work"
var env = map[string]string{}
var tmpN int

// Log records every mutation, in order.
var Log []string

type info struct {
	name string
	n    *node
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return int64(len(i.n.data)) }
func (i *info) Mode() os.FileMode {
	if i.n.dir {
		return i.n.mode | os.ModeDir
	}
	return i.n.mode
}
func (i *info) ModTime() time.Time { return time.Time{} }
func (i *info) IsDir() bool        { return i.n.dir }
func (i *info) Sys() interface{}   { return nil }

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	return filepath.Clean(p)
}

func perr(op, p string, err error) error { return &os.PathError{Op: op, Path: p, Err: err} }

// AddDir creates a directory and its parents.
func AddDir(p string) { MkdirAll(p, 0755) }

// AddFile creates a file (engine and harness use).
func AddFile(p, data string) {
	MkdirAll(filepath.Dir(clean(p)), 0755)
	nodes[clean(p)] = &node{data: data, mode: 0644}
}

// SetEnv sets an environment variable.
func SetEnv(k, v string) { env[k] = v }

func Stat(name string) (os.FileInfo, error) {
	if name == "" {
		return nil, perr("stat", name, os.ErrNotExist)
	}
	c := clean(name)
	n := nodes[c]
	if n == nil {
		return nil, perr("stat", name, os.ErrNotExist)
	}
	return &info{filepath.Base(c), n}, nil
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func parentOK(op, name, c string) error {
	d := filepath.Dir(c)
	p := nodes[d]
	if p == nil || !p.dir {
		return perr(op, name, os.ErrNotExist)
	}
	return nil
}

func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if name == "" {
		return nil, perr("open", name, os.ErrNotExist)
	}
	c := clean(name)
	n := nodes[c]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, os.ErrNotExist)
		}
		if err := parentOK("open", name, c); err != nil {
			return nil, err
		}
		n = &node{mode: perm}
		nodes[c] = n
		Log = append(Log, "create "+c)
	} else {
		if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
			return nil, perr("open", name, os.ErrExist)
		}
		if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, os.ErrInvalid)
		}
		if flag&os.O_TRUNC != 0 {
			n.data = ""
			Log = append(Log, "truncate "+c)
		}
	}
	f := new(os.File)
	handles[f] = &handle{path: c, app: flag&os.O_APPEND != 0}
	return f, nil
}

func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func FileRead(f *os.File, b []byte) (int, error) {
	h := handles[f]
	if h == nil {
		return 0, io.EOF
	}
	n := nodes[h.path]
	if n == nil || n.dir {
		return 0, perr("read", h.path, os.ErrInvalid)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(n.data) {
		return 0, io.EOF
	}
	k := copy(b, n.data[h.pos:])
	h.pos += k
	return k, nil
}

func FileWrite(f *os.File, b []byte) (int, error) {
	h := handles[f]
	if h == nil {
		return len(b), nil // stdout, stderr
	}
	n := nodes[h.path]
	if n == nil {
		return 0, perr("write", h.path, os.ErrInvalid)
	}
	if h.app {
		h.pos = len(n.data)
	}
	tail := ""
	if h.pos+len(b) < len(n.data) {
		tail = n.data[h.pos+len(b):]
	}
	n.data = n.data[:h.pos] + string(b) + tail
	h.pos += len(b)
	Log = append(Log, "write "+h.path)
	return len(b), nil
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }
func FileReadFrom(f *os.File, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := FileWrite(f, b)
	return int64(n), err
}
func FileClose(f *os.File) error { return nil }
func FileSync(f *os.File) error  { return nil }
func FileName(f *os.File) string {
	if h := handles[f]; h != nil {
		return h.path
	}
	return "/dev/stdout"
}
func FileStat(f *os.File) (os.FileInfo, error) {
	h := handles[f]
	if h == nil {
		return nil, os.ErrInvalid
	}
	return Stat(h.path)
}

func children(c string) []string {
	var out []string
	for p := range nodes {
		if p != "/" && filepath.Dir(p) == c {
			out = append(out, filepath.Base(p))
		}
	}
	sort.Strings(out)
	return out
}

func FileReaddir(f *os.File, n int) ([]os.FileInfo, error) {
	h := handles[f]
	var out []os.FileInfo
	for _, b := range children(h.path) {
		out = append(out, &info{b, nodes[filepath.Join(h.path, b)]})
	}
	return out, nil
}
func FileReaddirnames(f *os.File, n int) ([]string, error) {
	h := handles[f]
	if nd := nodes[h.path]; nd == nil || !nd.dir {
		return nil, perr("readdir", h.path, os.ErrInvalid)
	}
	return children(h.path), nil
}

func IoReadDir(name string) ([]os.FileInfo, error) {
	c := clean(name)
	n := nodes[c]
	if n == nil || !n.dir {
		return nil, perr("open", name, os.ErrNotExist)
	}
	var out []os.FileInfo
	for _, b := range children(c) {
		out = append(out, &info{b, nodes[filepath.Join(c, b)]})
	}
	return out, nil
}

func ReadFile(name string) ([]byte, error) {
	c := clean(name)
	n := nodes[c]
	if n == nil {
		return nil, perr("open", name, os.ErrNotExist)
	}
	if n.dir {
		return nil, perr("read", name, os.ErrInvalid)
	}
	return []byte(n.data), nil
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = FileWrite(f, data)
	return err
}

func Mkdir(name string, perm os.FileMode) error {
	c := clean(name)
	if nodes[c] != nil {
		return perr("mkdir", name, os.ErrExist)
	}
	if err := parentOK("mkdir", name, c); err != nil {
		return err
	}
	nodes[c] = &node{dir: true, mode: perm}
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	if name == "" {
		return perr("mkdir", name, os.ErrNotExist)
	}
	c := clean(name)
	if n := nodes[c]; n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", name, os.ErrInvalid)
	}
	if c != "/" {
		if err := MkdirAll(filepath.Dir(c), perm); err != nil {
			return err
		}
	}
	nodes[c] = &node{dir: true, mode: perm}
	return nil
}

func Remove(name string) error {
	c := clean(name)
	n := nodes[c]
	if n == nil {
		return perr("remove", name, os.ErrNotExist)
	}
	if n.dir && len(children(c)) > 0 {
		return perr("remove", name, os.ErrInvalid)
	}
	delete(nodes, c)
	Log = append(Log, "remove "+c)
	return nil
}

func RemoveAll(name string) error {
	if name == "" {
		return nil
	}
	c := clean(name)
	var gone []string
	for p := range nodes {
		if p == c || strings.HasPrefix(p, c+"/") {
			gone = append(gone, p)
		}
	}
	for _, p := range gone {
		delete(nodes, p)
		Log = append(Log, "remove "+p)
	}
	return nil
}

func Rename(a, b string) error {
	n := nodes[clean(a)]
	if n == nil {
		return perr("rename", a, os.ErrNotExist)
	}
	delete(nodes, clean(a))
	nodes[clean(b)] = n
	Log = append(Log, "rename "+clean(a)+" "+clean(b))
	return nil
}

func Chtimes(name string, a, m time.Time) error { return nil }
func Chmod(name string, m os.FileMode) error    { return nil }
func Chdir(name string) error                   { cwd = clean(name); return nil }
func Getwd() (string, error)                    { return cwd, nil }
func Getenv(k string) string                    { return env[k] }
func LookupEnv(k string) (string, bool)         { v, ok := env[k]; return v, ok }
func TempDirName() string                       { return "/tmp" }
func TempDir(dir, prefix string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tmpN++
	p := dir + "/" + strings.Replace(prefix, "*", "", -1) + string(rune('0'+tmpN%10))
	AddDir(p)
	return p, nil
}
func TempFile(dir, prefix string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
		AddDir(dir)
	}
	tmpN++
	return Create(dir + "/" + strings.Replace(prefix, "*", "", -1) + string(rune('0'+tmpN%10)))
}

// ReadDir is os.ReadDir.
func ReadDir(name string) ([]fs.DirEntry, error) {
	in, err := IoReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []fs.DirEntry
	for _, i := range in {
		out = append(out, fs.FileInfoToDirEntry(i))
	}
	return out, nil
}

// FileReadDir is (*os.File).ReadDir.
func FileReadDir(f *os.File, n int) ([]fs.DirEntry, error) {
	h := handles[f]
	if h == nil {
		return nil, os.ErrInvalid
	}
	return ReadDir(h.path)
}

func Setenv(k, v string) error { env[k] = v; return nil }
func Unsetenv(k string) error  { delete(env, k); return nil }
func Environ() []string {
	var out []string
	for k, v := range env {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}
func Readlink(name string) (string, error) { return "", perr("readlink", name, os.ErrInvalid) }

// Tree lists every file (not directory) below dir, relative, sorted.
func Tree(dir string) []string {
	c := clean(dir)
	var out []string
	for p, n := range nodes {
		if !n.dir && strings.HasPrefix(p, c+"/") {
			out = append(out, p[len(c)+1:])
		}
	}
	sort.Strings(out)
	return out
}
