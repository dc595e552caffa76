// Package vexec is what the symbolic engine substitutes for os/exec and
// packages.Load. Programs are the scripts written by Stub; native replays run
// the same scripts under a shell and never call this package's functions.
package vexec

import (
	"context"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

const head = "#!/bin/sh\n# verif-stub\n"

// Stub installs a program of that name in dir. Each run appends "--run" and its
// arguments to <name>.log; the k-th run prints <name>.out and exits with the
// contents of <name>.code<k>, 0 if there is none. Before that, unless it
// fails, for every argument X.proto the files fix/X.pb.go and
// fix/X_grpc.pb.go, where they exist, are copied to the directory given by
// --go_out=.
func Stub(dir, name string) {
	ioutil.WriteFile(filepath.Join(dir, name), []byte(head+`d=$(dirname "$0")
n=`+name+`
echo --run >> "$d/$n.log"
for a in "$@"; do printf '%s\n' "$a" >> "$d/$n.log"; done
k=$(grep -c -x -e --run "$d/$n.log")
[ -f "$d/$n.out" ] && cat "$d/$n.out"
[ -f "$d/$n.code$k" ] && exit $(cat "$d/$n.code$k")
o=
for a in "$@"; do case "$a" in
--go_out=*) o="${a#--go_out=}";;
*.proto) b=$(basename "$a" .proto)
[ -f "$d/fix/$b.pb.go" ] && cp "$d/fix/$b.pb.go" "$o/$b.pb.go"
[ -f "$d/fix/${b}_grpc.pb.go" ] && cp "$d/fix/${b}_grpc.pb.go" "$o/${b}_grpc.pb.go";;
esac; done
exit 0
`), 0755)
}

// Runs is the arguments of every run of the stub, in order.
func Runs(dir, name string) [][]string {
	b, err := ioutil.ReadFile(filepath.Join(dir, name+".log"))
	if err != nil {
		return nil
	}
	var out [][]string
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		if l == "--run" {
			out = append(out, nil)
			continue
		}
		out[len(out)-1] = append(out[len(out)-1], l)
	}
	return out
}

// LookPath is exec.LookPath.
func LookPath(file string) (string, error) {
	if strings.Contains(file, "/") {
		if st, err := os.Stat(file); err == nil && !st.IsDir() && st.Mode()&0111 != 0 {
			return file, nil
		}
		return "", &exec.Error{Name: file, Err: exec.ErrNotFound}
	}
	for _, d := range strings.Split(os.Getenv("PATH"), ":") {
		p := filepath.Join(d, file)
		if st, err := os.Stat(p); err == nil && !st.IsDir() && st.Mode()&0111 != 0 {
			return p, nil
		}
	}
	return "", &exec.Error{Name: file, Err: exec.ErrNotFound}
}

// Command is exec.Command.
func Command(name string, arg ...string) *exec.Cmd {
	c := &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
	p, err := LookPath(name)
	if err != nil {
		c.Err = err
	} else {
		c.Path = p
	}
	return c
}

// CommandContext is exec.CommandContext.
func CommandContext(ctx context.Context, name string, arg ...string) *exec.Cmd {
	return Command(name, arg...)
}

func appendFile(p, s string) {
	b, _ := ioutil.ReadFile(p)
	ioutil.WriteFile(p, append(b, s...), 0644)
}

func copyFile(from, to string) {
	if b, err := ioutil.ReadFile(from); err == nil {
		ioutil.WriteFile(to, b, 0644)
	}
}

func run(c *exec.Cmd, stdout io.Writer) error {
	if c.Err != nil {
		return c.Err
	}
	text, err := ioutil.ReadFile(c.Path)
	if err != nil {
		return err
	}
	if !strings.HasPrefix(string(text), head) {
		panic("vexec: not a stub: " + c.Path)
	}
	base := strings.TrimSuffix(c.Path, "/"+filepath.Base(c.Path))
	n := filepath.Base(c.Path)
	at := func(p string) string {
		if c.Dir != "" && !filepath.IsAbs(p) {
			return filepath.Join(c.Dir, p)
		}
		return p
	}
	log := base + "/" + n + ".log"
	s := "--run\n"
	for _, a := range c.Args[1:] {
		s += a + "\n"
	}
	appendFile(log, s)
	k := len(Runs(base, n))
	if b, err := ioutil.ReadFile(base + "/" + n + ".out"); err == nil && stdout != nil {
		stdout.Write(b)
	}
	if _, err := os.Stat(base + "/" + n + ".code" + strconv.Itoa(k)); err == nil {
		return &exec.ExitError{}
	}
	out := ""
	for _, a := range c.Args[1:] {
		if strings.HasPrefix(a, "--go_out=") {
			out = a[len("--go_out="):]
		}
		if strings.HasSuffix(a, ".proto") {
			b := strings.TrimSuffix(filepath.Base(a), ".proto")
			copyFile(base+"/fix/"+b+".pb.go", at(out+"/"+b+".pb.go"))
			copyFile(base+"/fix/"+b+"_grpc.pb.go", at(out+"/"+b+"_grpc.pb.go"))
		}
	}
	return nil
}

// Run is (*exec.Cmd).Run.
func Run(c *exec.Cmd) error { return run(c, c.Stdout) }

type buffer struct{ b []byte }

func (b *buffer) Write(p []byte) (int, error) { b.b = append(b.b, p...); return len(p), nil }

// Output is (*exec.Cmd).Output.
func Output(c *exec.Cmd) ([]byte, error) {
	b := &buffer{}
	err := run(c, b)
	return b.b, err
}

// CombinedOutput is (*exec.Cmd).CombinedOutput.
func CombinedOutput(c *exec.Cmd) ([]byte, error) { return Output(c) }

var pending = map[*exec.Cmd]error{}

// Start is (*exec.Cmd).Start.
func Start(c *exec.Cmd) error {
	if c.Err != nil {
		return c.Err
	}
	pending[c] = run(c, c.Stdout)
	return nil
}

// Wait is (*exec.Cmd).Wait.
func Wait(c *exec.Cmd) error { return pending[c] }

// Load is packages.Load for one existing directory in a module whose go.mod
// is a single module line.
func Load(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	var out []*packages.Package
	for _, p := range patterns {
		abs, err := filepath.Abs(p)
		if err != nil {
			return nil, err
		}
		pk := &packages.Package{}
		for d := abs; ; d = filepath.Dir(d) {
			b, err := ioutil.ReadFile(filepath.Join(d, "go.mod"))
			if err == nil {
				mod := strings.TrimSpace(strings.TrimPrefix(strings.SplitN(string(b), "\n", 2)[0], "module "))
				rel, _ := filepath.Rel(d, abs)
				pk.PkgPath = mod
				if rel != "." {
					pk.PkgPath = mod + "/" + rel
				}
				break
			}
			if d == "/" {
				break
			}
		}
		pk.ID = pk.PkgPath
		out = append(out, pk)
	}
	return out, nil
}
