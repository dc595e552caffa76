// Package cmdl holds the harness for the command and for running protoc.
package cmdl

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/teamlint/baron/internal/execprotoc"
	"github.com/teamlint/baron/internal/zzverif/baronmain"
	"github.com/teamlint/baron/internal/zzverif/rt"
	"github.com/teamlint/baron/internal/zzverif/vexec"
)

// Entries lists the harness functions.
var Entries = map[string]func(){"main!": baronmain.Main, "Protoc": Protoc, "Locations": Locations, "Regenerate": Regenerate, "Refused": Refused, "Information": Information, "Several": Several, "Transports": Transports, "ProtocMany": ProtocMany, "ManyFiles": ManyFiles}

// invocation is what protoc makes of its arguments.
type invocation struct {
	files, path, goOpt, grpcOpt []string
	goOut, grpcOut              string
	optional                    bool
	other                       []string
}

func parse(args []string) (v invocation) {
	for i := 0; i < len(args); i++ {
		a := args[i]
		val := func(name string) (string, bool) {
			if strings.HasPrefix(a, name+"=") {
				return a[len(name)+1:], true
			}
			return "", false
		}
		if x, ok := val("--proto_path"); ok {
			v.path = append(v.path, x)
		} else if a == "-I" || a == "--proto_path" {
			i++
			v.path = append(v.path, args[i])
		} else if strings.HasPrefix(a, "-I") {
			v.path = append(v.path, a[2:])
		} else if x, ok := val("--go_out"); ok {
			v.goOut = x
		} else if x, ok := val("--go-grpc_out"); ok {
			v.grpcOut = x
		} else if x, ok := val("--go_opt"); ok {
			v.goOpt = append(v.goOpt, strings.Split(x, ",")...)
		} else if x, ok := val("--go-grpc_opt"); ok {
			v.grpcOpt = append(v.grpcOpt, strings.Split(x, ",")...)
		} else if a == "--experimental_allow_proto3_optional" {
			v.optional = true
		} else if strings.HasPrefix(a, "-") {
			v.other = append(v.other, a)
		} else {
			v.files = append(v.files, a)
		}
	}
	return
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func has(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// checkInvocation is C19's statement for one run of protoc.
func checkInvocation(args, protos, gopath []string, out string) {
	v := parse(args)
	rt.Assert(same(v.files, protos), "protoc is not run on exactly the given files")
	rt.Assert(v.goOut == out && v.grpcOut == out, "the output directories are not the requested one")
	rt.Assert(has(v.goOpt, "paths=source_relative") && has(v.grpcOpt, "paths=source_relative"), "output paths are not source relative")
	rt.Assert(v.optional, "proto3 optional is not enabled")
	want := []string{filepath.Dir(protos[0])}
	for _, g := range gopath {
		want = append(want, filepath.Join(g, "src"), filepath.Join(g, "src/github.com/teamlint/baron/third_party/googleapis"))
	}
	rt.Assert(same(v.path, want), "the import path is not the definitions' directory and the GOPATH directories")
	rt.Assert(len(v.other) == 0, "protoc gets other arguments")
}

var tools = []string{"protoc", "protoc-gen-go", "protoc-gen-go-grpc"}

// bin makes a directory with the tools but the missing one; its log is empty.
func bin(root, missing string) string {
	b := filepath.Join(root, "bin dir")
	os.MkdirAll(b, 0755)
	for _, t := range tools {
		if t != missing {
			vexec.Stub(b, t)
		}
	}
	return b
}

// Protoc: one run with exactly these arguments, or an error.
func Protoc() {
	root := rt.ScratchDir()
	missing := rt.Pick("missing", append([]string{""}, tools...)...)
	b := bin(root, missing)
	fails := missing == "" && rt.Bool("fails")
	if fails {
		ioutil.WriteFile(filepath.Join(b, "protoc.code1"), []byte("1"), 0644)
	}
	if rt.Bool("noise") {
		ioutil.WriteFile(filepath.Join(b, "protoc.out"), []byte(rt.Pick("noise", "warning: x\n", "%d %s error\n")), 0644)
	}
	// the shell needs its utilities; the engine's model does not
	old := os.Getenv("PATH")
	path := b
	if !rt.Symbolic() {
		path += ":" + clean(root, old)
	}
	os.Setenv("PATH", path)
	defer os.Setenv("PATH", old)

	n := rt.Param("len", 2)
	focus := -1
	if missing != "" || rt.Param("all", 0) == 0 {
		focus = rt.Choice("focus", 4)
	}
	str := func(k int, name string, min int, alphabet, def string) string {
		if focus >= 0 && focus != k || missing != "" && k != 1 {
			return def
		}
		return rt.String(name, min, n, alphabet)
	}
	dir := str(0, "dir", 1, "a-/.: =,", "/d/e")
	rt.Assume(dir[0] != '-')
	var protos []string
	for i := rt.Choice("files", 2) + 1; i > 0; i-- {
		protos = append(protos, dir+"/"+str(1, "file", 1, "a-._ ", "f_g.h")+".proto")
	}
	var gopath []string
	for i := rt.Choice("gopaths", 3); i > 0; i-- {
		gopath = append(gopath, "/"+str(2, "gopath", 0, "a/ .", "go"))
	}
	out := str(3, "out", 1, "a/. :=", "/out")
	err := execprotoc.GeneratePBDotGo(protos, gopath, out)
	rt.Observe("failed", err != nil)
	runs := vexec.Runs(b, "protoc")
	if missing != "" {
		rt.Assert(err != nil, "a missing program is not reported")
		rt.Assert(len(runs) == 0, "protoc is run although a program is missing")
		rt.Reach("missing")
		return
	}
	rt.Assert(len(runs) == 1, "protoc is not run exactly once")
	rt.Observe("args", runs[0])
	checkInvocation(runs[0], protos, gopath, out)
	rt.Assert((err != nil) == fails, "a failing protoc is not reported, or a succeeding one is")
	rt.Reach("run")
}

// clean makes a directory with the shell's utilities only.
func clean(root, path string) string {
	d := filepath.Join(root, "utils")
	os.MkdirAll(d, 0755)
	for _, u := range []string{"sh", "dirname", "basename", "grep", "cat", "cp", "go"} {
		for _, p := range filepath.SplitList(path) {
			if _, err := os.Stat(filepath.Join(p, u)); err == nil {
				os.Symlink(filepath.Join(p, u), filepath.Join(d, u))
				break
			}
		}
	}
	return d
}
