package cmdl

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/teamlint/baron/internal/execprotoc"
	"github.com/teamlint/baron/internal/zzverif/rt"
	"github.com/teamlint/baron/internal/zzverif/vexec"
)

func number(i int) string {
	if i < 10 {
		return string([]byte{byte('0' + i)})
	}
	return number(i/10) + number(i%10)
}

// count is any number up to a bound, and some greater ones.
func count(bound int, more ...int) int {
	n := rt.Choice("count", bound+1+len(more))
	if n > bound {
		return more[n-bound-1]
	}
	return n
}

// ProtocMany: many files, many GOPATH entries, long names.
func ProtocMany() {
	root := rt.ScratchDir()
	b := bin(root, "")
	old := os.Getenv("PATH")
	path := b
	if !rt.Symbolic() {
		path += ":" + clean(root, old)
	}
	os.Setenv("PATH", path)
	defer os.Setenv("PATH", old)
	n := count(17, 20, 31, 32, 33, 50, 64, 65, 99, 100, 101, 127, 128, 200, 255)
	c := rt.String("char", 1, 1, "aZ0-._ =:,@%")
	protos, gopath, out := []string{"/d/svc.proto"}, []string{"/go"}, "/out"
	switch rt.Choice("what", 8) {
	case 0:
		for i := 0; i < n; i++ {
			protos = append(protos, "/d/f"+c+number(i)+".proto")
		}
	case 1:
		for i := 0; i < n; i++ {
			protos = append(protos, protos[0])
		}
	case 2:
		for i := 0; i < n; i++ {
			gopath = append(gopath, "/g"+c+number(i))
		}
	case 3:
		for i := 0; i < n; i++ {
			gopath = append(gopath, "/go")
		}
	case 4:
		protos = append(protos, "/d/f"+strings.Repeat(c, n)+".proto")
	case 5:
		d := "/d" + strings.Repeat(c, n)
		protos = []string{d + "/a.proto", d + "/b.proto"}
	case 6:
		gopath = append(gopath, "/g"+strings.Repeat(c, n))
		out = "/o" + strings.Repeat(c, n)
	case 7:
		out = strings.Repeat("/"+c, n) + "/x"
		d := strings.Repeat("/q"+c, n)
		protos = []string{d + "/a.proto", d + "/a" + c + ".proto"}
	}
	fails := rt.Bool("fails")
	if fails {
		vexecWrite(b, "protoc.code1", "1")
		vexecWrite(b, "protoc.out", strings.Repeat("error\n", n))
	}
	err := execprotoc.GeneratePBDotGo(protos, gopath, out)
	runs := vexec.Runs(b, "protoc")
	rt.Assert(len(runs) == 1, "protoc is not run exactly once")
	checkInvocation(runs[0], protos, gopath, out)
	rt.Assert((err != nil) == fails, "a failing protoc is not reported, or a succeeding one is")
	rt.Reach("run")
}

func vexecWrite(dir, name, text string) {
	w := &world{root: dir}
	w.write(name, text)
}

// ManyFiles: the command on many definitions, long names, several GOPATH
// entries, and over larger files of an earlier run.
func ManyFiles() {
	w := setup("api")
	rt.Assert(os.Chdir(w.root) == nil, "chdir")
	n := rt.Choice("count", 11)
	if n > 8 {
		n = []int{17, 40}[n-9]
	}
	service, away := 0, -1
	var names []string
	what := rt.Choice("what", 5)
	junk := ""
	gopath := []string{w.at("gp")}
	out := "out"
	switch what {
	case 0, 1:
		service = n * rt.Choice("service", 3) / 2
		for i := 0; i <= n; i++ {
			if i == service {
				names = append(names, "api")
				continue
			}
			names = append(names, "more"+number(i))
		}
		if what == 1 && n > 0 {
			away = 1 + (n-1)*rt.Choice("away", 3)/2
			names[away] = "../other/x"
			service = -1
			if away > 0 && names[0] != "api" {
				names[0] = "api"
			}
		}
	case 2:
		c := rt.String("char", 1, 1, "aZ0._-")
		names = []string{"api", "x" + strings.Repeat(c, n)}
		if rt.Bool("swap") {
			names = []string{names[1], names[0]}
			service = 1
		}
	case 3:
		names = []string{"api"}
		for i := 0; i < n; i++ {
			gopath = append(gopath, w.at("gp"+number(i)))
		}
		os.Setenv("GOPATH", strings.Join(gopath, ":"))
		out = strings.Repeat("d/", n) + "out"
	case 4:
		names = []string{"api"}
		junk = strings.Repeat("// junk of an earlier run\n", n*n*100+1)
		w.write("defs/api.pb.baron.go", "package defs\n"+junk)
		w.write("out/server/server.go", "package server\n"+junk)
		w.write("defs/api.pb.go", junk)
	}
	var args, files []string
	for _, f := range names {
		if f != "api" {
			w.write("defs/"+f+".proto", extraProto)
			w.write("bin dir/fix/"+filepath.Base(f)+".pb.go", extraPB)
		}
		args = append(args, "defs/"+f+".proto")
		files = append(files, w.at("defs/"+f+".proto"))
	}
	code := w.run(append([]string{"-o", "./" + out}, args...)...)
	rt.Observe("code", code)
	if away >= 0 {
		rt.Assert(code != 0, "definitions in several directories are accepted")
		w.unchanged("a failing run")
		rt.Assert(len(vexec.Runs(w.bin, "protoc")) == 0, "protoc is run on refused definitions")
		rt.Reach("refused")
		return
	}
	rt.Assert(code == 0, "generation from several files fails")
	after := w.files()
	k := 0
	for p, t := range after {
		rt.Assert(!strings.Contains(t, "junk"), "what an earlier run left is still there: "+p)
		_, was := w.before[p]
		if strings.HasPrefix(p, out+"/") {
			k++
			continue
		}
		rt.Assert(was || strings.HasPrefix(p, "defs/") && strings.HasSuffix(p, ".go"), "an unexpected file is written: "+p)
	}
	for p, t := range w.before {
		rt.Assert(after[p] == t || junk != "" && strings.HasSuffix(p, ".go"), "an existing file is changed or removed: "+p)
	}
	rt.Assert(k == 7, "not exactly the service's files are written")
	for _, f := range names {
		want := extraPB
		if f == "api" {
			want = pbText
		}
		rt.Assert(after["defs/"+f+".pb.go"] == want, "the protobuf code is not generated for every file")
	}
	rt.Assert(after["defs/"+names[0]+".pb.baron.go"] != "", "the transport file is not next to the definitions")
	rt.Assert(strings.Contains(after[out+"/service/service.go"], ") Get("), "the handler is missing")
	for _, r := range vexec.Runs(w.bin, "protoc") {
		checkInvocation(r, files, gopath, parse(r).goOut)
	}
	rt.Reach("several")
}
