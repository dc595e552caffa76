package cmdl

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/teamlint/baron/internal/zzverif/baronmain"
	"github.com/teamlint/baron/internal/zzverif/rt"
	"github.com/teamlint/baron/internal/zzverif/vexec"
)

const protoText = `syntax = "proto3";

package defs;

service Echo {
  rpc Get (Req) returns (Res) {
    option (google.api.http) = {
      get: "/x/{a}"
    };
  }
}

message Req {
  string a = 1;
}

message Res {
  string b = 1;
}
`

const pbText = "package defs\n\ntype Req struct {\n\tA string `protobuf:\"bytes,1,opt,name=a,proto3\" json:\"a,omitempty\"`\n}\n\nfunc (x *Req) Reset() {}\n\ntype Res struct {\n\tB string `protobuf:\"bytes,1,opt,name=b,proto3\" json:\"b,omitempty\"`\n}\n\nfunc (x *Res) Reset() {}\n"

const grpcText = `package defs

import "context"

type EchoClient interface {
	Get(ctx context.Context, in *Req, opts ...grpc.CallOption) (*Res, error)
}

type EchoServer interface {
	Get(context.Context, *Req) (*Res, error)
	mustEmbedUnimplementedEchoServer()
}
`

const extraProto = "syntax = \"proto3\";\n\npackage defs;\n\nmessage Other {\n  string c = 1;\n}\n"
const extraPB = "package defs\n\ntype Other struct {\n\tC string `protobuf:\"bytes,1,opt,name=c,proto3\" json:\"c,omitempty\"`\n}\n\nfunc (x *Other) Reset() {}\n"

const handlers = `package service

import (
	"context"

	pb "example.com/m/defs"
)

// NewService is mine.
func NewService() pb.EchoServer {
	return &echoService{}
}

type echoService struct{}

// Get is mine.
func (s *echoService) Get(ctx context.Context, in *pb.Req) (*pb.Res, error) {
	return &pb.Res{B: "kept"}, nil
}
`

type world struct {
	root, bin string
	before    map[string]string
}

// setup: a module in root with the definitions in defs, and the tools.
func setup(base string) *world {
	w := &world{root: rt.ScratchDir()}
	w.bin = bin(w.root, "")
	path := w.bin
	if !rt.Symbolic() {
		path += ":" + clean(w.root, os.Getenv("PATH"))
	}
	os.Setenv("PATH", path)
	os.Setenv("GOPATH", filepath.Join(w.root, "gp"))
	os.Setenv("TMPDIR", filepath.Join(w.root, "tmp"))
	os.Setenv("GOFLAGS", "")
	os.Setenv("GOMODCACHE", filepath.Join(w.root, "utils/modcache"))
	os.Setenv("GOPROXY", "off")
	os.MkdirAll(filepath.Join(w.root, "tmp"), 0755)
	w.write("go.mod", "module example.com/m\n\ngo 1.13\n")
	w.write("defs/"+base+".proto", protoText)
	w.write("bin dir/fix/"+base+".pb.go", pbText)
	w.write("bin dir/fix/"+base+"_grpc.pb.go", grpcText)
	return w
}

func (w *world) write(rel, text string) {
	p := filepath.Join(w.root, rel)
	os.MkdirAll(filepath.Dir(p), 0755)
	ioutil.WriteFile(p, []byte(text), 0644)
}

// files is every file below the root but the tools' logs.
func (w *world) files() map[string]string {
	out := map[string]string{}
	filepath.Walk(w.root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(w.root, p)
		rel = filepath.ToSlash(rel)
		if rel == "utils" || rel == "bin dir" {
			return filepath.SkipDir
		}
		if !info.IsDir() {
			b, _ := ioutil.ReadFile(p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

func (w *world) run(args ...string) int {
	w.before = w.files()
	return rt.RunExit(baronmain.Main, args...)
}

func squeeze(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if c := s[i]; c != ' ' && c != '\n' && c != '\t' {
			out += s[i : i+1]
		}
	}
	return out
}

// unchanged: a run that stops early leaves every file alone.
func (w *world) unchanged(what string) {
	after := w.files()
	for p, t := range w.before {
		rt.Assert(after[p] == t, what+" changes or removes "+p)
	}
	for p := range after {
		_, ok := w.before[p]
		rt.Assert(ok, what+" writes "+p)
	}
}

// Locations: every spelling of the definition and of the output directory.
func Locations() {
	base := rt.String("base", 1, rt.Param("len", 2), "a._-")
	rt.Assume(!strings.HasPrefix(base, ".") && !strings.HasPrefix(base, "-"))
	w := setup(base)
	// working directory and definition
	cwd := rt.Pick("cwd", "", "defs", "sub/deep")
	os.MkdirAll(filepath.Join(w.root, cwd), 0755)
	rt.Assert(os.Chdir(filepath.Join(w.root, cwd)) == nil, "chdir")
	up := map[string]string{"": "", "defs": "../", "sub/deep": "../../"}[cwd]
	def := up + "defs/" + base + ".proto"
	switch rt.Choice("spelling", 4) {
	case 1:
		def = "./" + def
	case 2:
		def = filepath.Join(w.root, "defs", base+".proto")
	case 3:
		def = up + "defs/../defs//" + base + ".proto"
	}
	// output directory
	var svc string
	var args []string
	name := rt.String("out", 1, rt.Param("len", 2), "a._")
	rt.Assume(name != "." && name != ".." && name != "._" && name != "_.")
	switch rt.Choice("form", 6) {
	case 0: // the default
		svc = filepath.Join(cwd, "echo-service")
	case 1:
		args, svc = []string{"-o", "./" + name}, filepath.Join(cwd, name)
	case 2:
		args, svc = []string{"--svcout=./" + name + "/"}, filepath.Join(cwd, name, "echo-service")
	case 3:
		args, svc = []string{"-o", "example.com/" + name}, "gp/src/example.com/"+name
	case 4:
		args, svc = []string{"-o", "example.com/" + name + "/"}, "gp/src/example.com/"+name+"/echo-service"
	case 5:
		args, svc = []string{"-o", "."}, cwd
	}
	client := rt.Bool("client")
	if client {
		args = append(args, rt.Pick("clientflag", "-c", "--client"))
	}
	svc = filepath.ToSlash(svc)
	code := w.run(append(args, def)...)
	rt.Observe("code", code)
	rt.Assert(code == 0, "generation fails")
	w.check(base, svc, client, nil)
	rt.Reach("generated")
}

func (w *world) at(rel string) string { return filepath.Join(w.root, rel) }

// check compares the tree after a successful run with the expected one;
// changed may hold files that may differ.
func (w *world) check(base, svc string, client bool, gone map[string]bool) map[string]string {
	after := w.files()
	want := map[string]bool{}
	for _, f := range []string{".pb.go", "_grpc.pb.go", ".pb.baron.go"} {
		want["defs/"+base+f] = true
	}
	in := func(f string) string {
		if svc == "" || svc == "." {
			return f
		}
		return svc + "/" + f
	}
	for _, f := range []string{"cmd/echo/main.go", "server/endpoints.go", "server/interrupt.go", "server/server.go", "server/wrapper.go", "service/service.go", "service/wrapper.go"} {
		want[in(f)] = true
	}
	if client {
		want[in("cmd/echo-client/main.go")] = true
	}
	for p := range want {
		t, ok := after[p]
		rt.Assert(ok, "not written: "+p)
		rt.Assert(len(t) > 0, "empty: "+p)
	}
	for p := range after {
		_, was := w.before[p]
		rt.Assert(was || want[p], "an unexpected file is written: "+p)
	}
	for p, t := range w.before {
		if gone[p] {
			_, ok := after[p]
			rt.Assert(!ok, "a stale file is not removed: "+p)
			continue
		}
		rt.Assert(want[p] || after[p] == t, "a file that is not generated is changed or removed: "+p)
	}
	// the generated code refers to the packages where they are
	rt.Assert(strings.Contains(after[in("server/server.go")], "\"example.com/m/defs\""), "the server does not import the definitions' package")
	self := "example.com/m"
	if in("") != "" {
		self += "/" + svc
	}
	_, had := w.before[in("cmd/echo/main.go")]
	rt.Assert(had || strings.Contains(after[in("cmd/echo/main.go")], "\""+self+"/server\""), "the command does not import the service's packages")
	// protoc ran into the definitions' directory and into one that is gone
	runs := vexec.Runs(w.bin, "protoc")
	files := []string{w.at("defs/" + base + ".proto")}
	gopath := []string{w.at("gp")}
	into := 0
	for _, r := range runs {
		out := parse(r).goOut
		checkInvocation(r, files, gopath, out)
		if out == w.at("defs") {
			into++
		} else {
			_, err := os.Stat(out)
			rt.Assert(err != nil, "the temporary directory is left behind")
		}
	}
	rt.Assert(into == 1, "protoc does not write to the definitions' directory exactly once")
	return after
}

var owned = []string{"server/endpoints.go", "server/interrupt.go", "server/wrapper.go", "service/wrapper.go", "cmd/echo/main.go", "cmd/echo-client/main.go"}

// Regenerate: a run over an existing project.
func Regenerate() {
	w := setup("api")
	svc := []string{"service", "out/echo-service", "cmd", "server"}[rt.Choice("service", rt.Param("services", 4))]
	args := []string{"-o", "./" + svc}
	client := rt.Bool("client")
	if client {
		args = append(args, "-c")
	}
	rt.Assert(os.Chdir(w.root) == nil, "chdir")
	// what is there before
	text := rt.String("text", 0, rt.Param("len", 2), "a \n(")
	mine := map[string]bool{}
	sel := rt.Choice("owned", len(owned)+2)
	for i, f := range owned {
		if sel == i || sel == len(owned) {
			mine[svc+"/"+f] = true
			w.write(svc+"/"+f, "package mine\n\nvar kept = 1 // x"+text+"\n")
		}
	}
	if sel == len(owned) {
		w.write(svc+"/server/server.go", "package server\n\nthis is not Go\n")
	}
	kept := rt.Bool("handlers")
	if kept {
		w.write(svc+"/service/service.go", handlers)
	}
	// stale directories and others that look like them
	gone := map[string]bool{}
	stale := rt.Choice("stale", 6)
	for i, d := range []string{"svc/server/cli", "svc/client/cli", "cmd/echo-server"} {
		if stale == i || stale == 4 {
			for _, f := range []string{"/main.go", "/sub/x.txt"} {
				w.write(svc+"/"+d+f, "package x\n")
				gone[svc+"/"+d+f] = true
			}
		}
	}
	if stale >= 3 {
		for _, f := range []string{"svc/server/run.go", "svc/server/client.go", "svc/client/http.go", "svc/cli/x.go", "cmd/echo-serverx/main.go", "cmd/other-server/main.go", "cmd/server/main.go",
			"cmd/echo/extra.go", "service/more.go", "service/deep/x.go", "server/extra.go", "notes.txt", "vendor/server/server.go", "../server/cli/x.go", "../svc/server/cli/x.go", "../cmd/echo-server/x.go", "a b/c.txt"} {
			w.write(svc+"/"+f, "package "+text+"\n")
		}
	}
	code := w.run(append(args, "defs/api.proto")...)
	rt.Observe("code", code)
	rt.Assert(code == 0, "generation over an existing project fails")
	before := w.before
	after := w.check("api", svc, client, gone)
	for p := range mine {

		rt.Assert(squeeze(after[p]) == squeeze(before[p]), "a user file is overwritten: "+p)
	}
	if kept {
		rt.Assert(strings.Contains(after[svc+"/service/service.go"], `B: "kept"`) && strings.Contains(after[svc+"/service/service.go"], "// Get is mine."), "a handler is lost")
	}
	rt.Assert(strings.Count(after[svc+"/service/service.go"], ") Get(ctx ") == 1, "the handler is not there exactly once")
	rt.Assert(strings.Contains(after[svc+"/server/server.go"], "package server") && !strings.Contains(after[svc+"/server/server.go"], "this is not Go"), "the server file is not regenerated")
	// and nothing changes any more
	before = w.files()
	code = w.run(append(args, "defs/api.proto")...)
	rt.Assert(code == 0, "generation over an up-to-date project fails")
	w.unchanged("a second run")
	rt.Reach("regenerated")
}

// Refused: runs that cannot work fail and leave everything alone.
func Refused() {
	w := setup("api")
	rt.Assert(os.Chdir(w.root) == nil, "chdir")
	w.write("more/b.proto", extraProto)
	w.write("defs/deep/c.proto", extraProto)
	w.write("more/defs/b.proto", extraProto)
	w.write("server/server.go", "package mine\n")
	w.write("svc/server/cli/main.go", "package x\n")
	var args []string
	second := rt.Pick("second", "more/b.proto", "./more/b.proto", "more/defs/b.proto", "defs/deep/c.proto", "d.proto", w.at("more/b.proto"), "defs/../api.proto")
	switch rt.Choice("case", 5) {
	case 0: // no definitions
	case 1:
		args = []string{"defs/api.proto", second}
	case 2:
		args = []string{second, "defs/api.proto"}
	case 3:
		os.Remove(filepath.Join(w.bin, tools[rt.Choice("tool", len(tools))]))
		args = []string{"defs/api.proto"}
	case 4:
		ioutil.WriteFile(filepath.Join(w.bin, "protoc.code1"), []byte(rt.Pick("exit", "1", "2", "127")), 0644)
		args = []string{"defs/api.proto"}
	}
	if rt.Bool("out") {
		args = append([]string{"-o", "./"}, args...)
	}
	code := w.run(args...)
	rt.Observe("code", code)
	rt.Assert(code != 0, "a run that cannot work succeeds")
	w.unchanged("a failing run")
	runs := vexec.Runs(w.bin, "protoc")
	if len(args) > 0 && args[len(args)-1] != "defs/api.proto" || len(args) == 0 {
		rt.Assert(len(runs) == 0, "protoc is run on refused definitions")
	}
	rt.Reach("refused")
}

// Information: runs that only print.
func Information() {
	w := setup("api")
	rt.Assert(os.Chdir(w.root) == nil, "chdir")
	w.write("svc/server/cli/main.go", "package x\n")
	args := []string{rt.Pick("flag", "-h", "--help", "-V", "--version")}
	if rt.Bool("with") {
		args = append(args, "defs/api.proto")
	}
	code := w.run(args...)
	rt.Observe("code", code)
	rt.Assert(code == 0, "asking for information fails")
	w.unchanged("asking for information")
	rt.Assert(len(vexec.Runs(w.bin, "protoc")) == 0, "asking for information runs protoc")
	rt.Reach("informed")
}

// Several: a definition in several files, only one of which has the service.
func Several() {
	w := setup("api")
	rt.Assert(os.Chdir(w.root) == nil, "chdir")
	other := rt.String("other", 1, rt.Param("len", 2), "abz_.-")
	rt.Assume(other[0] != '.' && other[0] != '-')
	w.write("defs/"+other+".proto", extraProto)
	w.write("bin dir/fix/"+other+".pb.go", extraPB)
	names := []string{"api", other}
	if rt.Bool("swap") {
		names = []string{other, "api"}
	}
	service := rt.Bool("service")
	if !service {
		w.write("defs/api.proto", "syntax = \"proto3\";\n\npackage defs;\n\nmessage Req {\n  string a = 1;\n}\n\nmessage Res {\n  string b = 1;\n}\n")
		os.Remove(filepath.Join(w.bin, "fix/api_grpc.pb.go"))
	}
	code := w.run("-o", "./out", "defs/"+names[0]+".proto", "defs/"+names[1]+".proto")
	rt.Observe("code", code)
	after := w.files()
	rt.Assert(after["defs/api.pb.go"] == pbText && after["defs/"+other+".pb.go"] == extraPB, "the protobuf code is not generated for every file")
	n := 0
	for p := range after {
		if strings.HasPrefix(p, "out/") {
			n++
		}
		_, was := w.before[p]
		rt.Assert(was || strings.HasPrefix(p, "out/") || strings.HasPrefix(p, "defs/") && strings.HasSuffix(p, ".go"), "an unexpected file is written: "+p)
	}
	for p, t := range w.before {
		rt.Assert(after[p] == t, "an existing file is changed or removed: "+p)
	}
	for _, r := range vexec.Runs(w.bin, "protoc") {
		checkInvocation(r, []string{w.at("defs/" + names[0] + ".proto"), w.at("defs/" + names[1] + ".proto")}, []string{w.at("gp")}, parse(r).goOut)
	}
	if !service {
		rt.Assert(n == 0, "files are generated without a service")
		rt.Reach("no service")
		return
	}
	rt.Assert(code == 0, "generation from several files fails")
	rt.Assert(n == 7, "not exactly the service's files are written")
	rt.Assert(after["defs/"+names[0]+".pb.baron.go"] != "", "the transport file is not next to the definitions")
	rt.Assert(strings.Contains(after["out/service/service.go"], ") Get("), "the handler is missing")
	rt.Reach("several")
}

// Transports: the transports asked for, and only those, are served; others are refused.
func Transports() {
	w := setup("api")
	rt.Assert(os.Chdir(w.root) == nil, "chdir")
	t := rt.Pick("transport", "all", "grpc", "nats", "http", "")
	if t == "" {
		t = rt.String("other", 0, rt.Param("len", 2), "aAglnp ") + rt.Pick("rest", "", "all", "grpc", "nats", "http")
	}
	var args []string
	switch rt.Choice("form", 4) {
	case 0:
		args = []string{"-t", t}
	case 1:
		args = []string{"--transport=" + t}
	case 2:
		args = []string{"--transport", t}
	case 3:
		args = []string{"-ct" + t}
		rt.Assume(t != "" && t[0] != '=')
	}
	client := rt.Bool("client")
	if client {
		args = append(args, "-c")
	}
	client = client || strings.HasPrefix(args[0], "-ct")
	if more := rt.Pick("print", "", "-v", "--debug", "-d"); more != "" {
		args = append(args, more)
	}
	code := w.run(append(args, "defs/api.proto")...)
	rt.Observe("code", code)
	if t != "all" && t != "grpc" && t != "nats" && t != "http" {
		rt.Assert(code != 0, "an unknown transport is accepted")
		w.unchanged("a run for an unknown transport")
		rt.Assert(len(vexec.Runs(w.bin, "protoc")) == 0, "protoc is run for an unknown transport")
		rt.Reach("refused")
		return
	}
	rt.Assert(code == 0, "generation for a transport fails")
	after := w.check("api", "echo-service", client, nil)
	grpc, nats := t == "all" || t == "grpc", t == "all" || t == "nats"
	server := squeeze(after["echo-service/server/server.go"])
	rt.Assert(strings.Contains(server, "pb.MakeGRPCServer(") == grpc && strings.Contains(server, "pb.RegisterEchoServer(") == grpc, "the server serves gRPC without being asked, or does not")
	rt.Assert(strings.Contains(server, "pb.MakeNATSServer(") == nats && strings.Contains(server, "pb.ServeNATS(") == nats, "the server serves NATS without being asked, or does not")
	rt.Assert(strings.Contains(server, "pb.MakeHTTPHandler("), "the server does not serve HTTP")
	code2 := squeeze(after["defs/api.pb.baron.go"])
	rt.Assert(strings.Contains(code2, "funcMakeGRPCServer(") == grpc && strings.Contains(code2, "funcNewGRPCClient(") == grpc, "the gRPC transport is generated without being asked, or is not")
	rt.Assert(strings.Contains(code2, "funcMakeNATSServer(") == nats && strings.Contains(code2, "funcNewNATSClient(") == nats, "the NATS transport is generated without being asked, or is not")
	rt.Assert(strings.Contains(code2, "funcMakeHTTPHandler(") && strings.Contains(code2, "funcNewHTTPClient("), "the HTTP transport is not generated")
	rt.Reach("served")
}
