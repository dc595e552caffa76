// Package complete holds the harnesses for the claim that what is generated
// is a Go program: it parses, and the type checker accepts it.
package complete

import (
	"errors"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/ioutil"
	"path/filepath"
	"sort"
	"strings"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/gengokit/generator"
	"github.com/teamlint/baron/internal/zzverif/rt"
	"github.com/teamlint/baron/internal/zzverif/rt/strsref"
	"github.com/teamlint/baron/svcdef"
)

// Entries lists the harness functions.
var Entries = map[string]func(){
	"Options":     Options,
	"Fields":      Fields,
	"MethodNames": MethodNames,
	"FieldNames":  FieldNames,
	"UsedWords":   UsedWords,
	"Bindings":    Bindings,
}

func camel(s string) string { return strsref.GoCamelCase(s) }

type fld struct{ name, kind, label string } // label: "", optional, repeated, or the oneof's name after a colon
type msg struct {
	name   string
	fields []fld
}
type bind struct{ verb, path, body string }
type rpc struct {
	name, req, res string
	binds          []bind
}
type def struct {
	pkg, svc string
	msgs     []msg
	rpcs     []rpc
}

var goKinds = map[string]string{
	"int32": "int32", "sint32": "int32", "sfixed32": "int32", "int64": "int64", "sint64": "int64", "sfixed64": "int64",
	"uint32": "uint32", "fixed32": "uint32", "uint64": "uint64", "fixed64": "uint64",
	"bool": "bool", "float": "float32", "double": "float64", "string": "string", "bytes": "[]byte",
}

func (d *def) goType(f fld) string {
	t, scalar := goKinds[f.kind]
	if f.kind == "Color" || f.kind == "Outer.Tone" {
		t, scalar = camel(f.kind), true
	}
	switch {
	case strings.HasPrefix(f.kind, "map<"):
		return "map[string]int32"
	case strings.HasPrefix(f.kind, "google.protobuf."):
		t = "*knownpb." + f.kind[len("google.protobuf."):]
	case !scalar:
		t = "*" + camel(f.kind)
	}
	switch {
	case f.label == "repeated":
		return "[]" + t
	case f.label == "optional" && scalar && t != "[]byte":
		return "*" + t
	}
	return t
}

// pointer is the mark of an optional scalar.
func (d *def) pointer(f fld) string {
	if _, scalar := goKinds[f.kind]; f.label == "optional" && (scalar && f.kind != "bytes" || f.kind == "Color" || f.kind == "Outer.Tone") {
		return "*"
	}
	return ""
}

// proto is the text of the definition.
func (d *def) proto() string {
	o := "syntax = \"proto3\";\n\npackage " + d.pkg + ";\n\noption go_package = \"example.com/pb;" + d.pkg + "\";\n\nimport \"google/api/annotations.proto\";\n\nenum Color {\n  RED = 0;\n  GREEN = 1;\n}\n\nmessage Outer {\n  enum Tone {\n    LOW = 0;\n  }\n  message Inner {\n    int32 y = 1;\n  }\n  Inner in = 1;\n}\n\n"
	for _, m := range d.msgs {
		o += "message " + m.name + " {\n"
		open := ""
		for i, f := range m.fields {
			one := ""
			if strings.HasPrefix(f.label, ":") {
				one = f.label[1:]
			}
			if one != open {
				if open != "" {
					o += "  }\n"
				}
				if one != "" {
					o += "  oneof " + one + " {\n"
				}
				open = one
			}
			o += "  "
			if one == "" && f.label != "" {
				o += f.label + " "
			}
			o += f.kind + " " + f.name + " = " + digits(i+1) + ";\n"
		}
		if open != "" {
			o += "  }\n"
		}
		o += "}\n\n"
	}
	o += "service " + d.svc + " {\n"
	for _, r := range d.rpcs {
		o += "  rpc " + r.name + "(" + r.req + ") returns (" + r.res + ")"
		if len(r.binds) == 0 {
			o += ";\n"
			continue
		}
		o += " {\n    option (google.api.http) = {\n"
		for i, b := range r.binds {
			if i > 0 {
				o += "      additional_bindings {\n"
			}
			if strings.HasPrefix(b.verb, "custom ") {
				o += "        custom {\n          kind: \"" + b.verb[len("custom "):] + "\"\n          path: \"" + b.path + "\"\n        }\n"
			} else {
				o += "        " + b.verb + ": \"" + b.path + "\"\n"
			}
			if b.body != "" {
				o += "        body: \"" + b.body + "\"\n"
			}
			if i > 0 {
				o += "      }\n"
			}
		}
		o += "    };\n  }\n"
	}
	return o + "}\n"
}

func digits(n int) string {
	if n > 9 {
		return digits(n/10) + digits(n%10)
	}
	return string([]byte{byte('0' + n)})
}

// messages is what protoc-gen-go gives for the messages.
func (d *def) messages() string {
	o := "package " + d.pkg + "\n\ntype Color int32\n\nconst (\n\tColor_RED Color = 0\n\tColor_GREEN Color = 1\n)\n\nvar Color_name = map[int32]string{0: \"RED\", 1: \"GREEN\"}\n\nvar Color_value = map[string]int32{\"RED\": 0, \"GREEN\": 1}\n\nfunc (x Color) Enum() *Color {\n\tp := new(Color)\n\t*p = x\n\treturn p\n}\n\nfunc (x Color) String() string { return Color_name[int32(x)] }\n\n"
	o += "type Outer_Tone int32\n\nconst Outer_LOW Outer_Tone = 0\n\nfunc (x Outer_Tone) Enum() *Outer_Tone { return &x }\n\nfunc (x Outer_Tone) String() string { return \"\" }\n\n"
	msgs := append([]msg{{"Outer", []fld{{"in", "Outer.Inner", ""}}}, {"Outer.Inner", []fld{{"y", "int32", ""}}}}, d.msgs...)
	for _, m := range msgs {
		name := camel(m.name)
		o += "type " + name + " struct {\n"
		alts := ""
		seen := map[string]bool{}
		for _, f := range m.fields {
			c := camel(f.name)
			alts += "func (x *" + name + ") Get" + c + "() (v " + strings.TrimPrefix(d.goType(f), d.pointer(f)) + ") { return }\n\n"
			if !strings.HasPrefix(f.label, ":") {
				o += "\t" + c + " " + d.goType(f) + " `protobuf:\"bytes,1,opt,name=" + f.name + ",proto3\" json:\"" + f.name + ",omitempty\"`\n"
				continue
			}
			one := camel(f.label[1:])
			is := "is" + name + "_" + one
			if !seen[one] {
				seen[one] = true
				o += "\t" + one + " " + is + " `protobuf_oneof:\"" + f.label[1:] + "\"`\n"
				alts += "type " + is + " interface {\n\t" + is + "()\n}\n\n"
			}
			alts += "type " + name + "_" + c + " struct {\n\t" + c + " " + d.goType(fld{f.name, f.kind, ""}) + " `protobuf:\"bytes,1,opt,name=" + f.name + ",proto3,oneof\"`\n}\n\n"
			alts += "func (*" + name + "_" + c + ") " + is + "() {}\n\n"
		}
		o += "}\n\nfunc (x *" + name + ") Reset() {}\n\nfunc (x *" + name + ") String() string { return \"\" }\n\nfunc (*" + name + ") ProtoMessage() {}\n\nfunc (x *" + name + ") ProtoReflect() protoreflect.Message { return nil }\n\n" + alts
	}
	imports := "import \"google.golang.org/protobuf/reflect/protoreflect\"\n"
	if strings.Contains(o, "knownpb.") {
		o = strings.Replace(o, "knownpb.", "timestamppb.", -1)
		imports += "\nimport \"google.golang.org/protobuf/types/known/timestamppb\"\n"
	}
	return strings.Replace(o, "\n\n", "\n\n"+imports+"\n", 1)
}

// rpcFile is what protoc-gen-go-grpc gives for the service.
func (d *def) rpcFile() string {
	s := camel(d.svc)
	o := "package " + d.pkg + "\n\nimport (\n\t\"context\"\n\n\t\"google.golang.org/grpc\"\n)\n\n"
	o += "type " + s + "Client interface {\n"
	for _, r := range d.rpcs {
		o += "\t" + camel(r.name) + "(ctx context.Context, in *" + camel(r.req) + ", opts ...interface{}) (*" + camel(r.res) + ", error)\n"
	}
	o += "}\n\ntype " + s + "Server interface {\n"
	for _, r := range d.rpcs {
		o += "\t" + camel(r.name) + "(context.Context, *" + camel(r.req) + ") (*" + camel(r.res) + ", error)\n"
	}
	o += "\tmustEmbedUnimplemented" + s + "Server()\n}\n\ntype Unimplemented" + s + "Server struct {\n}\n\n"
	for _, r := range d.rpcs {
		o += "func (Unimplemented" + s + "Server) " + camel(r.name) + "(context.Context, *" + camel(r.req) + ") (*" + camel(r.res) + ", error) {\n\treturn nil, nil\n}\n\n"
	}
	o += "func Register" + s + "Server(s grpc.ServiceRegistrar, srv " + s + "Server) {}\n\nfunc New" + s + "Client(cc grpc.ClientConnInterface) " + s + "Client { return nil }\n\n"
	return o + "func (Unimplemented" + s + "Server) mustEmbedUnimplemented" + s + "Server() {}\n"
}

type world struct {
	fset *token.FileSet
	pkgs map[string]*types.Package
	// what the type checker has to say
	bad []string
}

var errNone = errors.New("not here")

func (w *world) Import(path string) (*types.Package, error) {
	if p := w.pkgs[path]; p != nil {
		return p, nil
	}
	if src, ok := stubs[path]; ok {
		p := w.check(path, map[string]string{path + ".go": src})
		return p, nil
	}
	return nil, errNone
}

func sorted(m map[string]string) []string {
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func (w *world) check(path string, src map[string]string) *types.Package {
	var files []*ast.File
	for _, n := range sorted(src) {
		f, err := parser.ParseFile(w.fset, n, src[n], 0)
		if err != nil {
			w.bad = append(w.bad, err.Error())
			return nil
		}
		files = append(files, f)
	}
	c := types.Config{Importer: w, Error: func(err error) {
		if !unseen(err.Error()) {
			w.bad = append(w.bad, err.Error())
		}
	}}
	p, _ := c.Check(path, w.fset, files, nil)
	w.pkgs[path] = p
	return p
}

// unseen tells what the type checker says only because a package is not there, or not whole.
func unseen(text string) bool {
	if strings.Contains(text, "could not import") {
		return true
	}
	name := after(text, ": undefined: ")
	if strings.Contains(text, " has no field or method ") {
		name = strings.TrimLeft(after(text, " undefined (type "), "*")
	}
	j := strings.Index(name, ".")
	if j < 0 || name[:j] == "strconv" {
		return false
	}
	for path := range stubs {
		if path == name[:j] || strings.HasSuffix(path, "/"+name[:j]) || path == "github.com/nats-io/nats.go" && name[:j] == "nats" {
			return true
		}
	}
	return false
}

func after(s, mark string) string {
	if i := strings.Index(s, mark); i >= 0 {
		return s[i+len(mark):]
	}
	return ""
}

// complete generates the whole project for the definition and asks the type checker.
func complete(d *def, transport string, client bool) { compiles(d, transport, client, true) }

func compiles(d *def, transport string, client, all bool) {
	dirs := map[string]map[string]string{}
	for n, t := range project(d, transport, client, all) {
		dir := filepath.Dir(n)
		if dirs[dir] == nil {
			dirs[dir] = map[string]string{}
		}
		dirs[dir][n] = t
	}
	w := &world{fset: token.NewFileSet(), pkgs: map[string]*types.Package{}}
	pb := map[string]string{"x.pb.go": d.messages(), "x_grpc.pb.go": d.rpcFile()}
	w.check("example.com/pb", pb)
	rt.Assume(len(w.bad) == 0) // names that protoc itself has to change or refuse
	pb["x.pb.baron.go"] = dirs["."]["x.pb.baron.go"]
	w.check("example.com/pb", pb)
	w.report("transport code")
	if !all {
		return
	}
	for _, dir := range []string{"service", "server"} {
		w.check("example.com/x/"+dir, dirs[dir])
		w.report(dir + " code")
	}
	for dir, src := range dirs {
		if strings.HasPrefix(dir, "cmd/") {
			w.check("example.com/x/"+dir, src)
			w.report(dir + " code")
		}
	}
}

// project is every file generated for the definition.
func project(d *def, transport string, client, all bool) map[string]string {
	pbDir := rt.ScratchDir()
	pb := map[string]string{"x.pb.go": d.messages(), "x_grpc.pb.go": d.rpcFile()}
	in := map[string]io.Reader{}
	for n, t := range pb {
		in[n] = strings.NewReader(t)
	}
	sd, err := svcdef.New(in, map[string]io.Reader{"x.proto": strings.NewReader(d.proto())})
	if err != nil {
		rt.Observe("err", err.Error())
	}
	rt.Assert(err == nil, "the definition is refused")
	c := gengokit.Config{
		GoPackage: "example.com/x", ServicePath: "/nonexistent/svc", PBPackage: "example.com/pb", PBPath: pbDir,
		Version: "1", VersionDate: "2020", Transport: transport, GenClient: client,
		PreviousFiles: map[string]io.Reader{},
	}
	p := filepath.Join(pbDir, "x.pb.baron.go")
	rt.Assert(generator.GenerateBaronFile(sd, c, p) == nil, "generation fails")
	b, err := ioutil.ReadFile(p)
	rt.Assert(err == nil, "the transport file is not written")
	out := map[string]string{"x.pb.baron.go": string(b)}
	if !all {
		return out
	}
	fs, err := generator.GenerateGokit(sd, c)
	rt.Assert(err == nil, "generation fails")
	for n, r := range fs {
		b, err := ioutil.ReadAll(r)
		rt.Assert(err == nil, "a generated file cannot be read")
		out[n] = string(b)
	}
	return out
}

func (w *world) report(what string) {
	if len(w.bad) > 0 {
		rt.Observe("says", w.bad[0])
	}
	if len(w.bad) > 0 {
		rt.Assert(false, "the generated "+what+" does not compile: "+w.bad[0])
	}
}

func plain() *def {
	return &def{pkg: "pb", svc: "Svc",
		msgs: []msg{{"Req", []fld{{"a", "string", ""}, {"b", "int32", ""}}}, {"Res", []fld{{"text", "string", ""}}}},
		rpcs: []rpc{{"Get", "Req", "Res", []bind{{"get", "/get/{a}", ""}}}},
	}
}

// Options: every transport, with and without client, no to two methods, with no, one and two bindings.
func Options() {
	d := plain()
	d.rpcs = nil
	n := rt.Choice("methods", 3)
	for i := 0; i < n; i++ {
		r := rpc{"M" + digits(i), "Req", "Res", nil}
		k := rt.Choice("bindings"+digits(i), 3)
		if k > 0 {
			r.binds = append(r.binds, bind{"get", "/m" + digits(i) + "/{a}", ""})
		}
		if k > 1 {
			r.binds = append(r.binds, bind{"post", "/n" + digits(i) + "/{b}", "*"})
		}
		d.rpcs = append(d.rpcs, r)
	}
	transport := rt.Pick("transport", "all", "grpc", "nats", "http")
	complete(d, transport, rt.Bool("client"))
	rt.Reach("checked")
}

var kinds = []string{"string", "int32", "sint32", "sfixed32", "int64", "sint64", "sfixed64", "uint32", "fixed32", "uint64", "fixed64", "bool", "float", "double", "Color", "bytes", "Sub", "google.protobuf.Timestamp", "map<string, int32>", "Outer.Inner", "Outer.Tone"}

// field adds to the definition a method with a field of any kind, label and place.
func (d *def) field(t string, alone bool) {
	k := kinds[rt.Choice("kind"+t, len(kinds))]
	label := rt.Pick("label"+t, "", "optional", "repeated", ":one")
	place := rt.Pick("place"+t, "path", "query", "body", "field")
	scalar := k != "Sub" && k != "Outer.Inner" && k[0] != 'm' && k != "bytes" && !strings.HasPrefix(k, "google.")
	rt.Assume(place != "path" || scalar && (label == "" || label == "optional"))
	rt.Assume(k[0] != 'm' || label == "")
	rt.Assume(label != ":one" || place != "field")
	f := fld{"val_" + t, k, label}
	m := msg{"Req" + t, []fld{{"id", "string", ""}, f}}
	if label == ":one" {
		m.fields = append(m.fields, fld{"other", "int64", ":one"})
	}
	if !alone {
		m.fields = append(m.fields, fld{"last", "bool", ""})
	}
	d.msgs = append(d.msgs, m)
	path := "/f" + t + "/{id}"
	if place == "path" {
		path = "/f" + t + "/{val_" + t + "}"
		if !alone {
			path += "/{id}"
		}
	}
	b := bind{"get", path, ""}
	switch place {
	case "body":
		b = bind{"post", path, "*"}
	case "field":
		b = bind{"put", path, "val_" + t}
	}
	d.rpcs = append(d.rpcs, rpc{"F" + t, "Req" + t, "Res", []bind{b}})
}

// Fields: a field of every kind, label and place, with and without other fields.
func Fields() {
	d := plain()
	d.msgs = append(d.msgs, msg{"Sub", []fld{{"x", "int32", ""}}})
	only := rt.Bool("only")
	alone, transport := only, "all"
	if only {
		d.rpcs = nil
		transport = "http"
	}
	if rt.Param("free", 0) == 1 {
		alone, transport = rt.Bool("alone"), rt.Pick("transport", "all", "http")
	}
	d.field("1", alone)
	compiles(d, transport, false, rt.Param("free", 0) == 1)
	rt.Reach("checked")
}

// MethodNames: two methods of any names, also ones that differ in case only.
func MethodNames() {
	d := plain()
	a := rt.String("first", 1, rt.Param("len", 2), "gGoOfF_1")
	b := rt.String("second", 1, 2, "gGoO")
	rt.Assume(camel(a) != camel(b) && a[0] >= 'A' && a[0] != '_' && b[0] != '_')
	d.rpcs = []rpc{
		{a, "Req", "Res", []bind{{"get", "/a/{a}", ""}, {"post", "/b/{b}", "*"}}},
		{b, "Req", "Res", []bind{{"get", "/c/{a}", ""}}},
	}
	complete(d, "all", true)
	rt.Reach("checked")
}

// FieldNames: fields of any names, in the path, the query and the body.
func FieldNames() {
	d := plain()
	a := rt.String("first", 1, rt.Param("len", 2), "aA_1if")
	b := rt.String("second", 1, 2, "aA_i")
	rt.Assume(camel(a) != camel(b) && a[0] >= 'A' && a[0] != '_' && b[0] != '_')
	d.msgs[0].fields = []fld{{a, "int32", ""}, {b, "Color", rt.Pick("label", "", "optional", "repeated", ":one")}}
	d.rpcs[0].binds = []bind{{"get", "/a/{" + a + "}", ""}, {"post", "/b/{" + a + "}", "*"}}
	compiles(d, "http", false, false)
	rt.Reach("checked")
}

// UsedWords: methods, messages and fields named like anything the generated code itself names.
func UsedWords() {
	d := plain()
	lo, n := 0, len(usedWords)
	for i := 0; n > 256; i++ {
		if !rt.Bool("more" + digits(i)) {
			n = 256
			break
		}
		lo, n = lo+256, n-256
	}
	w := usedWords[lo+rt.Choice("word", n)]
	switch rt.Choice("role", 2) {
	case 0:
		d.msgs[0].fields[0].name = w
		d.rpcs[0].binds = []bind{{"get", "/get/{" + w + "}", ""}, {"get", "/got/{b}", ""}, {"post", "/put", "*"}}
		d.rpcs = append(d.rpcs, rpc{w, "Req", "Res", []bind{{"get", "/w/{" + w + "}", ""}}})
	case 1:
		d.msgs[0].name = w
		d.rpcs[0].req = w
		d.rpcs = append(d.rpcs, rpc{"Other", "Res", w, []bind{{"get", "/w/{text}", ""}}})
	}
	complete(d, "all", true)
	rt.Reach("checked")
}

// Bindings: many bindings of one method, next to a method named like a binding of it.
func Bindings() {
	d := plain()
	n := []int{1, 2, 9, 10, 11, 12}[rt.Choice("bindings", 6)]
	d.rpcs[0].binds = nil
	for i := 0; i < n; i++ {
		b := []bind{{"get", "/{a}", ""}, {"post", "/{b}", "*"}, {"delete", "/{b}/{a}", ""}, {"custom HEAD", "/{a}", ""}, {"patch", "", "a"}, {"custom MOVE", "", "*"}, {"put", "/{b}", "a"}}[i%7]
		b.path = "/g" + digits(i) + b.path
		d.rpcs[0].binds = append(d.rpcs[0].binds, b)
	}
	o := rpc{"Get" + rt.Pick("suffix", "Zero", "One", "Two", "OneZero", "0", "_1"), "Req", "Res", nil}
	m := rt.Choice("others", 3)
	for i := 0; i < m; i++ {
		o.binds = append(o.binds, bind{"put", "/o" + digits(i) + "/{a}", ""})
	}
	d.rpcs = append(d.rpcs, o)
	if n > 10 && o.name == "GetOne" && m > 0 {
		rt.Known("label-clash")
	}
	complete(d, rt.Pick("transport", "all", "http"), false)
	rt.Reach("checked")
}
