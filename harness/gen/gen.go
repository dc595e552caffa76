// Package gen holds the harnesses for the generated project.
package gen

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"io/ioutil"
	"sort"
	"strings"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/gengokit/generator"
	"github.com/teamlint/baron/internal/zzverif/rt"
	"github.com/teamlint/baron/internal/zzverif/rt/strsref"
	"github.com/teamlint/baron/svcdef"
)

// Entries lists the harness functions.
var Entries = map[string]func(){
	"Handlers":      Handlers,
	"HandlerText":   HandlerText,
	"Decoys":        Decoys,
	"HandlerFresh":  HandlerFresh,
	"UserFiles":     UserFiles,
	"UserGoFiles":   UserGoFiles,
	"AlwaysFresh":   AlwaysFresh,
	"OrderMany":     OrderMany,
	"FileSetLong":   FileSetLong,
	"Written":       Written,
	"UserFilesLong": UserFilesLong,
	"FileSet":       FileSet,
	"FileSetWords":  FileSetWords,
	"HandlersMany":  HandlersMany,
	"OrderHandlers": OrderHandlers,
	"OrderAll":      OrderAll,
	"BaronFile":     BaronFile,
}

func camel(s string) string { return strsref.GoCamelCase(s) }

type meth struct{ name, req, res string }

func service(name string, ms ...meth) *svcdef.Svcdef {
	s := &svcdef.Service{Name: name}
	for _, m := range ms {
		s.Methods = append(s.Methods, &svcdef.ServiceMethod{
			Name:         m.name,
			RequestType:  &svcdef.FieldType{Name: m.req, StarExpr: true, Message: &svcdef.Message{Name: m.req}},
			ResponseType: &svcdef.FieldType{Name: m.res, StarExpr: true, Message: &svcdef.Message{Name: m.res}},
		})
	}
	return &svcdef.Svcdef{PkgName: "pb", Service: s}
}

func config(prev map[string]string, client bool) gengokit.Config {
	c := gengokit.Config{
		GoPackage: "example.com/x", ServicePath: "/nonexistent/svc", PBPackage: "example.com/x/pb", PBPath: "/nonexistent/pb",
		Version: "1", VersionDate: "2020", Transport: "all", GenClient: client,
		PreviousFiles: map[string]io.Reader{},
	}
	for k, v := range prev {
		c.PreviousFiles[k] = strings.NewReader(v)
	}
	return c
}

func generate(sd *svcdef.Svcdef, c gengokit.Config) map[string]string {
	fs, err := generator.GenerateGokit(sd, c)
	rt.Assert(err == nil, "generation fails")
	out := map[string]string{}
	for k, r := range fs {
		b, err := ioutil.ReadAll(r)
		rt.Assert(err == nil, "a generated file cannot be read")
		out[k] = string(b)
	}
	return out
}

// squeeze removes blanks and line breaks.
func squeeze(s string) string {
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ', '\n', '\t', '\r':
		default:
			out = append(out, s[i])
		}
	}
	return string(out)
}

type piece struct {
	text  string // squeezed
	fname string // function name with receiver, or ""
	fn    bool
}

// pieces are the squeezed top-level declarations (without doc comments) and the comments of a file.
func pieces(src string) (decls []piece, comments []string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", src, parser.ParseComments)
	rt.Assert(err == nil, "the handler file is not valid Go")
	at := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, d := range f.Decls {
		p := piece{text: squeeze(src[at(d.Pos()):at(d.End())])}
		if fd, ok := d.(*ast.FuncDecl); ok {
			p.fn = true
			p.fname = fd.Name.Name
			if fd.Recv != nil {
				p.fname = squeeze(src[at(fd.Recv.Pos()):at(fd.Recv.End())]) + p.fname
			}
		}
		decls = append(decls, p)
	}
	for _, g := range f.Comments {
		for _, c := range g.List {
			comments = append(comments, squeeze(c.Text))
		}
	}
	return
}

const handlerPath = "service/service.go"

const preamble = `package service

// imports of the user
import (
	"context"
	"strings"

	pb "example.com/x/pb"
)

`

const constructor = `// NewService is mine.
func NewService() *svcService {
	return &svcService{n: 1} // trailing
}

`

type slot struct {
	name     string
	state    int // 0 kept, 1 removed, 2 added
	req, res string
	form     int
}

func handlerText(s slot, tag, req, res, extra string) string {
	sig := ""
	switch s.form {
	case 0:
		sig = "(ctx context.Context, in *pb." + req + ") (*pb." + res + ", error)"
	case 1:
		sig = "(_ context.Context, r *pb." + req + ") (resp *pb." + res + ", err error)"
	default:
		sig = "(\n\tctx context.Context,\n\tin *pb." + req + ", // the request\n) (*pb." + res + ", error)"
	}
	return "func (s *svcService) " + s.name + sig + " {\n\t// body of " + tag + "\n\tif s.n > 0 {\n\t\treturn nil, strings.NewReader(\"" + tag + extra + "\")\n\t}\n\tpanic(`" + tag + "`)\n}"
}

// checkHandlers compares a regenerated file with the old one.
func checkHandlers(old, out string, slots []slot, defs []meth) {
	od, oc := pieces(old)
	nd, nc := pieces(out)
	removed := map[string]bool{}
	added := map[string]meth{}
	newTypes := map[string]meth{}
	for _, s := range slots {
		if s.state == 1 {
			removed["(s*svcService)"+s.name] = true
		}
	}
	for _, d := range defs {
		newTypes["(s*svcService)"+d.name] = d
	}
	for _, s := range slots {
		if s.state == 2 {
			added["(s*svcService)"+s.name] = newTypes["(s*svcService)"+s.name]
		}
	}
	// kept declarations, in order
	i := 0
	for _, p := range nd {
		if a, ok := added[p.fname]; ok && p.fn {
			want := "func(s*svcService)" + a.name + "(ctxcontext.Context,in*pb." + a.req + ")(*pb." + a.res + ",error){"
			rt.Assert(strings.HasPrefix(p.text, want), "an added handler does not have the definition's signature")
			delete(added, p.fname)
			continue
		}
		for i < len(od) && od[i].fn && removed[od[i].fname] {
			i++
		}
		rt.Assert(i < len(od), "the regenerated file declares something new or twice")
		rt.Assert(p.text == od[i].text, "a declaration of the user is changed, dropped or reordered")
		i++
	}
	for i < len(od) && od[i].fn && removed[od[i].fname] {
		i++
	}
	rt.Assert(i == len(od), "a declaration of the user is dropped")
	rt.Assert(len(added) == 0, "a handler of the definition is missing")
	// comments, in order
	j := 0
	for _, c := range oc {
		if strings.Contains(c, "gone") {
			continue // belongs to a removed handler
		}
		for j < len(nc) && nc[j] != c {
			j++
		}
		rt.Assert(j < len(nc), "a comment of the user is lost or moved")
		j++
	}
}

// Handlers: handlers kept, removed, added and retyped in any combination.
func Handlers() {
	base := []string{"Get", "Get2", "Put"}
	slots := make([]slot, 3)
	var defs []meth
	old := preamble
	mid := rt.Choice("constructorAt", 2)
	if mid == 0 {
		old += constructor
	}
	old += "type svcService struct {\n\tpb.UnimplementedSvcServer\n\tn int\n}\n\n"
	expect := old
	extras := []string{
		"func helper(x int) (y int) {\n\treturn x // h\n}\n\n",
		"// doc of v\nvar v, w = 1, \"x\"\n\n/* floating */\n\nconst (\n\ta = iota // first\n\tb\n)\n\n",
		"type Thing interface {\n\tDo(ctx context.Context) error\n}\n\n// a helper of the service\nfunc (s *svcService) helper() {}\n\n",
	}
	for i := range slots {
		t := string([]byte{byte('0' + i)})
		s := slot{name: base[i], req: "Req" + t, res: "Res" + t}
		s.state = rt.Choice("state"+t, 3)
		oldReq, oldRes := s.req, s.res
		if s.state == 0 && i == 0 {
			s.form = rt.Choice("form", 3)
			if rt.Bool("reqChanged") {
				oldReq = "OldRequest"
			}
			if rt.Bool("resChanged") {
				oldRes = "R"
			}
		}
		slots[i] = s
		if s.state != 2 {
			tag := "kept" + t
			if s.state == 1 {
				tag = "gone" + t
			}
			doc := "// " + tag + " does it.\n"
			old += doc + handlerText(s, tag, oldReq, oldRes, "") + "\n\n"
			expect += doc + handlerText(s, tag, s.req, s.res, "") + "\n\n"
		}
		old += extras[i]
		expect += extras[i]
		if s.state != 1 {
			defs = append(defs, meth{s.name, s.req, s.res})
		}
	}
	if mid == 1 {
		old += constructor
		expect += constructor
	}
	if rt.Bool("reversed") {
		for l, r := 0, len(defs)-1; l < r; l, r = l+1, r-1 {
			defs[l], defs[r] = defs[r], defs[l]
		}
	}
	sd := service("Svc", defs...)
	out := generate(sd, config(map[string]string{handlerPath: old}, false))[handlerPath]
	rt.Observe("out", out)
	checkHandlers(expect, out, slots, defs)
	again := generate(sd, config(map[string]string{handlerPath: out}, false))[handlerPath]
	rt.Assert(again == out, "regenerating with the same definition changes the handler file")
	rt.Reach("regenerated")
}

// HandlerText: one kept handler with arbitrary names and text, between other code.
func HandlerText() {
	name := camel(rt.String("first", 1, 1, "aZ") + rt.String("name", 0, rt.Param("len", 2), "aZ_1"))
	if rt.Bool("likeConstructor") {
		name = "NewService"
	}
	id := rt.String("ident", 1, 2, "aZ")
	note := rt.String("note", 0, rt.Param("note", 2), "a{\"`")
	req := "R" + rt.String("req", 0, 1, "aZ1")
	s := slot{name: name, req: req, res: "Res"}
	body := handlerText(s, "kept", "Old", "Res", id)
	want := handlerText(s, "kept", req, "Res", id)
	rest := "\n\n// note " + note + "\nfunc x" + id + "() {\n}\n\n"
	other := slot{name: "Stay" + id, state: 0}
	last := handlerText(other, "kept too", "Other", "Res", "")
	old := preamble + constructor + body + rest + last + "\n"
	expect := preamble + constructor + want + rest + last + "\n"
	defs := []meth{{name, req, "Res"}, {other.name, "Other", "Res"}}
	slots := []slot{s, other}
	if rt.Bool("gone") {
		defs = defs[:1]
		slots[1].state = 1
		expect = strings.Replace(expect, "body of kept too", "gone", 1)
	}
	rt.Assume(name != other.name)
	sd := service("Svc", defs...)
	out := generate(sd, config(map[string]string{handlerPath: old}, false))[handlerPath]
	checkHandlers(expect, out, slots, defs)
	rt.Reach("regenerated")
}

// Decoys: exported functions that resemble a handler but are none.
func Decoys() {
	name := camel(rt.String("first", 1, 1, "aZ") + rt.String("name", 0, rt.Param("len", 1), "aZ_1"))
	other := "Stay"
	rt.Assume(name != other && name != "NewService")
	sig := "(ctx context.Context, in *pb.Req) (*pb.Res, error) {\n\t// gone\n\treturn nil, nil\n}"
	pre := rt.String("recv", 1, 1, "aZ_1")
	decoy, dname := "", name
	switch rt.Choice("decoy", 10) {
	case 1:
		decoy = "func " + name + sig
	case 2:
		decoy = "func (s svcService) " + name + sig
	case 3:
		decoy = "func (s *a" + pre + "svcService) " + name + sig
	case 4:
		decoy = "func (s *svcService" + pre + ") " + name + sig
	case 5:
		decoy = "func (s *Service) " + name + sig
	case 6:
		dname = name + "X" + pre
		decoy = "func (s *svcService) " + dname + sig
	case 7:
		dname = "X" + name
		decoy = "func " + dname + "() {\n\t// gone\n}"
	case 8:
		decoy = "func (svcService) " + name + sig
	case 9:
		decoy = "func (*SvcService) " + name + sig
	}
	rt.Assume(dname != other)
	low := "// kept\nfunc (s *svcService) x" + name + "() {\n}"
	s := slot{name: name, req: "Req", res: "Res", state: 2}
	slots := []slot{s, {name: other}}
	defs := []meth{{name, "Req", "Res"}, {other, "Req", "Res"}}
	rest := handlerText(slots[1], "kept", "Req", "Res", "")
	h := ""
	if rt.Bool("present") {
		slots[0].state = 0
		h = handlerText(s, "kept too", "Req", "Res", "") + "\n\n"
	}
	expect := preamble + low + "\n\n" + h + rest + "\n"
	old := preamble
	if rt.Bool("before") {
		old += decoy + "\n\n" + low + "\n\n" + h + rest + "\n"
	} else {
		old += low + "\n\n" + h + rest + "\n\n" + decoy + "\n"
	}
	sd := service("Svc", defs...)
	out := generate(sd, config(map[string]string{handlerPath: old}, false))[handlerPath]
	checkHandlers(expect, out, slots, defs)
	rt.Reach("regenerated")
}

// HandlerFresh: without a previous file every handler is created once.
func HandlerFresh() {
	svc := camel(rt.String("first", 1, 1, "aZ") + rt.String("svc", 0, rt.Param("len", 2), "aZ_1"))
	var defs []meth
	n := rt.Choice("n", 4)
	for i := 0; i < n; i++ {
		t := string([]byte{byte('0' + i)})
		nm := "M"
		if i == 0 {
			nm += rt.String("m", 0, 1, "aZ1")
		}
		defs = append(defs, meth{nm + t, "Req" + t, "Res" + t})
	}
	sd := service(svc, defs...)
	out := generate(sd, config(nil, false))[handlerPath]
	recv := "(s*" + strings.ToLower(svc) + "Service)"
	ds, _ := pieces(out)
	k := 0
	constructors := 0
	for _, d := range ds {
		if !d.fn {
			continue
		}
		if d.fname == "NewService" {
			constructors++
			continue
		}
		rt.Assert(k < len(defs) && d.fname == recv+defs[k].name, "the created handlers are not the definition's, in order")
		rt.Assert(strings.HasPrefix(d.text, "func"+recv+defs[k].name+"(ctxcontext.Context,in*pb."+defs[k].req+")(*pb."+defs[k].res+",error){"), "a created handler does not have the definition's signature")
		k++
	}
	rt.Assert(k == len(defs), "a handler of the definition is missing")
	rt.Assert(constructors == 1, "the constructor is missing")
	again := generate(sd, config(map[string]string{handlerPath: out}, false))[handlerPath]
	rt.Assert(again == out, "regenerating with the same definition changes the handler file")
	rt.Reach("created")
}

func names(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
