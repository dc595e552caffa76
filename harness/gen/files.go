package gen

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/teamlint/baron/gengokit/generator"
	"github.com/teamlint/baron/internal/zzverif/rt"
	"github.com/teamlint/baron/svcdef"
)

var userPaths = []string{
	"server/endpoints.go", "server/interrupt.go", "server/wrapper.go",
	"service/wrapper.go", "cmd/svc/main.go", "cmd/svc-client/main.go",
}

func svcMethods() []meth { return []meth{{"Get", "Req", "Res"}, {"Put", "Req", "Res"}} }

// UserFiles: an existing user file with any contents is returned as it is.
func UserFiles() {
	sd := service("Svc", svcMethods()...)
	fresh := generate(sd, config(nil, true))
	p := userPaths[rt.Choice("file", len(userPaths))]
	text := rt.String("text", 0, rt.Param("len", 3), "a \n}(\"1")
	out := generate(sd, config(map[string]string{p: text}, true))
	got, ok := out[p]
	rt.Assert(ok, "an existing user file is not among the results")
	rt.Observe("got", got)
	rt.Assert(squeeze(got) == squeeze(text), "an existing user file is overwritten")
	for _, n := range names(fresh) {
		rt.Assert(n == p || out[n] == fresh[n], "an existing user file changes another file")
	}
	rt.Assert(len(out) == len(fresh), "an existing user file changes the file set")
	rt.Reach("kept")
}

// UserGoFiles: existing user files that are Go programs.
func UserGoFiles() {
	sd := service("Svc", svcMethods()...)
	id := rt.String("id", 1, rt.Param("len", 2), "aZ")
	note := rt.String("note", 0, 2, "a{\"")
	mk := func(i int) string {
		t := string([]byte{byte('0' + i)})
		return "// Package x is mine.\npackage x\n\nimport \"fmt\"\n\n// F" + t + " " + note + "x\nfunc F" + t + id + "() {\n\tfmt.Println(\"" + id + "\") // " + note + "y\n}\n"
	}
	prev := map[string]string{}
	k := rt.Choice("file", len(userPaths)+1)
	for i, p := range userPaths {
		if k == i || k == len(userPaths) {
			prev[p] = mk(i)
		}
	}
	out := generate(sd, config(prev, true))
	for p, text := range prev {
		rt.Assert(squeeze(out[p]) == squeeze(text), "an existing user file is overwritten")
	}
	rt.Reach("kept")
}

// AlwaysFresh: what must be regenerated whatever was there before.
func AlwaysFresh() {
	svc := camel(rt.String("svc", 1, 1, "aZ"))
	sd := service(svc, svcMethods()...)
	low := strings.ToLower(svc)
	fresh := generate(sd, config(nil, true))
	text := rt.String("text", 0, rt.Param("len", 2), "a \n}")
	prev := map[string]string{"server/server.go": text, "cmd/" + low + "-client/main.go": "package main\n"}
	client := rt.Bool("client")
	out := generate(sd, config(prev, client))
	rt.Assert(out["server/server.go"] == fresh["server/server.go"], "the server file is not regenerated")
	_, has := out["cmd/"+low+"-client/main.go"]
	rt.Assert(has == client, "the client main is not generated exactly when requested")
	for n, t := range fresh {
		rt.Assert(len(t) > 0, "a created file is empty")
		rt.Assert(n != "server/server.go" || strings.Contains(t, svc), "the server file does not follow the definition")
	}
	rt.Reach("fresh")
}

// FileSet: the file set for every service name.
func FileSet() {
	fileSet(camel(rt.String("first", 1, 1, "aNZ")+rt.String("svc", 0, rt.Param("len", 3), "aNZ_1")), 2)
}

// FileSetWords: the file set for service names made of the words the generator knows.
func FileSetWords() {
	svc := rt.Word("word", "gengokit/generator,gengokit/service,gengokit,cmd/baron,pkg")
	switch rt.Choice("form", 4) {
	case 1:
		svc = "Ab" + svc
	case 2:
		svc += "Ab"
	case 3:
		svc = strings.ToUpper(svc[:1]) + strings.ToLower(svc[1:])
	}
	fileSet(camel(svc), 2)
}

func fileSet(svc string, methods int) {
	var ms []meth
	for i := 0; i < methods; i++ {
		ms = append(ms, meth{"M" + number(i), "Req", "Res"})
	}
	sd := service(svc, ms...)
	client := rt.Bool("client")
	out := generate(sd, config(nil, client))
	low := strings.ToLower(svc)
	want := map[string]bool{
		"cmd/" + low + "/main.go": true, "server/endpoints.go": true, "server/interrupt.go": true, "server/server.go": true,
		"server/wrapper.go": true, "service/service.go": true, "service/wrapper.go": true,
	}
	if client {
		want["cmd/"+low+"-client/main.go"] = true
	}
	rt.Observe("files", names(out))
	rt.Assert(len(out) == len(want), "not exactly the expected files are generated")
	for n := range out {
		rt.Assert(want[n], "an unexpected file is generated: "+n)
	}
	// the same paths are used to look up previous files
	keep := "package x\n\nvar kept = 1\n"
	p := rt.Pick("lookup", "cmd/"+low+"/main.go", "server/endpoints.go", "server/interrupt.go", "server/wrapper.go", "service/wrapper.go")
	out2 := generate(sd, config(map[string]string{p: keep}, client))
	rt.Assert(out2[p] == keep, "a previous file is not looked up under its path")
	rt.Reach("listed")
}

// OrderHandlers: added handlers come in definition order whatever the map order.
func OrderHandlers() {
	defs := []meth{{"Zeta", "Req", "Res"}, {"Alpha", "Req", "Res"}, {"Mid", "Req", "Res"}, {"Beta", "Req", "Res"}}
	old := preamble + constructor
	var missing []string
	for i, d := range defs {
		if rt.Bool("has" + string([]byte{byte('0' + i)})) {
			old += handlerText(slot{name: d.name}, "kept", d.req, d.res, "") + "\n\n"
		} else {
			missing = append(missing, d.name)
		}
	}
	sd := service("Svc", defs...)
	rt.MapOrder(true)
	out := generate1(sd, old)
	rt.MapOrder(false)
	pos := -1
	for _, m := range missing {
		i := strings.Index(out, ") "+m+"(")
		rt.Assert(i >= 0, "a handler of the definition is missing")
		rt.Assert(i > pos, "added handlers are not in definition order")
		pos = i
	}
	rt.Elsewhere(rt.ScratchDir())
	rt.Assert(out == generate1(sd, old), "the handler file depends on the order of a map")
	rt.Reach("ordered")
}

func generate1(sd *svcdef.Svcdef, old string) string {
	return generate(sd, config(map[string]string{handlerPath: old}, false))[handlerPath]
}

// OrderAll: the whole project in different map orders, and after other generations.
func OrderAll() {
	defs := []meth{{"Zeta", "Req", "Res"}, {"Alpha", "Req", "Res"}}
	sd := service("Svc", defs...)
	want := generate(sd, config(nil, true))
	if rt.Bool("history") {
		generate(service("Other", meth{"X", "A", "B"}), config(nil, rt.Bool("otherClient")))
	}
	rt.Elsewhere(rt.ScratchDir())
	rt.MapOrder(true)
	got := generate(sd, config(nil, true))
	rt.MapOrder(false)
	rt.Assert(len(got) == len(want), "the file set depends on the order of a map")
	for _, n := range names(want) {
		rt.Assert(got[n] == want[n], "a generated file depends on the order of a map or on earlier runs: "+n)
	}
	rt.Reach("ordered")
}

// BaronFile: the transport file depends on nothing but the definition.
func BaronFile() {
	dir := rt.ScratchDir()
	p := filepath.Join(dir, "svc.pb.baron.go")
	sd := full()
	if rt.Bool("previous") {
		ioutil.WriteFile(p, []byte(rt.String("text", 0, 2, "a\n")), 0644)
	}
	c := config(nil, false)
	rt.MapOrder(true)
	rt.Assert(generator.GenerateBaronFile(sd, c, p) == nil, "generation fails")
	rt.MapOrder(false)
	a, err := ioutil.ReadFile(p)
	rt.Assert(err == nil, "the transport file is not written")
	q := filepath.Join(dir, "other", "svc.pb.baron.go")
	rt.Elsewhere(rt.ScratchDir())
	rt.Assert(generator.GenerateBaronFile(full(), c, q) == nil, "generation fails")
	b, err := ioutil.ReadFile(q)
	rt.Assert(err == nil, "the transport file is not written")
	rt.Assert(string(a) == string(b), "the transport file depends on the order of a map or on a previous file")
	es, _ := ioutil.ReadDir(dir)
	rt.Assert(len(es) == 2, "generating the transport file writes another file")
	rt.Reach("written")
}

var _ = os.Remove

// full is a definition with bindings of every kind.
func full() *svcdef.Svcdef {
	sd := service("Svc", meth{"Get", "Req", "Res"}, meth{"Put", "Req", "Res"}, meth{"None", "Req", "Res"})
	f := func(name, pb, typ string, star, arr bool) *svcdef.Field {
		return &svcdef.Field{Name: name, PBFieldName: pb, Type: &svcdef.FieldType{Name: typ, StarExpr: star, ArrayType: arr}}
	}
	en := &svcdef.Enum{Name: "Kind"}
	e := f("E", "e", "Kind", false, false)
	e.Type.Enum = en
	o := f("Choice", "", "isReq_Choice", false, false)
	for _, n := range []string{"X", "Y"} {
		a := f(n, strings.ToLower(n), "string", false, false)
		a.Type.Message = &svcdef.Message{Name: "Req_" + n}
		o.Type.Oneof = append(o.Type.Oneof, a)
	}
	fields := []*svcdef.Field{f("A", "a", "int64", false, false), f("B", "b", "string", false, true), f("C", "c", "bool", true, false), e, o}
	for _, m := range sd.Service.Methods[:2] {
		m.RequestType.Message.Fields = fields
		for i, verb := range []string{"post", "get"} {
			b := &svcdef.HTTPBinding{Verb: verb, Path: "/" + m.Name + "/{a}/x"}
			for _, fl := range fields {
				loc := "query"
				if fl.Name == "A" {
					loc = "path"
				} else if i == 0 && fl.Name == "B" {
					loc = "body"
				}
				b.Params = append(b.Params, &svcdef.HTTPParameter{Field: fl, Location: loc})
			}
			m.Bindings = append(m.Bindings, b)
		}
	}
	return sd
}
