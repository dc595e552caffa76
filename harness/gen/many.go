package gen

import (
	"io/ioutil"
	"path/filepath"
	"strings"

	"github.com/teamlint/baron/gengokit/generator"
	"github.com/teamlint/baron/internal/zzverif/rt"
)

func number(i int) string {
	if i < 10 {
		return string([]byte{byte('0' + i)})
	}
	return number(i/10) + number(i%10)
}

// count is any number up to a bound, and some greater ones.
func count(bound int, more ...int) int {
	n := rt.Choice("count", bound+1+len(more))
	if n > bound {
		return more[n-bound-1]
	}
	return n
}

// HandlersMany: long files, many handlers of each fate, long and odd names.
func HandlersMany() {
	what := rt.Choice("what", 13)
	var slots []slot
	var defs []meth
	body, expect := "", ""
	put := func(s string) { body += s; expect += s }
	// a handler with its old and its new types
	handler := func(s slot, oldReq, oldRes string) {
		slots = append(slots, s)
		tag := "kept " + s.name
		if s.state == 1 {
			tag = "gone " + s.name
		}
		doc := "// " + tag + " does it.\n"
		if s.state != 2 {
			body += doc + handlerText(s, tag, oldReq, oldRes, "") + "\n\n"
			expect += doc + handlerText(s, tag, s.req, s.res, "") + "\n\n"
		}
		if s.state != 1 {
			defs = append(defs, meth{s.name, s.req, s.res})
		}
	}
	svc := "Svc"
	n := 0
	if what < 10 {
		n = count(rt.Param("count", 12), 16, 17, 20, 24, 31, 33, 40, 65)
	}
	times := func(s string) string { return strings.Repeat(s, n) }
	edge := rt.Bool("edge")
	first := slot{name: "First", req: "Req", res: "Res"}
	if edge {
		first.state = 2
	}
	last := slot{name: "Last", req: "Req", res: "Res"}
	handler(first, "Req", "Res")
	switch what {
	case 0, 1, 2:
		state := []int{0, 2, 1}[what]
		for i := 0; i < n; i++ {
			t := number(i)
			handler(slot{name: "M" + t, req: "Q" + t, res: "S" + t, state: state, form: i % 3}, "Q", "S"+t)
		}
	case 3:
		for i := 0; i < n; i++ {
			t := number(i)
			put([]string{"var v" + t + " = " + t + "\n\n", "// about t" + t + "\ntype t" + t + " struct{}\n\n", "func f" + t + "() {\n\t// inside " + t + "\n}\n\n", "func (t" + t + ") Exported" + "" + "x() {\n\t// gone\n}\n\n", "// loose " + t + "\n\n"}[i%3])
		}
	case 4:
		m := "M" + times(rt.String("char", 1, 1, "aZ_9"))
		handler(slot{name: m, req: "Req", res: "Res"}, "Old", "Res")
		handler(slot{name: m + "a", req: "Req", res: "Res", state: 1}, "Req", "Res")
		handler(slot{name: m + "b", req: "Req", res: "Res", state: 2}, "", "")
	case 5:
		svc = "S" + times(rt.String("char", 1, 1, "aZ_9"))
		for _, r := range []string{"xsvc", "svcx", "Svc", "vc"} {
			body += "// gone\nfunc (s *" + r + "Service) First(ctx context.Context, in *pb.Req) (*pb.Res, error) {\n\t// gone\n\treturn nil, nil\n}\n\n"
		}
		put("func (s *xsvcService) first() {\n}\n\n")
	case 6:
		c := rt.String("char", 1, 1, "aZ_9")
		handler(slot{name: "M", req: "Q" + times(c), res: "S" + times(c)}, "Old"+times(c), "Other")
	case 7:
		put("func long(x int) {\n" + times("\t// a\n\tif x > 1 {\n\t\tx++ // b\n\t}\n") + "}\n\n")
		s := slot{name: "Mid", req: "Req", res: "Res"}
		slots = append(slots, s)
		defs = append(defs, meth{"Mid", "Req", "Res"})
		put("// Mid\n" + handlerText(s, "kept", "Req", "Res", times("x")) + times("\n// after") + "\n\n")
	case 8:
		put("/*\n" + times(" floating\n") + "*/\n\n" + times("// one\n\n") + "var list = []int{\n" + times("\t1, // item\n") + "}\n\n")
	case 9:
		put("func deep() {\n" + times("\tfor {\n") + "\t// innermost\n" + times("\t}\n") + "}\n\nconst s = `" + times("line\n") + "`\n\n")
	case 10:
		// names that differ in the case of their letters only
		p := rt.String("case", 3, 3, "aA")
		q := rt.String("other", 3, 3, "aA")
		rt.Assume(p != q)
		handler(slot{name: "M" + p, req: "Req", res: "Res"}, "Req", "Old")
		handler(slot{name: "M" + q, req: "Reqq", res: "Res", state: rt.Choice("state", 3)}, "Old", "Res")
	case 11:
		// functions that are not exported, however their names begin
		f := rt.Pick("unexported", "_", "_X", "_x", "é", "ж", "x_Y", "zZ", "世", "init", "ß", "ªa")
		put("func " + f + "() {\n\t// body\n}\n\n")
		if f != "init" {
			put("func (s *svcService) " + f + "() {\n}\n\n")
			put("func (x other) " + f + "() {\n}\n\n")
		}
		g := rt.Pick("exported", "É", "Ж", "Xé", "Z_")
		body += "// gone\nfunc " + g + "() {\n\t// gone\n}\n\n// gone\nfunc (s *svcService) " + g + "() {\n\t// gone\n}\n\n"
	case 12:
		// any way to write the parameters and the results
		ps := []string{"(context.Context, *pb.%Q)", "(ctx context.Context, _ *pb.%Q)", "(\n\tctx context.Context,\n\tin *pb.%Q)", "(ctx context.Context, in *alias.%Q)", "(ctx context.Context, in *pb.%Q,\n)"}
		rs := []string{"(*pb.%S, error)", "(res *pb.%S, err error)", "(_ *pb.%S, _ error)", "(\n\t*pb.%S,\n\terror,\n)", "(*alias.%S, error)"}
		sig := ps[rt.Choice("params", len(ps))] + " " + rs[rt.Choice("results", len(rs))]
		recv := rt.Pick("recv", "s", "_", "this", "")
		text := "func (" + recv + " *svcService) Odd" + sig + " {\n\treturn nil, nil // odd\n}\n\n"
		q, s := "Req", "Res"
		if rt.Bool("oldReq") {
			q = "Old"
		}
		if rt.Bool("oldRes") {
			s = "Oldest"
		}
		body += strings.Replace(strings.Replace(text, "%Q", q, 1), "%S", s, 1)
		expect += strings.Replace(strings.Replace(text, "%Q", "Req", 1), "%S", "Res", 1)
		defs = append(defs, meth{"Odd", "Req", "Res"})
	}
	handler(last, "Req", "Older")
	pre := preamble + "type svcService struct {\n\tn int\n}\n\n"
	if !edge {
		pre += constructor
	} else {
		put(constructor)
	}
	old, expect := pre+body, pre+expect
	low := strings.ToLower(svc) + "Service"
	if what == 5 {
		old = strings.Replace(old, "*svcService", "*"+low, -1)
		expect = strings.Replace(expect, "*svcService", "*"+low, -1)
		rt.Assume(low != "svcService" && low != "vcService" && low != "xsvcService" && low != "svcxService")
	}
	sd := service(svc, defs...)
	out := generate(sd, config(map[string]string{handlerPath: old}, false))[handlerPath]
	rt.Observe("out", out)
	if what == 5 {
		checkHandlers(strings.Replace(expect, "*"+low, "*svcService", -1), strings.Replace(out, "*"+low, "*svcService", -1), slots, defs)
	} else {
		checkHandlers(expect, out, slots, defs)
	}
	rt.Reach("regenerated")
}

// FileSetLong: the file set for long service names and many methods.
func FileSetLong() {
	n := count(2, 32, 65, 128, 200)
	svc := "S"
	if rt.Bool("methods") {
		fileSet(svc, n)
		return
	}
	c := rt.String("char", 1, 1, "aNZ_9")
	switch rt.Choice("form", 3) {
	case 0:
		svc += strings.Repeat(c, n)
	case 1:
		svc += strings.Repeat("Ab"+c, n/3)
	case 2:
		svc += strings.Repeat("Name"+c, n/5)
	}
	fileSet(camel(svc), 2)
}

// Written: what is written to a file is all that is in it.
func Written() {
	dir := rt.ScratchDir()
	n := count(9, 100, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 100000)
	text := strings.Repeat(rt.String("char", 1, 1, "aZ\n\x00\x80\xff"), n)
	sub := []string{"", "a/", "a/b/c/d/e/f/", strings.Repeat("long", 50) + "/", "with blank/", ".hidden/"}[rt.Choice("dir", 6)]
	name := []string{"x.go", "x", "_x.pb.go", strings.Repeat("n", 200) + ".go"}[rt.Choice("name", 4)]
	p := filepath.Join(dir, sub, name)
	old := []int{-1, 0, 1, 5000, 70000, 200000}[rt.Choice("old", 6)]
	if old >= 0 {
		rt.Assert(generator.WriteGenFile(strings.NewReader(strings.Repeat("o", old)), p) == nil, "a file cannot be written")
	}
	rt.Assert(generator.WriteGenFile(strings.NewReader(text), dir+"/"+sub+name) == nil, "a file cannot be written")
	b, err := ioutil.ReadFile(p)
	rt.Assert(err == nil && string(b) == text, "a written file is not what was to be written")
	rt.Reach("written")
}

// UserFilesLong: long user files are kept whole.
func UserFilesLong() {
	sd := service("Svc", svcMethods()...)
	n := count(9, 16, 17, 32, 33, 64, 65, 100, 300, 1000)
	p := userPaths[rt.Choice("file", len(userPaths))]
	c := rt.String("char", 1, 1, "aZ_")
	times := func(s string) string { return strings.Repeat(s, n) }
	text := "package mine\n\n"
	switch rt.Choice("what", 8) {
	case 0:
		text += times("// " + c + "\n")
	case 1:
		for i := 0; i < n; i++ {
			text += "func f" + number(i) + "() {\n\tpanic(\"" + c + "\")\n}\n\n"
		}
	case 2:
		text += "var a" + times(c) + " = 1\n"
	case 3:
		text += "var list = []string{\n" + times("\t\""+c+"\", // it\n") + "}\n"
	case 4:
		text += times("{ not go " + c + "\n")
	case 5:
		text = times(c)
	case 6:
		text += "const s = `" + times(c+"\n") + "`\n"
	case 7:
		text += "import (\n"
		for i := 0; i < n; i++ {
			text += "\t_ \"example.com/p" + number(1000+i) + "\"\n"
		}
		text += ")\n"
	}
	out := generate(sd, config(map[string]string{p: text}, true))
	rt.Assert(squeeze(out[p]) == squeeze(text), "an existing user file is overwritten")
	rt.Reach("kept")
}

// OrderMany: many added handlers come in definition order, whatever the map order.
func OrderMany() {
	n := count(12, 16, 17, 32, 33, 65)
	kept := rt.Choice("kept", 3)
	var defs []meth
	for i := 0; i < n; i++ {
		defs = append(defs, meth{"M" + number((i*37+11)%101), "Req", "Res"})
	}
	old := preamble + constructor
	var missing []string
	for i, d := range defs {
		if kept > 0 && i%(kept+1) == 0 {
			old += handlerText(slot{name: d.name}, "kept", d.req, d.res, "") + "\n\n"
		} else {
			missing = append(missing, d.name)
		}
	}
	sd := service("Svc", defs...)
	rt.MapOrder(true)
	out := generate1(sd, old)
	rt.MapOrder(false)
	pos := -1
	for _, m := range missing {
		i := strings.Index(out, ") "+m+"(")
		rt.Assert(i >= 0, "a handler of the definition is missing")
		rt.Assert(i > pos, "added handlers are not in definition order")
		pos = i
	}
	rt.Elsewhere(rt.ScratchDir())
	rt.Assert(out == generate1(sd, old), "the handler file depends on the order of a map")
	rt.Reach("ordered")
}
