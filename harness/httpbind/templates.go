package httpbind

import (
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"

	ht "github.com/teamlint/baron/gengokit/httptransport"
	"github.com/teamlint/baron/internal/zzverif/rt"
	"github.com/teamlint/baron/internal/zzverif/rt/strsref"
	"github.com/teamlint/baron/svcdef"
)

// Sections: base path and client path sections of a template.
func Sections() {
	segs := rt.Param("segs", 2)
	tmpl := ""
	base, open := "", true
	want := [][]piece{{{}}}
	n := 1 + rt.Choice("n", segs)
	for i := 0; i < n; i++ {
		t := string([]byte{byte('0' + i)})
		tmpl += "/"
		if open {
			base += "/"
		}
		sec := []piece{{}}
		lit := func(text string) {
			tmpl += text
			if open {
				base += text
			}
			sec[len(sec)-1].lit += text
		}
		parameter := func(name string) {
			var f *field
			for k := range reqFields {
				if reqFields[k].pbName == name {
					f = &reqFields[k]
				}
			}
			rt.Assume(f != nil)
			tmpl += "{" + name + "}"
			open = false
			sec = append(sec, piece{field: f.goName, goType: f.goType}, piece{})
		}
		if rt.Bool("param" + t) {
			beside := rt.Param("beside", 0) > 0 && rt.Bool("beside"+t)
			if beside {
				lit(rt.String("pre"+t, 0, rt.Param("pre", 1), "av-.:"))
			}
			if rt.Bool("special" + t) {
				parameter(rt.Pick("pick"+t, "reset", "a1", "cb", "ce", "b_c"))
			} else {
				parameter(param(rt.String("name"+t, 1, rt.Param("len", 2), nameAlpha)))
			}
			if beside {
				lit(rt.String("post"+t, 0, rt.Param("post", 1), "av-.:"))
				if rt.Bool("two" + t) {
					lit("-")
					parameter(rt.Pick("second"+t, "reset", "a1", "cb", "ce"))
				}
			}
		} else {
			lit(rt.String("lit"+t, 0, rt.Param("lit", 2), "ab-.:~"))
		}
		want = append(want, sec)
	}
	checkSections(tmpl, base, want)
}

// checkSections compares what is made of a template with its parts.
func checkSections(tmpl, base string, want [][]piece) {
	sd, err := extract(goSource("Call"), "syntax = \"proto3\";\nservice Svc {\n rpc Call (Req) returns (Res) {\n option (google.api.http) = {\nget: \""+tmpl+"\"\n};\n}\n}\n")
	rt.Assert(err == nil, "a valid definition is refused")
	b := ht.NewMethod(sd.Service.Methods[0]).Bindings[0]
	rt.Observe("base", b.BasePath)
	rt.Assert(b.PathTemplate == tmpl, "the path template is changed")
	rt.Assert(b.BasePath == base, "the base path is not the part before the first parameter")
	got := b.PathSections()
	rt.Observe("sections", got)
	rt.Assert(len(got) == len(want), "wrong number of path sections")
	for i := range want {
		e, err := parser.ParseExpr(got[i])
		rt.Assert(err == nil, "a path section is no Go expression")
		ps := joined(pieces(e))
		rt.Assert(len(ps) == len(want[i]), "a path section has other parameters than the template")
		for j, w := range want[i] {
			p := ps[j]
			if w.field == "" {
				rt.Assert(p.field == "" && p.lit == w.lit, "a literal part of a path section is changed")
				continue
			}
			rt.Assert(p.field == w.field, "a path section sends the wrong request field")
			switch w.goType {
			case "*Kind":
				rt.Assert(p.number && p.value, "an optional enum in the path is not sent by the number of its value")
			case "*int32":
				rt.Assert(p.value, "an optional field in the path is not sent by its value")
			case "Kind":
				rt.Assert(p.number, "an enum in the path is not sent by its number")
			}
		}
	}
	rt.Reach("sections")
}

// SectionsLong: templates of many parts and parameters, of every kind of field.
func SectionsLong() {
	names := []string{"an_extremely_long_field_name_which_goes_on_and_on_for_more_than_64_characters", "ce", "a", "b_c", "a1", "cb", "_d", "DB_2", "reset"}
	n, from := rt.Choice("params", 13), rt.Choice("from", len(names))
	between := rt.Choice("between", 4)
	lit := rt.String("lit", 1, 1, "av-.:~")
	tmpl, base := "/v1/", "/v1/"
	want := [][]piece{{{}}, {{lit: "v1"}}, {{}}}
	text := func(t string, i int) {
		if i == 0 {
			base += t
		}
		tmpl += t
		for k, x := range strings.Split(t, "/") {
			if k > 0 {
				want = append(want, []piece{{}})
			}
			w := want[len(want)-1]
			w[len(w)-1].lit += x
		}
	}
	text([]string{"", "a_rather_long_literal_segment_before_the_parameters_of_the_path/", lit + "/"}[rt.Choice("before", 3)], 0)
	for i := 0; i < n; i++ {
		name := names[(from+i)%len(names)]
		for _, f := range reqFields {
			if f.pbName == name {
				w := want[len(want)-1]
				want[len(want)-1] = append(w, piece{field: f.goName, goType: f.goType}, piece{})
			}
		}
		tmpl += "{" + name + "}"
		text([]string{"/", "/" + lit + "/", lit, lit + "/x"}[between], i+1)
	}
	if n == 0 {
		text(lit, 0)
	}
	checkSections(tmpl, base, want)
}

// piece is a part of what a path section evaluates to: literal text, or the
// value of a request field.
type piece struct {
	lit, field, goType string
	value, number      bool
}

// joined puts literal parts together, with one (possibly empty) around every field.
func joined(ps []piece) []piece {
	out := []piece{{}}
	for _, p := range ps {
		if p.field == "" {
			out[len(out)-1].lit += p.lit
		} else {
			out = append(out, p, piece{})
		}
	}
	return out
}

// pieces evaluates a string expression over the fields of req.
func pieces(e ast.Expr) []piece {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return pieces(x.X)
	case *ast.BinaryExpr:
		rt.Assert(x.Op == token.ADD, "a path section is no string")
		return append(pieces(x.X), pieces(x.Y)...)
	case *ast.BasicLit:
		if x.Kind == token.STRING {
			s, err := strconv.Unquote(x.Value)
			rt.Assert(err == nil, "a path section is no Go expression")
			return []piece{{lit: s}}
		}
		return nil
	case *ast.StarExpr:
		ps := pieces(x.X)
		for i := range ps {
			ps[i].value = true
		}
		return ps
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && id.Name == "req" {
			return []piece{{field: x.Sel.Name}}
		}
	case *ast.CallExpr:
		name := ""
		switch f := x.Fun.(type) {
		case *ast.Ident:
			name = f.Name
		case *ast.SelectorExpr:
			name = f.Sel.Name
			if id, ok := f.X.(*ast.Ident); ok && id.Name == "req" {
				// a getter
				return []piece{{field: strings.TrimPrefix(name, "Get"), value: true}}
			}
		}
		var ps []piece
		if name == "Sprintf" && len(x.Args) > 0 {
			format := ""
			for _, p := range pieces(x.Args[0]) {
				format += p.lit
			}
			arg := 1
			for i := strings.IndexByte(format, '%'); i >= 0 && i+1 < len(format) && arg < len(x.Args); i = strings.IndexByte(format, '%') {
				ps = append(ps, piece{lit: format[:i]})
				for _, p := range pieces(x.Args[arg]) {
					p.number = p.number || format[i+1] == 'd'
					ps = append(ps, p)
				}
				arg++
				format = format[i+2:]
			}
			return append(ps, piece{lit: format})
		}
		for _, a := range x.Args {
			ps = append(ps, pieces(a)...)
		}
		switch name {
		case "int", "int32", "int64", "Itoa", "FormatInt":
			for i := range ps {
				ps[i].number = true
			}
		}
		return ps
	}
	return nil
}

// Params: a URL matched against a template with known shape.
func Params() {
	n := 1 + rt.Choice("n", rt.Param("segs", 3))
	tmpl, url := "", ""
	keys := map[string]string{}
	for i := 0; i < n; i++ {
		t := string([]byte{byte('0' + i)})
		v := rt.String("seg"+t, 1, rt.Param("len", 2), "a/{}%Z")
		rt.Assume(strings.IndexByte(v, '/') < 0)
		url += "/" + v
		if rt.Bool("param" + t) {
			name := rt.Pick("name"+t, "a", "b", "a_b") + t
			tmpl += "/{" + name + "}"
			keys[name] = v
		} else {
			tmpl += "/lit"
		}
	}
	if rt.Bool("tmplslash") {
		tmpl += "/"
	}
	if rt.Bool("urlslash") {
		url += "/"
	}
	got, err := ht.PathParams(url, tmpl)
	rt.Assert(err == nil, "a URL of the template's shape is refused")
	rt.Observe("n", len(got))
	rt.Assert(len(got) == len(keys), "wrong number of path parameters")
	for k, v := range keys {
		g, ok := got[k]
		rt.Assert(ok && g == v, "a path parameter does not carry its URL segment")
	}
	rt.Reach("matched")
}

// ParamsLong: URLs and templates of many parts.
func ParamsLong() {
	n := 1 + rt.Choice("n", 40)
	v := rt.String("value", 1, 1, "a{}%")
	every := 1 + rt.Choice("every", 3)
	tmpl, url := "", ""
	keys := map[string]string{}
	for i := 0; i < n; i++ {
		x := v + strconv.Itoa(i) + strings.Repeat(v, i)
		url += "/" + x
		if i%every == 0 {
			tmpl += "/{p_" + strconv.Itoa(i) + "}"
			keys["p_"+strconv.Itoa(i)] = x
		} else {
			tmpl += "/lit"
		}
	}
	more := rt.Choice("more", 4)
	url += strings.Repeat("/b", more) + strings.Repeat("/", rt.Choice("slashes", 4))
	got, err := ht.PathParams(url, tmpl)
	rt.Assert((err == nil) == (more == 0), "matching does not fail exactly when the number of segments differs")
	if more > 0 {
		return
	}
	rt.Assert(len(got) == len(keys), "wrong number of path parameters")
	for k, x := range keys {
		g, ok := got[k]
		rt.Assert(ok && g == x, "a path parameter does not carry its URL segment")
	}
	rt.Reach("matched")
}

// ParamsShape: any URL and template; never panics, an error iff the number of segments differs.
func ParamsShape() {
	url := rt.String("url", 0, rt.Param("url", 4), "/a")
	tmpl := rt.String("tmpl", 0, rt.Param("tmpl", 4), "/a{}")
	for _, p := range strings.Split(tmpl, "/") {
		// a segment is a literal or one whole parameter
		if strings.ContainsAny(p, "{}") {
			rt.Assume(len(p) > 2 && p[0] == '{' && p[len(p)-1] == '}' && strings.Count(p, "{") == 1 && strings.Count(p, "}") == 1)
		}
	}
	count := func(s string) int {
		for len(s) > 0 && s[len(s)-1] == '/' {
			s = s[:len(s)-1]
		}
		k := 1
		for i := 0; i < len(s); i++ {
			if s[i] == '/' {
				k++
			}
		}
		return k
	}
	_, err := ht.PathParams(url, tmpl)
	rt.Observe("err", err != nil)
	rt.Assert((err != nil) == (count(url) != count(tmpl)), "matching does not fail exactly when the number of segments differs")
	rt.Reach("matched")
}

var digits = []string{"Zero", "One", "Two", "Three", "Four", "Five", "Six", "Seven", "Eight", "Nine"}

// Labels: the spelling of any index.
func Labels() {
	s, n := rt.Dec("index", 1, rt.Param("digits", 4))
	want := ""
	for i := 0; i < len(s); i++ {
		for d := 0; d < 10; d++ {
			if s[i] == byte('0'+d) {
				want += digits[d]
			}
		}
	}
	got := ht.EnglishNumber(int(n))
	rt.Observe("label", got)
	rt.Assert(got == want, "an index is not spelled by its decimal digits")
	rt.Reach("labelled")
}

// NewLabels: the labels of a method's bindings.
func NewLabels() {
	name := strsref.GoCamelCase(rt.String("method", 1, rt.Param("len", 2), "aZ_9"))
	k := rt.Param("bindings", 12)
	m := &svcdef.ServiceMethod{Name: name, RequestType: &svcdef.FieldType{Name: "Req"}, ResponseType: &svcdef.FieldType{Name: "Res"}}
	for i := 0; i < k; i++ {
		m.Bindings = append(m.Bindings, &svcdef.HTTPBinding{Verb: "get", Path: "/"})
	}
	i, j := rt.Int("i", 0, k-1), rt.Int("j", 0, k-1)
	rt.Assume(i < j)
	meth := ht.NewMethod(m)
	rt.Assert(len(meth.Bindings) == k, "bindings are lost")
	rt.Assert(meth.Bindings[i].Label != meth.Bindings[j].Label, "two bindings of a method share a label")
	rt.Assert(meth.Bindings[i].Parent == meth && meth.Bindings[j].Parent == meth, "a binding does not belong to its method")
	rt.Assert(strings.HasPrefix(meth.Bindings[i].Label, name), "a label does not start with the method name")
	rt.Observe("label", meth.Bindings[i].Label)
	rt.Reach("labelled")
}
