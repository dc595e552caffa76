package svcparse

import (
	"strings"

	"github.com/teamlint/baron/internal/zzverif/rt"
	sp "github.com/teamlint/baron/svcdef/svcparse"
)

var counts = []int{65, 80, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300}

// count is any number up to 64 and some greater ones.
func count() int {
	n := rt.Choice("count", 65+len(counts))
	if n >= 65 {
		return counts[n-65]
	}
	return n
}

func times(s string, n int) string { return strings.Repeat(s, n) }

func number(i int) string {
	if i < 10 {
		return string([]byte{byte('0' + i)})
	}
	return number(i/10) + number(i%10)
}

// ParseLong: any part of a definition may be long or repeated.
func ParseLong() {
	what, n := rt.Choice("what", 30), count()
	c := rt.String("char", 1, 1, "aZ9_")
	v := rt.String("value", 1, 1, "a/*: {}'")
	m := wantMethod{"A", "Q", "R", nil}
	svc, pre, post, q1, q2, gap := "S", "", "", "", "", " "
	path, body, extra, last, kind, inner := "/a", "*", "", "", "", ""
	before, after := "", ""
	var methods, more []wantMethod
	binding := func(i int) string {
		p := "/x/" + number(i)
		m.bindings = append(m.bindings, wantBinding{[][2]string{{"put", p}}, nil})
		return "put: \"" + p + "\""
	}
	rpc := func(i int, name string) (string, wantMethod) {
		t := number(i)
		return "rpc " + name + t + " (Q" + t + ") returns (R" + t + ") {\noption (google.api.http) = {\nget: \"/" + t + "\"\n};\n}\n",
			wantMethod{name + t, "Q" + t, "R" + t, []wantBinding{{[][2]string{{"get", "/" + t}}, nil}}}
	}
	switch what {
	case 0:
		svc += times(c, n)
	case 1:
		m.name += times(c, n)
	case 2:
		m.req += times(c, n)
	case 3:
		m.res += times(c, n)
	case 4:
		q1 = times("p"+c+".", n)
	case 5:
		q2 = "stream ." + times("p"+c+".", n)
	case 6:
		path += times(v, n)
	case 7:
		body = times(v, n)
	case 8:
		kind = "K" + times(v, n)
	case 9:
		for i := 0; i < n; i++ {
			extra += "additional_bindings {\n" + binding(i) + "\n}\n"
		}
	case 10:
		for i := 0; i < n; i++ {
			if i > 0 {
				extra += ", "
			}
			extra += "{" + binding(i) + "}"
		}
		extra = "additional_bindings: [" + extra + "]\n"
	case 11:
		for i := 0; i < n; i++ {
			t, w := rpc(i, "Pre")
			pre += t
			methods = append(methods, w)
		}
	case 12:
		for i := 0; i < n; i++ {
			t, w := rpc(i, "Post")
			post += t
			more = append(more, w)
		}
	case 13:
		pre = times("rpc P"+c+" (Q) returns (R);\n", n)
	case 14:
		post = times("rpc P"+c+" (Q) returns (R) {\n}\n", n)
	case 15:
		gap = times(rt.String("blank", 1, 1, " \n\t\r\f\v"), n+1)
	case 16:
		gap = times("/*"+v+"*/"+rt.String("sep", 0, 1, " \n"), n+1)
	case 17:
		gap = "//" + times(v, n) + "\n"
	case 18:
		gap = "/* " + times(v, n) + "\n*/"
	case 19:
		gap = times("// "+v+"\n", n+1)
	case 20:
		inner = times("option deprecated = true;\n", n)
	case 21:
		inner = "option (x) = " + times("{ a: ", n) + "{}" + times("; }", n) + ";\n"
	case 22:
		inner, last = times(";", n), times(" ;", n)
	case 23:
		last = times("option (y) = { b: \""+v+"\" };\n", n)
	case 24:
		before = times("message M { int32 service = 1; }\n", n)
	case 25:
		before = times("message M {\n", n) + "string a = 1;\n" + times("}\n", n)
	case 26:
		before = "// " + times(v, n) + "\noption go_package = \"" + times("a/", n) + "\";\n"
	case 27:
		after = times("message M { int32 service = 1; }\n", n) + times("{", n) + times("}", n)
	case 28:
		path += "\"" // replaced below
	case 29:
		pre = times("option deprecated = true;;\n", n)
	}
	written := path
	if what == 28 {
		path = "/a" + times("\"", n) + times("\\", n)
		written = "/a" + times("\\\"", n) + times("\\\\", n)
	}
	f := [][2]string{{"post", path}, {"body", body}}
	txt := "post:" + gap + "\"" + written + "\"\n" + gap + "body: \"" + body + "\"\n"
	w := wantBinding{f, nil}
	if kind != "" {
		w = wantBinding{[][2]string{{"body", body}}, [][2]string{{"kind", kind}, {"path", path}}}
		txt = "custom {\nkind: \"" + kind + "\"\npath: \"" + written + "\"\n}\nbody: \"" + body + "\"\n"
	}
	m.bindings = append(m.bindings, w)
	methods = append(append(methods, m), more...)
	text := "syntax = \"proto3\";\n" + before + "service " + svc + gap + "{" + gap + "\n" + pre +
		"rpc" + gap + " " + m.name + gap + "(" + q1 + m.req + gap + ") returns (" + q2 + m.res + ")" + gap + "{\n" + inner +
		"option (google.api.http) =" + gap + "{\n" + txt + extra + "}" + gap + ";\n" + last + "}\n" + post + "}\n" + after
	got, err := parse(text)
	rt.Assert(err == nil, "a valid definition is refused")
	checkService(got, svc, methods)
}

// LexLong: any token may be long or repeated.
func LexLong() {
	n := count()
	c := rt.String("char", 1, 1, "a9_*/ \n\t\r\f\v\"'")
	b := rt.String("blank", 1, 1, " \t\n\r\f\v")
	text := ""
	switch rt.Choice("what", 12) {
	case 0:
		text = times(b, n)
	case 1:
		text = "/*" + times(c, n) + "*/"
	case 2:
		text = "//" + times(c, n) + "\n"
	case 3:
		text = "\"" + times(c, n) + "\""
	case 4:
		text = times(c, n)
	case 5:
		text = "/*x*/" + times(b, n) + "/*y*/ //z\n"
	case 6:
		text = times("//"+c+"\n", n)
	case 7:
		text = times("/**/"+b, n) + "a"
	case 8:
		text = times("{", n) + c + times("}", n)
	case 9:
		text = "'" + times("\\"+c, n) + "'" + b
	case 10:
		text = "/*" + times("*", n) + "/" + c
	case 11:
		text = times("\n", n) + c + b + "rpc"
	}
	checkLex("service S{"+text+" a }", true)
}

// RobustLong: anything may come over and over, in the middle of anything.
func RobustLong() {
	cut := []int{0, 4, 16, 34, 77, 90, 120, 140, 170, len(sample)}[rt.Choice("cut", 10)]
	c := rt.String("char", 1, 1, robustAlpha)
	piece := []string{"", "rpc ", "option ", "/*", "//", "\"\\", "additional_bindings {", "custom {", "get: \"/a\"", "service S{", "[{", "returns ("}[rt.Choice("piece", 12)]
	text := sample[:cut] + times(piece+c, []int{1, 2, 9, 65, 257}[rt.Choice("count", 5)])
	if rt.Bool("rest") {
		text += sample[cut:]
	}
	drive(text)
}

var sampleMethods = []wantMethod{{"A", "Q", "R", []wantBinding{
	{[][2]string{{"put", "/c"}, {"body", "*"}}, nil},
	{[][2]string{{"get", "/a/{b}"}}, [][2]string{{"kind", "X\"\\"}, {"path", "/p"}}}}}}

// IsolationMany: long or many earlier inputs, valid ones too, and lexers used
// alternately.
func IsolationMany() {
	n := count()
	times := func(s string) string { return strings.Repeat(s, n) }
	reps := 1
	junk := ""
	switch rt.Choice("junk", 9) {
	case 0:
		junk = sample
		reps = n
	case 1:
		junk = []string{"service S {", "service S { rpc A(Q) returns (R) {", "\"", "/*", "service S { }}}", ""}[rt.Choice("piece", 6)]
		reps = n
	case 2:
		junk = "service S {" + times("{") + rt.String("t", 0, 1, "{}\"/*; \\a")
	case 3:
		junk = "service S {" + times("}") + rt.String("t", 0, 1, "{}\"/*; \\a")
	case 4:
		junk = times("service S {\n") + rt.String("t", 0, 1, "{}\"/*; \\a")
	case 5:
		junk = "service S { //" + times(rt.String("t", 1, 1, "{}\"/*; \\a"))
	case 6:
		junk = "service S { /*" + times(rt.String("t", 1, 1, "{}\"/; \\a"))
	case 7:
		junk = "service S { \"" + times(rt.String("t", 1, 1, "{}/*; \\a"))
	case 8:
		junk = times("\n") + "service S { a }" + times("b\n")
	}
	for i := 0; i < reps; i++ {
		parse(junk)
	}
	if rt.Bool("alternate") {
		// a second lexer is somewhere inside its own input
		other := sp.NewSvcLexer(strings.NewReader("service X { rpc A(Q) returns (R) { option (google.api.http) = { get: \"/x\" }; }\n" + times("// c\n") + "}"))
		lex := sp.NewSvcLexer(strings.NewReader(sample))
		want := sampleTokens()
		for i := 0; i < len(want); i++ {
			if i%3 == 1 {
				other.GetToken()
			}
			k, t := lex.GetToken()
			rt.Assert(k == want[i].kind && t == want[i].text, "a token differs while other input is scanned")
		}
	}
	svc, err := parse(sample)
	rt.Assert(err == nil, "a valid definition is rejected after other input was scanned")
	checkService(svc, "S", sampleMethods)
	rt.Reach("compared")
}
