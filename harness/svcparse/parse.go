package svcparse

import (
	"strings"

	"github.com/teamlint/baron/internal/zzverif/rt"
	sp "github.com/teamlint/baron/svcdef/svcparse"
)

type wantBinding struct {
	fields [][2]string // kind, value
	custom [][2]string
}

type wantMethod struct {
	name, req, res string
	bindings       []wantBinding
}

func parse(text string) (*sp.Service, error) {
	return sp.ParseService(sp.NewSvcLexer(strings.NewReader(text)))
}

func sameFields(got []*sp.Field, want [][2]string) bool {
	if len(got) != len(want) {
		return false
	}
	for i, f := range got {
		if f.Kind != want[i][0] || f.Name != want[i][0] || f.Value != want[i][1] {
			return false
		}
	}
	return true
}

func checkService(svc *sp.Service, name string, want []wantMethod) {
	rt.Assert(svc.Name == name, "the service name is not the declared one")
	rt.Assert(len(svc.Methods) == len(want), "wrong number of methods with HTTP options")
	for i, m := range svc.Methods {
		w := want[i]
		rt.Assert(m.Name == w.name, "wrong rpc name")
		rt.Assert(m.RequestType == w.req, "wrong request type")
		rt.Assert(m.ResponseType == w.res, "wrong response type")
		rt.Assert(len(m.HTTPBindings) == len(w.bindings), "wrong number of HTTP bindings")
		for j, b := range m.HTTPBindings {
			rt.Assert(sameFields(b.Fields, w.bindings[j].fields), "HTTP binding fields differ from the definition")
			rt.Assert(sameFields(b.CustomHTTPPattern, w.bindings[j].custom), "custom HTTP pattern differs from the definition")
		}
	}
	rt.Reach("compared")
}

const letters = "ABQRXabqrxz"

func ident(name string, max int) string {
	return rt.String(name, max, max, letters)
}

func quote(s string) string { return "\"" + s + "\"" }

// binding text and expectation of one option body
func bindingText(tag string) (string, [][2]string, [][2]string) {
	path := "/" + rt.String(tag+"path", 1, 1, "a{}/:*")
	txt := ""
	var f, c [][2]string
	k := rt.Choice(tag+"verb", 6)
	if k == 5 {
		kind := ident(tag+"kind", 1)
		txt = "custom {\n kind: " + quote(kind) + "\n path: " + quote(path) + "\n}\n"
		c = [][2]string{{"kind", kind}, {"path", path}}
		if rt.Bool(tag + "pathfirst") {
			txt = "custom {\n path: " + quote(path) + "\n kind: " + quote(kind) + "\n}\n"
			c[0], c[1] = c[1], c[0]
		}
	} else {
		verb := []string{"get", "put", "post", "delete", "patch"}[k]
		txt = verb + ": " + quote(path) + "\n"
		f = [][2]string{{verb, path}}
	}
	if rt.Bool(tag + "hasbody") {
		body := rt.String(tag+"body", 1, 1, "*a")
		b := "body: " + quote(body) + "\n"
		if rt.Bool(tag + "bodyfirst") {
			txt = b + txt
			f = append([][2]string{{"body", body}}, f...)
		} else {
			txt += b
			f = append(f, [2]string{"body", body})
		}
	}
	return txt, f, c
}

func rpcText(tag string, nb int) (string, *wantMethod) {
	name := ident(tag+"rpc", 2)
	req, res := "Req"+ident(tag+"req", 1), "Res"+ident(tag+"res", 1)
	form := rt.Choice(tag+"form", 7)
	q1, q2 := "", ""
	switch form {
	case 1:
		q1 = "stream "
	case 2:
		q2 = "stream pkg.sub."
	case 3:
		q1 = "google.protobuf."
	case 4:
		q1, q2 = "stream a.", "stream "
	case 5:
		q1, q2 = ".a.b.", "stream .c."
	case 6:
		q1, q2 = "stream .", "."
	}
	head := "rpc " + name + " (" + q1 + req + ") returns (" + q2 + res + ")"
	switch http := rt.Choice(tag+"http", nb+3); http {
	case 0:
		return head + ";\n", nil
	case 1:
		return head + " {\n}\n", nil
	default:
		m := &wantMethod{name: name, req: req, res: res}
		txt, f, c := bindingText(tag + "b")
		for i := 0; i < http-2; i++ {
			at, af, ac := bindingText(tag + "a")
			txt += "additional_bindings {\n" + at + "}\n"
			m.bindings = append(m.bindings, wantBinding{af, ac})
		}
		// the parser's documented order: additional bindings, then the main one
		m.bindings = append(m.bindings, wantBinding{f, c})
		return head + " {\n option (google.api.http) = {\n" + txt + "};\n}\n", m
	}
}

// ParseShape: one rpc of any form between fixed neighbours.
func ParseShape() {
	name := ident("svc", 2)
	txt, m := rpcText("m", rt.Param("additional", 1))
	pos := rt.Choice("pos", 3)
	pre, post := "", ""
	var want []wantMethod
	pm := wantMethod{"Pre", "Q", "R", []wantBinding{{[][2]string{{"get", "/pre"}}, nil}}}
	if pos >= 1 {
		pre = "rpc Pre(Q) returns (R) { option (google.api.http) = { get: \"/pre\" }; }\n"
		want = append(want, pm)
	}
	if m != nil {
		want = append(want, *m)
	}
	if pos >= 2 {
		post = "rpc None(Q) returns (R);\n rpc Post(Q) returns (R) { option (google.api.http) = { get: \"/pre\" }; }\n"
		pm.name = "Post"
		want = append(want, pm)
	}
	svc, err := parse("service " + name + " {\n" + pre + txt + post + "}\n")
	rt.Assert(err == nil, "a well-formed definition is rejected")
	rt.Observe("name", svc.Name)
	checkService(svc, name, want)
}

// otherOption is an option that says nothing about HTTP.
func otherOption(tag string) string {
	name := ident(tag+"opt", 2)
	switch rt.Choice(tag+"optform", 7) {
	case 0:
		return "option " + name + " = true;"
	case 1:
		return "option (" + name + ") = \"" + rt.String(tag+"optval", 0, 2, "a{};") + "\";"
	case 2:
		return "option (pkg." + name + ").sub = { " + name + ": \"x\" get: \"/no\" };"
	case 3:
		return "option (.google.api." + name + ") = { additional_bindings { get: \"/no\"; } n: [1, 2] };"
	case 4:
		return "option (google.api.http2) = { get: \"/no\" };"
	case 5:
		return "option deprecated=false /* ; } */ ; // option (google.api.http) = { get: \"/no\" };\n"
	}
	return ";"
}

// ParseOptions: options that say nothing about HTTP, empty statements and
// separators change nothing, wherever they stand.
func ParseOptions() {
	opt := otherOption("o")
	sep := rt.Pick("sep", "", ",", ";", " ", "\n,\n")
	http := "option (google.api.http) = { get: \"/a\"" + sep + " body: \"*\"" + sep + " additional_bindings { put: \"/b\"" + sep + " }" + sep + " };"
	if rt.Bool("dot") {
		http = "option ( .google.api . http )={custom{kind:\"K\"" + sep + "path:\"/c\"" + sep + "}" + sep + "};"
	}
	bindings := []wantBinding{{[][2]string{{"put", "/b"}}, nil}, {[][2]string{{"get", "/a"}, {"body", "*"}}, nil}}
	if http[7] == '(' && http[9] == '.' {
		bindings = []wantBinding{{nil, [][2]string{{"kind", "K"}, {"path", "/c"}}}}
	}
	m := wantMethod{name: "A", req: "Q", res: "R", bindings: bindings}
	last := wantMethod{"Z", "Q", "R", []wantBinding{{[][2]string{{"get", "/z"}}, nil}}}
	pre, in, post := "", http, ""
	want := []wantMethod{m, last}
	switch rt.Choice("where", 7) {
	case 0:
		pre = opt
	case 1:
		in = opt + " " + http
	case 2:
		in = http + " " + opt
	case 3:
		post = opt
	case 4:
		// no HTTP at all
		in = opt
		want = want[1:]
	case 5:
		in = opt + otherOption("p")
		want = want[1:]
	case 6:
		in = opt + http + opt
		pre, post = opt, opt
	}
	svc, err := parse("service S { " + pre + " rpc A(Q) returns (R) { " + in + " } " + post + " rpc Z(Q) returns (R) { option (google.api.http) = { get: \"/z\" }; } }")
	rt.Assert(err == nil, "a definition is rejected because of its options")
	rt.Observe("n", len(svc.Methods))
	checkService(svc, "S", want)
	if len(want) == 1 {
		rt.Reach("none")
	}
	rt.Reach("compared")
}

// ParseOrder: additional bindings before, between and after the fields of the
// main one, alone or in lists.
func ParseOrder() {
	fields := []string{"get: \"/a\"", "body: \"*\""}
	want := [][2]string{{"get", "/a"}, {"body", "*"}}
	var custom [][2]string
	switch rt.Choice("main", 4) {
	case 1:
		fields, want = fields[:1], want[:1]
	case 2:
		fields[0] = "custom" + rt.Pick("colon", "", ":", " : ") + "{ kind: \"K\" path: \"/a\" }"
		want, custom = want[1:], [][2]string{{"kind", "K"}, {"path", "/a"}}
	case 3:
		fields[1], want[1] = "response_body: \"r\"", [2]string{"response_body", "r"}
	}
	if len(fields) == 2 && rt.Bool("swap") {
		fields[0], fields[1] = fields[1], fields[0]
		if custom == nil {
			want[0], want[1] = want[1], want[0]
		}
	}
	sep := rt.Pick("sep", " ", ", ", ";\n", "/*[*/")
	mark := rt.Pick("mark", " ", ":", "/*{*/ : ")
	var bindings []wantBinding
	txt, n := "", 0
	for i := 0; i <= len(fields); i++ {
		t := string([]byte{byte('0' + i)})
		k := rt.Choice("add"+t, 4)
		if k > 0 {
			txt += "additional_bindings" + mark
			if k > 1 {
				txt += "["
			}
			for j := 0; j < k && (k < 3 || j < 1); j++ {
				v := []string{"put", "post", "patch", "delete"}[n%4]
				p := "/" + string([]byte{byte('n' + n)})
				n++
				if j > 0 {
					txt += ","
				}
				txt += " { " + v + ": \"" + p + "\"" + sep + "}"
				bindings = append(bindings, wantBinding{[][2]string{{v, p}}, nil})
			}
			if k > 1 {
				txt += " ]"
			}
			txt += sep
		}
		if i < len(fields) {
			txt += fields[i] + sep
		}
	}
	bindings = append(bindings, wantBinding{want, custom})
	svc, err := parse("service S { rpc A(Q) returns (R) { option (google.api.http) = { " + txt + " }; } rpc Z(Q) returns (R) { option (google.api.http) = { get: \"/z\" }; } }")
	rt.Assert(err == nil, "a definition is rejected because of the order of its bindings")
	rt.Observe("n", len(svc.Methods))
	checkService(svc, "S", []wantMethod{{name: "A", req: "Q", res: "R", bindings: bindings}, {"Z", "Q", "R", []wantBinding{{[][2]string{{"get", "/z"}}, nil}}}})
}

// unescape is the reference for the escapes of proto strings (octal and hex
// ones with all their digits) enclosed in q.
func unescape(s string, q byte) (string, bool) {
	out := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == q || c == '\n' {
			return "", false
		}
		if c != '\\' {
			out += s[i : i+1]
			continue
		}
		i++
		if i >= len(s) {
			return "", false
		}
		switch s[i] {
		case 'n':
			out += "\n"
		case 't':
			out += "\t"
		case 'r':
			out += "\r"
		case 'a':
			out += "\a"
		case 'b':
			out += "\b"
		case 'f':
			out += "\f"
		case 'v':
			out += "\v"
		case '\\':
			out += "\\"
		case '"', '\'', '?':
			out += s[i : i+1]
		case 'x':
			if i+2 >= len(s) || hex(s[i+1]) < 0 || hex(s[i+2]) < 0 {
				return "", false
			}
			out += string([]byte{byte(hex(s[i+1])*16 + hex(s[i+2]))})
			i += 2
		case '0', '1', '2', '3':
			if i+2 >= len(s) || s[i+1] < '0' || s[i+1] > '7' || s[i+2] < '0' || s[i+2] > '7' {
				return "", false
			}
			out += string([]byte{(s[i]-'0')*64 + (s[i+1]-'0')*8 + (s[i+2] - '0')})
			i += 2
		default:
			return "", false
		}
	}
	return out, true
}

func hex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// ParseValue: string values with arbitrary characters and escapes.
func ParseValue() {
	raw := rt.String("raw", 0, rt.Param("len", 3), "ab/{}*:;'.#nxr\\\"1207? ")
	q := "\""
	if rt.Bool("single") {
		q = "'"
	}
	val, ok := unescape(raw, q[0])
	rt.Assume(ok)
	lit := q + raw + q
	txt := "service S {\n rpc A(Q) returns (R) {\n option (google.api.http) = {\n"
	want := wantMethod{name: "A", req: "Q", res: "R"}
	switch rt.Choice("where", 4) {
	case 0:
		txt += "get: " + lit + " body: \"x\""
		want.bindings = []wantBinding{{[][2]string{{"get", val}, {"body", "x"}}, nil}}
	case 1:
		txt += "get: \"/x\" body: " + lit
		want.bindings = []wantBinding{{[][2]string{{"get", "/x"}, {"body", val}}, nil}}
	case 2:
		txt += "get: \"/x\" additional_bindings { put: " + lit + " }"
		want.bindings = []wantBinding{{[][2]string{{"put", val}}, nil}, {[][2]string{{"get", "/x"}}, nil}}
	case 3:
		txt += "custom { kind: " + lit + " path: \"/y\" }"
		want.bindings = []wantBinding{{nil, [][2]string{{"kind", val}, {"path", "/y"}}}}
	}
	txt += "};\n}\n}\n"
	svc, err := parse(txt)
	rt.Assert(err == nil, "a valid string literal is rejected")
	rt.Observe("n", len(svc.Methods))
	checkService(svc, "S", []wantMethod{want})
}

var layout = []string{"service", "S", "{", "rpc", "A", "(", "stream", "p", ".", "Q", ")", "returns", "(", "R", ")", "{",
	"option", "(", "google.api.http", ")", "=", "{", "get", ":", "\"/a\"", "body", ":", "\"*\"",
	"additional_bindings", "{", "custom", "{", "kind", ":", "\"K\"", "path", ":", "\"/b\"", "}", "}",
	"additional_bindings", "{", "put", ":", "\"/c\"", "}", "}", ";", "}",
	"rpc", "B", "(", "Q", ")", "returns", "(", "R", ")", ";",
	"rpc", "C", "(", "Q", ")", "returns", "(", "R", ")", "{", "}", "}"}

var layoutWant = []wantMethod{{"A", "Q", "R", []wantBinding{
	{nil, [][2]string{{"kind", "K"}, {"path", "/b"}}},
	{[][2]string{{"put", "/c"}}, nil},
	{[][2]string{{"get", "/a"}, {"body", "*"}}, nil}}}}

func wordy(s string) bool { return wordByte(s[0]) && wordByte(s[len(s)-1]) }

// ParseLayout: the result does not depend on the white space and comments
// between the tokens.
func ParseLayout() {
	gap := 1 + rt.Choice("gap", len(layout)-1)
	tight := wordByte(layout[gap-1][len(layout[gap-1])-1]) && wordByte(layout[gap][0])
	comment := rt.Choice("kind", 3)
	sep := ""
	switch comment {
	case 0:
		min := 0
		if tight {
			min = 1
		}
		sep = rt.String("ws", min, rt.Param("ws", 2), " \t\r\n\v\f")
	case 1:
		c := rt.String("c", 0, rt.Param("len", 2), "*/ {}\"'\\\na")
		rt.Assume(!strings.Contains(c+"*", "*/"))
		sep = rt.String("ws", 0, 1, " \n") + "/*" + c + "*/" + rt.String("ws2", 0, 1, " \n")
	case 2:
		c := rt.String("c", 0, rt.Param("len", 2), "*/ {}\"'\\a")
		sep = rt.String("ws", 0, 1, " \n") + "//" + c + "\n" + rt.String("ws2", 0, 1, " \n")
	}
	txt := ""
	for i, t := range layout {
		if i == gap {
			txt += sep
		} else if i > 0 {
			txt += " "
		}
		txt += t
	}
	svc, err := parse(txt)
	rt.Observe("ok", err == nil)
	rt.Assert(err == nil, "a definition is rejected because of its layout")
	checkService(svc, "S", layoutWant)
}

const core = "service S { rpc A(Q) returns (R) { option (google.api.http) = { get: \"/a\" body: \"*\" }; } }"

func coreOK(svc *sp.Service, err error) {
	rt.Assert(err == nil, "a valid definition is rejected because of what surrounds the service")
	checkService(svc, "S", []wantMethod{{"A", "Q", "R", []wantBinding{{[][2]string{{"get", "/a"}, {"body", "*"}}, nil}}}})
}

// ParseOutside: text outside the service never changes the result.
func ParseOutside() {
	n := rt.String("name", 1, rt.Param("name", 7), "servicmp")
	c := rt.String("c", 0, rt.Param("len", 2), "*/ {}\"';a")
	txt := ""
	switch rt.Choice("what", 9) {
	case 0:
		txt = "package " + n + ";\n"
	case 1:
		txt = "package a." + n + ".v1;\n"
	case 2:
		txt = "message M {\n string " + n + " = 1;\n}\n"
	case 3:
		txt = "message M {\n " + n + " " + n + "2 = 1; message N { string a = 1; }\n oneof " + n + " { string b = 3; }\n}\n"
	case 4:
		txt = "enum E {\n " + n + " = 0;\n}\n"
	case 5:
		txt = "message " + n + " {}\n"
	case 6:
		q := rt.Pick("quote", "\"", "'")
		txt = "option go_package = " + q + n + " {" + q + ";\n"
	case 7:
		rt.Assume(!strings.Contains(c+"*", "*/"))
		txt = "/*" + c + n + "*/"
	case 8:
		txt = "//" + c + "service X {" + n + "\n"
	}
	if rt.Bool("after") {
		coreOK(parse(core + "\n" + txt))
		return
	}
	svc, err := parse("syntax = \"proto3\";\n" + txt + core)
	rt.Observe("ok", err == nil)
	coreOK(svc, err)
}

// Isolation: whatever was scanned before, a definition parses to the same result.
func Isolation() {
	var junk string
	n := rt.Param("len", 3)
	switch rt.Choice("junk", 6) {
	case 0:
		junk = rt.String("t", 0, n, "a \n{}\"/*;(\\")
	case 1:
		junk = "service" + rt.String("t", 0, n, " \n{}a;")
	case 2:
		junk = sample[:rt.Choice("cut", len(sample)+1)] + rt.String("tail", 0, 1, "{}\"/*; \\")
	case 3:
		junk = "service S {" + rt.String("t", 0, n, " \n\"\\/*}a")
	case 4:
		junk = "service S { rpc A(Q) returns (R) { option (google.api.http) = {" + rt.String("t", 0, n, " \"\\/*}a:")
	case 5:
		junk = "service S { rpc A(Q) returns (R) { option (google.api.http) = { get: \"/a" + rt.String("t", 0, n, "\"\\/* }") + rt.Pick("end", "", "\"", "additional_bindings {", "custom {")
	}
	parse(junk)
	if rt.Bool("twice") {
		parse("service X { rpc A(")
	}
	if rt.Bool("empty") {
		svc, err := parse("service S{rpc A(Q)returns(R){option(google.api.http)={body:\"\"get:\"/a\"};}}")
		rt.Assert(err == nil, "a valid definition is rejected after other input was scanned")
		checkService(svc, "S", []wantMethod{{"A", "Q", "R", []wantBinding{{[][2]string{{"body", ""}, {"get", "/a"}}, nil}}}})
		return
	}
	lex := sp.NewSvcLexer(strings.NewReader(sample))
	toks := lexAll(lex, len(sample)+2)
	want := sampleTokens()
	rt.Assert(len(toks) == len(want), "a definition lexes differently after other input was scanned")
	for i := range toks {
		rt.Assert(toks[i].kind == want[i].kind && toks[i].text == want[i].text, "a token differs after other input was scanned")
	}
	svc, err := parse(sample)
	rt.Assert(err == nil, "a valid definition is rejected after other input was scanned")
	rt.Observe("methods", len(svc.Methods))
	checkService(svc, "S", []wantMethod{{"A", "Q", "R", []wantBinding{
		{[][2]string{{"put", "/c"}, {"body", "*"}}, nil},
		{[][2]string{{"get", "/a/{b}"}}, [][2]string{{"kind", "X\"\\"}, {"path", "/p"}}}}}})
}

// IsolationLex: after other input, any pieces still lex like the reference says.
func IsolationLex() {
	var junk string
	switch rt.Choice("junk", 3) {
	case 0:
		junk = rt.String("t", 0, 2, "a{}\"/*\\")
	case 1:
		junk = "service S {" + rt.String("t", 0, 2, "{}\"\\/*a")
	case 2:
		junk = "service S { }" + rt.Pick("tail", "service", "service T", "service T {", "{", "}", "/*", "\"")
	}
	lexAll(sp.NewSvcLexer(strings.NewReader(junk)), len(junk)+2)
	checkLex("service S{"+pieceText(rt.Param("n", 1))+"}", false)
}

// sampleTokens are the tokens of sample's service by the reference tokenizer.
func sampleTokens() []tok {
	s := sample[strings.Index(sample, "service"):strings.Index(sample, "message")]
	ts, _ := refLex(strings.TrimSpace(s))
	return joinComments(ts)
}

// ParseNames: arbitrary identifiers for the service, rpc and types.
func ParseNames() {
	n := rt.String("first", 1, 1, "azAZ_gr") + rt.String("rest", 0, rt.Param("len", 4), "azAZ_09epcr")
	if rt.Bool("word") {
		n = rt.Word("kw", "svcdef/svcparse,svcdef") + rt.Pick("tail", "", "s", "_")
		rt.Assume(n != "stream")
	}
	m := wantMethod{name: "A", req: "Q", res: "R", bindings: []wantBinding{{[][2]string{{"get", "/a"}}, nil}}}
	svcName := "S"
	switch rt.Choice("where", 4) {
	case 0:
		svcName = n
	case 1:
		m.name = n
	case 2:
		m.req = n
	case 3:
		m.res = n
	}
	svc, err := parse("service " + svcName + " { rpc " + m.name + "(" + m.req + ") returns (" + m.res + ") { option (google.api.http) = { get: \"/a\" }; } }")
	rt.Assert(err == nil, "a definition is rejected because of its names")
	rt.Observe("name", svc.Name)
	checkService(svc, svcName, []wantMethod{m})
}
