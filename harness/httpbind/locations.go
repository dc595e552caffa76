package httpbind

import (
	"strings"

	"github.com/teamlint/baron/internal/zzverif/rt"
	"github.com/teamlint/baron/svcdef"
)

const nameAlpha = "abcd_"

type want struct {
	verb, path string
	params     []string
	body       string
}

func (w want) location(pb string) string {
	for _, p := range w.params {
		if p == pb {
			return "path"
		}
	}
	if w.body == "*" || w.body == pb {
		return "body"
	}
	return "query"
}

var fewNames bool

func someName(tag string) string {
	if fewNames {
		return rt.Pick(tag+"few", "a", "b_c")
	}
	switch rt.Choice(tag+"kind", 4) {
	case 1:
		return rt.Pick(tag+"special", "reset", "a1", "b_c", "_d")
	case 2:
		return "a"
	}
	return param(rt.String(tag, 1, rt.Param("len", 2), nameAlpha))
}

// bindingOf makes up one HTTP binding: up to two path segments, body or none.
func bindingOf(tag string, segs int, custom bool) (string, want) {
	var w want
	n := rt.Choice(tag+"segs", segs+1)
	for i := 0; i < n; i++ {
		t := tag + string([]byte{byte('0' + i)})
		if rt.Bool(t + "param") {
			p := someName(t)
			w.params = append(w.params, p)
			w.path += "/{" + p + "}"
		} else {
			if fewNames {
				w.path += "/x"
				continue
			}
			w.path += "/" + rt.String(t+"lit", 0, 1, "ab")
		}
	}
	if w.path == "" {
		w.path = "/"
	}
	txt := ""
	if !custom {
		w.verb = "post"
		txt = "post: \"" + w.path + "\"\n"
	} else if rt.Bool(tag + "custom") {
		w.verb = rt.Pick(tag+"customkind", "HEAD", "get", "x")
		txt = "custom {\nkind: \"" + w.verb + "\"\npath: \"" + w.path + "\"\n}\n"
		if rt.Bool(tag + "pathfirst") {
			txt = "custom {\npath: \"" + w.path + "\"\nkind: \"" + w.verb + "\"\n}\n"
		}
	} else {
		w.verb = rt.Pick(tag+"verb", "get", "put", "post", "delete", "patch")
		txt = w.verb + ": \"" + w.path + "\"\n"
	}
	switch rt.Choice(tag+"body", 3) {
	case 1:
		w.body = "*"
	case 2:
		w.body = someName(tag + "bodyname")
	}
	if w.body != "" {
		b := "body: \"" + w.body + "\"\n"
		if rt.Bool(tag + "bodyfirst") {
			txt = b + txt
		} else {
			txt += b
		}
	}
	return txt, w
}

func checkBinding(b *svcdef.HTTPBinding, w want) {
	rt.Observe("verb", b.Verb)
	rt.Observe("path", b.Path)
	rt.Assert(b.Verb == w.verb, "the binding's verb is not the declared one")
	rt.Assert(b.Path == w.path, "the binding's path is not the declared one")
	rt.Assert(len(b.Params) == len(reqFields), "not every request field appears exactly once in a binding")
	seen := map[string]bool{}
	for _, p := range b.Params {
		rt.Assert(!seen[p.Field.Name], "a request field appears twice in a binding")
		seen[p.Field.Name] = true
		ok := false
		for _, f := range reqFields {
			if f.goName == p.Field.Name {
				ok = true
				rt.Assert(p.Location == w.location(f.pbName), "field "+f.pbName+" has the wrong HTTP location")
			}
		}
		rt.Assert(ok, "a binding has a parameter that is no request field")
	}
}

// Locations: every field of one binding.
func Locations() {
	txt, w := bindingOf("b", rt.Param("segs", 1), rt.Param("verbs", 1) == 1)
	sd, err := extract(goSource("Call"), "syntax = \"proto3\";\npackage p;\nservice Svc {\n rpc Call (Req) returns (Res) {\n option (google.api.http) = {\n"+txt+"};\n}\n}\n")
	rt.Assert(err == nil, "a valid definition is refused")
	rt.Assert(len(sd.Service.Methods) == 1 && len(sd.Service.Methods[0].Bindings) == 1, "the binding is missing or duplicated")
	checkBinding(sd.Service.Methods[0].Bindings[0], w)
	rt.Reach("located")
}

// Additional: a main and an additional binding share nothing.
func Additional() {
	fewNames = true
	txt, w := bindingOf("b", 1, false)
	at, aw := bindingOf("a", 1, rt.Bool("custom"))
	fewNames = false
	extra := "additional_bindings {\n" + at + "}\n"
	sd, err := extract(goSource("Call"), "syntax = \"proto3\";\npackage p;\nservice Svc {\n rpc Call (Req) returns (Res) {\n option (google.api.http) = {\n"+txt+extra+"};\n}\n}\n")
	rt.Assert(err == nil, "a valid definition is refused")
	bs := sd.Service.Methods[0].Bindings
	rt.Assert(len(bs) == 2, "a binding is missing or duplicated")
	checkBinding(bs[0], aw)
	checkBinding(bs[1], w)
	rt.Reach("located")
}

// Attachment: bindings go to the method of their name, in order.
func Attachment() {
	second := rt.Pick("second", "Get2", "Geta")
	names := []string{"Get", second, "GetA"}
	protoNames := []string{"Get", second, rt.Pick("lower", "GetA", "get_a")}
	perm := rt.Choice("order", 3)
	wants := make([][]want, 3)
	body := ""
	for k := 0; k < 3; k++ {
		i := (k + perm) % 3
		n := rt.Choice("http"+names[i], 4)
		if n == 0 {
			body += "rpc " + protoNames[i] + " (Req) returns (Res);\n"
			continue
		}
		mk := func(j string) (string, want) {
			w := want{verb: []string{"get", "post", "delete"}[(i+len(wants[i]))%3], path: "/" + names[i] + j + "/{b_c}", params: []string{"b_c"}}
			return w.verb + ": \"" + w.path + "\"\n", w
		}
		txt, main := mk("m")
		for j := 1; j < n; j++ {
			at, aw := mk(string([]byte{byte('0' + j)}))
			txt += "additional_bindings {\n" + at + "}\n"
			wants[i] = append(wants[i], aw)
		}
		wants[i] = append(wants[i], main)
		body += "rpc " + protoNames[i] + " (Req) returns (Res) {\n option (google.api.http) = {\n" + txt + "};\n}\n"
	}
	sd, err := extract(goSource(names...), "syntax = \"proto3\";\npackage p;\nservice Svc {\n"+body+"}\n")
	rt.Assert(err == nil, "a valid definition is refused")
	rt.Assert(len(sd.Service.Methods) == 3, "wrong number of methods")
	for i, m := range sd.Service.Methods {
		rt.Assert(m.Name == names[i], "wrong method")
		rt.Assert(len(m.Bindings) == len(wants[i]), "wrong number of bindings on a method")
		left := append([]want(nil), wants[i]...)
		for _, b := range m.Bindings {
			found := -1
			for x, w := range left {
				if w.path == b.Path && w.verb == b.Verb {
					found = x
					break
				}
			}
			rt.Assert(found >= 0, "a binding of another method or a duplicate is attached")
			checkBinding(b, left[found])
			left = append(left[:found], left[found+1:]...)
		}
	}
	rt.Reach("attached")
}

// Imported: a request of another package has a binding and no known fields.
func Imported() {
	w := want{verb: rt.Pick("verb", "get", "post"), path: "/" + rt.String("path", 0, 2, "a{}")}
	src := strings.Replace(goSource("Call"), "*Req) (*Res", rt.Pick("type", "*emptypb.Empty", "*other.Sub2")+") (*Res", 1)
	other := ""
	if rt.Bool("another") {
		src = strings.Replace(src, "\tmustEmbed", "\tOther(context.Context, *Req) (*Res, error)\n\tmustEmbed", 1)
		other = "rpc Other (Req) returns (Res) {\n option (google.api.http) = {\npost: \"/o\"\nbody: \"*\"\n};\n}\n"
	}
	call := "rpc Call (google.protobuf.Empty) returns (Res) {\n option (google.api.http) = {\n" + w.verb + ": \"" + w.path + "\"\n};\n}\n"
	sd, err := extract(src, "syntax = \"proto3\";\npackage p;\nservice Svc {\n"+other+call+"}\n")
	rt.Assert(err == nil, "a valid definition is refused")
	b := sd.Service.Methods[0].Bindings
	rt.Assert(len(b) == 1 && b[0].Verb == w.verb && b[0].Path == w.path && len(b[0].Params) == 0, "the binding of a method with an imported request is wrong")
	if other != "" {
		b = sd.Service.Methods[1].Bindings
		rt.Assert(len(b) == 1 && len(b[0].Params) == len(reqFields), "a neighbouring binding is disturbed")
	}
	rt.Reach("imported")
}

// Many: any number of parameters, in a path of any length.
func Many() {
	n, from := rt.Choice("params", len(reqFields)), rt.Choice("from", 4)*3
	between := rt.Choice("between", 5)
	w := want{verb: []string{"get", "patch", "HEAD"}[(n+between)%3]}
	sep := []string{"/", "/x/", "/a_rather_long_literal_segment_in_the_path_of_the_binding/", ":", "-"}[between]
	w.path = []string{"/", "/v1/x-"}[rt.Choice("before", 2)]
	for i := 0; i < n; i++ {
		f := reqFields[(from+i)%(len(reqFields)-1)]
		if i > 0 {
			w.path += sep
		}
		w.path += "{" + f.pbName + "}"
		w.params = append(w.params, f.pbName)
	}
	w.path += []string{"", ":end"}[rt.Choice("after", 2)]
	switch rt.Choice("body", 3) {
	case 1:
		w.body = "*"
	case 2:
		w.body = reqFields[(from+rt.Choice("named", 3)*4)%(len(reqFields)-1)].pbName
	}
	txt := w.verb + ": \"" + w.path + "\"\n"
	if w.verb == "HEAD" {
		txt = "custom {\nkind: \"HEAD\"\npath: \"" + w.path + "\"\n}\n"
	}
	if w.body != "" {
		txt += "body: \"" + w.body + "\"\n"
	}
	located(txt, w)
}

func located(txt string, w want) {
	sd, err := extract(goSource("Call"), "syntax = \"proto3\";\npackage p;\nservice Svc {\n rpc Call (Req) returns (Res) {\n option (google.api.http) = {\n"+txt+"};\n}\n}\n")
	rt.Assert(err == nil, "a valid definition is refused")
	rt.Assert(len(sd.Service.Methods) == 1 && len(sd.Service.Methods[0].Bindings) == 1, "the binding is missing or duplicated")
	checkBinding(sd.Service.Methods[0].Bindings[0], w)
	rt.Reach("located")
}

// Spelled: body and parameter are a field's only if they are its name.
func Spelled() {
	w := want{verb: "post"}
	if rt.Bool("path") {
		p := param(rt.String("name", 1, rt.Param("len", 3), "dDbB_2"))
		w.params = append(w.params, p)
		w.path = "/v/{" + p + "}"
		w.body = []string{"", "*"}[rt.Choice("all", 2)]
	} else {
		w.path = "/v"
		w.body = rt.String("body", 1, rt.Param("len", 3), "dDbB*")
		rt.Assume(w.body == "*" || param(w.body) != "")
	}
	txt := "post: \"" + w.path + "\"\n"
	if w.body != "" {
		txt += "body: \"" + w.body + "\"\n"
	}
	located(txt, w)
}
