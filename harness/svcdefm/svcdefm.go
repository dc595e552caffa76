// Package svcdefm holds the harnesses for the extracted service model.
package svcdefm

import (
	"io"
	"sort"
	"strings"

	"github.com/teamlint/baron/internal/zzverif/rt"
	"github.com/teamlint/baron/internal/zzverif/rt/strsref"
	"github.com/teamlint/baron/svcdef"
)

// Entries lists the harness functions.
var Entries = map[string]func(){
	"FieldKinds": FieldKinds,
	"Oneofs":     Oneofs,
	"Methods":    Methods,
	"Splits":     Splits,
	"History":    History,
	"ProtoOrder": ProtoOrder,
	"Many":       Many,
	"ManyFiles":  ManyFiles,
}

// kind is one form a message field takes in protoc-gen-go's output.
type kind struct {
	goType, tagHead, tagTail string
	// expectation
	name           string
	star, array    bool
	mapKey, mapVal string
	mapStar        bool
	mapArray       bool
	message, enum  string // links, of the field or of the map's value
}

var kinds = []kind{
	{goType: "string", tagHead: "bytes,1,opt", name: "string"},
	{goType: "int32", tagHead: "zigzag32,1,opt", name: "int32"},
	{goType: "float64", tagHead: "fixed64,1,opt", name: "float64"},
	{goType: "[]byte", tagHead: "bytes,1,opt", name: "byte", array: true},
	{goType: "*bool", tagHead: "varint,1,opt", tagTail: ",oneof", name: "bool", star: true},
	{goType: "*Kind", tagHead: "varint,1,opt", tagTail: ",enum=p.Kind,oneof", name: "Kind", star: true, enum: "Kind"},
	{goType: "Req_Kind", tagHead: "varint,1,opt", tagTail: ",enum=p.Req.Kind", name: "Req_Kind", enum: "Req_Kind"},
	{goType: "*Sub", tagHead: "bytes,1,opt", name: "Sub", star: true, message: "Sub"},
	{goType: "*Req", tagHead: "bytes,1,opt", name: "Req", star: true, message: "Req"},
	{goType: "*timestamppb.Timestamp", tagHead: "bytes,1,opt", name: "timestamppb.Timestamp", star: true},
	{goType: "[]uint64", tagHead: "varint,1,rep,packed", name: "uint64", array: true},
	{goType: "[]string", tagHead: "bytes,1,rep", name: "string", array: true},
	{goType: "[][]byte", tagHead: "bytes,1,rep", name: "[]byte", array: true},
	{goType: "[]Kind", tagHead: "varint,1,rep,packed", tagTail: ",enum=p.Kind", name: "Kind", array: true, enum: "Kind"},
	{goType: "[]*Sub", tagHead: "bytes,1,rep", name: "Sub", star: true, array: true, message: "Sub"},
	{goType: "map[string]int64", tagHead: "bytes,1,rep", mapKey: "string", mapVal: "int64"},
	{goType: "map[int32]*Sub", tagHead: "bytes,1,rep", mapKey: "int32", mapVal: "Sub", mapStar: true, message: "Sub"},
	{goType: "map[bool]Kind", tagHead: "bytes,1,rep", mapKey: "bool", mapVal: "Kind", enum: "Kind"},
	{goType: "map[string]*timestamppb.Timestamp", tagHead: "bytes,1,rep", mapKey: "string", mapVal: "timestamppb.Timestamp", mapStar: true},
	{goType: "otherpb.Kind", tagHead: "varint,1,opt", tagTail: ",enum=o.Kind", name: "otherpb.Kind"},
	{goType: "[]*timestamppb.Timestamp", tagHead: "bytes,1,rep", name: "timestamppb.Timestamp", star: true, array: true},
	{goType: "[]otherpb.Kind", tagHead: "varint,1,rep,packed", tagTail: ",enum=o.Kind", name: "otherpb.Kind", array: true},
	{goType: "map[uint64]otherpb.Kind", tagHead: "bytes,1,rep", mapKey: "uint64", mapVal: "otherpb.Kind"},
	{goType: "*string", tagHead: "bytes,1,opt", tagTail: ",oneof", name: "string", star: true},
	{goType: "float32", tagHead: "fixed32,1,opt", name: "float32"},
	{goType: "int64", tagHead: "fixed64,1,opt", name: "int64"},
	{goType: "[]bool", tagHead: "varint,1,rep,packed", name: "bool", array: true},
	{goType: "[]float32", tagHead: "fixed32,1,rep,packed", name: "float32", array: true},
	{goType: "map[uint32][]byte", tagHead: "bytes,1,rep", mapKey: "uint32", mapVal: "byte", mapArray: true},
}

type wantField struct {
	name, pb string
	k        kind
	oneof    []wantField // alternatives
	wrapper  string
}

type wantMsg struct {
	name   string
	fields []wantField
}

func camel(s string) string { return strsref.GoCamelCase(s) }

func goTag(k kind, pb string) string {
	json := ""
	if pb != jsonName(pb) {
		json = ",json=" + jsonName(pb)
	}
	extra := ""
	if k.mapKey != "" {
		extra = " protobuf_key:\"bytes,1,opt,name=key,proto3\" protobuf_val:\"bytes,2,opt,name=value,proto3\""
	}
	return "`protobuf:\"" + k.tagHead + ",name=" + pb + json + ",proto3" + k.tagTail + "\" json:\"" + pb + ",omitempty\"" + extra + "`"
}

func jsonName(s string) string { return strsref.JSONCamelCase(s) }

// message text as protoc-gen-go prints it
func messageText(m wantMsg) string {
	s := "type " + m.name + " struct {\n\tstate         protoimpl.MessageState\n\tsizeCache     protoimpl.SizeCache\n\tunknownFields protoimpl.UnknownFields\n\n"
	after := ""
	for _, f := range m.fields {
		if f.oneof != nil {
			iface := "is" + m.name + "_" + f.name
			s += "\t// Types that are assignable to " + f.name + ":\n"
			for _, o := range f.oneof {
				s += "\t//\t*" + o.wrapper + "\n"
			}
			s += "\t" + f.name + " " + iface + " `protobuf_oneof:\"" + f.pb + "\"`\n"
			after += "type " + iface + " interface {\n\t" + iface + "()\n}\n\n"
			for _, o := range f.oneof {
				after += "type " + o.wrapper + " struct {\n\t" + o.name + " " + o.k.goType + " `protobuf:\"" + o.k.tagHead + ",name=" + o.pb + ",proto3" + o.k.tagTail + ",oneof\"`\n}\n\n"
			}
			for _, o := range f.oneof {
				after += "func (*" + o.wrapper + ") " + iface + "() {}\n\n"
			}
			continue
		}
		s += "\t" + f.name + " " + f.k.goType + " " + goTag(f.k, f.pb) + "\n"
	}
	s += "}\n\nfunc (x *" + m.name + ") Reset() {\n\t*x = " + m.name + "{}\n}\n\nfunc (*" + m.name + ") ProtoMessage() {}\n\n"
	return s + after
}

const head = "// Code generated by protoc-gen-go. DO NOT EDIT.\npackage p\n\nimport (\n\tprotoimpl \"google.golang.org/protobuf/runtime/protoimpl\"\n)\n\nconst _ = protoimpl.EnforceVersion(20 - protoimpl.MinVersion)\n\n"

const enums = "type Kind int32\n\nconst (\n\tKind_Z Kind = 0\n)\n\nvar (\n\tKind_name = map[int32]string{\n\t\t0: \"Z\",\n\t}\n)\n\nfunc (x Kind) Enum() *Kind {\n\tp := new(Kind)\n\t*p = x\n\treturn p\n}\n\ntype Req_Kind int32\n\n"

type method struct{ name, req, res, wantReq, wantRes string }

func enumText(e string) string {
	return "type " + e + " int32\n\nconst (\n\t" + e + "_Z " + e + " = 0\n)\n\n"
}

func serviceText(svc string, ms []method) string {
	low := strings.ToLower(svc[:1]) + svc[1:]
	s := "// " + svc + "Client is the client API for " + svc + " service.\ntype " + svc + "Client interface {\n"
	for _, m := range ms {
		s += "\t" + m.name + "(ctx context.Context, in *" + m.req + ", opts ...grpc.CallOption) (*" + m.res + ", error)\n"
	}
	s += "}\n\ntype " + low + "Client struct {\n\tcc grpc.ClientConnInterface\n}\n\ntype " + svc + "Server interface {\n"
	for _, m := range ms {
		s += "\t" + m.name + "(context.Context, *" + m.req + ") (*" + m.res + ", error)\n"
	}
	s += "\tmustEmbedUnimplemented" + svc + "Server()\n}\n\ntype Unimplemented" + svc + "Server struct {\n}\n\n"
	s += "func (Unimplemented" + svc + "Server) mustEmbedUnimplemented" + svc + "Server() {}\n\ntype Unsafe" + svc + "Server interface {\n\tmustEmbedUnimplemented" + svc + "Server()\n}\n"
	return s
}

const grpcHead = "package p\n\nimport (\n\tcontext \"context\"\n\tgrpc \"google.golang.org/grpc\"\n)\n\n"

var sub = wantMsg{name: "Sub", fields: []wantField{{name: "Q", pb: "q", k: kinds[1]}}}

type def struct {
	msgs    []wantMsg
	svc     string
	methods []method
	enums   []string // others than Kind and Req_Kind
}

func files(m map[string]string) map[string]io.Reader {
	out := map[string]io.Reader{}
	for k, v := range m {
		out[k] = strings.NewReader(v)
	}
	return out
}

// onefile puts everything into one Go file.
func (d def) onefile() map[string]string {
	s := head + enums
	for _, e := range d.enums {
		s += enumText(e)
	}
	for _, m := range d.msgs {
		s += messageText(m)
	}
	return map[string]string{"/x/p.pb.go": s + serviceText(d.svc, d.methods)}
}

func checkLink(t *svcdef.FieldType, k kind, sd *svcdef.Svcdef, isOneof bool) {
	rt.Assert((t.Enum != nil) == (k.enum != ""), "a field is linked to an enum exactly when its type is one: "+k.goType)
	if t.Enum != nil {
		n := 0
		for _, e := range sd.Enums {
			if e == t.Enum {
				n++
			}
		}
		rt.Assert(t.Enum.Name == k.enum && n == 1, "a field is linked to the wrong enum")
	}
	if isOneof {
		return
	}
	rt.Assert((t.Message != nil) == (k.message != ""), "a field is linked to a message exactly when its type is one: "+k.goType)
	if t.Message != nil {
		n := 0
		for _, m := range sd.Messages {
			if m == t.Message {
				n++
			}
		}
		rt.Assert(t.Message.Name == k.message && n == 1, "a field is linked to the wrong message")
	}
}

func checkType(t *svcdef.FieldType, k kind, sd *svcdef.Svcdef, isOneof bool) {
	rt.Assert(t.Name == k.name, "wrong field type name for "+k.goType)
	rt.Assert(t.StarExpr == k.star, "wrong pointer flag for "+k.goType)
	rt.Assert(t.ArrayType == k.array, "wrong slice flag for "+k.goType)
	rt.Assert((t.Map != nil) == (k.mapKey != ""), "wrong map flag for "+k.goType)
	if t.Map == nil {
		checkLink(t, k, sd, isOneof)
		return
	}
	rt.Assert(t.Map.KeyType.Name == k.mapKey && !t.Map.KeyType.StarExpr && !t.Map.KeyType.ArrayType, "wrong map key")
	rt.Assert(t.Map.ValueType.Name == k.mapVal && t.Map.ValueType.StarExpr == k.mapStar && t.Map.ValueType.ArrayType == k.mapArray, "wrong map value")
	rt.Assert(t.Message == nil && t.Enum == nil, "a map field is linked to a type itself")
	checkLink(t.Map.ValueType, k, sd, false)
}

func checkFields(m *svcdef.Message, want wantMsg, sd *svcdef.Svcdef) {
	rt.Assert(len(m.Fields) == len(want.fields), "message "+want.name+" has the wrong number of fields")
	for i, f := range m.Fields {
		w := want.fields[i]
		rt.Assert(f.Name == w.name, "wrong field name")
		if w.oneof == nil {
			rt.Assert(f.PBFieldName == w.pb, "wrong proto field name")
			rt.Assert(f.Type.Oneof == nil, "a plain field is taken for a oneof")
			checkType(f.Type, w.k, sd, false)
			continue
		}
		rt.Assert(f.Type.Oneof != nil, "a oneof is not recognised")
		rt.Assert(len(f.Type.Oneof) == len(w.oneof), "a oneof does not have all its alternatives exactly once")
		for j, o := range f.Type.Oneof {
			wo := w.oneof[j]
			rt.Assert(o.Name == wo.name && o.PBFieldName == wo.pb, "wrong oneof alternative")
			rt.Assert(o.Type.Message != nil && o.Type.Message.Name == wo.wrapper, "a oneof alternative lost its wrapper type")
			checkType(o.Type, wo.k, sd, true)
		}
	}
}

func check(sd *svcdef.Svcdef, d def) {
	rt.Assert(sd.PkgName == "p", "wrong package name")
	byName := map[string]*svcdef.Message{}
	for _, m := range sd.Messages {
		if m.Name == "Unimplemented"+d.svc+"Server" && len(m.Fields) == 0 {
			// the grpc plugin's empty struct is harmless in the list
			continue
		}
		rt.Assert(byName[m.Name] == nil, "a message is listed twice")
		byName[m.Name] = m
	}
	rt.Observe("messages", len(byName))
	rt.Assert(len(byName) == len(d.msgs), "not exactly the declared messages are listed")
	for _, w := range d.msgs {
		m := byName[w.name]
		rt.Assert(m != nil, "a declared message is missing")
		checkFields(m, w, sd)
	}
	var en []string
	for _, e := range sd.Enums {
		en = append(en, e.Name)
	}
	sort.Strings(en)
	wantEn := append([]string{"Kind", "Req_Kind"}, d.enums...)
	sort.Strings(wantEn)
	rt.Assert(strings.Join(en, " ") == strings.Join(wantEn, " "), "not exactly the declared enums are listed")
	rt.Assert(sd.Service != nil && sd.Service.Name == d.svc, "wrong service")
	rt.Assert(len(sd.Service.Methods) == len(d.methods), "not exactly the declared methods are listed")
	for i, m := range sd.Service.Methods {
		w := d.methods[i]
		rt.Assert(m.Name == w.name, "wrong method name")
		for j, t := range []*svcdef.FieldType{m.RequestType, m.ResponseType} {
			n := []string{w.wantReq, w.wantRes}[j]
			rt.Assert(t.Name == n && t.StarExpr && !t.ArrayType, "wrong request or response type")
			rt.Assert(t.Message == byName[n] && t.Enum == nil, "a request or response type is linked to the wrong message")
		}
	}
}

func ident(tag string, n int) string {
	return rt.String(tag, 1, 1, "abx") + rt.String(tag+"rest", 0, n, "bZ_1")
}

var plainMethods = []method{{"Call", "Req", "Sub", "Req", "Sub"}}

// FieldKinds: every kind of field under any name.
func FieldKinds() {
	pb, k := "", kinds[0]
	if rt.Bool("word") {
		pb = rt.Pick("kw", "is", "isReq", "server", "x_server", "client", "unsafe", "xxx", "XXX", "xXX", "XXX_1", "XXX__a", "_", "_a", "message", "enum", "state", "size_cache", "unknown_fields", "string", "int32", "type", "map", "opt", "rep", "name", "proto3", "json", "oneof", "sub", "kind", "req")
		k = kinds[rt.Choice("fewkinds", 4)*5]
	} else {
		k = kinds[rt.Choice("kind", len(kinds))]
		pb = ident("name", rt.Param("len", 2))
	}
	f := wantField{name: camel(pb), pb: pb, k: k}
	second := wantField{name: "Zz", pb: "zz", k: kinds[rt.Choice("kind2", rt.Param("second", 2)*8)]}
	fs := []wantField{f, second}
	if rt.Bool("swap") {
		fs = []wantField{second, f}
	}
	d := def{msgs: []wantMsg{{name: "Req", fields: fs}, sub}, svc: "Svc", methods: plainMethods}
	sd, err := svcdef.New(files(d.onefile()), nil)
	rt.Assert(err == nil, "generated Go code is refused")
	check(sd, d)
	rt.Reach("checked")
}

func someOneof(tag, msg string, vary bool) wantField {
	pb, n, alt := "choice", 2, 2
	if vary {
		pb = rt.Pick(tag+"name", "choice", "web_server", "a_client", "x", "_is", "unsafe", "is")
		n = 1 + rt.Choice(tag+"n", 3)
		alt = rt.Choice(tag+"alt", 5)
	}
	o := wantField{name: camel(pb), pb: pb}
	ks := []int{0, 1, 6, 7, 3}
	for i := 0; i < n; i++ {
		t := string([]byte{byte('0' + i)})
		k := kinds[ks[(alt+i*2)%len(ks)]]
		name := "opt_" + t
		o.oneof = append(o.oneof, wantField{name: camel(name), pb: name, k: k, wrapper: msg + "_" + camel(name)})
	}
	return o
}

// Oneofs: messages with oneofs.
func Oneofs() {
	o := someOneof("a", "Req", true)
	fs := []wantField{o, {name: "Zz", pb: "zz", k: kinds[0]}}
	if rt.Bool("last") {
		fs = []wantField{fs[1], fs[0]}
	}
	d := def{msgs: []wantMsg{{name: "Req", fields: fs}, sub}, svc: "Svc", methods: plainMethods}
	if rt.Bool("two") {
		d.msgs = append(d.msgs, wantMsg{name: "Other", fields: []wantField{someOneof("b", "Other", false)}})
	}
	sd, err := svcdef.New(files(d.onefile()), nil)
	rt.Assert(err == nil, "generated Go code is refused")
	check(sd, d)
	rt.Reach("checked")
}

// Methods: services with up to three methods of any type.
func Methods() {
	svc := camel("a" + rt.String("svc", 0, rt.Param("len", 2), "bZ_1"))
	if rt.Bool("serverName") {
		svc += "Server"
	}
	d := def{msgs: []wantMsg{{name: "Req"}, sub}, svc: svc}
	n := rt.Choice("n", 3)
	ts := []string{"Req", "Sub", "emptypb.Empty", "other.Sub2"}
	ws := []string{"Req", "Sub", "Empty", "Sub2"}
	for i := 0; i < n; i++ {
		t := string([]byte{byte('0' + i)})
		r, s, mn := i, 3-i, ""
		if i == 0 {
			r, s, mn = rt.Choice("req"+t, 4), rt.Choice("res"+t, 4), rt.String("m"+t, 0, 1, "aZ1")
		}
		d.methods = append(d.methods, method{"M" + mn + t, ts[r], ts[s], ws[r], ws[s]})
	}
	f := d.onefile()
	if rt.Bool("grpcFile") {
		f = d.split(0)
	}
	sd, err := svcdef.New(files(f), nil)
	rt.Assert(err == nil, "generated Go code is refused")
	check(sd, d)
	rt.Reach("checked")
}

// split puts the service into its own file, and the messages into n+1 files.
func (d def) split(n int) map[string]string {
	out := map[string]string{}
	parts := []string{head + enums, head, head}
	for i, m := range d.msgs {
		k := i % (n + 1)
		parts[k] += messageText(m)
	}
	names := []string{"/x/a.pb.go", "/x/b.pb.go", "/x/c.pb.go"}
	for i := 0; i <= n; i++ {
		out[names[i]] = parts[i]
	}
	out["/x/a_grpc.pb.go"] = grpcHead + serviceText(d.svc, d.methods)
	return out
}

func bigDef(vary bool) def {
	return def{
		msgs: []wantMsg{
			{name: "Req", fields: []wantField{someOneof("a", "Req", vary), {name: "Zz", pb: "zz", k: kinds[7]}}},
			sub,
			{name: "Other", fields: []wantField{{name: "Yy", pb: "yy", k: kinds[17]}, someOneof("b", "Other", false)}},
		},
		svc: "Svc", methods: plainMethods,
	}
}

// Splits: any split over files, visited in any order.
func Splits() {
	d := bigDef(true)
	n := rt.Choice("files", 3)
	rt.MapOrder(true)
	sd, err := svcdef.New(files(d.split(n)), nil)
	rt.MapOrder(false)
	rt.Assert(err == nil, "generated Go code is refused")
	check(sd, d)
	rt.Reach("checked")
}

// History: whatever was extracted before.
func History() {
	d := bigDef(false)
	switch rt.Choice("before", 5) {
	case 0:
		svcdef.New(files(d.onefile()), nil)
	case 1:
		o := def{msgs: []wantMsg{{name: "Req", fields: []wantField{someOneof("c", "Req", true)}}, sub}, svc: "Old", methods: plainMethods}
		svcdef.New(files(o.onefile()), nil)
	case 2:
		svcdef.New(files(map[string]string{"/x/p.pb.go": "package p\n\ntype"}), nil)
	case 3:
		svcdef.New(files(d.onefile()), map[string]io.Reader{"/x/p.proto": strings.NewReader("service Svc { rpc Nope (Req) returns (Sub) { option (google.api.http) = { get: \"/a\" }; } }")})
	case 4:
		svcdef.New(files(d.onefile()), nil)
		svcdef.New(files(d.onefile()), nil)
	}
	sd, err := svcdef.New(files(d.onefile()), nil)
	rt.Assert(err == nil, "generated Go code is refused")
	check(sd, d)
	rt.Reach("checked")
}

// ProtoOrder: the service's proto among other protos, visited in any order.
func ProtoOrder() {
	d := def{msgs: []wantMsg{{name: "Req", fields: []wantField{{name: "A", pb: "a", k: kinds[0]}}}, sub}, svc: "Svc",
		methods: []method{{"Call", "Req", "Sub", "Req", "Sub"}, {"Plain", "Sub", "Sub", "Sub", "Sub"}}}
	plain := "rpc Plain (Sub) returns (Sub);"
	if rt.Bool("braces") {
		plain = "rpc Plain (Sub) returns (Sub) {\n}"
	}
	call := "rpc Call (Req) returns (Sub) {\n option (google.api.http) = {\nget: \"/v/{a}\"\n};\n}"
	body := call + "\n" + plain
	if rt.Bool("plainFirst") {
		body = plain + "\n" + call
	}
	ps := map[string]string{"/x/svc.proto": "syntax = \"proto3\";\npackage p;\nservice Svc {\n" + body + "\n}\n"}
	others := []string{"syntax = \"proto3\";\nmessage X { int32 service = 1; }\n", "", "// service of nothing\nsyntax = \"proto3\";\nenum E { Z = 0; }", "/* no end"}
	n := rt.Choice("others", 3)
	for i := 0; i < n; i++ {
		ps["/x/"+string([]byte{byte('a' + i)})+".proto"] = others[rt.Choice("other"+string([]byte{byte('0' + i)}), len(others))]
	}
	rt.MapOrder(true)
	sd, err := svcdef.New(files(d.onefile()), files(ps))
	rt.MapOrder(false)
	rt.Assert(err == nil, "a valid definition is refused")
	check(sd, d)
	ms := sd.Service.Methods
	rt.Assert(len(ms[0].Bindings) == 1 && len(ms[1].Bindings) == 0, "bindings are lost or duplicated")
	b := ms[0].Bindings[0]
	rt.Assert(b.Verb == "get" && b.Path == "/v/{a}" && len(b.Params) == 1 && b.Params[0].Location == "path", "a binding differs")
	rt.Reach("checked")
}
