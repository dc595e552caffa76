// Package httpbind holds the harnesses for HTTP bindings.
package httpbind

import (
	"io"
	"strings"

	"github.com/teamlint/baron/internal/zzverif/rt"
	"github.com/teamlint/baron/internal/zzverif/rt/strsref"
	"github.com/teamlint/baron/svcdef"
)

// Entries lists the harness functions.
var Entries = map[string]func(){
	"Locations":    Locations,
	"Additional":   Additional,
	"Attachment":   Attachment,
	"Imported":     Imported,
	"Many":         Many,
	"Spelled":      Spelled,
	"Sections":     Sections,
	"Params":       Params,
	"ParamsShape":  ParamsShape,
	"SectionsLong": SectionsLong,
	"ParamsLong":   ParamsLong,
	"Labels":       Labels,
	"NewLabels":    NewLabels,
}

type field struct {
	goName, pbName, goType, tag string
}

func tag(pb, rest string) string {
	return "`protobuf:\"" + rest + ",name=" + pb + ",proto3\" json:\"" + pb + ",omitempty\"`"
}

// the request message of the harness, as protoc-gen-go declares it
var reqFields = []field{
	{"A", "a", "string", tag("a", "bytes,1,opt")},
	{"BC", "b_c", "int64", tag("b_c", "varint,2,opt")},
	{"XD", "_d", "bool", tag("_d", "varint,3,opt")},
	{"Reset_", "reset", "string", tag("reset", "bytes,4,opt")},
	{"Dd", "dd", "*Sub", tag("dd", "bytes,5,opt")},
	{"A1", "a1", "Kind", tag("a1", "varint,6,opt")},
	{"Db", "db", "[]int32", tag("db", "varint,7,rep,packed")},
	{"Cb", "cb", "*int32", tag("cb", "varint,8,opt")},
	{"Bd", "bd", "map[string]Kind", tag("bd", "bytes,9,rep")},
	{"AnExtremelyLongFieldNameWhichGoesOnAndOnForMoreThan_64Characters", "an_extremely_long_field_name_which_goes_on_and_on_for_more_than_64_characters", "string", tag("an_extremely_long_field_name_which_goes_on_and_on_for_more_than_64_characters", "bytes,10,opt")},
	{"Ce", "ce", "*Kind", tag("ce", "varint,14,opt")},
	{"DB_2", "DB_2", "uint64", tag("DB_2", "varint,11,opt")},
	{"Choice", "choice", "isReq_Choice", "`protobuf_oneof:\"choice\"`"},
}

func goSource(methods ...string) string {
	s := "package p\n\nimport context \"context\"\n\ntype Kind int32\n\ntype Sub struct {\n\tQ int32 " + tag("q", "varint,1,opt") + "\n}\n\ntype Req struct {\n"
	for _, f := range reqFields {
		s += "\t" + f.goName + " " + f.goType + " " + f.tag + "\n"
	}
	s += "}\n\ntype isReq_Choice interface {\n\tisReq_Choice()\n}\n\ntype Req_Left struct {\n\tLeft string " + strings.Replace(tag("left", "bytes,12,opt"), "proto3", "proto3,oneof", 1) + "\n}\n\ntype Req_Right struct {\n\tRight int32 " + strings.Replace(tag("right", "varint,13,opt"), "proto3", "proto3,oneof", 1) + "\n}\n\nfunc (*Req_Left) isReq_Choice() {}\n\nfunc (*Req_Right) isReq_Choice() {}\n\ntype Res struct {\n\tV int64 " + tag("v", "varint,1,opt") + "\n}\n\ntype SvcServer interface {\n"
	for _, m := range methods {
		s += "\t" + m + "(context.Context, *Req) (*Res, error)\n"
	}
	return s + "\tmustEmbedUnimplementedSvcServer()\n}\n"
}

func extract(goSrc, proto string) (*svcdef.Svcdef, error) {
	return svcdef.New(
		map[string]io.Reader{"/x/p.pb.go": strings.NewReader(goSrc)},
		map[string]io.Reader{"/x/p.proto": strings.NewReader(proto)},
	)
}

func camel(s string) string { return strsref.GoCamelCase(s) }

// param assumes name is a field of the request or resembles none.
func param(name string) string {
	for _, f := range reqFields {
		rt.Assume(f.pbName == name || camel(f.pbName) != camel(name))
	}
	return name
}
