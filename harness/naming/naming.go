// Package naming compares baron's naming helpers with protoc-gen-go's own.
package naming

import (
	"strings"

	ht "github.com/teamlint/baron/gengokit/httptransport"
	"github.com/teamlint/baron/internal/zzverif/rt"
	"github.com/teamlint/baron/internal/zzverif/rt/strsref"
	"github.com/teamlint/baron/pkg"
)

// Entries lists the harness functions.
var Entries = map[string]func(){
	"CamelCase": CamelCase,
	"JSONNames": JSONNames,
	"EnumNames": EnumNames,
	"Sanitized": Sanitized,
	"Keywords":  Keywords,
	"BaseTypes": BaseTypes,
	"LowCamel":  LowCamel,
	"Long":      Long,
}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
const protoAlpha = letters + "."

// CamelCase: Go names of messages, fields, methods and oneofs.
func CamelCase() {
	s := rt.String("s", 0, rt.Param("len", 6), protoAlpha)
	got := pkg.GoCamelCase(s)
	rt.Observe("go", got)
	rt.Assert(got == strsref.GoCamelCase(s), "GoCamelCase differs from protoc-gen-go")
	rt.Reach("named")
}

// JSONNames: proto JSON names.
func JSONNames() {
	s := rt.String("s", 0, rt.Param("len", 5), letters)
	a, b := pkg.JSONCamelCase(s), pkg.JSONSnakeCase(s)
	rt.Observe("camel", a)
	rt.Observe("snake", b)
	rt.Assert(a == strsref.JSONCamelCase(s), "JSONCamelCase differs from the protobuf rule")
	rt.Assert(b == strsref.JSONSnakeCase(s), "JSONSnakeCase differs from the protobuf rule")
	rt.Reach("named")
}

// EnumNames: map entry names, enum value names and trimmed enum prefixes.
func EnumNames() {
	s := rt.String("s", 0, rt.Param("len", 4), letters)
	rt.Assert(pkg.MapEntryName(s) == strsref.MapEntryName(s), "MapEntryName differs from the protobuf rule")
	rt.Assert(pkg.EnumValueName(s) == strsref.EnumValueName(s), "EnumValueName differs from the protobuf rule")
	p := rt.String("p", 0, rt.Param("prefix", 2), letters)
	got := pkg.TrimEnumPrefix(s, p)
	rt.Observe("trim", got)
	rt.Assert(got == strsref.TrimEnumPrefix(s, p), "TrimEnumPrefix differs from the protobuf rule")
	rt.Reach("named")
}

// Sanitized: any bytes become a valid Go identifier.
func Sanitized() {
	s := rt.String("s", 0, rt.Param("len", 3), "aZ_0-. \x00\x7f\xc3\xa9\xff\xe4\xb8\xad")
	got := pkg.GoSanitized(s)
	rt.Observe("go", got)
	rt.Assert(got == strsref.GoSanitized(s), "GoSanitized differs from the protobuf rule")
	rt.Reach("named")
}

// Keywords: no Go keyword is returned as an identifier.
func Keywords() {
	s := rt.String("s", 0, rt.Param("len", 11), "abcdefghiklmnoprstuvwy")
	got := pkg.GoSanitized(s)
	rt.Observe("go", got)
	rt.Assert(got == strsref.GoSanitized(s), "GoSanitized differs from the protobuf rule")
	rt.Reach("named")
}

// BaseTypes: exactly the protobuf scalar Go types.
func BaseTypes() {
	s := rt.String("s", 0, 9, "uint3264foalbsrg[]*y8")
	want := s == "uint32" || s == "uint64" || s == "int32" || s == "int64" || s == "bool" || s == "float32" || s == "float64" || s == "string"
	got := pkg.IsGoBaseType(s)
	rt.Observe("base", got)
	rt.Assert(got == want, "a Go type is classified wrongly as (not) a base type")
	rt.Reach("named")
}

// LowCamel: the Go name with its first letter lower.
func LowCamel() {
	s := rt.String("s", 0, rt.Param("len", 4), protoAlpha)
	want := []byte(strsref.GoCamelCase(s))
	if len(want) > 0 && 'A' <= want[0] && want[0] <= 'Z' {
		want[0] += 'a' - 'A'
	}
	got := ht.LowCamelName(s)
	rt.Observe("go", got)
	rt.Assert(got == string(want), "LowCamelName is not the Go name with its first letter lower")
	rt.Reach("named")
}

// Long: names of many words and characters.
func Long() {
	n := []int{3, 8, 16, 33, 64, 65, 129, 257}[rt.Choice("n", 8)]
	unit := rt.String("unit", 1, 2, letters)
	s := rt.String("first", 0, 1, letters) + strings.Repeat(unit, n) + rt.String("last", 0, 1, letters)
	switch rt.Choice("what", 5) {
	case 0:
		rt.Assert(pkg.GoCamelCase(s) == strsref.GoCamelCase(s), "GoCamelCase differs from protoc-gen-go")
	case 1:
		rt.Assert(pkg.JSONCamelCase(s) == strsref.JSONCamelCase(s), "JSONCamelCase differs from the protobuf rule")
		rt.Assert(pkg.JSONSnakeCase(s) == strsref.JSONSnakeCase(s), "JSONSnakeCase differs from the protobuf rule")
	case 2:
		rt.Assert(pkg.MapEntryName(s) == strsref.MapEntryName(s), "MapEntryName differs from the protobuf rule")
		rt.Assert(pkg.EnumValueName(s) == strsref.EnumValueName(s), "EnumValueName differs from the protobuf rule")
	case 3:
		p := strings.ToLower(strings.Repeat(unit, rt.Choice("part", 4)))
		rt.Assert(pkg.TrimEnumPrefix(s, p) == strsref.TrimEnumPrefix(s, p), "TrimEnumPrefix differs from the protobuf rule")
	case 4:
		rt.Assert(pkg.GoSanitized(s) == strsref.GoSanitized(s), "GoSanitized differs from the protobuf rule")
		rt.Assert(!pkg.IsGoBaseType(s+unit+"1"), "a Go type is classified wrongly as a base type")
	}
	rt.Reach("named")
}
