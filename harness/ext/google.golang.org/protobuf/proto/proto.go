// Package proto stands in for the protobuf runtime: messages copy themselves
// instead of being reflected upon.
package proto

import "strconv"

// Message is what the messages of the definition implement.
type Message interface {
	Reset()
	String() string
	ProtoMessage()
	VerifNew() Message
	VerifMerge(from Message) bool
	VerifSet(name string, kind byte, text string) (known, ok bool)
}

// EnumNumber renders an enum value without a name.
func EnumNumber(n int32) string { return strconv.Itoa(int(n)) }

// Bool returns a pointer to v.
func Bool(v bool) *bool { return &v }

// Int32 returns a pointer to v.
func Int32(v int32) *int32 { return &v }

// Int64 returns a pointer to v.
func Int64(v int64) *int64 { return &v }

// Uint32 returns a pointer to v.
func Uint32(v uint32) *uint32 { return &v }

// Uint64 returns a pointer to v.
func Uint64(v uint64) *uint64 { return &v }

// Float32 returns a pointer to v.
func Float32(v float32) *float32 { return &v }

// Float64 returns a pointer to v.
func Float64(v float64) *float64 { return &v }

// String returns a pointer to v.
func String(v string) *string { return &v }
