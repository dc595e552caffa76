// Package wrapperspb stands in for the well-known type package of that name.
package wrapperspb

import "github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/protobuf/proto"

// StringValue is the message of that name.
type StringValue struct {
	Value string `protobuf:"bytes,1,opt,name=value,proto3" json:"value,omitempty"`
}

// VerifMerge copies what protojson would carry over.
func (x *StringValue) VerifMerge(from proto.Message) bool {
	y, ok := from.(*StringValue)
	if !ok {
		return false
	}
	*x = *y
	return true
}

// Reset empties the message.
func (x *StringValue) Reset() { *x = StringValue{} }

// ProtoMessage marks a message.
func (*StringValue) ProtoMessage() {}

// String renders nothing.
func (*StringValue) String() string { return "StringValue" }

// VerifNew gives an empty message.
func (*StringValue) VerifNew() proto.Message { return &StringValue{} }

// VerifSet knows no fields.
func (*StringValue) VerifSet(string, byte, string) (known, ok bool) { return false, true }

// Int64Value is the message of that name.
type Int64Value struct {
	Value int64 `protobuf:"varint,1,opt,name=value,proto3" json:"value,omitempty"`
}

// VerifMerge copies what protojson would carry over.
func (x *Int64Value) VerifMerge(from proto.Message) bool {
	y, ok := from.(*Int64Value)
	if !ok {
		return false
	}
	*x = *y
	return true
}

// Reset empties the message.
func (x *Int64Value) Reset() { *x = Int64Value{} }

// ProtoMessage marks a message.
func (*Int64Value) ProtoMessage() {}

// String renders nothing.
func (*Int64Value) String() string { return "Int64Value" }

// VerifNew gives an empty message.
func (*Int64Value) VerifNew() proto.Message { return &Int64Value{} }

// VerifSet knows no fields.
func (*Int64Value) VerifSet(string, byte, string) (known, ok bool) { return false, true }
