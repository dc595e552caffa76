// Package timestamppb stands in for the well-known type package of that name.
package timestamppb

import "github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/protobuf/proto"

// Timestamp is the message of that name.
type Timestamp struct {
	Seconds int64 `protobuf:"varint,1,opt,name=seconds,proto3" json:"seconds,omitempty"`
	Nanos int32 `protobuf:"varint,2,opt,name=nanos,proto3" json:"nanos,omitempty"`
}

// VerifMerge copies what protojson would carry over.
func (x *Timestamp) VerifMerge(from proto.Message) bool {
	y, ok := from.(*Timestamp)
	if !ok {
		return false
	}
	*x = *y
	return true
}

// Reset empties the message.
func (x *Timestamp) Reset() { *x = Timestamp{} }

// ProtoMessage marks a message.
func (*Timestamp) ProtoMessage() {}

// String renders nothing.
func (*Timestamp) String() string { return "Timestamp" }

// VerifNew gives an empty message.
func (*Timestamp) VerifNew() proto.Message { return &Timestamp{} }

// VerifSet knows no fields.
func (*Timestamp) VerifSet(string, byte, string) (known, ok bool) { return false, true }
