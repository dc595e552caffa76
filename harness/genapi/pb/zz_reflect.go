// Code written by tools/mkpb.py: what message reflection does in real code.

package pb

import "strconv"
import "github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/protobuf/types/known/timestamppb"
import "github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/protobuf/types/known/wrapperspb"

import "github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/protobuf/proto"

func (x Color) String() string {
	switch x {
	case Color_RED:
		return "RED"
	case Color_GREEN:
		return "GREEN"
	case Color_DARK:
		return "DARK"
	}
	return proto.EnumNumber(int32(x))
}

func (x Outer_Kind) String() string {
	switch x {
	case Outer_A:
		return "A"
	case Outer_B:
		return "B"
	}
	return proto.EnumNumber(int32(x))
}

func (x *I32Req) String() string { return "I32Req" }

func (x *I32Req) VerifNew() proto.Message { return new(I32Req) }

// VerifMerge copies what protojson would carry over.
func (x *I32Req) VerifMerge(from proto.Message) bool {
	y, ok := from.(*I32Req)
	if !ok {
		return false
	}
	x.P = y.P
	x.Q = y.Q
	if y.O != nil {
		v := *y.O
		x.O = &v
	}
	x.R = append(x.R, y.R...)
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *I32Req) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "p":
		n, err := strconv.ParseInt(text, 10, 32)
		if err == nil {
			x.P = int32(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	case "q":
		n, err := strconv.ParseInt(text, 10, 32)
		if err == nil {
			x.Q = int32(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	case "o":
		return true, false
	case "r":
		return true, false
	}
	return false, true
}

func (x *I64Req) String() string { return "I64Req" }

func (x *I64Req) VerifNew() proto.Message { return new(I64Req) }

// VerifMerge copies what protojson would carry over.
func (x *I64Req) VerifMerge(from proto.Message) bool {
	y, ok := from.(*I64Req)
	if !ok {
		return false
	}
	x.P = y.P
	x.Q = y.Q
	if y.O != nil {
		v := *y.O
		x.O = &v
	}
	x.R = append(x.R, y.R...)
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *I64Req) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "p":
		n, err := strconv.ParseInt(text, 10, 64)
		if err == nil {
			x.P = int64(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	case "q":
		n, err := strconv.ParseInt(text, 10, 64)
		if err == nil {
			x.Q = int64(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	case "o":
		return true, false
	case "r":
		return true, false
	}
	return false, true
}

func (x *U32Req) String() string { return "U32Req" }

func (x *U32Req) VerifNew() proto.Message { return new(U32Req) }

// VerifMerge copies what protojson would carry over.
func (x *U32Req) VerifMerge(from proto.Message) bool {
	y, ok := from.(*U32Req)
	if !ok {
		return false
	}
	x.P = y.P
	x.Q = y.Q
	if y.O != nil {
		v := *y.O
		x.O = &v
	}
	x.R = append(x.R, y.R...)
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *U32Req) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "p":
		n, err := strconv.ParseUint(text, 10, 32)
		if err == nil {
			x.P = uint32(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	case "q":
		n, err := strconv.ParseUint(text, 10, 32)
		if err == nil {
			x.Q = uint32(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	case "o":
		return true, false
	case "r":
		return true, false
	}
	return false, true
}

func (x *U64Req) String() string { return "U64Req" }

func (x *U64Req) VerifNew() proto.Message { return new(U64Req) }

// VerifMerge copies what protojson would carry over.
func (x *U64Req) VerifMerge(from proto.Message) bool {
	y, ok := from.(*U64Req)
	if !ok {
		return false
	}
	x.P = y.P
	x.Q = y.Q
	if y.O != nil {
		v := *y.O
		x.O = &v
	}
	x.R = append(x.R, y.R...)
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *U64Req) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "p":
		n, err := strconv.ParseUint(text, 10, 64)
		if err == nil {
			x.P = uint64(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	case "q":
		n, err := strconv.ParseUint(text, 10, 64)
		if err == nil {
			x.Q = uint64(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	case "o":
		return true, false
	case "r":
		return true, false
	}
	return false, true
}

func (x *FlagReq) String() string { return "FlagReq" }

func (x *FlagReq) VerifNew() proto.Message { return new(FlagReq) }

// VerifMerge copies what protojson would carry over.
func (x *FlagReq) VerifMerge(from proto.Message) bool {
	y, ok := from.(*FlagReq)
	if !ok {
		return false
	}
	x.P = y.P
	x.Q = y.Q
	if y.O != nil {
		v := *y.O
		x.O = &v
	}
	x.R = append(x.R, y.R...)
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *FlagReq) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "p":
		if kind == 'b' {
			x.P = text == "true"
		}
		return true, kind == 'b'
	case "q":
		if kind == 'b' {
			x.Q = text == "true"
		}
		return true, kind == 'b'
	case "o":
		return true, false
	case "r":
		return true, false
	}
	return false, true
}

func (x *F32Req) String() string { return "F32Req" }

func (x *F32Req) VerifNew() proto.Message { return new(F32Req) }

// VerifMerge copies what protojson would carry over.
func (x *F32Req) VerifMerge(from proto.Message) bool {
	y, ok := from.(*F32Req)
	if !ok {
		return false
	}
	x.P = y.P
	x.Q = y.Q
	if y.O != nil {
		v := *y.O
		x.O = &v
	}
	x.R = append(x.R, y.R...)
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *F32Req) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "p":
		return true, false
	case "q":
		return true, false
	case "o":
		return true, false
	case "r":
		return true, false
	}
	return false, true
}

func (x *F64Req) String() string { return "F64Req" }

func (x *F64Req) VerifNew() proto.Message { return new(F64Req) }

// VerifMerge copies what protojson would carry over.
func (x *F64Req) VerifMerge(from proto.Message) bool {
	y, ok := from.(*F64Req)
	if !ok {
		return false
	}
	x.P = y.P
	x.Q = y.Q
	if y.O != nil {
		v := *y.O
		x.O = &v
	}
	x.R = append(x.R, y.R...)
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *F64Req) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "p":
		return true, false
	case "q":
		return true, false
	case "o":
		return true, false
	case "r":
		return true, false
	}
	return false, true
}

func (x *StrReq) String() string { return "StrReq" }

func (x *StrReq) VerifNew() proto.Message { return new(StrReq) }

// VerifMerge copies what protojson would carry over.
func (x *StrReq) VerifMerge(from proto.Message) bool {
	y, ok := from.(*StrReq)
	if !ok {
		return false
	}
	x.P = y.P
	x.Q = y.Q
	if y.O != nil {
		v := *y.O
		x.O = &v
	}
	x.R = append(x.R, y.R...)
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *StrReq) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "p":
		if kind == 's' {
			x.P = text
		}
		return true, kind == 's'
	case "q":
		if kind == 's' {
			x.Q = text
		}
		return true, kind == 's'
	case "o":
		return true, false
	case "r":
		return true, false
	}
	return false, true
}

func (x *ToneReq) String() string { return "ToneReq" }

func (x *ToneReq) VerifNew() proto.Message { return new(ToneReq) }

// VerifMerge copies what protojson would carry over.
func (x *ToneReq) VerifMerge(from proto.Message) bool {
	y, ok := from.(*ToneReq)
	if !ok {
		return false
	}
	x.P = y.P
	x.Q = y.Q
	if y.O != nil {
		v := *y.O
		x.O = &v
	}
	x.R = append(x.R, y.R...)
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *ToneReq) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "p":
		return true, false
	case "q":
		return true, false
	case "o":
		return true, false
	case "r":
		return true, false
	}
	return false, true
}

func (x *AltReq) String() string { return "AltReq" }

func (x *AltReq) VerifNew() proto.Message { return new(AltReq) }

// VerifMerge copies what protojson would carry over.
func (x *AltReq) VerifMerge(from proto.Message) bool {
	y, ok := from.(*AltReq)
	if !ok {
		return false
	}
	switch v := y.Alt.(type) {
	case *AltReq_Num:
		x.Alt = &AltReq_Num{v.Num}
	case *AltReq_BigNum:
		x.Alt = &AltReq_BigNum{v.BigNum}
	case *AltReq_Txt:
		x.Alt = &AltReq_Txt{v.Txt}
	case *AltReq_Flag:
		x.Alt = &AltReq_Flag{v.Flag}
	case *AltReq_Tone:
		x.Alt = &AltReq_Tone{v.Tone}
	case *AltReq_Blob:
		x.Alt = &AltReq_Blob{v.Blob}
	case *AltReq_Sub:
		x.Alt = &AltReq_Sub{v.Sub}
	}
	x.Name = y.Name
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *AltReq) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "num":
		return true, false
	case "big_num", "bigNum":
		return true, false
	case "txt":
		return true, false
	case "flag":
		return true, false
	case "tone":
		return true, false
	case "blob":
		return true, false
	case "sub":
		return true, false
	case "name":
		if kind == 's' {
			x.Name = text
		}
		return true, kind == 's'
	}
	return false, true
}

func (x *Sub) String() string { return "Sub" }

func (x *Sub) VerifNew() proto.Message { return new(Sub) }

// VerifMerge copies what protojson would carry over.
func (x *Sub) VerifMerge(from proto.Message) bool {
	y, ok := from.(*Sub)
	if !ok {
		return false
	}
	x.Text = y.Text
	x.Num = y.Num
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *Sub) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "text":
		if kind == 's' {
			x.Text = text
		}
		return true, kind == 's'
	case "num":
		n, err := strconv.ParseInt(text, 10, 32)
		if err == nil {
			x.Num = int32(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	}
	return false, true
}

func (x *BodyReq) String() string { return "BodyReq" }

func (x *BodyReq) VerifNew() proto.Message { return new(BodyReq) }

// VerifMerge copies what protojson would carry over.
func (x *BodyReq) VerifMerge(from proto.Message) bool {
	y, ok := from.(*BodyReq)
	if !ok {
		return false
	}
	x.Id = y.Id
	x.Count = y.Count
	x.Tags = append(x.Tags, y.Tags...)
	x.Tone = y.Tone
	if y.Sub != nil {
		x.Sub = &Sub{}
		x.Sub.VerifMerge(y.Sub)
	}
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *BodyReq) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "id":
		if kind == 's' {
			x.Id = text
		}
		return true, kind == 's'
	case "count":
		n, err := strconv.ParseInt(text, 10, 32)
		if err == nil {
			x.Count = int32(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	case "tags":
		return true, false
	case "tone":
		return true, false
	case "sub":
		return true, false
	}
	return false, true
}

func (x *PartReq) String() string { return "PartReq" }

func (x *PartReq) VerifNew() proto.Message { return new(PartReq) }

// VerifMerge copies what protojson would carry over.
func (x *PartReq) VerifMerge(from proto.Message) bool {
	y, ok := from.(*PartReq)
	if !ok {
		return false
	}
	x.UserId = y.UserId
	if y.Sub != nil {
		x.Sub = &Sub{}
		x.Sub.VerifMerge(y.Sub)
	}
	x.PageSize = y.PageSize
	x.Marks = append(x.Marks, y.Marks...)
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *PartReq) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "user_id", "userId":
		n, err := strconv.ParseInt(text, 10, 64)
		if err == nil {
			x.UserId = int64(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	case "sub":
		return true, false
	case "page_size", "pageSize":
		n, err := strconv.ParseUint(text, 10, 32)
		if err == nil {
			x.PageSize = uint32(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	case "marks":
		return true, false
	}
	return false, true
}

func (x *ManyReq) String() string { return "ManyReq" }

func (x *ManyReq) VerifNew() proto.Message { return new(ManyReq) }

// VerifMerge copies what protojson would carry over.
func (x *ManyReq) VerifMerge(from proto.Message) bool {
	y, ok := from.(*ManyReq)
	if !ok {
		return false
	}
	x.A = y.A
	x.B = y.B
	x.OrigName = y.OrigName
	x.Type = y.Type
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *ManyReq) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "a":
		if kind == 's' {
			x.A = text
		}
		return true, kind == 's'
	case "b":
		n, err := strconv.ParseInt(text, 10, 32)
		if err == nil {
			x.B = int32(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	case "orig_name", "origName":
		if kind == 's' {
			x.OrigName = text
		}
		return true, kind == 's'
	case "type":
		if kind == 's' {
			x.Type = text
		}
		return true, kind == 's'
	}
	return false, true
}

func (x *NextReq) String() string { return "NextReq" }

func (x *NextReq) VerifNew() proto.Message { return new(NextReq) }

// VerifMerge copies what protojson would carry over.
func (x *NextReq) VerifMerge(from proto.Message) bool {
	y, ok := from.(*NextReq)
	if !ok {
		return false
	}
	x.Id = y.Id
	x.Num = y.Num
	x.Step = y.Step
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *NextReq) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "id":
		if kind == 's' {
			x.Id = text
		}
		return true, kind == 's'
	case "num":
		n, err := strconv.ParseInt(text, 10, 32)
		if err == nil {
			x.Num = int32(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	case "step":
		if kind == 's' {
			x.Step = text
		}
		return true, kind == 's'
	}
	return false, true
}

func (x *Node) String() string { return "Node" }

func (x *Node) VerifNew() proto.Message { return new(Node) }

// VerifMerge copies what protojson would carry over.
func (x *Node) VerifMerge(from proto.Message) bool {
	y, ok := from.(*Node)
	if !ok {
		return false
	}
	if y.Sub != nil {
		x.Sub = &Sub{}
		x.Sub.VerifMerge(y.Sub)
	}
	x.Nums = append(x.Nums, y.Nums...)
	x.Tone = y.Tone
	x.Blob = y.Blob
	for _, e := range y.More {
		n := &Node{}
		n.VerifMerge(e)
		x.More = append(x.More, n)
	}
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *Node) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "sub":
		return true, false
	case "nums":
		return true, false
	case "tone":
		return true, false
	case "blob":
		return true, false
	case "more":
		return true, false
	}
	return false, true
}

func (x *DeepReq) String() string { return "DeepReq" }

func (x *DeepReq) VerifNew() proto.Message { return new(DeepReq) }

// VerifMerge copies what protojson would carry over.
func (x *DeepReq) VerifMerge(from proto.Message) bool {
	y, ok := from.(*DeepReq)
	if !ok {
		return false
	}
	x.Name = y.Name
	if y.Sub != nil {
		x.Sub = &Sub{}
		x.Sub.VerifMerge(y.Sub)
	}
	if y.Node != nil {
		x.Node = &Node{}
		x.Node.VerifMerge(y.Node)
	}
	for _, e := range y.Subs {
		n := &Sub{}
		n.VerifMerge(e)
		x.Subs = append(x.Subs, n)
	}
	x.Blob = y.Blob
	x.Blobs = append(x.Blobs, y.Blobs...)
	if y.Label != nil {
		x.Label = &wrapperspb.StringValue{}
		x.Label.VerifMerge(y.Label)
	}
	if y.Count != nil {
		x.Count = &wrapperspb.Int64Value{}
		x.Count.VerifMerge(y.Count)
	}
	if y.At != nil {
		x.At = &timestamppb.Timestamp{}
		x.At.VerifMerge(y.At)
	}
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *DeepReq) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "name":
		if kind == 's' {
			x.Name = text
		}
		return true, kind == 's'
	case "sub":
		return true, false
	case "node":
		return true, false
	case "subs":
		return true, false
	case "blob":
		return true, false
	case "blobs":
		return true, false
	case "label":
		return true, false
	case "count":
		return true, false
	case "at":
		return true, false
	}
	return false, true
}

func (x *OptReq) String() string { return "OptReq" }

func (x *OptReq) VerifNew() proto.Message { return new(OptReq) }

// VerifMerge copies what protojson would carry over.
func (x *OptReq) VerifMerge(from proto.Message) bool {
	y, ok := from.(*OptReq)
	if !ok {
		return false
	}
	if y.S != nil {
		v := *y.S
		x.S = &v
	}
	if y.N != nil {
		v := *y.N
		x.N = &v
	}
	if y.C != nil {
		v := *y.C
		x.C = &v
	}
	if y.F != nil {
		v := *y.F
		x.F = &v
	}
	if y.U != nil {
		v := *y.U
		x.U = &v
	}
	if y.D != nil {
		v := *y.D
		x.D = &v
	}
	if y.Y != nil {
		v := y.Y
		x.Y = v
	}
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *OptReq) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "s":
		return true, false
	case "n":
		return true, false
	case "c":
		return true, false
	case "f":
		return true, false
	case "u":
		return true, false
	case "d":
		return true, false
	case "y":
		return true, false
	}
	return false, true
}

func (x *OddReq) String() string { return "OddReq" }

func (x *OddReq) VerifNew() proto.Message { return new(OddReq) }

// VerifMerge copies what protojson would carry over.
func (x *OddReq) VerifMerge(from proto.Message) bool {
	y, ok := from.(*OddReq)
	if !ok {
		return false
	}
	switch v := y.First.(type) {
	case *OddReq_A:
		x.First = &OddReq_A{v.A}
	case *OddReq_B:
		x.First = &OddReq_B{v.B}
	}
	x.Reset_ = y.Reset_
	x.XLead = y.XLead
	switch v := y.Second.(type) {
	case *OddReq_D:
		x.Second = &OddReq_D{v.D}
	case *OddReq_Kind:
		x.Second = &OddReq_Kind{v.Kind}
	case *OddReq_At:
		x.Second = &OddReq_At{v.At}
	case *OddReq_G:
		x.Second = &OddReq_G{v.G}
	}
	if y.String_ != nil {
		x.String_ = &Outer_Inner{}
		x.String_.VerifMerge(y.String_)
	}
	x.Kinds = append(x.Kinds, y.Kinds...)
	for _, e := range y.Inners {
		n := &Outer_Inner{}
		n.VerifMerge(e)
		x.Inners = append(x.Inners, n)
	}
	x.CamelCase = y.CamelCase
	for k, v := range y.Counts {
		if x.Counts == nil {
			x.Counts = map[string]int32{}
		}
		x.Counts[k] = v
	}
	for _, e := range y.Times_2 {
		n := &timestamppb.Timestamp{}
		n.VerifMerge(e)
		x.Times_2 = append(x.Times_2, n)
	}
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *OddReq) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "a":
		return true, false
	case "b":
		return true, false
	case "reset":
		if kind == 's' {
			x.Reset_ = text
		}
		return true, kind == 's'
	case "_lead", "Lead":
		n, err := strconv.ParseInt(text, 10, 32)
		if err == nil {
			x.XLead = int32(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	case "d":
		return true, false
	case "kind":
		return true, false
	case "at":
		return true, false
	case "g":
		return true, false
	case "string":
		return true, false
	case "kinds":
		return true, false
	case "inners":
		return true, false
	case "camelCase":
		if kind == 's' {
			x.CamelCase = text
		}
		return true, kind == 's'
	case "counts":
		return true, false
	case "times_2", "times2":
		return true, false
	}
	return false, true
}

func (x *Outer) String() string { return "Outer" }

func (x *Outer) VerifNew() proto.Message { return new(Outer) }

// VerifMerge copies what protojson would carry over.
func (x *Outer) VerifMerge(from proto.Message) bool {
	y, ok := from.(*Outer)
	if !ok {
		return false
	}
	if y.Inner != nil {
		x.Inner = &Outer_Inner{}
		x.Inner.VerifMerge(y.Inner)
	}
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *Outer) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "inner":
		return true, false
	}
	return false, true
}

func (x *LowReq) String() string { return "LowReq" }

func (x *LowReq) VerifNew() proto.Message { return new(LowReq) }

// VerifMerge copies what protojson would carry over.
func (x *LowReq) VerifMerge(from proto.Message) bool {
	y, ok := from.(*LowReq)
	if !ok {
		return false
	}
	x.Num = y.Num
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *LowReq) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "num":
		n, err := strconv.ParseInt(text, 10, 32)
		if err == nil {
			x.Num = int32(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	}
	return false, true
}

func (x *Res) String() string { return "Res" }

func (x *Res) VerifNew() proto.Message { return new(Res) }

// VerifMerge copies what protojson would carry over.
func (x *Res) VerifMerge(from proto.Message) bool {
	y, ok := from.(*Res)
	if !ok {
		return false
	}
	x.Text = y.Text
	x.Num = y.Num
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *Res) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "text":
		if kind == 's' {
			x.Text = text
		}
		return true, kind == 's'
	case "num":
		n, err := strconv.ParseInt(text, 10, 64)
		if err == nil {
			x.Num = int64(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	}
	return false, true
}

func (x *Outer_Inner) String() string { return "Outer_Inner" }

func (x *Outer_Inner) VerifNew() proto.Message { return new(Outer_Inner) }

// VerifMerge copies what protojson would carry over.
func (x *Outer_Inner) VerifMerge(from proto.Message) bool {
	y, ok := from.(*Outer_Inner)
	if !ok {
		return false
	}
	x.Text = y.Text
	x.Num = y.Num
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *Outer_Inner) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "text":
		if kind == 's' {
			x.Text = text
		}
		return true, kind == 's'
	case "num":
		n, err := strconv.ParseInt(text, 10, 32)
		if err == nil {
			x.Num = int32(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	}
	return false, true
}
