// Code generated by protoc-gen-go. DO NOT EDIT.

package pb

import (
	timestamppb "google.golang.org/protobuf/types/known/timestamppb"
	wrapperspb "google.golang.org/protobuf/types/known/wrapperspb"
)

type Color int32

const (
	Color_RED   Color = 0
	Color_GREEN Color = 1
	Color_DARK  Color = -5
)

// Enum value maps for Color.
var (
	Color_name = map[int32]string{
		0:  "RED",
		1:  "GREEN",
		-5: "DARK",
	}
	Color_value = map[string]int32{
		"RED":   0,
		"GREEN": 1,
		"DARK":  -5,
	}
)

func (x Color) Enum() *Color {
	p := new(Color)
	*p = x
	return p
}

type Outer_Kind int32

const (
	Outer_A Outer_Kind = 0
	Outer_B Outer_Kind = 2
)

// Enum value maps for Outer_Kind.
var (
	Outer_Kind_name = map[int32]string{
		0: "A",
		2: "B",
	}
	Outer_Kind_value = map[string]int32{
		"A": 0,
		"B": 2,
	}
)

func (x Outer_Kind) Enum() *Outer_Kind {
	p := new(Outer_Kind)
	*p = x
	return p
}

type I32Req struct {
	P int32   `protobuf:"varint,1,opt,name=p,proto3" json:"p,omitempty"`
	Q int32   `protobuf:"varint,2,opt,name=q,proto3" json:"q,omitempty"`
	O *int32  `protobuf:"varint,3,opt,name=o,proto3,oneof" json:"o,omitempty"`
	R []int32 `protobuf:"varint,4,rep,packed,name=r,proto3" json:"r,omitempty"`
}

func (x *I32Req) Reset() {
	*x = I32Req{}
}

func (*I32Req) ProtoMessage() {}

func (x *I32Req) GetP() int32 {
	if x != nil {
		return x.P
	}
	return 0
}

func (x *I32Req) GetQ() int32 {
	if x != nil {
		return x.Q
	}
	return 0
}

func (x *I32Req) GetO() int32 {
	if x != nil && x.O != nil {
		return *x.O
	}
	return 0
}

func (x *I32Req) GetR() []int32 {
	if x != nil {
		return x.R
	}
	return nil
}

type I64Req struct {
	P int64   `protobuf:"varint,1,opt,name=p,proto3" json:"p,omitempty"`
	Q int64   `protobuf:"varint,2,opt,name=q,proto3" json:"q,omitempty"`
	O *int64  `protobuf:"varint,3,opt,name=o,proto3,oneof" json:"o,omitempty"`
	R []int64 `protobuf:"varint,4,rep,packed,name=r,proto3" json:"r,omitempty"`
}

func (x *I64Req) Reset() {
	*x = I64Req{}
}

func (*I64Req) ProtoMessage() {}

func (x *I64Req) GetP() int64 {
	if x != nil {
		return x.P
	}
	return 0
}

func (x *I64Req) GetQ() int64 {
	if x != nil {
		return x.Q
	}
	return 0
}

func (x *I64Req) GetO() int64 {
	if x != nil && x.O != nil {
		return *x.O
	}
	return 0
}

func (x *I64Req) GetR() []int64 {
	if x != nil {
		return x.R
	}
	return nil
}

type U32Req struct {
	P uint32   `protobuf:"varint,1,opt,name=p,proto3" json:"p,omitempty"`
	Q uint32   `protobuf:"varint,2,opt,name=q,proto3" json:"q,omitempty"`
	O *uint32  `protobuf:"varint,3,opt,name=o,proto3,oneof" json:"o,omitempty"`
	R []uint32 `protobuf:"varint,4,rep,packed,name=r,proto3" json:"r,omitempty"`
}

func (x *U32Req) Reset() {
	*x = U32Req{}
}

func (*U32Req) ProtoMessage() {}

func (x *U32Req) GetP() uint32 {
	if x != nil {
		return x.P
	}
	return 0
}

func (x *U32Req) GetQ() uint32 {
	if x != nil {
		return x.Q
	}
	return 0
}

func (x *U32Req) GetO() uint32 {
	if x != nil && x.O != nil {
		return *x.O
	}
	return 0
}

func (x *U32Req) GetR() []uint32 {
	if x != nil {
		return x.R
	}
	return nil
}

type U64Req struct {
	P uint64   `protobuf:"varint,1,opt,name=p,proto3" json:"p,omitempty"`
	Q uint64   `protobuf:"varint,2,opt,name=q,proto3" json:"q,omitempty"`
	O *uint64  `protobuf:"varint,3,opt,name=o,proto3,oneof" json:"o,omitempty"`
	R []uint64 `protobuf:"varint,4,rep,packed,name=r,proto3" json:"r,omitempty"`
}

func (x *U64Req) Reset() {
	*x = U64Req{}
}

func (*U64Req) ProtoMessage() {}

func (x *U64Req) GetP() uint64 {
	if x != nil {
		return x.P
	}
	return 0
}

func (x *U64Req) GetQ() uint64 {
	if x != nil {
		return x.Q
	}
	return 0
}

func (x *U64Req) GetO() uint64 {
	if x != nil && x.O != nil {
		return *x.O
	}
	return 0
}

func (x *U64Req) GetR() []uint64 {
	if x != nil {
		return x.R
	}
	return nil
}

type FlagReq struct {
	P bool   `protobuf:"varint,1,opt,name=p,proto3" json:"p,omitempty"`
	Q bool   `protobuf:"varint,2,opt,name=q,proto3" json:"q,omitempty"`
	O *bool  `protobuf:"varint,3,opt,name=o,proto3,oneof" json:"o,omitempty"`
	R []bool `protobuf:"varint,4,rep,packed,name=r,proto3" json:"r,omitempty"`
}

func (x *FlagReq) Reset() {
	*x = FlagReq{}
}

func (*FlagReq) ProtoMessage() {}

func (x *FlagReq) GetP() bool {
	if x != nil {
		return x.P
	}
	return false
}

func (x *FlagReq) GetQ() bool {
	if x != nil {
		return x.Q
	}
	return false
}

func (x *FlagReq) GetO() bool {
	if x != nil && x.O != nil {
		return *x.O
	}
	return false
}

func (x *FlagReq) GetR() []bool {
	if x != nil {
		return x.R
	}
	return nil
}

type F32Req struct {
	P float32   `protobuf:"fixed32,1,opt,name=p,proto3" json:"p,omitempty"`
	Q float32   `protobuf:"fixed32,2,opt,name=q,proto3" json:"q,omitempty"`
	O *float32  `protobuf:"fixed32,3,opt,name=o,proto3,oneof" json:"o,omitempty"`
	R []float32 `protobuf:"fixed32,4,rep,packed,name=r,proto3" json:"r,omitempty"`
}

func (x *F32Req) Reset() {
	*x = F32Req{}
}

func (*F32Req) ProtoMessage() {}

func (x *F32Req) GetP() float32 {
	if x != nil {
		return x.P
	}
	return 0
}

func (x *F32Req) GetQ() float32 {
	if x != nil {
		return x.Q
	}
	return 0
}

func (x *F32Req) GetO() float32 {
	if x != nil && x.O != nil {
		return *x.O
	}
	return 0
}

func (x *F32Req) GetR() []float32 {
	if x != nil {
		return x.R
	}
	return nil
}

type F64Req struct {
	P float64   `protobuf:"fixed64,1,opt,name=p,proto3" json:"p,omitempty"`
	Q float64   `protobuf:"fixed64,2,opt,name=q,proto3" json:"q,omitempty"`
	O *float64  `protobuf:"fixed64,3,opt,name=o,proto3,oneof" json:"o,omitempty"`
	R []float64 `protobuf:"fixed64,4,rep,packed,name=r,proto3" json:"r,omitempty"`
}

func (x *F64Req) Reset() {
	*x = F64Req{}
}

func (*F64Req) ProtoMessage() {}

func (x *F64Req) GetP() float64 {
	if x != nil {
		return x.P
	}
	return 0
}

func (x *F64Req) GetQ() float64 {
	if x != nil {
		return x.Q
	}
	return 0
}

func (x *F64Req) GetO() float64 {
	if x != nil && x.O != nil {
		return *x.O
	}
	return 0
}

func (x *F64Req) GetR() []float64 {
	if x != nil {
		return x.R
	}
	return nil
}

type StrReq struct {
	P string   `protobuf:"bytes,1,opt,name=p,proto3" json:"p,omitempty"`
	Q string   `protobuf:"bytes,2,opt,name=q,proto3" json:"q,omitempty"`
	O *string  `protobuf:"bytes,3,opt,name=o,proto3,oneof" json:"o,omitempty"`
	R []string `protobuf:"bytes,4,rep,name=r,proto3" json:"r,omitempty"`
}

func (x *StrReq) Reset() {
	*x = StrReq{}
}

func (*StrReq) ProtoMessage() {}

func (x *StrReq) GetP() string {
	if x != nil {
		return x.P
	}
	return ""
}

func (x *StrReq) GetQ() string {
	if x != nil {
		return x.Q
	}
	return ""
}

func (x *StrReq) GetO() string {
	if x != nil && x.O != nil {
		return *x.O
	}
	return ""
}

func (x *StrReq) GetR() []string {
	if x != nil {
		return x.R
	}
	return nil
}

type ToneReq struct {
	P Color   `protobuf:"varint,1,opt,name=p,proto3,enum=api.Color" json:"p,omitempty"`
	Q Color   `protobuf:"varint,2,opt,name=q,proto3,enum=api.Color" json:"q,omitempty"`
	O *Color  `protobuf:"varint,3,opt,name=o,proto3,enum=api.Color,oneof" json:"o,omitempty"`
	R []Color `protobuf:"varint,4,rep,packed,name=r,proto3,enum=api.Color" json:"r,omitempty"`
}

func (x *ToneReq) Reset() {
	*x = ToneReq{}
}

func (*ToneReq) ProtoMessage() {}

func (x *ToneReq) GetP() Color {
	if x != nil {
		return x.P
	}
	return Color_RED
}

func (x *ToneReq) GetQ() Color {
	if x != nil {
		return x.Q
	}
	return Color_RED
}

func (x *ToneReq) GetO() Color {
	if x != nil && x.O != nil {
		return *x.O
	}
	return Color_RED
}

func (x *ToneReq) GetR() []Color {
	if x != nil {
		return x.R
	}
	return nil
}

type AltReq struct {
	// Types that are assignable to Alt:
	//	*AltReq_Num
	//	*AltReq_BigNum
	//	*AltReq_Txt
	//	*AltReq_Flag
	//	*AltReq_Tone
	//	*AltReq_Blob
	//	*AltReq_Sub
	Alt  isAltReq_Alt `protobuf_oneof:"alt"`
	Name string       `protobuf:"bytes,8,opt,name=name,proto3" json:"name,omitempty"`
}

func (x *AltReq) Reset() {
	*x = AltReq{}
}

func (*AltReq) ProtoMessage() {}

func (m *AltReq) GetAlt() isAltReq_Alt {
	if m != nil {
		return m.Alt
	}
	return nil
}

func (x *AltReq) GetNum() int32 {
	if x, ok := x.GetAlt().(*AltReq_Num); ok {
		return x.Num
	}
	return 0
}

func (x *AltReq) GetBigNum() uint64 {
	if x, ok := x.GetAlt().(*AltReq_BigNum); ok {
		return x.BigNum
	}
	return 0
}

func (x *AltReq) GetTxt() string {
	if x, ok := x.GetAlt().(*AltReq_Txt); ok {
		return x.Txt
	}
	return ""
}

func (x *AltReq) GetFlag() bool {
	if x, ok := x.GetAlt().(*AltReq_Flag); ok {
		return x.Flag
	}
	return false
}

func (x *AltReq) GetTone() Color {
	if x, ok := x.GetAlt().(*AltReq_Tone); ok {
		return x.Tone
	}
	return Color_RED
}

func (x *AltReq) GetBlob() []byte {
	if x, ok := x.GetAlt().(*AltReq_Blob); ok {
		return x.Blob
	}
	return nil
}

func (x *AltReq) GetSub() *Sub {
	if x, ok := x.GetAlt().(*AltReq_Sub); ok {
		return x.Sub
	}
	return nil
}

func (x *AltReq) GetName() string {
	if x != nil {
		return x.Name
	}
	return ""
}

type isAltReq_Alt interface {
	isAltReq_Alt()
}

type AltReq_Num struct {
	Num int32 `protobuf:"varint,1,opt,name=num,proto3,oneof"`
}

type AltReq_BigNum struct {
	BigNum uint64 `protobuf:"varint,2,opt,name=big_num,json=bigNum,proto3,oneof"`
}

type AltReq_Txt struct {
	Txt string `protobuf:"bytes,3,opt,name=txt,proto3,oneof"`
}

type AltReq_Flag struct {
	Flag bool `protobuf:"varint,4,opt,name=flag,proto3,oneof"`
}

type AltReq_Tone struct {
	Tone Color `protobuf:"varint,5,opt,name=tone,proto3,enum=api.Color,oneof"`
}

type AltReq_Blob struct {
	Blob []byte `protobuf:"bytes,6,opt,name=blob,proto3,oneof"`
}

type AltReq_Sub struct {
	Sub *Sub `protobuf:"bytes,7,opt,name=sub,proto3,oneof"`
}

func (*AltReq_Num) isAltReq_Alt() {}

func (*AltReq_BigNum) isAltReq_Alt() {}

func (*AltReq_Txt) isAltReq_Alt() {}

func (*AltReq_Flag) isAltReq_Alt() {}

func (*AltReq_Tone) isAltReq_Alt() {}

func (*AltReq_Blob) isAltReq_Alt() {}

func (*AltReq_Sub) isAltReq_Alt() {}

type Sub struct {
	Text string `protobuf:"bytes,1,opt,name=text,proto3" json:"text,omitempty"`
	Num  int32  `protobuf:"varint,2,opt,name=num,proto3" json:"num,omitempty"`
}

func (x *Sub) Reset() {
	*x = Sub{}
}

func (*Sub) ProtoMessage() {}

func (x *Sub) GetText() string {
	if x != nil {
		return x.Text
	}
	return ""
}

func (x *Sub) GetNum() int32 {
	if x != nil {
		return x.Num
	}
	return 0
}

type BodyReq struct {
	Id    string   `protobuf:"bytes,1,opt,name=id,proto3" json:"id,omitempty"`
	Count int32    `protobuf:"varint,2,opt,name=count,proto3" json:"count,omitempty"`
	Tags  []string `protobuf:"bytes,3,rep,name=tags,proto3" json:"tags,omitempty"`
	Tone  Color    `protobuf:"varint,4,opt,name=tone,proto3,enum=api.Color" json:"tone,omitempty"`
	Sub   *Sub     `protobuf:"bytes,5,opt,name=sub,proto3" json:"sub,omitempty"`
}

func (x *BodyReq) Reset() {
	*x = BodyReq{}
}

func (*BodyReq) ProtoMessage() {}

func (x *BodyReq) GetId() string {
	if x != nil {
		return x.Id
	}
	return ""
}

func (x *BodyReq) GetCount() int32 {
	if x != nil {
		return x.Count
	}
	return 0
}

func (x *BodyReq) GetTags() []string {
	if x != nil {
		return x.Tags
	}
	return nil
}

func (x *BodyReq) GetTone() Color {
	if x != nil {
		return x.Tone
	}
	return Color_RED
}

func (x *BodyReq) GetSub() *Sub {
	if x != nil {
		return x.Sub
	}
	return nil
}

type PartReq struct {
	UserId   int64    `protobuf:"varint,1,opt,name=user_id,json=userId,proto3" json:"user_id,omitempty"`
	Sub      *Sub     `protobuf:"bytes,2,opt,name=sub,proto3" json:"sub,omitempty"`
	PageSize uint32   `protobuf:"varint,3,opt,name=page_size,json=pageSize,proto3" json:"page_size,omitempty"`
	Marks    []string `protobuf:"bytes,4,rep,name=marks,proto3" json:"marks,omitempty"`
}

func (x *PartReq) Reset() {
	*x = PartReq{}
}

func (*PartReq) ProtoMessage() {}

func (x *PartReq) GetUserId() int64 {
	if x != nil {
		return x.UserId
	}
	return 0
}

func (x *PartReq) GetSub() *Sub {
	if x != nil {
		return x.Sub
	}
	return nil
}

func (x *PartReq) GetPageSize() uint32 {
	if x != nil {
		return x.PageSize
	}
	return 0
}

func (x *PartReq) GetMarks() []string {
	if x != nil {
		return x.Marks
	}
	return nil
}

type ManyReq struct {
	A        string `protobuf:"bytes,1,opt,name=a,proto3" json:"a,omitempty"`
	B        int32  `protobuf:"varint,2,opt,name=b,proto3" json:"b,omitempty"`
	OrigName string `protobuf:"bytes,3,opt,name=orig_name,json=origName,proto3" json:"orig_name,omitempty"`
	Type     string `protobuf:"bytes,4,opt,name=type,proto3" json:"type,omitempty"`
}

func (x *ManyReq) Reset() {
	*x = ManyReq{}
}

func (*ManyReq) ProtoMessage() {}

func (x *ManyReq) GetA() string {
	if x != nil {
		return x.A
	}
	return ""
}

func (x *ManyReq) GetB() int32 {
	if x != nil {
		return x.B
	}
	return 0
}

func (x *ManyReq) GetOrigName() string {
	if x != nil {
		return x.OrigName
	}
	return ""
}

func (x *ManyReq) GetType() string {
	if x != nil {
		return x.Type
	}
	return ""
}

type NextReq struct {
	Id   string `protobuf:"bytes,1,opt,name=id,proto3" json:"id,omitempty"`
	Num  int32  `protobuf:"varint,2,opt,name=num,proto3" json:"num,omitempty"`
	Step string `protobuf:"bytes,3,opt,name=step,proto3" json:"step,omitempty"`
}

func (x *NextReq) Reset() {
	*x = NextReq{}
}

func (*NextReq) ProtoMessage() {}

func (x *NextReq) GetId() string {
	if x != nil {
		return x.Id
	}
	return ""
}

func (x *NextReq) GetNum() int32 {
	if x != nil {
		return x.Num
	}
	return 0
}

func (x *NextReq) GetStep() string {
	if x != nil {
		return x.Step
	}
	return ""
}

type Node struct {
	Sub  *Sub    `protobuf:"bytes,1,opt,name=sub,proto3" json:"sub,omitempty"`
	Nums []int64 `protobuf:"varint,2,rep,packed,name=nums,proto3" json:"nums,omitempty"`
	Tone Color   `protobuf:"varint,3,opt,name=tone,proto3,enum=api.Color" json:"tone,omitempty"`
	Blob []byte  `protobuf:"bytes,4,opt,name=blob,proto3" json:"blob,omitempty"`
	More []*Node `protobuf:"bytes,5,rep,name=more,proto3" json:"more,omitempty"`
}

func (x *Node) Reset() {
	*x = Node{}
}

func (*Node) ProtoMessage() {}

func (x *Node) GetSub() *Sub {
	if x != nil {
		return x.Sub
	}
	return nil
}

func (x *Node) GetNums() []int64 {
	if x != nil {
		return x.Nums
	}
	return nil
}

func (x *Node) GetTone() Color {
	if x != nil {
		return x.Tone
	}
	return Color_RED
}

func (x *Node) GetBlob() []byte {
	if x != nil {
		return x.Blob
	}
	return nil
}

func (x *Node) GetMore() []*Node {
	if x != nil {
		return x.More
	}
	return nil
}

type DeepReq struct {
	Name  string                  `protobuf:"bytes,1,opt,name=name,proto3" json:"name,omitempty"`
	Sub   *Sub                    `protobuf:"bytes,2,opt,name=sub,proto3" json:"sub,omitempty"`
	Node  *Node                   `protobuf:"bytes,3,opt,name=node,proto3" json:"node,omitempty"`
	Subs  []*Sub                  `protobuf:"bytes,4,rep,name=subs,proto3" json:"subs,omitempty"`
	Blob  []byte                  `protobuf:"bytes,5,opt,name=blob,proto3" json:"blob,omitempty"`
	Blobs [][]byte                `protobuf:"bytes,6,rep,name=blobs,proto3" json:"blobs,omitempty"`
	Label *wrapperspb.StringValue `protobuf:"bytes,7,opt,name=label,proto3" json:"label,omitempty"`
	Count *wrapperspb.Int64Value  `protobuf:"bytes,8,opt,name=count,proto3" json:"count,omitempty"`
	At    *timestamppb.Timestamp  `protobuf:"bytes,9,opt,name=at,proto3" json:"at,omitempty"`
}

func (x *DeepReq) Reset() {
	*x = DeepReq{}
}

func (*DeepReq) ProtoMessage() {}

func (x *DeepReq) GetName() string {
	if x != nil {
		return x.Name
	}
	return ""
}

func (x *DeepReq) GetSub() *Sub {
	if x != nil {
		return x.Sub
	}
	return nil
}

func (x *DeepReq) GetNode() *Node {
	if x != nil {
		return x.Node
	}
	return nil
}

func (x *DeepReq) GetSubs() []*Sub {
	if x != nil {
		return x.Subs
	}
	return nil
}

func (x *DeepReq) GetBlob() []byte {
	if x != nil {
		return x.Blob
	}
	return nil
}

func (x *DeepReq) GetBlobs() [][]byte {
	if x != nil {
		return x.Blobs
	}
	return nil
}

func (x *DeepReq) GetLabel() *wrapperspb.StringValue {
	if x != nil {
		return x.Label
	}
	return nil
}

func (x *DeepReq) GetCount() *wrapperspb.Int64Value {
	if x != nil {
		return x.Count
	}
	return nil
}

func (x *DeepReq) GetAt() *timestamppb.Timestamp {
	if x != nil {
		return x.At
	}
	return nil
}

type OptReq struct {
	S *string  `protobuf:"bytes,1,opt,name=s,proto3,oneof" json:"s,omitempty"`
	N *int32   `protobuf:"varint,2,opt,name=n,proto3,oneof" json:"n,omitempty"`
	C *Color   `protobuf:"varint,3,opt,name=c,proto3,enum=api.Color,oneof" json:"c,omitempty"`
	F *bool    `protobuf:"varint,4,opt,name=f,proto3,oneof" json:"f,omitempty"`
	U *uint64  `protobuf:"varint,5,opt,name=u,proto3,oneof" json:"u,omitempty"`
	D *float64 `protobuf:"fixed64,6,opt,name=d,proto3,oneof" json:"d,omitempty"`
	Y []byte   `protobuf:"bytes,7,opt,name=y,proto3,oneof" json:"y,omitempty"`
}

func (x *OptReq) Reset() {
	*x = OptReq{}
}

func (*OptReq) ProtoMessage() {}

func (x *OptReq) GetS() string {
	if x != nil && x.S != nil {
		return *x.S
	}
	return ""
}

func (x *OptReq) GetN() int32 {
	if x != nil && x.N != nil {
		return *x.N
	}
	return 0
}

func (x *OptReq) GetC() Color {
	if x != nil && x.C != nil {
		return *x.C
	}
	return Color_RED
}

func (x *OptReq) GetF() bool {
	if x != nil && x.F != nil {
		return *x.F
	}
	return false
}

func (x *OptReq) GetU() uint64 {
	if x != nil && x.U != nil {
		return *x.U
	}
	return 0
}

func (x *OptReq) GetD() float64 {
	if x != nil && x.D != nil {
		return *x.D
	}
	return 0
}

func (x *OptReq) GetY() []byte {
	if x != nil && x.Y != nil {
		return x.Y
	}
	return nil
}

type OddReq struct {
	// Types that are assignable to First:
	//	*OddReq_A
	//	*OddReq_B
	First  isOddReq_First `protobuf_oneof:"first"`
	Reset_ string         `protobuf:"bytes,3,opt,name=reset,proto3" json:"reset,omitempty"`
	XLead  int32          `protobuf:"varint,4,opt,name=_lead,json=Lead,proto3" json:"_lead,omitempty"`
	// Types that are assignable to Second:
	//	*OddReq_D
	//	*OddReq_Kind
	//	*OddReq_At
	//	*OddReq_G
	Second    isOddReq_Second          `protobuf_oneof:"second"`
	String_   *Outer_Inner             `protobuf:"bytes,9,opt,name=string,proto3" json:"string,omitempty"`
	Kinds     []Outer_Kind             `protobuf:"varint,10,rep,packed,name=kinds,proto3,enum=api.Outer_Kind" json:"kinds,omitempty"`
	Inners    []*Outer_Inner           `protobuf:"bytes,11,rep,name=inners,proto3" json:"inners,omitempty"`
	CamelCase string                   `protobuf:"bytes,12,opt,name=camelCase,proto3" json:"camelCase,omitempty"`
	Counts    map[string]int32         `protobuf:"bytes,13,rep,name=counts,proto3" json:"counts,omitempty" protobuf_key:"bytes,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3"`
	Times_2   []*timestamppb.Timestamp `protobuf:"bytes,14,rep,name=times_2,json=times2,proto3" json:"times_2,omitempty"`
}

func (x *OddReq) Reset() {
	*x = OddReq{}
}

func (*OddReq) ProtoMessage() {}

func (m *OddReq) GetFirst() isOddReq_First {
	if m != nil {
		return m.First
	}
	return nil
}

func (m *OddReq) GetSecond() isOddReq_Second {
	if m != nil {
		return m.Second
	}
	return nil
}

func (x *OddReq) GetA() int64 {
	if x, ok := x.GetFirst().(*OddReq_A); ok {
		return x.A
	}
	return 0
}

func (x *OddReq) GetB() float64 {
	if x, ok := x.GetFirst().(*OddReq_B); ok {
		return x.B
	}
	return 0
}

func (x *OddReq) GetReset_() string {
	if x != nil {
		return x.Reset_
	}
	return ""
}

func (x *OddReq) GetXLead() int32 {
	if x != nil {
		return x.XLead
	}
	return 0
}

func (x *OddReq) GetD() uint32 {
	if x, ok := x.GetSecond().(*OddReq_D); ok {
		return x.D
	}
	return 0
}

func (x *OddReq) GetKind() Outer_Kind {
	if x, ok := x.GetSecond().(*OddReq_Kind); ok {
		return x.Kind
	}
	return Outer_A
}

func (x *OddReq) GetAt() *timestamppb.Timestamp {
	if x, ok := x.GetSecond().(*OddReq_At); ok {
		return x.At
	}
	return nil
}

func (x *OddReq) GetG() float32 {
	if x, ok := x.GetSecond().(*OddReq_G); ok {
		return x.G
	}
	return 0
}

func (x *OddReq) GetString_() *Outer_Inner {
	if x != nil {
		return x.String_
	}
	return nil
}

func (x *OddReq) GetKinds() []Outer_Kind {
	if x != nil {
		return x.Kinds
	}
	return nil
}

func (x *OddReq) GetInners() []*Outer_Inner {
	if x != nil {
		return x.Inners
	}
	return nil
}

func (x *OddReq) GetCamelCase() string {
	if x != nil {
		return x.CamelCase
	}
	return ""
}

func (x *OddReq) GetCounts() map[string]int32 {
	if x != nil {
		return x.Counts
	}
	return nil
}

func (x *OddReq) GetTimes_2() []*timestamppb.Timestamp {
	if x != nil {
		return x.Times_2
	}
	return nil
}

type isOddReq_First interface {
	isOddReq_First()
}

type OddReq_A struct {
	A int64 `protobuf:"varint,1,opt,name=a,proto3,oneof"`
}

type OddReq_B struct {
	B float64 `protobuf:"fixed64,2,opt,name=b,proto3,oneof"`
}

func (*OddReq_A) isOddReq_First() {}

func (*OddReq_B) isOddReq_First() {}

type isOddReq_Second interface {
	isOddReq_Second()
}

type OddReq_D struct {
	D uint32 `protobuf:"varint,5,opt,name=d,proto3,oneof"`
}

type OddReq_Kind struct {
	Kind Outer_Kind `protobuf:"varint,6,opt,name=kind,proto3,enum=api.Outer_Kind,oneof"`
}

type OddReq_At struct {
	At *timestamppb.Timestamp `protobuf:"bytes,7,opt,name=at,proto3,oneof"`
}

type OddReq_G struct {
	G float32 `protobuf:"fixed32,8,opt,name=g,proto3,oneof"`
}

func (*OddReq_D) isOddReq_Second() {}

func (*OddReq_Kind) isOddReq_Second() {}

func (*OddReq_At) isOddReq_Second() {}

func (*OddReq_G) isOddReq_Second() {}

type Outer struct {
	Inner *Outer_Inner `protobuf:"bytes,1,opt,name=inner,proto3" json:"inner,omitempty"`
}

func (x *Outer) Reset() {
	*x = Outer{}
}

func (*Outer) ProtoMessage() {}

func (x *Outer) GetInner() *Outer_Inner {
	if x != nil {
		return x.Inner
	}
	return nil
}

type LowReq struct {
	Num int32 `protobuf:"varint,1,opt,name=num,proto3" json:"num,omitempty"`
}

func (x *LowReq) Reset() {
	*x = LowReq{}
}

func (*LowReq) ProtoMessage() {}

func (x *LowReq) GetNum() int32 {
	if x != nil {
		return x.Num
	}
	return 0
}

type Res struct {
	Text string `protobuf:"bytes,1,opt,name=text,proto3" json:"text,omitempty"`
	Num  int64  `protobuf:"varint,2,opt,name=num,proto3" json:"num,omitempty"`
}

func (x *Res) Reset() {
	*x = Res{}
}

func (*Res) ProtoMessage() {}

func (x *Res) GetText() string {
	if x != nil {
		return x.Text
	}
	return ""
}

func (x *Res) GetNum() int64 {
	if x != nil {
		return x.Num
	}
	return 0
}

type Outer_Inner struct {
	Text string `protobuf:"bytes,1,opt,name=text,proto3" json:"text,omitempty"`
	Num  int32  `protobuf:"varint,2,opt,name=num,proto3" json:"num,omitempty"`
}

func (x *Outer_Inner) Reset() {
	*x = Outer_Inner{}
}

func (*Outer_Inner) ProtoMessage() {}

func (x *Outer_Inner) GetText() string {
	if x != nil {
		return x.Text
	}
	return ""
}

func (x *Outer_Inner) GetNum() int32 {
	if x != nil {
		return x.Num
	}
	return 0
}
