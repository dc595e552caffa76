// Code generated by protoc-gen-go. DO NOT EDIT.

package pb

type Color int32

const (
	Color_RED   Color = 0
	Color_GREEN Color = 1
	Color_DARK  Color = -5
)

// Enum value maps for Color.
var (
	Color_name = map[int32]string{
		0:  "RED",
		1:  "GREEN",
		-5: "DARK",
	}
	Color_value = map[string]int32{
		"RED":   0,
		"GREEN": 1,
		"DARK":  -5,
	}
)

func (x Color) Enum() *Color {
	p := new(Color)
	*p = x
	return p
}

type PingReq struct {
	Name string `protobuf:"bytes,1,opt,name=name,proto3" json:"name,omitempty"`
	Num  int32  `protobuf:"varint,2,opt,name=num,proto3" json:"num,omitempty"`
}

func (x *PingReq) Reset() {
	*x = PingReq{}
}

func (*PingReq) ProtoMessage() {}

func (x *PingReq) GetName() string {
	if x != nil {
		return x.Name
	}
	return ""
}

func (x *PingReq) GetNum() int32 {
	if x != nil {
		return x.Num
	}
	return 0
}

type Res struct {
	Text string `protobuf:"bytes,1,opt,name=text,proto3" json:"text,omitempty"`
	Num  int64  `protobuf:"varint,2,opt,name=num,proto3" json:"num,omitempty"`
}

func (x *Res) Reset() {
	*x = Res{}
}

func (*Res) ProtoMessage() {}

func (x *Res) GetText() string {
	if x != nil {
		return x.Text
	}
	return ""
}

func (x *Res) GetNum() int64 {
	if x != nil {
		return x.Num
	}
	return 0
}
