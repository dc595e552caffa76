package pb

type AReq struct {
	A string `protobuf:"bytes,1,opt,name=a,proto3" json:"a,omitempty"`
	B int32  `protobuf:"varint,2,opt,name=b,proto3" json:"b,omitempty"`
	C []bool `protobuf:"varint,3,rep,packed,name=c,proto3" json:"c,omitempty"`
}

type ARes struct {
	A string `protobuf:"bytes,1,opt,name=a,proto3" json:"a,omitempty"`
}
