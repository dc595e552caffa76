// Code generated by protoc-gen-go-grpc. DO NOT EDIT.

package pb

import (
	"context"
	"errors"
)

// ApiServer is the server API for Api service.
// All implementations must embed UnimplementedApiServer
// for forward compatibility
type ApiServer interface {
	I32(context.Context, *I32Req) (*Res, error)
	I64(context.Context, *I64Req) (*Res, error)
	U32(context.Context, *U32Req) (*Res, error)
	U64(context.Context, *U64Req) (*Res, error)
	Flag(context.Context, *FlagReq) (*Res, error)
	F32(context.Context, *F32Req) (*Res, error)
	F64(context.Context, *F64Req) (*Res, error)
	Str(context.Context, *StrReq) (*Res, error)
	Tone(context.Context, *ToneReq) (*Res, error)
	Alt(context.Context, *AltReq) (*Res, error)
	Body(context.Context, *BodyReq) (*Res, error)
	Part(context.Context, *PartReq) (*Res, error)
	Many(context.Context, *ManyReq) (*Res, error)
	StrMany(context.Context, *ManyReq) (*Res, error)
	Next(context.Context, *NextReq) (*Res, error)
	Deep(context.Context, *DeepReq) (*Res, error)
	Opt(context.Context, *OptReq) (*Res, error)
	Odd(context.Context, *OddReq) (*Res, error)
	GetLow(context.Context, *LowReq) (*Res, error)
	mustEmbedUnimplementedApiServer()
}

// UnimplementedApiServer must be embedded to have forward compatible implementations.
type UnimplementedApiServer struct {
}

func (UnimplementedApiServer) I32(context.Context, *I32Req) (*Res, error) {
	return nil, errors.New("method I32 not implemented")
}

func (UnimplementedApiServer) I64(context.Context, *I64Req) (*Res, error) {
	return nil, errors.New("method I64 not implemented")
}

func (UnimplementedApiServer) U32(context.Context, *U32Req) (*Res, error) {
	return nil, errors.New("method U32 not implemented")
}

func (UnimplementedApiServer) U64(context.Context, *U64Req) (*Res, error) {
	return nil, errors.New("method U64 not implemented")
}

func (UnimplementedApiServer) Flag(context.Context, *FlagReq) (*Res, error) {
	return nil, errors.New("method Flag not implemented")
}

func (UnimplementedApiServer) F32(context.Context, *F32Req) (*Res, error) {
	return nil, errors.New("method F32 not implemented")
}

func (UnimplementedApiServer) F64(context.Context, *F64Req) (*Res, error) {
	return nil, errors.New("method F64 not implemented")
}

func (UnimplementedApiServer) Str(context.Context, *StrReq) (*Res, error) {
	return nil, errors.New("method Str not implemented")
}

func (UnimplementedApiServer) Tone(context.Context, *ToneReq) (*Res, error) {
	return nil, errors.New("method Tone not implemented")
}

func (UnimplementedApiServer) Alt(context.Context, *AltReq) (*Res, error) {
	return nil, errors.New("method Alt not implemented")
}

func (UnimplementedApiServer) Body(context.Context, *BodyReq) (*Res, error) {
	return nil, errors.New("method Body not implemented")
}

func (UnimplementedApiServer) Part(context.Context, *PartReq) (*Res, error) {
	return nil, errors.New("method Part not implemented")
}

func (UnimplementedApiServer) Many(context.Context, *ManyReq) (*Res, error) {
	return nil, errors.New("method Many not implemented")
}

func (UnimplementedApiServer) StrMany(context.Context, *ManyReq) (*Res, error) {
	return nil, errors.New("method StrMany not implemented")
}

func (UnimplementedApiServer) Next(context.Context, *NextReq) (*Res, error) {
	return nil, errors.New("method Next not implemented")
}

func (UnimplementedApiServer) Deep(context.Context, *DeepReq) (*Res, error) {
	return nil, errors.New("method Deep not implemented")
}

func (UnimplementedApiServer) Opt(context.Context, *OptReq) (*Res, error) {
	return nil, errors.New("method Opt not implemented")
}

func (UnimplementedApiServer) Odd(context.Context, *OddReq) (*Res, error) {
	return nil, errors.New("method Odd not implemented")
}

func (UnimplementedApiServer) GetLow(context.Context, *LowReq) (*Res, error) {
	return nil, errors.New("method GetLow not implemented")
}

func (UnimplementedApiServer) mustEmbedUnimplementedApiServer() {}
