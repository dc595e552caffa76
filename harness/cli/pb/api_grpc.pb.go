// Code generated by protoc-gen-go-grpc. DO NOT EDIT.

package pb

import (
	"context"
	"errors"

	"google.golang.org/grpc"
)

// ApiServer is the server API for Api service.
// All implementations must embed UnimplementedApiServer
// for forward compatibility
type ApiServer interface {
	Ping(context.Context, *PingReq) (*Res, error)
	AddNote(context.Context, *NoteReq) (*Note, error)
	Hush(context.Context, *PingReq) (*Res, error)
	Stop(context.Context, *NoteReq) (*Res, error)
	mustEmbedUnimplementedApiServer()
}

// UnimplementedApiServer must be embedded to have forward compatible implementations.
type UnimplementedApiServer struct {
}

func (UnimplementedApiServer) Ping(context.Context, *PingReq) (*Res, error) {
	return nil, errors.New("method Ping not implemented")
}

func (UnimplementedApiServer) AddNote(context.Context, *NoteReq) (*Note, error) {
	return nil, errors.New("method AddNote not implemented")
}

func (UnimplementedApiServer) Hush(context.Context, *PingReq) (*Res, error) {
	return nil, errors.New("method Hush not implemented")
}

func (UnimplementedApiServer) Stop(context.Context, *NoteReq) (*Res, error) {
	return nil, errors.New("method Stop not implemented")
}

func (UnimplementedApiServer) mustEmbedUnimplementedApiServer() {}

// RegisterApiServer registers the implementation.
func RegisterApiServer(s grpc.ServiceRegistrar, srv ApiServer) {
	s.RegisterService(&Api_ServiceDesc, srv)
}

// Api_ServiceDesc is the grpc.ServiceDesc for Api service.
var Api_ServiceDesc = grpc.ServiceDesc{
	ServiceName: "api.Api",
	HandlerType: (*ApiServer)(nil),
	Metadata:    "api.proto",
}
