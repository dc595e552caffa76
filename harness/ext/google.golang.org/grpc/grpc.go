// Package grpc stands in for grpc: a connection is a function called with the
// full method name, the metadata and the request.
package grpc

import (
	"context"
	"net"

	"github.com/teamlint/baron/internal/zzverif/ext/std/world"
	"github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/grpc/metadata"
)

// ClientConn is a connection.
type ClientConn struct {
	Call func(ctx context.Context, method string, md metadata.MD, request interface{}) (interface{}, error)
}

// ServiceDesc describes a service.
type ServiceDesc struct {
	ServiceName string
	HandlerType interface{}
	Metadata    interface{}
}

// ServiceRegistrar registers services.
type ServiceRegistrar interface {
	RegisterService(desc *ServiceDesc, impl interface{})
}

// ServerOption configures a server.
type ServerOption interface{}

// Server is a server.
type Server struct {
	Names []string
	Impls []interface{}
}

// NewServer makes a server.
func NewServer(opt ...ServerOption) *Server { return &Server{} }

// RegisterService registers a service.
func (s *Server) RegisterService(desc *ServiceDesc, impl interface{}) {
	s.Names, s.Impls = append(s.Names, desc.ServiceName), append(s.Impls, impl)
}

// Serve serves until it fails.
func (s *Server) Serve(lis net.Listener) error {
	a := lis.(interface{ Where() string }).Where()
	world.Add("grpc", a, s)
	return world.Serve(a)
}

// Stop stops the server.
func (s *Server) Stop() {}

// GracefulStop stops the server.
func (s *Server) GracefulStop() {}

// DialOption configures a connection.
type DialOption interface{}

// WithInsecure makes a connection without encryption.
func WithInsecure() DialOption { return nil }

// WithBlock waits until the connection is up.
func WithBlock() DialOption { return nil }

// Dial connects to a server.
func Dial(target string, opts ...DialOption) (*ClientConn, error) {
	if world.Fails(target, false) {
		return nil, world.ErrFailed
	}
	return &ClientConn{Call: func(ctx context.Context, method string, md metadata.MD, request interface{}) (interface{}, error) {
		return world.Call("grpc", target, method, request)
	}}, nil
}

// DialContext connects to a server.
func DialContext(ctx context.Context, target string, opts ...DialOption) (*ClientConn, error) {
	return Dial(target, opts...)
}

// Close closes the connection.
func (cc *ClientConn) Close() error { return nil }
