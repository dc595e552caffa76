// Package grpc follows go-kit's transport/grpc.
package grpc

import (
	"context"
	"fmt"
	"strings"

	"github.com/teamlint/baron/internal/zzverif/ext/github.com/go-kit/kit/endpoint"
	"github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/grpc"
	"github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/grpc/metadata"
)

type (
	// DecodeRequestFunc extracts a request from a gRPC request.
	DecodeRequestFunc func(context.Context, interface{}) (request interface{}, err error)
	// EncodeRequestFunc encodes a request into a gRPC request.
	EncodeRequestFunc func(context.Context, interface{}) (request interface{}, err error)
	// EncodeResponseFunc encodes a response into a gRPC response.
	EncodeResponseFunc func(context.Context, interface{}) (response interface{}, err error)
	// DecodeResponseFunc extracts a response from a gRPC response.
	DecodeResponseFunc func(context.Context, interface{}) (response interface{}, err error)
	// ServerRequestFunc may take information from the metadata.
	ServerRequestFunc func(context.Context, metadata.MD) context.Context
	// ClientRequestFunc may change the metadata.
	ClientRequestFunc func(context.Context, *metadata.MD) context.Context
	// Handler is called by the service implementor.
	Handler interface {
		ServeGRPC(ctx context.Context, request interface{}) (context.Context, interface{}, error)
	}
)

// Server wraps an endpoint and implements Handler.
type Server struct {
	e      endpoint.Endpoint
	dec    DecodeRequestFunc
	enc    EncodeResponseFunc
	before []ServerRequestFunc
}

// ServerOption sets an optional parameter for servers.
type ServerOption func(*Server)

// NewServer constructs a new server.
func NewServer(e endpoint.Endpoint, dec DecodeRequestFunc, enc EncodeResponseFunc, options ...ServerOption) *Server {
	s := &Server{e: e, dec: dec, enc: enc}
	for _, option := range options {
		option(s)
	}
	return s
}

// ServerBefore functions are executed before decoding.
func ServerBefore(before ...ServerRequestFunc) ServerOption {
	return func(s *Server) { s.before = append(s.before, before...) }
}

type incoming struct{}

// NewIncomingContext attaches received metadata.
func NewIncomingContext(ctx context.Context, md metadata.MD) context.Context {
	return context.WithValue(ctx, incoming{}, md)
}

// ServeGRPC implements Handler.
func (s Server) ServeGRPC(ctx context.Context, req interface{}) (context.Context, interface{}, error) {
	md, ok := ctx.Value(incoming{}).(metadata.MD)
	if !ok {
		md = metadata.MD{}
	}
	for _, f := range s.before {
		ctx = f(ctx, md)
	}
	request, err := s.dec(ctx, req)
	if err != nil {
		return ctx, nil, err
	}
	response, err := s.e(ctx, request)
	if err != nil {
		return ctx, nil, err
	}
	resp, err := s.enc(ctx, response)
	if err != nil {
		return ctx, nil, err
	}
	return ctx, resp, nil
}

// Client wraps a gRPC connection and provides an endpoint.
type Client struct {
	conn   *grpc.ClientConn
	method string
	enc    EncodeRequestFunc
	dec    DecodeResponseFunc
	before []ClientRequestFunc
}

// ClientOption sets an optional parameter for clients.
type ClientOption func(*Client)

// NewClient constructs a usable Client for a single remote endpoint.
func NewClient(cc *grpc.ClientConn, serviceName string, method string, enc EncodeRequestFunc, dec DecodeResponseFunc, grpcReply interface{}, options ...ClientOption) *Client {
	c := &Client{conn: cc, method: fmt.Sprintf("/%s/%s", serviceName, method), enc: enc, dec: dec}
	for _, option := range options {
		option(c)
	}
	return c
}

// ClientBefore functions are applied before the call.
func ClientBefore(before ...ClientRequestFunc) ClientOption {
	return func(c *Client) { c.before = append(c.before, before...) }
}

// Endpoint returns an endpoint that invokes the remote endpoint.
func (c Client) Endpoint() endpoint.Endpoint {
	return func(ctx context.Context, request interface{}) (interface{}, error) {
		req, err := c.enc(ctx, request)
		if err != nil {
			return nil, err
		}
		md := &metadata.MD{}
		for _, f := range c.before {
			ctx = f(ctx, md)
		}
		reply, err := c.conn.Call(ctx, c.method, *md, req)
		if err != nil {
			return nil, err
		}
		return c.dec(ctx, reply)
	}
}

// ServerResponseFunc may change the header and trailer metadata.
type ServerResponseFunc func(ctx context.Context, header *metadata.MD, trailer *metadata.MD) context.Context

// ClientResponseFunc may take information from the header and trailer metadata.
type ClientResponseFunc func(ctx context.Context, header metadata.MD, trailer metadata.MD) context.Context

// ServerAfter functions have no effect here.
func ServerAfter(after ...ServerResponseFunc) ServerOption { return func(*Server) {} }

// ClientAfter functions have no effect here.
func ClientAfter(after ...ClientResponseFunc) ClientOption { return func(*Client) {} }

// SetRequestHeader returns a ClientRequestFunc that sets the metadata.
func SetRequestHeader(key, val string) ClientRequestFunc {
	return func(ctx context.Context, md *metadata.MD) context.Context {
		(*md)[strings.ToLower(key)] = append((*md)[strings.ToLower(key)], val)
		return ctx
	}
}
