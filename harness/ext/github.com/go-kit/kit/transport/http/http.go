// Package http follows go-kit's transport/http: the same steps in the same
// order, without cancellation, finalizers and logging.
package http

import (
	"context"
	"net/http"
	"net/url"

	"github.com/teamlint/baron/internal/zzverif/ext/github.com/go-kit/kit/endpoint"
)

type (
	// RequestFunc may take information from a request and put it into the context.
	RequestFunc func(context.Context, *http.Request) context.Context
	// ServerResponseFunc may write headers before the response is written.
	ServerResponseFunc func(context.Context, http.ResponseWriter) context.Context
	// ClientResponseFunc may take information from a response.
	ClientResponseFunc func(context.Context, *http.Response) context.Context
	// DecodeRequestFunc extracts a request from an HTTP request.
	DecodeRequestFunc func(context.Context, *http.Request) (request interface{}, err error)
	// EncodeRequestFunc encodes a request into an HTTP request.
	EncodeRequestFunc func(context.Context, *http.Request, interface{}) error
	// EncodeResponseFunc encodes a response into a ResponseWriter.
	EncodeResponseFunc func(context.Context, http.ResponseWriter, interface{}) error
	// DecodeResponseFunc extracts a response from an HTTP response.
	DecodeResponseFunc func(context.Context, *http.Response) (response interface{}, err error)
	// ErrorEncoder encodes an error to the ResponseWriter.
	ErrorEncoder func(ctx context.Context, err error, w http.ResponseWriter)
	// StatusCoder is checked by error encoders.
	StatusCoder interface{ StatusCode() int }
	// Headerer is checked by error encoders.
	Headerer interface{ Headers() http.Header }
	// HTTPClient models *http.Client.
	HTTPClient interface {
		Do(req *http.Request) (*http.Response, error)
	}
)

// SetContentType returns a ServerResponseFunc that sets the Content-Type header.
func SetContentType(contentType string) ServerResponseFunc {
	return func(ctx context.Context, w http.ResponseWriter) context.Context {
		w.Header().Set("Content-Type", contentType)
		return ctx
	}
}

// Server wraps an endpoint and implements http.Handler.
type Server struct {
	e            endpoint.Endpoint
	dec          DecodeRequestFunc
	enc          EncodeResponseFunc
	before       []RequestFunc
	after        []ServerResponseFunc
	errorEncoder ErrorEncoder
}

// ServerOption sets an optional parameter for servers.
type ServerOption func(*Server)

// NewServer constructs a new server.
func NewServer(e endpoint.Endpoint, dec DecodeRequestFunc, enc EncodeResponseFunc, options ...ServerOption) *Server {
	s := &Server{e: e, dec: dec, enc: enc, errorEncoder: DefaultErrorEncoder}
	for _, option := range options {
		option(s)
	}
	return s
}

// ServerBefore functions are executed on the request before it is decoded.
func ServerBefore(before ...RequestFunc) ServerOption {
	return func(s *Server) { s.before = append(s.before, before...) }
}

// ServerAfter functions are executed after the endpoint is invoked.
func ServerAfter(after ...ServerResponseFunc) ServerOption {
	return func(s *Server) { s.after = append(s.after, after...) }
}

// ServerErrorEncoder is used to encode errors.
func ServerErrorEncoder(ee ErrorEncoder) ServerOption {
	return func(s *Server) { s.errorEncoder = ee }
}

// DefaultErrorEncoder writes the error in plain text.
func DefaultErrorEncoder(_ context.Context, err error, w http.ResponseWriter) {
	w.Header().Set("Content-Type", "text/plain; charset=utf-8")
	w.WriteHeader(http.StatusInternalServerError)
	w.Write([]byte(err.Error()))
}

// ServeHTTP implements http.Handler.
func (s Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	ctx := r.Context()
	for _, f := range s.before {
		ctx = f(ctx, r)
	}
	request, err := s.dec(ctx, r)
	if err != nil {
		s.errorEncoder(ctx, err, w)
		return
	}
	response, err := s.e(ctx, request)
	if err != nil {
		s.errorEncoder(ctx, err, w)
		return
	}
	for _, f := range s.after {
		ctx = f(ctx, w)
	}
	if err := s.enc(ctx, w, response); err != nil {
		s.errorEncoder(ctx, err, w)
		return
	}
}

// Client wraps a URL and provides an endpoint.
type Client struct {
	client HTTPClient
	method string
	tgt    *url.URL
	enc    EncodeRequestFunc
	dec    DecodeResponseFunc
	before []RequestFunc
	after  []ClientResponseFunc
}

// DefaultClient is what sends requests unless a client is set.
var DefaultClient HTTPClient

// ClientOption sets an optional parameter for clients.
type ClientOption func(*Client)

// NewClient constructs a usable Client for a single remote method.
func NewClient(method string, tgt *url.URL, enc EncodeRequestFunc, dec DecodeResponseFunc, options ...ClientOption) *Client {
	c := &Client{client: DefaultClient, method: method, tgt: tgt, enc: enc, dec: dec}
	for _, option := range options {
		option(c)
	}
	return c
}

// SetClient sets the underlying HTTP client.
func SetClient(client HTTPClient) ClientOption {
	return func(c *Client) { c.client = client }
}

// ClientBefore functions are applied to the request before it is invoked.
func ClientBefore(before ...RequestFunc) ClientOption {
	return func(c *Client) { c.before = append(c.before, before...) }
}

// Endpoint returns an endpoint that invokes the remote endpoint.
func (c Client) Endpoint() endpoint.Endpoint {
	return func(ctx context.Context, request interface{}) (interface{}, error) {
		req, err := http.NewRequest(c.method, c.tgt.String(), nil)
		if err != nil {
			return nil, err
		}
		if err = c.enc(ctx, req, request); err != nil {
			return nil, err
		}
		for _, f := range c.before {
			ctx = f(ctx, req)
		}
		resp, err := c.client.Do(req.WithContext(ctx))
		if err != nil {
			return nil, err
		}
		for _, f := range c.after {
			ctx = f(ctx, resp)
		}
		return c.dec(ctx, resp)
	}
}

// ClientAfter functions are applied to the response before it is decoded.
func ClientAfter(after ...ClientResponseFunc) ClientOption {
	return func(c *Client) { c.after = append(c.after, after...) }
}

// SetRequestHeader returns a RequestFunc that sets the given header.
func SetRequestHeader(key, val string) RequestFunc {
	return func(ctx context.Context, r *http.Request) context.Context {
		r.Header.Set(key, val)
		return ctx
	}
}

// SetResponseHeader returns a ServerResponseFunc that sets the given header.
func SetResponseHeader(key, val string) ServerResponseFunc {
	return func(ctx context.Context, w http.ResponseWriter) context.Context {
		w.Header().Set(key, val)
		return ctx
	}
}

// NopRequestDecoder decodes nothing.
func NopRequestDecoder(ctx context.Context, r *http.Request) (interface{}, error) { return nil, nil }

// ServerFinalizerFunc can be used to perform work at the end of a request.
type ServerFinalizerFunc func(ctx context.Context, code int, r *http.Request)

// ServerFinalizer is executed at the end of every request (not here).
func ServerFinalizer(f ...ServerFinalizerFunc) ServerOption { return func(*Server) {} }

// ClientFinalizerFunc can be used to perform work at the end of a client request.
type ClientFinalizerFunc func(ctx context.Context, err error)

// ClientFinalizer is executed at the end of every request (not here).
func ClientFinalizer(f ...ClientFinalizerFunc) ClientOption { return func(*Client) {} }

// BufferedStream keeps the response body open (no effect here).
func BufferedStream(buffered bool) ClientOption { return func(*Client) {} }

// CreateRequestFunc creates an outgoing request.
type CreateRequestFunc func(context.Context, interface{}) (*http.Request, error)
