// Package nats follows go-kit's transport/nats.
package nats

import (
	"context"
	"encoding/json"

	"github.com/teamlint/baron/internal/zzverif/ext/github.com/go-kit/kit/endpoint"
	nats "github.com/teamlint/baron/internal/zzverif/ext/github.com/nats-io/nats.go"
)

type (
	// DecodeRequestFunc extracts a request from a message.
	DecodeRequestFunc func(context.Context, *nats.Msg) (request interface{}, err error)
	// EncodeRequestFunc encodes a request into a message.
	EncodeRequestFunc func(context.Context, *nats.Msg, interface{}) error
	// EncodeResponseFunc encodes a response to the reply subject.
	EncodeResponseFunc func(context.Context, string, *nats.Conn, interface{}) error
	// DecodeResponseFunc extracts a response from a message.
	DecodeResponseFunc func(context.Context, *nats.Msg) (response interface{}, err error)
)

// Subscriber wraps an endpoint and provides nats.MsgHandler.
type Subscriber struct {
	e   endpoint.Endpoint
	dec DecodeRequestFunc
	enc EncodeResponseFunc
	ee  ErrorEncoder

	before []RequestFunc
}

// SubscriberOption sets an optional parameter for subscribers.
type SubscriberOption func(*Subscriber)

// NewSubscriber constructs a new subscriber.
func NewSubscriber(e endpoint.Endpoint, dec DecodeRequestFunc, enc EncodeResponseFunc, options ...SubscriberOption) *Subscriber {
	s := &Subscriber{e: e, dec: dec, enc: enc}
	for _, option := range options {
		option(s)
	}
	return s
}

// ServeMsg provides nats.MsgHandler.
func (s Subscriber) ServeMsg(nc *nats.Conn) func(msg *nats.Msg) {
	return func(msg *nats.Msg) {
		ctx := context.Background()
		fail := func(err error) {
			if s.ee != nil {
				s.ee(ctx, err, msg.Reply, nc)
				return
			}
			nc.Publish(msg.Reply, []byte(`{"err":"`+err.Error()+`"}`))
		}
		for _, f := range s.before {
			ctx = f(ctx, msg)
		}
		request, err := s.dec(ctx, msg)
		if err != nil {
			fail(err)
			return
		}
		response, err := s.e(ctx, request)
		if err != nil {
			fail(err)
			return
		}
		if err := s.enc(ctx, msg.Reply, nc, response); err != nil {
			fail(err)
		}
	}
}

// EncodeJSONResponse serializes the response as JSON.
func EncodeJSONResponse(_ context.Context, reply string, nc *nats.Conn, response interface{}) error {
	b, err := json.Marshal(response)
	if err != nil {
		return err
	}
	return nc.Publish(reply, b)
}

// EncodeJSONRequest serializes the request as JSON.
func EncodeJSONRequest(_ context.Context, msg *nats.Msg, request interface{}) error {
	b, err := json.Marshal(request)
	if err != nil {
		return err
	}
	msg.Data = b
	return nil
}

// Publisher wraps a URL and provides an endpoint.
type Publisher struct {
	nc      *nats.Conn
	subject string
	enc     EncodeRequestFunc
	dec     DecodeResponseFunc
	before  []RequestFunc
}

// PublisherOption sets an optional parameter for publishers.
type PublisherOption func(*Publisher)

// NewPublisher constructs a usable Publisher for a single remote method.
func NewPublisher(nc *nats.Conn, subject string, enc EncodeRequestFunc, dec DecodeResponseFunc, options ...PublisherOption) *Publisher {
	p := &Publisher{nc: nc, subject: subject, enc: enc, dec: dec}
	for _, option := range options {
		option(p)
	}
	return p
}

// Endpoint returns an endpoint that invokes the remote endpoint.
func (p Publisher) Endpoint() endpoint.Endpoint {
	return func(ctx context.Context, request interface{}) (interface{}, error) {
		msg := nats.Msg{Subject: p.subject}
		if err := p.enc(ctx, &msg, request); err != nil {
			return nil, err
		}
		for _, f := range p.before {
			ctx = f(ctx, &msg)
		}
		resp, err := p.nc.Request(msg.Subject, msg.Data)
		if err != nil {
			return nil, err
		}
		return p.dec(ctx, resp)
	}
}

// ErrorEncoder answers a failed request.
type ErrorEncoder func(ctx context.Context, err error, reply string, nc *nats.Conn)

// RequestFunc may take information from a message.
type RequestFunc func(context.Context, *nats.Msg) context.Context

// SubscriberErrorEncoder sets how errors are answered.
func SubscriberErrorEncoder(ee ErrorEncoder) SubscriberOption {
	return func(s *Subscriber) { s.ee = ee }
}

// SubscriberBefore functions are executed before decoding.
func SubscriberBefore(before ...RequestFunc) SubscriberOption {
	return func(s *Subscriber) { s.before = append(s.before, before...) }
}

// PublisherBefore functions are executed before sending.
func PublisherBefore(before ...RequestFunc) PublisherOption {
	return func(p *Publisher) { p.before = append(p.before, before...) }
}
