package genapi

import (
	"bytes"
	"context"
	"io/ioutil"
	"net/http"
	"net/url"

	"github.com/teamlint/baron/internal/zzverif/genapi/pb"
	"github.com/teamlint/baron/internal/zzverif/rt"
)

// recorder is the response writer.
type recorder struct {
	h    http.Header
	code int
	body []byte
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

// service records what reaches the endpoints.
type service struct {
	name  string
	req   interface{}
	ctx   context.Context
	calls int
	res   *pb.Res
	err   error
}

func (s *service) at(name string) func(context.Context, interface{}) (interface{}, error) {
	return func(ctx context.Context, req interface{}) (interface{}, error) {
		s.name, s.req, s.ctx = name, req, ctx
		s.calls++
		if s.err != nil {
			return nil, s.err
		}
		if s.res == nil {
			s.res = &pb.Res{}
		}
		return s.res, nil
	}
}

func (s *service) endpoints() pb.Endpoints {
	return pb.Endpoints{
		I32Endpoint: s.at("I32"), I64Endpoint: s.at("I64"), U32Endpoint: s.at("U32"), U64Endpoint: s.at("U64"),
		FlagEndpoint: s.at("Flag"), F32Endpoint: s.at("F32"), F64Endpoint: s.at("F64"), StrEndpoint: s.at("Str"),
		ToneEndpoint: s.at("Tone"), AltEndpoint: s.at("Alt"), BodyEndpoint: s.at("Body"), PartEndpoint: s.at("Part"),
		ManyEndpoint: s.at("Many"), StrManyEndpoint: s.at("StrMany"), NextEndpoint: s.at("Next"), GetLowEndpoint: s.at("GetLow"), DeepEndpoint: s.at("Deep"), OptEndpoint: s.at("Opt"), OddEndpoint: s.at("Odd"),
	}
}

// serve sends one request to the generated HTTP handler.
func (s *service) serve(method, path, query string, header http.Header, body []byte) *recorder {
	if header == nil {
		header = http.Header{}
	}
	w := &recorder{h: http.Header{}}
	pb.MakeHTTPHandler(s.endpoints()).ServeHTTP(w, &http.Request{
		Method: method, URL: &url.URL{Path: path, RawQuery: query}, Header: header,
		Body: ioutil.NopCloser(bytes.NewReader(body)),
	})
	w.WriteHeader(200)
	return w
}

// accepted tells whether the request reached the endpoint of the method.
func (s *service) accepted(name string, w *recorder) bool {
	if s.calls == 0 {
		rt.Assert(w.code >= 300, "a request that reaches no endpoint is answered as a success")
		return false
	}
	rt.Assert(s.calls == 1, "the endpoint is called more than once")
	rt.Assert(s.name == name, "another method's endpoint is called")
	rt.Assert(w.code == 200, "an accepted request is answered with an error")
	return true
}
