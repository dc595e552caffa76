// Package mine is a user's service, with middlewares.
package mine

import (
	"context"
	"sync"

	"github.com/teamlint/baron/internal/zzverif/srv/pb"
)

var (
	mu   sync.Mutex
	logs []string
	// Req is the last request.
	Req *pb.PingReq
)

// Note records a step.
func Note(s string) {
	mu.Lock()
	logs = append(logs, s)
	mu.Unlock()
}

// Take returns the steps since the last call.
func Take() []string {
	mu.Lock()
	defer mu.Unlock()
	l := logs
	logs = nil
	return l
}

type svc struct {
	pb.UnimplementedApiServer
	name string
	next pb.ApiServer
}

// NewService makes the service.
func NewService() *svc { return &svc{name: "service"} }

func (s *svc) step(m string, in *pb.PingReq) *pb.Res {
	Note(s.name + ":" + m)
	Req = in
	return &pb.Res{Text: m}
}

func (s *svc) Ping(ctx context.Context, in *pb.PingReq) (*pb.Res, error) {
	r := s.step("Ping", in)
	if s.next != nil {
		return s.next.Ping(ctx, in)
	}
	return r, nil
}

func (s *svc) PongAll(ctx context.Context, in *pb.PingReq) (*pb.Res, error) {
	r := s.step("PongAll", in)
	if s.next != nil {
		return s.next.PongAll(ctx, in)
	}
	return r, nil
}

func (s *svc) Hush(ctx context.Context, in *pb.PingReq) (*pb.Res, error) {
	r := s.step("Hush", in)
	if s.next != nil {
		return s.next.Hush(ctx, in)
	}
	return r, nil
}

type endpoint = func(ctx context.Context, request interface{}) (interface{}, error)

func wrapped(name string, e endpoint) endpoint {
	return func(ctx context.Context, request interface{}) (interface{}, error) {
		Note("endpoint:" + name)
		return e(ctx, request)
	}
}

// WrapEndpoints wraps every endpoint.
func WrapEndpoints(in pb.Endpoints) pb.Endpoints {
	Note("wrap endpoints")
	in.PingEndpoint = wrapped("Ping", in.PingEndpoint)
	in.PongAllEndpoint = wrapped("PongAll", in.PongAllEndpoint)
	in.HushEndpoint = wrapped("Hush", in.HushEndpoint)
	return in
}

// WrapService wraps the service.
func WrapService(in pb.ApiServer) pb.ApiServer {
	Note("wrap service")
	return &svc{name: "wrapper", next: in}
}
