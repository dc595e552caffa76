package genapi

import (
	"context"
	"errors"
	"net/http"
	"strings"

	grpctransport "github.com/teamlint/baron/internal/zzverif/ext/github.com/go-kit/kit/transport/grpc"
	nats "github.com/teamlint/baron/internal/zzverif/ext/github.com/nats-io/nats.go"
	"github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/grpc"
	"github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/grpc/metadata"
	"github.com/teamlint/baron/internal/zzverif/genapi/pb"
	"github.com/teamlint/baron/internal/zzverif/rt"
)

// GRPC: a generated gRPC client and server, joined by the full method name.
func GRPC() {
	name := methodNames[rt.Choice("method", len(methodNames))]
	n := number(name, 2)
	req := requestOf(name, n)
	svc := &service{res: &pb.Res{Text: rt.String("text", 0, 1, "ab"), Num: int64(n)}}
	if rt.Bool("fails") {
		svc.err = errors.New("E" + rt.String("err", 0, 1, "xy"))
	}
	// the server is registered under the proto package and the service name
	service := "api.Api"
	if rt.Bool("samePackage") {
		service = "pb.Api"
	} else {
		rt.Known("proto-package")
	}
	if name == "GetLow" {
		// registered as in the definition: "get_low"
		rt.Known("method-case")
	}
	calls := 0
	server := pb.MakeGRPCServer(svc.endpoints())
	conn := &grpc.ClientConn{Call: func(ctx context.Context, method string, md metadata.MD, r interface{}) (interface{}, error) {
		calls++
		for _, m := range methodNames {
			registered := m
			if m == "GetLow" {
				registered = "get_low"
			}
			if method == "/"+service+"/"+registered {
				res, err := call(server, grpctransport.NewIncomingContext(context.Background(), md), m, r)
				if err != nil {
					return nil, err
				}
				return res, nil
			}
		}
		return nil, errors.New("unknown method " + method)
	}}
	var opts []grpctransport.ClientOption
	value := rt.String("value", 0, 1, "v ")
	key := "K" + rt.String("key", 0, 1, "a-B")
	set := rt.Bool("set")
	ctx := context.Background()
	if set {
		ctx = context.WithValue(ctx, key, value)
		opts = append(opts, grpctransport.ClientBefore(pb.ContextValuesToGRPCMetadata([]string{"absent", key})))
	}
	client, err := pb.NewGRPCClient(conn, opts...)
	rt.Assert(err == nil, "no client")
	res, err := call(client, ctx, name, req)
	if err != nil {
		rt.Observe("err", err.Error())
	}
	rt.Assert(calls == 1 && svc.calls == 1 && svc.name == name, "the call does not reach the endpoint of the method once")
	rt.Assert(svc.req == req, "another request arrives")
	if set {
		rt.Assert(svc.ctx.Value(strings.ToLower(key)) == value && svc.ctx.Value(http.CanonicalHeaderKey(key)) == value, "the value of a selected key does not arrive")
	}
	rt.Assert(svc.ctx.Value("absent") == nil, "a value arrives that was not set")
	if svc.err != nil {
		rt.Assert(err == svc.err && res == nil, "the error is changed")
		rt.Reach("error")
		return
	}
	rt.Assert(err == nil && res == svc.res, "the response is changed")
	rt.Reach("response")
}

// GRPCMetadata: metadata reaches the context of the handler.
func GRPCMetadata() {
	md := metadata.MD{}
	var names []string
	for i := 1 + rt.Choice("more", 2); i > 0; i-- {
		k := "h" + rt.String("name", 0, rt.Param("len", 2), "a-9")
		if _, ok := md[k]; !ok {
			names = append(names, k)
		}
		md[k] = append(md[k], rt.String("value", 0, 1, "xY"))
	}
	ctx := pb.GRPCMetadataToContext(context.Background(), md)
	for _, k := range names {
		rt.Assert(ctx.Value(k) == md[k][0] && ctx.Value(http.CanonicalHeaderKey(k)) == md[k][0], "a value does not reach the context")
	}
	rt.Reach("seen")
}

// NATS: a generated NATS client and server, joined by subjects.
func NATS() {
	name := methodNames[rt.Choice("method", len(methodNames))]
	n, r := uint64(5), uint64(6)
	if rt.Bool("response") {
		_, r = rt.Num("r", 64, true, 0)
	} else {
		n = number(name, 0)
	}
	req := requestOf(name, n)
	if name == "Alt" {
		if rt.Bool("alternative") {
			rt.Known("nats-oneof")
		} else {
			req.(*pb.AltReq).Alt = nil
		}
	}
	svc := &service{res: &pb.Res{Text: rt.String("text", 0, 1, "a\""), Num: int64(r)}}
	if rt.Bool("fails") {
		svc.err = errors.New("E")
		rt.Known("nats-error")
	}
	conn := &nats.Conn{}
	err := pb.ServeNATS(conn, pb.MakeNATSServer(svc.endpoints()))
	rt.Assert(err == nil, "the service is not subscribed")
	client, err := pb.NewNATSClient(conn)
	rt.Assert(err == nil, "no client")
	res, err := call(client, context.Background(), name, req)
	if err != nil {
		rt.Observe("err", err.Error())
	}
	rt.Assert(svc.calls == 1 && svc.name == name, "the call does not reach the endpoint of the method once")
	switch x := svc.req.(type) {
	case *pb.FlagReq:
		rt.Assert(x.P && x.Q && x.O == nil && len(x.R) == 0, "another request arrives")
	case *pb.F32Req:
		rt.Assert(x.P == 2.5, "another request arrives")
	case *pb.F64Req:
		rt.Assert(x.P == 2.5, "another request arrives")
	case *pb.StrReq:
		rt.Assert(x.P == "p" && len(x.R) == 2 && x.R[0] == "r" && x.R[1] == "s", "another request arrives")
	case *pb.AltReq:
		rt.Assert(x.Name == "n", "another request arrives")
		a, ok := x.Alt.(*pb.AltReq_Num)
		rt.Assert(ok == (req.(*pb.AltReq).Alt != nil) && (!ok || a.Num == int32(n)), "another alternative arrives")
	case *pb.BodyReq:
		rt.Assert(x.Id == "i" && x.Count == int32(n), "another request arrives")
	case *pb.PartReq:
		rt.Assert(x.UserId == int64(n), "another request arrives")
	case *pb.ManyReq:
		rt.Assert(x.A == "a" && x.B == int32(n), "another request arrives")
	case *pb.NextReq:
		rt.Assert(x.Id == "i" && x.Num == int32(n) && x.Step == "s", "another request arrives")
	case *pb.DeepReq:
		rt.Assert(x.Name == "d" && x.Sub != nil && x.Sub.Num == int32(n) && x.Node == nil && x.Label == nil && len(x.Subs) == 2 && x.Subs[0].Text == "x", "another request arrives")
	case *pb.OptReq:
		rt.Assert(x.N != nil && *x.N == int32(n) && x.S == nil && x.C == nil && x.F == nil && x.U == nil && x.D == nil && x.Y == nil, "another request arrives")
	case *pb.OddReq:
		rt.Assert(x.XLead == int32(n) && x.CamelCase == "c" && len(x.Kinds) == 1 && x.Kinds[0] == pb.Outer_B && x.String_ != nil && x.String_.Num == int32(n) && x.First == nil && x.Second == nil && len(x.Counts) == 2 && x.Counts["k"] == int32(n) && x.Counts["\""] == 7, "another request arrives")
	case *pb.LowReq:
		rt.Assert(x.Num == int32(n), "another request arrives")
	case *pb.I32Req:
		rt.Assert(x.P == int32(n), "another request arrives")
	case *pb.I64Req:
		rt.Assert(x.P == int64(n), "another request arrives")
	case *pb.U32Req:
		rt.Assert(x.P == uint32(n), "another request arrives")
	case *pb.U64Req:
		rt.Assert(x.P == uint64(n), "another request arrives")
	case *pb.ToneReq:
		rt.Assert(x.P == pb.Color(int32(n)), "another request arrives")
	}
	if svc.err != nil {
		rt.Assert(err != nil && strings.Contains(err.Error(), "E"), "an error is reported as a success")
		rt.Reach("error")
		return
	}
	rt.Assert(err == nil && res.Text == svc.res.Text && res.Num == svc.res.Num, "the response is changed")
	rt.Reach("response")
}

// NATSServe: serving fails if any subscription does, and subscribes every method once.
func NATSServe() {
	conn := &nats.Conn{Reject: rt.Choice("rejected", len(methodNames)+1)}
	svc := &service{}
	err := pb.ServeNATS(conn, pb.MakeNATSServer(svc.endpoints()))
	rt.Assert((err == nil) == (conn.Reject == 0), "a failing subscription is not reported")
	if err != nil {
		rt.Reach("refused")
		return
	}
	subjects := conn.Subjects()
	rt.Assert(len(subjects) == len(methodNames), "not every method is subscribed once")
	for i, s := range subjects {
		for _, o := range subjects[:i] {
			rt.Assert(s != o, "two methods share a subject")
		}
	}
	rt.Reach("served")
}
