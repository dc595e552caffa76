package genapi

import (
	"context"
	"errors"

	"github.com/teamlint/baron/internal/zzverif/ext/github.com/go-kit/kit/endpoint"
	"github.com/teamlint/baron/internal/zzverif/genapi/pb"
	"github.com/teamlint/baron/internal/zzverif/rt"
)

// methodNames lists the methods, the one without HTTP bindings last.
var methodNames = []string{"I32", "I64", "U32", "U64", "Flag", "F32", "F64", "Str", "Tone", "Alt", "Body", "Part", "Many", "Next", "Deep", "Opt", "Odd", "GetLow", "StrMany"}

// requestOf makes a request of a method; n, a number of the width of the
// method's fields, tells requests apart.
func requestOf(name string, n uint64) interface{} {
	switch name {
	case "I32":
		return &pb.I32Req{P: int32(n)}
	case "I64":
		return &pb.I64Req{P: int64(n)}
	case "U32":
		return &pb.U32Req{P: uint32(n)}
	case "U64":
		return &pb.U64Req{P: n}
	case "Flag":
		return &pb.FlagReq{P: true, Q: true}
	case "F32":
		return &pb.F32Req{P: 2.5}
	case "F64":
		return &pb.F64Req{P: 2.5}
	case "Str":
		return &pb.StrReq{P: "p", R: []string{"r", "s"}}
	case "Tone":
		return &pb.ToneReq{P: pb.Color(int32(n))}
	case "Alt":
		return &pb.AltReq{Name: "n", Alt: &pb.AltReq_Num{Num: int32(n)}}
	case "Body":
		return &pb.BodyReq{Id: "i", Count: int32(n)}
	case "Part":
		return &pb.PartReq{UserId: int64(n)}
	case "Next":
		return &pb.NextReq{Id: "i", Num: int32(n), Step: "s"}
	case "Deep":
		return &pb.DeepReq{Name: "d", Sub: &pb.Sub{Num: int32(n)}, Subs: []*pb.Sub{{Text: "x"}, {}}}
	case "Opt":
		m := int32(n)
		return &pb.OptReq{N: &m}
	case "Odd":
		return &pb.OddReq{XLead: int32(n), CamelCase: "c", Kinds: []pb.Outer_Kind{pb.Outer_B}, String_: &pb.Outer_Inner{Num: int32(n)}, Counts: map[string]int32{"k": int32(n), "\"": 7}}
	case "GetLow":
		return &pb.LowReq{Num: int32(n)}
	}
	return &pb.ManyReq{A: "a", B: int32(n), Type: "t"}
}

// number is any number for requestOf.
func number(name string, digits int) uint64 {
	bits, signed := 32, true
	switch name {
	case "I64", "Part":
		bits = 64
	case "U32":
		signed = false
	case "U64":
		bits, signed = 64, false
	case "Flag", "F32", "F64", "Str":
		return 0
	}
	_, n := rt.Num("n", bits, signed, digits)
	return n
}

// call calls a method by name.
func call(s pb.ApiServer, ctx context.Context, name string, req interface{}) (*pb.Res, error) {
	switch name {
	case "I32":
		return s.I32(ctx, req.(*pb.I32Req))
	case "I64":
		return s.I64(ctx, req.(*pb.I64Req))
	case "U32":
		return s.U32(ctx, req.(*pb.U32Req))
	case "U64":
		return s.U64(ctx, req.(*pb.U64Req))
	case "Flag":
		return s.Flag(ctx, req.(*pb.FlagReq))
	case "F32":
		return s.F32(ctx, req.(*pb.F32Req))
	case "F64":
		return s.F64(ctx, req.(*pb.F64Req))
	case "Str":
		return s.Str(ctx, req.(*pb.StrReq))
	case "Tone":
		return s.Tone(ctx, req.(*pb.ToneReq))
	case "Alt":
		return s.Alt(ctx, req.(*pb.AltReq))
	case "Body":
		return s.Body(ctx, req.(*pb.BodyReq))
	case "Part":
		return s.Part(ctx, req.(*pb.PartReq))
	case "Many":
		return s.Many(ctx, req.(*pb.ManyReq))
	}
	return more(s, ctx, name, req)
}

func more(s pb.ApiServer, ctx context.Context, name string, req interface{}) (*pb.Res, error) {
	switch name {
	case "Next":
		return s.Next(ctx, req.(*pb.NextReq))
	case "Deep":
		return s.Deep(ctx, req.(*pb.DeepReq))
	case "Opt":
		return s.Opt(ctx, req.(*pb.OptReq))
	case "Odd":
		return s.Odd(ctx, req.(*pb.OddReq))
	case "GetLow":
		return s.GetLow(ctx, req.(*pb.LowReq))
	}
	return s.StrMany(ctx, req.(*pb.ManyReq))
}

// impl is a service implementation that records its calls.
type impl struct {
	pb.UnimplementedApiServer
	name  string
	req   interface{}
	ctx   context.Context
	calls int
	res   *pb.Res
	err   error
}

func (s *impl) got(ctx context.Context, name string, req interface{}) (*pb.Res, error) {
	s.name, s.req, s.ctx = name, req, ctx
	s.calls++
	if s.err != nil {
		return nil, s.err
	}
	return s.res, nil
}

func (s *impl) I32(ctx context.Context, in *pb.I32Req) (*pb.Res, error) { return s.got(ctx, "I32", in) }
func (s *impl) I64(ctx context.Context, in *pb.I64Req) (*pb.Res, error) { return s.got(ctx, "I64", in) }
func (s *impl) U32(ctx context.Context, in *pb.U32Req) (*pb.Res, error) { return s.got(ctx, "U32", in) }
func (s *impl) U64(ctx context.Context, in *pb.U64Req) (*pb.Res, error) { return s.got(ctx, "U64", in) }
func (s *impl) Flag(ctx context.Context, in *pb.FlagReq) (*pb.Res, error) {
	return s.got(ctx, "Flag", in)
}
func (s *impl) F32(ctx context.Context, in *pb.F32Req) (*pb.Res, error) { return s.got(ctx, "F32", in) }
func (s *impl) F64(ctx context.Context, in *pb.F64Req) (*pb.Res, error) { return s.got(ctx, "F64", in) }
func (s *impl) Str(ctx context.Context, in *pb.StrReq) (*pb.Res, error) { return s.got(ctx, "Str", in) }
func (s *impl) Tone(ctx context.Context, in *pb.ToneReq) (*pb.Res, error) {
	return s.got(ctx, "Tone", in)
}
func (s *impl) Alt(ctx context.Context, in *pb.AltReq) (*pb.Res, error) { return s.got(ctx, "Alt", in) }
func (s *impl) Body(ctx context.Context, in *pb.BodyReq) (*pb.Res, error) {
	return s.got(ctx, "Body", in)
}
func (s *impl) Part(ctx context.Context, in *pb.PartReq) (*pb.Res, error) {
	return s.got(ctx, "Part", in)
}
func (s *impl) Many(ctx context.Context, in *pb.ManyReq) (*pb.Res, error) {
	return s.got(ctx, "Many", in)
}
func (s *impl) StrMany(ctx context.Context, in *pb.ManyReq) (*pb.Res, error) {
	return s.got(ctx, "StrMany", in)
}
func (s *impl) Deep(ctx context.Context, in *pb.DeepReq) (*pb.Res, error) {
	return s.got(ctx, "Deep", in)
}
func (s *impl) Next(ctx context.Context, in *pb.NextReq) (*pb.Res, error) {
	return s.got(ctx, "Next", in)
}
func (s *impl) Opt(ctx context.Context, in *pb.OptReq) (*pb.Res, error) { return s.got(ctx, "Opt", in) }
func (s *impl) Odd(ctx context.Context, in *pb.OddReq) (*pb.Res, error) { return s.got(ctx, "Odd", in) }
func (s *impl) GetLow(ctx context.Context, in *pb.LowReq) (*pb.Res, error) {
	return s.got(ctx, "GetLow", in)
}

// made gives the endpoints of a service implementation.
func made(s pb.ApiServer) pb.Endpoints {
	return pb.Endpoints{
		I32Endpoint: pb.MakeI32Endpoint(s), I64Endpoint: pb.MakeI64Endpoint(s), U32Endpoint: pb.MakeU32Endpoint(s), U64Endpoint: pb.MakeU64Endpoint(s),
		FlagEndpoint: pb.MakeFlagEndpoint(s), F32Endpoint: pb.MakeF32Endpoint(s), F64Endpoint: pb.MakeF64Endpoint(s), StrEndpoint: pb.MakeStrEndpoint(s),
		ToneEndpoint: pb.MakeToneEndpoint(s), AltEndpoint: pb.MakeAltEndpoint(s), BodyEndpoint: pb.MakeBodyEndpoint(s), PartEndpoint: pb.MakePartEndpoint(s),
		ManyEndpoint: pb.MakeManyEndpoint(s), StrManyEndpoint: pb.MakeStrManyEndpoint(s), NextEndpoint: pb.MakeNextEndpoint(s), DeepEndpoint: pb.MakeDeepEndpoint(s), OptEndpoint: pb.MakeOptEndpoint(s), OddEndpoint: pb.MakeOddEndpoint(s), GetLowEndpoint: pb.MakeGetLowEndpoint(s),
	}
}

// PassThrough: every method of the endpoint set calls its own endpoint, every
// made endpoint its own method, with request, response, error and context.
func PassThrough() {
	name := methodNames[rt.Choice("method", len(methodNames))]
	n := number(name, 0)
	req := requestOf(name, n)
	s := &impl{res: &pb.Res{Text: rt.String("text", 0, 1, "ab"), Num: int64(n)}}
	if rt.Bool("fails") {
		s.err = errors.New("E" + rt.String("err", 0, 1, "xy"))
	}
	ctx := context.WithValue(context.Background(), "k", "v")
	res, err := call(made(s), ctx, name, req)
	rt.Assert(s.calls == 1 && s.name == name, "another method is called, or not once")
	rt.Assert(s.req == req, "another request arrives")
	rt.Assert(s.ctx.Value("k") == "v", "another context arrives")
	if s.err != nil {
		rt.Assert(err == s.err && res == nil, "the error is changed")
		rt.Reach("error")
		return
	}
	rt.Assert(err == nil && res == s.res, "the response is changed")
	rt.Reach("response")
}

// wraps counts what a middleware does.
type wraps struct {
	svc    *service
	order  []string // endpoints a call went through
	labels []string
	made   int
}

func (x *wraps) middleware(label string, next endpoint.Endpoint) endpoint.Endpoint {
	x.made++
	x.labels = append(x.labels, label)
	return func(ctx context.Context, req interface{}) (interface{}, error) {
		x.order = append(x.order, label)
		return next(ctx, req)
	}
}

// wrapped checks the endpoints after wrapping all but those excluded.
func (x *wraps) wrapped(e pb.Endpoints, labelled bool, excluded map[string]bool) {
	in := 0
	for _, name := range methodNames {
		x.order = nil
		*x.svc = service{}
		_, err := call(e, context.Background(), name, requestOf(name, 1))
		rt.Assert(err == nil && x.svc.calls == 1 && x.svc.name == name, "a wrapped endpoint is not the one it wraps")
		if excluded[name] {
			rt.Assert(len(x.order) == 0, "an excluded endpoint is wrapped")
			continue
		}
		in++
		rt.Assert(len(x.order) == 1, "an endpoint is not wrapped exactly once")
		rt.Assert(!labelled || x.order[0] == name, "an endpoint is wrapped under another name")
	}
	rt.Assert(x.made == in, "the middleware is applied to something else")
}

func (x *wraps) wrap(e *pb.Endpoints, labelled bool, excluded []string) (refused bool) {
	defer func() {
		if r := recover(); r != nil {
			refused = true
		}
	}()
	if labelled {
		e.WrapAllLabeledExcept(x.middleware, excluded...)
		return
	}
	e.WrapAllExcept(func(next endpoint.Endpoint) endpoint.Endpoint { return x.middleware("", next) }, excluded...)
	return
}

// WrapSubsets: any of the endpoints from a place on excluded.
func WrapSubsets() {
	labelled := rt.Bool("labelled")
	n := rt.Param("window", 5)
	from := 0
	if n < len(methodNames) {
		from = rt.Choice("from", len(methodNames)-n+1)
	} else {
		n = len(methodNames)
	}
	excluded := map[string]bool{}
	var list []string
	for i := from; i < from+n; i++ {
		if rt.Bool(methodNames[i]) {
			excluded[methodNames[i]] = true
			list = append(list, methodNames[i])
		}
	}
	if rt.Bool("backwards") {
		for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
			list[i], list[j] = list[j], list[i]
		}
	}
	x := &wraps{svc: &service{}}
	e := x.svc.endpoints()
	rt.Assert(!x.wrap(&e, labelled, list), "a proper exclusion is refused")
	x.wrapped(e, labelled, excluded)
	rt.Reach("wrapped")
}

// WrapNames: an exclusion is accepted only if it names an endpoint.
func WrapNames() {
	labelled := rt.Bool("labelled")
	name := ""
	if rt.Bool("edited") {
		m := methodNames[rt.Choice("method", len(methodNames))]
		at := rt.Choice("at", len(m)+1)
		name = m[:at]
		if rt.Bool("other") {
			name += rt.String("byte", 1, 1, "IFPtSMnaylobdegw36 _")
		}
		if at < len(m) && rt.Bool("rest") {
			name += m[at+1:]
		} else {
			name += m[at:]
		}
	} else {
		name = rt.String("name", 0, rt.Param("len", 4), "I3264FlagTone ")
	}
	known := false
	for _, m := range methodNames {
		if name == m {
			known = true
		}
	}
	list := []string{name}
	excluded := map[string]bool{name: true}
	other := rt.Pick("list", "", "before", "after")
	// naming an endpoint twice is not part of the claim
	rt.Assume(other == "" || name != "StrMany")
	switch other {
	case "before":
		list = []string{"StrMany", name}
	case "after":
		list = []string{name, "StrMany"}
	}
	if other != "" {
		excluded["StrMany"] = true
	}
	x := &wraps{svc: &service{}}
	e := x.svc.endpoints()
	refused := x.wrap(&e, labelled, list)
	rt.Observe("refused", refused)
	rt.Assert(refused == !known, "an exclusion naming no endpoint is accepted, or another refused")
	if refused {
		rt.Reach("refused")
		return
	}
	x.wrapped(e, labelled, excluded)
	rt.Reach("wrapped")
}

// WrapTwice: later middlewares go around earlier ones.
func WrapTwice() {
	x := &wraps{svc: &service{}}
	e := x.svc.endpoints()
	a := methodNames[rt.Choice("first", len(methodNames))]
	b := methodNames[rt.Choice("second", len(methodNames))]
	la, lb := rt.Bool("firstLabelled"), rt.Bool("secondLabelled")
	rt.Assert(!x.wrap(&e, la, []string{a}), "a proper exclusion is refused")
	y := &wraps{svc: x.svc}
	rt.Assert(!y.wrap(&e, lb, []string{b}), "a proper exclusion is refused")
	for _, name := range methodNames {
		x.order, y.order = nil, nil
		*x.svc = service{}
		_, err := call(e, context.Background(), name, requestOf(name, 1))
		rt.Assert(err == nil && x.svc.calls == 1 && x.svc.name == name, "a wrapped endpoint is not the one it wraps")
		rt.Assert((len(x.order) == 1) == (name != a) && (len(y.order) == 1) == (name != b), "an endpoint is not wrapped exactly once by each middleware")
	}
	rt.Reach("wrapped")
}
