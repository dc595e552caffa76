package genapi

import (
	"bytes"
	"context"
	"io/ioutil"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	httptransport "github.com/teamlint/baron/internal/zzverif/ext/github.com/go-kit/kit/transport/http"
	"github.com/teamlint/baron/internal/zzverif/genapi/pb"
	"github.com/teamlint/baron/internal/zzverif/rt"
)

// wire carries the requests of a generated client to a generated server, by
// their HTTP form: method, request URI, headers and body.
type wire struct {
	svc    *service
	method string
	uri    string
	path   string
	header http.Header
	calls  int
	// answer, if set, is given instead of the server's
	answer *recorder
	seen   func(*recorder)
	// base, if set, is where the client is made for
	base string
}

func (l *wire) at() string {
	if l.base != "" {
		return l.base
	}
	return "http://host:80"
}

func (l *wire) Do(req *http.Request) (*http.Response, error) {
	l.calls++
	l.method, l.uri = req.Method, req.URL.RequestURI()
	rt.Observe("request", l.method+" "+l.uri)
	rt.Assert(req.URL.Scheme+"://"+req.URL.Host == l.at(), "the request goes to another host")
	for i := 0; i < len(l.uri); i++ {
		rt.Assert(l.uri[i] > ' ' && l.uri[i] < 0x7f, "the request line is broken")
	}
	u, err := url.ParseRequestURI(l.uri)
	rt.Assert(err == nil, "the client asks for something that is no URI")
	l.path = u.Path
	h := http.Header{}
	for k, vs := range req.Header {
		for _, v := range vs {
			h[http.CanonicalHeaderKey(k)] = append(h[http.CanonicalHeaderKey(k)], v)
		}
	}
	l.header = h
	var body []byte
	if req.Body != nil {
		body, err = ioutil.ReadAll(req.Body)
		rt.Assert(err == nil, "the body cannot be read")
	}
	w := l.answer
	if w == nil {
		w = &recorder{h: http.Header{}}
		pb.MakeHTTPHandler(l.svc.endpoints(), httptransport.ServerBefore(pb.HTTPHeadersToContext)).ServeHTTP(w, &http.Request{
			Method: l.method, URL: u, RequestURI: l.uri, Header: h, Body: ioutil.NopCloser(bytes.NewReader(body)),
		})
		w.WriteHeader(200)
	}
	if l.seen != nil {
		l.seen(w)
	}
	return &http.Response{StatusCode: w.code, Header: w.h, Body: ioutil.NopCloser(bytes.NewReader(w.body))}, nil
}

func (l *wire) client(opts ...httptransport.ClientOption) pb.ApiServer {
	c, err := pb.NewHTTPClient("host:80", append([]httptransport.ClientOption{httptransport.SetClient(l)}, opts...)...)
	rt.Assert(err == nil, "no client for a host and port")
	return c
}

// arrived checks that the call of a method succeeded and gives what reached the service.
func (l *wire) arrived(name, method string, res *pb.Res, err error) interface{} {
	if err != nil {
		rt.Observe("err", err.Error())
	}
	rt.Assert(err == nil, "the call fails")
	rt.Assert(l.calls == 1 && l.svc.calls == 1 && l.svc.name == name, "the call does not reach the endpoint of the method once")
	rt.Assert(l.method == method, "the method of the request is not that of the binding")
	rt.Assert(res != nil && l.svc.res != nil && res.Text == l.svc.res.Text && res.Num == l.svc.res.Num, "the response is changed")
	return l.svc.req
}

// under checks that the request path has the parts given.
func (l *wire) under(parts ...string) {
	rt.Assert(l.path == "/"+strings.Join(parts, "/"), "the path of the request is not that of the binding")
}

// fields gives a symbolic number to one field of four and small ones to the others.
func fields(bits int, signed bool) (p, q, o string, pv, qv, ov uint64, r []uint64, oset bool) {
	at := rt.Choice("at", 5)
	text, v := rt.Num("v", bits, signed, rt.Param("digits", 0))
	p, pv, qv = "3", 3, 5
	oset = rt.Bool("set")
	rt.Assume(at != inOptional || oset)
	n := rt.Choice("elements", 3)
	rt.Assume(n > 0 || at != inList)
	if oset {
		ov = 0
	}
	for i := 0; i < n; i++ {
		r = append(r, uint64(7*i))
	}
	switch at {
	case inPath:
		p, pv = text, v
	case inQuery:
		qv = v
	case inOptional:
		ov = v
	case inList:
		r[0] = v
	default:
		rt.Assume(n > 0)
		r[n-1] = v
	}
	return
}

// ClientInts: every value of every integer field arrives.
func ClientInts() {
	k := intKinds[rt.Choice("kind", len(intKinds))]
	p, _, _, pv, qv, ov, r, oset := fields(k.bits, k.signed)
	l := &wire{svc: &service{res: &pb.Res{Text: "ok", Num: 4}}}
	c := l.client()
	ctx := context.Background()
	var res *pb.Res
	var err error
	switch k.name {
	case "I32":
		in := &pb.I32Req{P: int32(pv), Q: int32(qv)}
		if oset {
			o := int32(ov)
			in.O = &o
		}
		for _, v := range r {
			in.R = append(in.R, int32(v))
		}
		res, err = c.I32(ctx, in)
	case "I64":
		in := &pb.I64Req{P: int64(pv), Q: int64(qv)}
		if oset {
			o := int64(ov)
			in.O = &o
		}
		for _, v := range r {
			in.R = append(in.R, int64(v))
		}
		res, err = c.I64(ctx, in)
	case "U32":
		in := &pb.U32Req{P: uint32(pv), Q: uint32(qv)}
		if oset {
			o := uint32(ov)
			in.O = &o
		}
		for _, v := range r {
			in.R = append(in.R, uint32(v))
		}
		res, err = c.U32(ctx, in)
	case "U64":
		in := &pb.U64Req{P: pv, Q: qv}
		if oset {
			o := ov
			in.O = &o
		}
		in.R = append(in.R, r...)
		res, err = c.U64(ctx, in)
	case "Tone":
		in := &pb.ToneReq{P: pb.Color(int32(pv)), Q: pb.Color(int32(qv))}
		if oset {
			o := pb.Color(int32(ov))
			in.O = &o
		}
		for _, v := range r {
			in.R = append(in.R, pb.Color(int32(v)))
		}
		res, err = c.Tone(ctx, in)
	}
	got := ints(l.arrived(k.name, "GET", res, err))
	l.under(lower(k.name), p)
	rt.Assert(got.p == in(k.bits, pv), "another value arrives in the path")
	rt.Assert(got.q == in(k.bits, qv), "another value arrives in the query")
	rt.Assert(got.oset == oset && (!oset || got.o == in(k.bits, ov)), "another optional value arrives")
	rt.Assert(len(got.r) == len(r), "a repeated field arrives with another number of elements")
	for i := range r {
		rt.Assert(got.r[i] == in(k.bits, r[i]), "another element arrives")
	}
	rt.Reach("arrived")
}

// ClientFlags: bool fields.
func ClientFlags() {
	in := &pb.FlagReq{P: rt.Bool("p"), Q: rt.Bool("q")}
	oset, o := rt.Bool("set"), rt.Bool("o")
	if oset {
		in.O = &o
	}
	n := rt.Choice("elements", 4)
	for i := 0; i < n; i++ {
		in.R = append(in.R, rt.Bool("r"+strconv.Itoa(i)))
	}
	l := &wire{svc: &service{}}
	res, err := l.client().Flag(context.Background(), in)
	x := l.arrived("Flag", "GET", res, err).(*pb.FlagReq)
	l.under("flag", strconv.FormatBool(in.P))
	rt.Assert(x.P == in.P && x.Q == in.Q, "another bool arrives")
	rt.Assert((x.O != nil) == oset && (!oset || *x.O == o), "another optional bool arrives")
	rt.Assert(len(x.R) == n, "a repeated field arrives with another number of elements")
	for i := range in.R {
		rt.Assert(x.R[i] == in.R[i], "another element arrives")
	}
	rt.Reach("arrived")
}

// ClientFloats: float fields, for the listed values.
func ClientFloats() {
	wide := rt.Bool("wide")
	bits := 32
	if wide {
		bits = 64
	}
	texts := []string{"0", "-0", "1", "-1.5", "0.1", "1e-7", "1e20", "1e21", "123456789", "16777217", "3.4028234663852886e38", "1.1754944e-38", "1e-45", "2.5e-320", "1.7976931348623157e308", "NaN", "+Inf", "-Inf", "0.30000000000000004"}
	f := func(name string) float64 {
		v, err := strconv.ParseFloat(texts[rt.Choice(name, len(texts))], bits)
		rt.Assume(err == nil)
		return v
	}
	at := rt.Choice("at", 4)
	v := f("v")
	p, q, o, r := 2.0, 0.5, 0.25, []float64{}
	oset := rt.Bool("set")
	n := rt.Choice("elements", 3)
	for i := 0; i < n; i++ {
		r = append(r, 1.25)
	}
	switch at {
	case 0:
		p = v
	case 1:
		q = v
	case 2:
		rt.Assume(oset)
		o = v
	case 3:
		rt.Assume(n > 0)
		r[n-1] = v
		if n == 1 && (v != v || v-v != 0) {
			rt.Known("lone-nonfinite")
		}
	}
	l := &wire{svc: &service{}}
	var x floats
	if wide {
		in := &pb.F64Req{P: p, Q: q, R: r}
		if oset {
			in.O = &o
		}
		res, err := l.client().F64(context.Background(), in)
		y := l.arrived("F64", "GET", res, err).(*pb.F64Req)
		x = floats{y.P, y.Q, 0, y.O != nil, y.R}
		if y.O != nil {
			x.o = *y.O
		}
	} else {
		in := &pb.F32Req{P: float32(p), Q: float32(q)}
		o32 := float32(o)
		if oset {
			in.O = &o32
		}
		for _, e := range r {
			in.R = append(in.R, float32(e))
		}
		res, err := l.client().F32(context.Background(), in)
		y := l.arrived("F32", "GET", res, err).(*pb.F32Req)
		x = floats{float64(y.P), float64(y.Q), 0, y.O != nil, nil}
		if y.O != nil {
			x.o = float64(*y.O)
		}
		for _, e := range y.R {
			x.r = append(x.r, float64(e))
		}
	}
	rt.Assert(same(x.p, p) && same(x.q, q), "another float arrives")
	rt.Assert(x.oset == oset && (!oset || same(x.o, o)), "another optional float arrives")
	rt.Assert(len(x.r) == n, "a repeated field arrives with another number of elements")
	for i := range r {
		rt.Assert(same(x.r[i], r[i]), "another element arrives")
	}
	rt.Reach("arrived")
}

type floats struct {
	p, q, o float64
	oset    bool
	r       []float64
}

// same tells whether two floats are the same value, zeros by sign.
func same(a, b float64) bool {
	if a != a || b != b {
		return a != a && b != b
	}
	return a == b && (a != 0 || 1/a == 1/b)
}

const textSet = "a/%+& =;,.\x00\xff#?\""

// ClientStrings: string fields.
func ClientStrings() {
	n := rt.Param("len", 2)
	at := rt.Choice("at", 4)
	v := rt.String("v", 0, n, textSet)
	in := &pb.StrReq{P: "p", Q: "q"}
	o := "o"
	if rt.Bool("set") {
		in.O = &o
	}
	k := rt.Choice("elements", 3)
	for i := 0; i < k; i++ {
		in.R = append(in.R, "r"+strconv.Itoa(i))
	}
	switch at {
	case 0:
		rt.Assume(v != "" && v != "." && v != ".." && !strings.Contains(v, "/"))
		in.P = v
	case 1:
		in.Q = v
	case 2:
		rt.Assume(in.O != nil)
		o = v
	case 3:
		rt.Assume(k > 0)
		// a single value is a comma separated list
		rt.Assume(k > 1 || !strings.Contains(v, ","))
		in.R[k-1] = v
	}
	want := *in
	wo := o
	l := &wire{svc: &service{}}
	res, err := l.client().Str(context.Background(), in)
	x := l.arrived("Str", "GET", res, err).(*pb.StrReq)
	l.under("str", want.P)
	rt.Assert(x.P == want.P, "another string arrives in the path")
	rt.Assert(x.Q == want.Q, "another string arrives in the query")
	rt.Assert((x.O != nil) == (want.O != nil) && (x.O == nil || *x.O == wo), "another optional string arrives")
	rt.Assert(len(x.R) == k, "a repeated field arrives with another number of elements")
	for i := range x.R {
		rt.Assert(x.R[i] == want.R[i], "another element arrives")
	}
	rt.Reach("arrived")
}

// ClientAlt: the alternatives of a oneof.
func ClientAlt() {
	in := &pb.AltReq{Name: rt.String("name", 0, 1, "a&%")}
	k := rt.Choice("alt", 8)
	var v uint64
	txt := ""
	var blob []byte
	subNum := int32(0)
	flag := false
	switch k {
	case 1:
		_, v = rt.Num("num", 32, true, 0)
		in.Alt = &pb.AltReq_Num{Num: int32(v)}
	case 2:
		_, v = rt.Num("big", 64, false, 0)
		in.Alt = &pb.AltReq_BigNum{BigNum: v}
	case 3:
		txt = rt.String("txt", 0, 2, textSet)
		in.Alt = &pb.AltReq_Txt{Txt: txt}
	case 4:
		flag = rt.Bool("flag")
		in.Alt = &pb.AltReq_Flag{Flag: flag}
	case 5:
		_, v = rt.Num("tone", 32, true, 0)
		in.Alt = &pb.AltReq_Tone{Tone: pb.Color(int32(v))}
	case 6:
		blob = []byte(rt.String("blob", 0, rt.Param("blob", 2), "a\x00\xff\xfe"))
		in.Alt = &pb.AltReq_Blob{Blob: blob}
	case 7:
		txt = rt.String("text", 0, rt.Param("text", 2), textSet[:len(textSet)-4]+"\x01<\\")
		_, v = rt.Num("subNum", 32, true, 2)
		subNum = int32(v)
		in.Alt = &pb.AltReq_Sub{Sub: &pb.Sub{Text: txt, Num: subNum}}
	}
	name := in.Name
	l := &wire{svc: &service{}}
	res, err := l.client().Alt(context.Background(), in)
	x := l.arrived("Alt", "GET", res, err).(*pb.AltReq)
	l.under("alt")
	rt.Assert(x.Name == name, "another string arrives")
	got := 0
	switch a := x.Alt.(type) {
	case *pb.AltReq_Num:
		got = 1
		rt.Assert(uint64(uint32(a.Num)) == uint64(uint32(v)), "another number arrives")
	case *pb.AltReq_BigNum:
		got = 2
		rt.Assert(a.BigNum == v, "another number arrives")
	case *pb.AltReq_Txt:
		got = 3
		rt.Assert(a.Txt == txt, "another string arrives")
	case *pb.AltReq_Flag:
		got = 4
		rt.Assert(a.Flag == flag, "another bool arrives")
	case *pb.AltReq_Tone:
		got = 5
		rt.Assert(uint64(uint32(a.Tone)) == uint64(uint32(v)), "another enum number arrives")
	case *pb.AltReq_Blob:
		got = 6
		rt.Assert(string(a.Blob) == string(blob), "other bytes arrive")
	case *pb.AltReq_Sub:
		got = 7
		rt.Assert(a.Sub != nil && a.Sub.Text == txt && a.Sub.Num == subNum, "another message arrives")
	}
	rt.Assert(got == k, "another alternative arrives")
	rt.Reach("arrived")
}

// ClientBody: requests with a body.
func ClientBody() {
	id, text, tags := "i", "t", []string{"x", ""}
	count, user, page := uint64(4), uint64(0xfffffffffffffffb), uint64(6)
	var sub *pb.Sub
	if rt.Bool("sub") {
		sub = &pb.Sub{Num: -1}
	}
	switch rt.Choice("focus", 5) {
	case 0:
		id = rt.String("id", 1, 2, "a%+ ;")
	case 1:
		text = rt.String("text", 0, 2, "a\"&")
	case 2:
		_, count = rt.Num("count", 32, true, 0)
	case 3:
		_, user = rt.Num("user", 64, true, 0)
		_, page = rt.Num("page", 32, false, 2)
	case 4:
		tags = []string{}
		for i := rt.Choice("tags", 4); i > 0; i-- {
			tags = append(tags, rt.String("tag"+strconv.Itoa(i), 0, 1, "x,&"))
		}
		page = 0
	}
	if sub != nil {
		sub.Text = text
	}
	l := &wire{svc: &service{res: &pb.Res{Text: text, Num: int64(user)}}}
	var got *pb.Sub
	var marks []string
	if rt.Bool("whole") {
		res, err := l.client().Body(context.Background(), &pb.BodyReq{Id: id, Count: int32(count), Tags: tags, Tone: pb.Color_DARK, Sub: sub})
		x := l.arrived("Body", "POST", res, err).(*pb.BodyReq)
		l.under("body", id, "full")
		rt.Assert(x.Id == id && x.Count == int32(count) && x.Tone == pb.Color_DARK, "another value arrives")
		got, marks = x.Sub, x.Tags
	} else {
		rt.Assume(len(tags) != 1 || !strings.Contains(tags[0], ","))
		res, err := l.client().Part(context.Background(), &pb.PartReq{UserId: int64(user), Sub: sub, PageSize: uint32(page), Marks: tags})
		x := l.arrived("Part", "PUT", res, err).(*pb.PartReq)
		rt.Assert(x.UserId == int64(user) && x.PageSize == uint32(page), "another value arrives")
		got, marks = x.Sub, x.Marks
	}
	rt.Assert((got != nil) == (sub != nil) && (got == nil || got.Text == text && got.Num == -1), "another message arrives")
	rt.Assert(len(marks) == len(tags), "a repeated field arrives with another number of elements")
	for i := range tags {
		rt.Assert(marks[i] == tags[i], "another element arrives")
	}
	rt.Reach("arrived")
}

// ClientBindings: every binding of a method, by its encoder.
func ClientBindings() {
	a := rt.String("a", 1, 1, "p%,")
	_, b := rt.Num("b", 32, true, 0)
	name := rt.String("name", 1, 1, "q+")
	typ := rt.String("type", 1, 1, "r& ")
	encoders := []func(context.Context, *http.Request, interface{}) error{
		pb.EncodeHTTPManyZeroRequest, pb.EncodeHTTPManyOneRequest, pb.EncodeHTTPManyTwoRequest, pb.EncodeHTTPManyThreeRequest, pb.EncodeHTTPManyFourRequest,
	}
	i := rt.Choice("binding", 6)
	l := &wire{svc: &service{}}
	in := &pb.ManyReq{A: a, B: int32(b), OrigName: name, Type: typ}
	method := ""
	if i == 5 {
		// the client's own choice
		_, err := l.client().Many(context.Background(), in)
		rt.Assert(err == nil, "the call fails")
		method = l.method
	} else {
		// every verb is tried: the binding's own must work
		method = rt.Pick("verb", "GET", "POST", "DELETE", "PATCH", "HEAD")
		r, err := http.NewRequest(method, "http://host:80/many/", nil)
		rt.Assert(err == nil, "no request")
		rt.Assert(encoders[i](context.Background(), r, in) == nil, "the request is not encoded")
		_, err = l.Do(r)
		rt.Assert(err == nil, "the call fails")
	}
	num := strconv.FormatInt(int64(int32(b)), 10)
	paths := map[string]string{"GET": "/many/" + a + "/x/" + num, "POST": "/many/" + typ, "DELETE": "/many/" + num + "/y", "PATCH": "/many/z/" + name, "HEAD": "/many/head/" + num}
	if l.svc.calls == 0 {
		rt.Assert(i < 5, "the call does not reach the service")
		rt.Assert(l.path != paths[method], "the binding's own request is refused")
		rt.Reach("refused")
		return
	}
	rt.Assert(l.path == paths[method], "the path of the request is not that of the binding")
	rt.Assert(l.svc.name == "Many" && l.svc.calls == 1, "the call does not reach the endpoint of the method once")
	x := l.svc.req.(*pb.ManyReq)
	rt.Assert(x.A == a && x.B == int32(b) && x.OrigName == name && x.Type == typ, "another value arrives")
	if i < 5 {
		rt.Reach("binding" + strconv.Itoa(i))
	}
	rt.Reach("arrived")
}

// ClientNext: parameters with text next to them, by the encoder of each binding.
func ClientNext() {
	id := rt.String("id", 1, rt.Param("len", 2), "i:%g o")
	step := rt.String("step", 1, rt.Param("len", 2), "sx-:v")
	_, num := rt.Num("num", 32, true, 0)
	in := &pb.NextReq{Id: id, Num: int32(num), Step: step}
	l := &wire{svc: &service{}}
	paths := map[string]string{"POST": "/next/" + id + ":go", "GET": "/next/v" + strconv.FormatInt(int64(int32(num)), 10) + "/x-" + step}
	method := rt.Pick("verb", "POST", "GET")
	if own := rt.Bool("own"); own {
		// the client's own choice
		_, err := l.client().Next(context.Background(), in)
		rt.Assert(err == nil && l.svc.calls == 1, "the call fails")
		method = l.method
	} else {
		encode := pb.EncodeHTTPNextZeroRequest
		if rt.Bool("other") {
			encode = pb.EncodeHTTPNextOneRequest
		}
		r, err := http.NewRequest(method, "http://host:80/next/", nil)
		rt.Assert(err == nil, "no request")
		rt.Assert(encode(context.Background(), r, in) == nil, "the request is not encoded")
		_, err = l.Do(r)
		rt.Assert(err == nil, "the call fails")
	}
	if l.svc.calls == 0 {
		rt.Assert(l.path != paths[method], "the binding's own request is refused")
		rt.Reach("refused")
		return
	}
	rt.Assert(l.path == paths[method], "the path of the request is not that of the binding")
	rt.Assert(l.svc.calls == 1 && l.svc.name == "Next", "the call does not reach the endpoint of the method once")
	x := l.svc.req.(*pb.NextReq)
	rt.Assert(x.Id == id && x.Num == int32(num) && x.Step == step, "another value arrives")
	rt.Reach(method)
}

// ClientHost: the client goes to the host it is given, and to nothing else.
func ClientHost() {
	name := rt.String("host", 1, rt.Param("len", 1), "h1tp-")
	rt.Assume(name[0] != '-')
	if rt.Bool("like a scheme") {
		name = "http" + name
	}
	name += []string{"", ":80", ".example.com"}[rt.Choice("port", 3)]
	scheme := rt.Pick("scheme", "", "http://", "https://")
	host := scheme + name + rt.Pick("path", "", "/", "/base")
	rt.Assume(scheme != "" || host == name)
	l := &wire{svc: &service{}, base: "http://" + name}
	if scheme != "" {
		l.base = scheme + name
	}
	c, err := pb.NewHTTPClient(host, httptransport.SetClient(l))
	rt.Assert(err == nil, "no client for a host and port")
	_, err = c.Alt(context.Background(), &pb.AltReq{Name: "n"})
	rt.Assert(err == nil, "the call fails")
	l.under("alt")
	rt.Reach("arrived")
}
