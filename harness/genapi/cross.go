package genapi

import (
	"context"
	"errors"
	"io/ioutil"
	"net/http"
	"strings"

	httptransport "github.com/teamlint/baron/internal/zzverif/ext/github.com/go-kit/kit/transport/http"
	"github.com/teamlint/baron/internal/zzverif/genapi/pb"
	"github.com/teamlint/baron/internal/zzverif/rt"
)

// The kinds of errors a handler may return.
type coded struct {
	msg  string
	code int
}

func (e coded) Error() string   { return e.msg }
func (e coded) StatusCode() int { return e.code }

type headed struct {
	coded
	h http.Header
}

func (e headed) Headers() http.Header { return e.h }

type written struct {
	coded
	body string
	fail bool
}

func (e written) MarshalJSON() ([]byte, error) {
	if e.fail {
		return nil, errors.New("cannot marshal")
	}
	return []byte(e.body), nil
}

type onlyHeaders struct {
	msg string
	h   http.Header
}

func (e onlyHeaders) Error() string        { return e.msg }
func (e onlyHeaders) Headers() http.Header { return e.h }

func code3(name string) int {
	_, n := rt.Num(name, 64, false, 3)
	rt.Assume(n >= 100 && n != 200)
	return int(n)
}

func endsWith(s, t string) bool { return len(s) >= len(t) && s[len(s)-len(t):] == t }

// Errors: an error of a handler reaches the client.
func Errors() {
	msg := rt.String("msg", 0, rt.Param("len", 2), "a\"\\\n<\x01") + rt.Pick("more", "", "é", "\u2028")
	kind := rt.Choice("kind", 6)
	want := 500
	h := http.Header{}
	for i := rt.Choice("headers", 3); i > 0; i-- {
		k := "X-" + string([]byte{byte('0' + i)})
		h[k] = []string{}
		for j := rt.Choice("values"+k, 3); j > 0; j-- {
			h[k] = append(h[k], "v"+string([]byte{byte('0' + j)}))
		}
	}
	rt.Assume(kind == 2 || kind == 5 || len(h) == 0)
	var err error
	switch kind {
	case 0:
		err = errors.New(msg)
	case 1:
		want = code3("code")
		err = coded{msg, want}
	case 2:
		want = code3("code")
		err = headed{coded{msg, want}, h}
	case 3:
		want = code3("code")
		err = written{coded{"other", want}, `{"x":1,"error":"W"}`, false}
		msg = "W"
	case 4:
		want = code3("code")
		err = written{coded{msg, want}, "", true}
	case 5:
		err = onlyHeaders{msg, h}
	}
	l := &wire{svc: &service{err: err}}
	var w *recorder
	l.seen = func(x *recorder) { w = x }
	res, got := l.client().Alt(context.Background(), &pb.AltReq{Name: "n"})
	rt.Assert(l.svc.calls == 1, "the handler is not called once")
	rt.Observe("code", w.code)
	rt.Observe("body", string(w.body))
	rt.Assert(w.code == want, "an error is answered with another status")
	for k, vs := range h {
		rt.Assert(len(w.h[k]) == len(vs), "a header of the error has another number of values")
		for i := range vs {
			rt.Assert(w.h[k][i] == vs[i], "a header of the error is changed")
		}
	}
	if kind == 3 {
		rt.Assert(string(w.body) == `{"x":1,"error":"W"}`, "the body of the error is changed")
	}
	rt.Assert(got != nil && res == nil, "an error is reported as a success")
	rt.Observe("err", got.Error())
	rt.Assert(endsWith(got.Error(), msg), "the client's error does not carry the message")
	rt.Reach("reported")
}

// Statuses: the client reports everything but 200 as an error, whatever the body.
func Statuses() {
	_, n := rt.Num("code", 64, false, 3)
	rt.Assume(n >= 100)
	body := rt.Pick("body", "", "{}", `{"error":"E"}`, `{"error":5}`, "not json", `{"text":"t"}`, "null") + rt.String("more", 0, 1, " }")
	name := methodNames[rt.Choice("method", len(methodNames)-1)]
	l := &wire{svc: &service{}, answer: &recorder{h: http.Header{}, code: int(n), body: []byte(body)}}
	res, err := call(l.client(), context.Background(), name, requestOf(name, 1))
	if n != 200 {
		rt.Assert(err != nil && res == nil, "a response that is not a success is reported as one")
		if body == `{"error":"E"}` {
			rt.Assert(endsWith(err.Error(), "E"), "the client's error does not carry the message")
		}
		rt.Reach("error")
		return
	}
	switch body {
	case "{}", "{} ", `{"error":"E"}`, `{"error":"E"} `, `{"error":5}`, `{"error":5} `:
		// a response without fields; names it does not know are ignored
		rt.Assert(err == nil && res != nil && res.Text == "" && res.Num == 0, "a success is reported as an error")
		rt.Reach("empty")
	case `{"text":"t"}`, `{"text":"t"} `:
		rt.Assert(err == nil && res != nil && res.Text == "t" && res.Num == 0, "a success is reported as an error")
		rt.Reach("text")
	default:
		rt.Assert(err != nil && res == nil, "a body that is no response is reported as one")
		rt.Reach("garbage")
	}
}

// Successes: every response of every method arrives and is no error.
func Successes() {
	name := methodNames[rt.Choice("method", len(methodNames)-1)]
	_, n := rt.Num("n", 64, true, 0)
	svc := &service{res: &pb.Res{Text: rt.String("text", 0, 2, "e{}\""), Num: int64(n)}}
	l := &wire{svc: svc}
	res, err := call(l.client(), context.Background(), name, requestOf(name, 1))
	rt.Assert(err == nil && res != nil, "a success is reported as an error")
	rt.Assert(svc.calls == 1 && svc.name == name, "another method is called, or not once")
	rt.Assert(res.Text == svc.res.Text && res.Num == svc.res.Num, "the response is changed")
	rt.Reach("response")
}

const nameSet = "aB-9"

// Headers: request headers reach the context of the handler.
func Headers() {
	h := http.Header{}
	var names []string
	n := 1 + rt.Choice("more", rt.Param("more", 2))
	for i := 0; i < n; i++ {
		k := http.CanonicalHeaderKey("H" + rt.String("name", 1, rt.Param("len", 2), nameSet))
		v := rt.String("value", 0, 1, "xY")
		if _, ok := h[k]; !ok {
			names = append(names, k)
		}
		h[k] = append(h[k], v)
	}
	svc := &service{}
	w := &recorder{h: http.Header{}}
	r, err := http.NewRequest("GET", "http://h/alt", nil)
	rt.Assert(err == nil, "no request")
	r.Header = h
	r.Body = ioutil.NopCloser(strings.NewReader(""))
	pb.MakeHTTPHandler(svc.endpoints(), httptransport.ServerBefore(pb.HTTPHeadersToContext)).ServeHTTP(w, r)
	rt.Assert(svc.calls == 1, "the handler is not called once")
	for _, k := range names {
		rt.Assert(svc.ctx.Value(k) == h[k][0], "a header does not reach the context under its name")
		rt.Assert(svc.ctx.Value(strings.ToLower(k)) == h[k][0], "a header does not reach the context under its lower-case name")
	}
	rt.Assert(svc.ctx.Value("request-url") == "/alt" && svc.ctx.Value("transport") == "HTTPJSON", "the transport is not told")
	rt.Reach("seen")
}

// Sent: the keys the client selects are sent, and arrive in the handler's context.
func Sent() {
	n := 1 + rt.Choice("keys", rt.Param("keys", 2))
	ctx := context.Background()
	var keys []string
	want := map[string]string{}
	for i := 0; i < n; i++ {
		k := "k" + rt.String("key", 0, rt.Param("len", 2), nameSet)
		keys = append(keys, k)
		for _, o := range keys[:i] {
			rt.Assume(!strings.EqualFold(o, k))
		}
		switch rt.Choice("set", 3) {
		case 0:
			v := rt.String("value", 0, 1, "xY")
			ctx = context.WithValue(ctx, k, v)
			want[k] = v
		case 1:
			// not a string
			ctx = context.WithValue(ctx, k, 5)
		}
	}
	other := rt.Bool("other")
	if other {
		ctx = context.WithValue(ctx, "unselected", "u")
	}
	l := &wire{svc: &service{}}
	_, err := l.client(pb.CtxValuesToSend(keys...)).Alt(ctx, &pb.AltReq{Name: "n"})
	rt.Assert(err == nil && l.svc.calls == 1, "the call fails")
	for _, k := range keys {
		v, ok := want[k]
		vs := l.header[http.CanonicalHeaderKey(k)]
		if !ok {
			rt.Assert(len(vs) == 0, "a header is sent for a key without a value")
			continue
		}
		rt.Assert(len(vs) == 1 && vs[0] == v, "the value of a selected key is not sent")
		rt.Assert(l.svc.ctx.Value(http.CanonicalHeaderKey(k)) == v && l.svc.ctx.Value(strings.ToLower(k)) == v, "the value of a selected key does not arrive")
	}
	rt.Assert(len(l.header["Unselected"]) == 0, "a key not selected is sent")
	rt.Reach("sent")
}
