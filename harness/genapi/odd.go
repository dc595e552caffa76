package genapi

import (
	"context"
	"net/http"
	"strconv"

	"github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/protobuf/types/known/timestamppb"
	"github.com/teamlint/baron/internal/zzverif/genapi/pb"
	"github.com/teamlint/baron/internal/zzverif/rt"
)

// numberOr gives a number's text and value, or a text that is no number of 32 bits.
func numberOr(name string, signed bool) (text string, v uint64, ok bool) {
	if rt.Bool("no") {
		if signed {
			return rt.Pick(name, "2147483648", "-2147483649", "1x", "", "99999999999999999999", "0x1", "1.0"), 0, false
		}
		return rt.Pick(name, "4294967296", "-1", "1x", "", "99999999999999999999", "+1"), 0, false
	}
	text, v = rt.Num(name, 32, signed, 0)
	return text, v, true
}

// OptValues: optional fields in the path and the query.
func OptValues() {
	s, n, c, u, f := "s", "3", "1", "7", "true"
	nv, cv, uv, fv := uint64(3), uint64(1), uint64(7), true
	want := true
	others := rt.Bool("others")
	first := rt.Bool("first")
	focus := rt.Choice("focus", 5)
	// what is not sent cannot be wrong
	rt.Assume(others || (focus < 3) == first)
	switch focus {
	case 0:
		s = rt.String("s", 1, 2, "a.-~")
		rt.Assume(s != "." && s != "..")
	case 1:
		n, nv, want = numberOr("n", true)
	case 2:
		c, cv, want = numberOr("c", true)
	case 3:
		u, uv = rt.Num("u", 64, false, 0)
	case 4:
		f = rt.Pick("f", "false", "1", "0", "T", "F", "yes", "2", "truex")
		fv, want = f == "1" || f == "T", f != "yes" && f != "2" && f != "truex"
	}
	method, path, query := "GET", "/opt/"+s+"/"+n+"/"+c, "u="+u+"&f="+f
	if !first {
		method, path, query = "PUT", "/opt/"+u+"/"+f, "c="+c+"&s="+s+"&n="+n
	}
	if others {
		query += "&d=-2.5&y=%22/w==%22"
	} else {
		query = ""
	}
	svc := &service{}
	ok := svc.accepted("Opt", svc.serve(method, path, query, nil, []byte{}))
	rt.Observe("ok", ok)
	rt.Assert(ok == want, "a value is rejected, or something else accepted")
	if !ok {
		rt.Reach("rejected")
		return
	}
	x := svc.req.(*pb.OptReq)
	inFirst, inSecond := first || others, !first || others
	rt.Assert((x.S != nil) == inFirst && (x.N != nil) == inFirst && (x.C != nil) == inFirst, "an optional field is set that was not sent, or the reverse")
	rt.Assert((x.U != nil) == inSecond && (x.F != nil) == inSecond, "an optional field is set that was not sent, or the reverse")
	rt.Assert((x.D != nil) == others && (x.Y != nil) == others, "an optional field is set that was not sent, or the reverse")
	if inFirst {
		rt.Assert(*x.S == s && *x.N == int32(nv) && *x.C == pb.Color(int32(cv)), "another value arrives")
	}
	if inSecond {
		rt.Assert(*x.U == uv && *x.F == fv, "another value arrives")
	}
	if others {
		rt.Assert(*x.D == -2.5 && string(x.Y) == "\xff", "another value arrives")
	}
	rt.Reach("accepted")
}

// OddValues: two oneofs, nested types, names which Go or protobuf treat specially.
func OddValues() {
	reset, camel := "r", "c"
	lead, d, kind := "4", "5", "2"
	lv, dv, kv := uint64(4), uint64(5), uint64(2)
	want := true
	first := rt.Choice("first", 4)
	second := rt.Choice("second", 6)
	lists := rt.Choice("lists", 4)
	switch rt.Choice("focus", 5) {
	case 0:
		reset = rt.String("reset", 1, 2, "r.{")
		rt.Assume(reset != "." && reset != "..")
	case 1:
		camel = rt.String("camel", 1, 2, "c.}")
		rt.Assume(camel != "." && camel != "..")
	case 2:
		lead, lv, want = numberOr("lead", true)
	case 3:
		rt.Assume(second == 1)
		d, dv, want = numberOr("d", false)
	case 4:
		rt.Assume(second == 2)
		kind, kv, want = numberOr("kind", true)
	}
	query := "_lead=" + lead
	query += []string{"", "&a=-9", "&b=1.5", "&a=-9&b=1.5"}[first]
	query += []string{"", "&d=" + d, "&kind=" + kind, "&at=%7B%22seconds%22:3%7D", "&g=0.5", "&d=" + d + "&kind=" + kind}[second]
	query += []string{"", "&kinds=2", "&kinds=0&kinds=-1&kinds=2", "&inners=%5B%7B%22num%22:1%7D,%7B%7D%5D&string=%7B%22text%22:%22t%22%7D&times_2=%5B%7B%22nanos%22:6%7D%5D"}[lists]
	want = want && first != 3 && second != 5
	svc := &service{}
	ok := svc.accepted("Odd", svc.serve("GET", "/odd/"+reset+"/"+camel, query, nil, []byte{}))
	rt.Observe("ok", ok)
	rt.Assert(ok == want, "a value is rejected, or something else accepted")
	if !ok {
		rt.Reach("rejected")
		return
	}
	x := svc.req.(*pb.OddReq)
	rt.Assert(x.Reset_ == reset && x.CamelCase == camel && x.XLead == int32(lv) && len(x.Counts) == 0, "another value arrives")
	switch a := x.First.(type) {
	case nil:
		rt.Assert(first == 0, "no alternative arrives")
	case *pb.OddReq_A:
		rt.Assert(first == 1 && a.A == -9, "another alternative arrives")
	case *pb.OddReq_B:
		rt.Assert(first == 2 && a.B == 1.5, "another alternative arrives")
	}
	switch a := x.Second.(type) {
	case nil:
		rt.Assert(second == 0, "no alternative arrives")
	case *pb.OddReq_D:
		rt.Assert(second == 1 && a.D == uint32(dv), "another alternative arrives")
	case *pb.OddReq_Kind:
		rt.Assert(second == 2 && a.Kind == pb.Outer_Kind(int32(kv)), "another alternative arrives")
	case *pb.OddReq_At:
		rt.Assert(second == 3 && a.At != nil && a.At.Seconds == 3 && a.At.Nanos == 0, "another alternative arrives")
	case *pb.OddReq_G:
		rt.Assert(second == 4 && a.G == 0.5, "another alternative arrives")
	}
	switch lists {
	case 1:
		rt.Assert(len(x.Kinds) == 1 && x.Kinds[0] == pb.Outer_B, "another list arrives")
	case 2:
		rt.Assert(len(x.Kinds) == 3 && x.Kinds[0] == pb.Outer_A && x.Kinds[1] == -1 && x.Kinds[2] == pb.Outer_B, "another list arrives")
	default:
		rt.Assert(len(x.Kinds) == 0, "another list arrives")
	}
	if lists == 3 {
		rt.Assert(len(x.Inners) == 2 && x.Inners[0].Num == 1 && x.Inners[1].Num == 0, "another list arrives")
		rt.Assert(x.String_ != nil && x.String_.Text == "t", "another message arrives")
		rt.Assert(len(x.Times_2) == 1 && x.Times_2[0].Nanos == 6, "another list arrives")
	} else {
		rt.Assert(len(x.Inners) == 0 && x.String_ == nil && len(x.Times_2) == 0, "a field arrives that was not sent")
	}
	rt.Reach("accepted")
}

// encoded sends what an encoder makes of a request and gives what arrives.
func (l *wire) encoded(encode func(context.Context, *http.Request, interface{}) error, name, method string, req interface{}) interface{} {
	r, err := http.NewRequest(method, l.at(), nil)
	rt.Assert(err == nil, "no request")
	rt.Assert(encode(context.Background(), r, req) == nil, "the request is not encoded")
	_, err = l.Do(r)
	rt.Assert(err == nil, "the call fails")
	rt.Assert(l.svc.calls == 1 && l.svc.name == name, "the call does not reach the endpoint of the method once")
	return l.svc.req
}

// ClientOpt: optional fields in the path and the query.
func ClientOpt() {
	s, n, c, u, f, d, y := "s", uint64(3), uint64(1), uint64(0), false, 0.0, ""
	switch rt.Choice("focus", 7) {
	case 0:
		s = rt.String("s", 1, 2, "a% &\xc3\xa9")
	case 1:
		_, n = rt.Num("n", 32, true, 0)
	case 2:
		_, c = rt.Num("c", 32, true, 0)
	case 3:
		_, u = rt.Num("u", 64, false, 0)
	case 4:
		f = true
	case 5:
		d = []float64{-0.5, 1e300, 5e-324, 123456789}[rt.Choice("d", 4)]
	case 6:
		y = rt.String("y", 0, 2, "a\xff")
	}
	set := rt.Bool("set")
	first := rt.Bool("first")
	in := &pb.OptReq{}
	if first || set {
		s, n, c := s, int32(n), pb.Color(int32(c))
		in.S, in.N, in.C = &s, &n, &c
	}
	if !first || set {
		u, f := u, f
		in.U, in.F = &u, &f
	}
	if set {
		d := d
		in.D, in.Y = &d, []byte(y)
	}
	l := &wire{svc: &service{}}
	num := func(v uint64) string { return strconv.FormatInt(int64(int32(v)), 10) }
	var x *pb.OptReq
	if first {
		x = l.encoded(pb.EncodeHTTPOptOneRequest, "Opt", "GET", in).(*pb.OptReq)
		l.under("opt", s, num(n), num(c))
	} else {
		x = l.encoded(pb.EncodeHTTPOptZeroRequest, "Opt", "PUT", in).(*pb.OptReq)
		l.under("opt", strconv.FormatUint(u, 10), strconv.FormatBool(f))
	}
	rt.Assert((x.S != nil) == (first || set) && (x.N != nil) == (first || set) && (x.C != nil) == (first || set), "an optional field arrives that was not set, or the reverse")
	rt.Assert((x.U != nil) == (!first || set) && (x.F != nil) == (!first || set), "an optional field arrives that was not set, or the reverse")
	rt.Assert((x.D != nil) == set && (x.Y != nil) == set, "an optional field arrives that was not set, or the reverse")
	if x.S != nil {
		rt.Assert(*x.S == s && *x.N == int32(n) && *x.C == pb.Color(int32(c)), "another value arrives")
	}
	if x.U != nil {
		rt.Assert(*x.U == u && *x.F == f, "another value arrives")
	}
	if x.D != nil {
		rt.Assert(*x.D == d && string(x.Y) == y, "another value arrives")
	}
	rt.Reach("arrived")
}

// ClientOdd: two oneofs, nested types, special names, by the encoder of each binding.
func ClientOdd() {
	reset, camel, text := "r", "c", "t"
	lead, a, d, kind, last := uint64(4), uint64(0), uint64(0), uint64(2), uint64(1)
	first, second, some := rt.Choice("first", 3), rt.Choice("second", 5), rt.Choice("some", 3)
	switch rt.Choice("focus", 8) {
	case 0:
		reset = rt.String("reset", 1, 2, "r%& ")
	case 1:
		camel = rt.String("camel", 1, 2, "c+;")
	case 2:
		_, lead = rt.Num("lead", 32, true, 0)
	case 3:
		rt.Assume(first == 1)
		_, a = rt.Num("a", 64, true, 0)
	case 4:
		rt.Assume(second == 1)
		_, d = rt.Num("d", 32, false, 0)
	case 5:
		rt.Assume(second == 2)
		_, kind = rt.Num("kind", 32, true, 0)
	case 6:
		rt.Assume(some > 0)
		_, last = rt.Num("last", 32, true, 0)
	case 7:
		rt.Assume(some > 0)
		text = rt.String("text", 0, 1, "a\"\x01&")
	}
	in := &pb.OddReq{Reset_: reset, CamelCase: camel, XLead: int32(lead)}
	switch first {
	case 1:
		in.First = &pb.OddReq_A{A: int64(a)}
	case 2:
		in.First = &pb.OddReq_B{B: -1.5}
	}
	switch second {
	case 1:
		in.Second = &pb.OddReq_D{D: uint32(d)}
	case 2:
		in.Second = &pb.OddReq_Kind{Kind: pb.Outer_Kind(int32(kind))}
	case 3:
		in.Second = &pb.OddReq_At{At: &timestamppb.Timestamp{Seconds: -2, Nanos: 3}}
	case 4:
		in.Second = &pb.OddReq_G{G: 0}
	}
	if some > 0 {
		in.String_ = &pb.Outer_Inner{Text: text, Num: int32(last)}
	}
	for i := 0; i < some; i++ {
		k := pb.Outer_Kind(i)
		if i == some-1 {
			k = pb.Outer_Kind(int32(last))
		}
		in.Kinds = append(in.Kinds, k)
		in.Inners = append(in.Inners, &pb.Outer_Inner{Num: int32(i), Text: text})
		in.Times_2 = append(in.Times_2, &timestamppb.Timestamp{Nanos: int32(i)})
		in.Counts = map[string]int32{"k": int32(i)}
	}
	l := &wire{svc: &service{}}
	var x *pb.OddReq
	b := rt.Choice("binding", 3)
	switch b {
	case 0:
		x = l.encoded(pb.EncodeHTTPOddZeroRequest, "Odd", "POST", in).(*pb.OddReq)
	case 1:
		x = l.encoded(pb.EncodeHTTPOddOneRequest, "Odd", "PUT", in).(*pb.OddReq)
	case 2:
		x = l.encoded(pb.EncodeHTTPOddTwoRequest, "Odd", "GET", in).(*pb.OddReq)
	}
	if b == 2 {
		l.under("odd", reset, camel)
	} else if b == 0 {
		l.under("odd", strconv.FormatInt(int64(int32(lead)), 10))
		rt.Assert(len(x.Counts) == len(in.Counts) && (some == 0 || x.Counts["k"] == int32(some-1)), "another map arrives")
	} else {
		l.under("odd", strconv.FormatInt(int64(int32(lead)), 10))
	}
	rt.Assert(x.Reset_ == reset && x.CamelCase == camel && x.XLead == int32(lead), "another value arrives")
	switch v := x.First.(type) {
	case nil:
		rt.Assert(first == 0, "no alternative arrives")
	case *pb.OddReq_A:
		rt.Assert(first == 1 && v.A == int64(a), "another alternative arrives")
	case *pb.OddReq_B:
		rt.Assert(first == 2 && v.B == -1.5, "another alternative arrives")
	}
	switch v := x.Second.(type) {
	case nil:
		rt.Assert(second == 0, "no alternative arrives")
	case *pb.OddReq_D:
		rt.Assert(second == 1 && v.D == uint32(d), "another alternative arrives")
	case *pb.OddReq_Kind:
		rt.Assert(second == 2 && v.Kind == pb.Outer_Kind(int32(kind)), "another alternative arrives")
	case *pb.OddReq_At:
		rt.Assert(second == 3 && v.At != nil && v.At.Seconds == -2 && v.At.Nanos == 3, "another alternative arrives")
	case *pb.OddReq_G:
		rt.Assert(second == 4 && v.G == 0, "another alternative arrives")
	}
	rt.Assert((x.String_ != nil) == (some > 0) && (some == 0 || x.String_.Text == text && x.String_.Num == int32(last)), "another message arrives")
	rt.Assert(len(x.Kinds) == some && len(x.Inners) == some && len(x.Times_2) == some, "a repeated field arrives with another number of elements")
	for i := range x.Kinds {
		k := pb.Outer_Kind(i)
		if i == some-1 {
			k = pb.Outer_Kind(int32(last))
		}
		rt.Assert(x.Kinds[i] == k && x.Inners[i].Num == int32(i) && x.Inners[i].Text == text && x.Times_2[i].Nanos == int32(i) && x.Times_2[i].Seconds == 0, "another element arrives")
	}
	rt.Reach("arrived")
}
