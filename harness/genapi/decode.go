package genapi

import (
	"net/url"
	"strconv"

	"github.com/teamlint/baron/internal/zzverif/genapi/pb"
	"github.com/teamlint/baron/internal/zzverif/rt"
)

type intKind struct {
	name   string
	bits   int
	signed bool
	max    string // largest value
	min    string // smallest, without sign
	one    string // query name of the oneof alternative
}

var intKinds = []intKind{
	{"I32", 32, true, "2147483647", "2147483648", "num"},
	{"I64", 64, true, "9223372036854775807", "9223372036854775808", ""},
	{"U32", 32, false, "4294967295", "", ""},
	{"U64", 64, false, "18446744073709551615", "", "big_num"},
	{"Tone", 32, true, "2147483647", "2147483648", "tone"},
}

func lower(s string) string {
	b := []byte(s)
	b[0] += 'a' - 'A'
	return string(b)
}

// in gives a number as a field of so many bits holds it.
func in(bits int, v uint64) uint64 {
	if bits == 32 {
		return uint64(uint32(v))
	}
	return v
}

// nums holds the number fields of a request, in two's complement of the field's width.
type nums struct {
	p, q uint64
	o    uint64
	oset bool
	r    []uint64
}

func ints(req interface{}) nums {
	n := nums{}
	switch x := req.(type) {
	case *pb.I32Req:
		n.p, n.q = uint64(uint32(x.P)), uint64(uint32(x.Q))
		if x.O != nil {
			n.o, n.oset = uint64(uint32(*x.O)), true
		}
		for _, v := range x.R {
			n.r = append(n.r, uint64(uint32(v)))
		}
	case *pb.I64Req:
		n.p, n.q = uint64(x.P), uint64(x.Q)
		if x.O != nil {
			n.o, n.oset = uint64(*x.O), true
		}
		for _, v := range x.R {
			n.r = append(n.r, uint64(v))
		}
	case *pb.U32Req:
		n.p, n.q = uint64(x.P), uint64(x.Q)
		if x.O != nil {
			n.o, n.oset = uint64(*x.O), true
		}
		for _, v := range x.R {
			n.r = append(n.r, uint64(v))
		}
	case *pb.U64Req:
		n.p, n.q = x.P, x.Q
		if x.O != nil {
			n.o, n.oset = *x.O, true
		}
		n.r = x.R
	case *pb.ToneReq:
		n.p, n.q = uint64(uint32(x.P)), uint64(uint32(x.Q))
		if x.O != nil {
			n.o, n.oset = uint64(uint32(*x.O)), true
		}
		for _, v := range x.R {
			n.r = append(n.r, uint64(uint32(v)))
		}
	}
	return n
}

const (
	inPath = iota
	inQuery
	inOptional
	inList
	inSingle
	inOneof
	places
)

// sent is a request with text in one place and plain values elsewhere.
type sent struct {
	method, path, query string
	first               bool // of the two elements of a list
}

func place(name, text string, at int, other, one string) sent {
	r := sent{method: name, path: "/" + lower(name) + "/" + other}
	switch at {
	case inPath:
		r.path = "/" + lower(name) + "/" + text
	case inQuery:
		r.query = "q=" + url.QueryEscape(text)
	case inOptional:
		r.query = "o=" + url.QueryEscape(text)
	case inList:
		r.first = rt.Bool("first")
		a, b := text, other
		if !r.first {
			a, b = other, text
		}
		r.query = "r=" + url.QueryEscape(a) + "&r=" + url.QueryEscape(b)
	case inSingle:
		r.query = "r=" + url.QueryEscape(text)
	case inOneof:
		rt.Assume(one != "")
		r.method, r.path, r.query = "Alt", "/alt", one+"="+url.QueryEscape(text)
	}
	return r
}

// intAt is the number at the place, after checking that nothing else is set.
func intAt(req interface{}, at int, s sent, other uint64) (v uint64) {
	if at == inOneof {
		x := req.(*pb.AltReq)
		rt.Assert(x.Name == "", "a field not in the request is set")
		switch a := x.Alt.(type) {
		case *pb.AltReq_Num:
			return uint64(uint32(a.Num))
		case *pb.AltReq_BigNum:
			return a.BigNum
		case *pb.AltReq_Tone:
			return uint64(uint32(a.Tone))
		}
		rt.Fail("another alternative is set")
	}
	n := ints(req)
	rt.Assert(at == inPath || n.p == other, "the value in the path is changed")
	rt.Assert(at == inQuery || n.q == 0, "a query field not in the request is set")
	rt.Assert((at == inOptional) == n.oset, "an optional field is set without being in the request, or the reverse")
	switch at {
	case inPath:
		return n.p
	case inQuery:
		return n.q
	case inOptional:
		return n.o
	case inList:
		rt.Assert(len(n.r) == 2, "a repeated field has the wrong number of elements")
		if s.first {
			rt.Assert(n.r[1] == other, "another element of a repeated field arrives")
			return n.r[0]
		}
		rt.Assert(n.r[0] == other, "another element of a repeated field arrives")
		return n.r[1]
	}
	rt.Assert(len(n.r) == 1, "a repeated field has the wrong number of elements")
	return n.r[0]
}

// IntValues: every value of every integer kind in every place arrives exactly.
func IntValues() {
	k := intKinds[rt.Choice("kind", len(intKinds))]
	at := rt.Choice("at", places)
	text, v := rt.Num("v", k.bits, k.signed, rt.Param("digits", 0))
	s := place(k.name, text, at, "7", k.one)
	svc := &service{}
	w := svc.serve("GET", s.path, s.query, nil, nil)
	rt.Observe("code", w.code)
	rt.Assert(svc.accepted(s.method, w), "a valid value is rejected")
	got := intAt(svc.req, at, s, 7)
	rt.Observe("got", got)
	rt.Assert(got == in(k.bits, v), "another value arrives")
	rt.Reach("value")
}

// longer gives the numerals of n digits, told apart by how their first twenty
// digits compare with the largest 64-bit number.
func longer(n int) string {
	const top = "18446744073709551615"
	if n < len(top) {
		return rt.String("first", 1, 1, "123456789") + rt.String("rest", n-1, n-1, "0123456789")
	}
	i := rt.Choice("departs", len(top)+1)
	text := top[:i]
	if i < len(top) {
		low, high := 0, int(top[i]-'0')
		if i == 0 {
			low = 1
		}
		if rt.Bool("more") {
			low, high = high+1, 10
		}
		rt.Assume(low < high)
		text += rt.String("digit", 1, 1, "0123456789"[low:high])
	}
	return text + rt.String("rest", n-len(text), n-len(text), "0123456789")
}

// IntRange: numerals beyond the range of the field are rejected.
func IntRange() {
	k := intKinds[rt.Choice("kind", len(intKinds))]
	at := rt.Choice("at", places)
	neg := rt.Bool("neg")
	lim := k.max
	if neg {
		lim = k.min
	}
	text := ""
	if lim == "" {
		// below zero
		text = rt.String("first", 1, 1, "123456789") + rt.String("rest", 0, rt.Param("rest", 2), "0123456789")
	} else if extra := rt.Choice("extra", 5); extra > 0 {
		rt.Assume(at == inQuery)
		n := []int{0, len(lim) + 1, 20, 21, 30}[extra]
		rt.Assume(n > len(lim))
		text = longer(n)
	} else {
		// agrees with the limit up to some digit and is larger there
		i := rt.Choice("differs", len(lim))
		rt.Assume(lim[i] < '9')
		text = lim[:i] + rt.String("larger", 1, 1, "0123456789"[lim[i]-'0'+1:]) + rt.String("rest", len(lim)-i-1, len(lim)-i-1, "0123456789")
	}
	if neg {
		text = "-" + text
	}
	s := place(k.name, text, at, "7", k.one)
	svc := &service{}
	w := svc.serve("GET", s.path, s.query, nil, nil)
	rt.Observe("code", w.code)
	rt.Assert(!svc.accepted(s.method, w), "a value out of range is accepted")
	rt.Reach("range")
}

// numeral reads [+-]digits; plain means no plus sign, no leading zeros, no -0.
func numeral(s string) (v int64, ok, plain bool) {
	i, neg := 0, false
	plain = true
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		neg = s[i] == '-'
		plain = s[i] == '-'
		i++
	}
	if i == len(s) {
		return 0, false, false
	}
	if s[i] == '0' && (len(s) > i+1 || i > 0) {
		plain = false
	}
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false, false
		}
		v = v*10 + int64(s[i]-'0')
	}
	if neg {
		v = -v
	}
	return v, true, plain
}

// IntSyntax: short texts are accepted if and only if they are numerals.
func IntSyntax() {
	k := intKinds[rt.Choice("kind", len(intKinds))]
	at := rt.Choice("at", places)
	rt.Assume(at != inSingle)
	text := rt.String("text", 0, rt.Param("len", 3), "+-019 _xe.")
	s := place(k.name, text, at, "7", k.one)
	svc := &service{}
	w := svc.serve("GET", s.path, s.query, nil, nil)
	ok := svc.accepted(s.method, w)
	rt.Observe("ok", ok)
	v, num, plain := numeral(text)
	if ok {
		rt.Assert(num && (k.signed || v >= 0), "a text that is no numeral is accepted")
		rt.Assert(intAt(svc.req, at, s, 7) == in(k.bits, uint64(v)), "another value arrives")
		rt.Reach("accepted")
		return
	}
	rt.Assert(!num || !plain || !k.signed && v < 0, "a numeral is rejected")
	rt.Reach("rejected")
}

// IntList: one query value holding a whole list.
func IntList() {
	k := intKinds[rt.Choice("kind", len(intKinds))]
	text := rt.String("text", 0, rt.Param("len", 3), "-019,[]")
	svc := &service{}
	w := svc.serve("GET", "/"+lower(k.name)+"/7", "r="+url.QueryEscape(text), nil, nil)
	ok := svc.accepted(k.name, w)
	rt.Observe("ok", ok)
	inner := text
	if len(inner) >= 2 && inner[0] == '[' && inner[len(inner)-1] == ']' {
		inner = inner[1 : len(inner)-1]
	}
	var want []uint64
	valid, plain := true, true
	if inner != "" {
		for from, i := 0, 0; i <= len(inner); i++ {
			if i < len(inner) && inner[i] != ',' {
				continue
			}
			v, num, pl := numeral(inner[from:i])
			valid = valid && num && (k.signed || v >= 0)
			plain = plain && pl
			want = append(want, in(k.bits, uint64(v)))
			from = i + 1
		}
	} else if text == "" {
		plain = false
	}
	if ok {
		rt.Assert(valid, "a text that is no list of numerals is accepted")
		n := ints(svc.req)
		rt.Observe("r", n.r)
		rt.Assert(len(n.r) == len(want), "a repeated field has the wrong number of elements")
		for i := range want {
			rt.Assert(n.r[i] == want[i], "another element arrives")
		}
		rt.Reach("accepted")
		return
	}
	rt.Assert(!valid || !plain, "a list of numerals is rejected")
	rt.Reach("rejected")
}

// Lists: values given one by one arrive in order.
func Lists() {
	k := intKinds[rt.Choice("kind", len(intKinds))]
	n := 2 + rt.Choice("more", rt.Param("more", 2))
	q := ""
	var want []uint64
	for i := 0; i < n; i++ {
		t, v := rt.Num("v"+strconv.Itoa(i), k.bits, false, 1)
		if i > 0 {
			q += "&"
		}
		if i == 1 && rt.Bool("between") {
			q += "q=5&"
		}
		q += "r=" + t
		want = append(want, v)
	}
	svc := &service{}
	w := svc.serve("GET", "/"+lower(k.name)+"/7", q, nil, nil)
	rt.Assert(svc.accepted(k.name, w), "a valid list is rejected")
	got := ints(svc.req).r
	rt.Observe("r", got)
	rt.Assert(len(got) == len(want), "a repeated field has the wrong number of elements")
	for i := range want {
		rt.Assert(got[i] == want[i], "the elements arrive changed or in another order")
	}
	rt.Reach("list")
}

// Absent: without query parameters nothing but the path is set.
func Absent() {
	names := []string{"I32", "I64", "U32", "U64", "Tone", "Flag", "F32", "F64", "Str", "Alt"}
	name := names[rt.Choice("method", len(names))]
	q := rt.Pick("query", "", "x=1", "P=1", "Q=5&R=6&O=7")
	val := "1"
	path := "/" + lower(name) + "/" + val
	if name == "Alt" {
		path = "/alt"
	}
	svc := &service{}
	w := svc.serve("GET", path, q, nil, nil)
	rt.Assert(svc.accepted(name, w), "a request without query parameters is rejected")
	switch x := svc.req.(type) {
	case *pb.FlagReq:
		rt.Assert(x.P && !x.Q && x.O == nil && len(x.R) == 0, "a field not in the request is set")
	case *pb.F32Req:
		rt.Assert(x.P == 1 && x.Q == 0 && x.O == nil && len(x.R) == 0, "a field not in the request is set")
	case *pb.F64Req:
		rt.Assert(x.P == 1 && x.Q == 0 && x.O == nil && len(x.R) == 0, "a field not in the request is set")
	case *pb.StrReq:
		rt.Assert(x.P == "1" && x.Q == "" && x.O == nil && len(x.R) == 0, "a field not in the request is set")
	case *pb.AltReq:
		rt.Assert(x.Alt == nil && x.Name == "", "a field not in the request is set")
	default:
		n := ints(x)
		rt.Assert(n.p == 1 && n.q == 0 && !n.oset && len(n.r) == 0, "a field not in the request is set")
	}
	rt.Reach("absent")
}

// boolText gives the meaning of the texts strconv.ParseBool documents.
func boolText(s string) (v, ok bool) {
	for _, t := range []string{"1", "t", "T", "true", "TRUE", "True"} {
		if s == t {
			return true, true
		}
	}
	for _, t := range []string{"0", "f", "F", "false", "FALSE", "False"} {
		if s == t {
			return false, true
		}
	}
	return false, false
}

// Bools: bool fields.
func Bools() {
	at := rt.Choice("at", places)
	text := rt.String("text", 0, rt.Param("len", 5), "01tTrRuUeEfFaAlLsS")
	s := place("Flag", text, at, "true", "flag")
	svc := &service{}
	w := svc.serve("GET", s.path, s.query, nil, nil)
	ok := svc.accepted(s.method, w)
	rt.Observe("ok", ok)
	v, valid := boolText(text)
	if at == inSingle {
		// a list of JSON values
		valid = text == "true" || text == "false" || text == ""
	}
	rt.Assert(ok == valid, "a bool is rejected, or something else accepted")
	if !ok {
		rt.Reach("rejected")
		return
	}
	rt.Reach("accepted")
	if at == inOneof {
		a, is := svc.req.(*pb.AltReq).Alt.(*pb.AltReq_Flag)
		rt.Assert(is && a.Flag == v, "another value arrives")
		return
	}
	x := svc.req.(*pb.FlagReq)
	rt.Assert((at == inOptional) == (x.O != nil), "an optional field is set without being in the request, or the reverse")
	switch at {
	case inPath:
		rt.Assert(x.P == v, "another value arrives")
	case inQuery:
		rt.Assert(x.P && x.Q == v, "another value arrives")
	case inOptional:
		rt.Assert(x.P && *x.O == v, "another value arrives")
	case inList:
		rt.Assert(len(x.R) == 2, "a repeated field has the wrong number of elements")
		rt.Assert(s.first && x.R[0] == v && x.R[1] || !s.first && x.R[1] == v && x.R[0], "another value arrives")
	case inSingle:
		if text == "" {
			rt.Assert(len(x.R) == 0, "a repeated field has the wrong number of elements")
			return
		}
		rt.Assert(len(x.R) == 1 && x.R[0] == v, "another value arrives")
	}
}

// Strings: string fields take every text as it is.
func Strings() {
	at := rt.Choice("at", places)
	min := 0
	if at == inPath {
		min = 1
	}
	text := rt.String("text", min, rt.Param("len", 3), "a%+& =;,\x00\xff#?\"[")
	s := place("Str", text, at, "w", "txt")
	svc := &service{}
	w := svc.serve("GET", s.path, s.query, nil, nil)
	rt.Assert(svc.accepted(s.method, w), "a string is rejected")
	rt.Reach("string")
	if at == inOneof {
		a, is := svc.req.(*pb.AltReq).Alt.(*pb.AltReq_Txt)
		rt.Assert(is && a.Txt == text, "another value arrives")
		return
	}
	x := svc.req.(*pb.StrReq)
	rt.Observe("x", x.P+"|"+x.Q)
	rt.Assert((at == inOptional) == (x.O != nil), "an optional field is set without being in the request, or the reverse")
	switch at {
	case inPath:
		rt.Assert(x.P == text, "another value arrives")
	case inQuery:
		rt.Assert(x.P == "w" && x.Q == text, "another value arrives")
	case inOptional:
		rt.Assert(x.P == "w" && *x.O == text, "another value arrives")
	case inList:
		rt.Assert(len(x.R) == 2, "a repeated field has the wrong number of elements")
		rt.Assert(s.first && x.R[0] == text && x.R[1] == "w" || !s.first && x.R[1] == text && x.R[0] == "w", "another value arrives")
	case inSingle:
		joined := ""
		for i, e := range x.R {
			rt.Assert(indexByte(e, ',') < 0, "a comma separated list is not separated")
			if i > 0 {
				joined += ","
			}
			joined += e
		}
		rt.Assert(joined == text, "another value arrives")
	}
}

func indexByte(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

var floatTexts = []string{"0", "1", "-1.5", "2.5e-3", "1e10", "16777217", "3.4028234663852886e38", "3.4028236e38", "1e39", "-1e39", "1e308", "1.7976931348623157e308", "1e309",
	"5e-324", "1e-45", "-0", "0.1", "123456789.123456789", "", "x", "1.5x", "1,5", "1e", "--1", "1.5 ", "0x", "e5", ".", "NaN", "-Inf", "infinity", "+1.5", "1.", ".5"}

// Floats: float fields, for the listed texts.
func Floats() {
	wide := rt.Bool("wide")
	at := rt.Choice("at", inSingle+1)
	text := floatTexts[rt.Choice("text", len(floatTexts))]
	if at == inPath {
		rt.Assume(text != "" && text != ".")
	}
	name, bits := "F32", 32
	if wide {
		name, bits = "F64", 64
	}
	want, err := strconv.ParseFloat(text, bits)
	valid := err == nil
	if at == inSingle && (text == "" || text == "1,5") {
		return
	}
	s := place(name, text, at, "2", "")
	svc := &service{}
	w := svc.serve("GET", s.path, s.query, nil, nil)
	ok := svc.accepted(s.method, w)
	rt.Observe("ok", ok)
	if at == inSingle && !jsonNumber(text) {
		// a list of JSON values: other spellings of numbers may be rejected
		rt.Assert(valid || !ok || text == "1.5 ", "something else than a float is accepted")
		return
	}
	rt.Assert(ok == valid, "a float is rejected, or something else accepted")
	if !ok {
		rt.Reach("rejected")
		return
	}
	rt.Reach("accepted")
	var got float64
	if wide {
		x := svc.req.(*pb.F64Req)
		got = floatAt(at, s, x.P, x.Q, x.O, x.R)
	} else {
		x := svc.req.(*pb.F32Req)
		var o *float64
		if x.O != nil {
			f := float64(*x.O)
			o = &f
		}
		r := []float64{}
		for _, v := range x.R {
			r = append(r, float64(v))
		}
		got = floatAt(at, s, float64(x.P), float64(x.Q), o, r)
	}
	rt.Observe("got", got)
	rt.Assert(got == want || got != got && want != want, "another value arrives")
}

func jsonNumber(s string) bool {
	return s != "" && s[0] != '+' && s[0] != '.' && s[len(s)-1] >= '0' && s[len(s)-1] <= '9'
}

func floatAt(at int, s sent, p, q float64, o *float64, r []float64) float64 {
	rt.Assert((at == inOptional) == (o != nil), "an optional field is set without being in the request, or the reverse")
	rt.Assert(at == inPath || p == 2, "the value in the path is changed")
	switch at {
	case inPath:
		return p
	case inQuery:
		return q
	case inOptional:
		return *o
	case inList:
		rt.Assert(len(r) == 2, "a repeated field has the wrong number of elements")
		if s.first {
			rt.Assert(r[1] == 2, "another element of a repeated field arrives")
			return r[0]
		}
		rt.Assert(r[0] == 2, "another element of a repeated field arrives")
		return r[1]
	}
	rt.Assert(len(r) == 1, "a repeated field has the wrong number of elements")
	return r[0]
}

// Oneof: at most one alternative may be given.
func Oneof() {
	vals := map[string]string{"num": "5", "big_num": "6", "txt": "", "flag": "true", "tone": "1", "blob": "%22/w==%22", "sub": "%7B%22text%22:%22t%22%7D"}
	names := []string{"num", "big_num", "txt", "flag", "tone", "blob", "sub"}
	n := rt.Choice("count", 4)
	q, one := "", ""
	given := 0
	last := -1
	for i := 0; i < n; i++ {
		k := rt.Choice("alt"+strconv.Itoa(i), len(names))
		rt.Assume(k > last)
		last = k
		one = names[k]
		given++
		q += one + "=" + vals[one] + "&"
	}
	if rt.Bool("named") {
		q += "name=z"
	}
	svc := &service{}
	w := svc.serve("GET", "/alt", q, nil, nil)
	ok := svc.accepted("Alt", w)
	rt.Observe("ok", ok)
	rt.Assert(ok == (given <= 1), "several alternatives of a oneof are accepted, or one is rejected")
	if !ok {
		rt.Reach("rejected")
		return
	}
	rt.Reach("accepted")
	got := ""
	switch a := svc.req.(*pb.AltReq).Alt.(type) {
	case nil:
	case *pb.AltReq_Num:
		got = "num"
		rt.Assert(a.Num == 5, "another value arrives")
	case *pb.AltReq_BigNum:
		got = "big_num"
		rt.Assert(a.BigNum == 6, "another value arrives")
	case *pb.AltReq_Txt:
		got = "txt"
		rt.Assert(a.Txt == "", "another value arrives")
	case *pb.AltReq_Flag:
		got = "flag"
		rt.Assert(a.Flag, "another value arrives")
	case *pb.AltReq_Tone:
		got = "tone"
		rt.Assert(a.Tone == 1, "another value arrives")
	case *pb.AltReq_Blob:
		got = "blob"
		rt.Assert(string(a.Blob) == "\xff", "another value arrives")
	case *pb.AltReq_Sub:
		got = "sub"
		rt.Assert(a.Sub != nil && a.Sub.Text == "t" && a.Sub.Num == 0, "another value arrives")
	}
	rt.Assert(got == one, "another alternative is set")
}

// Routes: every binding decodes its own path, query and body.
func Routes() {
	type route struct {
		method, path string
		a, b, name   bool // from the path
		body         bool
	}
	routes := []route{
		{"GET", "/many/{a}/x/{b}", true, true, false, false},
		{"POST", "/many/{type}", false, false, false, true},
		{"DELETE", "/many/{b}/y", false, true, false, false},
		{"PATCH", "/many/z/{orig_name}", false, false, true, true},
		{"HEAD", "/many/head/{b}", false, true, false, false},
	}
	i := rt.Choice("binding", len(routes))
	method := routes[rt.Choice("verb", len(routes))].method
	r := routes[i]
	a := rt.String("a", 1, 1, "px")
	num, b := rt.Num("b", 32, true, 2)
	name := rt.String("name", 1, 1, "pq")
	typ := rt.String("type", 1, 2, "pqr")
	path, query := "", ""
	switch i {
	case 0:
		path = "/many/" + a + "/x/" + num
		query = "orig_name=" + name + "&type=" + typ
	case 1:
		path = "/many/" + typ
	case 2:
		path = "/many/" + num + "/y"
		query = "a=" + a + "&orig_name=" + name + "&type=" + typ
	case 3:
		path = "/many/z/" + name
		query = "b=" + num + "&type=" + typ
	case 4:
		path = "/many/head/" + num
		query = "a=" + a + "&orig_name=" + name + "&type=" + typ
	}
	svc := &service{}
	w := svc.serve(method, path, query, nil, nil)
	ok := svc.accepted("Many", w)
	rt.Observe("ok", ok)
	rt.Assert(ok == (method == r.method), "a request is not routed by its verb and path")
	if !ok {
		rt.Reach("refused")
		return
	}
	x := svc.req.(*pb.ManyReq)
	if r.body {
		if i == 1 {
			rt.Assert(x.A == "" && x.B == 0 && x.OrigName == "" && x.Type == typ, "another value arrives")
		} else {
			rt.Assert(x.A == "" && x.B == int32(b) && x.OrigName == name && x.Type == typ, "another value arrives")
		}
	} else {
		rt.Assert(x.A == a && x.B == int32(b) && x.OrigName == name && x.Type == typ, "another value arrives")
	}
	rt.Reach("routed")
}

// AltJSON: bytes and message alternatives of a oneof are JSON values in the query.
func AltJSON() {
	text := ""
	want, num := "", int32(0)
	blob := rt.Bool("blob")
	valid := true
	if blob {
		// base64 of one byte is two digits and padding, of two bytes three and one
		d := rt.String("digits", 1, rt.Param("len", 4), "A/w=")
		switch {
		case len(d) == 4 && d[0] != '=' && d[1] != '=' && d[2] == '=' && d[3] == '=':
			want = string([]byte{digit64(d[0])<<2 | digit64(d[1])>>4})
		case len(d) == 4 && d[0] != '=' && d[1] != '=' && d[2] != '=' && d[3] == '=':
			want = string([]byte{digit64(d[0])<<2 | digit64(d[1])>>4, digit64(d[1])<<4 | digit64(d[2])>>2})
		case len(d) == 4 && d[0] != '=' && d[1] != '=' && d[2] != '=' && d[3] != '=':
			want = string([]byte{digit64(d[0])<<2 | digit64(d[1])>>4, digit64(d[1])<<4 | digit64(d[2])>>2, digit64(d[2])<<6 | digit64(d[3])})
		default:
			valid = false
		}
		text = `"` + d + `"`
	} else {
		n, v := rt.Num("num", 32, true, 2)
		num = int32(v)
		want = rt.String("text", 0, 1, "a,%&")
		text = `{"text":"` + want + `","num":` + n + `}`
	}
	text += rt.Pick("tail", "", " ", "}", `"`, "x")
	last := text[len(text)-1]
	valid = valid && last != 'x' && (!blob || text[len(text)-1] != '}' && text[len(text)-2:] != `""`) && (blob || last != '"' && text[len(text)-2:] != "}}")
	name := "sub"
	if blob {
		name = "blob"
	}
	svc := &service{}
	ok := svc.accepted("Alt", svc.serve("GET", "/alt", name+"="+url.QueryEscape(text), nil, nil))
	rt.Observe("ok", ok)
	rt.Assert(ok == valid, "a JSON value is rejected, or something else accepted")
	if !ok {
		rt.Reach("rejected")
		return
	}
	rt.Reach("accepted")
	switch a := svc.req.(*pb.AltReq).Alt.(type) {
	case *pb.AltReq_Blob:
		rt.Assert(blob && string(a.Blob) == want, "another value arrives")
	case *pb.AltReq_Sub:
		rt.Assert(!blob && a.Sub != nil && a.Sub.Text == want && a.Sub.Num == num, "another value arrives")
	default:
		rt.Fail("another alternative is set")
	}
}

func digit64(c byte) byte {
	switch c {
	case '/':
		return 63
	case 'w':
		return 48
	}
	return 0
}

// Beside: parameters with text next to them.
func Beside() {
	a := rt.String("a", 0, rt.Param("len", 3), "i:go-v")
	svc := &service{}
	if rt.Bool("first") {
		post := rt.Pick("after", ":go", ":gx", "", ":g", ":go:go")
		ok := svc.accepted("Next", svc.serve("POST", "/next/"+a+post, "num=5", nil, []byte{}))
		whole := a + post
		rt.Assert(ok == (len(whole) > 3 && whole[len(whole)-3:] == ":go"), "a request is not routed by its path")
		if !ok {
			rt.Reach("refused")
			return
		}
		x := svc.req.(*pb.NextReq)
		rt.Assert(x.Id == whole[:len(whole)-3] && x.Num == 5 && x.Step == "", "another value arrives")
		rt.Reach("first")
		return
	}
	n, v := rt.Num("num", 32, true, 0)
	pre := rt.Pick("before", "v", "", "vv")
	mid := rt.Pick("between", "/x-", "/x", "-x-", "/x-/")
	ok := svc.accepted("Next", svc.serve("GET", "/next/"+pre+n+mid+a, "id=z", nil, nil))
	rt.Assert(ok == (pre == "v" && mid+a != "" && len(mid+a) > 3 && (mid == "/x-" || mid == "/x" && a[0] == '-')), "a request is not routed by its path")
	if !ok {
		rt.Reach("refused")
		return
	}
	x := svc.req.(*pb.NextReq)
	rt.Assert(x.Num == int32(v) && x.Id == "z" && "/x-"+x.Step == mid+a, "another value arrives")
	rt.Reach("second")
}
