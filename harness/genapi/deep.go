package genapi

import (
	"context"
	"net/url"
	"strconv"

	"github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/protobuf/types/known/timestamppb"
	"github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/protobuf/types/known/wrapperspb"
	"github.com/teamlint/baron/internal/zzverif/genapi/pb"
	"github.com/teamlint/baron/internal/zzverif/rt"
)

// deepFields are the fields of DeepReq in the query.
var deepFields = []string{"sub", "node", "subs", "blob", "blobs", "label", "count", "at"}

// others checks that no field but the one named has arrived.
func others(x *pb.DeepReq, but string) {
	rt.Assert(but == "sub" || x.Sub == nil, "a message that was not sent arrives")
	rt.Assert(but == "node" || x.Node == nil, "a message that was not sent arrives")
	rt.Assert(but == "subs" || len(x.Subs) == 0, "messages that were not sent arrive")
	rt.Assert(but == "blob" || len(x.Blob) == 0, "bytes that were not sent arrive")
	rt.Assert(but == "blobs" || len(x.Blobs) == 0, "bytes that were not sent arrive")
	rt.Assert(but == "label" || x.Label == nil, "a message that was not sent arrives")
	rt.Assert(but == "count" || x.Count == nil, "a message that was not sent arrives")
	rt.Assert(but == "at" || x.At == nil, "a message that was not sent arrives")
}

// DeepJSON: fields of composite types are JSON values in the query.
func DeepJSON() {
	f := deepFields[rt.Choice("field", len(deepFields))]
	digits := rt.Param("digits", 3)
	text, word, num := "", "", int64(0)
	many := 0
	n := "7"
	switch f {
	case "sub", "label":
		word = rt.String("word", 0, rt.Param("len", 2), "a, %&:}[")
		num = 7
		text = `{"num":7,"text":"` + word + `"}`
		if f == "label" {
			text = `{"value":"` + word + `"}`
		}
	case "node":
		var v uint64
		n, v = rt.Num("num", 64, true, digits)
		num = int64(v)
		text = `{"nums":[1,` + n + `],"tone":1,"sub":{"text":"x"},"more":[{"blob":"AP8="},{}]}`
	case "subs":
		many = rt.Choice("elements", 3)
		for i := 0; i < many; i++ {
			if i > 0 {
				text += ", "
			}
			text += `{"num":` + strconv.Itoa(i) + `}`
		}
		text = "[" + text + "]"
	case "blob":
		text = `"AP9h"`
	case "blobs":
		text = `["AP9h",""]`
	case "count":
		var v uint64
		n, v = rt.Num("num", 64, true, digits)
		num = int64(v)
		text = `{"value":` + n + `}`
	case "at":
		var v uint64
		n, v = rt.Num("num", 64, true, digits)
		num = int64(v)
		text = `{"seconds":` + n + `,"nanos":5}`
	}
	broken := rt.Choice("broken", 5)
	switch broken {
	case 1:
		text = text[:len(text)-1]
	case 2:
		text += "x"
	case 3:
		text = "=" + text
	case 4:
		text = "x"
	}
	svc := &service{}
	ok := svc.accepted("Deep", svc.serve("GET", "/deep/d", f+"="+url.QueryEscape(text), nil, nil))
	rt.Observe("ok", ok)
	rt.Assert(ok == (broken == 0), "a JSON value is rejected, or something else accepted")
	if !ok {
		rt.Reach("rejected")
		return
	}
	x := svc.req.(*pb.DeepReq)
	rt.Assert(x.Name == "d", "another value arrives in the path")
	others(x, f)
	switch f {
	case "sub":
		rt.Assert(x.Sub != nil && x.Sub.Text == word && int64(x.Sub.Num) == num, "another message arrives")
	case "node":
		rt.Assert(x.Node != nil && len(x.Node.Nums) == 2 && x.Node.Nums[0] == 1 && x.Node.Nums[1] == num && x.Node.Tone == 1 && x.Node.Sub != nil && x.Node.Sub.Text == "x", "another message arrives")
		rt.Assert(len(x.Node.More) == 2 && string(x.Node.More[0].Blob) == "\x00\xff" && len(x.Node.More[1].Blob) == 0, "another message arrives")
	case "subs":
		rt.Assert(len(x.Subs) == many, "a repeated field arrives with another number of elements")
		for i, e := range x.Subs {
			rt.Assert(e != nil && e.Num == int32(i), "another element arrives")
		}
	case "blob":
		rt.Assert(string(x.Blob) == "\x00\xffa", "other bytes arrive")
	case "blobs":
		rt.Assert(len(x.Blobs) == 2 && string(x.Blobs[0]) == "\x00\xffa" && len(x.Blobs[1]) == 0, "other bytes arrive")
	case "label":
		rt.Assert(x.Label != nil && x.Label.Value == word, "another message arrives")
	case "count":
		rt.Assert(x.Count != nil && x.Count.Value == num, "another message arrives")
	case "at":
		rt.Assert(x.At != nil && x.At.Seconds == num && x.At.Nanos == 5, "another message arrives")
	}
	rt.Reach(f)
}

// ClientDeep: messages, bytes and well-known types in the query, set or not.
func ClientDeep() {
	name := "d"
	in := &pb.DeepReq{}
	want := &pb.DeepReq{}
	f := deepFields[rt.Choice("field", len(deepFields))]
	set := rt.Bool("set")
	if set {
		word, num := "", uint64(0)
		text := func() { word = rt.String("word", 0, rt.Param("len", 2), "a%&\"\x01<;") }
		number := func() { _, num = rt.Num("num", 64, true, rt.Param("digits", 2)) }
		// the request is the client's to change: build it twice
		for i := 0; i < 2; i++ {
			r := in
			if i == 1 {
				r = want
			}
			switch f {
			case "sub":
				if i == 0 {
					text()
				}
				r.Sub = &pb.Sub{Text: word, Num: -3}
			case "node":
				if i == 0 {
					number()
				}
				r.Node = &pb.Node{Sub: &pb.Sub{Text: "é"}, Nums: []int64{int64(num), 1}, Tone: pb.Color_DARK, Blob: []byte("\xff"), More: []*pb.Node{{}, {Nums: []int64{2}}}}
			case "subs":
				if i == 0 {
					num = uint64(rt.Choice("elements", 3))
				}
				for k := uint64(0); k < num; k++ {
					r.Subs = append(r.Subs, &pb.Sub{Num: int32(k)})
				}
			case "blob", "blobs":
				if i == 0 {
					word = rt.String("bytes", 0, rt.Param("len", 2), "a\x00\xff\xfe")
				}
				if f == "blob" {
					r.Blob = []byte(word)
				} else {
					r.Blobs = [][]byte{[]byte("b"), []byte(word)}
				}
			case "label":
				if i == 0 {
					text()
				}
				r.Label = &wrapperspb.StringValue{Value: word}
			case "count":
				if i == 0 {
					number()
				}
				r.Count = &wrapperspb.Int64Value{Value: int64(num)}
			case "at":
				if i == 0 {
					number()
				}
				r.At = &timestamppb.Timestamp{Seconds: int64(num), Nanos: 1}
			}
		}
	}
	in.Name = name
	l := &wire{svc: &service{}}
	res, err := l.client().Deep(context.Background(), in)
	x := l.arrived("Deep", "GET", res, err).(*pb.DeepReq)
	l.under("deep", name)
	if !set {
		f = ""
	}
	others(x, f)
	switch f {
	case "sub":
		rt.Assert(sameSub(x.Sub, want.Sub), "another message arrives")
	case "node":
		rt.Assert(sameNode(x.Node, want.Node), "another message arrives")
	case "subs":
		rt.Assert(len(x.Subs) == len(want.Subs), "a repeated field arrives with another number of elements")
		for i := range x.Subs {
			rt.Assert(sameSub(x.Subs[i], want.Subs[i]), "another element arrives")
		}
	case "blob":
		rt.Assert(string(x.Blob) == string(want.Blob), "other bytes arrive")
	case "blobs":
		rt.Assert(len(x.Blobs) == 2 && string(x.Blobs[0]) == "b" && string(x.Blobs[1]) == string(want.Blobs[1]), "other bytes arrive")
	case "label":
		rt.Assert(x.Label != nil && x.Label.Value == want.Label.Value, "another message arrives")
	case "count":
		rt.Assert(x.Count != nil && x.Count.Value == want.Count.Value, "another message arrives")
	case "at":
		rt.Assert(x.At != nil && x.At.Seconds == want.At.Seconds && x.At.Nanos == 1, "another message arrives")
	}
	if !set {
		rt.Reach("unset")
	}
	rt.Reach("arrived")
}

func sameSub(a, b *pb.Sub) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Text == b.Text && a.Num == b.Num
}

func sameNode(a, b *pb.Node) bool {
	if a == nil || b == nil {
		return a == b
	}
	if !sameSub(a.Sub, b.Sub) || a.Tone != b.Tone || string(a.Blob) != string(b.Blob) || len(a.Nums) != len(b.Nums) || len(a.More) != len(b.More) {
		return false
	}
	for i := range a.Nums {
		if a.Nums[i] != b.Nums[i] {
			return false
		}
	}
	for i := range a.More {
		if !sameNode(a.More[i], b.More[i]) {
			return false
		}
	}
	return true
}
