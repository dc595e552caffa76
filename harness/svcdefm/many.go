package svcdefm

import (
	"strings"

	"github.com/teamlint/baron/internal/zzverif/rt"
	"github.com/teamlint/baron/svcdef"
)

func number(i int) string {
	if i < 10 {
		return string([]byte{byte('0' + i)})
	}
	return number(i/10) + number(i%10)
}

var counts = []int{48, 65, 99, 100, 101, 128, 130}

// count is any number up to 33 and some greater ones.
func count() int {
	n := rt.Choice("count", 34+len(counts))
	if n > 33 {
		return counts[n-34]
	}
	return n
}

// oneofKinds are the kinds a alternative of a oneof can have.
var oneofKinds = []int{0, 1, 2, 3, 6, 7, 8, 9, 19, 24, 25}

func cycle(m string, n, from int) []wantField {
	var fs []wantField
	for i := 0; i < n; i++ {
		pb := "f" + number(i)
		fs = append(fs, wantField{name: camel(pb), pb: pb, k: kinds[(from+i)%len(kinds)]})
	}
	return fs
}

func alternatives(pre, msg string, n, from int) []wantField {
	var fs []wantField
	for i := 0; i < n; i++ {
		pb := pre + number(i)
		fs = append(fs, wantField{name: camel(pb), pb: pb, k: kinds[oneofKinds[(from+i)%len(oneofKinds)]], wrapper: msg + "_" + camel(pb)})
	}
	return fs
}

// Many: any part of a definition may be there many times, or be long.
func Many() {
	req := wantMsg{name: "Req", fields: []wantField{{name: "Zz", pb: "zz", k: kinds[0]}}}
	s := sub
	d := def{svc: "Svc", methods: plainMethods}
	n := 0
	times := func(t string) string { return strings.Repeat(t, n) }
	last := rt.Bool("last")
	add := func(fs ...wantField) {
		if last {
			req.fields = append(req.fields, fs...)
		} else {
			req.fields = append(fs, req.fields...)
		}
	}
	var more []wantMsg
	what := rt.Choice("what", 14)
	if what == 13 {
		// any service name, near the names that the grpc plugin makes up
		w := rt.Pick("svc", "Unsafe", "UnsafeOps", "Unimplemented", "IsIt", "Is", "Client", "Server", "ServerServer", "ClientServer", "ServerClient", "Svc_", "X", "MustEmbed", "XXX_1", "Register", "Req", "Sub")
		d.svc = w
	} else {
		n = count()
	}
	switch what {
	case 0:
		add(cycle("Req", n, rt.Choice("from", len(kinds)))...)
	case 1:
		for i := 0; i < n; i++ {
			more = append(more, wantMsg{name: "M" + number(i), fields: cycle("", i%3, i)})
		}
	case 2:
		add(wantField{name: "Choice", pb: "choice", oneof: alternatives("opt", "Req", n+1, rt.Choice("from", len(oneofKinds)))})
	case 3:
		for i := 0; i < n; i++ {
			t := number(i)
			add(wantField{name: "C" + t, pb: "c" + t, oneof: alternatives("c"+t+"a", "Req", 1+i%3, i)})
		}
	case 4:
		for i := 0; i < n; i++ {
			w := wantMsg{name: "M" + number(i)}
			w.fields = []wantField{{name: "Choice", pb: "choice", oneof: alternatives("opt", w.name, 1+i%3, i)}}
			more = append(more, w)
		}
	case 5:
		ms := []method{}
		ts, ws := []string{"Req", "Sub", "emptypb.Empty", "other.Sub2"}, []string{"Req", "Sub", "Empty", "Sub2"}
		for i := 0; i < n; i++ {
			ms = append(ms, method{"M" + number(i), ts[i%4], ts[i/4%4], ws[i%4], ws[i/4%4]})
		}
		if last {
			ms = append(ms, plainMethods...)
		}
		d.methods = ms
	case 6:
		for i := 0; i < n; i++ {
			d.enums = append(d.enums, "E"+number(i))
		}
		add(wantField{name: "E", pb: "e", k: kind{goType: "Kind", tagHead: "varint,1,opt", tagTail: ",enum=p.Kind", name: "Kind", enum: "Kind"}})
	case 7:
		pb := "a" + times(rt.String("char", 1, 1, "aZ_9"))
		add(wantField{name: camel(pb), pb: pb, k: kinds[rt.Choice("kind", len(kinds))]})
	case 8:
		pb := "a" + times(rt.String("char", 1, 1, "aZ_9"))
		alt := alternatives(pb, "Req", 2, 0)
		add(wantField{name: camel(pb), pb: pb, oneof: alt})
	case 9:
		d.svc = camel("a" + times(rt.String("char", 1, 1, "aZ_9")))
	case 10:
		m := camel("a" + times(rt.String("char", 1, 1, "aZ_9")))
		d.methods = append([]method{{m, "Req", "Sub", "Req", "Sub"}}, method{"Zz", "Sub", "Req", "Sub", "Req"})
	case 11:
		m := camel("a" + times(rt.String("char", 1, 1, "aZ_9")))
		d.methods = []method{{"Call", m, "o." + m, m, m}}
		more = append(more, wantMsg{name: m, fields: []wantField{{name: "Self", pb: "self", k: kind{goType: "[]*" + m, tagHead: "bytes,1,rep", name: m, star: true, array: true, message: m}}}})
	case 12:
		// a message nested n deep
		m := "Req"
		for i := 0; i < n; i++ {
			m += "_N"
			more = append(more, wantMsg{name: m, fields: []wantField{{name: "Up", pb: "up", k: kind{goType: "map[string]*" + m, tagHead: "bytes,1,rep", mapKey: "string", mapVal: m, mapStar: true, message: m}}}})
		}
	}
	d.msgs = append(append([]wantMsg{req}, more...), s)
	if last {
		d.msgs = append(append([]wantMsg{s}, more...), req)
	}
	sd, err := svcdef.New(files(d.onefile()), nil)
	rt.Assert(err == nil, "generated Go code is refused")
	check(sd, d)
	rt.Reach("checked")
}

// ManyFiles: a definition in many files, visited in any order that starts
// with any of them.
func ManyFiles() {
	n := rt.Choice("files", rt.Param("files", 5)) + 1
	d := bigDef(false)
	for i := 0; i < n; i++ {
		t := number(i)
		w := wantMsg{name: "M" + t}
		w.fields = []wantField{
			{name: "Zz", pb: "zz", k: kinds[7]},
			{name: "Choice", pb: "choice", oneof: alternatives("opt", w.name, 1+i%3, i)},
			{name: "Yy", pb: "yy", k: kinds[17]},
			{name: "Two", pb: "two", oneof: alternatives("two", w.name, 2, i)},
		}
		d.msgs = append(d.msgs, w)
	}
	out := map[string]string{}
	at := rt.Choice("main", n)
	for i := 0; i < n; i++ {
		t := head
		if i == at {
			t += enums
		}
		for j, m := range d.msgs {
			if j%n == i {
				t += messageText(m)
			}
		}
		out["/x/"+number(i)+".pb.go"] = t
	}
	out["/x/a_grpc.pb.go"] = grpcHead + serviceText(d.svc, d.methods)
	rt.MapOrder(true)
	sd, err := svcdef.New(files(out), nil)
	rt.MapOrder(false)
	rt.Assert(err == nil, "generated Go code is refused")
	check(sd, d)
	rt.Reach("checked")
}
