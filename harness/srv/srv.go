// Package srv runs the server that is generated for pb/api.proto.
package srv

import (
	"context"
	"encoding/json"
	"io/ioutil"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	exthttp "github.com/teamlint/baron/internal/zzverif/ext/std/net/http"
	"github.com/teamlint/baron/internal/zzverif/ext/std/os/signal"
	"github.com/teamlint/baron/internal/zzverif/ext/std/world"

	nats "github.com/teamlint/baron/internal/zzverif/ext/github.com/nats-io/nats.go"
	"github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/grpc"
	"github.com/teamlint/baron/internal/zzverif/rt"
	"github.com/teamlint/baron/internal/zzverif/srv/mine"
	"github.com/teamlint/baron/internal/zzverif/srv/pb"
	"github.com/teamlint/baron/internal/zzverif/srv/server"
	"github.com/teamlint/baron/internal/zzverif/srv/service"
	"github.com/teamlint/baron/internal/zzverif/srv/srvmain"
)

// Entries lists the harness functions.
var Entries = map[string]func(){"Run": Run, "Served": Served, "Config": Config, "Defaults": Defaults, "main!": command}

// transports tells what the project was generated with.
func transports() (grpc, nats bool) {
	t := rt.Param("transport", 0)
	return t == 0 || t == 1, t == 0 || t == 2
}

type recorder struct {
	h    http.Header
	code int
	body []byte
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

func get(h interface{}, path string) *recorder {
	req, err := http.NewRequest("GET", "http://h"+path, ioutil.NopCloser(strings.NewReader("")))
	if err != nil {
		rt.Fail("no request")
	}
	w := &recorder{h: http.Header{}}
	h.(http.Handler).ServeHTTP(w, req)
	return w
}

// one tells whether just this address was started.
func one(l []world.Listen, addr string, wanted bool) bool {
	if !wanted {
		return len(l) == 0
	}
	return len(l) == 1 && l[0].Addr == addr
}

// listening checks that just what is configured is listened on.
func listening(cfg server.Config) {
	useGRPC, useNATS := transports()
	var web, debug []world.Listen
	for _, l := range world.Started("http") {
		if _, ok := l.What.(*exthttp.ServeMux); ok {
			debug = append(debug, l)
		} else {
			web = append(web, l)
		}
	}
	rt.Assert(one(web, cfg.HTTPAddr, cfg.HTTPAddr != ""), "HTTP is not served at the configured address, and only there")
	rt.Assert(one(debug, cfg.DebugAddr, cfg.Debug), "the debug pages are not served when asked for, or at another address")
	failedGRPC := useGRPC && world.Fails(cfg.GRPCAddr, false)
	failedNATS := useNATS && world.Fails(cfg.NATSAddr, false)
	l := world.Started("listen")
	rt.Assert(one(l, cfg.GRPCAddr, useGRPC && cfg.GRPCAddr != "" && !failedGRPC), "gRPC is not listened on at the configured address, and only there")
	rt.Assert(one(world.Started("grpc"), cfg.GRPCAddr, len(l) == 1), "gRPC is not served where it listens")
	rt.Assert(one(world.Started("nats"), cfg.NATSAddr, useNATS && cfg.NATSAddr != "" && !failedNATS), "there is not one connection to the configured NATS server")
	n := 0
	if failedGRPC {
		n++
	}
	if failedNATS {
		n++
	}
	rt.Assert(len(world.Started("failed")) == n, "listening is tried again, or not tried")
}

// config is any configuration.
func config() server.Config {
	addr := func(kind, first string) string {
		if rt.Bool("no " + kind) {
			return ""
		}
		return first + rt.String(kind, 1, 1, ":5")
	}
	return server.Config{HTTPAddr: addr("http", "h"), GRPCAddr: addr("grpc", "g"), NATSAddr: addr("nats", "n"), DebugAddr: addr("debug", "d"), Debug: rt.Bool("debug")}
}

// Run: what is configured, and nothing else, is started; Run returns when a
// listener fails or the process is told to end, and not before.
func Run() {
	cfg := config()
	useGRPC, useNATS := transports()
	fails := false
	switch rt.Choice("fails", 6) {
	case 1:
		world.Fail, fails = cfg.HTTPAddr, true
	case 2:
		world.Fail, fails = cfg.GRPCAddr, useGRPC
	case 3:
		world.Fail, fails, world.Late = cfg.GRPCAddr, useGRPC, true
	case 4:
		world.Fail, fails = cfg.NATSAddr, useNATS
	case 5:
		world.Fail, fails, world.Late = cfg.NATSAddr, useNATS, true
		world.Reject = 1 + rt.Choice("rejected", 3)
	case 0:
		if cfg.Debug {
			world.Fail, fails = cfg.DebugAddr, rt.Bool("debug fails")
			if !fails {
				world.Fail = ""
			}
		}
	}
	fails = fails && world.Fail != ""
	returned := make(chan bool, 1)
	go func() {
		server.Run(cfg)
		returned <- true
	}()
	rt.Quiesce()
	listening(cfg)
	if fails {
		rt.Assert(len(returned) == 1, "a listener fails and the server goes on")
		rt.Reach("failed")
		return
	}
	rt.Assert(len(returned) == 0, "the server ends while everything is served")
	sig := os.Signal(syscall.SIGINT)
	if rt.Bool("term") {
		sig = syscall.SIGTERM
	}
	rt.Assert(signal.Deliver(sig), "the signal is not handled")
	rt.Quiesce()
	rt.Assert(len(returned) == 1, "the server goes on after it was told to end")
	rt.Reach("ended")
}

func same(got []string, want string) bool { return strings.Join(got, " ") == want }

// Served: the transports call the user's service through its middlewares.
func Served() {
	useGRPC, useNATS := transports()
	go server.Run(server.Config{HTTPAddr: "h", GRPCAddr: "g", NATSAddr: "n", DebugAddr: "d", Debug: true})
	rt.Quiesce()
	steps := mine.Take()
	rt.Assert(same(steps, "wrap service wrap endpoints"), "the middlewares of the service are not applied once")
	name := rt.String("name", 1, 2, "ab")
	which := rt.Choice("transport", 4)
	method := "Ping"
	switch {
	case which == 0:
		for _, l := range world.Started("http") {
			if l.Addr == "h" {
				w := get(l.What, "/ping/"+name)
				rt.Assert(w.code == 200, "the request is not answered")
			}
		}
	case which == 1:
		for _, l := range world.Started("http") {
			if l.Addr == "d" {
				for path, body := range map[string]string{"/debug/pprof/": "index", "/debug/pprof/cmdline": "cmdline", "/debug/pprof/profile": "profile", "/debug/pprof/symbol": "symbol", "/debug/pprof/trace": "trace", "/debug/pprof/heap": "index"} {
					w := get(l.What, path)
					rt.Assert(w.code == 200 && string(w.body) == body, "a debug page is missing")
				}
				rt.Assert(get(l.What, "/ping/"+name).code == 404, "the debug listener serves the service")
			}
		}
		rt.Assert(len(mine.Take()) == 0, "a debug page calls the service")
		rt.Reach("debug")
		return
	case which == 2 && useGRPC:
		s := world.Started("grpc")[0].What.(*grpc.Server)
		rt.Assert(len(s.Names) == 1 && s.Names[0] == "api.Api", "the service is not registered once")
		api := s.Impls[0].(pb.ApiServer)
		in := &pb.PingReq{Name: name}
		var res *pb.Res
		var err error
		switch rt.Choice("method", 3) {
		case 0:
			res, err = api.Ping(context.Background(), in)
		case 1:
			method = "PongAll"
			res, err = api.PongAll(context.Background(), in)
		default:
			method = "Hush"
			res, err = api.Hush(context.Background(), in)
		}
		rt.Assert(err == nil && res != nil && res.Text == method, "another response comes back")
	case which == 3 && useNATS:
		conn := world.Started("nats")[0].What.(*nats.Conn)
		rt.Assert(!conn.Closed(), "the connection is closed while it is served")
		method = []string{"Ping", "PongAll", "Hush"}[rt.Choice("method", 3)]
		b, err := json.Marshal(&pb.PingReq{Name: name})
		rt.Assert(err == nil, "no request")
		msg, err := conn.Request("Api."+method, b)
		rt.Assert(err == nil, "the request is not answered")
		res := &pb.Res{}
		rt.Assert(json.Unmarshal(msg.Data, res) == nil && res.Text == method, "another response comes back")
	default:
		return
	}
	rt.Assert(same(mine.Take(), "endpoint:"+method+" wrapper:"+method+" service:"+method), "the call does not go through the middlewares to the method, once")
	rt.Assert(mine.Req != nil && mine.Req.Name == name, "another request arrives")
	rt.Reach("served")
}

var addrs = []struct{ env, flag string }{{"HTTP_ADDR", "http.addr"}, {"GRPC_ADDR", "grpc.addr"}, {"NATS_ADDR", "nats.addr"}, {"DEBUG_ADDR", "debug.addr"}}

// Config: flags come before the environment, which comes before the defaults.
func Config() {
	useGRPC, useNATS := transports()
	dir := rt.ScratchDir()
	os.Setenv("VERIF_OUT", filepath.Join(dir, "out"))
	set := func(k, v string) {
		if v == "" && rt.Bool("unset "+k) {
			os.Unsetenv(k)
			return
		}
		os.Setenv(k, v)
	}
	want := []string{"", "", "", ":5060"}
	var args []string
	port := rt.String("PORT", 0, 1, "80")
	set("PORT", port)
	if port != "" {
		want[0] = ":" + port
	}
	vary := rt.Param("vary", 0)
	for i, a := range addrs {
		v := ""
		if i == vary || i == 0 {
			v = rt.String(a.env, 0, rt.Param("len", 1), "h:")
		} else if i < 3 {
			v = a.env
		}
		set(a.env, v)
		if v != "" {
			want[i] = v
		}
		if i == vary && rt.Bool("flag") {
			want[i] = rt.String(a.flag, 0, 1, "f ")
			args = append(args, "-"+a.flag+"="+want[i])
		}
	}
	debug := []string{"", "true", "TRUE", "tRue", "false", "1", "tru", "true "}[rt.Choice("DEBUG", 8)]
	set("DEBUG", debug)
	on := strings.ToLower(debug) == "true"
	switch rt.Choice("debug flag", 3) {
	case 1:
		on = true
		args = append(args, "-debug")
	case 2:
		on = false
		args = append(args, "-debug=false")
	}
	code := rt.RunExit(command, args...)
	rt.Assert(code == 0, "the server cannot be started")
	b, err := ioutil.ReadFile(filepath.Join(dir, "out"))
	rt.Assert(err == nil, "the server does not end when it is told to")
	var lines []string
	if want[0] != "" {
		lines = append(lines, "http "+want[0])
	}
	if on {
		lines = append(lines, "debug "+want[3])
	}
	if useGRPC && want[1] != "" {
		lines = append(lines, "grpc "+want[1])
	}
	if useNATS && want[2] != "" {
		lines = append(lines, "nats "+want[2])
	}
	rt.Observe("listening", string(b))
	rt.Assert(string(b) == strings.Join(lines, "\n"), "the server does not listen where flags, environment and defaults say")
	rt.Reach("configured")
}

// command is the generated command: it tells what it serves, and is told to end.
func command() {
	go func() {
		rt.Quiesce()
		var lines []string
		for _, l := range world.Started("http") {
			if _, ok := l.What.(*exthttp.ServeMux); ok {
				lines = append(lines, "debug "+l.Addr)
			} else {
				lines = append([]string{"http " + l.Addr}, lines...)
			}
		}
		for _, k := range []string{"grpc", "nats"} {
			for _, l := range world.Started(k) {
				lines = append(lines, k+" "+l.Addr)
			}
		}
		ioutil.WriteFile(os.Getenv("VERIF_OUT"), []byte(strings.Join(lines, "\n")), 0644)
		signal.Deliver(syscall.SIGTERM)
	}()
	srvmain.Main()
}

// Defaults: the service as it is generated answers every method.
func Defaults() {
	svc := service.WrapService(service.NewService())
	in := &pb.PingReq{Name: rt.String("name", 0, 1, "ab")}
	e := service.WrapEndpoints(pb.Endpoints{PingEndpoint: pb.MakePingEndpoint(svc), PongAllEndpoint: pb.MakePongAllEndpoint(svc), HushEndpoint: pb.MakeHushEndpoint(svc)})
	var res interface{}
	var err error
	switch rt.Choice("method", 3) {
	case 0:
		res, err = e.PingEndpoint(context.Background(), in)
	case 1:
		res, err = e.PongAllEndpoint(context.Background(), in)
	default:
		res, err = e.HushEndpoint(context.Background(), in)
	}
	r, ok := res.(*pb.Res)
	rt.Assert(err == nil && ok && r != nil && r.Text == "" && r.Num == 0, "a method does not answer with an empty response")
	rt.Reach("answered")
}
