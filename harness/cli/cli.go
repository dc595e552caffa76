// Package cli runs the client command that is generated for pb/api.proto.
package cli

import (
	"bytes"
	"errors"
	"io/ioutil"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	"github.com/teamlint/baron/internal/zzverif/ext/std/world"

	httptransport "github.com/teamlint/baron/internal/zzverif/ext/github.com/go-kit/kit/transport/http"

	"github.com/teamlint/baron/internal/zzverif/cli/climain"
	"github.com/teamlint/baron/internal/zzverif/cli/pb"
	"github.com/teamlint/baron/internal/zzverif/rt"
)

// Entries lists the harness functions.
var Entries = map[string]func(){"Calls": Calls, "main!": command}

// transports tells what the project was generated with.
func transports() (grpc, nats bool) {
	t := rt.Param("transport", 0)
	return t == 0 || t == 1, t == 0 || t == 2
}

// Calls: every method is called once over every transport, at the address the
// flags give; a call that fails ends the command with an exit code.
func Calls() {
	useGRPC, useNATS := transports()
	dir := rt.ScratchDir()
	os.Setenv("VERIF_OUT", filepath.Join(dir, "out"))
	var args []string
	var at []string
	for i, f := range []string{"grpc.addr", "http.addr", "nats.addr"} {
		addr := []string{":5040", ":5050", ":4222"}[i]
		if rt.Bool(f) {
			addr = rt.String(f, 1, rt.Param("len", 1), "ahtp")
			if i == 1 && rt.Bool("like a scheme") {
				addr = "http" + rt.String("http host", 0, rt.Param("len", 1), "sd")
			}
			addr += ":" + string(byte('1'+i))
			args = append(args, "-"+f+"="+addr)
		}
		at = append(at, addr)
	}
	var want []string
	if useGRPC {
		for _, m := range []string{"Ping", "AddNote", "Hush", "Stop"} {
			want = append(want, "grpc "+at[0]+" "+strings.ToLower(m))
		}
	}
	for _, m := range []string{"ping", "addnote", "stop"} {
		want = append(want, "http "+at[1]+" "+m)
	}
	if useNATS {
		for _, m := range []string{"Ping", "AddNote", "Hush", "Stop"} {
			want = append(want, "nats "+at[2]+" "+strings.ToLower(m))
		}
	}
	fails := rt.Choice("fails", len(want)+1)
	os.Setenv("VERIF_FAIL", string(rune('a'+fails)))
	os.Unsetenv("VERIF_REFUSED")
	refused := ""
	if fails == 0 && rt.Bool("refused") {
		kind := 0
		if rt.Bool("nats refused") {
			kind = 2
		}
		if kind == 0 && useGRPC || kind == 2 && useNATS {
			refused = at[kind]
			os.Setenv("VERIF_REFUSED", refused)
		}
	}
	code := rt.RunExit(command, args...)
	b, err := ioutil.ReadFile(filepath.Join(dir, "out"))
	if err != nil {
		b = nil
	}
	rt.Observe("calls", string(b))
	got := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	if refused != "" {
		rt.Assert(code != 0, "a connection fails and the command succeeds")
		rt.Reach("refused")
		return
	}
	if fails > 0 {
		rt.Assert(code != 0, "a call fails and the command succeeds")
		rt.Assert(len(got) == fails, "the command goes on after a call has failed")
		rt.Reach("failed")
		return
	}
	rt.Assert(code == 0, "the command fails")
	for _, kind := range []string{"grpc ", "http ", "nats "} {
		rt.Assert(only(got, kind) == only(want, kind), "not every method is called once, at the address given")
	}
	rt.Reach("called")
}

func only(l []string, kind string) string {
	out := ""
	for _, s := range l {
		if strings.HasPrefix(s, kind) {
			out += s + "\n"
		}
	}
	return out
}

// bindings are what the definition says.
var bindings = map[string]string{"GET /ping": "ping", "POST /notes": "addnote", "PUT /notes/": "addnote", "PURGE /stop": "stop"}

type web struct{}

// Do answers an HTTP request.
func (web) Do(r *http.Request) (*http.Response, error) {
	code, body := 200, "{}"
	if r.URL.Scheme != "http" {
		return nil, errors.New("unsupported protocol scheme")
	}
	if _, err := called("http", r.URL.Host, bindings[r.Method+" "+r.URL.Path], nil); err != nil {
		code, body = 500, `{"error":"failed"}`
	}
	return &http.Response{StatusCode: code, Header: http.Header{}, Body: ioutil.NopCloser(strings.NewReader(body)), Request: r}, nil
}

var calls bytes.Buffer
var count int

// called records a call and answers it.
func called(kind, addr, method string, request interface{}) (interface{}, error) {
	if kind != "http" { // the names on the wire are C22's
		method = strings.ToLower(strings.Replace(method[strings.LastIndexAny(method, "./")+1:], "_", "", -1))
	}
	calls.WriteString(kind + " " + addr + " " + method + "\n")
	ioutil.WriteFile(os.Getenv("VERIF_OUT"), calls.Bytes(), 0644)
	count++
	if os.Getenv("VERIF_FAIL") == string(rune('a'+count)) {
		return nil, errors.New("failed")
	}
	if kind == "nats" {
		return []byte(`{}`), nil
	}
	if method == "addnote" {
		return &pb.Note{}, nil
	}
	return &pb.Res{}, nil
}

// command is the generated command.
func command() {
	world.Call = called
	world.Fail = os.Getenv("VERIF_REFUSED")
	httptransport.DefaultClient = web{}
	climain.Main()
}

