// Package rt is the harness runtime. The symbolic engine intercepts these
// functions; the bodies below are what a native replay runs.
package rt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	_ "github.com/teamlint/baron/internal/zzverif/rt/jsonsub"
	_ "github.com/teamlint/baron/internal/zzverif/rt/vfs"
)

type replay struct {
	Entry  string                 `json:"entry"`
	Inputs map[string]interface{} `json:"inputs"`
	Params map[string]int         `json:"params"`
}

type result struct {
	Trace  []string `json:"trace"`
	Fail   string   `json:"fail,omitempty"`
	Panic  string   `json:"panic,omitempty"`
	Assume bool     `json:"assume,omitempty"`
	Known  string   `json:"known,omitempty"`
}

var (
	cur     replay
	res     result
	names   = map[string]int{}
	scratch []string
)

type stopRun struct{}

func uname(n string) string {
	names[n]++
	if k := names[n]; k > 1 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func num(n string) int64 {
	v, ok := cur.Inputs[n]
	if !ok {
		return 0
	}
	switch x := v.(type) {
	case string:
		i, err := strconv.ParseInt(x, 10, 64)
		if err != nil {
			u, _ := strconv.ParseUint(x, 10, 64)
			return int64(u)
		}
		return i
	case float64:
		return int64(x)
	}
	return 0
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(num(uname(name))) }

// Bool is an arbitrary bool.
func Bool(name string) bool { return num(uname(name)) == 1 }

// Choice is an arbitrary value in [0,n).
func Choice(name string, n int) int { return int(num(uname(name))) }

// Int is an arbitrary value in [lo,hi].
func Int(name string, lo, hi int) int {
	n := uname(name)
	if _, ok := cur.Inputs[n]; !ok {
		return lo
	}
	return int(num(n))
}

// String is an arbitrary string of length [min,max] over alphabet ("" = all bytes).
func String(name string, min, max int, alphabet string) string {
	v, ok := cur.Inputs[uname(name)]
	if !ok {
		a := byte(0)
		if alphabet != "" {
			a = alphabet[0]
		}
		return strings.Repeat(string([]byte{a}), min)
	}
	return str(v)
}

// Word is one of the identifier-like words in the string literals of the
// repository packages whose paths end in one of the comma separated parts of in.
func Word(name, in string) string {
	v, ok := cur.Inputs[uname(name)]
	if !ok {
		return "a"
	}
	return str(v)
}

func str(v interface{}) string {
	mp, ok := v.(map[string]interface{})
	if !ok {
		return ""
	}
	bs, _ := mp["bytes"].([]interface{})
	out := make([]byte, len(bs))
	for i, b := range bs {
		out[i] = byte(b.(float64))
	}
	return string(out)
}

// Dec is an arbitrary decimal numeral of min..max digits without leading zeros, and its value.
func Dec(name string, min, max int) (string, uint64) {
	v, ok := cur.Inputs[uname(name)]
	s := "1"
	if ok {
		s = str(v)
	}
	u := uint64(0)
	for i := 0; i < len(s); i++ {
		u = u*10 + uint64(s[i]-'0')
	}
	return s, u
}

// Num is an arbitrary integer of that size as decimal text, and its value in
// two's complement; maxDigits 0 allows all of them.
func Num(name string, bits int, signed bool, maxDigits int) (string, uint64) {
	v, ok := cur.Inputs[uname(name)]
	s := "0"
	if ok {
		s = str(v)
	}
	if signed {
		i, err := strconv.ParseInt(s, 10, bits)
		if err != nil {
			panic(err)
		}
		return s, uint64(i)
	}
	u, err := strconv.ParseUint(s, 10, bits)
	if err != nil {
		panic(err)
	}
	return s, u
}

// Pick is one of opts.
func Pick(name string, opts ...string) string { return opts[Choice(name, len(opts))] }

// Param is a bound fixed by the check's tier.
func Param(name string, def int) int {
	if v, ok := cur.Params[name]; ok {
		return v
	}
	return def
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		res.Assume = true
		panic(stopRun{})
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c && res.Fail == "" {
		res.Fail = msg
		res.Known = known
		panic(stopRun{})
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { Assert(false, msg) }

// Observe records a value for comparison between the encoding and the real run.
func Observe(name string, v interface{}) {
	if v == nil {
		res.Trace = append(res.Trace, name+`="nil"`)
		return
	}
	res.Trace = append(res.Trace, name+"="+text(reflect.ValueOf(v)))
}

func text(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return text(v.Elem())
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.Slice:
		parts := []string{}
		for i := 0; i < v.Len(); i++ {
			parts = append(parts, text(v.Index(i)))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case reflect.Struct:
		parts := []string{}
		for i := 0; i < v.NumField(); i++ {
			parts = append(parts, text(v.Field(i)))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + text(v.Elem())
	}
	return "<" + v.Type().String() + ">"
}

// Reach marks a point that some path must reach (vacuity guard).
func Reach(label string) {}

var known string

// Known labels the rest of the path as belonging to a recorded finding.
func Known(id string) { known = id }

// MapOrder makes the iteration order of maps in the code under test arbitrary.
func MapOrder(on bool) {}

// Elsewhere goes to another directory, environment and time.
func Elsewhere(dir string) {
	for _, k := range []string{"USER", "LOGNAME", "HOME", "LANG", "LC_ALL", "HOSTNAME", "TZ", "PWD", "SHELL", "EDITOR", "TERM", "COLUMNS", "DEBUG", "GOPATH", "GOOS", "GOARCH", "GOFLAGS", "GOROOT", "GO111MODULE"} {
		os.Setenv(k, "other")
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	tick()
}

// tick lets time pass; natively only where a first run went well.
func tick() {
	if os.Getenv("GOSYM_TICK") != "" {
		time.Sleep(1100 * time.Millisecond)
	}
}

// Symbolic tells whether the engine runs the harness.
func Symbolic() bool { return false }

// ScratchDir is a fresh empty directory.
func ScratchDir() string {
	d, err := ioutil.TempDir("", "verif-scratch-")
	if err != nil {
		panic(err)
	}
	scratch = append(scratch, d)
	return d
}

// Settle lets every other goroutine run until it blocks.
func Settle() { time.Sleep(40 * time.Millisecond) }

// Quiesce lets the others run until nothing is left to do.
func Quiesce() { time.Sleep(200 * time.Millisecond) }

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked bool, msg string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopRun); ok {
				panic(r)
			}
			panicked = true
			if e, ok := r.(error); ok {
				msg = e.Error()
			} else {
				msg = fmt.Sprint(r)
			}
		}
	}()
	f()
	return
}

// RunExit runs the program with these arguments in a process of its own (the
// engine: calls main) and returns its exit code. Entries must have "main!".
func RunExit(main func(), args ...string) int {
	if Symbolic() {
		os.Args = append([]string{"baron"}, args...)
		code, exited := runExit(main)
		if !exited {
			code = 0
		}
		return code
	}
	c := exec.Command("/proc/self/exe", args...)
	c.Env = append(os.Environ(), "GOSYM_MAIN=1")
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err := c.Run()
	if strings.Contains(out.String(), "goroutine 1 [running]") {
		panic(out.String())
	}
	if os.Getenv("GOSYM_VERBOSE") != "" {
		fmt.Println(out.String())
	}
	if err != nil && c.ProcessState == nil {
		panic(err)
	}
	return c.ProcessState.ExitCode()
}

func runExit(main func()) (code int, exited bool) { return 0, false }

// Main runs one replay case.
func Main(entries map[string]func()) {
	if os.Getenv("GOSYM_MAIN") != "" {
		entries["main!"]()
		os.Exit(0)
	}
	b, err := ioutil.ReadFile(os.Getenv("GOSYM_REPLAY"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	f := entries[cur.Entry]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no entry", cur.Entry)
		os.Exit(3)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopRun); ok {
					return
				}
				res.Panic = fmt.Sprint(r) + "\n" + string(debug.Stack())
			}
		}()
		f()
	}()
	for _, d := range scratch {
		if strings.Contains(d, "verif-scratch-") {
			os.RemoveAll(d)
		}
	}
	out, _ := json.Marshal(res)
	if err := ioutil.WriteFile(os.Getenv("GOSYM_OUT"), out, 0644); err != nil {
		os.Exit(3)
	}
}
