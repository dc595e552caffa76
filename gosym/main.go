package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	rdebug "runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	solverBin           = "z3-new"
	solverTimeout       = 20000
	maxSteps      int64 = 40_000_000
	repoDir             = dirOf("GOSYM_REPO", "/repo")
	verifDir            = dirOf("GOSYM_VERIF", "/verif")
)

// dirOf lets development runs (mutation experiments) use copies; the registered
// commands never set these variables.
func dirOf(env, def string) string {
	if v := os.Getenv(env); v != "" {
		return v
	}
	return def
}

// Spec is one property's check, read from /verif/checks/<ID>.json.
type Spec struct {
	Property    string   `json:"property"`
	Level       string   `json:"level"`
	Assumptions []string `json:"assumptions"`
	Units       []Unit   `json:"units"`
}

// Unit is one harness function explored symbolically.
type Unit struct {
	Harness  string                    `json:"harness"` // directory below /verif/harness
	Entry    string                    `json:"entry"`
	Pkg      string                    `json:"pkg"`     // import path when the harness is overlaid into an existing package
	Prepare  string                    `json:"prepare"` // named preparation step (generated code)
	Params   map[string]map[string]int `json:"params"`  // tier -> name -> bound
	Reach    []string                  `json:"reach"`
	Bounds   string                    `json:"bounds"`
	Seconds  map[string]int            `json:"seconds"`
	Steps    int64                     `json:"steps"`
	Repeat   int                       `json:"repeat"` // native repetitions for order-dependent findings
	Tiers    []string                  `json:"tiers"`
	Samples  int                       `json:"samples"`
	Workers  int                       `json:"workers"`
}

type KnownFinding struct {
	Property string
	Region   string
	Text     string
}

func readKnown() []KnownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []KnownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := strings.Fields(strings.TrimPrefix(l, "finding:"))
		if len(f) < 3 || !strings.HasPrefix(f[0], "property=") || !strings.HasPrefix(f[1], "region=") {
			fatalf("known_findings.txt: bad line %q", l)
		}
		out = append(out, KnownFinding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "region="), strings.Join(f[2:], " ")})
	}
	return out
}

type nativeResult struct {
	Trace  []string `json:"trace"`
	Fail   string   `json:"fail"`
	Panic  string   `json:"panic"`
	Assume bool     `json:"assume"`
	Known  string   `json:"known"`
	Hang   bool     `json:"-"`
	Crash  string   `json:"-"`
}

func (r *nativeResult) failed() bool {
	return r.Fail != "" || r.Panic != "" || r.Hang || r.Crash != ""
}

func (r *nativeResult) describe() string {
	switch {
	case r.Fail != "":
		return "assertion failed: " + r.Fail
	case r.Panic != "":
		return "panic: " + strings.SplitN(r.Panic, "\n", 2)[0]
	case r.Hang:
		return "does not terminate"
	case r.Crash != "":
		return "crash: " + r.Crash
	}
	return "no failure"
}

type replayCase struct {
	Entry  string         `json:"entry"`
	Inputs map[string]any `json:"inputs"`
	Params map[string]int `json:"params"`
}

// Harness is a loaded program plus its natively built twin.
type Harness struct {
	broken   *genFailure // the generated code the harness is about does not exist
	told     bool
	key      string
	prog     *Program
	bin      string
	machines []*Machine
	work     string
	loadS    float64
	builtC   chan error
}

type Runner struct {
	tier    string
	seed    int
	tmp     string
	harness map[string]*Harness
	cores   int
	specCmd string
}

func main() {
	if len(os.Args) < 2 {
		fatalf("usage: gosym check <ID> | run ...")
	}
	rdebug.SetGCPercent(500)
	rdebug.SetMemoryLimit(14 << 30)
	if pf := os.Getenv("GOSYM_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
	}
	rdebug.SetMaxStack(2 << 30)
	switch os.Args[1] {
	case "check":
		rc := checkMain(os.Args[2:])
		if pf := os.Getenv("GOSYM_MEMPROF"); pf != "" {
			f, _ := os.Create(pf)
			rdebug.SetGCPercent(100)
			runtime.GC()
			pprof.Lookup("heap").WriteTo(f, 0)
			f.Close()
		}
		if os.Getenv("GOSYM_PROF") != "" {
			pprof.StopCPUProfile()
		}
		os.Exit(rc)
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	}
	fatalf("unknown command %s", os.Args[1])
}

func envTier() string {
	t := os.Getenv("VERIF_TIER")
	if t == "" {
		t = "quick"
	}
	return t
}

func newRunner(tier string) *Runner {
	tmp, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		fatalf("%v", err)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return &Runner{tier: tier, seed: seed, tmp: tmp, harness: map[string]*Harness{}, cores: runtime.NumCPU()}
}

func (r *Runner) cleanup() {
	for _, h := range r.harness {
		for _, m := range h.machines {
			m.sol.close()
		}
	}
	if strings.Contains(r.tmp, "gosym-") {
		os.RemoveAll(r.tmp)
	}
}

// overlay builds the file map shared by the symbolic load and the native build.
func (r *Runner) overlay(u Unit) (map[string]string, string, []string, *genFailure) {
	ov := map[string]string{}
	base := filepath.Join(repoDir, "internal/zzverif")
	must(overlayDir(ov, filepath.Join(verifDir, "harness/rt"), filepath.Join(base, "rt")))
	var flags []string
	entry := verifRoot + "/" + u.Harness
	prepared := map[string]string{}
	if u.Prepare != "" {
		o2, fl, err := r.prepare(u)
		if g, ok := err.(*genFailure); ok {
			return nil, "", nil, g
		}
		if err != nil {
			fatalf("prepare %s: %v", u.Prepare, err)
		}
		prepared = o2
		flags = fl
	}
	src := filepath.Join(verifDir, "harness", u.Harness)
	if u.Pkg != "" {
		entry = u.Pkg
		dst := filepath.Join(repoDir, strings.TrimPrefix(u.Pkg, "github.com/teamlint/baron"))
		must(overlayDir(ov, src, dst))
	} else {
		must(overlayDir(ov, src, filepath.Join(base, u.Harness)))
	}
	for k, v := range prepared {
		ov[k] = v
	}
	return ov, entry, flags, nil
}

func must(err error) {
	if err != nil {
		fatalf("%v", err)
	}
}

func (r *Runner) load(u Unit) *Harness {
	key := u.Harness + "|" + u.Pkg + "|" + u.Prepare
	if h := r.harness[key]; h != nil {
		return h
	}
	t0 := time.Now()
	ov, entry, flags, gf := r.overlay(u)
	if gf != nil {
		h := &Harness{key: key, broken: gf}
		r.harness[key] = h
		return h
	}
	h := &Harness{key: key, work: filepath.Join(r.tmp, fmt.Sprintf("h%d", len(r.harness))), builtC: make(chan error, 1)}
	must(os.MkdirAll(h.work, 0755))
	// native twin, built concurrently
	runnerPkg := entry
	ov2 := map[string]string{}
	for k, v := range ov {
		ov2[k] = v
	}
	if u.Pkg == "" {
		mainSrc := fmt.Sprintf("package main\n\nimport (\n\th %q\n\t\"github.com/teamlint/baron/internal/zzverif/rt\"\n)\n\nfunc main() { rt.Main(h.Entries) }\n", entry)
		mf := filepath.Join(h.work, "main.go")
		must(os.WriteFile(mf, []byte(mainSrc), 0644))
		ov2[filepath.Join(repoDir, "internal/zzverif/zzrun", "main.go")] = mf
		runnerPkg = verifRoot + "/zzrun"
	}
	of := filepath.Join(h.work, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": ov2})
	must(os.WriteFile(of, b, 0644))
	h.bin = filepath.Join(h.work, "replay.bin")
	go func() {
		args := append([]string{"build", "-overlay", of, "-o", h.bin}, flags...)
		args = append(args, runnerPkg)
		cmd := exec.Command("go", args...)
		cmd.Dir = repoDir
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("native build failed: %v\n%s", err, out)
		}
		h.builtC <- err
		close(h.builtC)
	}()
	p, err := loadProgram(LoadSpec{Dir: repoDir, Patterns: []string{entry}, Overlay: ov, BuildFlags: flags}, entry)
	if err != nil {
		e2 := <-h.builtC
		if e2 != nil && u.Prepare != "" && blameGenerated(strings.Split(err.Error(), "\n")) {
			h = &Harness{key: key, broken: &genFailure{"the generated code does not compile", err.Error()}}
			r.harness[key] = h
			return h
		}
		if e2 != nil {
			fmt.Fprintln(os.Stderr, e2)
		}
		fatalf("cannot load the code under test: %v", err)
	}
	h.prog = p
	h.loadS = time.Since(t0).Seconds()
	r.harness[key] = h
	return h
}

func (r *Runner) machines(h *Harness, n int) []*Machine {
	if n <= 0 {
		n = r.cores
	}
	for len(h.machines) < n {
		k := n - len(h.machines)
		ms := make([]*Machine, k)
		var wg sync.WaitGroup
		for i := 0; i < k; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				ms[i] = newMachine(h.prog, i)
			}(i)
		}
		wg.Wait()
		h.machines = append(h.machines, ms...)
	}
	return h.machines[:n]
}

func (h *Harness) native(c replayCase, timeout time.Duration, env ...string) (*nativeResult, error) {
	d, err := os.MkdirTemp(h.work, "rep")
	if err != nil {
		return nil, err
	}
	defer func() {
		if strings.HasPrefix(d, h.work+"/rep") {
			os.RemoveAll(d)
		}
	}()
	in, outp := filepath.Join(d, "in.json"), filepath.Join(d, "out.json")
	b, _ := json.Marshal(c)
	if err := os.WriteFile(in, b, 0644); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, h.bin)
	cmd.Dir = d
	tmp := filepath.Join(d, "tmp")
	os.MkdirAll(tmp, 0755)
	cmd.Env = append(os.Environ(), "GOSYM_REPLAY="+in, "GOSYM_OUT="+outp, "TMPDIR="+tmp, "GOMEMLIMIT=2GiB")
	cmd.Env = append(cmd.Env, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var so bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &so
	err = cmd.Run()
	res := &nativeResult{}
	if ctx.Err() != nil {
		res.Hang = true
		return res, nil
	}
	ob, rerr := os.ReadFile(outp)
	if rerr != nil {
		txt := so.String()
		if len(txt) > 600 {
			txt = txt[:600]
		}
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
			return nil, fmt.Errorf("replay setup: %s", txt)
		}
		res.Crash = fmt.Sprintf("%v: %s", err, txt)
		return res, nil
	}
	if err := json.Unmarshal(ob, res); err != nil {
		return nil, err
	}
	return res, nil
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

type unitReport struct {
	Entry      string         `json:"harness"`
	Bounds     string         `json:"bounds"`
	Params     map[string]int `json:"params,omitempty"`
	Paths      int            `json:"paths"`
	Completed  int            `json:"paths_completed"`
	Excluded   int            `json:"paths_excluded_by_assume"`
	Forks      int            `json:"forks"`
	Branches   int            `json:"branch_decisions"`
	Steps      int64          `json:"ssa_instructions_executed"`
	Queries    int            `json:"solver_queries"`
	Sat        int            `json:"sat"`
	Unsat      int            `json:"unsat"`
	SolverS    float64        `json:"solver_seconds"`
	Asserts    int            `json:"assertions_checked"`
	AssertQ    int            `json:"assertions_decided_by_a_query"`
	Folded     int            `json:"assertions_constant_on_path"`
	Lemmas     int            `json:"pruned_alternatives"`
	LemmaQ     int            `json:"pruned_alternatives_queries_unsat"`
	PCSat      int            `json:"path_conditions_confirmed_sat"`
	LongestPC  int            `json:"longest_path_condition"`
	Reach      map[string]int `json:"reached"`
	Functions  int            `json:"repo_functions_executed"`
	Validated  int            `json:"traces_validated"`
	Incomplete []string       `json:"reduced_bound,omitempty"`
	WallS      float64        `json:"wall_s"`
	Exhausted  bool           `json:"exhausted_within_bounds"`
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", envTier(), "quick or thorough")
	only := fs.String("unit", "", "run only this entry")
	nov := fs.Bool("no-validate", false, "skip native validation")
	workers := fs.Int("j", 0, "workers")
	overrides := fs.String("p", "", "param overrides a=1,b=2")
	secs := fs.Int("s", 0, "seconds override")
	if len(args) < 1 {
		fatalf("check needs a property id")
	}
	id := args[0]
	fs.Parse(args[1:])
	t0 := time.Now()
	var spec Spec
	b, err := os.ReadFile(filepath.Join(verifDir, "checks", id+".json"))
	must(err)
	must(json.Unmarshal(b, &spec))
	r := newRunner(*tier)
	keepRunner = r
	defer r.cleanup()
	known := readKnown()
	knownSet := map[string]string{}
	for _, k := range known {
		if k.Property == id {
			knownSet[k.Region] = k.Text
		}
	}
	knownSeen := map[string]bool{}
	var reports []unitReport
	var samples []any
	funcs := map[string]bool{}
	violations := 0
	broken := []string{}
	vacuous := false
	exit := 0
	for _, u := range spec.Units {
		if *only != "" && u.Entry != *only {
			continue
		}
		if len(u.Tiers) > 0 && !contains(u.Tiers, *tier) && *only == "" {
			continue
		}
		if *tier == "quick" && *only == "" && (violations > 0 || time.Since(t0) > 600*time.Second) {
			reports = append(reports, unitReport{Entry: u.Harness + "." + u.Entry, Bounds: u.Bounds, Incomplete: []string{"not run: a violation was found before, or the time is up"}})
			continue
		}
		u0 := time.Now()
		params := u.Params[*tier]
		if params == nil {
			params = u.Params["quick"]
		}
		params = copyParams(params)
		if *overrides != "" {
			for _, kv := range strings.Split(*overrides, ",") {
				k, v, _ := strings.Cut(kv, "=")
				params[k], _ = strconv.Atoi(v)
			}
		}
		h := r.load(u)
		if h.broken != nil {
			if !h.told {
				h.told = true
				violations++
				path := r.writeReplay(id, u, params, &Violation{Msg: h.broken.what}, h.broken.out, violations)
				fmt.Printf("  %s: %s\nVIOLATION property=%s replay=%s\n", u.Harness, h.broken.Error(), id, path)
				exit = 1
			}
			reports = append(reports, unitReport{Entry: u.Harness + "." + u.Entry, Bounds: u.Bounds, Params: params, Incomplete: []string{h.broken.what}})
			continue
		}
		nw := u.Workers
		if *workers > 0 {
			nw = *workers
		}
		ms := r.machines(h, nw)
		for _, m := range ms {
			m.params = params
			m.freshTerms()
			m.maxSteps = maxSteps
			if u.Steps > 0 {
				m.maxSteps = u.Steps
			}
		}
		ef := h.prog.entry.Func(u.Entry)
		if ef == nil {
			fatalf("no harness function %s", u.Entry)
		}
		e := newExplorer()
		e.params = params
		budget := u.Seconds[*tier]
		if budget == 0 {
			budget = 120
			if *tier == "thorough" {
				budget = 1500
			}
		}
		if *secs > 0 {
			budget = *secs
		}
		e.deadline = time.Now().Add(time.Duration(budget) * time.Second)
		e.traceEvery = 37
		e.maxSamples = 24
		if u.Samples > 0 {
			e.maxSamples = u.Samples
		}
		if n, _ := strconv.Atoi(os.Getenv("GOSYM_SAMPLES")); n > 0 {
			e.maxSamples, e.traceEvery = n, 3
		}
		if *nov {
			e.traceEvery = 0
		}
		e.run(ms, h.prog.fn(ef), true)

		rep := unitReport{Entry: u.Harness + "." + u.Entry, Bounds: u.Bounds, Params: params, Paths: e.Paths, Completed: e.Done, Excluded: e.Assumed, Forks: e.Forks, Branches: e.Branches,
			Steps: e.Steps, Queries: e.Queries, Sat: e.QSat, Unsat: e.QUnsat, SolverS: round(e.SolverTime.Seconds()), Asserts: e.Asserts, AssertQ: e.AssertQ, Folded: e.Folded,
			Lemmas: e.Lemmas, LemmaQ: e.LemmaQ, PCSat: e.PCSat, LongestPC: e.LongPC, Reach: e.Reach, Functions: len(e.Funcs)}
		for f := range e.Funcs {
			funcs[f] = true
		}
		for k, n := range e.Incon {
			rep.Incomplete = append(rep.Incomplete, fmt.Sprintf("%d path(s): %s", n, firstLines(k, 6)))
		}
		sort.Strings(rep.Incomplete)
		if e.TimedOut {
			rep.Incomplete = append(rep.Incomplete, fmt.Sprintf("exploration stopped after %d s with paths pending", budget))
		}
		rep.Exhausted = len(rep.Incomplete) == 0 && !e.stop
		nativeOK := true
		if err := <-h.builtC; err != nil {
			fmt.Fprintln(os.Stderr, err)
			fatalf("native replay twin does not build")
		}
		// violations: replay natively before reporting
		reported := map[string]bool{}
		for _, v := range e.Violations {
			if v.Known != "" {
				if _, ok := knownSet[v.Known]; ok {
					if !knownSeen[v.Known] {
						if ok, _ := r.confirm(h, u, params, v); ok {
							knownSeen[v.Known] = true
							fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, v.Known, knownSet[v.Known])
						}
					}
					continue
				}
			}
			key := v.Kind + v.Msg
			if reported[key] {
				continue
			}
			ok, desc := r.confirm(h, u, params, v)
			if !ok {
				broken = append(broken, fmt.Sprintf("%s: counterexample does not reproduce natively (%s): %s inputs=%s", u.Entry, desc, v.Msg, jsonStr(v.Inputs)))
				continue
			}
			reported[key] = true
			violations++
			path := r.writeReplay(id, u, params, v, desc, violations)
			fmt.Printf("  %s: %s\n    native: %s\n    inputs: %s\n    at:%s\n", u.Entry, v.Msg, desc, jsonStr(v.Inputs), v.Where)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			exit = 1
		}
		// paths the encoding could not finish: their inputs are tried natively
		hangs := 0
		for _, s := range e.Unfinished {
			if hangs > 0 {
				break
			}
			nr, err := h.native(replayCase{u.Entry, s.Inputs, params}, 20*time.Second)
			if err == nil && nr.Hang {
				hangs++
			}
			if err != nil || nr.Assume || !nr.failed() {
				continue
			}
			if nr.Known != "" && knownSet[nr.Known] != "" {
				continue
			}
			if s.Known != "" && knownSet[s.Known] != "" {
				continue
			}
			key := nr.describe()
			if reported[key] {
				continue
			}
			reported[key] = true
			violations++
			v := &Violation{Msg: "path outside the encodable fragment fails natively: " + nr.describe(), Inputs: s.Inputs, Kind: "native"}
			path := r.writeReplay(id, u, params, v, nr.describe(), violations)
			fmt.Printf("  %s: %s\n    inputs: %s\n", u.Entry, v.Msg, jsonStr(v.Inputs))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			exit = 1
		}
		// translator validation
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, r.cores)
		mismatch := 0
		for i := range e.Samples {
			s := e.Samples[i]
			if s.Failed {
				continue
			}
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				nr, err := h.native(replayCase{u.Entry, s.Inputs, params}, 30*time.Second)
				if err == nil && nr.Hang { // it may only have been slow
					nr, err = h.native(replayCase{u.Entry, s.Inputs, params}, 120*time.Second)
				}
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					nativeOK = false
					broken = append(broken, u.Entry+": "+err.Error())
					return
				}
				if nr.failed() || nr.Assume || !s.Order && strings.Join(nr.Trace, "\n") != strings.Join(s.Trace, "\n") {
					mismatch++
					if mismatch <= 3 {
						broken = append(broken, fmt.Sprintf("%s: native run disagrees with the encoding on %s\n   encoding: %s\n   native:   %s %s assume=%v", u.Entry, jsonStr(s.Inputs), strings.Join(s.Trace, " | "), strings.Join(nr.Trace, " | "), nr.describe(), nr.Assume))
					}
					if nr.Fail != "" || nr.Panic != "" || nr.Hang {
						// the real code fails on an input of the explored space
						if (nr.Known == "" || knownSet[nr.Known] == "") && !reported["mm"+nr.describe()] {
							reported["mm"+nr.describe()] = true
							violations++
							v := &Violation{Msg: "validation run fails natively: " + nr.describe(), Inputs: s.Inputs, Kind: "native"}
							path := r.writeReplay(id, u, params, v, nr.describe(), violations)
							fmt.Printf("  %s: %s\n    inputs: %s\n", u.Entry, v.Msg, jsonStr(v.Inputs))
							fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
							exit = 1
						}
					}
					return
				}
				rep.Validated++
				if len(samples) < 12 {
					samples = append(samples, map[string]any{"harness": u.Entry, "inputs": s.Inputs, "trace": clip(s.Trace)})
				}
			}()
		}
		wg.Wait()
		_ = nativeOK
		for _, l := range u.Reach {
			if e.Reach[l] == 0 && violations == 0 {
				vacuous = true
				broken = append(broken, fmt.Sprintf("%s: no explored path reaches %q (vacuous)", u.Entry, l))
			}
		}
		rep.WallS = round(time.Since(u0).Seconds())
		reports = append(reports, rep)
		fmt.Printf("%s %s: paths=%d done=%d asserts=%d queries=%d (sat %d unsat %d) solver=%.1fs validated=%d exhausted=%v wall=%.1fs\n", id, u.Entry, e.Paths, e.Done, e.Asserts, e.Queries, e.QSat, e.QUnsat, e.SolverTime.Seconds(), rep.Validated, rep.Exhausted, rep.WallS)
		for _, l := range rep.Incomplete {
			fmt.Println("  REDUCED-BOUND " + l)
		}
		if *only != "" {
			for k, n := range e.Reach {
				fmt.Printf("  reach %s=%d\n", k, n)
			}
		}
	}
	for _, bmsg := range broken {
		fmt.Println("  CHECK-PROBLEM " + bmsg)
	}
	// A counterexample or trace the real code does not reproduce is an error of
	// the encoding on that path: it reduces what the run covered, it decides nothing.
	if exit == 0 && (vacuous || len(broken) > 0 && os.Getenv("GOSYM_STRICT") != "") {
		exit = 2
	}
	if *only == "" {
		writeEvidence(spec, r, reports, samples, funcs, violations, time.Since(t0).Seconds(), knownSeen, broken)
	}
	return exit
}

func copyParams(p map[string]int) map[string]int {
	o := map[string]int{}
	for k, v := range p {
		o[k] = v
	}
	return o
}

func clip(ts []string) []string {
	var out []string
	for i, t := range ts {
		if i >= 6 {
			break
		}
		if len(t) > 200 {
			t = t[:200] + "..."
		}
		out = append(out, t)
	}
	return out
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func jsonStr(v any) string {
	b, _ := json.Marshal(v)
	s := string(b)
	if len(s) > 1200 {
		s = s[:1200] + "..."
	}
	return s
}

func (r *Runner) confirm(h *Harness, u Unit, params map[string]int, v *Violation) (bool, string) {
	n := 1
	if v.Order {
		n = 300
		if u.Repeat > 0 {
			n = u.Repeat
		}
	}
	last := "not run"
	c := replayCase{u.Entry, v.Inputs, params}
	if n == 1 {
		nr, err := h.native(c, 30*time.Second)
		if err == nil && !nr.failed() && !nr.Assume {
			nr, err = h.native(c, 30*time.Second, "GOSYM_TICK=1")
		}
		if err != nil {
			return false, err.Error()
		}
		if nr.Assume {
			return false, "assumption false natively"
		}
		return nr.failed(), nr.describe()
	}
	for k := 0; k < n; k += r.cores {
		type rr struct {
			nr  *nativeResult
			err error
		}
		ch := make(chan rr, r.cores)
		for i := 0; i < r.cores; i++ {
			go func() {
				var env []string
				if k > 0 {
					env = []string{"GOSYM_TICK=1"}
				}
				nr, err := h.native(c, 30*time.Second, env...)
				ch <- rr{nr, err}
			}()
		}
		hit := ""
		for i := 0; i < r.cores; i++ {
			x := <-ch
			if x.err != nil {
				last = x.err.Error()
				continue
			}
			last = x.nr.describe()
			if x.nr.failed() && !x.nr.Assume {
				hit = last
			}
		}
		if hit != "" {
			return true, hit + " (depends on the order of map entries or goroutines)"
		}
	}
	return false, last
}

func (r *Runner) writeReplay(id string, u Unit, params map[string]int, v *Violation, desc string, k int) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, k))
	b, _ := json.MarshalIndent(map[string]any{"property": id, "harness": u.Harness, "pkg": u.Pkg, "prepare": u.Prepare, "entry": u.Entry, "params": params, "inputs": v.Inputs, "message": v.Msg, "where": v.Where, "native": desc, "map_order": v.Order,
		"how": "cd /verif && ./gosym.sh replay " + p}, "", " ")
	os.WriteFile(p, b, 0644)
	return p
}

func replayMain(args []string) int {
	b, err := os.ReadFile(args[0])
	must(err)
	var rec struct {
		Harness, Pkg, Prepare, Entry string
		Params                       map[string]int
		Inputs                       map[string]any
		Map_order                    bool
	}
	must(json.Unmarshal(b, &rec))
	r := newRunner("quick")
	keepRunner = r
	defer r.cleanup()
	u := Unit{Harness: rec.Harness, Pkg: rec.Pkg, Prepare: rec.Prepare, Entry: rec.Entry}
	h := r.load(u)
	if h.broken != nil {
		fmt.Println(h.broken.Error())
		return 1
	}
	if err := <-h.builtC; err != nil {
		fatalf("%v", err)
	}
	ok, desc := r.confirm(h, u, rec.Params, &Violation{Inputs: rec.Inputs, Order: rec.Map_order})
	fmt.Println(desc)
	if ok {
		return 1
	}
	return 0
}

func writeEvidence(spec Spec, r *Runner, reps []unitReport, samples []any, funcs map[string]bool, violations int, wall float64, knownSeen map[string]bool, broken []string) {
	states, trans, val, q := 0, 0, 0, 0
	sat, unsat := 0, 0
	solver := 0.0
	exh := true
	for _, u := range reps {
		states += u.Completed
		trans += u.Branches
		val += u.Validated
		q += u.Queries
		sat += u.Sat
		unsat += u.Unsat
		solver += u.SolverS
		exh = exh && u.Exhausted
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, "github.com/teamlint/baron/", ""))
	}
	sort.Strings(fl)
	if len(fl) > 220 {
		fl = append(fl[:220], fmt.Sprintf("... and %d more", len(funcs)-220))
	}
	if len(samples) == 0 {
		for _, u := range reps {
			samples = append(samples, map[string]any{"harness": u.Entry, "paths": u.Paths})
		}
	}
	var kf []string
	for k := range knownSeen {
		kf = append(kf, k)
	}
	sort.Strings(kf)
	ev := map[string]any{
		"property": spec.Property, "tier": r.tier, "seed": r.seed, "level": spec.Level, "wall_s": round(wall), "violations": violations,
		"assumptions": spec.Assumptions,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples,
			"solver": solverBin, "queries_discharged": q, "queries_sat": sat, "queries_unsat": unsat, "solver_seconds": round(solver),
			"functions_encoded": fl, "units": reps, "all_units_exhausted_within_bounds": exh, "known_findings_seen": kf,
			"explanation": "states = symbolic execution paths completed (each a solver-confirmed satisfiable path condition over the symbolic inputs); transitions = branch decisions taken on them; every alternative not taken was either pushed as another path or refuted by an unsat query.",
		},
	}
	if len(broken) > 0 {
		for i, b := range broken {
			if len(b) > 1500 {
				broken[i] = b[:1500] + "..."
			}
		}
		if len(broken) > 10 {
			broken = broken[:10]
		}
		ev["coverage"].(map[string]any)["encoding_problems"] = broken
		ev["coverage"].(map[string]any)["all_units_exhausted_within_bounds"] = false
	}
	if spec.Assumptions == nil {
		delete(ev, "assumptions")
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	if len(b) > 60000 {
		ev["coverage"].(map[string]any)["functions_encoded"] = len(funcs)
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	must(os.WriteFile(filepath.Join(dir, spec.Property+".json"), b, 0644))
}
var keepRunner *Runner
