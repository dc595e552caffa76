package main

// One z3 process per worker, driven over a pipe with an assertion stack that
// is kept in step with the current path condition.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type satRes int

const (
	resUnsat satRes = iota
	resSat
	resUnknown
)

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	epoch   uint32
	stack   []*Term // asserted, one push per term
	decl    map[*Var]bool
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	timeout int // ms
	tt      *TermTab
	log     io.Writer
}

var solverEpoch uint32

func newSolver(bin string, timeoutMS int, tt *TermTab) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMS, tt: tt}
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		f, err := os.CreateTemp(p, "smt*.smt2")
		if err == nil {
			s.log = f
		}
	}
	s.start()
	return s
}

func (s *Solver) start() {
	solverEpochMu.Lock()
	solverEpoch++
	s.epoch = solverEpoch
	solverEpochMu.Unlock()
	s.stack = nil
	s.decl = map[*Var]bool{}
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatalf("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatalf("solver: %v", err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fatalf("cannot start solver %s: %v", s.bin, err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :print-success false)")
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) reset(tt *TermTab) {
	s.close()
	s.tt = tt
	s.start()
}

func (s *Solver) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
	if s.log != nil {
		io.WriteString(s.log, l+"\n")
	}
}

func bvc(w uint8, c uint64) string {
	if w == 0 {
		if c != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", c&mask(w), w)
}

func (s *Solver) varName(v *Var) string {
	if !s.decl[v] {
		s.decl[v] = true
		s.send(fmt.Sprintf("(declare-const v%d (_ BitVec %d)) ; %s", v.id, v.w, strings.ReplaceAll(v.name, "\n", " ")))
	}
	return "v" + strconv.Itoa(v.id)
}

func setExpr(name string, set bset, init bset) string {
	// cover only needs to agree with set on init; extend runs over don't-care values
	var parts []string
	i := 0
	for i < 256 {
		if !set.has(i) {
			i++
			continue
		}
		lo := i
		hi := i
		j := i + 1
		for j < 256 {
			if set.has(j) {
				hi = j
				j++
				continue
			}
			if init.has(j) {
				break
			}
			j++
		}
		i = hi + 1
		if lo == hi {
			parts = append(parts, fmt.Sprintf("(= %s #x%02x)", name, lo))
		} else if lo == 0 {
			parts = append(parts, fmt.Sprintf("(bvule %s #x%02x)", name, hi))
		} else if hi == 255 {
			parts = append(parts, fmt.Sprintf("(bvuge %s #x%02x)", name, lo))
		} else {
			parts = append(parts, fmt.Sprintf("(and (bvuge %s #x%02x) (bvule %s #x%02x))", name, lo, name, hi))
		}
	}
	if len(parts) == 0 {
		return "false"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

func tabExpr(name string, t *Term) string {
	// piecewise: runs where tab[i]-i is constant, or tab[i] constant
	m := mask(t.w)
	type run struct {
		hi    int
		isOff bool
		val   uint64
	}
	var runs []run
	i := 0
	init := t.v.init
	for i < 256 && !init.has(i) {
		i++
	}
	for i < 256 {
		c := t.tab[i]
		o := (t.tab[i] - uint64(i)) & m
		jc, jo := i, i
		lastC, lastO := i, i
		okC, okO := true, true
		for k := i + 1; k < 256 && (okC || okO); k++ {
			if !init.has(k) {
				continue
			}
			if okC {
				if t.tab[k] == c {
					lastC = k
				} else {
					okC = false
				}
			}
			if okO {
				if (t.tab[k]-uint64(k))&m == o {
					lastO = k
				} else {
					okO = false
				}
			}
		}
		jc, jo = lastC, lastO
		if jc >= jo {
			runs = append(runs, run{jc, false, c})
			i = jc + 1
		} else {
			runs = append(runs, run{jo, true, o})
			i = jo + 1
		}
		for i < 256 && !init.has(i) {
			i++
		}
	}
	ext := name
	if t.w > 8 {
		ext = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-8, name)
	} else if t.w < 8 {
		ext = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, name)
	}
	piece := func(r run) string {
		if !r.isOff {
			return bvc(t.w, r.val)
		}
		if r.val == 0 {
			return ext
		}
		return fmt.Sprintf("(bvadd %s %s)", ext, bvc(t.w, r.val))
	}
	out := piece(runs[len(runs)-1])
	for k := len(runs) - 2; k >= 0; k-- {
		out = fmt.Sprintf("(ite (bvule %s #x%02x) %s %s)", name, runs[k].hi, piece(runs[k]), out)
	}
	return out
}

// ref returns an SMT expression naming t, defining it first when needed.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return bvc(t.w, t.c)
	case OpVar:
		return s.varName(t.v)
	}
	if t.defd == s.epoch {
		return "t" + strconv.FormatUint(uint64(t.id), 10)
	}
	// iterative post-order to avoid deep recursion
	type frame struct {
		t *Term
		i int
	}
	st := []frame{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.a) {
			c := f.t.a[f.i]
			f.i++
			if c.op != OpConst && c.op != OpVar && c.defd != s.epoch {
				st = append(st, frame{c, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if x.defd == s.epoch {
			continue
		}
		s.define(x)
	}
	return "t" + strconv.FormatUint(uint64(t.id), 10)
}

func (s *Solver) atom(t *Term) string {
	switch t.op {
	case OpConst:
		return bvc(t.w, t.c)
	case OpVar:
		return s.varName(t.v)
	}
	return "t" + strconv.FormatUint(uint64(t.id), 10)
}

func (s *Solver) define(t *Term) {
	var e string
	switch t.op {
	case OpTab:
		n := s.varName(t.v)
		if t.w == 0 {
			e = setExpr(n, t.set, t.v.init)
		} else {
			e = tabExpr(n, t)
		}
	case OpZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, s.atom(t.a[0]))
	case OpSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, s.atom(t.a[0]))
	case OpTrunc:
		e = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, s.atom(t.a[0]))
	default:
		var sb strings.Builder
		sb.WriteByte('(')
		sb.WriteString(opNames[t.op])
		for _, a := range t.a {
			sb.WriteByte(' ')
			sb.WriteString(s.atom(a))
		}
		sb.WriteByte(')')
		e = sb.String()
	}
	sort := "Bool"
	if t.w > 0 {
		sort = fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	t.defd = s.epoch
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)", t.id, sort, e))
}

// domain facts for the support of a set of terms
func (s *Solver) domFacts(ts []*Term, seen map[*Var]bool) {
	for _, t := range ts {
		for _, v := range t.support() {
			if seen[v] {
				continue
			}
			seen[v] = true
			n := s.varName(v)
			if v.w == 8 {
				if v.init != fullSet {
					s.send("(assert " + setExpr(n, v.init, fullSet) + ")")
				}
			} else if v.lo != 0 || v.hi != mask(v.w) {
				s.send(fmt.Sprintf("(assert (and (bvuge %s %s) (bvule %s %s)))", n, bvc(v.w, v.lo), n, bvc(v.w, v.hi)))
			}
		}
	}
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send(fmt.Sprintf("(pop %d)", d))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		r := s.ref(pc[n])
		s.send("(push 1)")
		s.domFacts(pc[n:n+1], map[*Var]bool{})
		s.send("(assert " + r + ")")
		s.stack = append(s.stack, pc[n])
	}
}

// check decides pc ∧ extra...; when sat and want != nil, returns a model for want.
func (s *Solver) check(pc []*Term, extra []*Term, want []*Var) (satRes, map[*Var]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.sync(pc)
	refs := make([]string, len(extra))
	for i, e := range extra {
		refs[i] = s.ref(e)
	}
	for _, v := range want {
		s.varName(v)
	}
	s.send("(push 1)")
	s.domFacts(extra, map[*Var]bool{})
	if want != nil {
		seen := map[*Var]bool{}
		for _, v := range want {
			s.domFacts([]*Term{v.term}, seen)
		}
	}
	for _, r := range refs {
		s.send("(assert " + r + ")")
	}
	s.send("(check-sat)")
	s.in.Flush()
	s.Queries++
	line, err := s.readLine()
	if err != nil {
		fatalf("solver died: %v", err)
	}
	res := resUnknown
	var model map[*Var]uint64
	switch line {
	case "sat":
		res = resSat
		s.Sat++
		if want != nil {
			model = map[*Var]uint64{}
			if len(want) > 0 {
				var sb strings.Builder
				sb.WriteString("(get-value (")
				for _, v := range want {
					sb.WriteString("v" + strconv.Itoa(v.id) + " ")
				}
				sb.WriteString("))")
				s.send(sb.String())
				s.in.Flush()
				s.readModel(want, model)
			}
		}
	case "unsat":
		res = resUnsat
		s.Unsat++
	case "unknown", "timeout":
		s.Unknown++
	default:
		fatalf("solver: unexpected output %q", line)
	}
	s.send("(pop 1)")
	return res, model
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readModel(want []*Var, model map[*Var]uint64) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			fatalf("solver died in get-value: %v", err)
		}
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		sb.WriteByte(b)
		if started && depth == 0 {
			break
		}
	}
	txt := sb.String()
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	byName := map[string]*Var{}
	for _, v := range want {
		byName["v"+strconv.Itoa(v.id)] = v
	}
	for i := 0; i+1 < len(f); i++ {
		v := byName[f[i]]
		if v == nil {
			continue
		}
		val := f[i+1]
		switch {
		case strings.HasPrefix(val, "#x"):
			n, _ := strconv.ParseUint(val[2:], 16, 64)
			model[v] = n
		case strings.HasPrefix(val, "#b"):
			n, _ := strconv.ParseUint(val[2:], 2, 64)
			model[v] = n
		case val == "_" && i+2 < len(f):
			n, _ := strconv.ParseUint(strings.TrimPrefix(f[i+2], "bv"), 10, 64)
			model[v] = n
		}
	}
}
