package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

var solverEpochMu sync.Mutex

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}

func f64(v Value) float64  { return math.Float64frombits(v.N) }
func fV(f float64) Value   { return Value{N: math.Float64bits(f)} }
func cplx(v Value) complex128 {
	if v.O == nil {
		return 0
	}
	return v.O.(complex128)
}

type pathEnd struct {
	kind string // done assume unsupported budget exit
	msg  string
}

type ipanic struct {
	v     Value
	where string
}

type Input struct {
	Name string
	Kind string // byte int bool choice string
	Val  Value
}

type TraceEnt struct {
	Name string
	V    Value
	T    types.Type
}

type Violation struct {
	Msg    string         `json:"msg"`
	Where  string         `json:"where"`
	Inputs map[string]any `json:"inputs"`
	Known  string         `json:"known,omitempty"`
	Order  bool           `json:"map_order"`
	Kind   string         `json:"kind"`
	Trace  []string       `json:"trace,omitempty"`
}

type Machine struct {
	prog    *Program
	id      int
	tt      *TermTab
	sol     *Solver
	globals []*Value

	initPhase bool
	arenas    []arena
	free      []Value
	trail     []trailEnt
	mapTrail  []func()
	initDone  map[string]bool

	// path state
	ex        *Explorer
	pathNo    int
	prefix    []int64
	pos       int
	decisions []int64
	pc        []*Term
	pcSet     map[*Term]bool
	implied   []*Term
	impliedS  map[*Term]bool
	rangedS   map[*Term]bool // decided by interval arithmetic on this path
	ranged    int
	rngMemo   map[*Term]rngEnt
	inputs    []*Input
	nameCnt   map[string]int
	pvars     []*Var
	steps     int64
	depth     int
	trace     []TraceEnt
	known     string
	mapOrder  bool
	usedOrder bool
	exitCode  Value
	exitCatch int
	syncMaps  map[*Value]*Map
	clock     int64
	stackBuf  []Value
	sp        int
	curFn     *Fn
	fnSeen    map[*Fn]bool
	reachHit  map[string]bool
	forks     int
	folded    int
	asserts   int
	oracle    []string // concrete inputs for fixed-run mode
	tick      int
	hostState map[string]any
	doms      []domState
	curFrame  *Frame
	maxSteps  int64
	orderCnt  int
	scratchN  int
	decimals  map[*Term]decEnt
	tmpls     map[*Value]*tmplState
	tmplsInit int
	lastPanic *ipanic
	params    map[string]int
	tmplKeep  map[*Value]*tmplState
	failed    bool
	sched     schedState
}

type domState struct {
	epoch     int
	dom       bset
	entangled bool
}

func (m *Machine) unsupported(msg string) {
	panic(&pathEnd{"unsupported", msg + m.where()})
}

func (m *Machine) where() string {
	var sb strings.Builder
	n := 0
	for f := m.curFrame; f != nil && n < 12; f = f.caller {
		fmt.Fprintf(&sb, "\n    in %s", f.fn.name)
		if p := f.pos(); p != "" {
			sb.WriteString(" " + p)
		}
		n++
	}
	return sb.String()
}

func (m *Machine) domOf(v *Var) *domState {
	if v.id >= len(m.doms) {
		nd := make([]domState, v.id*2+64)
		copy(nd, m.doms)
		m.doms = nd
	}
	d := &m.doms[v.id]
	if d.epoch != m.pathNo {
		*d = domState{epoch: m.pathNo, dom: v.init}
	}
	return d
}

func (m *Machine) eval3(t *Term) int8 {
	switch t.op {
	case OpConst:
		return int8(t.c)
	case OpTab:
		d := m.domOf(t.v).dom
		x := d.and(t.set)
		if x.empty() {
			return 0
		}
		if x == d {
			return 1
		}
		return -1
	case OpBNot:
		r := m.eval3(t.a[0])
		if r >= 0 {
			return 1 - r
		}
	case OpBAnd:
		res := int8(1)
		for _, x := range t.a {
			r := m.eval3(x)
			if r == 0 {
				return 0
			}
			if r < 0 {
				res = -1
			}
		}
		if res == 1 {
			return 1
		}
	case OpBOr:
		res := int8(0)
		for _, x := range t.a {
			r := m.eval3(x)
			if r == 1 {
				return 1
			}
			if r < 0 {
				res = -1
			}
		}
		if res == 0 {
			return 0
		}
	case OpEq:
		if t.a[0].op == OpTab && t.a[1].op == OpTab && t.a[0].w > 0 {
			// disjoint value sets?
			if m.disjoint(t.a[0], t.a[1]) {
				return 0
			}
		}
		if r := m.byRange(t); r >= 0 {
			return r
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		if r := m.byRange(t); r >= 0 {
			return r
		}
	}
	if len(m.pcSet) > 0 {
		if m.pcSet[t] {
			return 1
		}
		if t.op == OpBNot {
			if m.pcSet[t.a[0]] {
				return 0
			}
		} else if n := m.tt.cons[tkey{op: OpBNot, w: 0, a0: t.id}]; n != nil && m.pcSet[n] {
			return 0
		}
	}
	return -1
}

func (m *Machine) disjoint(a, b *Term) bool {
	da, db := m.domOf(a.v).dom, m.domOf(b.v).dom
	if da.count() > 64 && db.count() > 64 {
		return false
	}
	vals := map[uint64]bool{}
	for i := 0; i < 256; i++ {
		if da.has(i) {
			vals[a.val(i)] = true
		}
	}
	for i := 0; i < 256; i++ {
		if db.has(i) && vals[b.val(i)] {
			return false
		}
	}
	return true
}

func (m *Machine) addImplied(t *Term) {
	if t.op == OpConst || m.impliedS[t] {
		return
	}
	x := t
	for x.op == OpBNot {
		x = x.a[0]
	}
	if r := m.rangedS[x]; r {
		m.ranged++
		return
	}
	m.impliedS[t] = true
	m.implied = append(m.implied, t)
}

// addPC adds a constraint known to be consistent (or about to be checked).
func (m *Machine) addPC(t *Term) {
	if t.op == OpConst {
		return
	}
	if t.op == OpBAnd {
		for _, x := range t.a {
			m.addPC(x)
		}
		return
	}
	if m.pcSet[t] {
		return
	}
	m.pc = append(m.pc, t)
	m.pcSet[t] = true
	if t.op == OpTab {
		d := m.domOf(t.v)
		d.dom = d.dom.and(t.set)
		return
	}
	if t.op == OpEq && t.a[0].op == OpTab && t.a[1].op == OpTab && t.a[0].w > 0 {
		// narrow both domains (over-approximation stays sound)
		a, b := t.a[0], t.a[1]
		da, db := m.domOf(a.v), m.domOf(b.v)
		va, vb := map[uint64]bool{}, map[uint64]bool{}
		for i := 0; i < 256; i++ {
			if da.dom.has(i) {
				va[a.val(i)] = true
			}
			if db.dom.has(i) {
				vb[b.val(i)] = true
			}
		}
		var na, nb bset
		for i := 0; i < 256; i++ {
			if da.dom.has(i) && vb[a.val(i)] {
				na.add(i)
			}
			if db.dom.has(i) && va[b.val(i)] {
				nb.add(i)
			}
		}
		da.dom, db.dom = na, nb
	}
	for _, v := range t.support() {
		m.domOf(v).entangled = true
	}
}

func (m *Machine) entangled(t *Term) bool {
	for _, v := range t.support() {
		if v.w != 8 || m.domOf(v).entangled {
			return true
		}
	}
	return false
}

// feasible decides whether pc ∧ t is satisfiable (exactly).
func (m *Machine) feasible(t *Term) bool {
	switch m.eval3(t) {
	case 0:
		m.addImplied(m.tt.not(t))
		return false
	case 1:
		return true
	}
	if t.op == OpTab && !m.entangled(t) {
		return true
	}
	r, _ := m.sol.check(m.pc, []*Term{t}, nil)
	if r == resUnknown {
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "UNKNOWN", t.debug(30), fmt.Sprint(m.rng(t.a[0])), fmt.Sprint(m.rng(t.a[1])))
		}
		m.unsupported("solver returned unknown on a branch")
	}
	return r == resSat
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (m *Machine) branch(v Value) bool {
	if v.O == nil {
		return v.N != 0
	}
	t := v.O.(*Term)
	switch m.eval3(t) {
	case 1:
		m.addImplied(t)
		return true
	case 0:
		m.addImplied(m.tt.not(t))
		return false
	}
	nt := m.tt.not(t)
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.decisions = append(m.decisions, d)
		if d == 1 {
			m.addPC(t)
			return true
		}
		m.addPC(nt)
		return false
	}
	canT := m.feasible(t)
	canF := true
	if canT {
		canF = m.feasible(nt)
	}
	if canT && canF {
		m.forks++
		m.pushAlt(0)
	}
	m.pos++
	if canT {
		m.decisions = append(m.decisions, 1)
		m.prefix = append(m.prefix, 1)
		m.addPC(t)
		return true
	}
	m.decisions = append(m.decisions, 0)
	m.prefix = append(m.prefix, 0)
	m.addPC(nt)
	return false
}

func (m *Machine) pushAlt(d ...int64) {
	p := make([]int64, len(m.decisions)+len(d))
	copy(p, m.decisions)
	copy(p[len(m.decisions):], d)
	m.ex.push(p)
}

// choose forks over mutually exclusive, exhaustive alternatives.
func (m *Machine) choose(cs []*Term) int {
	if m.pos < len(m.prefix) {
		d := int(m.prefix[m.pos])
		m.pos++
		m.decisions = append(m.decisions, int64(d))
		m.addPC(cs[d])
		return d
	}
	var ok []int
	for i, c := range cs {
		if m.feasible(c) {
			ok = append(ok, i)
		}
	}
	if len(ok) == 0 {
		panic(&pathEnd{"assume", "no feasible alternative"})
	}
	for i := len(ok) - 1; i >= 1; i-- {
		m.forks++
		m.pushAlt(int64(ok[i]))
	}
	d := ok[0]
	m.pos++
	m.decisions = append(m.decisions, int64(d))
	m.prefix = append(m.prefix, int64(d))
	m.addPC(cs[d])
	return d
}

// chooseN is an n-way choice made symbolic through a fresh variable.
func (m *Machine) chooseN(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if n > 256 {
		m.unsupported("choice too wide")
	}
	var s bset
	for i := 0; i < n; i++ {
		s.add(i)
	}
	t := m.tt.byteVar(name, s)
	m.noteVar(t)
	return int(m.concretize(Value{O: t}, tinfo{kUint, 8}))
}

func (m *Machine) noteVar(t *Term) {
	for _, v := range m.pvars {
		if v == t.v {
			return
		}
	}
	m.pvars = append(m.pvars, t.v)
}

// concretize forks over the possible values of v.
func (m *Machine) concretize(v Value, i tinfo) uint64 {
	t, ok := v.O.(*Term)
	if !ok {
		if v.O != nil {
			m.unsupported(fmt.Sprintf("concretize %T", v.O))
		}
		return v.N
	}
	if t.op == OpTab {
		d := m.domOf(t.v).dom
		seen := map[uint64]bset{}
		var order []uint64
		for k := 0; k < 256; k++ {
			if d.has(k) {
				x := t.val(k)
				s, ok := seen[x]
				if !ok {
					order = append(order, x)
				}
				s.add(k)
				seen[x] = s
			}
		}
		sort.Slice(order, func(a, b int) bool { return order[a] < order[b] })
		if len(order) == 1 {
			if m.pos < len(m.prefix) || true {
				// implied by the domain; no decision
				var full bset
				for k := 0; k < 256; k++ {
					if t.v.init.has(k) && t.val(k) == order[0] {
						full.add(k)
					}
				}
				m.addImplied(m.tt.inSet(t.v, full))
			}
			return i.norm(order[0])
		}
		cs := make([]*Term, len(order))
		for k, x := range order {
			var full bset
			for b := 0; b < 256; b++ {
				if t.v.init.has(b) && t.val(b) == x {
					full.add(b)
				}
			}
			cs[k] = m.tt.inSet(t.v, full)
		}
		// the exhaustiveness of cs under the current domain
		return i.norm(order[m.chooseBy(cs, order)])
	}
	for n := 0; ; n++ {
		if n > 300 {
			m.unsupported("concretisation of a value with more than 300 possibilities")
		}
		var val uint64
		if m.pos < len(m.prefix) {
			val = uint64(m.prefix[m.pos])
			taken := m.prefix[m.pos+1]
			m.pos += 2
			m.decisions = append(m.decisions, int64(val), taken)
			eq := m.tt.bin(OpEq, t, m.tt.konst(t.w, val))
			if taken == 1 {
				m.addPC(eq)
				return i.norm(val)
			}
			m.addPC(m.tt.not(eq))
			continue
		}
		r, model := m.sol.check(m.pc, nil, t.support())
		if r == resUnknown {
			m.unsupported("solver unknown in concretisation")
		}
		if r == resUnsat {
			panic(&pathEnd{"assume", "no value left"})
		}
		val = m.tt.eval(t, model)
		eq := m.tt.bin(OpEq, t, m.tt.konst(t.w, val))
		if m.feasible(m.tt.not(eq)) {
			m.forks++
			m.pushAlt(int64(val), 0)
		}
		m.pos += 2
		m.decisions = append(m.decisions, int64(val), 1)
		m.prefix = append(m.prefix, int64(val), 1)
		m.addPC(eq)
		return i.norm(val)
	}
}

// chooseBy is choose with decisions recorded by value (stable across domains).
func (m *Machine) chooseBy(cs []*Term, vals []uint64) int {
	if m.pos < len(m.prefix) {
		d := uint64(m.prefix[m.pos])
		m.pos++
		m.decisions = append(m.decisions, int64(d))
		for k, x := range vals {
			if x == d {
				m.addPC(cs[k])
				return k
			}
		}
		panic(fmt.Sprintf("replay divergence: value %d not among %v", d, vals))
	}
	var ok []int
	for k, c := range cs {
		if m.feasible(c) {
			ok = append(ok, k)
		}
	}
	if len(ok) == 0 {
		panic(&pathEnd{"assume", "no feasible value"})
	}
	for k := len(ok) - 1; k >= 1; k-- {
		m.forks++
		m.pushAlt(int64(vals[ok[k]]))
	}
	d := ok[0]
	m.pos++
	m.decisions = append(m.decisions, int64(vals[d]))
	m.prefix = append(m.prefix, int64(vals[d]))
	m.addPC(cs[d])
	return d
}

func (m *Machine) assume(v Value) {
	if v.O == nil {
		if v.N == 0 {
			panic(&pathEnd{"assume", ""})
		}
		return
	}
	t := v.O.(*Term)
	switch m.eval3(t) {
	case 1:
		m.addImplied(t)
		return
	case 0:
		panic(&pathEnd{"assume", ""})
	}
	if m.pos >= len(m.prefix) || true {
		if !m.feasibleQuiet(t) {
			panic(&pathEnd{"assume", ""})
		}
	}
	m.addPC(t)
}

func (m *Machine) feasibleQuiet(t *Term) bool {
	if t.op == OpTab && !m.entangled(t) {
		return m.eval3(t) != 0
	}
	r, _ := m.sol.check(m.pc, []*Term{t}, nil)
	if r == resUnknown {
		m.unsupported("solver unknown in assume")
	}
	return r == resSat
}

// assert checks v on this path.
func (m *Machine) assert(v Value, msg string) {
	m.asserts++
	if v.O == nil {
		if v.N != 0 {
			m.folded++
			return
		}
		m.violate(nil, msg, "assert")
		panic(&pathEnd{"done", "assertion failed"})
	}
	t := v.O.(*Term)
	if m.eval3(t) == 1 {
		m.addImplied(t)
		return
	}
	nt := m.tt.not(t)
	r, model := m.sol.check(m.pc, []*Term{nt}, m.pvars)
	switch r {
	case resUnsat:
		m.ex.noteAssertQuery()
		return
	case resUnknown:
		m.unsupported("solver unknown on assertion: " + msg)
	}
	m.ex.noteAssertQuery()
	m.report(model, msg, "assert")
	if !m.feasibleQuiet(t) {
		panic(&pathEnd{"done", "assertion failed"})
	}
	m.addPC(t)
}

// violate reports a violation for the current path condition (plus extra).
func (m *Machine) violate(extra []*Term, msg, kind string) {
	r, model := m.sol.check(m.pc, extra, m.pvars)
	if r == resUnsat {
		panic(&pathEnd{"assume", "infeasible path"})
	}
	if r == resUnknown {
		m.unsupported("solver unknown on violation path: " + msg)
	}
	m.report(model, msg, kind)
}

func (m *Machine) report(model map[*Var]uint64, msg, kind string) {
	m.failed = true
	v := &Violation{Msg: msg, Where: m.where(), Inputs: m.inputModel(model), Known: m.known, Order: m.usedOrder, Kind: kind}
	m.ex.addViolation(v)
}

func (m *Machine) inputModel(model map[*Var]uint64) map[string]any {
	out := map[string]any{}
	for _, in := range m.inputs {
		out[in.Name] = m.concIn(in, model)
	}
	return out
}

func (m *Machine) concByte(v Value, model map[*Var]uint64) uint64 {
	if t, ok := v.O.(*Term); ok {
		return m.tt.eval(t, model)
	}
	return v.N
}

func (m *Machine) concIn(in *Input, model map[*Var]uint64) any {
	switch in.Kind {
	case "string":
		bs := strBytes(in.Val)
		buf := make([]byte, len(bs))
		for i, b := range bs {
			buf[i] = byte(m.concByte(b, model))
		}
		// JSON cannot carry arbitrary bytes: use a byte list
		out := make([]int, len(buf))
		for i := range buf {
			out[i] = int(buf[i])
		}
		return map[string]any{"bytes": out, "text": fmt.Sprintf("%q", string(buf))}
	case "int":
		x := m.concByte(in.Val, model)
		return fmt.Sprintf("%d", int64(x))
	default:
		x := m.concByte(in.Val, model)
		return fmt.Sprintf("%d", x)
	}
}

// completeModel fills unconstrained variables from their initial domain.
func completeModel(vars []*Var, model map[*Var]uint64) {
	for _, v := range vars {
		if _, ok := model[v]; !ok {
			if v.w == 8 {
				for i := 0; i < 256; i++ {
					if v.init.has(i) {
						model[v] = uint64(i)
						break
					}
				}
			} else {
				model[v] = v.lo
			}
		}
	}
}

// ---- running one path ----

type PathResult struct {
	kind  string
	msg   string
	steps int64
}

func (m *Machine) resetPath(prefix []int64) {
	for i := len(m.trail) - 1; i >= 0; i-- {
		*m.trail[i].p = m.trail[i].old
	}
	m.trail = m.trail[:0]
	for i := len(m.mapTrail) - 1; i >= 0; i-- {
		m.mapTrail[i]()
	}
	m.mapTrail = nil
	m.pathNo++
	m.prefix = append(m.prefix[:0], prefix...)
	m.pos = 0
	m.decisions = m.decisions[:0]
	m.pc = m.pc[:0]
	m.pcSet = map[*Term]bool{}
	m.implied = m.implied[:0]
	m.impliedS = map[*Term]bool{}
	m.rangedS = map[*Term]bool{}
	m.rngMemo = map[*Term]rngEnt{}
	m.ranged = 0
	m.inputs = nil
	m.nameCnt = map[string]int{}
	m.pvars = nil
	m.steps = 0
	m.depth = 0
	m.trace = nil
	m.known = ""
	m.mapOrder = false
	m.usedOrder = false
	m.exitCatch = 0
	m.sp = 0
	m.curFrame = nil
	m.hostState = map[string]any{}
	m.orderCnt, m.scratchN = 0, 0
	m.decimals = map[*Term]decEnt{}
	m.clock = 0
	m.failed = false
	m.sched = schedState{}
	for k, mp := range m.syncMaps {
		if !mp.init {
			delete(m.syncMaps, k)
		}
	}
	if m.tmplKeep == nil {
		m.tmplKeep = map[*Value]*tmplState{}
		for k, v := range m.tmpls {
			m.tmplKeep[k] = v
		}
	}
	if len(m.tmpls) != len(m.tmplKeep) {
		m.tmpls = map[*Value]*tmplState{}
		for k, v := range m.tmplKeep {
			m.tmpls[k] = v
		}
	}
	if m.tt.next > 3_000_000 {
		// drop the term table; globals hold no symbolic terms after undo
		m.freshTerms()
	}
}

func (m *Machine) freshTerms() {
	if m.tt.next < 1000 && m.sol.Queries == 0 {
		return
	}
	m.tt = newTermTab()
	m.sol.reset(m.tt)
	m.doms = nil
}

func (m *Machine) runPath(fn *Fn, prefix []int64) (res PathResult) {
	m.resetPath(prefix)
	defer func() {
		if len(m.sched.coros) > 1 {
			defer m.endCoros(1)
		}
		res.steps = m.steps
		if r := recover(); r != nil {
			switch p := r.(type) {
			case *pathEnd:
				res.kind, res.msg = p.kind, p.msg
			case *ipanic:
				func() {
					defer func() {
						if r2 := recover(); r2 != nil {
							if pe, ok := r2.(*pathEnd); ok {
								res.kind, res.msg = pe.kind, pe.msg
								return
							}
							panic(r2)
						}
					}()
					m.curFrame = nil
					m.violate(nil, "uncaught panic: "+m.panicText(p.v)+p.where, "panic")
					res.kind = "done"
				}()
			default:
				if os.Getenv("GOSYM_STRICT") != "" {
					fmt.Fprintf(os.Stderr, "INTERNAL: %v%s\n", r, m.where())
					panic(r)
				}
				res.kind, res.msg = "unsupported", fmt.Sprintf("internal: %v%s", r, m.where())
			}
		}
	}()
	m.call(fn, nil, nil)
	return PathResult{kind: "done"}
}

func (m *Machine) panicText(v Value) string {
	if v.O == nil {
		return "nil"
	}
	if i, ok := v.O.(*Iface); ok {
		s := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					s = "<" + i.T.String() + ">"
				}
			}()
			x := m.fmtValue(i.V, i.T, 'v', fmtFlags{}, 0)
			s = m.lossyStr(x)
		}()
		return s
	}
	return fmt.Sprintf("%v", v.O)
}

func (m *Machine) lossyStr(v Value) string {
	var sb strings.Builder
	for _, b := range strBytes(v) {
		if b.O != nil {
			sb.WriteByte('?')
		} else {
			sb.WriteByte(byte(b.N))
		}
	}
	return sb.String()
}

// ---- explorer ----

type Explorer struct {
	mu         sync.Mutex
	cond       *sync.Cond
	stack      [][]int64
	active     int
	stop       bool
	Paths      int
	Done       int
	Assumed    int
	Forks      int
	Steps      int64
	Asserts    int
	Folded     int
	AssertQ    int
	PCSat      int
	Lemmas     int
	LemmaQ     int
	Branches   int
	Incon      map[string]int
	budgets    int // paths cut off by the step limit
	Violations []*Violation
	vioKeys    map[string]int
	Samples    []Sample
	Reach      map[string]int
	Funcs      map[string]bool
	maxViol    int
	deadline   time.Time
	TimedOut   bool
	Queries    int
	QSat       int
	QUnsat     int
	SolverTime time.Duration
	known      func(string) bool
	traceEvery int
	rng        uint64
	LongPC     int
	params     map[string]int
	maxSamples int
	Unfinished []Sample
}

type Sample struct {
	Inputs map[string]any `json:"inputs"`
	Trace  []string       `json:"trace"`
	Order  bool           `json:"order"`
	PC     int            `json:"pc"`
	Kind   string         `json:"kind"`
	Known  string         `json:"known"`
	Failed bool           `json:"failed"`
}

func newExplorer() *Explorer {
	e := &Explorer{Incon: map[string]int{}, vioKeys: map[string]int{}, Reach: map[string]int{}, Funcs: map[string]bool{}, maxViol: 12}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) push(p []int64) {
	e.mu.Lock()
	e.stack = append(e.stack, p)
	e.mu.Unlock()
	e.cond.Signal()
}
func (e *Explorer) noteAssertQuery() {
	e.mu.Lock()
	e.AssertQ++
	e.mu.Unlock()
}
func (e *Explorer) addViolation(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	key := v.Kind + "|" + v.Msg + "|" + v.Known
	e.vioKeys[key]++
	if e.vioKeys[key] > 3 {
		return
	}
	e.Violations = append(e.Violations, v)
	if v.Known == "" {
		n := 0
		for _, x := range e.Violations {
			if x.Known == "" {
				n++
			}
		}
		if n >= e.maxViol {
			e.stop = true
			e.cond.Broadcast()
		}
	}
}

func (e *Explorer) run(ms []*Machine, fn *Fn, proveLemmas bool) {
	e.stack = [][]int64{{}}
	var wg sync.WaitGroup
	for _, m := range ms {
		m.ex = e
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			for {
				e.mu.Lock()
				for len(e.stack) == 0 && e.active > 0 && !e.stop {
					e.cond.Wait()
				}
				if e.stop || len(e.stack) == 0 {
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				if !e.deadline.IsZero() && time.Now().After(e.deadline) {
					e.TimedOut = true
					e.stop = true
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				p := e.stack[len(e.stack)-1]
				e.stack = e.stack[:len(e.stack)-1]
				e.active++
				e.mu.Unlock()
				e.onePath(m, fn, p, proveLemmas)
				e.mu.Lock()
				e.active--
				if e.active == 0 && len(e.stack) == 0 {
					e.cond.Broadcast()
				}
				e.mu.Unlock()
			}
		}(m)
	}
	wg.Wait()
	for _, m := range ms {
		e.Queries += m.sol.Queries
		e.QSat += m.sol.Sat
		e.QUnsat += m.sol.Unsat
		e.SolverTime += m.sol.Time
		m.sol.Queries, m.sol.Sat, m.sol.Unsat, m.sol.Time = 0, 0, 0, 0
		for f := range m.fnSeen {
			e.Funcs[f.name] = true
		}
		m.fnSeen = map[*Fn]bool{}
	}
}

func (e *Explorer) onePath(m *Machine, fn *Fn, p []int64, prove bool) {
	m.forks, m.asserts, m.folded = 0, 0, 0
	m.reachHit = map[string]bool{}
	res := m.runPath(fn, p)
	pcsat, lem, lemq := 0, 0, 0
	var sample *Sample
	if res.kind == "done" || res.kind == "exit" {
		// the path must be satisfiable, and every pruned alternative impossible
		e.mu.Lock()
		e.rng = e.rng*6364136223846793005 + 1442695040888963407
		take := e.traceEvery > 0 && (e.Done%e.traceEvery == 0 || len(e.Samples) < 4)
		e.mu.Unlock()
		var want []*Var
		if take {
			want = m.pvars
			if want == nil {
				want = []*Var{}
			}
		}
		r, model := m.sol.check(m.pc, nil, want)
		switch r {
		case resSat:
			pcsat = 1
			if take {
				sample = &Sample{Inputs: m.inputModel(model), Order: m.usedOrder, PC: len(m.pc), Kind: res.kind, Failed: m.failed, Known: m.known}
				func() {
					defer func() {
						if r := recover(); r != nil {
							sample.Trace = []string{fmt.Sprintf("<unprintable: %v>", r)}
						}
					}()
					for _, t := range m.trace {
						sample.Trace = append(sample.Trace, t.Name+"="+m.concText(t.V, t.T, model))
					}
				}()
			}
		case resUnsat:
			res.kind = "assume"
		default:
			res.kind, res.msg = "unsupported", "solver unknown on path condition"
		}
		if prove && len(m.implied) > 0 && pcsat == 1 {
			neg := m.tt.not(m.tt.and(m.implied...))
			lem = len(m.implied)
			if neg != m.tt.tFalse {
				r, _ := m.sol.check(m.pc, []*Term{neg}, nil)
				lemq = 1
				if r != resUnsat {
					res.kind, res.msg = "unsupported", "pruned branch not confirmed by the solver"
				}
			}
		}
	}
	var unfinished *Sample
	if res.kind == "unsupported" || res.kind == "budget" {
		e.mu.Lock()
		take := len(e.Unfinished) < 40
		e.mu.Unlock()
		if take {
			want := m.pvars
			if want == nil {
				want = []*Var{}
			}
			if r, model := m.sol.check(m.pc, nil, want); r == resSat {
				unfinished = &Sample{Inputs: m.inputModel(model), Kind: res.kind, Known: m.known}
			}
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if unfinished != nil {
		e.Unfinished = append(e.Unfinished, *unfinished)
	}
	e.Paths++
	e.Forks += m.forks
	e.Steps += res.steps
	e.Asserts += m.asserts
	e.Folded += m.folded
	e.PCSat += pcsat
	e.Lemmas += lem
	e.LemmaQ += lemq
	e.Branches += len(m.decisions)
	if len(m.pc) > e.LongPC {
		e.LongPC = len(m.pc)
	}
	switch res.kind {
	case "done", "exit":
		e.Done++
		for k := range m.reachHit {
			e.Reach[k]++
		}
	case "assume":
		e.Assumed++
	default:
		e.Incon[res.kind+": "+res.msg]++
		if res.kind == "budget" {
			e.budgets++
		}
		if len(e.Incon) > 20 || e.budgets >= 16 {
			e.stop = true
			e.cond.Broadcast()
		}
	}
	if sample != nil && len(e.Samples) < e.maxSamples {
		e.Samples = append(e.Samples, *sample)
	}
	if os.Getenv("GOSYM_PROGRESS") != "" && e.Paths%200 == 0 {
		fmt.Fprintf(os.Stderr, "paths=%d done=%d pending=%d steps=%d viol=%d incon=%v\n", e.Paths, e.Done, len(e.stack), e.Steps, len(e.Violations), e.Incon)
	}
}
