package main

// go/ssa functions are compiled once into closures over a register frame; the
// closures operate on Values whose scalars may be symbolic Terms.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"runtime"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// maxPerm is the size up to which every order of a map is explored.
const maxPerm = 5

type native func(m *Machine, fn *Fn, args []Value) Value

type Fn struct {
	name    string
	ssa     *ssa.Function
	prog    *Program
	once    sync.Once
	err     string
	native  native
	nregs   int
	nparams int
	blocks  []*cblock
	recover int // recover block index or -1
	defers  bool
	pkgInit bool
	inRepo  bool
	bodyOK  bool
}

type phiMove struct {
	dst int
	src opnd
}

type edge struct {
	to   int
	phis []phiMove
}

type cblock struct {
	ins  []func(m *Machine, fr *Frame)
	src  []ssa.Instruction
	term func(m *Machine, fr *Frame) int // successor number, or -1 for return
	succ []edge
}

type Frame struct {
	fn        *Fn
	caller    *Frame
	regs      []Value
	blk       int
	ip        int
	ret       Value
	defers    []deferred
	panicking *ipanic
	isDefer   bool
}

type deferred struct {
	cl   *Closure
	nat  func(m *Machine, args []Value) Value
	args []Value
}

type poison struct{ why string }

func (fr *Frame) pos() string {
	if fr.fn.ssa == nil || fr.fn.blocks == nil || fr.blk >= len(fr.fn.blocks) {
		return ""
	}
	src := fr.fn.blocks[fr.blk].src
	for i := fr.ip; i >= 0 && i < len(src); i-- {
		if p := src[i].Pos(); p.IsValid() {
			ps := fr.fn.ssa.Prog.Fset.Position(p)
			return fmt.Sprintf("(%s:%d)", shortFile(ps.Filename), ps.Line)
		}
	}
	return ""
}

func shortFile(f string) string {
	return strings.TrimPrefix(f, "/repo/")
}

type opnd struct {
	k uint8 // 0 reg 1 const 2 global
	i int
	v Value
}

func (o *opnd) get(m *Machine, fr *Frame) Value {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.v
	}
	if !m.initPhase && m.prog.globalBad[o.i] {
		m.unsupported("use of a global of an uninitialised package: " + m.prog.globalName[o.i])
	}
	return Value{O: m.global(o.i)}
}

const maxDepth = 2500

func (m *Machine) callClosure(c *Closure, args []Value) Value {
	if c == nil {
		m.runtimePanic("invalid memory address or nil pointer dereference")
	}
	if c.Native != nil {
		return c.Native(m, args)
	}
	return m.call(c.Fn, args, c.Env)
}

func (m *Machine) call(fn *Fn, args []Value, env []Value) Value {
	return m.callX(fn, args, env, false)
}

func (m *Machine) callX(fn *Fn, args []Value, env []Value, isDefer bool) Value {
	if fn.native != nil {
		return fn.native(m, fn, args)
	}
	fn.once.Do(fn.compile)
	if fn.err != "" {
		m.unsupported(fn.err)
	}
	m.depth++
	if m.depth > maxDepth {
		panic(&pathEnd{"budget", "call depth exceeds " + fmt.Sprint(maxDepth) + m.where()})
	}
	if fn.inRepo {
		m.fnSeen[fn] = true
	}
	fr := &Frame{fn: fn, caller: m.curFrame, isDefer: isDefer}
	if m.sp+fn.nregs > len(m.stackBuf) {
		m.stackBuf = make([]Value, 1<<16+fn.nregs)
		m.sp = 0
	}
	sp := m.sp
	buf := m.stackBuf
	fr.regs = buf[sp : sp+fn.nregs : sp+fn.nregs]
	m.sp += fn.nregs
	clear(fr.regs)
	copy(fr.regs, args)
	copy(fr.regs[fn.nparams:], env)
	m.curFrame = fr
	var ret Value
	if fn.defers {
		ret = m.runWithDefers(fr)
	} else {
		ret = m.exec(fr)
	}
	m.curFrame = fr.caller
	if &m.stackBuf[0] == &buf[0] {
		m.sp = sp
	}
	m.depth--
	return ret
}

func (m *Machine) protect(fr *Frame, f func()) {
	depth, sp, buf := m.depth, m.sp, m.stackBuf
	defer func() {
		if r := recover(); r != nil {
			ip, ok := r.(*ipanic)
			if !ok {
				panic(r)
			}
			m.depth, m.sp, m.stackBuf = depth, sp, buf
			m.curFrame = fr
			fr.panicking = ip
		}
	}()
	f()
}

func (m *Machine) runWithDefers(fr *Frame) Value {
	var ret Value
	m.protect(fr, func() { ret = m.exec(fr) })
	if fr.panicking == nil {
		return ret
	}
	m.runDefers(fr)
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	if fr.fn.recover >= 0 {
		fr.blk = fr.fn.recover
		return m.exec(fr)
	}
	return m.zero(resultType(fr.fn.ssa.Signature))
}

func resultType(s *types.Signature) types.Type {
	if s.Results().Len() == 1 {
		return s.Results().At(0).Type()
	}
	return s.Results()
}

func (m *Machine) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.protect(fr, func() {
			if d.nat != nil {
				d.nat(m, d.args)
			} else if d.cl.Native != nil {
				d.cl.Native(m, d.args)
			} else {
				m.callX(d.cl.Fn, d.args, d.cl.Env, true)
			}
		})
	}
}

func (m *Machine) exec(fr *Frame) Value {
	fn := fr.fn
	var tmp [8]Value
	for {
		b := fn.blocks[fr.blk]
		m.steps += int64(len(b.ins)) + 1
		if m.steps > m.maxSteps {
			panic(&pathEnd{"budget", fmt.Sprintf("more than %d steps", m.maxSteps) + m.where()})
		}
		for i, f := range b.ins {
			fr.ip = i
			f(m, fr)
		}
		fr.ip = len(b.ins)
		k := b.term(m, fr)
		if k < 0 {
			return fr.ret
		}
		e := &b.succ[k]
		if n := len(e.phis); n == 1 {
			fr.regs[e.phis[0].dst] = e.phis[0].src.get(m, fr)
		} else if n > 0 {
			t := tmp[:0]
			for j := range e.phis {
				t = append(t, e.phis[j].src.get(m, fr))
			}
			for j := range e.phis {
				fr.regs[e.phis[j].dst] = t[j]
			}
		}
		fr.blk = e.to
	}
}

// ---- runtime panics ----

func (m *Machine) runtimePanic(msg string) {
	t := m.prog.runtimeErr
	var v Value
	if t != nil {
		v = Value{O: &Iface{T: t, V: strV(msg)}}
	} else {
		v = Value{O: &Iface{T: types.Typ[types.String], V: strV("runtime error: " + msg)}}
	}
	panic(&ipanic{v: v, where: m.where()})
}

func (m *Machine) nilDeref() { m.runtimePanic("invalid memory address or nil pointer dereference") }

// ---- compilation ----

type compiler struct {
	fn   *Fn
	regs map[ssa.Value]int
	p    *Program
}

func (fn *Fn) compile() {
	defer func() {
		if r := recover(); r != nil {
			fn.err = fmt.Sprintf("cannot compile %s: %v", fn.name, r)
			if _, ok := r.(runtime.Error); ok {
				panic(r)
			}
		}
	}()
	f := fn.ssa
	if f.Blocks == nil {
		fn.err = "no body for " + fn.name
		return
	}
	c := &compiler{fn: fn, regs: map[ssa.Value]int{}, p: fn.prog}
	n := 0
	for _, p := range f.Params {
		c.regs[p] = n
		n++
	}
	fn.nparams = n
	for _, p := range f.FreeVars {
		c.regs[p] = n
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				fn.defers = true
			}
		}
	}
	fn.nregs = n
	fn.recover = -1
	if f.Recover != nil {
		fn.recover = f.Recover.Index
	}
	blocks := make([]*cblock, len(f.Blocks))
	for i, b := range f.Blocks {
		blocks[i] = c.block(b)
	}
	// edges
	for i, b := range f.Blocks {
		seen := map[*ssa.BasicBlock]int{}
		for _, s := range b.Succs {
			nth := seen[s]
			seen[s]++
			pi := -1
			cnt := 0
			for k, p := range s.Preds {
				if p == b {
					if cnt == nth {
						pi = k
						break
					}
					cnt++
				}
			}
			e := edge{to: s.Index}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				e.phis = append(e.phis, phiMove{c.regs[ph], c.op(ph.Edges[pi])})
			}
			blocks[i].succ = append(blocks[i].succ, e)
		}
	}
	fn.blocks = blocks
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{k: 1, v: constVal(v)}
	case *ssa.Global:
		return opnd{k: 2, i: c.p.globalIdx[v]}
	case *ssa.Function:
		return opnd{k: 1, v: Value{O: c.p.funcClosure(v)}}
	case *ssa.Builtin:
		return opnd{k: 1, v: Value{O: &Closure{Name: v.Name()}}}
	}
	i, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s %T", v.Name(), v))
	}
	return opnd{k: 0, i: i}
}

func constVal(k *ssa.Const) Value {
	if k.Value == nil {
		return Value{}
	}
	i := ti(k.Type())
	switch i.k {
	case kBool:
		return boolV(constant.BoolVal(k.Value))
	case kInt:
		return Value{N: i.norm(uint64(k.Int64()))}
	case kUint:
		return Value{N: i.norm(k.Uint64())}
	case kFloat:
		f := k.Float64()
		if i.w == 32 {
			f = float64(float32(f))
		}
		return fV(f)
	case kComplex:
		return Value{O: k.Complex128()}
	case kString:
		if k.Value.Kind() == constant.String {
			return strV2(constant.StringVal(k.Value))
		}
		return strV2(string(rune(k.Int64())))
	case kUnsafePtr, kPtr:
		return Value{}
	case kIface: // type-param consts etc.
		panic("constant of interface type")
	}
	panic("constVal " + k.String())
}

func strV2(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{O: s}
}

func (c *compiler) block(b *ssa.BasicBlock) *cblock {
	cb := &cblock{}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch in := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			cond := c.op(in.Cond)
			cb.term = func(m *Machine, fr *Frame) int {
				v := cond.get(m, fr)
				if v.O == nil {
					if v.N != 0 {
						return 0
					}
					return 1
				}
				if m.branch(v) {
					return 0
				}
				return 1
			}
		case *ssa.Jump:
			cb.term = func(m *Machine, fr *Frame) int { return 0 }
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
				cb.term = func(m *Machine, fr *Frame) int { return -1 }
			case 1:
				r := c.op(in.Results[0])
				cb.term = func(m *Machine, fr *Frame) int { fr.ret = r.get(m, fr); return -1 }
			default:
				rs := c.ops(in.Results)
				cb.term = func(m *Machine, fr *Frame) int {
					t := make(Tuple, len(rs))
					for i := range rs {
						t[i] = rs[i].get(m, fr)
					}
					fr.ret = Value{O: t}
					return -1
				}
			}
		case *ssa.Panic:
			x := c.op(in.X)
			cb.term = func(m *Machine, fr *Frame) int {
				v := x.get(m, fr)
				if v.O == nil {
					m.runtimePanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
				}
				panic(&ipanic{v: v, where: m.where()})
			}
		default:
			f := c.instr(in)
			if c.fn.pkgInit {
				if v, ok := in.(ssa.Value); ok {
					f = guardInit(f, c.regs[v])
				} else {
					f = guardInit(f, -1)
				}
			}
			cb.ins = append(cb.ins, f)
			cb.src = append(cb.src, in)
			continue
		}
		cb.src = append(cb.src, in)
	}
	return cb
}

// guardInit turns a failing initialiser instruction into a poisoned result.
func guardInit(f func(*Machine, *Frame), reg int) func(*Machine, *Frame) {
	return func(m *Machine, fr *Frame) {
		depth, sp, buf := m.depth, m.sp, m.stackBuf
		defer func() {
			if r := recover(); r != nil {
				m.depth, m.sp, m.stackBuf, m.curFrame = depth, sp, buf, fr
				why := ""
				switch x := r.(type) {
				case *pathEnd:
					why = x.msg
				case *ipanic:
					why = "panic " + m.panicText(x.v) + x.where
				case runtime.Error:
					why = x.Error()
				default:
					panic(r)
				}
				if debugInit {
					fmt.Printf("init poison %s: %s\n", fr.fn.name, why)
				}
				if reg >= 0 {
					fr.regs[reg] = Value{O: &poison{why}}
				}
			}
		}()
		f(m, fr)
	}
}

var debugInit = false

func (c *compiler) ops(vs []ssa.Value) []opnd {
	out := make([]opnd, len(vs))
	for i, v := range vs {
		out[i] = c.op(v)
	}
	return out
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref of " + t.String())
}

func (m *Machine) load(v Value, t types.Type) Value {
	switch p := v.O.(type) {
	case *Value:
		x := *p
		switch x.O.(type) {
		case *Struct, *Array:
			return m.copyVal(x)
		}
		return x
	case *SymPtr:
		return m.selectElem(p.E, p.Idx, t)
	case *DataPtr:
		if p.S != nil && len(p.S.E) > 0 {
			return p.S.E[0]
		}
	case nil:
		m.nilDeref()
	case *poison:
		m.unsupported("use of uninitialised value: " + p.why)
	}
	m.unsupported(fmt.Sprintf("load through %T", v.O))
	return Value{}
}

func (m *Machine) ptr(v Value) *Value {
	switch p := v.O.(type) {
	case *Value:
		return p
	case nil:
		m.nilDeref()
	case *SymPtr:
		i := m.concretize(Value{O: p.Idx}, tinfo{kInt, 64})
		return &p.E[i]
	case *poison:
		m.unsupported("use of uninitialised value: " + p.why)
	case *DataPtr:
		if p.S != nil && len(p.S.E) > 0 {
			return &p.S.E[0]
		}
	}
	m.unsupported(fmt.Sprintf("pointer of kind %T", v.O))
	return nil
}

// selectElem reads E[idx] for a symbolic in-range idx over scalar elements.
func (m *Machine) selectElem(E []Value, idx *Term, t types.Type) Value {
	i := ti(t)
	if idx.op == OpTab {
		allConc := true
		d := m.domOf(idx.v).dom
		for k := 0; k < 256 && allConc; k++ {
			if d.has(k) {
				x := idx.val(k)
				if x >= uint64(len(E)) || E[x].O != nil {
					allConc = false
				}
			}
		}
		if allConc && (i.k == kInt || i.k == kUint || i.k == kBool) {
			var tab [256]uint64
			for k := 0; k < 256; k++ {
				if idx.v.init.has(k) {
					if x := idx.val(k); x < uint64(len(E)) && E[x].O == nil {
						tab[k] = E[x].N & mask(i.w)
					}
				}
			}
			return m.fromTermB(m.tt.mkTab(idx.v, i.w, &tab), i)
		}
	}
	if i.k != kInt && i.k != kUint && i.k != kBool {
		return E[m.concretize(Value{O: idx}, tinfo{kInt, 64})]
	}
	lo, hi := idx.lo, idx.hi
	if hi >= uint64(len(E)) {
		hi = uint64(len(E)) - 1
	}
	if hi-lo > 64 {
		return E[m.concretize(Value{O: idx}, tinfo{kInt, 64})]
	}
	out := m.term(E[hi], i)
	for k := int64(hi) - 1; k >= int64(lo); k-- {
		out = m.tt.ite(m.tt.bin(OpEq, idx, m.tt.konst(64, uint64(k))), m.term(E[k], i), out)
	}
	return m.fromTermB(out, i)
}

func (m *Machine) fromTermB(t *Term, i tinfo) Value {
	if t.op == OpConst {
		return Value{N: i.norm(t.c)}
	}
	return Value{O: t}
}

// index checks bounds and returns either a concrete index or a symbolic term.
func (m *Machine) index(v Value, i tinfo, n int) (int, *Term) {
	t, ok := v.O.(*Term)
	if !ok {
		if v.O != nil {
			m.unsupported(fmt.Sprintf("index %T", v.O))
		}
		x := int64(v.N)
		if i.k == kUint {
			if v.N >= uint64(n) {
				m.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", v.N, n))
			}
			return int(v.N), nil
		}
		if x < 0 || x >= int64(n) {
			m.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x), nil
	}
	t = m.tt.conv(t, 64, i.k == kInt)
	if t.op == OpConst {
		return m.index(Value{N: t.c}, tinfo{kInt, 64}, n)
	}
	if !m.branch(m.boolT(m.tt.bin(OpUlt, t, m.tt.konst(64, uint64(n))))) {
		m.runtimePanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return 0, t
}

func (c *compiler) instr(in ssa.Instruction) func(m *Machine, fr *Frame) {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		t := deref(in.Type())
		k := ti(t).k
		agg := k == kStruct || k == kArray
		return func(m *Machine, fr *Frame) {
			s := m.newSlot()
			if agg {
				*s = m.zero(t)
			}
			fr.regs[dst] = Value{O: s}
		}
	case *ssa.BinOp:
		return c.binop(in, dst)
	case *ssa.UnOp:
		return c.unop(in, dst)
	case *ssa.Call:
		return c.call(&in.Call, dst)
	case *ssa.ChangeInterface:
		x := c.op(in.X)
		return func(m *Machine, fr *Frame) { fr.regs[dst] = x.get(m, fr) }
	case *ssa.ChangeType:
		x := c.op(in.X)
		return func(m *Machine, fr *Frame) { fr.regs[dst] = x.get(m, fr) }
	case *ssa.Convert:
		return c.convert(in.X, in.Type(), dst)
	case *ssa.MultiConvert:
		return c.convert(in.X, in.Type(), dst)
	case *ssa.SliceToArrayPointer:
		x := c.op(in.X)
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		return func(m *Machine, fr *Frame) {
			v := x.get(m, fr)
			if v.O == nil {
				if n == 0 {
					fr.regs[dst] = Value{}
					return
				}
				m.runtimePanic("cannot convert slice to array pointer: length too short")
			}
			e := sliceOf(v)
			if len(e) < n {
				m.runtimePanic("cannot convert slice to array pointer: length too short")
			}
			s := m.newSlot()
			*s = Value{O: &Array{E: e[:n:n]}}
			fr.regs[dst] = Value{O: s}
		}
	case *ssa.Extract:
		x := c.op(in.Tuple)
		i := in.Index
		return func(m *Machine, fr *Frame) {
			v := x.get(m, fr)
			if t, ok := v.O.(Tuple); ok {
				fr.regs[dst] = t[i]
				return
			}
			if p, ok := v.O.(*poison); ok {
				fr.regs[dst] = Value{O: p}
				return
			}
			m.unsupported(fmt.Sprintf("extract from %T", v.O))
		}
	case *ssa.Field:
		x := c.op(in.X)
		i := in.Field
		st := in.X.Type()
		return func(m *Machine, fr *Frame) {
			v := x.get(m, fr)
			if s, ok := v.O.(*Struct); ok {
				fr.regs[dst] = s.F[i]
				return
			}
			fr.regs[dst] = m.zero(st).O.(*Struct).F[i]
		}
	case *ssa.FieldAddr:
		x := c.op(in.X)
		i := in.Field
		st := deref(in.X.Type())
		return func(m *Machine, fr *Frame) {
			v := x.get(m, fr)
			p, ok := v.O.(*Value)
			if !ok {
				p = m.ptr(v)
			}
			s, ok := p.O.(*Struct)
			if !ok {
				if p.O != nil {
					if ps, ok := p.O.(*poison); ok {
						m.unsupported("use of uninitialised value: " + ps.why)
					}
					m.unsupported(fmt.Sprintf("field of %T", p.O))
				}
				z := m.zero(st)
				m.set(p, z)
				s = z.O.(*Struct)
			}
			fr.regs[dst] = Value{O: &s.F[i]}
		}
	case *ssa.Index:
		x := c.op(in.X)
		idx := c.op(in.Index)
		ii := ti(in.Index.Type())
		et := in.Type()
		if ti(in.X.Type()).k == kString {
			return func(m *Machine, fr *Frame) {
				s := x.get(m, fr)
				k, t := m.index(idx.get(m, fr), ii, strLen(s))
				if t != nil {
					fr.regs[dst] = m.selectElem(strBytes(s), t, et)
					return
				}
				fr.regs[dst] = strIndex(s, k)
			}
		}
		at := in.X.Type()
		return func(m *Machine, fr *Frame) {
			a := m.arrayOf(x.get(m, fr), at)
			k, t := m.index(idx.get(m, fr), ii, len(a.E))
			if t != nil {
				fr.regs[dst] = m.selectElem(a.E, t, et)
				return
			}
			fr.regs[dst] = a.E[k]
		}
	case *ssa.IndexAddr:
		x := c.op(in.X)
		idx := c.op(in.Index)
		ii := ti(in.Index.Type())
		et := deref(in.Type())
		ek := ti(et).k
		scalar := ek == kInt || ek == kUint || ek == kBool
		agg := ek == kStruct || ek == kArray
		isSlice := ti(in.X.Type()).k == kSlice
		var at types.Type
		if !isSlice {
			at = deref(in.X.Type())
		}
		return func(m *Machine, fr *Frame) {
			v := x.get(m, fr)
			var E []Value
			if isSlice {
				switch s := v.O.(type) {
				case *Slice:
					E = s.E
				case nil:
				default:
					if ps, ok := s.(*poison); ok {
						m.unsupported("use of uninitialised value: " + ps.why)
					}
					m.unsupported(fmt.Sprintf("index of %T", v.O))
				}
			} else {
				p := m.ptr(v)
				a, ok := p.O.(*Array)
				if !ok {
					z := m.zero(at)
					m.set(p, z)
					a = z.O.(*Array)
				}
				E = a.E
			}
			k, t := m.index(idx.get(m, fr), ii, len(E))
			if t != nil {
				if scalar {
					fr.regs[dst] = Value{O: &SymPtr{E: E, Idx: t}}
					return
				}
				k = int(m.concretize(Value{O: t}, tinfo{kInt, 64}))
			}
			p := &E[k]
			if agg && p.O == nil {
				m.set(p, m.zero(et))
			}
			fr.regs[dst] = Value{O: p}
		}
	case *ssa.Lookup:
		x := c.op(in.X)
		idx := c.op(in.Index)
		if ti(in.X.Type()).k == kString {
			ii := ti(in.Index.Type())
			et := in.Type()
			return func(m *Machine, fr *Frame) {
				s := x.get(m, fr)
				k, t := m.index(idx.get(m, fr), ii, strLen(s))
				if t != nil {
					fr.regs[dst] = m.selectElem(strBytes(s), t, et)
					return
				}
				fr.regs[dst] = strIndex(s, k)
			}
		}
		commaOk := in.CommaOk
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		return func(m *Machine, fr *Frame) {
			v := x.get(m, fr)
			var e *mapEntry
			if mp, ok := v.O.(*Map); ok {
				e = m.mapFind(mp, idx.get(m, fr))
			} else if v.O != nil {
				m.unsupported(fmt.Sprintf("map lookup in %T", v.O))
			}
			var r Value
			if e != nil {
				r = m.copyVal(e.v)
			} else {
				r = m.zero(vt)
			}
			if commaOk {
				fr.regs[dst] = tupleV(r, boolV(e != nil))
			} else {
				fr.regs[dst] = r
			}
		}
	case *ssa.MakeClosure:
		fnc := c.p.fn(in.Fn.(*ssa.Function))
		bs := c.ops(in.Bindings)
		return func(m *Machine, fr *Frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(m, fr)
			}
			fr.regs[dst] = Value{O: &Closure{Fn: fnc, Env: env}}
		}
	case *ssa.MakeInterface:
		x := c.op(in.X)
		t := in.X.Type()
		return func(m *Machine, fr *Frame) {
			v := x.get(m, fr)
			if _, bad := v.O.(*poison); bad {
				fr.regs[dst] = v
				return
			}
			fr.regs[dst] = Value{O: &Iface{T: t, V: v}}
		}
	case *ssa.MakeMap:
		kt := in.Type().Underlying().(*types.Map).Key()
		return func(m *Machine, fr *Frame) { fr.regs[dst] = Value{O: m.newMap(kt)} }
	case *ssa.MakeSlice:
		ln, cp := c.op(in.Len), c.op(in.Cap)
		li, ci := ti(in.Len.Type()), ti(in.Cap.Type())
		return func(m *Machine, fr *Frame) {
			n := int64(m.concretize(ln.get(m, fr), li))
			k := int64(m.concretize(cp.get(m, fr), ci))
			if n < 0 || n > 1<<26 {
				m.runtimePanic("makeslice: len out of range")
			}
			if k < n || k > 1<<26 {
				m.runtimePanic("makeslice: cap out of range")
			}
			s := m.slots(int(k))
			fr.regs[dst] = Value{O: &Slice{E: s[:n]}}
		}
	case *ssa.MapUpdate:
		mp, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		return func(m *Machine, fr *Frame) {
			x := mp.get(m, fr)
			mm, ok := x.O.(*Map)
			if !ok {
				if x.O == nil {
					panic(&ipanic{v: Value{O: &Iface{T: m.prog.runtimeErr, V: strV("assignment to entry in nil map")}}, where: m.where()})
				}
				m.unsupported(fmt.Sprintf("map update on %T", x.O))
			}
			m.mapSet(mm, k.get(m, fr), v.get(m, fr))
		}
	case *ssa.Range:
		x := c.op(in.X)
		inRepo := c.fn.inRepo
		if ti(in.X.Type()).k == kString {
			return func(m *Machine, fr *Frame) { fr.regs[dst] = Value{O: &iterState{str: x.get(m, fr)}} }
		}
		return func(m *Machine, fr *Frame) {
			it := &iterState{}
			if mp, ok := x.get(m, fr).O.(*Map); ok {
				it.m = mp
				it.keys = append([]*mapEntry(nil), mp.ents...)
				it.perm = m.mapOrder && inRepo && len(it.keys) > 1
				if it.perm && len(it.keys) > maxPerm {
					// large maps: three representative orders
					it.perm = false
					k := m.chooseN(fmt.Sprintf("order#%d", m.orderCnt), 3)
					m.orderCnt++
					m.usedOrder = true
					n := len(it.keys)
					switch k {
					case 1:
						for i := 0; i < n/2; i++ {
							it.keys[i], it.keys[n-1-i] = it.keys[n-1-i], it.keys[i]
						}
					case 2:
						it.keys = append(append([]*mapEntry(nil), it.keys[n/2:]...), it.keys[:n/2]...)
					}
				}
			}
			fr.regs[dst] = Value{O: it}
		}
	case *ssa.Next:
		x := c.op(in.Iter)
		if in.IsString {
			return func(m *Machine, fr *Frame) {
				it := x.get(m, fr).O.(*iterState)
				n := strLen(it.str)
				if it.pos >= n {
					fr.regs[dst] = tupleV(boolV(false), Value{}, Value{})
					return
				}
				r, sz := m.decodeRune(strSliceFrom(it.str, it.pos))
				fr.regs[dst] = tupleV(boolV(true), Value{N: uint64(it.pos)}, r)
				it.pos += sz
			}
		}
		return func(m *Machine, fr *Frame) {
			it := x.get(m, fr).O.(*iterState)
			for it.i < len(it.keys) {
				if it.perm && len(it.keys)-it.i > 1 {
					k := it.i + m.chooseN(fmt.Sprintf("order#%d", m.orderCnt), len(it.keys)-it.i)
					m.orderCnt++
					m.usedOrder = true
					it.keys[it.i], it.keys[k] = it.keys[k], it.keys[it.i]
				}
				e := it.keys[it.i]
				it.i++
				if e.dead {
					continue
				}
				fr.regs[dst] = tupleV(boolV(true), m.copyVal(e.k), m.copyVal(e.v))
				return
			}
			fr.regs[dst] = tupleV(boolV(false), Value{}, Value{})
		}
	case *ssa.Slice:
		return c.slice(in, dst)
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		vk := ti(in.Val.Type()).k
		agg := vk == kStruct || vk == kArray
		return func(m *Machine, fr *Frame) {
			av := a.get(m, fr)
			p, ok := av.O.(*Value)
			if !ok {
				p = m.ptr(av)
			}
			if agg {
				m.store(p, v.get(m, fr))
			} else {
				m.set(p, v.get(m, fr))
			}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in, dst)
	case *ssa.Defer:
		return c.deferInstr(in)
	case *ssa.RunDefers:
		return func(m *Machine, fr *Frame) {
			m.runDefers(fr)
			if fr.panicking != nil {
				p := fr.panicking
				panic(p)
			}
		}
	case *ssa.Go:
		return c.goInstr(in)
	case *ssa.MakeChan:
		sz := c.op(in.Size)
		return func(m *Machine, fr *Frame) {
			fr.regs[dst] = Value{O: &Chan{cap: int(sz.get(m, fr).N)}}
		}
	case *ssa.Send:
		ch, x := c.op(in.Chan), c.op(in.X)
		return func(m *Machine, fr *Frame) {
			c, _ := ch.get(m, fr).O.(*Chan)
			m.chanSend(c, m.copyVal(x.get(m, fr)))
		}
	case *ssa.Select:
		return c.selectInstr(in, dst)
	}
	s := fmt.Sprintf("instruction %T", in)
	return func(m *Machine, fr *Frame) { m.unsupported(s) }
}

type Chan struct {
	buf     []Value
	cap     int
	closed  bool
	sendq   []*chanSend
	waiting int // goroutines blocked in a receive
}

func strSliceFrom(v Value, lo int) Value { return strSlice(v, lo, strLen(v)) }

// decodeRune decodes the first rune of a non-empty string value.
func (m *Machine) decodeRune(s Value) (Value, int) {
	if c, ok := concStr(s); ok {
		r, n := utf8.DecodeRuneInString(c)
		return intV(int64(r)), n
	}
	b := strIndex(s, 0)
	if b.O == nil && b.N < 0x80 {
		return b, 1
	}
	if t, ok := b.O.(*Term); ok {
		if m.branch(m.boolT(m.tt.bin(OpUlt, t, m.tt.konst(8, 0x80)))) {
			return m.fromTerm(m.tt.conv(t, 32, false), tinfo{kInt, 32}), 1
		}
	}
	r := m.call(m.prog.fnByName("unicode/utf8.DecodeRuneInString"), []Value{s}, nil)
	t := r.O.(Tuple)
	return t[0], int(m.concretize(t[1], tinfo{kInt, 64}))
}

func (m *Machine) encodeRune(r Value) []Value {
	if r.O == nil {
		x := rune(int32(r.N))
		return strBytes(strV2(string(x)))
	}
	t := r.O.(*Term)
	if m.branch(m.boolT(m.tt.bin(OpUlt, t, m.tt.konst(t.w, 0x80)))) {
		return []Value{m.fromTerm(m.tt.conv(t, 8, false), tinfo{kUint, 8})}
	}
	x := m.call(m.prog.fnByName("unicode/utf8.AppendRune"), []Value{{}, r}, nil)
	return sliceOf(x)
}

func (c *compiler) slice(in *ssa.Slice, dst int) func(m *Machine, fr *Frame) {
	x := c.op(in.X)
	var lo, hi, mx *opnd
	var loT, hiT, mxT tinfo
	mk := func(v ssa.Value) (*opnd, tinfo) {
		if v == nil {
			return nil, tinfo{}
		}
		o := c.op(v)
		return &o, ti(v.Type())
	}
	lo, loT = mk(in.Low)
	hi, hiT = mk(in.High)
	mx, mxT = mk(in.Max)
	kind := ti(in.X.Type()).k
	var at types.Type
	if kind == kPtr {
		at = deref(in.X.Type())
	}
	return func(m *Machine, fr *Frame) {
		v := x.get(m, fr)
		get := func(o *opnd, i tinfo, def int) int {
			if o == nil {
				return def
			}
			return int(int64(m.concretize(o.get(m, fr), i)))
		}
		if kind == kString {
			n := strLen(v)
			l, h := get(lo, loT, 0), get(hi, hiT, n)
			if h < 0 || h > n {
				m.runtimePanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				m.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			fr.regs[dst] = strSlice(v, l, h)
			return
		}
		var E []Value
		if kind == kPtr {
			p := m.ptr(v)
			a, ok := p.O.(*Array)
			if !ok {
				z := m.zero(at)
				m.set(p, z)
				a = z.O.(*Array)
			}
			E = a.E
		} else {
			if ps, ok := v.O.(*poison); ok {
				m.unsupported("use of uninitialised value: " + ps.why)
			}
			E = sliceOf(v)
		}
		l := get(lo, loT, 0)
		h := get(hi, hiT, len(E))
		mxv := get(mx, mxT, cap(E))
		if mxv < 0 || mxv > cap(E) {
			m.runtimePanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mxv, cap(E)))
		}
		if h < 0 || h > mxv {
			m.runtimePanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, mxv))
		}
		if l < 0 || l > h {
			m.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if v.O == nil {
			fr.regs[dst] = Value{}
			return
		}
		fr.regs[dst] = Value{O: &Slice{E: E[l:h:mxv]}}
	}
}

func (m *Machine) implements(t types.Type, it *types.Interface, itT types.Type) bool {
	k := implKey{canonType(t), canonType(itT)}
	if r, ok := m.prog.implCache.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, it)
	m.prog.implCache.Store(k, r)
	return r
}

type implKey struct{ t, i types.Type }

func (c *compiler) typeAssert(in *ssa.TypeAssert, dst int) func(m *Machine, fr *Frame) {
	x := c.op(in.X)
	at := in.AssertedType
	it, isIface := at.Underlying().(*types.Interface)
	commaOk := in.CommaOk
	return func(m *Machine, fr *Frame) {
		v := x.get(m, fr)
		ok := false
		var r Value
		if v.O != nil {
			i, isI := v.O.(*Iface)
			if !isI {
				if ps, ok := v.O.(*poison); ok {
					m.unsupported("use of uninitialised value: " + ps.why)
				}
				m.unsupported(fmt.Sprintf("type assertion on %T", v.O))
			}
			if isIface {
				ok = m.implements(i.T, it, at)
				if ok {
					r = v
				}
			} else {
				ok = identical(i.T, at)
				if ok {
					r = i.V
				}
			}
		}
		if commaOk {
			if !ok {
				r = m.zero(at)
			}
			fr.regs[dst] = tupleV(r, boolV(ok))
			return
		}
		if !ok {
			dyn := "nil"
			if v.O != nil {
				dyn = v.O.(*Iface).T.String()
			}
			m.runtimePanic("interface conversion: interface is " + dyn + ", not " + at.String())
		}
		fr.regs[dst] = r
	}
}

// ---- calls ----

func (c *compiler) prepCall(call *ssa.CallCommon) func(m *Machine, fr *Frame) (*Closure, func(m *Machine, args []Value) Value, []Value) {
	args := c.ops(call.Args)
	if call.IsInvoke() {
		x := c.op(call.Value)
		meth := call.Method
		p := c.p
		return func(m *Machine, fr *Frame) (*Closure, func(*Machine, []Value) Value, []Value) {
			v := x.get(m, fr)
			i, ok := v.O.(*Iface)
			if !ok {
				if v.O == nil {
					m.nilDeref()
				}
				if ps, ok := v.O.(*poison); ok {
					m.unsupported("use of uninitialised value: " + ps.why)
				}
				m.unsupported(fmt.Sprintf("invoke on %T", v.O))
			}
			f := p.method(i.T, meth)
			if f == nil {
				m.unsupported("no method " + meth.Name() + " on " + i.T.String())
			}
			as := make([]Value, 1+len(args))
			as[0] = i.V
			for k := range args {
				as[k+1] = args[k].get(m, fr)
			}
			return &Closure{Fn: f}, nil, as
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		bf := c.builtin(b, call)
		return func(m *Machine, fr *Frame) (*Closure, func(*Machine, []Value) Value, []Value) {
			as := make([]Value, len(args))
			for k := range args {
				as[k] = args[k].get(m, fr)
			}
			return nil, bf, as
		}
	}
	fo := c.op(call.Value)
	return func(m *Machine, fr *Frame) (*Closure, func(*Machine, []Value) Value, []Value) {
		v := fo.get(m, fr)
		cl, ok := v.O.(*Closure)
		if !ok {
			if v.O == nil {
				m.nilDeref()
			}
			if ps, ok := v.O.(*poison); ok {
				m.unsupported("use of uninitialised value: " + ps.why)
			}
			m.unsupported(fmt.Sprintf("call of %T", v.O))
		}
		as := make([]Value, len(args))
		for k := range args {
			as[k] = args[k].get(m, fr)
		}
		return cl, nil, as
	}
}

func (c *compiler) call(call *ssa.CallCommon, dst int) func(m *Machine, fr *Frame) {
	if f, ok := call.Value.(*ssa.Function); ok && !call.IsInvoke() {
		fn := c.p.fn(f)
		args := c.ops(call.Args)
		return func(m *Machine, fr *Frame) {
			var buf [6]Value
			var as []Value
			if len(args) <= len(buf) && fn.native == nil {
				as = buf[:len(args)]
			} else {
				as = make([]Value, len(args))
			}
			for k := range args {
				as[k] = args[k].get(m, fr)
			}
			fr.regs[dst] = m.call(fn, as, nil)
		}
	}
	prep := c.prepCall(call)
	return func(m *Machine, fr *Frame) {
		cl, nat, as := prep(m, fr)
		if nat != nil {
			fr.regs[dst] = nat(m, as)
			return
		}
		fr.regs[dst] = m.callClosure(cl, as)
	}
}

func (c *compiler) deferInstr(in *ssa.Defer) func(m *Machine, fr *Frame) {
	prep := c.prepCall(&in.Call)
	if in.DeferStack != nil {
		return func(m *Machine, fr *Frame) { m.unsupported("defer in range-over-func") }
	}
	return func(m *Machine, fr *Frame) {
		cl, nat, as := prep(m, fr)
		fr.defers = append(fr.defers, deferred{cl, nat, as})
	}
}

func (c *compiler) builtin(b *ssa.Builtin, call *ssa.CallCommon) func(m *Machine, args []Value) Value {
	var t0 types.Type
	if len(call.Args) > 0 {
		t0 = call.Args[0].Type()
	}
	switch b.Name() {
	case "append":
		ek := ti(t0.Underlying().(*types.Slice).Elem()).k
		agg := ek == kStruct || ek == kArray
		isStr := len(call.Args) > 1 && ti(call.Args[1].Type()).k == kString
		return func(m *Machine, args []Value) Value {
			if len(args) == 1 {
				return args[0]
			}
			var src []Value
			if isStr {
				src = strBytes(args[1])
			} else {
				src = sliceOf(args[1])
			}
			return m.appendVals(args[0], src, agg)
		}
	case "copy":
		isStr := ti(call.Args[1].Type()).k == kString
		return func(m *Machine, args []Value) Value {
			d := sliceOf(args[0])
			var src []Value
			if isStr {
				src = strBytes(args[1])
			} else {
				src = sliceOf(args[1])
			}
			n := min(len(d), len(src))
			if n > 0 && len(src) > 0 {
				tmp := make([]Value, n)
				for i := 0; i < n; i++ {
					tmp[i] = m.copyVal(src[i])
				}
				for i := 0; i < n; i++ {
					m.store(&d[i], tmp[i])
				}
			}
			return intV(int64(n))
		}
	case "len", "cap":
		isCap := b.Name() == "cap"
		switch ti(t0).k {
		case kString:
			return func(m *Machine, args []Value) Value { return intV(int64(strLen(args[0]))) }
		case kSlice:
			return func(m *Machine, args []Value) Value {
				if ps, ok := args[0].O.(*poison); ok {
					m.unsupported("use of uninitialised value: " + ps.why)
				}
				if isCap {
					return intV(int64(cap(sliceOf(args[0]))))
				}
				return intV(int64(len(sliceOf(args[0]))))
			}
		case kMap:
			return func(m *Machine, args []Value) Value {
				if mp, ok := args[0].O.(*Map); ok {
					return intV(int64(mp.n))
				}
				return Value{}
			}
		case kArray:
			n := t0.Underlying().(*types.Array).Len()
			return func(m *Machine, args []Value) Value { return intV(n) }
		case kPtr:
			n := deref(t0).Underlying().(*types.Array).Len()
			return func(m *Machine, args []Value) Value { return intV(n) }
		case kChan:
			return func(m *Machine, args []Value) Value {
				if c, ok := args[0].O.(*Chan); ok {
					if isCap {
						return intV(int64(c.cap))
					}
					return intV(int64(len(c.buf)))
				}
				return Value{}
			}
		}
	case "delete":
		return func(m *Machine, args []Value) Value {
			if mp, ok := args[0].O.(*Map); ok {
				m.mapDelete(mp, args[1])
			}
			return Value{}
		}
	case "clear":
		if ti(t0).k == kSlice {
			et := t0.Underlying().(*types.Slice).Elem()
			return func(m *Machine, args []Value) Value {
				for i := range sliceOf(args[0]) {
					m.store(&sliceOf(args[0])[i], m.zero(et))
				}
				return Value{}
			}
		}
		return func(m *Machine, args []Value) Value {
			if mp, ok := args[0].O.(*Map); ok {
				m.willWrite(mp)
				for _, e := range mp.ents {
					e.dead = true
				}
				mp.idx, mp.ents, mp.n, mp.nsym = map[any]*mapEntry{}, nil, 0, 0
			}
			return Value{}
		}
	case "print", "println":
		return func(m *Machine, args []Value) Value { return Value{} }
	case "close":
		return func(m *Machine, args []Value) Value {
			m.chanClose(args[0])
			return Value{}
		}
	case "recover":
		return func(m *Machine, args []Value) Value {
			fr := m.curFrame
			if fr != nil && fr.isDefer && fr.caller != nil && fr.caller.panicking != nil {
				p := fr.caller.panicking
				fr.caller.panicking = nil
				return p.v
			}
			return Value{}
		}
	case "ssa:wrapnilchk":
		return func(m *Machine, args []Value) Value {
			if args[0].O == nil {
				m.nilDeref()
			}
			return args[0]
		}
	case "ssa:deferstack":
		return func(m *Machine, args []Value) Value { return Value{} }
	case "min", "max":
		i := ti(t0)
		isMin := b.Name() == "min"
		return func(m *Machine, args []Value) Value {
			r := args[0]
			for _, x := range args[1:] {
				var less bool
				switch i.k {
				case kString:
					less = m.strLess(x, r)
				case kFloat:
					if isMin {
						r = fV(math.Min(f64(r), f64(x)))
					} else {
						r = fV(math.Max(f64(r), f64(x)))
					}
					continue
				default:
					op := OpSlt
					if i.k == kUint {
						op = OpUlt
					}
					if r.O == nil && x.O == nil {
						less = evalOp(op, 0, 64, x.N, r.N) != 0
					} else {
						c := m.tt.bin(op, m.term(x, i), m.term(r, i))
						if !isMin {
							c = m.tt.bin(op, m.term(r, i), m.term(x, i))
						}
						r = m.fromTerm(m.tt.ite(c, m.term(x, i), m.term(r, i)), i)
						continue
					}
				}
				if isMin == less && !(m.isEqConc(x, r)) {
					r = x
				}
			}
			return r
		}
	case "real", "imag":
		im := b.Name() == "imag"
		return func(m *Machine, args []Value) Value {
			if im {
				return fV(imag(cplx(args[0])))
			}
			return fV(real(cplx(args[0])))
		}
	case "complex":
		return func(m *Machine, args []Value) Value { return Value{O: complex(f64(args[0]), f64(args[1]))} }
	case "String": // unsafe.String(ptr, len)
		return func(m *Machine, args []Value) Value {
			n := int(m.concretize(args[1], tinfo{kInt, 64}))
			if n == 0 {
				return Value{}
			}
			switch p := args[0].O.(type) {
			case *DataPtr:
				if p.S != nil {
					return mkStr(append([]Value(nil), p.S.E[:n]...))
				}
				return strSlice(p.Str, 0, n)
			}
			m.unsupported(fmt.Sprintf("unsafe.String on %T", args[0].O))
			return Value{}
		}
	case "StringData":
		return func(m *Machine, args []Value) Value { return Value{O: &DataPtr{Str: args[0]}} }
	case "SliceData":
		return func(m *Machine, args []Value) Value {
			if args[0].O == nil {
				return Value{}
			}
			return Value{O: &DataPtr{S: args[0].O.(*Slice)}}
		}
	case "Slice":
		return func(m *Machine, args []Value) Value {
			n := int(m.concretize(args[1], tinfo{kInt, 64}))
			switch p := args[0].O.(type) {
			case nil:
				return Value{}
			case *DataPtr:
				if p.S != nil {
					return Value{O: &Slice{E: p.S.E[:n:n]}}
				}
				return Value{O: &Slice{E: strBytes(strSlice(p.Str, 0, n))}}
			}
			m.unsupported(fmt.Sprintf("unsafe.Slice on %T", args[0].O))
			return Value{}
		}
	}
	name := b.Name()
	return func(m *Machine, args []Value) Value { m.unsupported("builtin " + name); return Value{} }
}

func (m *Machine) isEqConc(a, b Value) bool { return a.O == nil && b.O == nil && a.N == b.N }

func (m *Machine) appendVals(s Value, src []Value, agg bool) Value {
	if len(src) == 0 {
		return s
	}
	if ps, ok := s.O.(*poison); ok {
		m.unsupported("use of uninitialised value: " + ps.why)
	}
	E := sliceOf(s)
	n := len(E)
	if n+len(src) <= cap(E) {
		out := E[:n+len(src)]
		if agg || len(m.arenas) > 0 {
			tmp := src
			if agg {
				tmp = make([]Value, len(src))
				for i := range src {
					tmp[i] = m.copyVal(src[i])
				}
			}
			for i := range tmp {
				if agg {
					m.store(&out[n+i], tmp[i])
				} else {
					m.set(&out[n+i], tmp[i])
				}
			}
		}
		return Value{O: &Slice{E: out}}
	}
	nc := 2 * n
	if nc < n+len(src) {
		nc = n + len(src)
	}
	if nc < 4 {
		nc = 4
	}
	out := m.slots(nc)
	copy(out, E)
	if agg {
		// the old backing keeps its own structs
		for i := 0; i < n; i++ {
			out[i] = m.copyVal(E[i])
		}
		for i := range src {
			out[n+i] = m.copyVal(src[i])
		}
	} else {
		copy(out[n:], src)
	}
	return Value{O: &Slice{E: out[: n+len(src) : nc]}}
}

// ---- unary / binary / conversion ----

func (c *compiler) unop(in *ssa.UnOp, dst int) func(m *Machine, fr *Frame) {
	x := c.op(in.X)
	i := ti(in.Type())
	switch in.Op {
	case token.MUL:
		t := in.Type()
		agg := i.k == kStruct || i.k == kArray
		return func(m *Machine, fr *Frame) {
			v := x.get(m, fr)
			if p, ok := v.O.(*Value); ok && !agg {
				fr.regs[dst] = *p
				return
			}
			fr.regs[dst] = m.load(v, t)
		}
	case token.NOT:
		return func(m *Machine, fr *Frame) {
			v := x.get(m, fr)
			if v.O == nil {
				fr.regs[dst] = Value{N: 1 - v.N}
				return
			}
			fr.regs[dst] = m.boolT(m.tt.not(m.term(v, i)))
		}
	case token.SUB:
		switch i.k {
		case kFloat:
			return func(m *Machine, fr *Frame) { fr.regs[dst] = fV(-f64(x.get(m, fr))) }
		case kComplex:
			return func(m *Machine, fr *Frame) { fr.regs[dst] = Value{O: -cplx(x.get(m, fr))} }
		}
		return func(m *Machine, fr *Frame) {
			v := x.get(m, fr)
			if v.O == nil {
				fr.regs[dst] = Value{N: i.norm(-v.N)}
				return
			}
			fr.regs[dst] = m.fromTerm(m.tt.neg(m.term(v, i)), i)
		}
	case token.XOR:
		return func(m *Machine, fr *Frame) {
			v := x.get(m, fr)
			if v.O == nil {
				fr.regs[dst] = Value{N: i.norm(^v.N)}
				return
			}
			fr.regs[dst] = m.fromTerm(m.tt.bvnot(m.term(v, i)), i)
		}
	case token.ARROW:
		commaOk := in.CommaOk
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		return func(m *Machine, fr *Frame) {
			ch, _ := x.get(m, fr).O.(*Chan)
			v, got := m.chanRecv(ch, et)
			if commaOk {
				fr.regs[dst] = tupleV(v, boolV(got))
			} else {
				fr.regs[dst] = v
			}
		}
	}
	panic("unop " + in.Op.String())
}

func (c *compiler) binop(in *ssa.BinOp, dst int) func(m *Machine, fr *Frame) {
	x, y := c.op(in.X), c.op(in.Y)
	i := ti(in.X.Type())
	yi := ti(in.Y.Type())
	t := in.X.Type()
	op := in.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		// comparisons against nil of interface vs concrete are at X's type
		return func(m *Machine, fr *Frame) {
			a, b := x.get(m, fr), y.get(m, fr)
			var r Value
			if a.O == nil && b.O == nil && i.k <= kUint {
				r = boolV(a.N == b.N)
			} else {
				if ps, ok := a.O.(*poison); ok {
					m.unsupported("use of uninitialised value: " + ps.why)
				}
				if ps, ok := b.O.(*poison); ok {
					m.unsupported("use of uninitialised value: " + ps.why)
				}
				r = m.equal(a, b, t)
			}
			if neg {
				if r.O == nil {
					r.N = 1 - r.N
				} else {
					r = m.boolT(m.tt.not(r.O.(*Term)))
				}
			}
			fr.regs[dst] = r
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return func(m *Machine, fr *Frame) {
			fr.regs[dst] = m.compare(op, x.get(m, fr), y.get(m, fr), i)
		}
	}
	switch i.k {
	case kString:
		return func(m *Machine, fr *Frame) { fr.regs[dst] = strConcat(x.get(m, fr), y.get(m, fr)) }
	case kFloat:
		return func(m *Machine, fr *Frame) {
			a, b := x.get(m, fr), y.get(m, fr)
			if a.O != nil || b.O != nil {
				m.unsupported("symbolic float arithmetic")
			}
			var r float64
			switch op {
			case token.ADD:
				r = f64(a) + f64(b)
			case token.SUB:
				r = f64(a) - f64(b)
			case token.MUL:
				r = f64(a) * f64(b)
			case token.QUO:
				r = f64(a) / f64(b)
			}
			if i.w == 32 {
				r = float64(float32(r))
			}
			fr.regs[dst] = fV(r)
		}
	case kComplex:
		return func(m *Machine, fr *Frame) {
			a, b := cplx(x.get(m, fr)), cplx(y.get(m, fr))
			var r complex128
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			}
			fr.regs[dst] = Value{O: r}
		}
	case kBool:
		return func(m *Machine, fr *Frame) {
			a, b := m.term(x.get(m, fr), i), m.term(y.get(m, fr), i)
			switch op {
			case token.AND:
				fr.regs[dst] = m.boolT(m.tt.and(a, b))
			case token.OR:
				fr.regs[dst] = m.boolT(m.tt.or(a, b))
			default:
				m.unsupported("bool op")
			}
		}
	}
	switch op {
	case token.SHL, token.SHR:
		return func(m *Machine, fr *Frame) { fr.regs[dst] = m.shift(op, x.get(m, fr), y.get(m, fr), i, yi) }
	case token.ADD:
		return func(m *Machine, fr *Frame) {
			a, b := x.get(m, fr), y.get(m, fr)
			if a.O == nil && b.O == nil {
				fr.regs[dst] = Value{N: i.norm(a.N + b.N)}
				return
			}
			fr.regs[dst] = m.arith(op, a, b, i)
		}
	case token.SUB:
		return func(m *Machine, fr *Frame) {
			a, b := x.get(m, fr), y.get(m, fr)
			if a.O == nil && b.O == nil {
				fr.regs[dst] = Value{N: i.norm(a.N - b.N)}
				return
			}
			fr.regs[dst] = m.arith(op, a, b, i)
		}
	}
	return func(m *Machine, fr *Frame) { fr.regs[dst] = m.arith(op, x.get(m, fr), y.get(m, fr), i) }
}

func (m *Machine) arith(op token.Token, a, b Value, i tinfo) Value {
	if a.O == nil && b.O == nil {
		switch op {
		case token.ADD:
			return Value{N: i.norm(a.N + b.N)}
		case token.SUB:
			return Value{N: i.norm(a.N - b.N)}
		case token.MUL:
			return Value{N: i.norm(a.N * b.N)}
		case token.AND:
			return Value{N: a.N & b.N}
		case token.OR:
			return Value{N: a.N | b.N}
		case token.XOR:
			return Value{N: i.norm(a.N ^ b.N)}
		case token.AND_NOT:
			return Value{N: i.norm(a.N &^ b.N)}
		case token.QUO, token.REM:
			if b.N == 0 {
				m.runtimePanic("integer divide by zero")
			}
			if i.k == kInt {
				if int64(b.N) == -1 {
					if op == token.QUO {
						return Value{N: i.norm(-a.N)}
					}
					return Value{}
				}
				if op == token.QUO {
					return Value{N: i.norm(uint64(int64(a.N) / int64(b.N)))}
				}
				return Value{N: i.norm(uint64(int64(a.N) % int64(b.N)))}
			}
			if op == token.QUO {
				return Value{N: a.N / b.N}
			}
			return Value{N: a.N % b.N}
		}
	}
	if i.k != kInt && i.k != kUint {
		m.unsupported("arith " + op.String() + fmt.Sprintf(" on %T %T", a.O, b.O))
	}
	x, y := m.term(a, i), m.term(b, i)
	var r *Term
	switch op {
	case token.ADD:
		r = m.tt.bin(OpAdd, x, y)
	case token.SUB:
		r = m.tt.bin(OpSub, x, y)
	case token.MUL:
		r = m.tt.bin(OpMul, x, y)
	case token.AND:
		r = m.tt.bin(OpAnd, x, y)
	case token.OR:
		r = m.tt.bin(OpOr, x, y)
	case token.XOR:
		r = m.tt.bin(OpXor, x, y)
	case token.AND_NOT:
		r = m.tt.bin(OpAnd, x, m.tt.bvnot(y))
	case token.QUO, token.REM:
		if m.branch(m.boolT(m.tt.bin(OpEq, y, m.tt.konst(i.w, 0)))) {
			m.runtimePanic("integer divide by zero")
		}
		o := OpUDiv
		switch {
		case i.k == kInt && op == token.QUO:
			o = OpSDiv
		case i.k == kInt:
			o = OpSRem
		case op == token.REM:
			o = OpURem
		}
		r = m.tt.bin(o, x, y)
	default:
		m.unsupported("binop " + op.String())
	}
	return m.fromTerm(r, i)
}

func (m *Machine) shift(op token.Token, a, b Value, i, yi tinfo) Value {
	if yi.k == kInt {
		if b.O == nil {
			if int64(b.N) < 0 {
				m.runtimePanic("negative shift amount")
			}
		} else if m.branch(m.boolT(m.tt.bin(OpSlt, m.term(b, yi), m.tt.konst(yi.w, 0)))) {
			m.runtimePanic("negative shift amount")
		}
	}
	if a.O == nil && b.O == nil {
		if op == token.SHL {
			if b.N >= 64 {
				return Value{}
			}
			return Value{N: i.norm(a.N << b.N)}
		}
		if i.k == kInt {
			s := b.N
			if s > 63 {
				s = 63
			}
			return Value{N: uint64(int64(a.N) >> s)}
		}
		if b.N >= 64 {
			return Value{}
		}
		return Value{N: a.N >> b.N}
	}
	x := m.term(a, i)
	y := m.term(b, yi)
	var sh *Term
	if yi.w <= i.w {
		sh = m.tt.conv(y, i.w, false)
	} else {
		lim := m.tt.konst(yi.w, uint64(i.w))
		sh = m.tt.ite(m.tt.bin(OpUlt, y, lim), m.tt.conv(y, i.w, false), m.tt.konst(i.w, uint64(i.w)))
	}
	o := OpShl
	if op == token.SHR {
		o = OpLShr
		if i.k == kInt {
			o = OpAShr
		}
	}
	return m.fromTerm(m.tt.bin(o, x, sh), i)
}

func (m *Machine) compare(op token.Token, a, b Value, i tinfo) Value {
	switch i.k {
	case kInt, kUint:
		if a.O == nil && b.O == nil {
			var lt, gt bool
			if i.k == kInt {
				lt, gt = int64(a.N) < int64(b.N), int64(a.N) > int64(b.N)
			} else {
				lt, gt = a.N < b.N, a.N > b.N
			}
			switch op {
			case token.LSS:
				return boolV(lt)
			case token.LEQ:
				return boolV(!gt)
			case token.GTR:
				return boolV(gt)
			}
			return boolV(!lt)
		}
		x, y := m.term(a, i), m.term(b, i)
		lt, le := OpUlt, OpUle
		if i.k == kInt {
			lt, le = OpSlt, OpSle
		}
		switch op {
		case token.LSS:
			return m.boolT(m.tt.bin(lt, x, y))
		case token.LEQ:
			return m.boolT(m.tt.bin(le, x, y))
		case token.GTR:
			return m.boolT(m.tt.bin(lt, y, x))
		}
		return m.boolT(m.tt.bin(le, y, x))
	case kFloat:
		if a.O != nil || b.O != nil {
			m.unsupported("symbolic float comparison")
		}
		x, y := f64(a), f64(b)
		switch op {
		case token.LSS:
			return boolV(x < y)
		case token.LEQ:
			return boolV(x <= y)
		case token.GTR:
			return boolV(x > y)
		}
		return boolV(x >= y)
	case kString:
		switch op {
		case token.LSS:
			return boolV(m.strLess(a, b))
		case token.LEQ:
			return boolV(!m.strLess(b, a))
		case token.GTR:
			return boolV(m.strLess(b, a))
		}
		return boolV(!m.strLess(a, b))
	}
	m.unsupported("comparison " + op.String())
	return Value{}
}

func (c *compiler) convert(xv ssa.Value, to types.Type, dst int) func(m *Machine, fr *Frame) {
	x := c.op(xv)
	from := xv.Type()
	f, t := ti(from), ti(to)
	set := func(g func(m *Machine, v Value) Value) func(m *Machine, fr *Frame) {
		return func(m *Machine, fr *Frame) { fr.regs[dst] = g(m, x.get(m, fr)) }
	}
	isInt := func(k tkind) bool { return k == kInt || k == kUint }
	switch {
	case isInt(f.k) && isInt(t.k):
		return set(func(m *Machine, v Value) Value {
			if v.O == nil {
				return Value{N: t.norm(v.N)}
			}
			if _, ok := v.O.(*Term); !ok {
				return v // uintptr holding a pointer
			}
			return m.fromTerm(m.tt.conv(m.term(v, f), t.w, f.k == kInt), t)
		})
	case isInt(f.k) && t.k == kFloat:
		return set(func(m *Machine, v Value) Value {
			n := m.concretize(v, f)
			var r float64
			if f.k == kInt {
				r = float64(int64(n))
			} else {
				r = float64(n)
			}
			if t.w == 32 {
				r = float64(float32(r))
			}
			return fV(r)
		})
	case f.k == kFloat && isInt(t.k):
		return set(func(m *Machine, v Value) Value {
			if t.k == kInt {
				return Value{N: t.norm(uint64(int64(f64(v))))}
			}
			return Value{N: t.norm(uint64(f64(v)))}
		})
	case f.k == kFloat && t.k == kFloat:
		return set(func(m *Machine, v Value) Value {
			if t.w == 32 {
				return fV(float64(float32(f64(v))))
			}
			return v
		})
	case isInt(f.k) && t.k == kString:
		return set(func(m *Machine, v Value) Value {
			if v.O == nil {
				n := int64(v.N)
				if n < 0 || n > utf8.MaxRune {
					n = utf8.RuneError
				}
				return strV2(string(rune(n)))
			}
			return mkStr(m.encodeRune(m.fromTerm(m.tt.conv(m.term(v, f), 32, f.k == kInt), tinfo{kInt, 32})))
		})
	case f.k == kString && t.k == kSlice:
		et := ti(to.Underlying().(*types.Slice).Elem())
		if et.w == 8 {
			return set(func(m *Machine, v Value) Value {
				if strLen(v) == 0 {
					return Value{O: &Slice{}}
				}
				b := strBytes(v)
				s := m.slots(len(b))
				copy(s, b)
				return Value{O: &Slice{E: s}}
			})
		}
		return set(func(m *Machine, v Value) Value {
			var out []Value
			for strLen(v) > 0 {
				r, n := m.decodeRune(v)
				out = append(out, r)
				v = strSliceFrom(v, n)
			}
			s := m.slots(len(out))
			copy(s, out)
			return Value{O: &Slice{E: s}}
		})
	case f.k == kSlice && t.k == kString:
		et := ti(from.Underlying().(*types.Slice).Elem())
		if et.w == 8 {
			return set(func(m *Machine, v Value) Value { return mkStr(append([]Value(nil), sliceOf(v)...)) })
		}
		return set(func(m *Machine, v Value) Value {
			var out []Value
			for _, r := range sliceOf(v) {
				out = append(out, m.encodeRune(r)...)
			}
			return mkStr(out)
		})
	case f.k == kSlice && t.k == kArray:
		n := int(to.Underlying().(*types.Array).Len())
		return set(func(m *Machine, v Value) Value {
			E := sliceOf(v)
			if len(E) < n {
				m.runtimePanic("cannot convert slice to array: length too short")
			}
			return m.copyVal(Value{O: &Array{E: E[:n:n]}})
		})
	case f.k == t.k:
		return set(func(m *Machine, v Value) Value { return v })
	case (f.k == kPtr || f.k == kUnsafePtr || f.k == kUint) && (t.k == kPtr || t.k == kUnsafePtr || t.k == kUint):
		return set(func(m *Machine, v Value) Value { return v })
	}
	return func(m *Machine, fr *Frame) {
		m.unsupported("conversion " + from.String() + " -> " + to.String())
	}
}
