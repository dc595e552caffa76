package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"math"
	"math/big"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]native{}
var redirects = map[string]string{}

const rtPkg = verifRoot + "/rt"
const vfsPkg = verifRoot + "/rt/vfs"

func reg(f native, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func (m *Machine) callOrig(fn *Fn, args []Value) Value {
	k := origKey{fn}
	if x, ok := m.prog.natCache.Load(k); ok {
		return m.call(x.(*Fn), args, nil)
	}
	o := &Fn{name: fn.name, ssa: fn.ssa, prog: fn.prog, inRepo: fn.inRepo, recover: -1}
	x, _ := m.prog.natCache.LoadOrStore(k, o)
	return m.call(x.(*Fn), args, nil)
}

type origKey struct{ f *Fn }

func (m *Machine) conc(v Value, what string) string {
	s, ok := concStr(v)
	if ok {
		return s
	}
	// fork over the symbolic bytes
	bs := strBytes(v)
	buf := make([]byte, len(bs))
	for i, b := range bs {
		buf[i] = byte(m.concretize(b, tinfo{kUint, 8}))
	}
	return string(buf)
}

func (m *Machine) mkErr(msg string) Value { return m.newError(strV2(msg)) }

func (m *Machine) newError(msg Value) Value {
	return m.call(m.prog.fnByName("errors.New"), []Value{msg}, nil)
}

func (m *Machine) uname(n string) string {
	m.nameCnt[n]++
	if k := m.nameCnt[n]; k > 1 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func strSet(s string) bset {
	var b bset
	if s == "" {
		return fullSet
	}
	for i := 0; i < len(s); i++ {
		b.add(int(s[i]))
	}
	return b
}

func byteEq(m *Machine, a, b Value) Value {
	if a.O == nil && b.O == nil {
		return boolV(a.N == b.N)
	}
	return m.boolT(m.tt.bin(OpEq, m.term(a, tinfo{kUint, 8}), m.term(b, tinfo{kUint, 8})))
}

func (m *Machine) indexByte(bs []Value, c Value) int {
	for i := range bs {
		if m.branch(byteEq(m, bs[i], c)) {
			return i
		}
	}
	return -1
}

func (m *Machine) matchAt(s, sub []Value, i int) Value {
	var cs []*Term
	for j := range sub {
		e := byteEq(m, s[i+j], sub[j])
		if e.O == nil {
			if e.N == 0 {
				return boolV(false)
			}
			continue
		}
		cs = append(cs, e.O.(*Term))
	}
	return m.boolT(m.tt.and(cs...))
}

func (m *Machine) indexSub(s, sub []Value) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if m.branch(m.matchAt(s, sub, i)) {
			return i
		}
	}
	return -1
}

func caseMap(upper bool) native {
	return func(m *Machine, fn *Fn, args []Value) Value {
		s := args[0]
		if c, ok := concStr(s); ok {
			if upper {
				return strV2(strings.ToUpper(c))
			}
			return strV2(strings.ToLower(c))
		}
		bs := strBytes(s)
		var cs []*Term
		for _, b := range bs {
			if b.O == nil {
				if b.N >= 0x80 {
					return m.callOrig(fn, args)
				}
				continue
			}
			t := m.term(b, tinfo{kUint, 8})
			cs = append(cs, m.tt.bin(OpUlt, t, m.tt.konst(8, 0x80)))
		}
		if !m.branch(m.boolT(m.tt.and(cs...))) {
			return m.callOrig(fn, args)
		}
		f := func(x uint64) uint64 {
			if upper && x >= 'a' && x <= 'z' {
				return x - 32
			}
			if !upper && x >= 'A' && x <= 'Z' {
				return x + 32
			}
			return x
		}
		out := make([]Value, len(bs))
		for i, b := range bs {
			if b.O == nil {
				out[i] = Value{N: f(b.N)}
				continue
			}
			t := b.O.(*Term)
			if t.op == OpTab {
				out[i] = m.fromTerm(m.tt.mapTab(t, 8, f), tinfo{kUint, 8})
				continue
			}
			lo, hi, d := uint64('A'), uint64('Z'), uint64(32)
			if upper {
				lo, hi, d = 'a', 'z', ^uint64(31)
			}
			in := m.tt.and(m.tt.bin(OpUle, m.tt.konst(8, lo), t), m.tt.bin(OpUle, t, m.tt.konst(8, hi)))
			out[i] = m.fromTerm(m.tt.ite(in, m.tt.bin(OpAdd, t, m.tt.konst(8, d)), t), tinfo{kUint, 8})
		}
		return mkStr(out)
	}
}

// nativeStr wraps a pure func(string) string for concrete arguments.
func nativeStr(f func(string) string) native {
	return func(m *Machine, fn *Fn, args []Value) Value {
		if c, ok := concStr(args[0]); ok {
			return strV2(f(c))
		}
		return m.callOrig(fn, args)
	}
}

func nativeStr2b(f func(a, b string) bool) native {
	return func(m *Machine, fn *Fn, args []Value) Value {
		a, ok := concStr(args[0])
		b, ok2 := concStr(args[1])
		if ok && ok2 {
			return boolV(f(a, b))
		}
		return m.callOrig(fn, args)
	}
}

func (m *Machine) errIs(err, target Value) bool {
	for {
		if err.O == nil || target.O == nil {
			return err.O == nil && target.O == nil
		}
		it := target.O.(*Iface)
		comparable := types.Comparable(it.T)
		if comparable && m.branch(m.equal(err, target, anyType)) {
			return true
		}
		ie := err.O.(*Iface)
		if f := m.prog.methodNamed(ie.T, "Is"); f != nil && f.ssa.Signature.Params().Len() == 1 {
			if m.branch(m.call(f, []Value{ie.V, target}, nil)) {
				return true
			}
		}
		f := m.prog.methodNamed(ie.T, "Unwrap")
		if f == nil {
			return false
		}
		r := f.ssa.Signature.Results()
		if r.Len() != 1 {
			return false
		}
		x := m.call(f, []Value{ie.V}, nil)
		if ti(r.At(0).Type()).k == kSlice {
			for _, e := range sliceOf(x) {
				if m.errIs(e, target) {
					return true
				}
			}
			return false
		}
		if x.O == nil {
			return false
		}
		err = x
	}
}

var anyType = types.NewInterfaceType(nil, nil)

func ret0(m *Machine, fn *Fn, args []Value) Value {
	if fn.ssa == nil {
		return Value{}
	}
	return m.zero(resultType(fn.ssa.Signature))
}

func exitWith(code int) native {
	return func(m *Machine, fn *Fn, args []Value) Value {
		m.doExit(intV(int64(code)))
		return Value{}
	}
}

type exitPanic struct{ code Value }

func (m *Machine) doExit(code Value) {
	m.exitCode = code
	panic(&pathEnd{"exit", ""})
}

// prefix intrinsics: whole packages replaced.
func packageIntrinsic(fn *ssa.Function) native {
	if fn.Pkg == nil && fn.Object() == nil {
		return nil
	}
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	if fn.Synthetic == "package initializer" {
		return nil
	}
	switch path {
	case "github.com/sirupsen/logrus", "log":
		n := fn.Name()
		if strings.HasPrefix(n, "Fatal") {
			return exitWith(1)
		}
		if strings.HasPrefix(n, "Panic") {
			return func(m *Machine, fn *Fn, args []Value) Value {
				m.runtimePanic("logrus panic")
				return Value{}
			}
		}
		return ret0
	case "github.com/kr/pretty":
		return ret0
	}
	return nil
}

func init() {
	// ---- harness runtime ----
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		n := m.uname(m.conc(a[0], "name"))
		t := m.tt.byteVar(n, fullSet)
		m.noteVar(t)
		m.inputs = append(m.inputs, &Input{n, "byte", termV(t)})
		return termV(t)
	}, rtPkg+".Byte")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		n := m.uname(m.conc(a[0], "name"))
		var s bset
		s.add(0)
		s.add(1)
		t := m.tt.byteVar(n, s)
		m.noteVar(t)
		b := m.boolT(m.tt.bin(OpEq, t, m.tt.konst(8, 1)))
		m.inputs = append(m.inputs, &Input{n, "bool", termV(t)})
		return b
	}, rtPkg+".Bool")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		n := m.uname(m.conc(a[0], "name"))
		k := int(m.concretize(a[1], tinfo{kInt, 64}))
		if k <= 1 {
			m.inputs = append(m.inputs, &Input{n, "choice", Value{}})
			return Value{}
		}
		v := Value{N: uint64(m.chooseN(n, k))}
		m.inputs = append(m.inputs, &Input{n, "choice", v})
		return v
	}, rtPkg+".Choice")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		n := m.uname(m.conc(a[0], "name"))
		lo, hi := int64(a[1].N), int64(a[2].N)
		if lo == hi {
			m.inputs = append(m.inputs, &Input{n, "int", intV(lo)})
			return intV(lo)
		}
		if lo > hi {
			panic(&pathEnd{"assume", "empty range"})
		}
		if lo >= 0 && hi < 256 {
			var s bset
			for i := lo; i <= hi; i++ {
				s.add(int(i))
			}
			t := m.tt.byteVar(n, s)
			m.noteVar(t)
			v := m.fromTerm(m.tt.conv(t, 64, false), tinfo{kInt, 64})
			m.inputs = append(m.inputs, &Input{n, "int", v})
			return v
		}
		var t *Term
		if lo >= 0 {
			t = m.tt.wideVar(n, 64, uint64(lo), uint64(hi))
		} else {
			t = m.tt.wideVar(n, 64, 0, ^uint64(0))
		}
		m.noteVar(t)
		if lo < 0 {
			m.assume(m.boolT(m.tt.and(m.tt.bin(OpSle, m.tt.konst(64, uint64(lo)), t), m.tt.bin(OpSle, t, m.tt.konst(64, uint64(hi))))))
		}
		m.inputs = append(m.inputs, &Input{n, "int", termV(t)})
		return termV(t)
	}, rtPkg+".Int")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		n := m.uname(m.conc(a[0], "name"))
		lo, hi := int(a[1].N), int(a[2].N)
		dom := strSet(m.conc(a[3], "alphabet"))
		l := lo
		if hi > lo {
			l = lo + m.chooseN(n+".len", hi-lo+1)
		}
		bs := make([]Value, l)
		for i := range bs {
			t := m.tt.byteVar(fmt.Sprintf("%s[%d]", n, i), dom)
			if t.op != OpConst {
				m.noteVar(t)
			}
			bs[i] = m.fromTerm(t, tinfo{kUint, 8})
		}
		v := mkStr(bs)
		m.inputs = append(m.inputs, &Input{n, "string", v})
		return v
	}, rtPkg+".String")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		// Dec(name, minDigits, maxDigits) (string, uint64)
		n := m.uname(m.conc(a[0], "name"))
		lo, hi := int(a[1].N), int(a[2].N)
		l := lo
		if hi > lo {
			l = lo + m.chooseN(n+".len", hi-lo+1)
		}
		bs := make([]Value, l)
		val := m.tt.konst(64, 0)
		for i := range bs {
			dom := strSet("0123456789")
			if i == 0 && l > 1 {
				dom = strSet("123456789")
			}
			t := m.tt.byteVar(fmt.Sprintf("%s[%d]", n, i), dom)
			m.noteVar(t)
			bs[i] = termV(t)
			d := m.tt.bin(OpSub, t, m.tt.konst(8, '0'))
			val = m.tt.bin(OpAdd, m.tt.bin(OpMul, val, m.tt.konst(64, 10)), m.tt.conv(d, 64, false))
		}
		s := mkStr(bs)
		m.decimals[val] = decEnt{s, false}
		m.inputs = append(m.inputs, &Input{n, "string", s})
		return tupleV(s, termV(val))
	}, rtPkg+".Dec")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		// Num(name, bits, signed, maxDigits) (string, uint64)
		n := m.uname(m.conc(a[0], "name"))
		bits, signed, max := int(a[1].N), a[2].N != 0, int(a[3].N)
		neg := signed && m.chooseN(n+".neg", 2) == 1
		limit := new(big.Int).Lsh(big.NewInt(1), uint(bits))
		limit.Sub(limit, big.NewInt(1))
		if signed {
			limit.Rsh(limit, 1)
			if neg {
				limit.Add(limit, big.NewInt(1))
			}
		}
		lim := limit.String()
		if max <= 0 || max > len(lim) {
			max = len(lim)
		}
		l := 1 + m.chooseN(n+".len", max)
		bs := make([]Value, l)
		// a numeral as long as the limit's agrees with it up to some digit,
		// is smaller there, and arbitrary afterwards
		at := -1
		if l == len(lim) {
			at = m.chooseN(n+".differs", l+1)
		}
		val := m.tt.konst(64, 0)
		for i := range bs {
			dom := strSet("0123456789")
			if i == 0 && (l > 1 || neg) {
				dom = strSet("123456789")
			}
			if i < at {
				dom = strSet(lim[i : i+1])
			} else if i == at {
				if lim[i] > '0' {
					dom = dom.and(strSet("0123456789"[:lim[i]-'0']))
				}
				if lim[i] == '0' || dom.empty() {
					panic(&pathEnd{"assume", "limit"})
				}
			}
			t := m.tt.byteVar(fmt.Sprintf("%s[%d]", n, i), dom)
			if t.op != OpConst {
				m.noteVar(t)
			}
			bs[i] = m.fromTerm(t, tinfo{kUint, 8})
			d := m.tt.conv(m.tt.bin(OpSub, t, m.tt.konst(8, '0')), 64, false)
			val = m.tt.bin(OpAdd, m.tt.bin(OpMul, val, m.tt.konst(64, 10)), d)
		}
		if neg {
			val = m.tt.bin(OpSub, m.tt.konst(64, 0), val)
			bs = append([]Value{{N: '-'}}, bs...)
		}
		s := mkStr(bs)
		m.decimals[val] = decEnt{s, neg}
		if bits < 64 {
			m.decimals[m.tt.conv(val, uint8(bits), signed)] = decEnt{s, neg}
		}
		m.inputs = append(m.inputs, &Input{n, "string", s})
		return tupleV(s, m.fromTerm(val, tinfo{kUint, 64}))
	}, rtPkg+".Num")
	reg(func(m *Machine, fn *Fn, a []Value) Value { m.assume(a[0]); return Value{} }, rtPkg+".Assume")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		// the message is only rendered when the assertion can fail
		m.assert(a[0], m.lossyStr(a[1]))
		return Value{}
	}, rtPkg+".Assert")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		m.violate(nil, m.lossyStr(a[0]), "assert")
		panic(&pathEnd{"done", "assertion failed"})
	}, rtPkg+".Fail")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		var v Value
		var t types.Type = types.Typ[types.String]
		if a[1].O != nil {
			i := a[1].O.(*Iface)
			v, t = m.snapshot(i.V), i.T
		} else {
			v = strV("nil")
		}
		m.trace = append(m.trace, TraceEnt{m.lossyStr(a[0]), v, t})
		return Value{}
	}, rtPkg+".Observe")
	reg(func(m *Machine, fn *Fn, a []Value) Value { m.reachHit[m.lossyStr(a[0])] = true; return Value{} }, rtPkg+".Reach")
	reg(func(m *Machine, fn *Fn, a []Value) Value { m.known = m.lossyStr(a[0]); return Value{} }, rtPkg+".Known")
	reg(func(m *Machine, fn *Fn, a []Value) Value { m.mapOrder = m.branch(a[0]); return Value{} }, rtPkg+".MapOrder")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return boolV(true) }, rtPkg+".Symbolic")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		m.scratchN++
		d := fmt.Sprintf("/scratch/s%d", m.scratchN)
		m.call(m.prog.fnByName(vfsPkg+".AddDir"), []Value{strV(d)}, nil)
		return strV(d)
	}, rtPkg+".ScratchDir")
	reg(func(m *Machine, fn *Fn, a []Value) (res Value) {
		// runExit(f func()) (code int, exited bool)
		depth, sp, buf, fr := m.depth, m.sp, m.stackBuf, m.curFrame
		others := len(m.sch().coros)
		defer func() {
			if r := recover(); r != nil {
				pe, ok := r.(*pathEnd)
				if !ok || pe.kind != "exit" {
					panic(r)
				}
				m.depth, m.sp, m.stackBuf, m.curFrame = depth, sp, buf, fr
				m.endCoros(others) // the process is gone
				res = tupleV(m.exitCode, boolV(true))
			}
		}()
		for _, q := range m.prog.ssa.AllPackages() {
			if lateInit(q.Pkg.Path()) {
				m.call(m.prog.fn(q.Func("init")), nil, nil)
			}
		}
		m.callClosure(a[0].O.(*Closure), nil)
		m.endCoros(others)
		return tupleV(Value{}, boolV(false))
	}, rtPkg+".runExit")
	reg(func(m *Machine, fn *Fn, a []Value) (res Value) {
		// Catch(f func()) (panicked bool, msg string)
		depth, sp, buf, fr := m.depth, m.sp, m.stackBuf, m.curFrame
		defer func() {
			if r := recover(); r != nil {
				ip, ok := r.(*ipanic)
				if !ok {
					panic(r)
				}
				m.depth, m.sp, m.stackBuf, m.curFrame = depth, sp, buf, fr
				m.lastPanic = ip
				res = tupleV(boolV(true), strV2(m.panicText(ip.v)))
			}
		}()
		m.callClosure(a[0].O.(*Closure), nil)
		return tupleV(boolV(false), Value{})
	}, rtPkg+".Catch")

	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if v, ok := m.params[m.conc(a[0], "param")]; ok {
			return intV(int64(v))
		}
		return a[1]
	}, rtPkg+".Param")

	// ---- process ----
	reg(func(m *Machine, fn *Fn, a []Value) Value { m.doExit(a[0]); return Value{} }, "os.Exit")
	reg(ret0, "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Callers", "runtime.Caller",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable",
		"(*sync.Pool).Put", "github.com/pkg/errors.callers", "internal/godebug.setUpdate", "internal/godebug.registerMetric",
		"(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Value", "internal/runtime/sys.Prefetch", "os/signal.Notify", "runtime/debug.SetGCPercent")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		p := a[0].O.(*Value)
		s := m.structOf(*p, deref(fn.ssa.Signature.Recv().Type()))
		st := deref(fn.ssa.Signature.Recv().Type()).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				if s.F[i].O == nil {
					return Value{}
				}
				return m.callClosure(s.F[i].O.(*Closure), nil)
			}
		}
		return Value{}
	}, "(*sync.Pool).Get")

	// ---- atomics ----
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, pk := range []string{"sync/atomic."} {
			reg(func(m *Machine, fn *Fn, a []Value) Value { return *m.ptr(a[0]) }, pk+"Load"+w)
			reg(func(m *Machine, fn *Fn, a []Value) Value { m.set(m.ptr(a[0]), a[1]); return Value{} }, pk+"Store"+w)
			reg(func(m *Machine, fn *Fn, a []Value) Value {
				p := m.ptr(a[0])
				o := *p
				m.set(p, a[1])
				return o
			}, pk+"Swap"+w)
			reg(func(m *Machine, fn *Fn, a []Value) Value {
				p := m.ptr(a[0])
				if *p == a[1] {
					m.set(p, a[2])
					return boolV(true)
				}
				return boolV(false)
			}, pk+"CompareAndSwap"+w)
			i := tinfo{kInt, 64}
			if strings.HasSuffix(w, "32") {
				i.w = 32
			}
			if w[0] == 'U' {
				i.k = kUint
			}
			reg(func(m *Machine, fn *Fn, a []Value) Value {
				p := m.ptr(a[0])
				n := m.arith(token.ADD, *p, a[1], i)
				m.set(p, n)
				return n
			}, pk+"Add"+w)
			if w != "Pointer" {
				for nm, op := range map[string]token.Token{"And": token.AND, "Or": token.OR} {
					op := op
					reg(func(m *Machine, fn *Fn, a []Value) Value {
						p := m.ptr(a[0])
						o := *p
						m.set(p, m.arith(op, o, a[1], i))
						return o
					}, pk+nm+w)
				}
			}
		}
	}
	reg(func(m *Machine, fn *Fn, a []Value) Value { return m.ptr(a[0]).O.(*Struct).F[0] }, "(*sync/atomic.Value).Load")
	reg(func(m *Machine, fn *Fn, a []Value) Value { m.set(&m.ptr(a[0]).O.(*Struct).F[0], a[1]); return Value{} }, "(*sync/atomic.Value).Store")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return a[0] }, "internal/abi.NoEscape", "internal/abi.Escape", "internal/bytealg.MakeNoZeroX")

	// ---- sync.Map ----
	sm := func(m *Machine, v Value) *Map {
		p := m.ptr(v)
		mp := m.syncMaps[p]
		if mp == nil {
			mp = m.newMap(anyType)
			if m.syncMaps == nil {
				m.syncMaps = map[*Value]*Map{}
			}
			m.syncMaps[p] = mp
		}
		return mp
	}
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if e := m.mapFind(sm(m, a[0]), a[1]); e != nil {
			return tupleV(e.v, boolV(true))
		}
		return tupleV(Value{}, boolV(false))
	}, "(*sync.Map).Load")
	reg(func(m *Machine, fn *Fn, a []Value) Value { m.mapSet(sm(m, a[0]), a[1], a[2]); return Value{} }, "(*sync.Map).Store")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		mp := sm(m, a[0])
		if e := m.mapFind(mp, a[1]); e != nil {
			return tupleV(e.v, boolV(true))
		}
		m.mapSet(mp, a[1], a[2])
		return tupleV(a[2], boolV(false))
	}, "(*sync.Map).LoadOrStore")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		for _, e := range append([]*mapEntry(nil), sm(m, a[0]).ents...) {
			if !e.dead && !m.branch(m.callClosure(a[1].O.(*Closure), []Value{e.k, e.v})) {
				break
			}
		}
		return Value{}
	}, "(*sync.Map).Range")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		mp := sm(m, a[0])
		e := m.mapFind(mp, a[1])
		if e == nil {
			return tupleV(Value{}, boolV(false))
		}
		v := e.v
		m.mapDelete(mp, a[1])
		return tupleV(v, boolV(true))
	}, "(*sync.Map).LoadAndDelete")
	reg(func(m *Machine, fn *Fn, a []Value) Value { m.mapDelete(sm(m, a[0]), a[1]); return Value{} }, "(*sync.Map).Delete")

	// ---- bytealg / strings ----
	reg(func(m *Machine, fn *Fn, a []Value) Value { return intV(int64(m.indexByte(sliceOf(a[0]), a[1]))) }, "internal/bytealg.IndexByte", "bytes.IndexByte")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if s, ok := concStr(a[0]); ok && a[1].O == nil {
			return intV(int64(strings.IndexByte(s, byte(a[1].N))))
		}
		return intV(int64(m.indexByte(strBytes(a[0]), a[1])))
	}, "internal/bytealg.IndexByteString", "strings.IndexByte")
	lastByte := func(m *Machine, bs []Value, c Value) Value {
		for i := len(bs) - 1; i >= 0; i-- {
			if m.branch(byteEq(m, bs[i], c)) {
				return intV(int64(i))
			}
		}
		return intV(-1)
	}
	reg(func(m *Machine, fn *Fn, a []Value) Value { return lastByte(m, sliceOf(a[0]), a[1]) }, "internal/bytealg.LastIndexByte", "bytes.LastIndexByte")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return lastByte(m, strBytes(a[0]), a[1]) }, "internal/bytealg.LastIndexByteString", "strings.LastIndexByte")
	count := func(m *Machine, bs []Value, c Value) Value {
		n := 0
		for i := range bs {
			if m.branch(byteEq(m, bs[i], c)) {
				n++
			}
		}
		return intV(int64(n))
	}
	reg(func(m *Machine, fn *Fn, a []Value) Value { return count(m, sliceOf(a[0]), a[1]) }, "internal/bytealg.Count")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return count(m, strBytes(a[0]), a[1]) }, "internal/bytealg.CountString")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		return m.strEq(mkStr(sliceOf(a[0])), mkStr(sliceOf(a[1])))
	}, "internal/bytealg.Equal", "bytes.Equal")
	cmp := func(m *Machine, a, b Value) Value {
		if m.strLess(a, b) {
			return intV(-1)
		}
		if m.branch(m.strEq(a, b)) {
			return intV(0)
		}
		return intV(1)
	}
	reg(func(m *Machine, fn *Fn, a []Value) Value { return cmp(m, mkStr(sliceOf(a[0])), mkStr(sliceOf(a[1]))) }, "internal/bytealg.Compare", "bytes.Compare")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return cmp(m, a[0], a[1]) }, "internal/bytealg.CompareString", "strings.Compare", "cmp.Compare[string]", "runtime.cmpstring")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		return intV(int64(m.indexSub(sliceOf(a[0]), sliceOf(a[1]))))
	}, "internal/bytealg.Index", "bytes.Index")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		s, ok := concStr(a[0])
		t, ok2 := concStr(a[1])
		if ok && ok2 {
			return intV(int64(strings.Index(s, t)))
		}
		return intV(int64(m.indexSub(strBytes(a[0]), strBytes(a[1]))))
	}, "internal/bytealg.IndexString", "strings.Index")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		n := int(m.concretize(a[0], tinfo{kInt, 64}))
		return Value{O: &Slice{E: m.slots(n)}}
	}, "internal/bytealg.MakeNoZero")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return a[0] }, "internal/stringslite.Clone", "strings.Clone")
	reg(caseMap(false), "strings.ToLower")
	reg(caseMap(true), "strings.ToUpper")
	reg(nativeStr(strings.TrimSpace), "strings.TrimSpace")
	reg(nativeStr(strconv.Quote), "strconv.Quote")
	reg(nativeStr(filepath.Clean), "path/filepath.Clean", "internal/filepathlite.Clean")
	reg(nativeStr2b(strings.HasPrefix), "strings.HasPrefix")
	reg(nativeStr2b(strings.HasSuffix), "strings.HasSuffix")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		s, k1 := concStr(a[0])
		o, k2 := concStr(a[1])
		n, k3 := concStr(a[2])
		if k1 && k2 && k3 && a[3].O == nil {
			return strV2(strings.Replace(s, o, n, int(int64(a[3].N))))
		}
		return m.callOrig(fn, a)
	}, "strings.Replace")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if a[1].O == nil && a[1].N == 10 {
			return m.itoa(a[0], tinfo{kInt, 64})
		}
		return m.callOrig(fn, a)
	}, "strconv.FormatInt")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if a[1].O == nil && a[1].N == 10 {
			return m.itoa(a[0], tinfo{kUint, 64})
		}
		return m.callOrig(fn, a)
	}, "strconv.FormatUint")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return m.itoa(a[0], tinfo{kInt, 64}) }, "strconv.Itoa")
	// floats: only concrete text
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		s := m.conc(a[0], "float")
		f, err := strconv.ParseFloat(s, int(a[1].N))
		if err != nil {
			return tupleV(fV(f), m.mkErr(err.Error()))
		}
		return tupleV(fV(f), Value{})
	}, "strconv.ParseFloat")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		return strV(strconv.FormatFloat(f64(a[0]), byte(a[1].N), int(int64(a[2].N)), int(a[3].N)))
	}, "strconv.FormatFloat")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return Value{N: a[0].N} }, "math.Float64bits", "math.Float64frombits")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return m.callOrig(fn, a) }, "math.Float32bits")
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Log": math.Log, "Exp": math.Exp, "Sqrt": math.Sqrt} {
		f := f
		reg(func(m *Machine, fn *Fn, a []Value) Value {
			return Value{N: math.Float64bits(f(math.Float64frombits(a[0].N)))}
		}, "math.arch"+n)
	}
	_ = utf8.RuneError

	// ---- fmt ----
	vargs := func(v Value) []Value { return sliceOf(v) }
	reg(func(m *Machine, fn *Fn, a []Value) Value { return m.sprintf(a[0], vargs(a[1])) }, "fmt.Sprintf")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return m.sprint(vargs(a[0]), false) }, "fmt.Sprint")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return m.sprint(vargs(a[0]), true) }, "fmt.Sprintln")
	write := func(m *Machine, w, s Value) Value {
		if w.O == nil {
			m.nilDeref()
		}
		i := w.O.(*Iface)
		f := m.prog.methodNamed(i.T, "Write")
		b := strBytes(s)
		sl := make([]Value, len(b))
		copy(sl, b)
		return m.call(f, []Value{i.V, {O: &Slice{E: sl}}}, nil)
	}
	reg(func(m *Machine, fn *Fn, a []Value) Value { return write(m, a[0], m.sprintf(a[1], vargs(a[2]))) }, "fmt.Fprintf")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return write(m, a[0], m.sprint(vargs(a[1]), false)) }, "fmt.Fprint")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return write(m, a[0], m.sprint(vargs(a[1]), true)) }, "fmt.Fprintln")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return tupleV(intV(0), Value{}) }, "fmt.Printf", "fmt.Println", "fmt.Print")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return tupleV(intV(0), m.mkErr("unexpected newline")) }, "fmt.Scanln")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		f, _ := concStr(a[0])
		msg := m.sprintf(strV2(strings.ReplaceAll(f, "%w", "%v")), vargs(a[1]))
		if i := strings.Index(f, "%w"); i >= 0 && strings.Count(f, "%w") == 1 {
			n := strings.Count(strings.ReplaceAll(f[:i], "%%", ""), "%")
			as := vargs(a[1])
			if n < len(as) && as[n].O != nil {
				wt := m.prog.typeByName("fmt", "wrapError")
				s := m.newSlot()
				*s = m.zero(wt)
				st := s.O.(*Struct)
				st.F[0], st.F[1] = msg, as[n]
				return Value{O: &Iface{T: types.NewPointer(wt), V: Value{O: s}}}
			}
		}
		return m.newError(msg)
	}, "fmt.Errorf")

	// ---- errors ----
	reg(func(m *Machine, fn *Fn, a []Value) Value { return boolV(m.errIs(a[0], a[1])) }, "errors.Is")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		// errors.As(err, target any)
		if a[1].O == nil {
			m.runtimePanic("errors: target cannot be nil")
		}
		it := a[1].O.(*Iface)
		et := deref(it.T)
		err := a[0]
		for err.O != nil {
			ie := err.O.(*Iface)
			ok := false
			var v Value
			if itf, is := et.Underlying().(*types.Interface); is {
				ok, v = m.implements(ie.T, itf, et), err
			} else {
				ok, v = identical(ie.T, et), ie.V
			}
			if ok {
				m.store(m.ptr(it.V), v)
				return boolV(true)
			}
			f := m.prog.methodNamed(ie.T, "Unwrap")
			if f == nil || ti(f.ssa.Signature.Results().At(0).Type()).k == kSlice {
				return boolV(false)
			}
			err = m.call(f, []Value{ie.V}, nil)
		}
		return boolV(false)
	}, "errors.As")

	// ---- sort / reflectlite ----
	swapper := func(m *Machine, fn *Fn, a []Value) Value {
		i := a[0].O.(*Iface)
		E := sliceOf(i.V)
		return Value{O: &Closure{Name: "swap", Native: func(m *Machine, as []Value) Value {
			x, y := int(as[0].N), int(as[1].N)
			vx, vy := m.copyVal(E[x]), m.copyVal(E[y])
			m.store(&E[x], vy)
			m.store(&E[y], vx)
			return Value{}
		}}}
	}
	reg(swapper, "internal/reflectlite.Swapper", "reflect.Swapper")
	// sort.Slice uses reflectlite.ValueOf(x).Len()
	sortSlice := func(stable bool) native {
		return func(m *Machine, fn *Fn, a []Value) Value {
			i := a[0].O.(*Iface)
			E := sliceOf(i.V)
			less := a[1].O.(*Closure)
			// insertion sort keeps the element order of the slice in step with less()
			for x := 1; x < len(E); x++ {
				for y := x; y > 0; y-- {
					if !m.branch(m.callClosure(less, []Value{intV(int64(y)), intV(int64(y - 1))})) {
						break
					}
					vx, vy := m.copyVal(E[y]), m.copyVal(E[y-1])
					m.store(&E[y], vy)
					m.store(&E[y-1], vx)
				}
			}
			return Value{}
		}
	}
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		less := a[1].O.(*Closure)
		for y := len(sliceOf(a[0].O.(*Iface).V)) - 1; y > 0; y-- {
			if m.branch(m.callClosure(less, []Value{intV(int64(y)), intV(int64(y - 1))})) {
				return boolV(false)
			}
		}
		return boolV(true)
	}, "sort.SliceIsSorted")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		x, y := a[0], a[1]
		if x.O == nil || y.O == nil {
			return boolV(x.O == nil && y.O == nil)
		}
		p, q := x.O.(*Iface), y.O.(*Iface)
		return boolV(identical(p.T, q.T) && m.deepEqual(p.V, q.V, p.T, map[[2]any]bool{}))
	}, "reflect.DeepEqual")
	reg(sortSlice(false), "sort.Slice")
	reg(sortSlice(true), "sort.SliceStable")

	// ---- go tool chain on concrete input ----
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		src := mkStr(append([]Value(nil), sliceOf(a[0])...))
		c, ok := concStr(src)
		if !ok {
			return m.callOrig(fn, a)
		}
		type res struct {
			out []byte
			err error
		}
		var r res
		key := "fmt:" + c
		if x, ok := m.prog.natCache.Load(key); ok {
			r = x.(res)
		} else {
			r.out, r.err = format.Source([]byte(c))
			m.prog.natCache.Store(key, r)
		}
		if r.err != nil {
			return tupleV(Value{}, m.mkErr(r.err.Error()))
		}
		return tupleV(Value{O: &Slice{E: strBytes(strV2(string(r.out)))}}, Value{})
	}, "go/format.Source")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		src := mkStr(append([]Value(nil), sliceOf(a[0])...))
		c, ok := concStr(src)
		if !ok {
			return m.callOrig(fn, a)
		}
		key := "gz:" + c
		var out string
		if x, ok := m.prog.natCache.Load(key); ok {
			out = x.(string)
		} else {
			gz, err := gzip.NewReader(bytes.NewReader([]byte(c)))
			if err != nil {
				return m.callOrig(fn, a)
			}
			b, err := io.ReadAll(gz)
			if err != nil {
				return m.callOrig(fn, a)
			}
			out = string(b)
			m.prog.natCache.Store(key, out)
		}
		return tupleV(Value{O: &Slice{E: strBytes(strV2(out))}}, Value{})
	}, "github.com/teamlint/baron/gengokit/template.bindataRead")
	// the two reflective source printers: native on the real source file
	fsrc := func(all bool) native {
		return func(m *Machine, fn *Fn, a []Value) Value {
			i := a[0].O.(*Iface)
			cl := i.V.O.(*Closure)
			s, err := m.prog.funcSource(cl, all)
			if err != nil {
				return tupleV(Value{}, m.mkErr(err.Error()))
			}
			return tupleV(strV2(s), Value{})
		}
	}
	reg(fsrc(false), "github.com/teamlint/baron/gengokit/httptransport.FuncSourceCode")
	reg(fsrc(true), "github.com/teamlint/baron/gengokit/httptransport.AllFuncSourceCode")

	// ---- environment ----
	reg(func(m *Machine, fn *Fn, a []Value) Value { return Value{} }, "internal/testlog.Getenv", "internal/testlog.Open", "internal/testlog.Stat")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return intV(0) }, "os.Getpid", "os.Getuid")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return tupleV(strV2("host"), Value{}) }, "os.Hostname")

	// ---- time and chance: never the same twice on a path ----
	tick := func(m *Machine) int64 { m.clock += 1001; return m.clock }
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		t := tick(m)
		return tupleV(intV(1700000000+t/1e9), intV(t%1e9), intV(t))
	}, "time.now", "time.runtimeNow")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return intV(tick(m)) }, "time.runtimeNano", "runtime.nanotime")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return boolV(false) }, "time.runtimeIsBubbled")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return Value{} }, "time.initLocal")
	reg(func(m *Machine, fn *Fn, a []Value) Value { m.clock += 3600e9; return Value{} }, rtPkg+".tick")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		x := uint64(tick(m)) * 0x9e3779b97f4a7c15
		x ^= x >> 29
		return Value{N: x * 0xbf58476d1ce4e5b9}
	}, "math/rand.runtime_rand", "math/rand/v2.runtime_rand", "hash/maphash.runtime_rand", "os.runtime_rand")
}

// funcSource prints the declaration(s) of the file that declares cl.
func (p *Program) funcSource(cl *Closure, all bool) (string, error) {
	f := cl.Fn.ssa
	if f.Syntax() == nil {
		return "", fmt.Errorf("no syntax for %s", f)
	}
	fset := p.ssa.Fset
	file := fset.Position(f.Syntax().Pos()).Filename
	key := fmt.Sprintf("src:%s:%v:%s", file, all, f.Name())
	if x, ok := p.natCache.Load(key); ok {
		return x.(string), nil
	}
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, file, nil, parser.ParseComments)
	if err != nil {
		return "", err
	}
	out := ""
	for _, d := range af.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || (!all && fd.Name.Name != f.Name()) {
			continue
		}
		var b bytes.Buffer
		if err := printer.Fprint(&b, fs, fd); err != nil {
			return "", err
		}
		if all {
			out += b.String() + "\n"
		} else {
			out = b.String()
		}
	}
	p.natCache.Store(key, out)
	return out, nil
}

// snapshot deep-copies the parts of a value a trace entry may later lose.
func (m *Machine) snapshot(v Value) Value {
	switch x := v.O.(type) {
	case *Struct, *Array:
		return m.copyVal(v)
	case *Slice:
		e := make([]Value, len(x.E))
		for i := range x.E {
			e[i] = m.snapshot(x.E[i])
		}
		return Value{O: &Slice{E: e}}
	}
	return v
}
