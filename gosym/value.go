package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Value is an interpreted Go value. Scalars live in N (sign- or zero-extended
// according to their static type; floats as float64 bits); everything else in O:
//
//	symbolic scalar   *Term
//	string            nil (empty) | string | *SymStr
//	struct / array    *Struct | *Array (nil = zero, materialised lazily)
//	pointer           *Value | *SymPtr | *DataPtr | nil
//	slice             *Slice | nil
//	map               *Map | nil
//	interface         *Iface | nil
//	func              *Closure | nil
//	tuple             Tuple
//	complex           complex128
type Value struct {
	N uint64
	O any
}

type Struct struct{ F []Value }
type Array struct{ E []Value }
type Slice struct{ E []Value }
type Iface struct {
	T types.Type
	V Value
}
type Closure struct {
	Fn     *Fn
	Env    []Value
	Native func(m *Machine, args []Value) Value
	Name   string
}
type Tuple []Value
type SymStr struct{ B []Value }

// DataPtr is the result of unsafe.SliceData / unsafe.StringData.
type DataPtr struct {
	S   *Slice
	Str Value
}

// SymPtr points to element E[Idx] for a symbolic in-range index.
type SymPtr struct {
	E   []Value
	Idx *Term
}

// RType is an interpreted reflect.Type / reflect.Value payload (unused mostly).
type iterState struct {
	m    *Map
	keys []*mapEntry
	i    int
	str  Value
	pos  int
	perm bool
}

func (t Tuple) String() string { return "tuple" }

var zeroV Value

func boolV(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func intV(n int64) Value     { return Value{N: uint64(n)} }
func strV(s string) Value    { return Value{O: s} }
func termV(t *Term) Value    { return Value{O: t} }
func tupleV(v ...Value) Value { return Value{O: Tuple(v)} }

func isSym(v Value) bool { _, ok := v.O.(*Term); return ok }

// strBytes returns per-byte values of a string value.
func strBytes(v Value) []Value {
	switch s := v.O.(type) {
	case nil:
		return nil
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i].N = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.B
	}
	panic(fmt.Sprintf("strBytes: %T", v.O))
}

func strLen(v Value) int {
	switch s := v.O.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.B)
	}
	panic(fmt.Sprintf("strLen: %T", v.O))
}

func strIndex(v Value, i int) Value {
	switch s := v.O.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SymStr:
		return s.B[i]
	}
	panic("strIndex")
}

// mkStr makes a string value from bytes (which must not be mutated later).
func mkStr(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	for i := range b {
		if b[i].O != nil {
			return Value{O: &SymStr{B: b}}
		}
	}
	buf := make([]byte, len(b))
	for i := range b {
		buf[i] = byte(b[i].N)
	}
	return Value{O: unsafe.String(&buf[0], len(buf))}
}

func concStr(v Value) (string, bool) {
	switch s := v.O.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.O.(type) {
	case nil:
		return v
	case string:
		if lo == hi {
			return Value{}
		}
		return Value{O: s[lo:hi]}
	case *SymStr:
		return mkStr(s.B[lo:hi:hi])
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	if x, ok := a.O.(string); ok {
		if y, ok := b.O.(string); ok {
			return Value{O: x + y}
		}
	}
	x, y := strBytes(a), strBytes(b)
	out := make([]Value, 0, len(x)+len(y))
	out = append(out, x...)
	out = append(out, y...)
	return Value{O: &SymStr{B: out}}
}

// ---- type info ----

type tkind uint8

const (
	kInvalid tkind = iota
	kBool
	kInt
	kUint
	kFloat
	kComplex
	kString
	kPtr
	kUnsafePtr
	kStruct
	kArray
	kSlice
	kMap
	kIface
	kFunc
	kChan
	kTuple
)

type tinfo struct {
	k tkind
	w uint8
}

var tinfoCache sync.Map

func ti(t types.Type) tinfo {
	if x, ok := tinfoCache.Load(t); ok {
		return x.(tinfo)
	}
	x := ti0(t)
	tinfoCache.Store(t, x)
	return x
}

func ti0(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{kBool, 0}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{kInt, 64}
		case types.Int8:
			return tinfo{kInt, 8}
		case types.Int16:
			return tinfo{kInt, 16}
		case types.Int32, types.UntypedRune:
			return tinfo{kInt, 32}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{kUint, 64}
		case types.Uint8:
			return tinfo{kUint, 8}
		case types.Uint16:
			return tinfo{kUint, 16}
		case types.Uint32:
			return tinfo{kUint, 32}
		case types.Float32:
			return tinfo{kFloat, 32}
		case types.Float64, types.UntypedFloat:
			return tinfo{kFloat, 64}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return tinfo{kComplex, 0}
		case types.String, types.UntypedString:
			return tinfo{kString, 0}
		case types.UnsafePointer:
			return tinfo{kUnsafePtr, 0}
		}
	case *types.Pointer:
		return tinfo{kPtr, 0}
	case *types.Struct:
		return tinfo{kStruct, 0}
	case *types.Array:
		return tinfo{kArray, 0}
	case *types.Slice:
		return tinfo{kSlice, 0}
	case *types.Map:
		return tinfo{kMap, 0}
	case *types.Interface:
		return tinfo{kIface, 0}
	case *types.Signature:
		return tinfo{kFunc, 0}
	case *types.Chan:
		return tinfo{kChan, 0}
	case *types.Tuple:
		return tinfo{kTuple, 0}
	}
	return tinfo{}
}

// norm truncates x to the width of the type and re-extends it.
func (i tinfo) norm(x uint64) uint64 {
	if i.w >= 64 || i.w == 0 {
		return x
	}
	if i.k == kInt {
		return uint64(sext(x, i.w))
	}
	return x & mask(i.w)
}

// term converts a scalar value to a term of the type's width.
func (m *Machine) term(v Value, i tinfo) *Term {
	if t, ok := v.O.(*Term); ok {
		return t
	}
	if v.O != nil {
		m.unsupported(fmt.Sprintf("term of %T", v.O))
	}
	return m.tt.konst(i.w, v.N)
}

func (m *Machine) fromTerm(t *Term, i tinfo) Value {
	if t.op == OpConst {
		return Value{N: i.norm(t.c)}
	}
	return Value{O: t}
}

var zeroTypes sync.Map

func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := u.NumFields()
		f := m.slots(n)
		for i := 0; i < n; i++ {
			switch ti(u.Field(i).Type()).k {
			case kStruct, kArray:
				f[i] = m.zero(u.Field(i).Type())
			}
		}
		return Value{O: &Struct{F: f}}
	case *types.Array:
		n := int(u.Len())
		e := m.slots(n)
		switch ti(u.Elem()).k {
		case kStruct, kArray:
			for i := range e {
				e[i] = m.zero(u.Elem())
			}
		}
		return Value{O: &Array{E: e}}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = m.zero(u.At(i).Type())
		}
		return Value{O: tp}
	}
	return Value{}
}

// copyVal makes an independent copy of struct/array values.
func (m *Machine) copyVal(v Value) Value {
	switch s := v.O.(type) {
	case *Struct:
		f := m.slots(len(s.F))
		for i := range s.F {
			x := s.F[i]
			switch x.O.(type) {
			case *Struct, *Array:
				x = m.copyVal(x)
			}
			f[i] = x
		}
		return Value{O: &Struct{F: f}}
	case *Array:
		e := m.slots(len(s.E))
		for i := range s.E {
			x := s.E[i]
			switch x.O.(type) {
			case *Struct, *Array:
				x = m.copyVal(x)
			}
			e[i] = x
		}
		return Value{O: &Array{E: e}}
	}
	return v
}

// store writes v into *p, keeping interior pointers valid.
func (m *Machine) store(p *Value, v Value) {
	switch s := v.O.(type) {
	case *Struct:
		if d, ok := p.O.(*Struct); ok {
			if d == s {
				return
			}
			for i := range s.F {
				m.store(&d.F[i], s.F[i])
			}
			return
		}
		v = m.copyVal(v)
	case *Array:
		if d, ok := p.O.(*Array); ok {
			if d == s {
				return
			}
			for i := range s.E {
				m.store(&d.E[i], s.E[i])
			}
			return
		}
		v = m.copyVal(v)
	case nil:
		// zero value of an aggregate held lazily
		switch d := p.O.(type) {
		case *Struct:
			for i := range d.F {
				m.store(&d.F[i], Value{})
			}
			return
		case *Array:
			for i := range d.E {
				m.store(&d.E[i], Value{})
			}
			return
		}
	}
	m.set(p, v)
}

// set is a raw slot write with undo logging for the initial heap.
func (m *Machine) set(p *Value, v Value) {
	if !m.initPhase && m.inInit(p) {
		m.trail = append(m.trail, trailEnt{p, *p})
	}
	*p = v
}

type trailEnt struct {
	p   *Value
	old Value
}

func (m *Machine) inInit(p *Value) bool {
	a := uintptr(unsafe.Pointer(p))
	for i := range m.arenas {
		if a >= m.arenas[i].lo && a < m.arenas[i].hi {
			return true
		}
	}
	return false
}

type arena struct {
	lo, hi uintptr
	buf    []Value
}

const arenaChunk = 1 << 20

func (m *Machine) slots(n int) []Value {
	if n == 0 {
		return nil
	}
	if !m.initPhase {
		return make([]Value, n)
	}
	if len(m.free) < n {
		sz := arenaChunk
		if n > sz {
			sz = n
		}
		buf := make([]Value, sz)
		lo := uintptr(unsafe.Pointer(&buf[0]))
		m.arenas = append(m.arenas, arena{lo, lo + uintptr(sz)*unsafe.Sizeof(Value{}), buf})
		m.free = buf
	}
	s := m.free[:n:n]
	m.free = m.free[n:]
	return s
}

func (m *Machine) newSlot() *Value { return &m.slots(1)[0] }

// ---- maps ----

type mapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	idx    map[any]*mapEntry // concrete hashable keys
	ents   []*mapEntry
	n      int
	nsym   int
	init   bool
	kt     types.Type
	shared bool
}

type strKey string
type ifKey struct {
	t types.Type
	k any
}

// hashKey returns a comparable Go key for a concrete key value, ok=false when symbolic.
func (m *Machine) hashKey(k Value, t types.Type) (any, bool) {
	switch ti(t).k {
	case kBool, kInt, kUint, kFloat:
		if k.O != nil {
			return nil, false
		}
		return k.N, true
	case kString:
		s, ok := concStr(k)
		return strKey(s), ok
	case kPtr, kUnsafePtr, kChan, kFunc:
		return k.O, true
	case kIface:
		if k.O == nil {
			return nil, true
		}
		i := k.O.(*Iface)
		h, ok := m.hashKey(i.V, i.T)
		return ifKey{canonType(i.T), h}, ok
	case kStruct:
		u := t.Underlying().(*types.Struct)
		var sb strings.Builder
		s := m.structOf(k, t)
		for j := 0; j < u.NumFields(); j++ {
			h, ok := m.hashKey(s.F[j], u.Field(j).Type())
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", h, h)
		}
		return sb.String(), true
	case kArray:
		u := t.Underlying().(*types.Array)
		var sb strings.Builder
		a := m.arrayOf(k, t)
		for j := range a.E {
			h, ok := m.hashKey(a.E[j], u.Elem())
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", h, h)
		}
		return sb.String(), true
	}
	m.unsupported("map key of type " + t.String())
	return nil, false
}

func (m *Machine) structOf(v Value, t types.Type) *Struct {
	if s, ok := v.O.(*Struct); ok {
		return s
	}
	return m.zero(t).O.(*Struct)
}
func (m *Machine) arrayOf(v Value, t types.Type) *Array {
	if s, ok := v.O.(*Array); ok {
		return s
	}
	return m.zero(t).O.(*Array)
}

func (m *Machine) newMap(kt types.Type) *Map {
	return &Map{idx: map[any]*mapEntry{}, kt: kt, init: m.initPhase}
}

func (mp *Map) clone() *Map {
	c := &Map{idx: make(map[any]*mapEntry, len(mp.idx)), n: mp.n, nsym: mp.nsym, kt: mp.kt}
	re := map[*mapEntry]*mapEntry{}
	for _, e := range mp.ents {
		ne := &mapEntry{e.k, e.v, e.dead}
		re[e] = ne
		c.ents = append(c.ents, ne)
	}
	for k, e := range mp.idx {
		c.idx[k] = re[e]
	}
	return c
}

// willWrite saves an init-heap map before its first modification on a path.
func (m *Machine) willWrite(mp *Map) {
	if mp.init && !m.initPhase && !mp.shared {
		mp.shared = true
		saved := mp.clone()
		m.mapTrail = append(m.mapTrail, func() {
			mp.idx, mp.ents, mp.n, mp.nsym, mp.shared = saved.idx, saved.ents, saved.n, saved.nsym, false
		})
	}
}

func (m *Machine) mapFind(mp *Map, k Value) *mapEntry {
	h, conc := m.hashKey(k, mp.kt)
	if conc && mp.nsym == 0 {
		return mp.idx[h]
	}
	if conc {
		if e := mp.idx[h]; e != nil {
			return e
		}
	}
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := m.hashKey(e.k, mp.kt); ec {
				continue // both concrete and not equal (not found in idx)
			}
		}
		if m.branch(m.equal(e.k, k, mp.kt)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	m.willWrite(mp)
	if e := m.mapFind(mp, k); e != nil {
		e.v = m.copyVal(v)
		return
	}
	e := &mapEntry{k: m.copyVal(k), v: m.copyVal(v)}
	h, conc := m.hashKey(k, mp.kt)
	if conc {
		mp.idx[h] = e
	} else {
		mp.nsym++
	}
	mp.ents = append(mp.ents, e)
	mp.n++
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	m.willWrite(mp)
	if mp.init { // entries may have been replaced by clone restore; find again
		e = m.mapFind(mp, k)
	}
	h, conc := m.hashKey(e.k, mp.kt)
	if conc {
		delete(mp.idx, h)
	} else {
		mp.nsym--
	}
	e.dead = true
	mp.n--
	for i, x := range mp.ents {
		if x == e {
			ents := make([]*mapEntry, 0, len(mp.ents))
			ents = append(ents, mp.ents[:i]...)
			ents = append(ents, mp.ents[i+1:]...)
			mp.ents = ents
			break
		}
	}
}

var canonMu sync.Mutex
var canonCache sync.Map
var canonList = map[string][]types.Type{}

// canonType maps identical types to one representative.
func canonType(t types.Type) types.Type {
	if _, ok := t.(*types.Named); ok && t.(*types.Named).TypeArgs().Len() == 0 {
		return t
	}
	if c, ok := canonCache.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	s := types.TypeString(t, nil)
	for _, x := range canonList[s] {
		if types.Identical(x, t) {
			canonCache.Store(t, x)
			return x
		}
	}
	canonList[s] = append(canonList[s], t)
	canonCache.Store(t, t)
	return t
}

func identical(a, b types.Type) bool { return a == b || canonType(a) == canonType(b) }

// equal returns a bool Value (possibly symbolic) for a == b at type t.
func (m *Machine) equal(a, b Value, t types.Type) Value {
	i := ti(t)
	switch i.k {
	case kBool, kInt, kUint:
		if a.O == nil && b.O == nil {
			return boolV(a.N == b.N)
		}
		return m.boolT(m.tt.bin(OpEq, m.term(a, i), m.term(b, i)))
	case kFloat:
		if a.O != nil || b.O != nil {
			m.unsupported("symbolic float comparison")
		}
		return boolV(f64(a) == f64(b))
	case kComplex:
		return boolV(cplx(a) == cplx(b))
	case kString:
		return m.strEq(a, b)
	case kPtr, kUnsafePtr, kChan:
		return boolV(m.ptrEq(a, b))
	case kFunc, kSlice, kMap:
		return boolV(a.O == nil && b.O == nil)
	case kIface:
		if a.O == nil || b.O == nil {
			return boolV(a.O == nil && b.O == nil)
		}
		x, y := a.O.(*Iface), b.O.(*Iface)
		if x == y {
			if ti(x.T).k != kFloat {
				return boolV(true)
			}
		}
		if !identical(x.T, y.T) {
			return boolV(false)
		}
		switch ti(x.T).k {
		case kSlice, kMap, kFunc:
			m.runtimePanic("comparing uncomparable type " + x.T.String())
		}
		return m.equal(x.V, y.V, x.T)
	case kStruct:
		u := t.Underlying().(*types.Struct)
		x, y := m.structOf(a, t), m.structOf(b, t)
		var cs []*Term
		for j := 0; j < u.NumFields(); j++ {
			if u.Field(j).Name() == "_" {
				continue
			}
			e := m.equal(x.F[j], y.F[j], u.Field(j).Type())
			if e.O == nil {
				if e.N == 0 {
					return boolV(false)
				}
				continue
			}
			cs = append(cs, e.O.(*Term))
		}
		return m.boolT(m.tt.and(cs...))
	case kArray:
		u := t.Underlying().(*types.Array)
		x, y := m.arrayOf(a, t), m.arrayOf(b, t)
		var cs []*Term
		for j := range x.E {
			e := m.equal(x.E[j], y.E[j], u.Elem())
			if e.O == nil {
				if e.N == 0 {
					return boolV(false)
				}
				continue
			}
			cs = append(cs, e.O.(*Term))
		}
		return m.boolT(m.tt.and(cs...))
	}
	m.unsupported("comparison at type " + t.String())
	return Value{}
}

func (m *Machine) boolT(t *Term) Value {
	if t.op == OpConst {
		return Value{N: t.c}
	}
	return Value{O: t}
}

func (m *Machine) ptrEq(a, b Value) bool {
	switch x := a.O.(type) {
	case *DataPtr:
		y, ok := b.O.(*DataPtr)
		return ok && x == y
	}
	return a.O == b.O && (a.O != nil || a.N == b.N)
}

func (m *Machine) strEq(a, b Value) Value {
	if strLen(a) != strLen(b) {
		return boolV(false)
	}
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return boolV(x == y)
		}
	}
	x, y := strBytes(a), strBytes(b)
	var cs []*Term
	bi := tinfo{kUint, 8}
	for i := range x {
		if x[i].O == nil && y[i].O == nil {
			if x[i].N != y[i].N {
				return boolV(false)
			}
			continue
		}
		if x[i].O == y[i].O {
			continue
		}
		e := m.tt.bin(OpEq, m.term(x[i], bi), m.term(y[i], bi))
		if e == m.tt.tFalse {
			return boolV(false)
		}
		cs = append(cs, e)
	}
	return m.boolT(m.tt.and(cs...))
}

// strLess decides a < b, forking on the first difference.
func (m *Machine) strLess(a, b Value) bool {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return x < y
		}
	}
	x, y := strBytes(a), strBytes(b)
	bi := tinfo{kUint, 8}
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] == y[i] {
			continue
		}
		if m.branch(m.boolT(m.tt.bin(OpEq, m.term(x[i], bi), m.term(y[i], bi)))) {
			continue
		}
		return m.branch(m.boolT(m.tt.bin(OpUlt, m.term(x[i], bi), m.term(y[i], bi))))
	}
	return len(x) < len(y)
}

func sliceOf(v Value) []Value {
	if v.O == nil {
		return nil
	}
	return v.O.(*Slice).E
}

var _ = ssa.NaiveForm

// deepEqual is reflect.DeepEqual.
func (m *Machine) deepEqual(a, b Value, t types.Type, seen map[[2]any]bool) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if a.O == nil || b.O == nil {
			return a.O == nil && b.O == nil
		}
		if m.ptrEq(a, b) {
			return true
		}
		p, q := m.ptr(a), m.ptr(b)
		if k := [2]any{p, q}; seen[k] {
			return true
		} else {
			seen[k] = true
		}
		return m.deepEqual(*p, *q, u.Elem(), seen)
	case *types.Interface:
		if a.O == nil || b.O == nil {
			return a.O == nil && b.O == nil
		}
		x, y := a.O.(*Iface), b.O.(*Iface)
		return identical(x.T, y.T) && m.deepEqual(x.V, y.V, x.T, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !m.deepEqual(a.O.(*Struct).F[i], b.O.(*Struct).F[i], u.Field(i).Type(), seen) {
				return false
			}
		}
		return true
	case *types.Slice:
		if (a.O == nil) != (b.O == nil) {
			return false
		}
		x, y := sliceOf(a), sliceOf(b)
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !m.deepEqual(x[i], y[i], u.Elem(), seen) {
				return false
			}
		}
		return true
	case *types.Map:
		if a.O == nil || b.O == nil {
			return a.O == nil && b.O == nil
		}
		x, y := a.O.(*Map), b.O.(*Map)
		if x.n != y.n {
			return false
		}
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := m.mapFind(y, e.k)
			if f == nil || !m.deepEqual(e.v, f.v, u.Elem(), seen) {
				return false
			}
		}
		return true
	case *types.Signature:
		return a.O == nil && b.O == nil
	case *types.Array, *types.Chan:
		return m.branch(m.equal(a, b, t))
	}
	return m.branch(m.equal(a, b, t))
}
