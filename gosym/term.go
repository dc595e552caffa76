package main

// Terms: hash-consed bit-vector / boolean expressions. Terms whose support is a
// single 8-bit variable are kept as 256-entry tables (op OpTab); everything
// else is a structural DAG. Width 0 means Bool.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpTab
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpShl
	OpLShr
	OpAShr
	OpNeg
	OpNot
	OpZext
	OpSext
	OpTrunc
	OpIte
	// boolean results
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBAnd
	OpBOr
	OpBNot
)

var opNames = map[Op]string{OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpNeg: "bvneg", OpNot: "bvnot", OpIte: "ite",
	OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpBAnd: "and", OpBOr: "or", OpBNot: "not"}

type bset [4]uint64

func (s bset) has(i int) bool { return s[i>>6]>>(uint(i)&63)&1 == 1 }
func (s *bset) add(i int)     { s[i>>6] |= 1 << (uint(i) & 63) }
func (s bset) and(t bset) bset {
	return bset{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s bset) or(t bset) bset { return bset{s[0] | t[0], s[1] | t[1], s[2] | t[2], s[3] | t[3]} }
func (s bset) not() bset      { return bset{^s[0], ^s[1], ^s[2], ^s[3]} }
func (s bset) empty() bool    { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s bset) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}

var fullSet = bset{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

type Var struct {
	id   int
	name string
	w    uint8 // width; 8 => byte-like, domain tracked
	init bset  // initial domain (8-bit only)
	lo   uint64
	hi   uint64
	term *Term
}

type Term struct {
	id   uint32
	op   Op
	w    uint8
	a    []*Term
	c    uint64
	v    *Var         // OpVar / OpTab
	tab  *[256]uint64 // OpTab with w>0
	set  bset         // OpTab with w==0
	lo   uint64
	hi   uint64
	vars []*Var // support, sorted by id (not for OpTab/OpVar: v)
	defd uint32 // solver epoch in which it was defined
}

func (t *Term) support() []*Var {
	if t.v != nil {
		return []*Var{t.v}
	}
	return t.vars
}

type tkey struct {
	op         Op
	w          uint8
	c          uint64
	a0, a1, a2 uint32
}
type tabKey struct {
	v *Var
	w uint8
	h string
}

type TermTab struct {
	next   uint32
	cons   map[tkey]*Term
	nary   map[string]*Term
	tabs   map[tabKey]*Term
	sets   map[setKey]*Term
	vars   map[string]*Var
	nvars  int
	tTrue  *Term
	tFalse *Term
}
type setKey struct {
	v *Var
	s bset
}

func newTermTab() *TermTab {
	tt := &TermTab{cons: map[tkey]*Term{}, nary: map[string]*Term{}, tabs: map[tabKey]*Term{}, sets: map[setKey]*Term{}, vars: map[string]*Var{}}
	tt.tFalse = tt.konst(0, 0)
	tt.tTrue = tt.konst(0, 1)
	return tt
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(x uint64, w uint8) int64 {
	if w >= 64 {
		return int64(x)
	}
	sh := 64 - uint(w)
	return int64(x<<sh) >> sh
}

func (tt *TermTab) konst(w uint8, c uint64) *Term {
	c &= mask(w)
	k := tkey{op: OpConst, w: w, c: c}
	if t := tt.cons[k]; t != nil {
		return t
	}
	t := &Term{op: OpConst, w: w, c: c, lo: c, hi: c}
	return tt.intern(k, t)
}
func (tt *TermTab) boolc(b bool) *Term {
	if b {
		return tt.tTrue
	}
	return tt.tFalse
}

func (tt *TermTab) intern(k tkey, t *Term) *Term {
	tt.next++
	t.id = tt.next
	tt.cons[k] = t
	return t
}

// byteVar returns the 8-bit variable of that name with the initial domain.
func (tt *TermTab) byteVar(name string, dom bset) *Term {
	key := fmt.Sprintf("%s|%x", name, dom)
	if v := tt.vars[key]; v != nil {
		return v.term
	}
	v := &Var{id: tt.nvars, name: name, w: 8, init: dom}
	tt.nvars++
	tt.vars[key] = v
	var id [256]uint64
	for i := range id {
		id[i] = uint64(i)
	}
	v.term = tt.mkTab(v, 8, &id)
	return v.term
}
func (tt *TermTab) wideVar(name string, w uint8, lo, hi uint64) *Term {
	key := fmt.Sprintf("%s|%d|%d|%d", name, w, lo, hi)
	if v := tt.vars[key]; v != nil {
		return v.term
	}
	v := &Var{id: tt.nvars, name: name, w: w, lo: lo, hi: hi}
	tt.nvars++
	tt.vars[key] = v
	t := &Term{op: OpVar, w: w, v: v, lo: lo, hi: hi}
	tt.next++
	t.id = tt.next
	v.term = t
	return t
}

func (tt *TermTab) mkTab(v *Var, w uint8, tab *[256]uint64) *Term {
	if w == 0 {
		var s bset
		for i := 0; i < 256; i++ {
			if tab[i] != 0 {
				s.add(i)
			}
		}
		return tt.inSet(v, s)
	}
	m := mask(w)
	first := true
	var lo, hi uint64
	same := true
	var sv uint64
	buf := make([]byte, 0, 256*4)
	for i := 0; i < 256; i++ {
		if !v.init.has(i) {
			tab[i] = 0
			continue
		}
		x := tab[i] & m
		tab[i] = x
		if first {
			lo, hi, sv, first = x, x, x, false
		} else {
			if x < lo {
				lo = x
			}
			if x > hi {
				hi = x
			}
			if x != sv {
				same = false
			}
		}
	}
	if same {
		return tt.konst(w, sv)
	}
	for i := 0; i < 256; i++ {
		x := tab[i]
		for x >= 0x80 {
			buf = append(buf, byte(x)|0x80)
			x >>= 7
		}
		buf = append(buf, byte(x))
	}
	k := tabKey{v, w, string(buf)}
	if t := tt.tabs[k]; t != nil {
		return t
	}
	t := &Term{op: OpTab, w: w, v: v, tab: tab, lo: lo, hi: hi}
	tt.next++
	t.id = tt.next
	tt.tabs[k] = t
	return t
}

func (tt *TermTab) inSet(v *Var, s bset) *Term {
	s = s.and(v.init)
	if s.empty() {
		return tt.tFalse
	}
	if s == v.init {
		return tt.tTrue
	}
	k := setKey{v, s}
	if t := tt.sets[k]; t != nil {
		return t
	}
	t := &Term{op: OpTab, w: 0, v: v, set: s, hi: 1}
	tt.next++
	t.id = tt.next
	tt.sets[k] = t
	return t
}

// val evaluates an OpTab term for byte value i.
func (t *Term) val(i int) uint64 {
	if t.w == 0 {
		if t.set.has(i) {
			return 1
		}
		return 0
	}
	return t.tab[i]
}

func evalOp(op Op, w uint8, aw uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return (x / y) & m
	case OpURem:
		if y == 0 {
			return x
		}
		return (x % y) & m
	case OpSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OpSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OpAnd:
		return x & y
	case OpOr:
		return x | y
	case OpXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	case OpEq:
		return b2u(x == y)
	case OpUlt:
		return b2u(x < y)
	case OpUle:
		return b2u(x <= y)
	case OpSlt:
		return b2u(sext(x, aw) < sext(y, aw))
	case OpSle:
		return b2u(sext(x, aw) <= sext(y, aw))
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func isBoolOp(op Op) bool { return op >= OpEq && op <= OpSle }

func unionVars(a, b []*Var) []*Var {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]*Var, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].id < b[j].id):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].id < a[i].id:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (tt *TermTab) bin(op Op, a, b *Term) *Term {
	w := a.w
	if isBoolOp(op) {
		w = 0
	}
	if a.op == OpConst && b.op == OpConst {
		return tt.konst(w, evalOp(op, w, a.w, a.c, b.c))
	}
	// single-byte-variable folding
	if (a.op == OpTab || a.op == OpConst) && (b.op == OpTab || b.op == OpConst) && (a.v == nil || b.v == nil || a.v == b.v) {
		v := a.v
		if v == nil {
			v = b.v
		}
		var tab [256]uint64
		for i := 0; i < 256; i++ {
			if !v.init.has(i) {
				continue
			}
			x, y := a.c, b.c
			if a.op == OpTab {
				x = a.val(i)
			}
			if b.op == OpTab {
				y = b.val(i)
			}
			tab[i] = evalOp(op, w, a.w, x, y)
		}
		return tt.mkTab(v, w, &tab)
	}
	// ite with constant arms: push constant operand inside (keeps tables small)
	if a.w == 0 && op == OpEq { // boolean equality
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.c == 1 {
				return a
			}
			return tt.not(a)
		}
		return tt.or(tt.and(a, b), tt.and(tt.not(a), tt.not(b)))
	}
	m := mask(a.w)
	switch op {
	case OpAdd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.c == 0 {
				return a
			}
			if a.op == OpAdd && a.a[1].op == OpConst {
				return tt.bin(OpAdd, a.a[0], tt.konst(a.w, a.a[1].c+b.c))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OpSub:
		if a == b {
			return tt.konst(w, 0)
		}
		if b.op == OpConst {
			return tt.bin(OpAdd, a, tt.konst(w, -b.c))
		}
	case OpMul:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
		}
	case OpAnd:
		if a.op == OpConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OpConst {
			if b.c == 0 {
				return b
			}
			if b.c == m {
				return a
			}
			if b.c&(b.c+1) == 0 && a.hi <= b.c {
				return a
			}
		}
	case OpOr, OpXor:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst && b.c == 0 {
			return a
		}
		if a == b {
			if op == OpOr {
				return a
			}
			return tt.konst(w, 0)
		}
	case OpShl, OpLShr, OpAShr:
		if b.op == OpConst {
			if b.c == 0 {
				return a
			}
			if b.c >= uint64(a.w) && op != OpAShr {
				return tt.konst(w, 0)
			}
		}
	case OpUDiv:
		if b.op == OpConst && b.c == 1 {
			return a
		}
	case OpURem:
		if b.op == OpConst && b.c != 0 && a.hi < b.c {
			return a
		}
	case OpSDiv, OpSRem:
		sb := uint64(1) << (a.w - 1)
		if a.hi < sb && b.hi < sb && b.lo > 0 {
			if op == OpSDiv {
				return tt.bin(OpUDiv, a, b)
			}
			return tt.bin(OpURem, a, b)
		}
	case OpEq:
		if a == b {
			return tt.tTrue
		}
		if a.hi < b.lo || b.hi < a.lo {
			return tt.tFalse
		}
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			switch a.op {
			case OpZext:
				return tt.bin(OpEq, a.a[0], tt.konst(a.a[0].w, b.c))
			case OpIte:
				if a.a[1].op == OpConst || a.a[2].op == OpConst {
					return tt.ite(a.a[0], tt.bin(OpEq, a.a[1], b), tt.bin(OpEq, a.a[2], b))
				}
			case OpAdd:
				if a.a[1].op == OpConst {
					return tt.bin(OpEq, a.a[0], tt.konst(a.w, b.c-a.a[1].c))
				}
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OpUlt:
		if a == b || a.lo >= b.hi {
			return tt.tFalse
		}
		if a.hi < b.lo {
			return tt.tTrue
		}
	case OpUle:
		return tt.not(tt.bin(OpUlt, b, a))
	case OpSlt:
		if a == b {
			return tt.tFalse
		}
		sb := uint64(1) << (a.w - 1)
		if a.hi < sb && b.hi < sb {
			return tt.bin(OpUlt, a, b)
		}
		if a.hi < sb && b.lo >= sb {
			return tt.tFalse
		}
		if a.lo >= sb && b.hi < sb {
			return tt.tTrue
		}
	case OpSle:
		return tt.not(tt.bin(OpSlt, b, a))
	}
	k := tkey{op: op, w: w, a0: a.id, a1: b.id}
	if op != OpEq && isBoolOp(op) {
		k.c = uint64(a.w)
	}
	if t := tt.cons[k]; t != nil {
		return t
	}
	t := &Term{op: op, w: w, a: []*Term{a, b}, vars: unionVars(a.support(), b.support()), lo: 0, hi: mask(w)}
	// intervals
	switch op {
	case OpAdd:
		if s, c := bits.Add64(a.hi, b.hi, 0); c == 0 && s <= m {
			t.lo, t.hi = a.lo+b.lo, s
		}
	case OpSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OpMul:
		if h, l := bits.Mul64(a.hi, b.hi); h == 0 && l <= m {
			t.lo, t.hi = a.lo*b.lo, l
		}
	case OpAnd:
		t.hi = min(a.hi, b.hi)
	case OpOr, OpXor:
		x := a.hi | b.hi
		if x != 0 {
			t.hi = mask(uint8(64 - bits.LeadingZeros64(x)))
		}
	case OpURem:
		if b.op == OpConst && b.c > 0 {
			t.hi = min(a.hi, b.c-1)
		}
	case OpUDiv:
		if b.op == OpConst && b.c > 0 {
			t.lo, t.hi = a.lo/b.c, a.hi/b.c
		}
	case OpLShr:
		if b.op == OpConst && b.c < 64 {
			t.lo, t.hi = a.lo>>b.c, a.hi>>b.c
		}
	case OpShl:
		if b.op == OpConst && b.c < 64 && a.hi<<b.c>>b.c == a.hi && a.hi<<b.c <= m {
			t.lo, t.hi = a.lo<<b.c, a.hi<<b.c
		}
	}
	return tt.intern(k, t)
}

func (tt *TermTab) mapTab(t *Term, w uint8, f func(uint64) uint64) *Term {
	var tab [256]uint64
	for i := 0; i < 256; i++ {
		if t.v.init.has(i) {
			tab[i] = f(t.val(i))
		}
	}
	return tt.mkTab(t.v, w, &tab)
}

func (tt *TermTab) neg(a *Term) *Term {
	return tt.bin(OpSub, tt.konst(a.w, 0), a)
}
func (tt *TermTab) bvnot(a *Term) *Term {
	return tt.bin(OpXor, a, tt.konst(a.w, mask(a.w)))
}

func (tt *TermTab) un(op Op, w uint8, a *Term) *Term {
	k := tkey{op: op, w: w, a0: a.id}
	if t := tt.cons[k]; t != nil {
		return t
	}
	t := &Term{op: op, w: w, a: []*Term{a}, vars: a.support(), hi: mask(w)}
	switch op {
	case OpZext:
		t.lo, t.hi = a.lo, a.hi
	case OpTrunc:
		if a.hi <= mask(w) {
			t.lo, t.hi = a.lo, a.hi
		}
	case OpBNot:
		t.hi = 1
	}
	return tt.intern(k, t)
}

// conv resizes a bit-vector term.
func (tt *TermTab) conv(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	f := func(x uint64) uint64 {
		if w > a.w && signed {
			return uint64(sext(x, a.w)) & mask(w)
		}
		return x & mask(w)
	}
	if a.op == OpConst {
		return tt.konst(w, f(a.c))
	}
	if a.op == OpTab {
		return tt.mapTab(a, w, f)
	}
	if w < a.w {
		if a.op == OpZext || a.op == OpSext {
			if a.a[0].w >= w {
				return tt.conv(a.a[0], w, false)
			}
			return tt.conv(a.a[0], w, a.op == OpSext)
		}
		if a.op == OpIte && (a.a[1].op == OpConst || a.a[2].op == OpConst) {
			return tt.ite(a.a[0], tt.conv(a.a[1], w, signed), tt.conv(a.a[2], w, signed))
		}
		return tt.un(OpTrunc, w, a)
	}
	if signed && a.hi >= uint64(1)<<(a.w-1) {
		return tt.un(OpSext, w, a)
	}
	if a.op == OpZext {
		return tt.conv(a.a[0], w, false)
	}
	return tt.un(OpZext, w, a)
}

func (tt *TermTab) not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return tt.boolc(a.c == 0)
	case OpTab:
		return tt.inSet(a.v, a.set.not())
	case OpBNot:
		return a.a[0]
	}
	return tt.un(OpBNot, 0, a)
}

func (tt *TermTab) and(xs ...*Term) *Term { return tt.naryBool(OpBAnd, xs) }
func (tt *TermTab) or(xs ...*Term) *Term  { return tt.naryBool(OpBOr, xs) }

func (tt *TermTab) naryBool(op Op, xs []*Term) *Term {
	isAnd := op == OpBAnd
	absorb, unit := tt.tFalse, tt.tTrue
	if !isAnd {
		absorb, unit = unit, absorb
	}
	var flat []*Term
	var sets map[*Var]bset
	var order []*Var
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == absorb {
			return false
		}
		if t == unit || seen[t] {
			return true
		}
		if t.op == op {
			for _, x := range t.a {
				if !walk(x) {
					return false
				}
			}
			return true
		}
		if t.op == OpTab {
			if sets == nil {
				sets = map[*Var]bset{}
			}
			if s, ok := sets[t.v]; ok {
				if isAnd {
					sets[t.v] = s.and(t.set)
				} else {
					sets[t.v] = s.or(t.set)
				}
			} else {
				sets[t.v] = t.set
				order = append(order, t.v)
			}
			return true
		}
		seen[t] = true
		flat = append(flat, t)
		return true
	}
	for _, x := range xs {
		if !walk(x) {
			return absorb
		}
	}
	for _, v := range order {
		t := tt.inSet(v, sets[v])
		if t == absorb {
			return absorb
		}
		if t != unit {
			flat = append(flat, t)
		}
	}
	if len(flat) == 0 {
		return unit
	}
	if len(flat) == 1 {
		return flat[0]
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	for i, t := range flat {
		if seen[tt.not(t)] {
			return absorb
		}
		_ = i
	}
	var sb strings.Builder
	sb.WriteByte(byte(op))
	var vars []*Var
	for _, t := range flat {
		fmt.Fprintf(&sb, ",%d", t.id)
		vars = unionVars(vars, t.support())
	}
	k := sb.String()
	if t := tt.nary[k]; t != nil {
		return t
	}
	t := &Term{op: op, w: 0, a: flat, vars: vars, hi: 1}
	tt.next++
	t.id = tt.next
	tt.nary[k] = t
	return t
}

func (tt *TermTab) ite(c, a, b *Term) *Term {
	if c.op == OpConst {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return tt.or(tt.and(c, a), tt.and(tt.not(c), b))
	}
	if c.op == OpTab && (a.op == OpConst || a.op == OpTab && a.v == c.v) && (b.op == OpConst || b.op == OpTab && b.v == c.v) {
		var tab [256]uint64
		for i := 0; i < 256; i++ {
			if !c.v.init.has(i) {
				continue
			}
			t := b
			if c.set.has(i) {
				t = a
			}
			if t.op == OpConst {
				tab[i] = t.c
			} else {
				tab[i] = t.val(i)
			}
		}
		return tt.mkTab(c.v, a.w, &tab)
	}
	k := tkey{op: OpIte, w: a.w, a0: c.id, a1: a.id, a2: b.id}
	if t := tt.cons[k]; t != nil {
		return t
	}
	t := &Term{op: OpIte, w: a.w, a: []*Term{c, a, b}, vars: unionVars(c.support(), unionVars(a.support(), b.support())), lo: min(a.lo, b.lo), hi: max(a.hi, b.hi)}
	return tt.intern(k, t)
}

// selectTable builds table[idx] for a concrete-valued table and symbolic index.
func (tt *TermTab) eval(t *Term, model map[*Var]uint64) uint64 {
	memo := map[*Term]uint64{}
	var ev func(t *Term) uint64
	ev = func(t *Term) uint64 {
		if t.op == OpConst {
			return t.c
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r uint64
		switch t.op {
		case OpVar:
			r = model[t.v]
		case OpTab:
			r = t.val(int(model[t.v] & 255))
		case OpZext, OpTrunc:
			r = ev(t.a[0]) & mask(t.w)
		case OpSext:
			r = uint64(sext(ev(t.a[0]), t.a[0].w)) & mask(t.w)
		case OpIte:
			if ev(t.a[0]) != 0 {
				r = ev(t.a[1])
			} else {
				r = ev(t.a[2])
			}
		case OpBAnd:
			r = 1
			for _, x := range t.a {
				if ev(x) == 0 {
					r = 0
					break
				}
			}
		case OpBOr:
			for _, x := range t.a {
				if ev(x) != 0 {
					r = 1
					break
				}
			}
		case OpBNot:
			r = 1 - ev(t.a[0])
		default:
			r = evalOp(t.op, t.w, t.a[0].w, ev(t.a[0]), ev(t.a[1]))
		}
		memo[t] = r
		return r
	}
	return ev(t)
}

// debug renders a term for diagnosis, to a depth.
func (t *Term) debug(depth int) string {
	switch t.op {
	case OpConst:
		return fmt.Sprint(t.c)
	case OpVar:
		return t.v.name
	case OpTab:
		return "tab(" + t.v.name + ")"
	}
	if depth == 0 {
		return "…"
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d.%d", t.op, t.w)
	}
	s := "(" + n
	for _, a := range t.a {
		s += " " + a.debug(depth-1)
	}
	return s + ")"
}
