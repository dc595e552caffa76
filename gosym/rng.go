package main

import "math/bits"

// Unsigned intervals of terms, from the current domains of the byte variables.
// They only decide comparisons of sums and products too wide for a table, such
// as the value of a numeral against the limits of its type.

type rngEnt struct{ lo, hi uint64 }

func (m *Machine) rng(t *Term) (uint64, uint64) {
	full := func() (uint64, uint64) { return 0, mask(t.w) }
	switch t.op {
	case OpConst:
		return t.c & mask(t.w), t.c & mask(t.w)
	case OpTab, OpVar:
	default:
		if e, ok := m.rngMemo[t]; ok {
			return e.lo, e.hi
		}
	}
	lo, hi := full()
	switch t.op {
	case OpTab:
		d := m.domOf(t.v).dom
		first := true
		for i := 0; i < 256; i++ {
			if d.has(i) {
				v := t.val(i) & mask(t.w)
				if first || v < lo {
					lo = v
				}
				if first || v > hi {
					hi = v
				}
				first = false
			}
		}
		return lo, hi
	case OpVar:
		if t.v.w != 8 {
			return t.v.lo, t.v.hi
		}
		return lo, hi
	case OpAdd:
		a, b := m.rng2(t)
		s, c := bits.Add64(a.hi, b.hi, 0)
		if c == 0 && s <= mask(t.w) {
			lo, hi = a.lo+b.lo, s
		}
	case OpSub:
		a, b := m.rng2(t)
		if a.lo >= b.hi {
			lo, hi = a.lo-b.hi, a.hi-b.lo
		}
	case OpMul:
		a, b := m.rng2(t)
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= mask(t.w) {
			lo, hi = a.lo*b.lo, l
		}
	case OpZext:
		lo, hi = m.rng(t.a[0])
	case OpSext:
		l, h := m.rng(t.a[0])
		if h <= mask(t.a[0].w)>>1 {
			lo, hi = l, h
		}
	case OpTrunc:
		l, h := m.rng(t.a[0])
		if h <= mask(t.w) {
			lo, hi = l, h
		}
	case OpIte:
		al, ah := m.rng(t.a[1])
		bl, bh := m.rng(t.a[2])
		lo, hi = min(al, bl), max(ah, bh)
	}
	m.rngMemo[t] = rngEnt{lo, hi}
	return lo, hi
}

func (m *Machine) rng2(t *Term) (a, b rngEnt) {
	a.lo, a.hi = m.rng(t.a[0])
	b.lo, b.hi = m.rng(t.a[1])
	return
}

// byRange decides a comparison: 0, 1 or -1 (unknown).
func (m *Machine) byRange(t *Term) int8 {
	x, y := t.a[0], t.a[1]
	if x.w == 0 || x.op <= OpTab && y.op <= OpTab {
		return -1
	}
	r := int8(-1)
	a, b := m.rng2(t)
	half := mask(x.w) >> 1
	switch t.op {
	case OpEq:
		if a.hi < b.lo || b.hi < a.lo {
			r = 0
		}
	case OpSlt, OpSle, OpUlt, OpUle:
		if (t.op == OpSlt || t.op == OpSle) && (a.hi > half || b.hi > half) {
			return -1
		}
		strict := t.op == OpUlt || t.op == OpSlt
		switch {
		case strict && a.hi < b.lo, !strict && a.hi <= b.lo:
			r = 1
		case strict && a.lo >= b.hi, !strict && a.lo > b.hi:
			r = 0
		case strict && x.op == OpAdd && (x.a[0] == y || x.a[1] == y):
			// x+d < x only if the sum wraps
			p, q := m.rng2(x)
			if s, c := bits.Add64(p.hi, q.hi, 0); c == 0 && s <= mask(x.w) {
				r = 0
			}
		}
	}
	if r >= 0 {
		m.rangedS[t] = true
	}
	return r
}
