package main

// fmt over Values: symbolic strings pass through %s/%v/%q, symbolic integers
// are rendered from the decimal digits they were built from or concretised.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

type fmtFlags struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

func (f fmtFlags) spec(verb rune) string {
	s := "%"
	if f.plus {
		s += "+"
	}
	if f.minus {
		s += "-"
	}
	if f.sharp {
		s += "#"
	}
	if f.space {
		s += " "
	}
	if f.zero {
		s += "0"
	}
	if f.hasWid {
		s += strconv.Itoa(f.wid)
	}
	if f.hasPrec {
		s += "." + strconv.Itoa(f.prec)
	}
	return s + string(verb)
}

func (m *Machine) sprintf(format Value, args []Value) Value {
	var out []Value
	emit := func(v Value) { out = append(out, strBytes(v)...) }
	fb := strBytes(format)
	argi := 0
	for i := 0; i < len(fb); {
		b := fb[i]
		if b.O != nil {
			if m.branch(m.boolT(m.tt.bin(OpEq, m.term(b, tinfo{kUint, 8}), m.tt.konst(8, '%')))) {
				b = Value{N: '%'}
			} else {
				out = append(out, b)
				i++
				continue
			}
		}
		if b.N != '%' {
			out = append(out, b)
			i++
			continue
		}
		i++
		var fl fmtFlags
	flags:
		for i < len(fb) {
			c := m.concretize(fb[i], tinfo{kUint, 8})
			switch c {
			case '+':
				fl.plus = true
			case '-':
				fl.minus = true
			case '#':
				fl.sharp = true
			case ' ':
				fl.space = true
			case '0':
				fl.zero = true
			default:
				break flags
			}
			i++
		}
		get := func() uint64 { return m.concretize(fb[i], tinfo{kUint, 8}) }
		for i < len(fb) && get() >= '0' && get() <= '9' {
			fl.hasWid = true
			fl.wid = fl.wid*10 + int(get()-'0')
			i++
		}
		if i < len(fb) && get() == '*' {
			m.unsupported("fmt '*' width")
		}
		if i < len(fb) && get() == '.' {
			fl.hasPrec = true
			i++
			for i < len(fb) && get() >= '0' && get() <= '9' {
				fl.prec = fl.prec*10 + int(get()-'0')
				i++
			}
		}
		if i >= len(fb) {
			emit(strV("%!(NOVERB)"))
			break
		}
		verb := rune(get())
		i++
		if verb >= 0x80 {
			m.unsupported("non-ASCII fmt verb")
		}
		if verb == '%' {
			emit(strV("%"))
			continue
		}
		if argi >= len(args) {
			emit(strV("%!" + string(verb) + "(MISSING)"))
			continue
		}
		a := args[argi]
		argi++
		emit(m.fmtArg(a, verb, fl))
	}
	if argi < len(args) {
		emit(strV("%!(EXTRA "))
		for k, a := range args[argi:] {
			if k > 0 {
				emit(strV(", "))
			}
			if a.O == nil {
				emit(strV("<nil>"))
			} else {
				i := a.O.(*Iface)
				emit(strV(m.typeName(i.T) + "="))
				emit(m.fmtValue(i.V, i.T, 'v', fmtFlags{}, 0))
			}
		}
		emit(strV(")"))
	}
	return mkStr(out)
}

func (m *Machine) typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (m *Machine) fmtArg(a Value, verb rune, fl fmtFlags) Value {
	if a.O == nil {
		switch verb {
		case 'v':
			return m.pad(strV("<nil>"), fl)
		case 'T':
			return m.pad(strV("<nil>"), fl)
		}
		return strV("%!" + string(verb) + "(<nil>)")
	}
	if ps, ok := a.O.(*poison); ok {
		m.unsupported("use of uninitialised value: " + ps.why)
	}
	i := a.O.(*Iface)
	switch verb {
	case 'T':
		return m.pad(strV(m.typeName(i.T)), fl)
	case 'p':
		return strV("0xc000010000")
	}
	return m.fmtValue(i.V, i.T, verb, fl, 0)
}

func (m *Machine) pad(v Value, fl fmtFlags) Value {
	if !fl.hasWid {
		return v
	}
	n := strLen(v)
	if s, ok := concStr(v); ok {
		n = len([]rune(s))
	}
	if n >= fl.wid {
		return v
	}
	sp := strV(strings.Repeat(" ", fl.wid-n))
	if fl.minus {
		return strConcat(v, sp)
	}
	return strConcat(sp, v)
}

// callErr calls a String/Error method, mapping a nil-receiver panic to "<nil>".
func (m *Machine) callStringer(f *Fn, v Value, t types.Type) Value {
	if v.O == nil && (ti(t).k == kPtr) {
		var r Value
		ok := true
		depth, sp, buf, fr := m.depth, m.sp, m.stackBuf, m.curFrame
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, is := x.(*ipanic); !is {
						panic(x)
					}
					m.depth, m.sp, m.stackBuf, m.curFrame = depth, sp, buf, fr
					ok = false
				}
			}()
			r = m.call(f, []Value{v}, nil)
		}()
		if !ok {
			return strV("<nil>")
		}
		return r
	}
	return m.call(f, []Value{v}, nil)
}

func (m *Machine) isStringMethod(f *Fn) bool {
	if f == nil || f.ssa == nil {
		return false
	}
	s := f.ssa.Signature
	return s.Params().Len() == 0 && s.Results().Len() == 1 && ti(s.Results().At(0).Type()).k == kString
}

func (m *Machine) fmtValue(v Value, t types.Type, verb rune, fl fmtFlags, depth int) Value {
	if ps, ok := v.O.(*poison); ok {
		m.unsupported("use of uninitialised value: " + ps.why)
	}
	if depth > 20 {
		m.unsupported("fmt recursion too deep")
	}
	k := ti(t)
	if k.k == kIface {
		if v.O == nil {
			if fl.sharp && verb == 'v' {
				return strV(m.typeName(t) + "(nil)")
			}
			return strV("<nil>")
		}
		i := v.O.(*Iface)
		return m.fmtValue(i.V, i.T, verb, fl, depth+1)
	}
	if !fl.sharp || verb != 'v' {
		switch verb {
		case 'v', 's', 'x', 'X', 'q':
			f := m.prog.methodNamed(t, "Error")
			if !m.isStringMethod(f) {
				f = m.prog.methodNamed(t, "String")
			}
			if m.isStringMethod(f) {
				s := m.callStringer(f, v, t)
				return m.fmtString(s, verb, fl)
			}
			if m.prog.methodNamed(t, "Format") != nil {
				n := types.TypeString(t, nil)
				if strings.Contains(n, "kr/pretty") {
					return strV("<pretty>")
				}
				m.unsupported("fmt.Formatter on " + n)
			}
		}
	} else if m.prog.methodNamed(t, "GoString") != nil {
		m.unsupported("GoStringer")
	}
	switch k.k {
	case kBool:
		if verb != 'v' && verb != 't' {
			return strV("%!" + string(verb) + "(bool=?)")
		}
		if m.branch(v) {
			return m.pad(strV("true"), fl)
		}
		return m.pad(strV("false"), fl)
	case kInt, kUint:
		if v.O != nil {
			if !fl.hasWid && !fl.plus && (verb == 'd' || verb == 'v') {
				return m.itoa(v, k)
			}
			if verb == 'c' && !fl.hasWid {
				return mkStr(m.encodeRune(m.fromTerm(m.tt.conv(m.term(v, k), 32, k.k == kInt), tinfo{kInt, 32})))
			}
			v = Value{N: m.concretize(v, k)}
		}
		if verb == 'v' && fl.sharp && k.k == kUint {
			return strV(fmt.Sprintf("%#v", v.N))
		}
		if k.k == kInt {
			return strV2(fmt.Sprintf(fl.spec(verb), m.castInt(v, k)))
		}
		return strV2(fmt.Sprintf(fl.spec(verb), m.castUint(v, k)))
	case kFloat:
		if k.w == 32 {
			return strV2(fmt.Sprintf(fl.spec(verb), float32(f64(v))))
		}
		return strV2(fmt.Sprintf(fl.spec(verb), f64(v)))
	case kComplex:
		return strV2(fmt.Sprintf(fl.spec(verb), cplx(v)))
	case kString:
		return m.fmtString(v, verb, fl)
	case kPtr:
		if v.O == nil {
			if fl.sharp && verb == 'v' {
				return strV("(" + m.typeName(t) + ")(nil)")
			}
			if verb == 'v' {
				return strV("<nil>")
			}
			return strV("%!" + string(verb) + "(" + m.typeName(t) + "=<nil>)")
		}
		if depth == 0 {
			et := deref(t)
			switch ti(et).k {
			case kStruct, kArray, kSlice, kMap:
				return strConcat(strV("&"), m.fmtValue(m.load(v, et), et, verb, fl, depth+1))
			}
		}
		return strV("0xc000010000")
	case kUnsafePtr, kChan, kFunc:
		if v.O == nil {
			return strV("<nil>")
		}
		return strV("0xc000010000")
	case kStruct:
		u := t.Underlying().(*types.Struct)
		s := m.structOf(v, t)
		out := strV("{")
		if fl.sharp && verb == 'v' {
			out = strV(m.typeName(t) + "{")
		}
		for j := 0; j < u.NumFields(); j++ {
			if j > 0 {
				if fl.sharp && verb == 'v' {
					out = strConcat(out, strV(", "))
				} else {
					out = strConcat(out, strV(" "))
				}
			}
			if fl.plus || fl.sharp {
				out = strConcat(out, strV(u.Field(j).Name()+":"))
			}
			ft := u.Field(j).Type()
			fv := s.F[j]
			if !u.Field(j).Exported() {
				out = strConcat(out, m.fmtNoMethods(fv, ft, verb, fl, depth+1))
			} else {
				out = strConcat(out, m.fmtValue(fv, ft, verb, fl, depth+1))
			}
		}
		return strConcat(out, strV("}"))
	case kSlice, kArray:
		var E []Value
		var et types.Type
		if k.k == kSlice {
			E = sliceOf(v)
			et = t.Underlying().(*types.Slice).Elem()
		} else {
			E = m.arrayOf(v, t).E
			et = t.Underlying().(*types.Array).Elem()
		}
		if ti(et).w == 8 && ti(et).k == kUint && (verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
			return m.fmtString(mkStr(append([]Value(nil), E...)), verb, fl)
		}
		out := strV("[")
		sep := strV(" ")
		end := strV("]")
		if fl.sharp && verb == 'v' {
			if k.k == kSlice && v.O == nil {
				return strV(m.typeName(t) + "(nil)")
			}
			out = strV(m.typeName(t) + "{")
			sep, end = strV(", "), strV("}")
		}
		for j := range E {
			if j > 0 {
				out = strConcat(out, sep)
			}
			out = strConcat(out, m.fmtValue(E[j], et, verb, fl, depth+1))
		}
		return strConcat(out, end)
	case kMap:
		u := t.Underlying().(*types.Map)
		out := strV("map[")
		if mp, ok := v.O.(*Map); ok {
			ents := append([]*mapEntry(nil), mp.ents...)
			m.sortEntries(ents, u.Key())
			for j, e := range ents {
				if j > 0 {
					out = strConcat(out, strV(" "))
				}
				out = strConcat(out, m.fmtValue(e.k, u.Key(), verb, fl, depth+1))
				out = strConcat(out, strV(":"))
				out = strConcat(out, m.fmtValue(e.v, u.Elem(), verb, fl, depth+1))
			}
		}
		return strConcat(out, strV("]"))
	}
	m.unsupported("fmt of type " + t.String())
	return Value{}
}

func (m *Machine) fmtNoMethods(v Value, t types.Type, verb rune, fl fmtFlags, depth int) Value {
	switch ti(t).k {
	case kPtr, kFunc, kChan, kUnsafePtr:
		if v.O == nil {
			return strV("<nil>")
		}
		return strV("0xc000010000")
	}
	return m.fmtValue(v, t.Underlying(), verb, fl, depth)
}

func (m *Machine) sortEntries(ents []*mapEntry, kt types.Type) {
	i := ti(kt)
	sort.SliceStable(ents, func(a, b int) bool {
		switch i.k {
		case kString:
			return m.strLess(ents[a].k, ents[b].k)
		case kInt:
			return int64(ents[a].k.N) < int64(ents[b].k.N)
		case kUint:
			return ents[a].k.N < ents[b].k.N
		}
		return false
	})
}

func (m *Machine) castInt(v Value, k tinfo) any {
	switch k.w {
	case 8:
		return int8(v.N)
	case 16:
		return int16(v.N)
	case 32:
		return int32(v.N)
	}
	return int64(v.N)
}
func (m *Machine) castUint(v Value, k tinfo) any {
	switch k.w {
	case 8:
		return uint8(v.N)
	case 16:
		return uint16(v.N)
	case 32:
		return uint32(v.N)
	}
	return v.N
}

func (m *Machine) fmtString(s Value, verb rune, fl fmtFlags) Value {
	if c, ok := concStr(s); ok {
		return strV2(fmt.Sprintf(fl.spec(verb), c))
	}
	switch verb {
	case 's', 'v':
		if verb == 'v' && fl.sharp {
			return m.pad(m.call(m.prog.fnByName("strconv.Quote"), []Value{s}, nil), fl)
		}
		if fl.hasPrec {
			m.unsupported("precision on symbolic string")
		}
		return m.pad(s, fl)
	case 'q':
		if fl.sharp || fl.plus {
			m.unsupported("%#q on symbolic string")
		}
		return m.pad(m.call(m.prog.fnByName("strconv.Quote"), []Value{s}, nil), fl)
	}
	m.unsupported("verb " + string(verb) + " on symbolic string")
	return Value{}
}

// itoa renders a symbolic integer in decimal.
func (m *Machine) itoa(v Value, k tinfo) Value {
	t, ok := v.O.(*Term)
	if !ok {
		if k.k == kInt {
			return strV(strconv.FormatInt(int64(v.N), 10))
		}
		return strV(strconv.FormatUint(v.N, 10))
	}
	if d := m.digitsOf(t, k); d.O != nil {
		return d
	}
	n := m.concretize(v, k)
	if k.k == kInt {
		return strV(strconv.FormatInt(int64(n), 10))
	}
	return strV(strconv.FormatUint(n, 10))
}

// decEnt: the text is the decimal of the term it is registered for, read as
// signed if neg and as unsigned otherwise.
type decEnt struct {
	s   Value
	neg bool
}

// digitsOf returns the registered decimal of a term read as k says, if the
// text is that for every value the term can have.
func (m *Machine) digitsOf(t *Term, k tinfo) Value {
	if d, ok := m.decimals[t]; ok {
		if d.neg == (k.k == kInt) || !d.neg && m.nonneg(t) {
			return d.s
		}
		return Value{}
	}
	switch t.op {
	case OpZext:
		// same unsigned value, never negative
		return m.digitsOf(t.a[0], tinfo{k: kUint})
	case OpSext:
		if k.k == kInt || m.nonneg(t.a[0]) {
			return m.digitsOf(t.a[0], tinfo{k: kInt})
		}
	}
	return Value{}
}

func (m *Machine) nonneg(t *Term) bool {
	_, h := m.rng(t)
	return h <= mask(t.w)>>1
}

func (m *Machine) sprint(args []Value, ln bool) Value {
	var out Value
	prevStr := false
	for i, a := range args {
		isStr := false
		if a.O != nil {
			if x, ok := a.O.(*Iface); ok {
				isStr = ti(x.T).k == kString
			}
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = strConcat(out, strV(" "))
		}
		out = strConcat(out, m.fmtArg(a, 'v', fmtFlags{}))
		prevStr = isStr
	}
	if ln {
		out = strConcat(out, strV("\n"))
	}
	return out
}

// concText renders a value under a model (for traces compared with native runs).
func (m *Machine) concText(v Value, t types.Type, model map[*Var]uint64) string {
	k := ti(t)
	switch k.k {
	case kIface:
		if v.O == nil {
			return "nil"
		}
		i := v.O.(*Iface)
		return m.concText(i.V, i.T, model)
	case kBool:
		return strconv.FormatBool(m.concByte(v, model) != 0)
	case kInt:
		x := m.concByte(v, model)
		return strconv.FormatInt(int64(k.norm(x)), 10)
	case kUint:
		return strconv.FormatUint(k.norm(m.concByte(v, model)), 10)
	case kString:
		bs := strBytes(v)
		buf := make([]byte, len(bs))
		for i, b := range bs {
			buf[i] = byte(m.concByte(b, model))
		}
		return strconv.Quote(string(buf))
	case kSlice:
		et := t.Underlying().(*types.Slice).Elem()
		var parts []string
		for _, e := range sliceOf(v) {
			parts = append(parts, m.concText(e, et, model))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case kStruct:
		u := t.Underlying().(*types.Struct)
		s := m.structOf(v, t)
		var parts []string
		for j := 0; j < u.NumFields(); j++ {
			parts = append(parts, m.concText(s.F[j], u.Field(j).Type(), model))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case kFloat:
		return strconv.FormatFloat(f64(v), 'g', -1, 64)
	case kPtr:
		if v.O == nil {
			return "nil"
		}
		et := deref(t)
		return "&" + m.concText(m.load(v, et), et, model)
	}
	return "<" + t.String() + ">"
}

var _ = unicode.MaxRune
