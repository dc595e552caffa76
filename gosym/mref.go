package main

import (
	"go/types"
	"reflect"
)

const mrefPkg = verifRoot + "/rt/mref."
const jsonPkg = verifRoot + "/rt/jsonsub."

func mkind(t types.Type) byte {
	switch ti(t).k {
	case kInt:
		return 'i'
	case kUint:
		return 'u'
	case kBool:
		return 'b'
	case kString:
		return 's'
	case kFloat:
		return 'f'
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		return 'l'
	case *types.Pointer:
		return 'p'
	case *types.Struct:
		return 't'
	case *types.Map:
		return 'm'
	}
	return '?'
}

// iv makes an interface value.
func iv(t types.Type, v Value) Value {
	if types.IsInterface(t) {
		return v
	}
	return Value{O: &Iface{T: t, V: v}}
}

func init() {
	redirects["encoding/json.Marshal"] = jsonPkg + "Marshal"
	redirects["encoding/json.Unmarshal"] = jsonPkg + "Unmarshal"
	face := func(v Value) *Iface {
		i, _ := v.O.(*Iface)
		return i
	}
	elem := func(t types.Type) types.Type {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return u.Elem()
		case *types.Slice:
			return u.Elem()
		}
		return nil
	}
	b := func(c byte) Value { return Value{N: uint64(c)} }
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if i := face(a[0]); i != nil {
			return b(mkind(i.T))
		}
		return b(0)
	}, mrefPkg+"Kind")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if i := face(a[0]); i != nil {
			if e := elem(i.T); e != nil {
				return b(mkind(e))
			}
		}
		return b(0)
	}, mrefPkg+"ElemKind")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		t := face(a[0]).T
		if l, ok := t.Underlying().(*types.Slice); ok {
			t = l.Elem()
		}
		return intV(int64(ti(t).w))
	}, mrefPkg+"Bits")
	num := func(out tinfo) native {
		return func(m *Machine, fn *Fn, a []Value) Value {
			i := face(a[0])
			f := ti(i.T)
			if i.V.O == nil {
				return Value{N: f.norm(i.V.N)}
			}
			return m.fromTerm(m.tt.conv(m.term(i.V, f), 64, f.k == kInt), out)
		}
	}
	reg(num(tinfo{kInt, 64}), mrefPkg+"Int")
	reg(num(tinfo{kUint, 64}), mrefPkg+"Uint")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return face(a[0]).V }, mrefPkg+"Bool", mrefPkg+"Str", mrefPkg+"Float")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return boolV(face(a[0]).V.O == nil) }, mrefPkg+"IsNil")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		i := face(a[0])
		if st, ok := i.T.Underlying().(*types.Struct); ok {
			return intV(int64(st.NumFields()))
		}
		return intV(int64(len(sliceOf(i.V))))
	}, mrefPkg+"Len")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		i := face(a[0])
		k := int(a[1].N)
		if st, ok := i.T.Underlying().(*types.Struct); ok {
			return iv(st.Field(k).Type(), m.copyVal(m.structOf(i.V, i.T).F[k]))
		}
		return iv(elem(i.T), m.copyVal(sliceOf(i.V)[k]))
	}, mrefPkg+"At")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		st := face(a[0]).T.Underlying().(*types.Struct)
		k := int(a[1].N)
		f := st.Field(k)
		if !f.Exported() {
			return tupleV(strV("-"), strV(f.Name()))
		}
		return tupleV(strV(reflect.StructTag(st.Tag(k)).Get("json")), strV(f.Name()))
	}, mrefPkg+"Tag")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		i := face(a[0])
		return iv(elem(i.T), m.copyVal(m.load(i.V, elem(i.T))))
	}, mrefPkg+"Elem")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		i := face(a[0])
		k := int(a[1].N)
		et := elem(i.T)
		p := m.ptr(i.V)
		if st, ok := et.Underlying().(*types.Struct); ok {
			s, ok := p.O.(*Struct)
			if !ok {
				z := m.zero(et)
				m.set(p, z)
				s = z.O.(*Struct)
			}
			return iv(types.NewPointer(st.Field(k).Type()), Value{O: &s.F[k]})
		}
		return iv(types.NewPointer(elem(et)), Value{O: &sliceOf(*p)[k]})
	}, mrefPkg+"AtPtr")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		i := face(a[0])
		et := elem(i.T)
		s := m.newSlot()
		*s = m.zero(elem(et))
		m.store(m.ptr(i.V), Value{O: s})
		return iv(et, Value{O: s})
	}, mrefPkg+"Alloc")
	setNum := func(in tinfo) native {
		return func(m *Machine, fn *Fn, a []Value) Value {
			i := face(a[0])
			t := ti(elem(i.T))
			v := a[1]
			if v.O == nil {
				v = Value{N: t.norm(v.N)}
			} else {
				v = m.fromTerm(m.tt.conv(m.term(v, in), t.w, in.k == kInt), t)
			}
			m.store(m.ptr(i.V), v)
			return Value{}
		}
	}
	reg(setNum(tinfo{kInt, 64}), mrefPkg+"SetInt")
	reg(setNum(tinfo{kUint, 64}), mrefPkg+"SetUint")
	reg(func(m *Machine, fn *Fn, a []Value) Value { m.store(m.ptr(face(a[0]).V), a[1]); return Value{} }, mrefPkg+"SetBool", mrefPkg+"SetStr", mrefPkg+"SetFloat")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		i := face(a[0])
		m.store(m.ptr(i.V), m.zero(elem(i.T)))
		return Value{}
	}, mrefPkg+"SetNil")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		i := face(a[0])
		n := int(a[1].N)
		et := elem(elem(i.T))
		s := m.slots(n)
		for j := range s {
			s[j] = m.zero(et)
		}
		m.store(m.ptr(i.V), Value{O: &Slice{E: s}})
		return Value{}
	}, mrefPkg+"SetLen")
	mapOf := func(t types.Type) *types.Map { return t.Underlying().(*types.Map) }
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		i := face(a[0])
		kt := mapOf(i.T).Key()
		var out []Value
		if mp, ok := i.V.O.(*Map); ok {
			for _, e := range mp.ents {
				if !e.dead {
					out = append(out, iv(kt, m.copyVal(e.k)))
				}
			}
		}
		s := m.slots(len(out))
		copy(s, out)
		return Value{O: &Slice{E: s}}
	}, mrefPkg+"Keys")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		i := face(a[0])
		return iv(mapOf(i.T).Elem(), m.copyVal(m.mapFind(i.V.O.(*Map), face(a[1]).V).v))
	}, mrefPkg+"Index")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		et := mapOf(elem(face(a[0]).T)).Elem()
		s := m.newSlot()
		*s = m.zero(et)
		return Value{O: &Iface{T: types.NewPointer(et), V: Value{O: s}}}
	}, mrefPkg+"Room")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		i := face(a[0])
		mt := mapOf(elem(i.T))
		mp, ok := m.load(i.V, elem(i.T)).O.(*Map)
		if !ok {
			mp = m.newMap(mt.Key())
			m.store(m.ptr(i.V), Value{O: mp})
		}
		if a[1].O == nil {
			return Value{}
		}
		k := face(a[1]).V
		if t := ti(mt.Key()); t.k == kInt || t.k == kUint {
			if k.O == nil {
				k = Value{N: t.norm(k.N)}
			} else {
				k = m.fromTerm(m.tt.conv(m.term(k, tinfo{kInt, 64}), t.w, true), t)
			}
		}
		m.mapSet(mp, k, m.load(face(a[2]).V, mt.Elem()))
		return Value{}
	}, mrefPkg+"Put")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		t := mapOf(elem(face(a[0]).T)).Key()
		return tupleV(Value{N: uint64(mkind(t))}, intV(int64(ti(t).w)))
	}, mrefPkg+"KeyKind")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		i := face(a[0])
		return boolV(i != nil && m.prog.methodNamed(i.T, m.conc(a[1], "method")) != nil)
	}, mrefPkg+"HasMethod")
}

func init() {
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if a[0].O == nil {
			m.runtimePanic("cannot create context from nil parent")
		}
		if a[1].O == nil {
			m.runtimePanic("nil key")
		}
		if !types.Comparable(a[1].O.(*Iface).T) {
			m.runtimePanic("key is not comparable")
		}
		t := m.prog.typeByName("context", "valueCtx")
		v := m.zero(t)
		copy(v.O.(*Struct).F, a[:3])
		s := m.newSlot()
		*s = v
		return Value{O: &Iface{T: types.NewPointer(t), V: Value{O: s}}}
	}, "context.WithValue")
}
