package main

// A text/template executor over Values. Parsing is text/template/parse itself;
// execution follows text/template/exec.go.

import (
	"fmt"
	"go/types"
	"strings"
	"text/template/parse"
)

type tmplState struct {
	name   string
	funcs  map[string]Value // iface values holding functions
	common *tmplCommon
}

type tmplCommon struct {
	trees map[string]*parse.Tree
	funcs map[string]Value
	strct bool // missingkey=error
}

type tval struct {
	v  Value
	t  types.Type
	p  *Value // address when addressable
	ok bool   // false: no value (invalid)
}

type texec struct {
	m    *Machine
	c    *tmplCommon
	out  []Value
	vars []tvar
}
type tvar struct {
	name string
	v    tval
}
type texecErr struct{ msg Value }
type tctl int

const (
	tBreak    tctl = 1
	tContinue tctl = 2
)

var tmplBuiltins = map[string]any{"and": 0, "break": 0, "call": 0, "html": 0, "index": 0, "slice": 0, "js": 0, "len": 0, "not": 0, "or": 0, "print": 0, "printf": 0, "println": 0, "urlquery": 0,
	"eq": 0, "ge": 0, "gt": 0, "le": 0, "lt": 0, "ne": 0}

func (m *Machine) tmplOf(v Value) *tmplState {
	p := m.ptr(v)
	if t := m.tmpls[p]; t != nil {
		return t
	}
	t := &tmplState{common: &tmplCommon{trees: map[string]*parse.Tree{}, funcs: map[string]Value{}}}
	m.tmpls[p] = t
	return t
}

func (m *Machine) newTmpl(t types.Type, name string, c *tmplCommon) Value {
	s := m.newSlot()
	*s = m.zero(t)
	if c == nil {
		c = &tmplCommon{trees: map[string]*parse.Tree{}, funcs: map[string]Value{}}
	}
	m.tmpls[s] = &tmplState{name: name, common: c}
	return Value{O: s}
}

func init() {
	tt := func(fn *Fn) types.Type { return fn.prog.typeByName("text/template", "Template") }
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		return m.newTmpl(tt(fn), m.conc(a[0], "template name"), nil)
	}, "text/template.New")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		return m.newTmpl(tt(fn), m.conc(a[1], "template name"), m.tmplOf(a[0]).common)
	}, "(*text/template.Template).New")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return strV2(m.tmplOf(a[0]).name) }, "(*text/template.Template).Name")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		t := m.tmplOf(a[0])
		for _, o := range sliceOf(a[1]) {
			if s, _ := concStr(o); s == "missingkey=error" {
				t.common.strct = true
			} else if s != "missingkey=default" && s != "missingkey=invalid" {
				m.unsupported("template option " + s)
			}
		}
		return a[0]
	}, "(*text/template.Template).Option")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		t := m.tmplOf(a[0])
		if mp, ok := a[1].O.(*Map); ok {
			for _, e := range mp.ents {
				k, _ := concStr(e.k)
				t.common.funcs[k] = e.v
			}
		}
		return a[0]
	}, "(*text/template.Template).Funcs")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		t := m.tmplOf(a[0])
		text := m.conc(a[1], "template text")
		fm := map[string]any{}
		key := "tmpl:" + t.name + "\x00" + text
		for k := range t.common.funcs {
			fm[k] = 0
		}
		type pres struct {
			trees map[string]*parse.Tree
			err   error
		}
		var r pres
		if x, ok := m.prog.parseCache.Load(key); ok {
			r = x.(pres)
		} else {
			r.trees, r.err = parse.Parse(t.name, text, "", "", fm, tmplBuiltins)
			if r.err == nil {
				m.prog.parseCache.Store(key, r)
			}
		}
		if r.err != nil {
			return tupleV(Value{}, m.mkErr(r.err.Error()))
		}
		for n, tr := range r.trees {
			if old := t.common.trees[n]; old != nil && parse.IsEmptyTree(tr.Root) {
				continue
			}
			t.common.trees[n] = tr
		}
		return tupleV(a[0], Value{})
	}, "(*text/template.Template).Parse")
	exec := func(m *Machine, fn *Fn, tv Value, name string, w, data Value) (res Value) {
		t := m.tmplOf(tv)
		tr := t.common.trees[name]
		if tr == nil || tr.Root == nil {
			return m.mkErr(fmt.Sprintf("template: %s: %q is an incomplete or empty template", t.name, name))
		}
		e := &texec{m: m, c: t.common}
		d := tval{}
		if data.O != nil {
			i := data.O.(*Iface)
			d = tval{v: i.V, t: i.T, ok: true}
		}
		e.vars = []tvar{{"$", d}}
		var errv Value
		func() {
			depth, sp, buf, fr := m.depth, m.sp, m.stackBuf, m.curFrame
			defer func() {
				if r := recover(); r != nil {
					if te, ok := r.(*texecErr); ok {
						m.depth, m.sp, m.stackBuf, m.curFrame = depth, sp, buf, fr
						errv = m.newError(strConcat(strV("template: "+name+": "), te.msg))
						return
					}
					panic(r)
				}
			}()
			e.walk(d, tr.Root)
		}()
		if w.O == nil {
			m.nilDeref()
		}
		if len(e.out) > 0 {
			i := w.O.(*Iface)
			f := m.prog.methodNamed(i.T, "Write")
			r := m.call(f, []Value{i.V, {O: &Slice{E: e.out}}}, nil)
			if errv.O == nil {
				if t, ok := r.O.(Tuple); ok {
					errv = t[1]
				}
			}
		}
		return errv
	}
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		return exec(m, fn, a[0], m.tmplOf(a[0]).name, a[1], a[2])
	}, "(*text/template.Template).Execute")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		return exec(m, fn, a[0], m.conc(a[2], "template name"), a[1], a[3])
	}, "(*text/template.Template).ExecuteTemplate")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		t := m.tmplOf(a[0])
		n := m.conc(a[1], "template name")
		if t.common.trees[n] == nil {
			return Value{}
		}
		return m.newTmpl(tt(fn), n, t.common)
	}, "(*text/template.Template).Lookup")
}

func (e *texec) errorf(f string, a ...any) {
	panic(&texecErr{strV(fmt.Sprintf(f, a...))})
}

func (e *texec) walk(dot tval, n parse.Node) tctl {
	m := e.m
	switch n := n.(type) {
	case *parse.ActionNode:
		v := e.pipeline(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			e.print(v)
		}
	case *parse.BreakNode:
		return tBreak
	case *parse.ContinueNode:
		return tContinue
	case *parse.CommentNode:
	case *parse.IfNode:
		return e.ifOrWith(parse.NodeIf, dot, n.Pipe, n.List, n.ElseList)
	case *parse.WithNode:
		return e.ifOrWith(parse.NodeWith, dot, n.Pipe, n.List, n.ElseList)
	case *parse.ListNode:
		for _, x := range n.Nodes {
			if c := e.walk(dot, x); c != 0 {
				return c
			}
		}
	case *parse.RangeNode:
		return e.rng(dot, n)
	case *parse.TemplateNode:
		tr := e.c.trees[n.Name]
		if tr == nil {
			e.errorf("template %q not defined", n.Name)
		}
		d := e.pipeline(dot, n.Pipe)
		save := e.vars
		e.vars = []tvar{{"$", d}}
		e.walk(d, tr.Root)
		e.vars = save
	case *parse.TextNode:
		e.out = append(e.out, strBytes(strV2(string(n.Text)))...)
	default:
		m.unsupported(fmt.Sprintf("template node %T", n))
	}
	return 0
}

func (e *texec) ifOrWith(k parse.NodeType, dot tval, p *parse.PipeNode, list, els *parse.ListNode) tctl {
	mark := len(e.vars)
	defer func() { e.vars = e.vars[:mark] }()
	v := e.pipeline(dot, p)
	if e.truth(v) {
		if k == parse.NodeWith {
			return e.walk(v, list)
		}
		return e.walk(dot, list)
	}
	if els != nil {
		return e.walk(dot, els)
	}
	return 0
}

func (e *texec) indirectIface(v tval) tval {
	if v.ok && ti(v.t).k == kIface {
		if v.v.O == nil {
			return tval{}
		}
		i := v.v.O.(*Iface)
		return tval{v: i.V, t: i.T, ok: true}
	}
	return v
}

func (e *texec) indirect(v tval) (tval, bool) {
	for v.ok {
		switch ti(v.t).k {
		case kPtr:
			if v.v.O == nil {
				return v, true
			}
			p := e.m.ptr(v.v)
			et := deref(v.t)
			x := *p
			v = tval{v: x, t: et, p: p, ok: true}
		case kIface:
			if v.v.O == nil {
				return v, true
			}
			i := v.v.O.(*Iface)
			v = tval{v: i.V, t: i.T, ok: true}
		default:
			return v, false
		}
	}
	return v, false
}

func (e *texec) truth(v tval) bool {
	if !v.ok {
		return false
	}
	v = e.indirectIface(v)
	if !v.ok {
		return false
	}
	switch k := ti(v.t); k.k {
	case kArray:
		return v.t.Underlying().(*types.Array).Len() > 0
	case kMap:
		mp, ok := v.v.O.(*Map)
		return ok && mp.n > 0
	case kSlice:
		return len(sliceOf(v.v)) > 0
	case kString:
		return strLen(v.v) > 0
	case kBool:
		return e.m.branch(v.v)
	case kInt, kUint:
		if v.v.O == nil {
			return v.v.N != 0
		}
		return !e.m.branch(e.m.equal(v.v, Value{}, v.t))
	case kFloat:
		return f64(v.v) != 0
	case kChan, kFunc, kPtr, kUnsafePtr:
		return v.v.O != nil
	case kStruct:
		return true
	}
	return false
}

func (e *texec) rng(dot tval, r *parse.RangeNode) tctl {
	mark := len(e.vars)
	defer func() { e.vars = e.vars[:mark] }()
	v, _ := e.indirect(e.pipeline(dot, r.Pipe))
	inner := len(e.vars)
	one := func(idx, elem tval) tctl {
		if len(r.Pipe.Decl) > 0 {
			if r.Pipe.IsAssign {
				if len(r.Pipe.Decl) > 1 {
					e.setVar(r.Pipe.Decl[0].Ident[0], idx)
				} else {
					e.setVar(r.Pipe.Decl[0].Ident[0], elem)
				}
			} else if len(r.Pipe.Decl) > 1 {
				e.vars[len(e.vars)-len(r.Pipe.Decl)].v = idx
			} else {
				e.vars[len(e.vars)-1].v = elem
			}
		}
		if len(r.Pipe.Decl) > 1 {
			if r.Pipe.IsAssign {
				e.setVar(r.Pipe.Decl[1].Ident[0], elem)
			} else {
				e.vars[len(e.vars)-1].v = elem
			}
		}
		m := len(e.vars)
		c := e.walk(elem, r.List)
		e.vars = e.vars[:m]
		return c
	}
	_ = inner
	intT := types.Typ[types.Int]
	n := 0
	if v.ok {
		switch ti(v.t).k {
		case kSlice, kArray:
			var E []Value
			var et types.Type
			if ti(v.t).k == kSlice {
				E = sliceOf(v.v)
				et = v.t.Underlying().(*types.Slice).Elem()
			} else {
				E = e.m.arrayOf(v.v, v.t).E
				et = v.t.Underlying().(*types.Array).Elem()
			}
			n = len(E)
			for i := range E {
				if one(tval{v: intV(int64(i)), t: intT, ok: true}, tval{v: E[i], t: et, p: &E[i], ok: true}) == tBreak {
					break
				}
			}
			if n > 0 {
				return 0
			}
		case kMap:
			u := v.t.Underlying().(*types.Map)
			if mp, ok := v.v.O.(*Map); ok && mp.n > 0 {
				ents := append([]*mapEntry(nil), mp.ents...)
				e.m.sortEntries(ents, u.Key())
				for _, x := range ents {
					if one(tval{v: x.k, t: u.Key(), ok: true}, tval{v: x.v, t: u.Elem(), ok: true}) == tBreak {
						break
					}
				}
				return 0
			}
		case kInt, kUint:
			k := int(e.m.concretize(v.v, ti(v.t)))
			for i := 0; i < k; i++ {
				if one(tval{v: intV(int64(i)), t: intT, ok: true}, tval{v: intV(int64(i)), t: intT, ok: true}) == tBreak {
					break
				}
			}
			if k > 0 {
				return 0
			}
		default:
			e.errorf("range can't iterate over %v", v.t)
		}
	}
	if r.ElseList != nil {
		return e.walk(dot, r.ElseList)
	}
	return 0
}

func (e *texec) setVar(name string, v tval) {
	for i := len(e.vars) - 1; i >= 0; i-- {
		if e.vars[i].name == name {
			e.vars[i].v = v
			return
		}
	}
	e.errorf("undefined variable: %s", name)
}
func (e *texec) getVar(name string) tval {
	for i := len(e.vars) - 1; i >= 0; i-- {
		if e.vars[i].name == name {
			return e.vars[i].v
		}
	}
	e.errorf("undefined variable: %s", name)
	return tval{}
}

func (e *texec) pipeline(dot tval, p *parse.PipeNode) tval {
	if p == nil {
		return tval{}
	}
	var v tval
	have := false
	for _, c := range p.Cmds {
		v = e.command(dot, c, v, have)
		have = true
		if v.ok && ti(v.t).k == kIface {
			if it, ok := v.t.Underlying().(*types.Interface); ok && it.NumMethods() == 0 && v.v.O != nil {
				v = e.indirectIface(v)
			}
		}
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			e.setVar(d.Ident[0], v)
		} else {
			e.vars = append(e.vars, tvar{d.Ident[0], v})
		}
	}
	return v
}

func (e *texec) command(dot tval, c *parse.CommandNode, final tval, have bool) tval {
	switch n := c.Args[0].(type) {
	case *parse.FieldNode:
		return e.fieldChain(dot, dot, n.Ident, c.Args, final, have)
	case *parse.ChainNode:
		return e.chain(dot, n, c.Args, final, have)
	case *parse.IdentifierNode:
		return e.function(dot, n, c.Args, final, have)
	case *parse.PipeNode:
		return e.pipeline(dot, n)
	case *parse.VariableNode:
		v := e.getVar(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return e.fieldChain(dot, v, n.Ident[1:], c.Args, final, have)
	}
	return e.arg(dot, c.Args[0])
}

func (e *texec) chain(dot tval, n *parse.ChainNode, args []parse.Node, final tval, have bool) tval {
	var pv tval
	switch x := n.Node.(type) {
	case *parse.PipeNode:
		pv = e.pipeline(dot, x)
	default:
		pv = e.arg(dot, n.Node)
	}
	return e.fieldChain(dot, pv, n.Field, args, final, have)
}

// arg evaluates a node as an untyped argument.
func (e *texec) arg(dot tval, n parse.Node) tval {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		e.errorf("nil is not a command")
	case *parse.BoolNode:
		return tval{v: boolV(n.True), t: types.Typ[types.Bool], ok: true}
	case *parse.NumberNode:
		switch {
		case n.IsInt:
			return tval{v: intV(n.Int64), t: types.Typ[types.Int], ok: true}
		case n.IsFloat:
			return tval{v: fV(n.Float64), t: types.Typ[types.Float64], ok: true}
		}
	case *parse.StringNode:
		return tval{v: strV2(n.Text), t: types.Typ[types.String], ok: true}
	case *parse.FieldNode:
		return e.fieldChain(dot, dot, n.Ident, []parse.Node{n}, tval{}, false)
	case *parse.VariableNode:
		v := e.getVar(n.Ident[0])
		if len(n.Ident) > 1 {
			return e.fieldChain(dot, v, n.Ident[1:], []parse.Node{n}, tval{}, false)
		}
		return v
	case *parse.PipeNode:
		return e.pipeline(dot, n)
	case *parse.IdentifierNode:
		return e.function(dot, n, []parse.Node{n}, tval{}, false)
	case *parse.ChainNode:
		return e.chain(dot, n, []parse.Node{n}, tval{}, false)
	}
	e.m.unsupported(fmt.Sprintf("template argument %T", n))
	return tval{}
}

func (e *texec) fieldChain(dot, recv tval, ident []string, args []parse.Node, final tval, have bool) tval {
	for i, f := range ident {
		last := i == len(ident)-1
		if last {
			recv = e.field(dot, f, args, final, have, recv)
		} else {
			recv = e.field(dot, f, nil, tval{}, false, recv)
		}
	}
	return recv
}

func (e *texec) field(dot tval, name string, args []parse.Node, final tval, have bool, recv tval) tval {
	m := e.m
	if !recv.ok {
		if e.c.strct {
			e.errorf("nil data; no entry for key %q", name)
		}
		return tval{}
	}
	orig := recv
	recv, isNil := e.indirect(recv)
	if ti(recv.t).k == kIface && isNil {
		e.errorf("nil pointer evaluating %s.%s", recv.t, name)
	}
	// method on value or pointer
	try := func(t types.Type, v Value) (tval, bool) {
		f := m.prog.methodNamed(t, name)
		if f == nil {
			return tval{}, false
		}
		return e.callFn(dot, name, func(as []Value) Value { return m.call(f, append([]Value{v}, as...), nil) }, f.ssa.Signature, args, final, have), true
	}
	if ti(recv.t).k != kPtr && ti(recv.t).k != kIface {
		if recv.p != nil {
			if r, ok := try(types.NewPointer(recv.t), Value{O: recv.p}); ok {
				return r
			}
		} else if ti(orig.t).k == kPtr {
			if r, ok := try(orig.t, orig.v); ok {
				return r
			}
		}
	}
	if r, ok := try(recv.t, recv.v); ok {
		return r
	}
	hasArgs := len(args) > 1 || have
	switch ti(recv.t).k {
	case kStruct:
		obj, path, _ := types.LookupFieldOrMethod(recv.t, true, nil, name)
		if v, ok := obj.(*types.Var); ok && v.Exported() {
			cur := recv
			for _, ix := range path {
				c2, _ := e.indirect(cur)
				st := c2.t.Underlying().(*types.Struct)
				s := m.structOf(c2.v, c2.t)
				cur = tval{v: s.F[ix], t: st.Field(ix).Type(), p: &s.F[ix], ok: true}
			}
			if hasArgs {
				e.errorf("%s has arguments but cannot be invoked as function", name)
			}
			return cur
		}
	case kMap:
		u := recv.t.Underlying().(*types.Map)
		if ti(u.Key()).k == kString {
			if hasArgs {
				e.errorf("%s is not a method but has arguments", name)
			}
			if mp, ok := recv.v.O.(*Map); ok {
				if x := m.mapFind(mp, strV2(name)); x != nil {
					return tval{v: x.v, t: u.Elem(), ok: true}
				}
			}
			if e.c.strct {
				e.errorf("map has no entry for key %q", name)
			}
			return tval{v: strV("<no value>"), t: types.Typ[types.String], ok: true}
		}
	case kPtr:
		if isNil {
			e.errorf("nil pointer evaluating %s.%s", recv.t, name)
		}
	}
	e.errorf("can't evaluate field %s in type %s", name, recv.t)
	return tval{}
}

func (e *texec) toIface(v tval) Value {
	if !v.ok {
		return Value{}
	}
	if ti(v.t).k == kIface {
		return v.v
	}
	return Value{O: &Iface{T: v.t, V: e.m.copyVal(v.v)}}
}

// conv checks/adjusts an argument for a parameter type.
func (e *texec) conv(v tval, t types.Type) Value {
	m := e.m
	if _, ok := t.Underlying().(*types.Interface); ok {
		if !v.ok {
			return Value{}
		}
		i := e.toIface(v)
		if i.O != nil {
			if !m.implements(i.O.(*Iface).T, t.Underlying().(*types.Interface), t) {
				e.errorf("wrong type for value; expected %s; got %s", t, i.O.(*Iface).T)
			}
		}
		return i
	}
	if !v.ok {
		e.errorf("invalid value; expected %s", t)
	}
	v = e.indirectIface(v)
	if types.Identical(v.t, t) || types.AssignableTo(v.t, t) {
		return m.copyVal(v.v)
	}
	if p, ok := v.t.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), t) {
		if v.v.O == nil {
			e.errorf("dereference of nil pointer of type %s", t)
		}
		return m.load(v.v, p.Elem())
	}
	if v.p != nil && types.AssignableTo(types.NewPointer(v.t), t) {
		return Value{O: v.p}
	}
	e.errorf("wrong type for value; expected %s; got %s", t, v.t)
	return Value{}
}

func (e *texec) typedArg(dot tval, t types.Type, n parse.Node) Value {
	switch x := n.(type) {
	case *parse.NilNode:
		return e.m.zero(t)
	case *parse.NumberNode:
		k := ti(t)
		switch k.k {
		case kInt:
			if x.IsInt {
				return intV(x.Int64)
			}
		case kUint:
			if x.IsUint {
				return Value{N: x.Uint64}
			}
		case kFloat:
			if x.IsFloat {
				return fV(x.Float64)
			}
		}
		_ = x
	}
	return e.conv(e.arg(dot, n), t)
}

func (e *texec) callFn(dot tval, name string, call func([]Value) Value, sig *types.Signature, args []parse.Node, final tval, have bool) tval {
	if args != nil {
		args = args[1:]
	}
	var as []Value
	np := sig.Params().Len()
	num := len(args)
	if have {
		num++
	}
	if sig.Variadic() {
		if num < np-1 {
			e.errorf("wrong number of args for %s: want at least %d got %d", name, np-1, num)
		}
	} else if num != np {
		e.errorf("wrong number of args for %s: want %d got %d", name, np, num)
	}
	pt := func(i int) types.Type {
		if sig.Variadic() && i >= np-1 {
			return sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		}
		return sig.Params().At(i).Type()
	}
	for i, a := range args {
		as = append(as, e.typedArg(dot, pt(i), a))
	}
	if have {
		as = append(as, e.conv(final, pt(len(as))))
	}
	if sig.Variadic() {
		fixed := append([]Value(nil), as[:np-1]...)
		rest := append([]Value(nil), as[np-1:]...)
		var sl Value
		if len(rest) > 0 {
			sl = Value{O: &Slice{E: rest}}
		}
		as = append(fixed, sl)
	}
	r := call(as)
	res := sig.Results()
	if res.Len() == 2 {
		t := r.O.(Tuple)
		if t[1].O != nil {
			i := t[1].O.(*Iface)
			msg := e.m.fmtValue(i.V, i.T, 'v', fmtFlags{}, 0)
			panic(&texecErr{strConcat(strV("error calling "+name+": "), msg)})
		}
		return tval{v: t[0], t: res.At(0).Type(), ok: true}
	}
	return tval{v: r, t: res.At(0).Type(), ok: true}
}

func (e *texec) function(dot tval, n *parse.IdentifierNode, args []parse.Node, final tval, have bool) tval {
	name := n.Ident
	if f, ok := e.c.funcs[name]; ok {
		i := f.O.(*Iface)
		cl := i.V.O.(*Closure)
		return e.callFn(dot, name, func(as []Value) Value { return e.m.callClosure(cl, as) }, i.T.Underlying().(*types.Signature), args, final, have)
	}
	m := e.m
	boolT := types.Typ[types.Bool]
	if name == "and" || name == "or" {
		var v tval
		for _, a := range args[1:] {
			v = e.arg(dot, a)
			if e.truth(v) == (name == "or") {
				return v
			}
		}
		if have {
			v = final
		}
		return v
	}
	var as []tval
	for _, a := range args[1:] {
		as = append(as, e.arg(dot, a))
	}
	if have {
		as = append(as, final)
	}
	ifs := func() []Value {
		out := make([]Value, len(as))
		for i := range as {
			out[i] = e.toIface(as[i])
		}
		return out
	}
	str := func(v Value) tval { return tval{v: v, t: types.Typ[types.String], ok: true} }
	switch name {
	case "not":
		return tval{v: boolV(!e.truth(as[0])), t: boolT, ok: true}
	case "len":
		v, _ := e.indirect(as[0])
		n := 0
		switch ti(v.t).k {
		case kString:
			n = strLen(v.v)
		case kSlice:
			n = len(sliceOf(v.v))
		case kMap:
			if mp, ok := v.v.O.(*Map); ok {
				n = mp.n
			}
		case kArray:
			n = int(v.t.Underlying().(*types.Array).Len())
		default:
			e.errorf("len of type %s", v.t)
		}
		return tval{v: intV(int64(n)), t: types.Typ[types.Int], ok: true}
	case "eq", "ne":
		r := false
		for _, b := range as[1:] {
			if e.basicEq(as[0], b) {
				r = true
				break
			}
		}
		if name == "ne" {
			r = !r
		}
		return tval{v: boolV(r), t: boolT, ok: true}
	case "lt", "le", "gt", "ge":
		a, b := e.indirectIface(as[0]), e.indirectIface(as[1])
		ka := ti(a.t)
		if ka.k != ti(b.t).k {
			e.errorf("incompatible types for comparison")
		}
		var lt, eq bool
		switch ka.k {
		case kString:
			lt = m.strLess(a.v, b.v)
			eq = !lt && m.branch(m.strEq(a.v, b.v))
		case kInt:
			x, y := int64(m.concretize(a.v, ka)), int64(m.concretize(b.v, ka))
			lt, eq = x < y, x == y
		case kUint:
			x, y := m.concretize(a.v, ka), m.concretize(b.v, ka)
			lt, eq = x < y, x == y
		default:
			m.unsupported("template comparison")
		}
		r := lt
		switch name {
		case "le":
			r = lt || eq
		case "gt":
			r = !lt && !eq
		case "ge":
			r = !lt
		}
		return tval{v: boolV(r), t: boolT, ok: true}
	case "print":
		return str(m.sprint(ifs(), false))
	case "println":
		return str(m.sprint(ifs(), true))
	case "printf":
		return str(m.sprintf(e.indirectIface(as[0]).v, ifs()[1:]))
	case "index":
		v, _ := e.indirect(as[0])
		for _, ix := range as[1:] {
			ix = e.indirectIface(ix)
			v, _ = e.indirect(v)
			switch ti(v.t).k {
			case kSlice:
				E := sliceOf(v.v)
				i := int(m.concretize(ix.v, ti(ix.t)))
				if i < 0 || i >= len(E) {
					e.errorf("index out of range: %d", i)
				}
				v = tval{v: E[i], t: v.t.Underlying().(*types.Slice).Elem(), p: &E[i], ok: true}
			case kMap:
				u := v.t.Underlying().(*types.Map)
				k := e.conv(ix, u.Key())
				var x *mapEntry
				if mp, ok := v.v.O.(*Map); ok {
					x = m.mapFind(mp, k)
				}
				if x != nil {
					v = tval{v: x.v, t: u.Elem(), ok: true}
				} else {
					v = tval{v: m.zero(u.Elem()), t: u.Elem(), ok: true}
				}
			default:
				m.unsupported("template index of " + v.t.String())
			}
		}
		return v
	case "call":
		f := e.indirectIface(as[0])
		cl, ok := f.v.O.(*Closure)
		if !ok {
			e.errorf("call of nil")
		}
		sig := f.t.Underlying().(*types.Signature)
		var vs []Value
		if sig.Variadic() {
			m.unsupported("variadic call in template")
		}
		for i, a := range as[1:] {
			vs = append(vs, e.conv(a, sig.Params().At(i).Type()))
		}
		r := m.callClosure(cl, vs)
		if sig.Results().Len() == 2 {
			t := r.O.(Tuple)
			if t[1].O != nil {
				e.errorf("error calling call")
			}
			r = t[0]
		}
		return tval{v: r, t: sig.Results().At(0).Type(), ok: true}
	}
	m.unsupported("template function " + name)
	return tval{}
}

func (e *texec) basicEq(a, b tval) bool {
	a, b = e.indirectIface(a), e.indirectIface(b)
	if !a.ok || !b.ok {
		return a.ok == b.ok
	}
	ka, kb := ti(a.t), ti(b.t)
	if ka.k != kb.k {
		if (ka.k == kInt || ka.k == kUint) && (kb.k == kInt || kb.k == kUint) {
			return e.m.concretize(a.v, ka) == e.m.concretize(b.v, kb)
		}
		e.errorf("incompatible types for comparison")
	}
	switch ka.k {
	case kInt, kUint:
		return e.m.branch(e.m.equal(a.v, b.v, types.Typ[types.Int64]))
	case kString:
		return e.m.branch(e.m.strEq(a.v, b.v))
	}
	return e.m.branch(e.m.equal(a.v, b.v, a.t))
}

func (e *texec) print(v tval) {
	m := e.m
	if !v.ok {
		e.out = append(e.out, strBytes(strV("<no value>"))...)
		return
	}
	if ti(v.t).k == kPtr {
		v, _ = e.indirect(v)
	}
	if !v.ok {
		e.out = append(e.out, strBytes(strV("<no value>"))...)
		return
	}
	t, val := v.t, v.v
	if v.p != nil && m.prog.methodNamed(t, "Error") == nil && m.prog.methodNamed(t, "String") == nil {
		pt := types.NewPointer(t)
		if m.prog.methodNamed(pt, "String") != nil || m.prog.methodNamed(pt, "Error") != nil {
			t, val = pt, Value{O: v.p}
		}
	}
	switch ti(t).k {
	case kFunc, kChan:
		e.errorf("can't print value of type %s", t)
	}
	e.out = append(e.out, strBytes(m.fmtValue(val, t, 'v', fmtFlags{}, 0))...)
}

var _ = strings.Contains
