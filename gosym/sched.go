package main

import (
	"fmt"
	"go/types"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

// Goroutines are coroutines: each runs on a host goroutine of its own, one at
// a time, and hands over only where it blocks, starts another goroutine or
// ends. Which of the goroutines that can run goes next is a decision of the
// path; at most m.delayLimit decisions of a path depart from first-come-
// first-served order (delay-bounded scheduling).
type coro struct {
	id       int
	started  bool
	done     bool
	wake     chan struct{}
	gone     chan struct{}
	ready    func() bool // nil: can run
	low      int         // runs only when nothing of a lower level can
	fn       func()
	depth    int
	frame    *Frame
	buf      []Value
	sp       int
	exitCtch int
}

type coroKill struct{}

type schedState struct {
	coros   []*coro
	cur     *coro
	err     any // what ended a goroutine other than the first
	killing bool
	delays  int
	n       int
	locks   map[*Value]*lockSt
	groups  map[*Value]*int
	timers  map[*Value]*timerSt
}

// A timer fires when nothing else can run.
type timerSt struct {
	n       int // which start of the timer counts
	waiting bool
	f       *Closure
	arg     Value
}

func (m *Machine) startTimer(t *timerSt) {
	t.n++
	t.waiting = true
	n := t.n
	m.goStart(func() {
		m.settle(1)
		if t.waiting && t.n == n {
			t.waiting = false
			m.callClosure(t.f, []Value{t.arg, intV(0), intV(0)})
		}
	})
}

type lockSt struct{ w, r int }

type chanSend struct {
	v     Value
	taken bool
	shut  bool
}

const maxCoros = 64

func (m *Machine) sch() *schedState {
	if m.sched.cur == nil {
		c := &coro{started: true, wake: make(chan struct{}, 1)}
		m.sched.cur = c
		m.sched.coros = append(m.sched.coros, c)
	}
	return &m.sched
}

func (m *Machine) goStart(f func()) {
	s := m.sch()
	if m.initPhase {
		m.unsupported("go statement in an initialiser")
	}
	if len(s.coros) > maxCoros {
		m.unsupported(fmt.Sprintf("more than %d goroutines", maxCoros))
	}
	c := &coro{id: len(s.coros), wake: make(chan struct{}, 1), gone: make(chan struct{}), fn: f}
	s.coros = append(s.coros, c)
	if s.delays < m.delayLimit() && m.schedChoice(2) == 1 {
		s.delays++
		m.switchTo(c)
	}
}

func (m *Machine) delayLimit() int {
	if n, ok := m.params["delays"]; ok {
		return n
	}
	return 2
}

func (m *Machine) schedChoice(n int) int {
	s := m.sch()
	s.n++
	m.usedOrder = true
	return m.chooseN(fmt.Sprintf("sched#%d", s.n), n)
}

func (m *Machine) switchTo(c *coro) {
	s := m.sch()
	cur := s.cur
	if c == cur {
		return
	}
	m.saveCoro(cur)
	m.enter(c)
	m.park(cur)
}

func (m *Machine) saveCoro(c *coro) {
	c.depth, c.frame, c.buf, c.sp, c.exitCtch = m.depth, m.curFrame, m.stackBuf, m.sp, m.exitCatch
}

// enter makes c the goroutine that runs.
func (m *Machine) enter(c *coro) {
	s := m.sch()
	s.cur = c
	m.depth, m.curFrame, m.stackBuf, m.sp, m.exitCatch = c.depth, c.frame, c.buf, c.sp, c.exitCtch
	if !c.started {
		c.started = true
		m.stackBuf = make([]Value, 1<<12)
		go m.runCoro(c)
		return
	}
	c.wake <- struct{}{}
}

func (m *Machine) park(c *coro) {
	<-c.wake
	s := &m.sched
	if s.killing {
		panic(coroKill{})
	}
	if c.id == 0 && s.err != nil {
		r := s.err
		s.err = nil
		panic(r)
	}
}

func (m *Machine) runCoro(c *coro) {
	s := &m.sched
	defer func() {
		r := recover()
		c.done = true
		if _, ok := r.(coroKill); ok {
			close(c.gone)
			return
		}
		close(c.gone)
		if r != nil {
			s.err = r
			m.enter(s.coros[0])
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					s.err = r
					m.enter(s.coros[0])
				}
			}()
			m.enter(m.pick())
		}()
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				ip, ok := r.(*ipanic)
				if !ok {
					panic(r)
				}
				m.curFrame = nil
				m.violate(nil, "uncaught panic: "+m.panicText(ip.v)+ip.where, "panic")
				panic(&pathEnd{"done", ""})
			}
		}()
		c.fn()
	}()
}

// pick chooses the goroutine that runs next.
func (m *Machine) pick() *coro {
	s := m.sch()
	var can []*coro
	// first come, first served, starting after the one that ran last
	for k := 1; k <= len(s.coros); k++ {
		c := s.coros[(s.cur.id+k)%len(s.coros)]
		if !c.done && c.low == 0 && (c.ready == nil || c.ready()) {
			can = append(can, c)
		}
	}
	for l := 1; l <= 2 && len(can) == 0; l++ {
		for k := 1; k <= len(s.coros); k++ {
			c := s.coros[(s.cur.id+k)%len(s.coros)]
			if !c.done && c.low == l {
				can = append(can, c)
			}
		}
	}
	if len(can) == 0 {
		m.violate(nil, "all goroutines are blocked (deadlock)"+m.where(), "panic")
		panic(&pathEnd{"done", ""})
	}
	if len(can) == 1 || s.delays >= m.delayLimit() {
		return can[0]
	}
	k := m.schedChoice(len(can))
	if k > 0 {
		s.delays++
	}
	return can[k]
}

// block waits until ready holds.
func (m *Machine) block(ready func() bool) {
	s := m.sch()
	if m.initPhase {
		m.unsupported("blocking operation in an initialiser")
	}
	c := s.cur
	for !ready() {
		c.ready = ready
		n := m.pick()
		if n == c {
			break
		}
		m.switchTo(n)
	}
	c.ready = nil
}

// settle lets every other goroutine run until it blocks or settles at a higher level.
func (m *Machine) settle(level int) {
	s := m.sch()
	c := s.cur
	if len(s.coros) == 1 {
		return
	}
	c.low = level
	m.switchTo(m.pick())
	c.low = 0
}

// yield lets the other goroutines go first.
func (m *Machine) yield() {
	if m.initPhase || len(m.sched.coros) <= 1 {
		return
	}
	s := m.sch()
	if s.delays >= m.delayLimit() {
		return
	}
	var can []*coro
	can = append(can, s.cur)
	for k := 1; k < len(s.coros); k++ {
		c := s.coros[(s.cur.id+k)%len(s.coros)]
		if !c.done && c.low == 0 && (c.ready == nil || c.ready()) {
			can = append(can, c)
		}
	}
	if len(can) == 1 {
		return
	}
	if k := m.schedChoice(len(can)); k > 0 {
		s.delays++
		m.switchTo(can[k])
	}
}

// endCoros ends the goroutines from the n-th on.
func (m *Machine) endCoros(n int) {
	s := &m.sched
	if len(s.coros) <= n {
		return
	}
	cur := s.cur
	m.saveCoro(cur)
	for _, c := range s.coros[n:] {
		if c.started && !c.done && c != cur {
			s.killing = true
			c.wake <- struct{}{}
			<-c.gone
			s.killing = false
		}
		c.done = true
	}
	s.coros = s.coros[:n]
	m.depth, m.curFrame, m.stackBuf, m.sp, m.exitCatch = cur.depth, cur.frame, cur.buf, cur.sp, cur.exitCtch
}

// ---- channels ----

func (m *Machine) chanSend(c *Chan, v Value) {
	if c == nil {
		m.block(func() bool { return false })
	}
	if c.closed {
		m.runtimePanic("send on closed channel")
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return
	}
	e := &chanSend{v: v}
	c.sendq = append(c.sendq, e)
	m.block(func() bool { return e.taken || e.shut })
	if e.shut {
		m.runtimePanic("send on closed channel")
	}
}

func (c *Chan) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func (c *Chan) canSend() bool {
	return c.closed || len(c.buf) < c.cap || c.cap == 0 && c.waiting > len(c.sendq)
}

func (m *Machine) chanTake(c *Chan, et types.Type) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if len(c.sendq) > 0 {
			e := c.sendq[0]
			c.sendq = append([]*chanSend(nil), c.sendq[1:]...)
			e.taken = true
			c.buf = append(c.buf, e.v)
		}
		return v, true
	}
	if len(c.sendq) > 0 {
		e := c.sendq[0]
		c.sendq = append([]*chanSend(nil), c.sendq[1:]...)
		e.taken = true
		return e.v, true
	}
	return m.zero(et), false
}

func (m *Machine) chanRecv(c *Chan, et types.Type) (Value, bool) {
	if c == nil {
		m.block(func() bool { return false })
	}
	if !c.canRecv() {
		c.waiting++
		m.block(c.canRecv)
		c.waiting--
	}
	return m.chanTake(c, et)
}

func (m *Machine) chanClose(v Value) {
	c, ok := v.O.(*Chan)
	if !ok {
		m.runtimePanic("close of nil channel")
	}
	if c.closed {
		m.runtimePanic("close of closed channel")
	}
	c.closed = true
	for _, e := range c.sendq {
		e.shut = true
	}
	c.sendq = nil
}

func (c *compiler) goInstr(in *ssa.Go) func(m *Machine, fr *Frame) {
	prep := c.prepCall(&in.Call)
	return func(m *Machine, fr *Frame) {
		cl, nat, as := prep(m, fr)
		m.goStart(func() {
			if nat != nil {
				nat(m, as)
				return
			}
			m.callClosure(cl, as)
		})
	}
}

func (c *compiler) selectInstr(in *ssa.Select, dst int) func(m *Machine, fr *Frame) {
	type state struct {
		ch, v opnd
		send  bool
		et    types.Type
	}
	var sts []state
	for _, s := range in.States {
		st := state{ch: c.op(s.Chan), send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if st.send {
			st.v = c.op(s.Send)
		}
		sts = append(sts, st)
	}
	return func(m *Machine, fr *Frame) {
		chans := make([]*Chan, len(sts))
		vals := make([]Value, len(sts))
		for i, s := range sts {
			chans[i], _ = s.ch.get(m, fr).O.(*Chan)
			if s.send {
				vals[i] = s.v.get(m, fr)
			}
		}
		able := func() []int {
			var r []int
			for i, s := range sts {
				if chans[i] == nil {
					continue
				}
				if s.send && chans[i].canSend() || !s.send && chans[i].canRecv() {
					r = append(r, i)
				}
			}
			return r
		}
		pick := able()
		if len(pick) == 0 && in.Blocking {
			for i, s := range sts {
				if chans[i] != nil && !s.send {
					chans[i].waiting++
				}
			}
			m.block(func() bool { return len(able()) > 0 })
			for i, s := range sts {
				if chans[i] != nil && !s.send {
					chans[i].waiting--
				}
			}
			pick = able()
		}
		res := Tuple{intV(-1), boolV(false)}
		k := -1
		switch {
		case len(pick) == 1:
			k = pick[0]
		case len(pick) > 1:
			k = pick[m.schedChoice(len(pick))]
		}
		if k >= 0 {
			res[0] = intV(int64(k))
		}
		for i, s := range sts {
			if s.send {
				if i == k {
					m.chanSend(chans[i], vals[i])
				}
				continue
			}
			if i == k {
				v, ok := m.chanTake(chans[i], s.et)
				res[1] = boolV(ok)
				res = append(res, v)
			} else {
				res = append(res, m.zero(s.et))
			}
		}
		fr.regs[dst] = Value{O: res}
	}
}

// ---- locks ----

func (m *Machine) lockOf(v Value) *lockSt {
	p := m.ptr(v)
	if m.sched.locks == nil {
		m.sched.locks = map[*Value]*lockSt{}
	}
	l := m.sched.locks[p]
	if l == nil {
		l = &lockSt{}
		m.sched.locks[p] = l
	}
	return l
}

func init() {
	lock := func(m *Machine, fn *Fn, a []Value) Value {
		if m.initPhase {
			return Value{}
		}
		m.yield()
		l := m.lockOf(a[0])
		m.block(func() bool { return l.w == 0 && l.r == 0 })
		l.w = 1
		return Value{}
	}
	unlock := func(m *Machine, fn *Fn, a []Value) Value {
		if m.initPhase {
			return Value{}
		}
		l := m.lockOf(a[0])
		if l.w == 0 {
			m.violate(nil, "unlock of an unlocked mutex"+m.where(), "panic")
			panic(&pathEnd{"done", ""})
		}
		l.w = 0
		return Value{}
	}
	reg(lock, "(*sync.Mutex).Lock", "(*internal/sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(unlock, "(*sync.Mutex).Unlock", "(*internal/sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if m.initPhase {
			return boolV(true)
		}
		l := m.lockOf(a[0])
		if l.w != 0 || l.r != 0 {
			return boolV(false)
		}
		l.w = 1
		return boolV(true)
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*internal/sync.Mutex).TryLock")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if m.initPhase {
			return Value{}
		}
		m.yield()
		l := m.lockOf(a[0])
		m.block(func() bool { return l.w == 0 })
		l.r++
		return Value{}
	}, "(*sync.RWMutex).RLock")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if m.initPhase {
			return Value{}
		}
		l := m.lockOf(a[0])
		if l.r == 0 {
			m.violate(nil, "RUnlock of an unlocked mutex"+m.where(), "panic")
			panic(&pathEnd{"done", ""})
		}
		l.r--
		return Value{}
	}, "(*sync.RWMutex).RUnlock")
	group := func(m *Machine, v Value) *int {
		p := m.ptr(v)
		if m.sched.groups == nil {
			m.sched.groups = map[*Value]*int{}
		}
		if m.sched.groups[p] == nil {
			m.sched.groups[p] = new(int)
		}
		return m.sched.groups[p]
	}
	add := func(m *Machine, v Value, n int) {
		g := group(m, v)
		*g += n
		if *g < 0 {
			m.runtimePanic("sync: negative WaitGroup counter")
		}
	}
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		add(m, a[0], int(int64(m.concretize(a[1], tinfo{kInt, 64}))))
		return Value{}
	}, "(*sync.WaitGroup).Add")
	reg(func(m *Machine, fn *Fn, a []Value) Value { add(m, a[0], -1); return Value{} }, "(*sync.WaitGroup).Done")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		g := group(m, a[0])
		m.block(func() bool { return *g == 0 })
		return Value{}
	}, "(*sync.WaitGroup).Wait")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		add(m, a[0], 1)
		m.goStart(func() {
			m.callClosure(a[1].O.(*Closure), nil)
			add(m, a[0], -1)
		})
		return Value{}
	}, "(*sync.WaitGroup).Go")
	reg(func(m *Machine, fn *Fn, a []Value) Value { m.yield(); return Value{} }, "runtime.Gosched")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if a[1].N != 0 {
			m.unsupported("ticker")
		}
		s := m.newSlot()
		*s = m.zero(m.prog.typeByName("time", "Timer"))
		s.O.(*Struct).F[1] = boolV(true)
		t := &timerSt{f: a[2].O.(*Closure), arg: a[3]}
		sc := m.sch()
		if sc.timers == nil {
			sc.timers = map[*Value]*timerSt{}
		}
		sc.timers[s] = t
		m.startTimer(t)
		return Value{O: s}
	}, "time.newTimer")
	stop := func(m *Machine, p Value) (*timerSt, bool) {
		t := m.sch().timers[m.ptr(p)]
		w := t.waiting
		t.waiting = false
		return t, w
	}
	reg(func(m *Machine, fn *Fn, a []Value) Value { _, w := stop(m, a[0]); return boolV(w) }, "time.stopTimer")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		t, w := stop(m, a[0])
		m.startTimer(t)
		return boolV(w)
	}, "time.resetTimer")
	reg(func(m *Machine, fn *Fn, a []Value) Value { m.settle(1); return Value{} }, "time.Sleep", rtPkg+".Settle")
	reg(func(m *Machine, fn *Fn, a []Value) Value { m.settle(2); return Value{} }, rtPkg+".Quiesce")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		return strV(syscall.Signal(m.concretize(a[0], tinfo{kInt, 64})).String())
	}, "(syscall.Signal).String")
}
