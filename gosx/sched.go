package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Gor is one goroutine of the program under test, run by a host goroutine;
// exactly one of them runs at a time.
type Gor struct {
	id     int
	wake   chan struct{}
	ready  func() bool // nil: runnable
	done   bool
	fr     *Frame
	depth  int
	vc     []int // vector clock, if races are looked for
	killed bool
}

type gorKill struct{}

func (m *Machine) spawn(th func() Value) {
	g := &Gor{id: len(m.gors), wake: make(chan struct{})}
	m.gors = append(m.gors, g)
	if m.races != nil {
		g.vc = append([]int(nil), m.cur.vc...)
		g.tick(g.id)
		m.cur.tick(m.cur.id)
	}
	go func() {
		<-g.wake
		if g.killed {
			g.wake <- struct{}{}
			return
		}
		defer func() {
			r := recover()
			if _, ok := r.(gorKill); ok {
				g.done = true
				g.wake <- struct{}{}
				return
			}
			g.done = true
			if r != nil && m.fatal == nil {
				m.fatal = r
			}
			// hand over to another goroutine
			if m.fatal != nil {
				m.resume(m.gors[0])
				return
			}
			n := m.pickNext(func(r any) { m.fatal = r })
			if n == nil {
				m.resume(m.gors[0])
				return
			}
			m.resume(n)
		}()
		m.curFrame, m.depth = nil, 0
		th()
	}()
	m.schedPoint()
}

// resume hands the processor to n (caller must stop running or wait).
func (m *Machine) resume(n *Gor) {
	m.cur = n
	n.wake <- struct{}{}
}

func (m *Machine) runnable() []*Gor {
	var r []*Gor
	for _, g := range m.gors {
		if !g.done && (g.ready == nil || g.ready()) {
			r = append(r, g)
		}
	}
	return r
}

func (m *Machine) pickNext(fail func(any)) (n *Gor) {
	defer func() {
		if r := recover(); r != nil {
			fail(r)
			n = nil
		}
	}()
	rs := m.runnable()
	if len(rs) == 0 {
		return nil
	}
	k := 0
	if len(rs) > 1 && m.preempt {
		k = m.choose(len(rs))
	}
	return rs[k]
}

// switchTo parks the current goroutine until it is resumed.
func (m *Machine) switchTo(n *Gor) {
	g := m.cur
	if n == g {
		return
	}
	g.fr, g.depth = m.curFrame, m.depth
	m.cur = n
	n.wake <- struct{}{}
	<-g.wake
	if g.killed {
		panic(gorKill{})
	}
	m.cur = g
	m.curFrame, m.depth = g.fr, g.depth
	if m.fatal != nil && g.id == 0 {
		f := m.fatal
		m.fatal = nil
		panic(f)
	}
}

// schedPoint lets another goroutine run when schedules are explored.
func (m *Machine) schedPoint() {
	if !m.preempt || m.preemptLeft == 0 || len(m.gors) < 2 {
		return
	}
	if m.specDepth > 0 {
		panic(specAbort{})
	}
	rs := m.runnable()
	if len(rs) < 2 {
		return
	}
	// current goroutine first: choice 0 = no preemption
	for i, g := range rs {
		if g == m.cur && i > 0 {
			copy(rs[1:i+1], rs[:i])
			rs[0] = g
		}
	}
	k := m.choose(len(rs))
	if k > 0 {
		m.preemptLeft--
	}
	m.switchTo(rs[k])
}

// block parks until cond holds.
func (m *Machine) block(cond func() bool, what string) {
	if cond() {
		return
	}
	if m.specDepth > 0 {
		panic(specAbort{})
	}
	g := m.cur
	g.ready = cond
	for !cond() {
		var r any
		n := m.pickNext(func(x any) { r = x })
		if r != nil {
			panic(r)
		}
		if n == nil {
			g.ready = nil
			panic(&targetPanic{v: Value{p: &Iface{m.tString, mkStr("all goroutines are asleep - deadlock! (" + what + ")")}}, stack: m.where(), rt: true})
		}
		m.switchTo(n)
	}
	g.ready = nil
}

func (m *Machine) killGors() {
	for _, g := range m.gors[1:] {
		if !g.done {
			g.killed = true
			g.wake <- struct{}{}
			<-g.wake
		}
	}
	m.gors = m.gors[:1]
	m.cur = m.gors[0]
}

func (m *Machine) chTouch(c *ChanObj) {
	if c.epoch != m.epoch {
		old := *c
		old.buf = append([]Value(nil), c.buf...)
		m.undo = append(m.undo, undoRec{fn: func() { *c = old }})
		c.epoch = m.epoch
	}
}

func (m *Machine) chanSend(cv, v Value) {
	m.schedPoint()
	if cv.p == nil {
		m.block(func() bool { return false }, "send on nil channel")
	}
	c := cv.p.(*ChanObj)
	m.chTouch(c)
	m.release(cv, 0)
	if c.closed {
		m.sendClosed()
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return
	}
	it := &sendItem{v: v, g: m.cur}
	c.sendq = append(c.sendq, it)
	m.block(func() bool { return it.done || c.closed }, "chan send")
	if !it.done {
		m.sendClosed()
	}
	m.acquire(cv, 1)
}

func (m *Machine) sendClosed() {
	panic(&targetPanic{v: Value{p: &Iface{m.tString, mkStr("send on closed channel")}}, stack: m.where(), rt: true})
}

func (c *ChanObj) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func (m *Machine) chanRecv(cv Value) (Value, bool) {
	m.schedPoint()
	if cv.p == nil {
		m.block(func() bool { return false }, "receive from nil channel")
	}
	c := cv.p.(*ChanObj)
	m.chTouch(c)
	c.recvWaiting++
	m.block(c.canRecv, "chan receive")
	m.acquire(cv, 0)
	m.release(cv, 1)
	c.recvWaiting--
	return m.doRecv(c)
}

func (m *Machine) doRecv(c *ChanObj) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if len(c.sendq) > 0 {
			it := c.sendq[0]
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, it.v)
			it.done = true
		}
		return v, true
	}
	if len(c.sendq) > 0 {
		it := c.sendq[0]
		c.sendq = c.sendq[1:]
		it.done = true
		return it.v, true
	}
	return Value{}, false
}

func (m *Machine) doSelect(fr *Frame, in *inst) Value {
	sel := in.x.(*ssa.Select)
	m.schedPoint()
	type cs struct {
		c    *ChanObj
		send bool
		v    Value
	}
	var cases []cs
	for i, st := range sel.States {
		x := cs{send: st.Dir == types.SendOnly}
		if cv := fr.get(in.args[2*i]); cv.p != nil {
			x.c = cv.p.(*ChanObj)
			m.chTouch(x.c)
		}
		if x.send {
			x.v = fr.get(in.args[2*i+1])
		}
		cases = append(cases, x)
	}
	ready := func() []int {
		var r []int
		for i, c := range cases {
			if c.c == nil {
				continue
			}
			if c.send {
				if c.c.closed || len(c.c.buf) < c.c.cap || (c.c.cap == 0 && c.c.recvWaiting > 0) {
					r = append(r, i)
				}
			} else if c.c.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	pick := -1
	rs := ready()
	if len(rs) == 0 && sel.Blocking {
		for _, c := range cases {
			if c.c != nil && !c.send {
				c.c.recvWaiting++
			}
		}
		m.block(func() bool { return len(ready()) > 0 }, "select")
		for _, c := range cases {
			if c.c != nil && !c.send {
				c.c.recvWaiting--
			}
		}
		rs = ready()
	}
	if len(rs) > 0 {
		k := 0
		if len(rs) > 1 && m.preempt {
			k = m.choose(len(rs))
		}
		pick = rs[k]
	}
	out := make([]Value, in.ti.slots)
	out[0] = mkInt(pick)
	if pick < 0 {
		out[0] = Value{n: ^uint64(0)}
		return Value{p: out}
	}
	c := cases[pick]
	if c.send {
		m.chanSend(Value{p: c.c}, c.v)
		return Value{p: out}
	}
	m.acquire(Value{p: c.c}, 0)
	v, ok := m.doRecv(c.c)
	out[1] = mkBool(ok)
	// received values follow, one per receive state
	k := 2
	for i, st := range sel.States {
		if st.Dir == types.SendOnly {
			continue
		}
		ft := in.ti.ft[k]
		off := in.ti.foff[k]
		if i == pick {
			if !ok {
				v = zero(ft)
			}
			if ft.agg() {
				copy(out[off:], v.p.([]Value))
			} else {
				out[off] = v
			}
		}
		k++
	}
	return Value{p: out}
}
