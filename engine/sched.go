package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the code under test run as native goroutines that pass a
// baton: exactly one runs at a time, and every choice of who runs next is a
// decision of the exploration (a schedule variable).

type Gor struct {
	id    int
	wake  chan struct{}
	clk   vclock
	acc   int // own time of the last access
	state int // 0 runnable, 1 blocked, 2 done
	ready func() bool
	what  string
}

type waiter struct {
	g    *Gor
	v    Value
	ok   bool
	done bool
	sel  int
	grp  *selGroup
	clk  vclock
}

type selGroup struct{ done bool }

type killed struct{}

type shadow struct {
	wg, wc int
	rg, rc int // one reader; further ones are in reads
	reads  map[int]int
	fn     *ssa.Function // the last access
	instr  ssa.Instruction
}

// calm tells if only one goroutine is left and all accesses of the others
// happened before what it does now: it cannot race with them any more.
func (m *Machine) calm() {
	if !m.multi {
		return
	}
	var left *Gor
	for _, g := range m.gors {
		if g.state != 2 {
			if left != nil {
				return
			}
			left = g
		}
	}
	if left == nil {
		return
	}
	for _, g := range m.gors {
		if g != left && left.clk[g.id] < g.acc {
			return
		}
	}
	m.quiet = true
}

func (m *Machine) tick() {
	g := m.cur
	if g.clk == nil {
		g.clk = vclock{}
	}
	g.clk[g.id]++
}

func (m *Machine) spawn(fr *Frame, fn Value, args []Value) {
	if !m.multi {
		m.multi = true
		m.cur.clk = vclock{m.cur.id: 1}
		m.shadow = map[*Value]*shadow{}
	}
	if m.sub != nil {
		panic(mergeAbort{"go statement"})
	}
	if m.quiet {
		m.quiet = false
		m.shadow = map[*Value]*shadow{}
	}
	g := &Gor{id: len(m.gors), wake: make(chan struct{}), clk: m.cur.clk.copy(), what: "start"}
	g.clk[g.id] = 1
	m.tick()
	m.gors = append(m.gors, g)
	m.live.Add(1)
	go func() {
		defer m.live.Done()
		<-g.wake
		defer func() {
			r := recover()
			if _, ok := r.(killed); ok || m.dead {
				return
			}
			if r != nil {
				// hand the outcome to the main goroutine
				g.state = 2
				m.outcome = r
				m.dead = true
				m.gors[0].wake <- struct{}{}
				return
			}
			g.state = 2
			m.calm()
			defer func() {
				if r := recover(); r != nil && !m.dead {
					m.outcome = r
					m.dead = true
					m.gors[0].wake <- struct{}{}
				}
			}()
			n := m.pick(nil)
			if n != nil {
				m.cur = n
				n.wake <- struct{}{}
			}
		}()
		if m.dead {
			panic(killed{})
		}
		m.callFn(nil, fn, args)
	}()
	m.yieldPoint(fr)
}

func (g *Gor) runnable() bool {
	return g.state == 0 || (g.state == 1 && g.ready())
}

// pick chooses the next goroutine to run; cur!=nil means cur itself is runnable.
func (m *Machine) pick(cur *Gor) *Gor {
	var rs []*Gor
	if cur != nil {
		rs = append(rs, cur)
	}
	for _, g := range m.gors {
		if g != cur && g.runnable() {
			rs = append(rs, g)
		}
	}
	if len(rs) == 0 {
		if m.gors[0].state == 2 {
			return nil
		}
		msg := "all goroutines are asleep - deadlock!"
		for _, g := range m.gors {
			if g.state == 1 {
				msg += fmt.Sprintf(" g%d:%s", g.id, g.what)
			}
		}
		panic(targetPanic{runtime: true, msg: msg, where: "scheduler"})
	}
	k := 0
	if len(rs) > 1 {
		if cur != nil {
			// staying is free, switching costs a preemption
			if m.sched && m.preempt > 0 {
				k = m.choose(len(rs), "sched")
				if k > 0 {
					m.preempt--
				}
			}
		} else if m.sched {
			k = m.choose(len(rs), "sched")
		}
	}
	return rs[k]
}

func (m *Machine) switchTo(n *Gor) {
	self := m.cur
	if n == self {
		return
	}
	m.cur = n
	n.wake <- struct{}{}
	<-self.wake
	if m.dead {
		if self.id == 0 && m.outcome != nil {
			panic(m.outcome)
		}
		panic(killed{})
	}
}

// yieldPoint: a visible operation is about to happen (or just happened).
func (m *Machine) yieldPoint(fr *Frame) {
	if !m.multi || !m.sched {
		return
	}
	m.switchTo(m.pick(m.cur))
}

// block waits until ready holds.
func (m *Machine) block(fr *Frame, what string, ready func() bool) {
	if m.sub != nil {
		panic(mergeAbort{"blocking"})
	}
	for !ready() {
		m.cur.state = 1
		m.cur.ready = ready
		m.cur.what = what
		if fr != nil {
			m.cur.what += " at " + m.eng.pos(fr)
		}
		self := m.cur
		n := m.pick(nil)
		m.switchTo(n)
		self.state = 0
	}
	m.cur.state = 0
}

func (m *Machine) killAll() {
	m.dead = true
	for _, g := range m.gors[1:] {
		if g.state != 2 {
			g.wake <- struct{}{}
		}
	}
	m.live.Wait()
}

// ---- channels ----

func (m *Machine) send(fr *Frame, ch *Chan, v Value) {
	m.yieldPoint(fr)
	if ch == nil {
		m.block(fr, "send on nil channel", func() bool { return false })
	}
	if ch.closed {
		panic(targetPanic{runtime: true, msg: "send on closed channel", where: m.eng.pos(fr)})
	}
	if ch.cap > 0 {
		m.block(fr, "chan send", func() bool { return ch.closed || len(ch.buf) < ch.cap })
		if ch.closed {
			panic(targetPanic{runtime: true, msg: "send on closed channel", where: m.eng.pos(fr)})
		}
		// the k-th receive happens before the completion of the (k+cap)-th send
		if len(ch.recvClk) > 0 {
			m.joinClk(ch.recvClk[0])
			ch.recvClk = ch.recvClk[1:]
		}
		ch.buf = append(ch.buf, chanMsg{v, m.clkCopy()})
		m.tickIf()
		return
	}
	w := &waiter{g: m.cur, v: v, clk: m.clkCopy()}
	m.tickIf()
	ch.sendq = append(ch.sendq, w)
	m.block(fr, "chan send", func() bool { return w.done || ch.closed })
	if !w.done {
		panic(targetPanic{runtime: true, msg: "send on closed channel", where: m.eng.pos(fr)})
	}
	m.joinClk(w.clk)
}

func (m *Machine) clkCopy() vclock {
	if !m.multi {
		return nil
	}
	return m.cur.clk.copy()
}
func (m *Machine) tickIf() {
	if m.multi {
		m.tick()
	}
}
func (m *Machine) joinClk(c vclock) {
	if m.multi && c != nil {
		if m.cur.clk == nil {
			m.cur.clk = vclock{}
		}
		m.cur.clk.join(c)
		m.calm()
	}
}

func (m *Machine) recv(fr *Frame, ch *Chan, et types.Type) (Value, bool) {
	m.yieldPoint(fr)
	if ch == nil {
		m.block(fr, "receive from nil channel", func() bool { return false })
	}
	m.block(fr, "chan receive", func() bool { return len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed })
	return m.recvNow(ch, et)
}

func (m *Machine) recvNow(ch *Chan, et types.Type) (Value, bool) {
	if len(ch.buf) > 0 {
		x := ch.buf[0]
		ch.buf = ch.buf[1:]
		m.joinClk(x.clk)
		if m.multi {
			ch.recvClk = append(ch.recvClk, m.clkCopy())
			m.tick()
		}
		return x.v, true
	}
	if len(ch.sendq) > 0 {
		w := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		m.joinClk(w.clk)
		w.clk = m.clkCopy()
		w.done = true
		m.tickIf()
		return w.v, true
	}
	m.joinClk(ch.clkCls)
	return zero(et), false
}

func (m *Machine) closeChan(fr *Frame, ch *Chan) {
	m.yieldPoint(fr)
	if ch == nil {
		panic(targetPanic{runtime: true, msg: "close of nil channel", where: m.eng.pos(fr)})
	}
	if ch.closed {
		panic(targetPanic{runtime: true, msg: "close of closed channel", where: m.eng.pos(fr)})
	}
	ch.closed = true
	ch.clkCls = m.clkCopy()
	m.tickIf()
}

func (m *Machine) selectStmt(fr *Frame, in *ssa.Select) Value {
	m.yieldPoint(fr)
	type st struct {
		ch  *Chan
		snd bool
		v   Value
		et  types.Type
	}
	var sts []st
	for _, s := range in.States {
		ch, _ := fr.get(s.Chan).(*Chan)
		x := st{ch: ch, snd: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if x.snd {
			x.v = copyVal(fr.get(s.Send))
		}
		sts = append(sts, x)
	}
	readyIdx := func() []int {
		var r []int
		for i, s := range sts {
			if s.ch == nil {
				continue
			}
			if s.snd {
				if s.ch.closed || len(s.ch.buf) < s.ch.cap {
					r = append(r, i)
				}
			} else if len(s.ch.buf) > 0 || len(s.ch.sendq) > 0 || s.ch.closed {
				r = append(r, i)
			}
		}
		return r
	}
	for _, s := range sts {
		if s.snd && s.ch != nil && s.ch.cap == 0 {
			panic(unsupported{"select with send on unbuffered channel"})
		}
	}
	r := readyIdx()
	if len(r) == 0 {
		if !in.Blocking {
			return m.selResult(in, -1, nil, false)
		}
		m.block(fr, "select", func() bool { return len(readyIdx()) > 0 })
		r = readyIdx()
	}
	k := 0
	if len(r) > 1 {
		k = m.choose(len(r), "select")
	}
	s := sts[r[k]]
	if s.snd {
		if s.ch.closed {
			panic(targetPanic{runtime: true, msg: "send on closed channel", where: m.eng.pos(fr)})
		}
		s.ch.buf = append(s.ch.buf, chanMsg{s.v, m.clkCopy()})
		m.tickIf()
		return m.selResult(in, r[k], nil, false)
	}
	v, ok := m.recvNow(s.ch, s.et)
	return m.selResult(in, r[k], v, ok)
}

func (m *Machine) selResult(in *ssa.Select, idx int, v Value, ok bool) Value {
	t := Tuple{int64(idx), ok}
	for i, s := range in.States {
		if s.Dir == types.SendOnly {
			continue
		}
		if i == idx {
			t = append(t, v)
		} else {
			t = append(t, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	return t
}

// ---- race detection ----

func (m *Machine) access(fr *Frame, p *Value, write bool) {
	if !m.multi || m.quiet {
		return
	}
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			m.access(fr, &x[i], write)
		}
		return
	case Array:
		for i := range x {
			m.access(fr, &x[i], write)
		}
		return
	}
	g := m.cur
	now := g.clk[g.id]
	g.acc = now
	s := m.shadow[p]
	if s == nil {
		s = &shadow{wg: -1, rg: -1}
		m.shadow[p] = s
	}
	if s.wg >= 0 && s.wg != g.id && g.clk[s.wg] < s.wc {
		m.race(fr, s, write, "write")
	}
	if write {
		if s.rg >= 0 && s.rg != g.id && g.clk[s.rg] < s.rc {
			m.race(fr, s, write, "read")
		}
		for r, c := range s.reads {
			if r != g.id && g.clk[r] < c {
				m.race(fr, s, write, "read")
			}
		}
		s.wg, s.wc = g.id, now
		s.rg, s.reads = -1, nil
	} else if s.rg < 0 || s.rg == g.id {
		s.rg, s.rc = g.id, now
	} else {
		if s.reads == nil {
			s.reads = map[int]int{}
		}
		s.reads[g.id] = now
	}
	if fr != nil {
		s.fn, s.instr = fr.fn, fr.instr
	}
}

func (m *Machine) race(fr *Frame, s *shadow, write bool, other string) {
	k := "read"
	if write {
		k = "write"
	}
	panic(targetPanic{runtime: true, msg: "data race: unsynchronised " + k + " after " + other + " at " + m.eng.pos(&Frame{fn: s.fn, instr: s.instr}), where: m.eng.pos(fr)})
}
