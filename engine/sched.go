package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type syncOp uint8

const (
	opNone syncOp = iota
	opLock
	opRLock
	opWLock
	opWait
	opRecv
	opSend
	opSelect
	opAtomic
	opSleep
	opDrain
	opUnlockNone
)

var opName = map[syncOp]string{opLock: "lock", opRLock: "rlock", opWLock: "wlock", opWait: "wait", opRecv: "recv", opSend: "send", opSelect: "select", opAtomic: "atomic", opSleep: "sleep", opDrain: "drain"}

func acquireOp(key string) syncOp {
	switch key {
	case "(*sync.Mutex).Lock":
		return opLock
	case "(*sync.RWMutex).RLock":
		return opRLock
	case "(*sync.RWMutex).Lock":
		return opWLock
	case "(*sync.WaitGroup).Wait":
		return opWait
	case "time.Sleep":
		return opSleep
	case "github.com/sisu-network/dheart/verifrt.Drain":
		return opDrain
	}
	if strings.HasPrefix(key, "(*go.uber.org/atomic.") || strings.HasPrefix(key, "sync/atomic.") || strings.HasPrefix(key, "(*sync/atomic.") {
		return opAtomic
	}
	return opNone
}

type waiter struct {
	g    *goroutine
	val  value // value to send
	vc   vclock
	dst  func(v value, ok bool) // receive completion
	sel  *selState
	cas  int
	done bool
}

type selState struct {
	fired bool
	ev    int // index of the park event
	fin   func(cas int, v value, ok bool)
}

type mutexState struct {
	locked  bool
	owner   int
	vc      vclock
	readers int
	rvc     vclock
	pendW   []*goroutine // writers holding rw.w or queued
	writer  *goroutine   // pending or active writer
	wActive bool
	waitR   []*goroutine
	grant   map[*goroutine]bool
}

type wgState struct {
	n  int64
	vc vclock
}

type timer struct {
	when   int64
	seq    int
	fire   func()
	active bool
	period int64
	label  string
}

// Event is one entry of a native replay schedule.
type Event struct {
	G    int    `json:"g"`
	Op   string `json:"op"`
	Case int    `json:"c,omitempty"`
	Park bool   `json:"p,omitempty"`
}

// point is a scheduling point before an acquire operation. It returns true if
// the goroutine was preempted.
func (m *Machine) point(g *goroutine, fr *frame, op syncOp) bool {
	if m.nested > 0 || g.hidden {
		return false
	}
	if !fr.cf.instr {
		return false
	}
	if fr.atPoint {
		return false
	}
	if op == opAtomic && !m.cfg.AtomicPoints {
		return false
	}
	fr.atPoint = true
	if m.preemptLeft > 0 && op != opDrain {
		en := m.enabled(g)
		if len(en) > 0 {
			k := m.choose("sched", len(en)+1)
			if k > 0 {
				m.preemptLeft--
				m.switchTo = en[k-1]
				return true
			}
		}
	}
	return false
}

// enabled lists the goroutines other than g that can run; nil stands for the clock.
func (m *Machine) enabled(g *goroutine) []*goroutine {
	var en []*goroutine
	for _, x := range m.gs {
		if x == g || x.draining {
			continue
		}
		if m.canRun(x) {
			en = append(en, x)
		}
	}
	if m.cfg.AnyTimer && m.nextTimer() != nil {
		en = append(en, nil)
	}
	return en
}

func (m *Machine) canRun(x *goroutine) bool {
	switch x.status {
	case gRun:
		return true
	case gBlocked:
		return x.ready != nil && x.ready()
	}
	return false
}

func (m *Machine) block(g *goroutine, what string, ready func() bool) {
	g.status = gBlocked
	g.waiting = what
	g.ready = ready
}

func (m *Machine) unblock(g *goroutine) {
	g.status = gRun
	g.ready = nil
}

func (m *Machine) event(g *goroutine, fr *frame, op string, cas int, park bool) {
	if m.nested > 0 || g.hidden || (fr != nil && !fr.cf.instr) {
		return
	}
	if op == "atomic" && !m.cfg.AtomicPoints {
		return
	}
	m.events = append(m.events, Event{g.id, op, cas, park})
}

func (m *Machine) spawn(g *goroutine, fn value, args []value, inst bool) {
	if m.inInit > 0 {
		return
	}
	n := &goroutine{id: len(m.gs), vc: g.vc.copy(), inst: inst}
	n.vc.tick(n.id)
	g.vc.tick(g.id)
	m.gs = append(m.gs, n)
	if len(m.gs) > 1000 {
		panic(unsupported("more than 1000 goroutines"))
	}
	save := m.cur
	m.cur = n
	m.invoke(n, fn, args, -1, nil2)
	m.cur = save
	if len(n.frames) == 0 {
		n.status = gDone
	}
}

func nil2(*Machine, value) {}

func (m *Machine) yieldNow(g *goroutine) bool { return m.switchTo != nil }

// ---- channels ----

func (m *Machine) doSend(g *goroutine, fr *frame, c value, v value) bool {
	ch, _ := c.(*chanv)
	if ch == nil {
		if _, isP := c.(poison); isP {
			panic(unsupported("send on poison channel"))
		}
		fr.atPoint = false
		m.event(g, fr, "send", 0, true)
		m.block(g, "send on nil channel", nil)
		return true
	}
	if ch.closed {
		m.event(g, fr, "send", 0, false)
		fr.atPoint = false
		panic(goPanic{m.runtimeErr("send on closed channel")})
	}
	svc := g.vc.copy()
	g.vc.tick(g.id)
	if w := popWaiter(&ch.recvq); w != nil {
		m.event(g, fr, "send", 0, false)
		wvc := w.g.vc.copy()
		w.g.vc.tick(w.g.id)
		m.completeRecv(w, copyVal(v), true, svc)
		g.vc.join(wvc)
		fr.atPoint = false
		fr.pc++
		return false
	}
	if len(ch.buf) < ch.cap {
		m.event(g, fr, "send", 0, false)
		ch.buf = append(ch.buf, copyVal(v))
		ch.bufVC = append(ch.bufVC, svc)
		g.vc.join(ch.vc)
		fr.atPoint = false
		fr.pc++
		return false
	}
	m.event(g, fr, "send", 0, true)
	if m.nested > 0 {
		panic(unsupported("blocking send in nested call"))
	}
	w := &waiter{g: g, val: copyVal(v), vc: svc}
	ch.sendq = append(ch.sendq, w)
	m.block(g, fmt.Sprintf("send on full channel at %s", m.where(g)), nil)
	fr.atPoint = false
	fr.pc++
	return true
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func (m *Machine) wakeParked(g *goroutine) {
	m.unblock(g)
	g.resume = true
}

func (m *Machine) completeRecv(w *waiter, v value, ok bool, vc vclock) {
	w.g.vc.join(vc)
	if w.sel != nil {
		w.sel.fired = true
		if w.sel.ev >= 0 {
			m.events[w.sel.ev].Case = w.cas
		}
		w.sel.fin(w.cas, v, ok)
	} else {
		w.dst(v, ok)
	}
	m.wakeParked(w.g)
}

func (m *Machine) completeSend(w *waiter) {
	if w.sel != nil {
		w.sel.fired = true
		if w.sel.ev >= 0 {
			m.events[w.sel.ev].Case = w.cas
		}
		w.sel.fin(w.cas, nil, false)
	}
	m.wakeParked(w.g)
}

// tryRecv performs a receive if one is possible.
func (m *Machine) tryRecv(g *goroutine, ch *chanv) (value, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		g.vc.join(ch.bufVC[0])
		ch.buf = append([]value(nil), ch.buf[1:]...)
		ch.bufVC = append([]vclock(nil), ch.bufVC[1:]...)
		ch.vc = ch.vc.copy()
		ch.vc.join(g.vc)
		g.vc.tick(g.id)
		if w := popWaiter(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			ch.bufVC = append(ch.bufVC, w.vc)
			m.completeSend(w)
		}
		return v, true, true
	}
	if w := popWaiter(&ch.sendq); w != nil {
		w.g.vc.join(g.vc)
		g.vc.tick(g.id)
		g.vc.join(w.vc)
		m.completeSend(w)
		return w.val, true, true
	}
	if ch.closed {
		g.vc.join(ch.vc)
		return zero(ch.elem), false, true
	}
	return nil, false, false
}

func (m *Machine) doRecv(g *goroutine, fr *frame, c value, dst int, commaOk bool, ct types.Type) bool {
	ch, _ := c.(*chanv)
	set := func(v value, ok bool) {
		if commaOk {
			fr.regs[dst] = tuple{v, cBool(ok)}
		} else {
			fr.regs[dst] = v
		}
	}
	if ch == nil {
		if _, isP := c.(poison); isP {
			panic(unsupported("receive on poison channel"))
		}
		m.event(g, fr, "recv", 0, true)
		fr.atPoint = false
		m.block(g, "receive on nil channel", nil)
		return true
	}
	if v, ok, done := m.tryRecv(g, ch); done {
		m.event(g, fr, "recv", 0, false)
		set(v, ok)
		fr.atPoint = false
		fr.pc++
		return false
	}
	if m.nested > 0 {
		panic(unsupported("blocking receive in nested call"))
	}
	m.event(g, fr, "recv", 0, true)
	ch.recvq = append(ch.recvq, &waiter{g: g, dst: set})
	m.block(g, fmt.Sprintf("receive at %s", m.where(g)), nil)
	fr.atPoint = false
	fr.pc++
	return true
}

func (m *Machine) closeChan(ch *chanv) {
	if ch == nil {
		panic(goPanic{m.runtimeErr("close of nil channel")})
	}
	if ch.closed {
		panic(goPanic{iface{t: m.E.rterrT, v: "close of closed channel"}})
	}
	ch.closed = true
	g := m.cur
	ch.vc = ch.vc.copy()
	ch.vc.join(g.vc)
	for {
		w := popWaiter(&ch.recvq)
		if w == nil {
			break
		}
		m.completeRecv(w, zero(ch.elem), false, g.vc)
	}
	g.vc.tick(g.id)
	if len(ch.sendq) > 0 {
		panic(unsupported("close of a channel with blocked senders"))
	}
}

func (m *Machine) doSelect(g *goroutine, fr *frame, ci *cinstr, in *ssa.Select) bool {
	type st struct {
		ch  *chanv
		val value
	}
	states := make([]st, len(in.States))
	var readyIdx []int
	k := 0
	for i, s := range in.States {
		c, _ := m.get(fr, &ci.ops[k]).(*chanv)
		k++
		states[i].ch = c
		if s.Send != nil {
			states[i].val = m.get(fr, &ci.ops[k])
		}
		k++ // the operands alternate, also without a value to send
		if c == nil {
			continue
		}
		if s.Dir == types.SendOnly {
			if c.closed || len(c.buf) < c.cap || hasWaiter(c.recvq) {
				readyIdx = append(readyIdx, i)
			}
		} else if len(c.buf) > 0 || hasWaiter(c.sendq) || c.closed {
			readyIdx = append(readyIdx, i)
		}
	}
	// result tuple: index, recvOk, then one value per receive case
	fin := func(cas int, v value, ok bool) {
		t := tuple{cInt(cas), cBool(ok)}
		for i, s := range in.States {
			if s.Dir == types.RecvOnly {
				if i == cas {
					t = append(t, v)
				} else {
					t = append(t, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		fr.regs[ci.dst] = t
	}
	if len(readyIdx) > 0 {
		c := readyIdx[0]
		if len(readyIdx) > 1 && !m.cfg.SelectFirst {
			c = readyIdx[m.choose("select", len(readyIdx))]
		}
		m.event(g, fr, "select", c, false)
		fr.atPoint = false
		ch := states[c].ch
		if in.States[c].Dir == types.SendOnly {
			if ch.closed {
				panic(goPanic{m.runtimeErr("send on closed channel")})
			}
			svc := g.vc.copy()
			g.vc.tick(g.id)
			if w := popWaiter(&ch.recvq); w != nil {
				m.completeRecv(w, copyVal(states[c].val), true, svc)
			} else {
				ch.buf = append(ch.buf, copyVal(states[c].val))
				ch.bufVC = append(ch.bufVC, svc)
			}
			fin(c, nil, false)
		} else {
			v, ok, done := m.tryRecv(g, ch)
			if !done {
				panic("select: not ready")
			}
			fin(c, v, ok)
		}
		fr.pc++
		return false
	}
	if !in.Blocking {
		m.event(g, fr, "select", -1, false)
		fin(-1, nil, false)
		fr.atPoint = false
		fr.pc++
		return false
	}
	if m.nested > 0 {
		panic(unsupported("blocking select in nested call"))
	}
	m.event(g, fr, "select", -2, true)
	ss := &selState{fin: fin, ev: len(m.events) - 1}
	if g.hidden || m.nested > 0 || !fr.cf.instr {
		ss.ev = -1
	}
	for i, s := range in.States {
		ch := states[i].ch
		if ch == nil {
			continue
		}
		w := &waiter{g: g, sel: ss, cas: i}
		if s.Dir == types.SendOnly {
			w.val = copyVal(states[i].val)
			w.vc = g.vc.copy()
			ch.sendq = append(ch.sendq, w)
		} else {
			ch.recvq = append(ch.recvq, w)
		}
	}
	m.block(g, fmt.Sprintf("select at %s", m.where(g)), nil)
	fr.atPoint = false
	fr.pc++
	return true
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

// ---- mutexes, wait groups, sleeping ----

func (m *Machine) mutex(p *value) *mutexState {
	s := m.mutexes[p]
	if s == nil {
		s = &mutexState{grant: map[*goroutine]bool{}}
		m.mutexes[p] = s
	}
	return s
}

// syncCall executes an acquire operation at the current call instruction.
func (m *Machine) syncCall(g *goroutine, fr *frame, ci *cinstr, f *ssa.Function, op syncOp, args []value) bool {
	finish := func(v value) bool {
		fr.regs[ci.dst] = v
		fr.atPoint = false
		fr.pc++
		return false
	}
	switch op {
	case opLock:
		mu := m.mutex(m.ptr(args[0]))
		if mu.locked {
			if m.nested > 0 {
				panic(unsupported("blocking lock in nested call"))
			}
			m.block(g, fmt.Sprintf("Lock at %s", m.where(g)), func() bool { return !mu.locked })
			return true
		}
		m.event(g, fr, "lock", 0, false)
		mu.locked = true
		mu.owner = g.id
		g.vc.join(mu.vc)
		return finish(nil)
	case opWLock:
		mu := m.mutex(m.ptr(args[0]))
		if mu.grant[g] {
			delete(mu.grant, g)
			g.vc.join(mu.vc)
			g.vc.join(mu.rvc)
			return finish(nil)
		}
		if mu.writer == nil && mu.readers == 0 {
			m.event(g, fr, "wlock", 0, false)
			mu.writer, mu.wActive = g, true
			g.vc.join(mu.vc)
			g.vc.join(mu.rvc)
			return finish(nil)
		}
		if m.nested > 0 {
			panic(unsupported("blocking lock in nested call"))
		}
		m.event(g, fr, "wlock", 0, true)
		if mu.writer == nil {
			mu.writer = g
		} else {
			mu.pendW = append(mu.pendW, g)
		}
		m.block(g, fmt.Sprintf("Lock at %s", m.where(g)), nil)
		return true
	case opRLock:
		mu := m.mutex(m.ptr(args[0]))
		if mu.grant[g] {
			delete(mu.grant, g)
			g.vc.join(mu.vc)
			return finish(nil)
		}
		if mu.writer == nil {
			m.event(g, fr, "rlock", 0, false)
			mu.readers++
			g.vc.join(mu.vc)
			return finish(nil)
		}
		if m.nested > 0 {
			panic(unsupported("blocking rlock in nested call"))
		}
		m.event(g, fr, "rlock", 0, true)
		mu.waitR = append(mu.waitR, g)
		m.block(g, fmt.Sprintf("RLock at %s", m.where(g)), nil)
		return true
	case opWait:
		p := m.ptr(args[0])
		w := m.wg(p)
		if w.n > 0 {
			if m.nested > 0 {
				panic(unsupported("blocking wait in nested call"))
			}
			m.block(g, fmt.Sprintf("WaitGroup.Wait at %s", m.where(g)), func() bool { return w.n <= 0 })
			return true
		}
		m.event(g, fr, "wait", 0, false)
		g.vc.join(w.vc)
		return finish(nil)
	case opSleep:
		if g.sleeping {
			g.sleeping = false
			return finish(nil)
		}
		d := m.intArg(args[0], "sleep duration")
		if m.nested > 0 {
			return finish(nil)
		}
		m.event(g, fr, "sleep", 0, true)
		g.sleeping = true
		m.addTimer(int64(d), 0, "sleep", func() { m.wakeParked(g) })
		m.block(g, fmt.Sprintf("Sleep at %s", m.where(g)), nil)
		return true
	case opDrain:
		if g.draining && g.ready == nil {
			g.draining = false
			m.event(g, fr, "drain", 0, false)
			return finish(cInt(m.blockedCount(g)))
		}
		g.draining = true
		g.status = gBlocked
		g.waiting = "drain"
		m.drainTimers = m.intArg(args[0], "drain")
		return true
	case opAtomic:
		m.event(g, fr, "atomic", 0, false)
		fr.atPoint = false
		fr.pc++
		if in, ok := m.E.intr[fnKey(f)]; ok {
			fr.regs[ci.dst] = in(m, g, f, args)
			return false
		}
		m.invoke(g, f, args, ci.dst, nil)
		return g.status != gRun
	}
	panic("syncCall")
}

// blockedCount counts goroutines started by instrumented code that are blocked.
func (m *Machine) blockedCount(self *goroutine) int {
	n := 0
	for _, x := range m.gs {
		if x != self && x.status == gBlocked {
			n++
		}
	}
	return n
}

func (m *Machine) unlock(g *goroutine, p *value) {
	mu := m.mutex(p)
	if !mu.locked {
		m.fatal(g, "fatal error: sync: unlock of unlocked mutex")
	}
	mu.locked = false
	mu.vc = g.vc.copy()
	g.vc.tick(g.id)
}

func (m *Machine) runlock(g *goroutine, p *value) {
	mu := m.mutex(p)
	if mu.readers <= 0 {
		m.fatal(g, "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	mu.readers--
	mu.rvc = mu.rvc.copy()
	mu.rvc.join(g.vc)
	g.vc.tick(g.id)
	if mu.readers == 0 && mu.writer != nil && !mu.wActive {
		mu.wActive = true
		mu.grant[mu.writer] = true
		m.wakeParked(mu.writer)
	}
}

func (m *Machine) wunlock(g *goroutine, p *value) {
	mu := m.mutex(p)
	if !mu.wActive {
		m.fatal(g, "fatal error: sync: Unlock of unlocked RWMutex")
	}
	mu.vc = g.vc.copy()
	g.vc.tick(g.id)
	mu.writer, mu.wActive = nil, false
	for _, r := range mu.waitR {
		mu.readers++
		mu.grant[r] = true
		m.wakeParked(r)
	}
	mu.waitR = nil
	if len(mu.pendW) > 0 {
		w := mu.pendW[0]
		mu.pendW = mu.pendW[1:]
		mu.writer = w
		if mu.readers == 0 {
			mu.wActive = true
			mu.grant[w] = true
			m.wakeParked(w)
		}
	}
}

func (m *Machine) wg(p *value) *wgState {
	s := m.wgs[p]
	if s == nil {
		s = &wgState{}
		m.wgs[p] = s
	}
	return s
}

// ---- timers ----

func (m *Machine) addTimer(d, period int64, label string, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	m.tseq++
	t := &timer{when: m.now + d, seq: m.tseq, fire: fire, active: true, period: period, label: label}
	m.timers = append(m.timers, t)
	return t
}

func (m *Machine) nextTimer() *timer {
	var best *timer
	for _, t := range m.timers {
		if t.active && (best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq)) {
			best = t
		}
	}
	return best
}

func (m *Machine) fireTimer(t *timer) {
	if t.when > m.now {
		m.now = t.when
	}
	if t.period > 0 {
		t.when += t.period
	} else {
		t.active = false
		live := m.timers[:0:0]
		for _, x := range m.timers {
			if x.active {
				live = append(live, x)
			}
		}
		m.timers = live
	}
	m.events = append(m.events, Event{G: -1, Op: "clock", Case: t.seq})
	m.nfired++
	if m.nfired > m.cfg.maxFires() {
		panic(pathEnd{"timer limit"})
	}
	t.fire()
}

// chanSendNB sends without blocking (timer channels).
func (m *Machine) chanSendNB(ch *chanv, v value) {
	if w := popWaiter(&ch.recvq); w != nil {
		m.completeRecv(w, v, true, nil)
		return
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		ch.bufVC = append(ch.bufVC, nil)
	}
}

// ---- data race detection ----

type vclock map[int]int

func (v vclock) copy() vclock {
	n := make(vclock, len(v))
	for k, x := range v {
		n[k] = x
	}
	return n
}

func (v *vclock) join(o vclock) {
	if *v == nil {
		*v = vclock{}
	}
	for k, x := range o {
		if x > (*v)[k] {
			(*v)[k] = x
		}
	}
}

func (v *vclock) tick(g int) {
	if *v == nil {
		*v = vclock{}
	}
	(*v)[g]++
}

type access struct {
	g, clk int
	loc    string
}

type shadow struct {
	w     *access
	reads []access
}

func (m *Machine) race(g *goroutine, p *value, write bool) {
	if m.inInit > 0 || m.cfg == nil || !m.cfg.Race || g == nil || g.hidden || len(g.frames) == 0 {
		return
	}
	for i := len(g.frames) - 1; i >= 0; i-- {
		if g.frames[i].cf.harn {
			return
		}
		if g.frames[i].cf.instr {
			break
		}
	}
	if s, ok := (*p).(structure); ok {
		for i := range s {
			m.race(g, &s[i], write)
		}
		return
	}
	sh := m.shadows[p]
	if sh == nil {
		sh = &shadow{}
		m.shadows[p] = sh
	}
	me := access{g: g.id, clk: g.vc[g.id], loc: ""}
	conflict := func(a *access) bool { return a != nil && a.g != g.id && a.clk > g.vc[a.g] }
	if conflict(sh.w) {
		me.loc = m.where(g)
		m.reportRace(g, sh.w.loc, me.loc)
	}
	if write {
		for i := range sh.reads {
			if conflict(&sh.reads[i]) {
				me.loc = m.where(g)
				m.reportRace(g, sh.reads[i].loc, me.loc)
			}
		}
		if me.loc == "" {
			me.loc = m.where(g)
		}
		sh.w = &me
		sh.reads = nil
	} else {
		for i := range sh.reads {
			if sh.reads[i].g == g.id {
				sh.reads[i].clk = me.clk
				return
			}
		}
		me.loc = m.where(g)
		sh.reads = append(sh.reads, me)
	}
}

func (m *Machine) raceSlice(s slice, write bool) {
	if !m.cfg.Race {
		return
	}
	for i := range s {
		m.race(m.cur, &s[i], write)
	}
}
