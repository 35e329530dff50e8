package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one resolved nondeterministic step of a path.
type Decision struct {
	K byte // 'b' branch, 'c' choice, 'v' value, 'a' assertion
	V uint64
}

type Config struct {
	Name            string         `json:"name"`
	Func            string         `json:"func"`
	Preempt         int            `json:"preempt"`
	FreeSched       bool           `json:"free_sched"`
	MapOrder        bool           `json:"map_order"`
	MapOrderOf      string         `json:"map_order_of"`
	AnyTimer        bool           `json:"any_timer"`
	SelectFirst     bool           `json:"select_first"`
	AtomicPoints    bool           `json:"atomic_points"`
	Race            bool           `json:"race"`
	DeadlockOK      bool           `json:"deadlock_ok"`
	PanicOK         []string       `json:"panic_ok"`
	Bounds          string         `json:"bounds"`
	BudgetS         int            `json:"budget_s"`
	ThoroughS       int            `json:"thorough_s"`
	MaxSteps        int            `json:"max_steps"`
	MaxFires        int            `json:"max_fires"`
	Reach           []string       `json:"reach"`
	Quick           map[string]int `json:"quick"`
	Thorough        map[string]int `json:"thorough"`
	ThoroughOnly    bool           `json:"thorough_only"`
	ReplayRace      bool           `json:"replay_race"`
	NoReplay        bool           `json:"no_replay"`
	PreemptThorough int            `json:"preempt_thorough"`
}

func (c *Config) maxFires() int {
	if c.MaxFires > 0 {
		return c.MaxFires
	}
	return 200
}

type pathEnd struct{ why string }

// Machine executes one path.
type Machine struct {
	E              *Env
	W              *worker
	tc             *TermCtx
	cfg            *Config
	params         map[string]int
	prefix         []Decision
	trace          []Decision
	pc             []*Term
	model          *Model
	gs             []*goroutine
	cur            *goroutine
	switchTo       *goroutine
	toClock        bool
	globals        map[*ssa.Global]*value
	inited         map[*ssa.Package]int
	inInit         int
	nested         int
	steps          int
	maxSteps       int
	hard           time.Time // the path is given up here
	nchan          int
	names          map[string]int
	mutexes        map[*value]*mutexState
	wgs            map[*value]*wgState
	timers         []*timer
	tseq           int
	now            int64
	nfired         int
	events         []Event
	ranges         []*rangeRec
	atEnd          []func(*Model)
	shadows        map[*value]*shadow
	fnSeen         map[*ssa.Function]bool
	usedStubs      map[string]bool
	notes          map[string]bool
	implCache      map[implKey]bool
	preemptLeft    int
	drainTimers    int
	inputs         []inputRec
	obs            []obsRec
	reached        map[string]bool
	errLoc         string
	lossyFmt       int
	lastPanicStack []string
	side           map[string]interface{}
	sideN          int
	hashes         []hashRec
	racesSeen      map[string]bool
	branches       int
}

type implKey = struct {
	t  types.Type
	it *types.Interface
}

type inputRec struct {
	name string
	w    uint8
	t    *Term
}

type obsRec struct {
	tag string
	v   value
}

func newMachine(E *Env, W *worker, cfg *Config) *Machine {
	m := &Machine{E: E, W: W, cfg: cfg, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]int{}, names: map[string]int{},
		mutexes: map[*value]*mutexState{}, wgs: map[*value]*wgState{}, shadows: map[*value]*shadow{}, fnSeen: map[*ssa.Function]bool{},
		usedStubs: map[string]bool{}, notes: map[string]bool{}, implCache: map[implKey]bool{}, reached: map[string]bool{}, side: map[string]interface{}{},
		racesSeen: map[string]bool{}, maxSteps: 3000000}
	if W != nil {
		m.tc = W.tc
	} else {
		m.tc = newTermCtx()
	}
	if cfg != nil {
		m.preemptLeft = cfg.Preempt
		if cfg.MaxSteps > 0 {
			m.maxSteps = cfg.MaxSteps
		}
	}
	return m
}

func (m *Machine) note(s string) { m.notes[s] = true }

func (m *Machine) addPC(t *Term) {
	if t.op == OConst {
		return
	}
	if t.op == OAnd {
		m.addPC(t.a[0])
		m.addPC(t.a[1])
		return
	}
	m.pc = append(m.pc, t)
}

func (m *Machine) dir(c *Term, v uint64) *Term {
	if v == 1 {
		return c
	}
	return m.tc.Not(c)
}

func (m *Machine) fork(d Decision, md *Model) {
	p := make([]Decision, len(m.trace)+1)
	copy(p, m.trace)
	p[len(m.trace)] = d
	m.W.enqueue(&item{prefix: p, model: md.vals})
}

// branch decides a condition, forking when both directions are feasible.
// checkTime gives up a path that goes on after the time of the harness is over.
func (m *Machine) checkTime() {
	if !m.hard.IsZero() && time.Now().After(m.hard) {
		panic(unsupported("time limit within a path"))
	}
}

func (m *Machine) branch(c *Term) bool {
	if c.op == OConst {
		return c.val == 1
	}
	if m.W == nil {
		panic(unsupported("symbolic branch during frozen initialisation"))
	}
	if n := len(m.trace); n < len(m.prefix) {
		d := m.prefix[n]
		if d.K != 'b' {
			panic(fmt.Sprintf("replay divergence: branch vs %c", d.K))
		}
		m.trace = append(m.trace, d)
		m.addPC(m.dir(c, d.V))
		return d.V == 1
	}
	m.branches++
	m.checkTime()
	v := m.model.eval(c)
	r, md := m.W.sol.check(m.pc, m.dir(c, 1-v), true)
	switch r {
	case sat:
		m.fork(Decision{'b', 1 - v}, md)
	case unknown:
		m.W.ex.incomplete("solver gave no verdict on a branch")
	}
	m.trace = append(m.trace, Decision{'b', v})
	m.addPC(m.dir(c, v))
	return v == 1
}

func (m *Machine) fresh(name string, w uint8) *Term {
	k := m.names[name]
	m.names[name] = k + 1
	t := m.tc.Var(fmt.Sprintf("%s#%d", name, k), w)
	return t
}

// choose resolves an n-ary free choice (a solver variable constrained to < n).
func (m *Machine) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	t := m.fresh(name, 8)
	return m.chooseVar(t, n)
}

func (m *Machine) chooseVar(t *Term, n int) int {
	var v uint64
	if k := len(m.trace); k < len(m.prefix) {
		d := m.prefix[k]
		if d.K != 'c' {
			panic(fmt.Sprintf("replay divergence: choice vs %c", d.K))
		}
		v = d.V
	} else {
		v = m.model.eval(t)
		if v >= uint64(n) {
			v = 0
			m.model = m.withVal(t.name, 0)
		}
		for j := uint64(0); j < uint64(n); j++ {
			if j != v {
				m.fork(Decision{'c', j}, m.withVal(t.name, j))
			}
		}
		m.branches++
	}
	m.trace = append(m.trace, Decision{'c', v})
	m.addPC(m.tc.Eq(t, cBV(8, v)))
	return int(v)
}

func (m *Machine) withVal(name string, v uint64) *Model {
	n := &Model{vals: make(map[string]uint64, len(m.model.vals)+1)}
	for k, x := range m.model.vals {
		n.vals[k] = x
	}
	n.vals[name] = v
	return n
}

// concretize forks over all feasible values of t.
func (m *Machine) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if m.W == nil {
		panic(unsupported("symbolic value during frozen initialisation"))
	}
	var v uint64
	if k := len(m.trace); k < len(m.prefix) {
		d := m.prefix[k]
		if d.K != 'v' {
			panic(fmt.Sprintf("replay divergence: value vs %c", d.K))
		}
		v = d.V
	} else {
		m.branches++
		v = m.model.eval(t)
		ex := m.tc.Not(m.tc.Eq(t, cBV(t.w, v)))
		for i := 0; ; i++ {
			if i >= 300 {
				m.W.ex.incomplete("more than 300 values for one concretised term at " + m.where(m.cur))
				break
			}
			r, md := m.W.sol.check(m.pc, ex, true)
			if r == unknown {
				m.W.ex.incomplete("solver gave no verdict on a value")
			}
			if r != sat {
				break
			}
			w := md.eval(t)
			m.fork(Decision{'v', w}, md)
			ex = m.tc.And(ex, m.tc.Not(m.tc.Eq(t, cBV(t.w, w))))
		}
	}
	m.trace = append(m.trace, Decision{'v', v})
	m.addPC(m.tc.Eq(t, cBV(t.w, v)))
	return v
}

func (m *Machine) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"assume"})
	}
	if len(m.trace) >= len(m.prefix) && m.model.eval(c) != 1 {
		r, md := m.W.sol.check(m.pc, c, true)
		if r == unknown {
			m.W.ex.incomplete("solver gave no verdict on an assumption")
		}
		if r != sat {
			panic(pathEnd{"assume"})
		}
		m.model = md
	}
	m.addPC(c)
}

func (m *Machine) assert(g *goroutine, c *Term, msg string) {
	m.W.ex.countAssert(msg)
	if c.isTrue() {
		return
	}
	if k := len(m.trace); k < len(m.prefix) {
		if m.prefix[k].K != 'a' {
			panic(fmt.Sprintf("replay divergence: assert vs %c", m.prefix[k].K))
		}
		m.trace = append(m.trace, m.prefix[k])
		m.addPC(c)
		return
	}
	if c.isFalse() {
		m.violation(msg, m.model, g)
		panic(pathEnd{"assertion failed"})
	}
	r, md := m.W.sol.check(m.pc, m.tc.Not(c), true)
	switch r {
	case sat:
		m.violation(msg, md, g)
	case unknown:
		m.W.ex.incomplete("solver gave no verdict on assertion " + msg)
	}
	if m.model.eval(c) != 1 {
		r, md := m.W.sol.check(m.pc, c, true)
		if r != sat {
			panic(pathEnd{"assertion failed"})
		}
		m.model = md
	}
	m.trace = append(m.trace, Decision{'a', 1})
	m.addPC(c)
}

func (m *Machine) violation(msg string, md *Model, g *goroutine) {
	if len(m.trace) < len(m.prefix) {
		return
	}
	m.W.ex.violation(m, msg, md, g)
}

func (m *Machine) uncaughtPanic(g *goroutine, ps *panicState) {
	txt := "panic: " + m.show(ps.val)
	for _, ok := range m.cfg.PanicOK {
		if strings.Contains(txt, ok) {
			panic(pathEnd{"allowed panic"})
		}
	}
	fn := "?"
	for _, s := range m.lastPanicStack {
		if strings.Contains(s, m.E.repoPath) && !strings.Contains(s, "verifrt") {
			fn = strings.Fields(s)[0]
			break
		}
	}
	m.violation("crash in "+fn+": "+txt, m.model, g)
	panic(pathEnd{"uncaught panic"})
}

func (m *Machine) fatal(g *goroutine, msg string) {
	m.violation("crash in "+m.whereFn(g)+": "+msg, m.model, g)
	panic(pathEnd{"fatal error"})
}

func (m *Machine) reportRace(g *goroutine, a, b string) {
	fa, fb := strings.Fields(a)[0], strings.Fields(b)[0]
	if fb < fa {
		fa, fb = fb, fa
	}
	k := "data race between " + fa + " and " + fb
	if m.racesSeen[k] {
		return
	}
	m.racesSeen[k] = true
	m.violation(k, m.model, g)
}

// run executes the harness function to the end of the path.
func (m *Machine) run(fn *ssa.Function) {
	main := &goroutine{id: 0, inst: true}
	main.vc.tick(0)
	m.gs = []*goroutine{main}
	m.cur = main
	m.invoke(main, fn, nil, -1, nil2)
	g := main
	for {
		m.cur = g
		m.switchTo = nil
		for g.status == gRun {
			if !g.started {
				g.started = true
				if g.inst {
					m.events = append(m.events, Event{G: g.id, Op: "start"})
				}
			}
			if g.resume {
				g.resume = false
				m.events = append(m.events, Event{G: g.id, Op: "resume"})
			}
			y := m.step(g)
			if main.status == gDone {
				return
			}
			if y {
				break
			}
			if len(g.frames) == 0 {
				g.status = gDone
			}
			if m.preemptClock() {
				break
			}
		}
		if main.status == gDone {
			return
		}
		g = m.pickNext(g)
		if g.status == gBlocked {
			m.unblock(g)
		}
	}
}

func (m *Machine) preemptClock() bool { return false }

// pickNext chooses the next goroutine after g stopped running.
func (m *Machine) pickNext(g *goroutine) *goroutine {
	if m.switchTo != nil {
		n := m.switchTo
		m.switchTo = nil
		return n
	}
	preempted := g.status == gRun
	for {
		var en []*goroutine
		self := false
		for _, x := range m.gs {
			if x.draining {
				continue
			}
			if x == g && g.status == gRun && preempted {
				self = true // only when preempted in favour of the clock
				continue
			}
			if m.canRun(x) {
				en = append(en, x)
			}
		}
		if self {
			// point() chose the clock
			preempted = false
			if t := m.nextTimer(); t != nil {
				m.fireTimer(t)
			}
			// continue with any enabled goroutine including g
			en = append([]*goroutine{g}, en...)
		}
		clock := m.cfg.AnyTimer && m.nextTimer() != nil && m.drainAllows()
		n := len(en)
		if clock {
			n++
		}
		if n == 0 {
			var dr *goroutine
			for _, x := range m.gs {
				if x.draining {
					dr = x
				}
			}
			if t := m.nextTimer(); t != nil && (dr == nil || m.drainTimers != 0) {
				if dr != nil && m.drainTimers > 0 {
					m.drainTimers--
				}
				m.fireTimer(t)
				continue
			}
			if dr != nil {
				dr.ready = nil
				dr.status = gRun
				return dr
			}
			m.deadlock(g)
		}
		k := 0
		if n > 1 && m.cfg.FreeSched {
			k = m.choose("sched", n)
		} else if len(en) > 1 {
			// deterministic: lowest id after the current one, round robin
			sort.Slice(en, func(i, j int) bool { return en[i].id < en[j].id })
		}
		if k < len(en) {
			return en[k]
		}
		m.fireTimer(m.nextTimer())
	}
}

func (m *Machine) drainAllows() bool {
	for _, x := range m.gs {
		if x.draining && m.drainTimers == 0 {
			return false
		}
	}
	return true
}

func (m *Machine) deadlock(g *goroutine) {
	var w []string
	for _, x := range m.gs {
		if x.status == gBlocked {
			w = append(w, fmt.Sprintf("g%d %s", x.id, x.waiting))
		}
	}
	sort.Strings(w)
	if m.cfg.DeadlockOK {
		panic(pathEnd{"deadlock"})
	}
	var fns []string
	seen := map[string]bool{}
	for _, x := range m.gs {
		if x.status == gBlocked {
			f := m.whereFn(x)
			if !seen[f] {
				seen[f] = true
				fns = append(fns, f)
			}
		}
	}
	sort.Strings(fns)
	m.note("deadlock detail: " + strings.Join(w, "; "))
	m.violation("deadlock: goroutines blocked forever in "+strings.Join(fns, ", "), m.model, g)
	panic(pathEnd{"deadlock"})
}
