package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type item struct {
	prefix []Decision
	model  map[string]uint64
}

type worker struct {
	ex  *Explorer
	tc  *TermCtx
	sol *Solver
	id  int
}

func (w *worker) enqueue(it *item) { w.ex.push(it) }

// Trace is a concrete execution for native replay.
type Trace struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Func     string            `json:"func"`
	Kind     string            `json:"kind"` // violation or witness
	Msg      string            `json:"msg,omitempty"`
	Where    string            `json:"where,omitempty"`
	Stack    []string          `json:"stack,omitempty"`
	Inputs   map[string]uint64 `json:"inputs"`
	Params   map[string]int    `json:"params"`
	Events   []Event           `json:"events"`
	Ranges   [][]string        `json:"ranges"`
	Obs      []string          `json:"obs,omitempty"`
	Notes    []string          `json:"notes,omitempty"`
	Race     bool              `json:"race,omitempty"`
}

type Explorer struct {
	E        *Env
	cfg      *Config
	params   map[string]int
	prop     string
	fn       *ssa.Function
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []*item
	active   int
	stop     bool
	deadline time.Time
	rng      *rand.Rand

	Paths, Complete, Pruned, Failed int
	Unsupported                     map[string]int
	Steps                           int64
	Branches                        int64
	Asserts                         map[string]int
	Queries, QSat, QUnsat, QUnknown int
	SolverTime                      time.Duration
	Reached                         map[string]bool
	Fns                             map[string]bool
	StubsUsed                       map[string]bool
	Notes                           map[string]bool
	Incomplete                      map[string]int
	Violations                      map[string][]*Trace
	Witness                         []*Trace
	seenW                           int
	Exhausted                       bool
	verbose                         bool
	Internal                        []string
	maxFrontier                     int
	MaxEvents                       int
}

func newExplorer(E *Env, prop string, cfg *Config, fn *ssa.Function, params map[string]int, seed int64) *Explorer {
	ex := &Explorer{E: E, cfg: cfg, prop: prop, fn: fn, params: params, Unsupported: map[string]int{}, Asserts: map[string]int{}, Reached: map[string]bool{},
		Fns: map[string]bool{}, StubsUsed: map[string]bool{}, Notes: map[string]bool{}, Incomplete: map[string]int{}, Violations: map[string][]*Trace{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.rng = rand.New(rand.NewSource(seed))
	return ex
}

func (ex *Explorer) push(it *item) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, it)
	if len(ex.stack) > ex.maxFrontier {
		ex.maxFrontier = len(ex.stack)
	}
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) pop() *item {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop || time.Now().After(ex.deadline) {
			ex.stop = true
			ex.cond.Broadcast()
			return nil
		}
		if n := len(ex.stack); n > 0 {
			// mostly depth first, with some random picks for diversity
			k := n - 1
			if n > 64 && ex.rng.Intn(8) == 0 {
				k = ex.rng.Intn(n)
			}
			it := ex.stack[k]
			ex.stack[k] = ex.stack[n-1]
			ex.stack = ex.stack[:n-1]
			ex.active++
			return it
		}
		if ex.active == 0 {
			ex.stop = true
			ex.Exhausted = true
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.stack) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (ex *Explorer) incomplete(why string) {
	ex.mu.Lock()
	ex.Incomplete[why]++
	ex.mu.Unlock()
}

func (ex *Explorer) countAssert(msg string) {
	ex.mu.Lock()
	ex.Asserts[msg]++
	ex.mu.Unlock()
}

func (m *Machine) mkTrace(kind string, md *Model) *Trace {
	t := &Trace{Property: m.W.ex.prop, Harness: m.cfg.Name, Func: m.cfg.Func, Kind: kind, Inputs: map[string]uint64{}, Params: m.params, Race: m.cfg.ReplayRace}
	for _, in := range m.inputs {
		t.Inputs[in.name] = md.eval(in.t)
	}
	t.Events = append([]Event(nil), m.events...)
	for _, f := range m.atEnd {
		f(md)
	}
	for _, r := range m.ranges {
		t.Ranges = append(t.Ranges, append([]string(nil), r.keys...))
	}
	for _, o := range m.obs {
		t.Obs = append(t.Obs, o.tag+"="+showObs(md, o.v, 0))
	}
	for n := range m.notes {
		t.Notes = append(t.Notes, n)
	}
	return t
}

// showObs renders an observed value as the native runtime does.
func showObs(md *Model, v value, d int) string {
	switch x := v.(type) {
	case iface:
		if x.t == nil {
			return "nil"
		}
		if t, ok := x.v.(*Term); ok && t.w > 0 {
			if b, ok := basicOf(x.t); ok {
				if _, signed, _ := intWidth(b); !signed {
					return fmt.Sprint(md.eval(t))
				}
			}
		}
		return showObs(md, x.v, d)
	case *Term:
		if x.w == 0 {
			return fmt.Sprint(md.eval(x) == 1)
		}
		return fmt.Sprint(sext64(md.eval(x), x.w))
	case string, *symStr:
		b := strBytes(x)
		buf := make([]byte, len(b))
		for i := range b {
			buf[i] = byte(md.eval(b[i]))
		}
		return fmt.Sprintf("%q", string(buf))
	}
	return fmt.Sprintf("<%T>", v)
}

func (ex *Explorer) violation(m *Machine, msg string, md *Model, g *goroutine) {
	ex.mu.Lock()
	n := len(ex.Violations[msg])
	ex.mu.Unlock()
	if n >= 4 {
		return
	}
	t := m.mkTrace("violation", md)
	t.Msg = msg
	if g != nil && len(g.frames) > 0 {
		t.Where = m.where(g)
		t.Stack = m.stack(g)
	} else {
		t.Stack = m.lastPanicStack
	}
	ex.mu.Lock()
	ex.Violations[msg] = append(ex.Violations[msg], t)
	ex.mu.Unlock()
	if ex.verbose {
		fmt.Fprintf(os.Stderr, "  violation candidate: %s at %s\n", msg, t.Where)
	}
}

func (ex *Explorer) run(nworkers int) error {
	ex.push(&item{model: map[string]uint64{}})
	var wg sync.WaitGroup
	errc := make(chan error, nworkers)
	stopTick := make(chan struct{})
	go func() {
		for {
			select {
			case <-stopTick:
				return
			case <-time.After(200 * time.Millisecond):
				ex.mu.Lock()
				ex.cond.Broadcast()
				ex.mu.Unlock()
			}
		}
	}()
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sol, err := newSolver()
			if err != nil {
				errc <- err
				return
			}
			w := &worker{ex: ex, tc: newTermCtx(), sol: sol, id: i}
			for {
				it := ex.pop()
				if it == nil {
					break
				}
				ex.runPath(w, it)
				ex.done()
				if len(w.tc.tab) > 400000 {
					q := w.sol
					q.close()
					ns, err := newSolver()
					if err != nil {
						errc <- err
						return
					}
					ns.Queries, ns.Sat, ns.Unsat, ns.Unknown, ns.Time = q.Queries, q.Sat, q.Unsat, q.Unknown, q.Time
					w.sol, w.tc = ns, newTermCtx()
				}
			}
			ex.mu.Lock()
			ex.Queries += w.sol.Queries
			ex.QSat += w.sol.Sat
			ex.QUnsat += w.sol.Unsat
			ex.QUnknown += w.sol.Unknown
			ex.SolverTime += w.sol.Time
			if w.sol.dead != nil {
				ex.Internal = append(ex.Internal, w.sol.dead.Error())
			}
			ex.mu.Unlock()
			w.sol.close()
		}()
	}
	wg.Wait()
	close(stopTick)
	select {
	case err := <-errc:
		return err
	default:
	}
	return nil
}

func (ex *Explorer) runPath(w *worker, it *item) {
	m := newMachine(ex.E, w, ex.cfg)
	m.params = ex.params
	m.hard = ex.deadline.Add(10 * time.Second)
	m.prefix = it.prefix
	m.model = &Model{vals: it.model}
	status := "complete"
	var unsup string
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					switch x.why {
					case "assume":
						status = "pruned"
					case "stop":
						status = "complete"
					case "timer limit":
						status = "unsupported"
						unsup = "more timer events than the bound"
					default:
						status = "failed"
					}
				case unsupportedErr:
					status = "unsupported"
					unsup = x.msg
					if m.errLoc != "" {
						unsup += " at " + m.errLoc
					}
				default:
					status = "internal"
					unsup = fmt.Sprint(r)
					ex.mu.Lock()
					if len(ex.Internal) < 3 {
						ex.Internal = append(ex.Internal, fmt.Sprintf("%v at %s\n%s", r, m.errLoc, debug.Stack()))
					}
					ex.mu.Unlock()
				}
			}
		}()
		m.run(ex.fn)
	}()
	var wt *Trace
	ex.mu.Lock()
	ex.Paths++
	ex.Steps += int64(m.steps)
	ex.Branches += int64(m.branches)
	if len(m.events) > ex.MaxEvents {
		ex.MaxEvents = len(m.events)
	}
	switch status {
	case "complete":
		ex.Complete++
		for r := range m.reached {
			ex.Reached[r] = true
		}
	case "pruned":
		ex.Pruned++
	case "failed":
		ex.Failed++
		for r := range m.reached {
			ex.Reached[r] = true
		}
	default:
		ex.Unsupported[unsup]++
		for r := range m.reached {
			ex.Reached[r] = true
		}
	}
	for f := range m.fnSeen {
		ex.Fns[f.String()] = true
	}
	for s := range m.usedStubs {
		ex.StubsUsed[s] = true
	}
	for n := range m.notes {
		ex.Notes[n] = true
	}
	keep := -1
	if status == "complete" && !ex.cfg.NoReplay {
		ex.seenW++
		if len(ex.Witness) < maxWitness {
			keep = len(ex.Witness)
			ex.Witness = append(ex.Witness, nil)
		} else if k := ex.rng.Intn(ex.seenW); k < maxWitness {
			keep = k
		}
	}
	ex.mu.Unlock()
	if keep >= 0 {
		wt = m.mkTrace("witness", m.model)
		ex.mu.Lock()
		ex.Witness[keep] = wt
		ex.mu.Unlock()
	}
}

const maxWitness = 6

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func (ex *Explorer) summary() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s: paths=%d complete=%d failed=%d pruned=%d exhausted=%v frontier=%d steps=%d branches=%d queries=%d (sat %d unsat %d unknown %d) solver=%.1fs",
		ex.cfg.Name, ex.Paths, ex.Complete, ex.Failed, ex.Pruned, ex.Exhausted, len(ex.stack), ex.Steps, ex.Branches, ex.Queries, ex.QSat, ex.QUnsat, ex.QUnknown, ex.SolverTime.Seconds())
	for _, k := range sortedKeys(ex.Unsupported) {
		fmt.Fprintf(&sb, "\n    unsupported x%d: %s", ex.Unsupported[k], k)
	}
	for _, k := range sortedKeys(ex.Incomplete) {
		fmt.Fprintf(&sb, "\n    incomplete x%d: %s", ex.Incomplete[k], k)
	}
	for _, k := range ex.Internal {
		fmt.Fprintf(&sb, "\n    INTERNAL: %s", k)
	}
	return sb.String()
}
