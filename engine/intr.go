package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, g *goroutine, f *ssa.Function, args []value) value

const rt = "github.com/sisu-network/dheart/verifrt."

type hashRec struct {
	kind string
	in   []*Term
	out  []*Term
}

// hash models a collision-free hash: real digests for concrete input, fresh
// distinct outputs for symbolic input.
func (m *Machine) hash(kind string, in []*Term, n int, real func([]byte) []byte) []*Term {
	conc := make([]byte, len(in))
	all := true
	for i, t := range in {
		if t.op != OConst {
			all = false
			break
		}
		conc[i] = byte(t.val)
	}
	var out []*Term
	for _, h := range m.hashes {
		if h.kind != kind || len(h.in) != len(in) {
			continue
		}
		e := tTrue
		for i := range in {
			e = m.tc.And(e, m.tc.Eq(in[i], h.in[i]))
		}
		if m.branch(e) {
			return h.out
		}
	}
	if all {
		for _, b := range real(conc) {
			out = append(out, cBV(8, uint64(b)))
		}
	} else {
		for i := 0; i < n; i++ {
			out = append(out, m.fresh("hash."+kind, 8))
		}
		for _, h := range m.hashes {
			if h.kind != kind {
				continue
			}
			e := tTrue
			for i := range out {
				e = m.tc.And(e, m.tc.Eq(out[i], h.out[i]))
			}
			m.assume(m.tc.Not(e))
		}
	}
	m.hashes = append(m.hashes, hashRec{kind, in, out})
	return out
}

func termsToSlice(ts []*Term) slice {
	s := make(slice, len(ts))
	for i, t := range ts {
		s[i] = t
	}
	return s
}

func termsToArray(ts []*Term) array {
	s := make(array, len(ts))
	for i, t := range ts {
		s[i] = t
	}
	return s
}

func (m *Machine) errVal(msg value) value {
	p := new(value)
	*p = structure{msg, iface{}}
	return iface{t: m.E.errStrT, v: p}
}

func constStr(v value, what string) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("%s: symbolic string", what))
	}
	return s
}

func (m *Machine) atomicHB(g *goroutine, p *value) {
	if !m.cfg2().Race {
		return
	}
	k := fmt.Sprintf("atomic:%p", p)
	v, _ := m.side[k].(vclock)
	g.vc.join(v)
	v = v.copy()
	v.join(g.vc)
	m.side[k] = v
	g.vc.tick(g.id)
}

var emptyCfg = &Config{}

func (m *Machine) cfg2() *Config {
	if m.cfg == nil {
		return emptyCfg
	}
	return m.cfg
}

func (m *Machine) newInput(name string, w uint8) *Term {
	t := m.fresh(name, w)
	m.inputs = append(m.inputs, inputRec{t.name, w, t})
	return t
}

func (m *Machine) timeNow() value {
	const unixToInternal = 62135596800
	sec := uint64(1700000000 + m.now/1e9 + unixToInternal)
	return structure{cBV(64, uint64(m.now%1e9)), cBV(64, sec), (*value)(nil)}
}

func (m *Machine) elemType(f *ssa.Function, i int) types.Type {
	return f.Signature.Results().At(i).Type()
}

func registerIntrinsics(E *Env) {
	I := E.intr
	nop := func(m *Machine, g *goroutine, f *ssa.Function, a []value) value { return zeroResult(f.Signature) }
	// ---- harness API ----
	I[rt+"Bool"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		t := m.newInput(constStr(a[0], "name"), 8)
		m.assume(m.tc.Bin(OUle, t, cBV(8, 1)))
		return m.tc.Eq(t, cBV(8, 1))
	}
	I[rt+"Byte"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return m.newInput(constStr(a[0], "name"), 8)
	}
	I[rt+"U64"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return m.newInput(constStr(a[0], "name"), 64)
	}
	I[rt+"Int"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		t := m.newInput(constStr(a[0], "name"), 64)
		m.assume(m.tc.Bin(OSle, m.term(a[1]), t))
		m.assume(m.tc.Bin(OSle, t, m.term(a[2])))
		return t
	}
	I[rt+"Choice"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		n := m.intArg(a[1], "choice")
		t := m.newInput(constStr(a[0], "name"), 8)
		if n <= 1 {
			m.addPC(m.tc.Eq(t, cBV(8, 0)))
			if m.model.eval(t) != 0 {
				m.model = m.withVal(t.name, 0)
			}
			return cInt(0)
		}
		return cInt(m.chooseVar(t, n))
	}
	I[rt+"Str"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		n := m.intArg(a[1], "len")
		b := make([]*Term, n)
		for i := range b {
			b[i] = m.newInput(constStr(a[0], "name"), 8)
		}
		return mkStr(b)
	}
	I[rt+"Bytes"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		n := m.intArg(a[1], "len")
		b := make(slice, n)
		for i := range b {
			b[i] = m.newInput(constStr(a[0], "name"), 8)
		}
		return b
	}
	I[rt+"Concrete"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		t := m.term(a[0])
		return cBV(t.w, m.concretize(t))
	}
	I[rt+"Assume"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.assume(m.term(a[0]))
		return nil
	}
	I[rt+"Assert"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.assert(g, m.term(a[0]), constStr(a[1], "assert message"))
		return nil
	}
	I[rt+"Reach"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.reached[constStr(a[0], "tag")] = true
		return nil
	}
	I[rt+"Obs"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.obs = append(m.obs, obsRec{constStr(a[0], "tag"), copyVal(a[1])})
		return nil
	}
	I[rt+"Param"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		n := constStr(a[0], "param")
		v, ok := m.params[n]
		if !ok {
			panic(unsupported("harness parameter %s not set", n))
		}
		return cInt(v)
	}
	I[rt+"RepoFiles"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		dir, suffix := constStr(a[0], "dir"), constStr(a[1], "suffix")
		names, _ := filepath.Glob(filepath.Join(repoDir, dir, "*"+suffix))
		sort.Strings(names)
		out := ""
		for _, n := range names {
			b, err := os.ReadFile(n)
			if err != nil {
				panic(unsupported("%v", err))
			}
			out += string(b) + "\n"
		}
		return out
	}
	I[rt+"Symbolic"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value { return tTrue }
	I[rt+"Stop"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value { panic(pathEnd{"stop"}) }
	I[rt+"Unsupported"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		panic(unsupported("%s", constStr(a[0], "why")))
	}
	I[rt+"Preempt"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.preemptLeft = m.intArg(a[0], "preempt")
		return nil
	}
	// And/Or combine conditions without forking.
	I[rt+"And"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		r := tTrue
		for _, x := range a[0].(slice) {
			r = m.tc.And(r, m.term(x))
		}
		return r
	}
	I[rt+"Or"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		r := tFalse
		for _, x := range a[0].(slice) {
			r = m.tc.Or(r, m.term(x))
		}
		return r
	}
	I[rt+"Ite"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return m.tc.Ite(m.term(a[0]), m.term(a[1]), m.term(a[2]))
	}
	I[rt+"HLock"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value { return nil }
	I[rt+"HUnlock"] = I[rt+"HLock"]
	I[rt+"ReplayOnly"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value { return nil }
	// ---- sync ----
	I["(*sync.Mutex).Unlock"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.unlock(g, m.ptr(a[0]))
		return nil
	}
	I["(*sync.RWMutex).Unlock"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.wunlock(g, m.ptr(a[0]))
		return nil
	}
	I["(*sync.RWMutex).RUnlock"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.runlock(g, m.ptr(a[0]))
		return nil
	}
	I["(*sync.Mutex).TryLock"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		mu := m.mutex(m.ptr(a[0]))
		if mu.locked {
			return tFalse
		}
		mu.locked = true
		g.vc.join(mu.vc)
		return tTrue
	}
	I["(*sync.Mutex).Lock"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		mu := m.mutex(m.ptr(a[0]))
		if mu.locked {
			panic(unsupported("indirect blocking Lock"))
		}
		mu.locked = true
		g.vc.join(mu.vc)
		return nil
	}
	I["(*sync.RWMutex).Lock"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		mu := m.mutex(m.ptr(a[0]))
		if mu.writer != nil || mu.readers > 0 {
			panic(unsupported("indirect blocking Lock"))
		}
		mu.writer, mu.wActive = g, true
		g.vc.join(mu.vc)
		g.vc.join(mu.rvc)
		return nil
	}
	I["(*sync.RWMutex).RLock"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		mu := m.mutex(m.ptr(a[0]))
		if mu.writer != nil {
			panic(unsupported("indirect blocking RLock"))
		}
		mu.readers++
		g.vc.join(mu.vc)
		return nil
	}
	wgAdd := func(m *Machine, g *goroutine, p *value, n int64) {
		w := m.wg(p)
		w.n += n
		if n < 0 {
			w.vc = w.vc.copy()
			w.vc.join(g.vc)
			g.vc.tick(g.id)
		}
		if w.n < 0 {
			panic(goPanic{iface{t: m.E.rterrT, v: "sync: negative WaitGroup counter"}})
		}
	}
	I["(*sync.WaitGroup).Add"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		wgAdd(m, g, m.ptr(a[0]), int64(m.intArg(a[1], "wg")))
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		wgAdd(m, g, m.ptr(a[0]), -1)
		return nil
	}
	I["(*sync.WaitGroup).Wait"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		if m.wg(m.ptr(a[0])).n > 0 {
			panic(unsupported("indirect blocking Wait"))
		}
		return nil
	}
	syncMap := func(m *Machine, p *value) *mapv {
		k := fmt.Sprintf("smap:%p", p)
		if m.side[k] == nil {
			m.side[k] = newMap()
		}
		return m.side[k].(*mapv)
	}
	anyT := types.NewInterfaceType(nil, nil)
	I["(*sync.Map).Load"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.atomicHB(g, m.ptr(a[0]))
		if e := m.mapFind(syncMap(m, m.ptr(a[0])), anyT, a[1]); e != nil {
			return tuple{e.val, tTrue}
		}
		return tuple{iface{}, tFalse}
	}
	I["(*sync.Map).Store"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.atomicHB(g, m.ptr(a[0]))
		m.mapSet(syncMap(m, m.ptr(a[0])), anyT, a[1], a[2])
		return nil
	}
	I["(*sync.Map).LoadOrStore"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.atomicHB(g, m.ptr(a[0]))
		mp := syncMap(m, m.ptr(a[0]))
		if e := m.mapFind(mp, anyT, a[1]); e != nil {
			return tuple{e.val, tTrue}
		}
		m.mapSet(mp, anyT, a[1], a[2])
		return tuple{a[2], tFalse}
	}
	I["(*sync.Map).Delete"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.atomicHB(g, m.ptr(a[0]))
		m.mapDelete(syncMap(m, m.ptr(a[0])), anyT, a[1])
		return nil
	}
	I["(*sync.Map).LoadAndDelete"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.atomicHB(g, m.ptr(a[0]))
		mp := syncMap(m, m.ptr(a[0]))
		if e := m.mapFind(mp, anyT, a[1]); e != nil {
			m.mapDelete(mp, anyT, a[1])
			return tuple{e.val, tTrue}
		}
		return tuple{iface{}, tFalse}
	}
	I["(*sync.Map).Range"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.atomicHB(g, m.ptr(a[0]))
		mp := syncMap(m, m.ptr(a[0]))
		for _, e := range append([]*mapEntry(nil), mp.entries...) {
			if e.deleted {
				continue
			}
			if !m.branch(m.term(m.callNested(a[1], []value{e.key, e.val}))) {
				break
			}
		}
		return nil
	}
	I["(*sync.Pool).Get"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		s := m.structOf(m.ptr(a[0]))
		fn := s[len(s)-1]
		if isNilFunc(fn) {
			return iface{}
		}
		return m.callNested(fn, nil)
	}
	I["(*sync.Pool).Put"] = nop
	// ---- atomics ----
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		I["sync/atomic.Load"+t] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
			p := m.ptr(a[0])
			m.atomicHB(g, p)
			return copyVal(*p)
		}
		I["sync/atomic.Store"+t] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
			p := m.ptr(a[0])
			m.atomicHB(g, p)
			*p = a[1]
			return nil
		}
		I["sync/atomic.Swap"+t] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
			p := m.ptr(a[0])
			m.atomicHB(g, p)
			o := *p
			*p = a[1]
			return o
		}
		I["sync/atomic.Add"+t] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
			p := m.ptr(a[0])
			m.atomicHB(g, p)
			*p = m.tc.Bin(OAdd, m.term(*p), m.term(a[1]))
			return *p
		}
		I["sync/atomic.CompareAndSwap"+t] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
			p := m.ptr(a[0])
			m.atomicHB(g, p)
			if m.branch(m.eq(f.Signature.Params().At(1).Type(), *p, a[1])) {
				*p = a[2]
				return tTrue
			}
			return tFalse
		}
	}
	I["(*sync/atomic.Value).Load"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		p := m.ptr(a[0])
		m.atomicHB(g, p)
		return m.structOf(p)[0]
	}
	I["(*sync/atomic.Value).Store"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		p := m.ptr(a[0])
		m.atomicHB(g, p)
		if i, ok := a[1].(iface); ok && i.t == nil {
			panic(goPanic{iface{t: m.E.rterrT, v: "sync/atomic: store of nil value into Value"}})
		}
		m.structOf(p)[0] = a[1]
		return nil
	}
	// ---- strings / bytes ----
	index := func(m *Machine, s, sub []*Term) value {
		for i := 0; i+len(sub) <= len(s); i++ {
			e := tTrue
			for j := range sub {
				e = m.tc.And(e, m.tc.Eq(s[i+j], sub[j]))
			}
			if m.branch(e) {
				return cInt(i)
			}
		}
		return cBV(64, ^uint64(0))
	}
	I["strings.Index"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return index(m, strBytes(a[0]), strBytes(a[1]))
	}
	I["bytes.Index"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return index(m, sliceTerms(a[0].(slice)), sliceTerms(a[1].(slice)))
	}
	I["strings.IndexByte"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return index(m, strBytes(a[0]), []*Term{m.term(a[1])})
	}
	I["internal/bytealg.IndexByteString"] = I["strings.IndexByte"]
	I["internal/bytealg.IndexByte"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return index(m, sliceTerms(a[0].(slice)), []*Term{m.term(a[1])})
	}
	I["bytes.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["strings.Count"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		s, sub := strBytes(a[0]), strBytes(a[1])
		if len(sub) == 0 {
			return cInt(len(s) + 1)
		}
		n := 0
		for i := 0; i+len(sub) <= len(s); {
			e := tTrue
			for j := range sub {
				e = m.tc.And(e, m.tc.Eq(s[i+j], sub[j]))
			}
			if m.branch(e) {
				n++
				i += len(sub)
			} else {
				i++
			}
		}
		return cInt(n)
	}
	I["internal/bytealg.CountString"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		n := 0
		for _, b := range strBytes(a[0]) {
			if m.branch(m.tc.Eq(b, m.term(a[1]))) {
				n++
			}
		}
		return cInt(n)
	}
	cmp := func(m *Machine, x, y value) value {
		if m.branch(m.strEq(x, y)) {
			return cInt(0)
		}
		if m.branch(m.strLess(x, y)) {
			return cInt(-1)
		}
		return cInt(1)
	}
	I["bytes.Compare"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return cmp(m, mkStr(sliceTerms(a[0].(slice))), mkStr(sliceTerms(a[1].(slice))))
	}
	I["internal/bytealg.Compare"] = I["bytes.Compare"]
	I["strings.Compare"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return cmp(m, a[0], a[1])
	}
	I["bytes.Equal"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return m.strEq(mkStr(sliceTerms(a[0].(slice))), mkStr(sliceTerms(a[1].(slice))))
	}
	I["internal/bytealg.Equal"] = I["bytes.Equal"]
	I["(*strings.Builder).copyCheck"] = nop
	I["(*strings.Builder).String"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return mkStr(sliceTerms(m.structOf(m.ptr(a[0]))[1].(slice)))
	}
	I["strconv.Itoa"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return strconv.Itoa(m.intArg(a[0], "Itoa"))
	}
	I["strconv.FormatInt"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return strconv.FormatInt(int64(m.intArg(a[0], "FormatInt")), m.intArg(a[1], "base"))
	}
	// ---- fmt ----
	I["fmt.Sprintf"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return m.sprintf(a[0], a[1].(slice))
	}
	I["fmt.Errorf"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		// Numbers in the text of an error are not enumerated.
		m.lossyFmt++
		txt := m.sprintf(a[0], a[1].(slice))
		m.lossyFmt--
		e := m.errVal(txt).(iface)
		if s, ok := a[0].(string); ok && strings.Contains(s, "%w") {
			for _, x := range a[1].(slice) {
				if i, ok := x.(iface); ok && i.t != nil && m.implements(i.t, errorIface) {
					(*e.v.(*value)).(structure)[1] = i
				}
			}
		}
		return e
	}
	I["fmt.Sprint"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return m.sprint(a[0].(slice), false)
	}
	I["fmt.Sprintln"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return strConcat(m.sprint(a[0].(slice), true), "\n")
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		I[n] = nop
	}
	// Output to a buffer is kept, other output is not.
	fprint := func(m *Machine, w value, txt func() value) value {
		i, ok := w.(iface)
		if ok && i.t != nil && (i.t.String() == "*strings.Builder" || i.t.String() == "*bytes.Buffer") {
			ms := m.E.P.prog.MethodSets.MethodSet(i.t).Lookup(nil, "WriteString")
			return m.callNested(m.E.P.prog.MethodValue(ms), []value{i.v, txt()})
		}
		return tuple{cInt(0), iface{}}
	}
	I["fmt.Fprintf"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return fprint(m, a[0], func() value { return m.sprintf(a[1], a[2].(slice)) })
	}
	I["fmt.Fprint"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return fprint(m, a[0], func() value { return m.sprint(a[1].(slice), false) })
	}
	I["fmt.Fprintln"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return fprint(m, a[0], func() value { return strConcat(m.sprint(a[1].(slice), true), "\n") })
	}
	I["errors.Is"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		e := a[0].(iface)
		for {
			if e.t == nil {
				return cBool(a[1].(iface).t == nil)
			}
			if types.Comparable(e.t) && m.branch(m.eq(anyT, e, a[1])) {
				return tTrue
			}
			ms := m.E.P.prog.MethodSets.MethodSet(e.t).Lookup(nil, "Unwrap")
			if ms == nil {
				return tFalse
			}
			fn := m.E.P.prog.MethodValue(ms)
			r, ok := m.callNested(fn, []value{e.v}).(iface)
			if !ok || r.t == nil {
				return tFalse
			}
			e = r
		}
	}
	// ---- reflectlite for sort.Slice ----
	for _, p := range []string{"internal/reflectlite", "reflect"} {
		I[p+".ValueOf"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
			return &opaque{kind: "reflect.Value", data: a[0]}
		}
		I["("+p+".Value).Len"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
			o, ok := a[0].(*opaque)
			if !ok {
				panic(unsupported("reflect Len"))
			}
			switch x := o.data.(iface).v.(type) {
			case slice:
				return cInt(len(x))
			case string, *symStr:
				return cInt(strLen(x))
			case *mapv:
				return cInt(x.n)
			}
			panic(unsupported("reflect Len"))
		}
		I[p+".Swapper"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
			s := a[0].(iface).v.(slice)
			return &nativeFn{name: "swapper", f: func(m *Machine, a []value) value {
				i, j := m.intArg(a[0], "swap"), m.intArg(a[1], "swap")
				x, y := copyVal(s[i]), copyVal(s[j])
				storeLoc(&s[i], y)
				storeLoc(&s[j], x)
				return nil
			}}
		}
	}
	I["reflect.DeepEqual"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return m.deepEq(a[0], a[1], 0)
	}
	// ---- time ----
	I["time.Now"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value { return m.timeNow() }
	I["time.Since"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		fn := m.E.P.prog.LookupMethod(f.Signature.Params().At(0).Type(), f.Pkg.Pkg, "Sub")
		return m.callNested(fn, []value{m.timeNow(), a[0]})
	}
	timeT := func(f *ssa.Function) types.Type { return f.Pkg.Pkg.Scope().Lookup("Time").Type() }
	I["time.After"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.nchan++
		ch := &chanv{cap: 1, id: m.nchan, elem: timeT(f)}
		m.addTimer(int64(m.intArg(a[0], "duration")), 0, "After", func() { m.chanSendNB(ch, m.timeNow()) })
		return ch
	}
	I["time.Tick"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.nchan++
		ch := &chanv{cap: 1, id: m.nchan, elem: timeT(f)}
		d := int64(m.intArg(a[0], "duration"))
		m.addTimer(d, d, "Tick", func() { m.chanSendNB(ch, m.timeNow()) })
		return ch
	}
	newTimer := func(period bool) intrinsic {
		return func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
			m.nchan++
			ch := &chanv{cap: 1, id: m.nchan, elem: timeT(f)}
			p := new(value)
			*p = zero(f.Signature.Results().At(0).Type().(*types.Pointer).Elem())
			m.structOf(p)[0] = ch
			d := int64(m.intArg(a[0], "duration"))
			per := int64(0)
			if period {
				per = d
			}
			m.side[fmt.Sprintf("timer:%p", p)] = m.addTimer(d, per, "Timer", func() { m.chanSendNB(ch, m.timeNow()) })
			return p
		}
	}
	I["time.NewTimer"] = newTimer(false)
	I["time.NewTicker"] = newTimer(true)
	I["time.AfterFunc"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		p := new(value)
		*p = zero(f.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		fn := a[1]
		vc := g.vc.copy()
		m.side[fmt.Sprintf("timer:%p", p)] = m.addTimer(int64(m.intArg(a[0], "duration")), 0, "AfterFunc", func() {
			m.spawn(&goroutine{id: -3, vc: vc}, fn, nil, true)
		})
		return p
	}
	stop := func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		t, _ := m.side[fmt.Sprintf("timer:%p", m.ptr(a[0]))].(*timer)
		if t == nil {
			panic(unsupported("Stop of an unknown timer"))
		}
		was := t.active
		t.active = false
		if f.Signature.Results().Len() == 0 {
			return nil
		}
		return cBool(was)
	}
	I["(*time.Timer).Stop"] = stop
	I["(*time.Ticker).Stop"] = stop
	I["(*time.Timer).Reset"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		k := fmt.Sprintf("timer:%p", m.ptr(a[0]))
		t, _ := m.side[k].(*timer)
		if t == nil {
			panic(unsupported("Reset of an unknown timer"))
		}
		was := t.active
		t.active = false
		m.side[k] = m.addTimer(int64(m.intArg(a[1], "duration")), t.period, t.label, t.fire)
		return cBool(was)
	}
	I["time.Sleep"] = nop
	I["runtime.Gosched"] = nop
	I["runtime.GC"] = nop
	I["runtime.KeepAlive"] = nop
	// ---- hashing, randomness ----
	I["crypto/sha256.Sum256"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return termsToArray(m.hash("sha256", sliceTerms(a[0].(slice)), 32, func(b []byte) []byte { h := sha256.Sum256(b); return h[:] }))
	}
	I["crypto/rand.Read"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		s := a[0].(slice)
		for i := range s {
			s[i] = m.fresh("rand", 8)
		}
		return tuple{cInt(len(s)), iface{}}
	}
	I["github.com/ethereum/go-ethereum/crypto.Keccak256"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		var in []*Term
		for _, x := range a[0].(slice) {
			in = append(in, sliceTerms(x.(slice))...)
		}
		return termsToSlice(m.hash("keccak256", in, 32, keccak256))
	}
	I["os.IsPathSeparator"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return m.tc.Eq(a[0].(*Term), cBV(8, '/'))
	}
	// ---- math ----
	I["math.Float64bits"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return cBV(64, math.Float64bits(a[0].(float64)))
	}
	I["math.Float64frombits"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return math.Float64frombits(uint64(m.intArg(a[0], "frombits")))
	}
	for n, fn := range map[string]func(float64) float64{"Ceil": math.Ceil, "Floor": math.Floor, "Sqrt": math.Sqrt, "Abs": math.Abs, "Trunc": math.Trunc, "Round": math.Round, "Log": math.Log, "Log2": math.Log2} {
		fn := fn
		h := func(m *Machine, g *goroutine, f *ssa.Function, a []value) value { return fn(a[0].(float64)) }
		I["math."+n] = h
	}
	I["math.Pow"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return math.Pow(a[0].(float64), a[1].(float64))
	}
	I["math/bits.Mul64"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		x, y := m.term(a[0]), m.term(a[1])
		if x.op == OConst && y.op == OConst {
			hi, lo := mul64(x.val, y.val)
			return tuple{cBV(64, hi), cBV(64, lo)}
		}
		return m.mulSym(x, y)
	}
	// ---- os ----
	I["os.Getenv"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value { return "" }
	I["os.Exit"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		m.fatal(g, "os.Exit")
		return nil
	}
	registerJSON(E)
	registerCrypto(E)
}

func mul64(x, y uint64) (hi, lo uint64) {
	const mask32 = 1<<32 - 1
	x0 := x & mask32
	x1 := x >> 32
	y0 := y & mask32
	y1 := y >> 32
	w0 := x0 * y0
	t := x1*y0 + w0>>32
	w1 := t & mask32
	w2 := t >> 32
	w1 += x0 * y1
	hi = x1*y1 + w2 + w1>>32
	lo = x * y
	return
}

func (m *Machine) mulSym(x, y *Term) value {
	c := m.tc
	k32 := cBV(64, 32)
	mk := cBV(64, 1<<32-1)
	b := c.Bin
	x0, x1 := b(OBand, x, mk), b(OLshr, x, k32)
	y0, y1 := b(OBand, y, mk), b(OLshr, y, k32)
	w0 := b(OMul, x0, y0)
	t := b(OAdd, b(OMul, x1, y0), b(OLshr, w0, k32))
	w1 := b(OBand, t, mk)
	w2 := b(OLshr, t, k32)
	w1 = b(OAdd, w1, b(OMul, x0, y1))
	hi := b(OAdd, b(OAdd, b(OMul, x1, y1), w2), b(OLshr, w1, k32))
	return tuple{hi, b(OMul, x, y)}
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (m *Machine) deepEq(a, b value, d int) *Term {
	if d > 30 {
		panic(unsupported("DeepEqual depth"))
	}
	switch x := a.(type) {
	case iface:
		y := b.(iface)
		if x.t == nil || y.t == nil {
			return cBool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tFalse
		}
		return m.deepEq(x.v, y.v, d+1)
	case slice:
		y := b.(slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return tFalse
		}
		r := tTrue
		for i := range x {
			r = m.tc.And(r, m.deepEq(x[i], y[i], d+1))
		}
		return r
	case structure:
		y := b.(structure)
		r := tTrue
		for i := range x {
			r = m.tc.And(r, m.deepEq(x[i], y[i], d+1))
		}
		return r
	case array:
		y := b.(array)
		r := tTrue
		for i := range x {
			r = m.tc.And(r, m.deepEq(x[i], y[i], d+1))
		}
		return r
	case *value:
		y, _ := b.(*value)
		if x == y {
			return tTrue
		}
		if x == nil || y == nil {
			return tFalse
		}
		return m.deepEq(*x, *y, d+1)
	case *mapv:
		y, _ := b.(*mapv)
		if x == nil || y == nil {
			return cBool(x == nil && y == nil)
		}
		if x.n != y.n {
			return tFalse
		}
		r := tTrue
		for _, e := range x.entries {
			o := m.mapFind(y, nil, e.key)
			if o == nil {
				return tFalse
			}
			r = m.tc.And(r, m.deepEq(e.val, o.val, d+1))
		}
		return r
	}
	return m.eq(nil, a, b)
}

// ---- formatting ----

func (m *Machine) sprint(args slice, ln bool) value {
	var r value = ""
	prevStr := true
	for i, a := range args {
		x := a.(iface)
		isStr := false
		if x.t != nil {
			if b, ok := x.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			r = strConcat(r, " ")
		}
		r = strConcat(r, m.format('v', "", x))
		prevStr = isStr
	}
	return r
}

func (m *Machine) sprintf(fv value, args slice) value {
	fs, ok := fv.(string)
	if !ok {
		panic(unsupported("symbolic format string"))
	}
	var r value = ""
	k := 0
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			r = strConcat(r, fs[i:])
			break
		}
		r = strConcat(r, fs[i:i+j])
		i += j + 1
		st := i
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		flags := fs[st:i]
		if i >= len(fs) {
			r = strConcat(r, "%!(NOVERB)")
			break
		}
		v := fs[i]
		i++
		if v == '%' {
			r = strConcat(r, "%")
			continue
		}
		if k >= len(args) {
			r = strConcat(r, "%!"+string(v)+"(MISSING)")
			continue
		}
		a, ok := args[k].(iface)
		k++
		if !ok {
			panic(unsupported("Sprintf of %T", args[k-1]))
		}
		r = strConcat(r, m.format(v, flags, a))
	}
	return r
}

func (m *Machine) format(verb byte, flags string, a iface) value {
	if a.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return types.TypeString(a.t, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'w' {
		verb = 'v'
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if !strings.Contains(flags, "#") {
			for _, meth := range []string{"Error", "String"} {
				sel := m.E.P.prog.MethodSets.MethodSet(a.t).Lookup(nil, meth)
				if sel == nil {
					continue
				}
				sig := sel.Type().(*types.Signature)
				if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
					continue
				}
				if p, ok := a.v.(*value); ok && p == nil {
					return "<nil>"
				}
				return m.callNested(m.E.P.prog.MethodValue(sel), []value{a.v})
			}
		}
	}
	return m.formatVal(verb, flags, a.t, a.v, 0)
}

func (m *Machine) formatVal(verb byte, flags string, t types.Type, v value, depth int) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			if x.w == 0 {
				return strconv.FormatBool(m.branch(x))
			}
			c := x
			if c.op != OConst && m.lossyFmt > 0 {
				return "<symbolic>"
			}
			if c.op != OConst {
				c = cBV(c.w, m.concretize(c))
			}
			_, signed, _ := intWidth(u)
			vb := verb
			if vb == 's' || vb == 'q' {
				vb = 'd'
			}
			if signed {
				return fmt.Sprintf("%"+flags+string(vb), c.sval())
			}
			return fmt.Sprintf("%"+flags+string(vb), c.val)
		case string:
			return fmt.Sprintf("%"+flags+string(verb), x)
		case *symStr:
			if (verb == 's' || verb == 'v') && flags == "" {
				return x
			}
			if verb == 'x' {
				return m.hexOf(x.b)
			}
			panic(unsupported("Sprintf %%%s%c of a symbolic string", flags, verb))
		case float64:
			return fmt.Sprintf("%"+flags+string(verb), x)
		}
	case *types.Slice:
		s := v.(slice)
		if e, ok := u.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
			switch verb {
			case 'x':
				return m.hexOf(sliceTerms(s))
			case 's':
				return mkStr(sliceTerms(s))
			}
		}
		return m.fmtList(verb, flags, "[", "]", len(s), func(i int) value { return m.fmtElem(verb, flags, u.Elem(), s[i], depth) })
	case *types.Array:
		s := v.(array)
		if e, ok := u.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 && verb == 'x' {
			return m.hexOf(sliceTerms(slice(s)))
		}
		return m.fmtList(verb, flags, "[", "]", len(s), func(i int) value { return m.fmtElem(verb, flags, u.Elem(), s[i], depth) })
	case *types.Struct:
		s := v.(structure)
		return m.fmtList(verb, flags, "{", "}", len(s), func(i int) value { return m.fmtElem(verb, flags, u.Field(i).Type(), s[i], depth) })
	case *types.Pointer:
		if p, ok := v.(*value); ok && p == nil {
			return "<nil>"
		}
		return "0xc000000000"
	case *types.Interface:
		return m.format(verb, flags, v.(iface))
	case *types.Map:
		mp := v.(*mapv)
		if mp == nil {
			return "map[]"
		}
		var keys []string
		for _, e := range mp.entries {
			k, ok1 := m.fmtElem(verb, flags, u.Key(), e.key, depth).(string)
			x, ok2 := m.fmtElem(verb, flags, u.Elem(), e.val, depth).(string)
			if !ok1 || !ok2 {
				panic(unsupported("format of a symbolic map"))
			}
			keys = append(keys, k+":"+x)
		}
		sort.Strings(keys)
		return "map[" + strings.Join(keys, " ") + "]"
	}
	return fmt.Sprintf("<%s>", t)
}

func (m *Machine) fmtElem(verb byte, flags string, t types.Type, v value, depth int) value {
	if depth > 5 {
		return "..."
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return m.format(verb, flags, v.(iface))
	}
	return m.formatVal(verb, flags, t, v, depth+1)
}

func (m *Machine) fmtList(verb byte, flags, l, r string, n int, f func(int) value) value {
	var out value = l
	for i := 0; i < n; i++ {
		if i > 0 {
			out = strConcat(out, " ")
		}
		out = strConcat(out, f(i))
	}
	return strConcat(out, r)
}

func (m *Machine) hexOf(b []*Term) value {
	out := make([]*Term, 0, 2*len(b))
	nib := func(n *Term) *Term {
		return m.tc.Ite(m.tc.Bin(OUlt, n, cBV(8, 10)), m.tc.Bin(OAdd, n, cBV(8, '0')), m.tc.Bin(OAdd, n, cBV(8, 'a'-10)))
	}
	for _, t := range b {
		out = append(out, nib(m.tc.Bin(OLshr, t, cBV(8, 4))), nib(m.tc.Bin(OBand, t, cBV(8, 15))))
	}
	return mkStr(out)
}
