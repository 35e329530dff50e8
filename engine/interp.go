package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	kReg opKind = iota
	kConst
	kGlobal
)

type operand struct {
	kind opKind
	idx  int
	val  value
	g    *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []operand
	dst int
}

type cblock struct {
	b      *ssa.BasicBlock
	instrs []cinstr
	nphi   int
}

type cfunc struct {
	fn     *ssa.Function
	nregs  int
	blocks []*cblock
	free   int // register of first free var
	instr  bool
	harn   bool // harness code
}

// Exp (Explorer-wide, immutable after load) shared state.
type Env struct {
	P        *Program
	funcs    sync.Map // *ssa.Function -> *cfunc
	methods  sync.Map
	stubs    map[string]*ssa.Function
	intr     map[string]intrinsic
	rterrT   types.Type
	errStrT  types.Type
	gcmT     types.Type
	repoPath string
	verifrt  string
	frozen   *Machine // machine holding globals of frozen packages
	frozenMu sync.Mutex

	frozenMu2 sync.Mutex
	sentinels map[string]value // errors of packages that are not encoded
	interpOK  func(path string) bool
	isFrozen  func(path string) bool
	noop      func(path string) bool
}

func (E *Env) compile(fn *ssa.Function) *cfunc {
	if c, ok := E.funcs.Load(fn); ok {
		return c.(*cfunc)
	}
	c := &cfunc{fn: fn}
	if fn.Pkg != nil {
		c.instr = E.instrumented(fn.Pkg.Pkg.Path())
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		c.instr = E.instrumented(o.Pkg.Pkg.Path())
	}
	for r := fn; r != nil; r = r.Parent() {
		if r.Pos().IsValid() && strings.Contains(E.P.fset.Position(r.Pos()).Filename, "zz_verif_") {
			c.harn = true
		}
	}
	reg := map[ssa.Value]int{}
	next := 0
	add := func(v ssa.Value) { reg[v] = next; next++ }
	for _, p := range fn.Params {
		add(p)
	}
	c.free = next
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	c.nregs = next
	mkop := func(v ssa.Value) operand {
		if v == nil {
			return operand{kind: kConst, val: nil}
		}
		if i, ok := reg[v]; ok {
			return operand{kind: kReg, idx: i}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return operand{kind: kConst, val: constVal(x)}
		case *ssa.Global:
			return operand{kind: kGlobal, g: x}
		case *ssa.Function:
			return operand{kind: kConst, val: x}
		case *ssa.Builtin:
			return operand{kind: kConst, val: x}
		}
		panic(fmt.Sprintf("operand %T in %s", v, fn))
	}
	for _, b := range fn.Blocks {
		cb := &cblock{b: b}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.nphi++
			}
			var rands []*ssa.Value
			rands = in.Operands(rands)
			for _, r := range rands {
				ci.ops = append(ci.ops, mkop(*r))
			}
			cb.instrs = append(cb.instrs, ci)
		}
		c.blocks = append(c.blocks, cb)
	}
	E.funcs.Store(fn, c)
	return c
}

func (E *Env) instrumented(path string) bool {
	return path != E.verifrt && (path == E.repoPath || strings.HasPrefix(path, E.repoPath+"/"))
}

func constVal(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Constraint().Underlying()
	}
	if b, ok := t.(*types.Basic); ok {
		if w, signed, ok := intWidth(b); ok {
			v := constant.ToInt(c.Value)
			if signed {
				i, _ := constant.Int64Val(v)
				return cBV(w, uint64(i))
			}
			u, _ := constant.Uint64Val(v)
			return cBV(w, u)
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			return cBool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(constant.ToInt(c.Value))
			return string(rune(i))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return complex(re, im)
		}
	}
	panic(unsupported("const %s", c))
}

type deferred struct {
	fn   value
	args []value
	call *ssa.CallCommon
}

type frame struct {
	cf       *cfunc
	regs     []value
	blk      int
	prev     int
	pc       int
	defers   []deferred
	retDst   int // register in the caller, -1 to discard
	deferFor *frame
	panicky  bool // this frame is unwinding
	onReturn func(m *Machine, v value)
	result   value
	atPoint  bool // schedule decision already taken for the current instruction
	rangeLog *rangeRec
}

type panicState struct {
	val       value
	recovered bool
	loc       string
}

type gstatus uint8

const (
	gRun gstatus = iota
	gBlocked
	gDone
)

type goroutine struct {
	id       int
	frames   []*frame
	status   gstatus
	panics   []*panicState
	waiting  string      // description of what it blocks on
	ready    func() bool // retry condition for blocked goroutines that must be polled
	wake     func()      // completes the operation on resume
	resume   bool        // was natively parked; emit a resume event
	waitG    *waiter
	vc       vclock
	started  bool
	inst     bool
	draining bool
	sleeping bool
	hidden   bool
}

// goPanic is raised by the interpreter for Go-level panics.
type goPanic struct{ v value }

func (m *Machine) runtimeErr(msg string) value {
	return iface{t: m.E.rterrT, v: "runtime error: " + msg}
}

func (m *Machine) get(fr *frame, o *operand) value {
	switch o.kind {
	case kReg:
		return fr.regs[o.idx]
	case kConst:
		return o.val
	}
	return m.global(o.g)
}

func (m *Machine) global(g *ssa.Global) *value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	path := g.Pkg.Pkg.Path()
	if m.E.isFrozen(path) && m != m.E.frozen {
		m.E.frozenMu.Lock()
		defer m.E.frozenMu.Unlock()
		return m.E.frozen.global(g)
	}
	if m.inited[g.Pkg] == 0 {
		m.initPkg(g.Pkg)
		if p, ok := m.globals[g]; ok {
			return p
		}
	}
	p := new(value)
	*p = zero(g.Type().(*types.Pointer).Elem())
	m.globals[g] = p
	return p
}

// sentinel returns the value of an error variable of a package that is not encoded: some error that
// differs from all others.
func (E *Env) sentinel(g *ssa.Global) (value, bool) {
	if !types.Identical(g.Type().(*types.Pointer).Elem(), types.Universe.Lookup("error").Type()) || !strings.HasPrefix(g.Name(), "Err") {
		return nil, false
	}
	path := g.Pkg.Pkg.Path()
	if path == "os" || path == "io/fs" {
		path = "internal/oserror" // aliases
	}
	E.frozenMu2.Lock()
	defer E.frozenMu2.Unlock()
	if E.sentinels == nil {
		E.sentinels = map[string]value{}
	}
	key := path + "." + g.Name()
	if E.sentinels[key] == nil {
		p := new(value)
		*p = structure{key, iface{}}
		E.sentinels[key] = iface{t: E.errStrT, v: p}
	}
	return E.sentinels[key], true
}

// initPkg runs a package's variable initialisers and init functions lazily.
func (m *Machine) initPkg(p *ssa.Package) {
	m.inited[p] = 1
	lp := m.E.P.pkgs[p.Pkg.Path()]
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok {
			v := new(value)
			if lp == nil || !lp.full {
				*v = poison{"global " + g.String() + " of a package that is not encoded"}
				if e, ok := m.E.sentinel(g); ok {
					*v = e
				}
			} else {
				*v = zero(g.Type().(*types.Pointer).Elem())
			}
			m.globals[g] = v
		}
	}
	if lp == nil || !lp.full {
		m.inited[p] = 2
		return
	}
	m.embedInit(lp, p)
	ini := p.Func("init")
	if ini != nil && ini.Blocks != nil {
		saveInit := m.inInit
		m.inInit++
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupportedErr); ok {
						m.note("init of " + p.Pkg.Path() + " incomplete: " + u.msg)
						return
					}
					if gp, ok := r.(goPanic); ok {
						m.note("init of " + p.Pkg.Path() + " panicked: " + m.show(gp.v))
						return
					}
					panic(r)
				}
			}()
			m.callNested(ini, nil)
		}()
		m.inInit = saveInit
	}
	m.inited[p] = 2
}

// callNested runs fn to completion on a private goroutine without scheduling.
func (m *Machine) callNested(fn value, args []value) value {
	saveCur := m.cur
	g := &goroutine{id: -2, hidden: true}
	if saveCur != nil {
		g.id = saveCur.id
		g.vc = saveCur.vc
	}
	var res value
	m.cur = g
	m.nested++
	defer func() { m.nested--; m.cur = saveCur }()
	done := false
	m.invoke(g, fn, args, -1, func(_ *Machine, v value) { res = v; done = true })
	for !done {
		if len(g.frames) == 0 {
			break
		}
		if m.step(g) {
			if g.status == gBlocked {
				panic(unsupported("blocking operation in a nested call (%s)", g.waiting))
			}
		}
		if g.status == gDone {
			break
		}
	}
	if !done && len(g.panics) > 0 {
		panic(goPanic{g.panics[len(g.panics)-1].val})
	}
	return res
}

// invoke starts a call of fn: pushes a frame or runs an intrinsic.
// retDst is the caller's register for the result.
func (m *Machine) invoke(g *goroutine, fn value, args []value, retDst int, onRet func(*Machine, value)) {
	deliver := func(v value) {
		if onRet != nil {
			onRet(m, v)
		} else if retDst >= 0 {
			fr := g.frames[len(g.frames)-1]
			fr.regs[retDst] = v
		}
	}
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			panic(goPanic{m.runtimeErr("invalid memory address or nil pointer dereference")})
		}
		m.invokeFn(g, f, nil, args, retDst, onRet, deliver)
	case *closure:
		if f == nil {
			panic(goPanic{m.runtimeErr("invalid memory address or nil pointer dereference")})
		}
		m.invokeFn(g, f.fn, f.env, args, retDst, onRet, deliver)
	case *nativeFn:
		if f == nil {
			panic(goPanic{m.runtimeErr("invalid memory address or nil pointer dereference")})
		}
		deliver(f.f(m, args))
	case *ssa.Builtin:
		deliver(m.builtin(f, nil, args))
	case poison:
		panic(unsupported("call of poison: %s", f.why))
	case nil:
		panic(goPanic{m.runtimeErr("invalid memory address or nil pointer dereference")})
	default:
		panic(unsupported("call of %T", fn))
	}
}

// randReader returns the source of random bytes that a harness put in place for crypto/rand.Read.
func (m *Machine) randReader(f *ssa.Function, key string) (value, bool) {
	if key != "crypto/rand.Read" || f.Pkg == nil {
		return nil, false
	}
	g, ok := f.Pkg.Members["Reader"].(*ssa.Global)
	if !ok || m.globals[g] == nil {
		return nil, false
	}
	r, ok := (*m.globals[g]).(iface)
	return r, ok && r.t != nil
}

func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func fnPkgPath(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func (m *Machine) invokeFn(g *goroutine, f *ssa.Function, env []value, args []value, retDst int, onRet func(*Machine, value), deliver func(value)) {
	key := fnKey(f)
	if stub, ok := m.E.stubs[key]; ok && !m.inStub(g, stub) {
		if m.usedStubs != nil {
			m.usedStubs[key] = true
		}
		f = stub
		key = stub.String()
	} else if key == "(*sync.Once).Do" {
		// atomic as long as the function has no scheduling points
		p := m.ptr(args[0])
		k := fmt.Sprintf("once:%p", p)
		if by, _ := m.side[k].(*goroutine); by != nil {
			if m.cfg2().Race {
				// everything the runner did so far: over-approximates the order
				g.vc.join(by.vc)
				by.vc.tick(by.id)
			}
			deliver(nil)
			return
		}
		m.side[k] = g
		m.invoke(g, args[1], nil, retDst, onRet)
		return
	} else if r, ok := m.randReader(f, key); ok {
		m.invokeFn(g, m.E.P.pkgs[m.E.verifrt].ssapkg.Func("readFull"), nil, []value{r, args[0]}, retDst, onRet, deliver)
		return
	} else if in, ok := m.E.intr[key]; ok {
		deliver(in(m, g, f, args))
		return
	} else if names := protoEnumNames(f); names != nil {
		n := int32(m.intArg(args[0], "enum"))
		if mv, ok := (*m.global(names)).(*mapv); ok {
			if e := mv.idx["i"+strconv.FormatUint(uint64(uint32(n)), 16)]; e != nil && !e.deleted {
				deliver(e.val)
				return
			}
			deliver(strconv.Itoa(int(n)))
			return
		}
	}
	path := fnPkgPath(f)
	if f.Blocks == nil || (path != "" && !m.E.interpOK(path) && f.Synthetic == "") {
		if m.E.noop(path) {
			deliver(zeroResult(f.Signature))
			return
		}
		if m.inInit > 0 {
			deliver(poison{"result of " + key})
			return
		}
		panic(unsupported("call of %s (not encoded)", key))
	}
	if f.Name() == "init" && f.Synthetic == "package initializer" {
		// imported packages are initialised lazily
		if m.inited[f.Pkg] != 1 || len(g.frames) > 0 {
			deliver(nil)
			return
		}
	}
	cf := m.E.compile(f)
	if cf.instr {
		m.fnSeen[f] = true
	}
	fr := &frame{cf: cf, regs: make([]value, cf.nregs), retDst: retDst, onReturn: onRet, prev: -1}
	if len(args) != len(f.Params) {
		panic(unsupported("arity mismatch calling %s: %d vs %d", key, len(args), len(f.Params)))
	}
	copy(fr.regs, args)
	copy(fr.regs[cf.free:], env)
	g.frames = append(g.frames, fr)
	if len(g.frames) > 400 {
		panic(unsupported("call depth exceeds 400 in %s", key))
	}
}

// inStub reports whether the stub itself is on the stack (so it may call the original).
func (m *Machine) inStub(g *goroutine, stub *ssa.Function) bool {
	for _, fr := range g.frames {
		if fr.cf.fn == stub {
			return true
		}
	}
	return false
}

func zeroResult(sig *types.Signature) value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return zero(sig.Results().At(0).Type())
	}
	return zero(sig.Results())
}

func storeLoc(p *value, v value) {
	switch x := v.(type) {
	case structure:
		if d, ok := (*p).(structure); ok && len(d) == len(x) {
			for i := range x {
				storeLoc(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
		return
	case array:
		if d, ok := (*p).(array); ok && len(d) == len(x) {
			for i := range x {
				storeLoc(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
		return
	}
	*p = v
}

func (m *Machine) ptr(v value) *value {
	switch p := v.(type) {
	case *value:
		if p == nil {
			panic(goPanic{m.runtimeErr("invalid memory address or nil pointer dereference")})
		}
		return p
	case poison:
		panic(unsupported("poison pointer: %s", p.why))
	case nil:
		panic(goPanic{m.runtimeErr("invalid memory address or nil pointer dereference")})
	}
	panic(unsupported("pointer %T", v))
}

func (m *Machine) structOf(p *value) structure {
	switch s := (*p).(type) {
	case structure:
		return s
	case poison:
		panic(unsupported("poison struct: %s", s.why))
	}
	panic(unsupported("struct access of %T", *p))
}

// idx turns an index value into an int term extended to 64 bits.
func (m *Machine) idx(v value, t types.Type) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("index type %s", t))
	}
	_, signed, _ := intWidth(b)
	x, ok := v.(*Term)
	if !ok {
		if p, isP := v.(poison); isP {
			panic(unsupported("poison index: %s", p.why))
		}
		panic(unsupported("index value %T", v))
	}
	return m.tc.Resize(x, 64, signed)
}

// bounds checks 0 <= i < n and returns the index concretised.
func (m *Machine) boundIdx(i *Term, n int) int {
	if i.op == OConst {
		k := i.sval()
		if k < 0 || k >= int64(n) {
			panic(goPanic{m.runtimeErr(fmt.Sprintf("index out of range [%d] with length %d", k, n))})
		}
		return int(k)
	}
	m.boundSym(i, n)
	return int(int64(m.concretize(i)))
}

func (m *Machine) boundSym(i *Term, n int) {
	if !m.branch(m.tc.Bin(OUlt, i, cInt(n))) {
		panic(goPanic{m.runtimeErr(fmt.Sprintf("index out of range [symbolic] with length %d", n))})
	}
}

func (m *Machine) intArg(v value, what string) int {
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported("%s: %T", what, v))
	}
	if t.op != OConst {
		return int(sext64(m.concretize(t), t.w))
	}
	return int(t.sval())
}

// step executes one instruction of g; it returns true when g must yield.
func (m *Machine) step(g *goroutine) (yield bool) {
	m.steps++
	if m.steps > m.maxSteps {
		panic(unsupported("step limit %d reached", m.maxSteps))
	}
	if m.steps&0x1fff == 0 {
		m.checkTime()
	}
	fr := g.frames[len(g.frames)-1]
	if fr.panicky {
		m.unwind(g)
		return g.status != gRun
	}
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				m.startPanic(g, gp.v)
				yield = g.status != gRun
				return
			}
			if m.errLoc == "" {
				m.errLoc = m.where(g)
			}
			panic(r)
		}
	}()
	return m.exec(g, fr)
}

// where describes the position of g's innermost repository frame.
func (m *Machine) where(g *goroutine) string {
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		if fr.blk >= len(fr.cf.blocks) {
			continue
		}
		ins := fr.cf.blocks[fr.blk].instrs
		pc := fr.pc
		if pc >= len(ins) {
			pc = len(ins) - 1
		}
		if !fr.cf.instr && i > 0 {
			continue
		}
		for k := pc; k >= 0; k-- {
			if pos := ins[k].in.Pos(); pos.IsValid() {
				p := m.E.P.fset.Position(pos)
				return fmt.Sprintf("%s (%s:%d)", fr.cf.fn.String(), strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
			}
		}
		return fr.cf.fn.String()
	}
	return "?"
}

func (m *Machine) whereFn(g *goroutine) string {
	for i := len(g.frames) - 1; i >= 0; i-- {
		if g.frames[i].cf.instr {
			return g.frames[i].cf.fn.String()
		}
	}
	return "?"
}

func (m *Machine) stack(g *goroutine) []string {
	var out []string
	for i := len(g.frames) - 1; i >= 0 && len(out) < 12; i-- {
		fr := g.frames[i]
		s := fr.cf.fn.String()
		if fr.blk < len(fr.cf.blocks) {
			ins := fr.cf.blocks[fr.blk].instrs
			for k := min(fr.pc, len(ins)-1); k >= 0; k-- {
				if pos := ins[k].in.Pos(); pos.IsValid() {
					p := m.E.P.fset.Position(pos)
					s += fmt.Sprintf(" %s:%d", p.Filename, p.Line)
					break
				}
			}
		}
		out = append(out, s)
	}
	return out
}

func (m *Machine) startPanic(g *goroutine, v value) {
	if m.nested > 0 && g.hidden {
		// propagate through the native caller
	}
	g.panics = append(g.panics, &panicState{val: v, loc: m.where(g)})
	g.frames[len(g.frames)-1].panicky = true
	// the panic site, for reports
	m.lastPanicStack = m.stack(g)
}

// unwind makes progress on a panicking goroutine.
func (m *Machine) unwind(g *goroutine) {
	fr := g.frames[len(g.frames)-1]
	ps := g.panics[len(g.panics)-1]
	if ps.recovered && len(fr.defers) == 0 {
		g.panics = g.panics[:len(g.panics)-1]
		fr.panicky = false
		if fr.cf.fn.Recover != nil {
			fr.prev = fr.blk
			fr.blk = fr.cf.fn.Recover.Index
			fr.pc = 0
		} else {
			m.ret(g, fr, zeroResult(fr.cf.fn.Signature))
		}
		return
	}
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		m.invokeDeferred(g, fr, d)
		return
	}
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		g.status = gDone
		if !g.hidden {
			m.uncaughtPanic(g, ps)
		}
		return
	}
	nf := g.frames[len(g.frames)-1]
	if fr.deferFor != nil {
		// a deferred call panicked: the new panic replaces the old one
		if len(g.panics) > 1 && nf.panicky {
			g.panics = append(g.panics[:len(g.panics)-2], ps)
		}
	}
	nf.panicky = true
}

func (m *Machine) invokeDeferred(g *goroutine, fr *frame, d deferred) {
	depth := len(g.frames)
	m.invoke(g, d.fn, d.args, -1, func(*Machine, value) {})
	if len(g.frames) > depth {
		g.frames[len(g.frames)-1].deferFor = fr
	}
}

func (m *Machine) ret(g *goroutine, fr *frame, v value) {
	g.frames = g.frames[:len(g.frames)-1]
	if fr.onReturn != nil {
		fr.onReturn(m, v)
	} else if fr.retDst >= 0 && len(g.frames) > 0 {
		g.frames[len(g.frames)-1].regs[fr.retDst] = v
	}
	if len(g.frames) == 0 {
		g.status = gDone
	}
}

func (m *Machine) exec(g *goroutine, fr *frame) bool {
	blk := fr.cf.blocks[fr.blk]
	if fr.pc == 0 && blk.nphi > 0 {
		// parallel phi assignment
		k := -1
		for i, p := range blk.b.Preds {
			if p.Index == fr.prev {
				k = i
			}
		}
		tmp := make([]value, blk.nphi)
		for i := 0; i < blk.nphi; i++ {
			tmp[i] = m.get(fr, &blk.instrs[i].ops[k])
		}
		for i := 0; i < blk.nphi; i++ {
			fr.regs[blk.instrs[i].dst] = tmp[i]
		}
		fr.pc = blk.nphi
	}
	ci := &blk.instrs[fr.pc]
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		p := new(value)
		*p = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ci.dst] = p
	case *ssa.Store:
		p := m.ptr(m.get(fr, &ci.ops[0]))
		v := m.get(fr, &ci.ops[1])
		m.race(g, p, true)
		storeLoc(p, v)
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			if m.point(g, fr, opRecv) {
				return true
			}
			return m.doRecv(g, fr, m.get(fr, &ci.ops[0]), ci.dst, in.CommaOk, in.X.Type())
		}
		fr.regs[ci.dst] = m.unop(g, in, m.get(fr, &ci.ops[0]))
	case *ssa.BinOp:
		fr.regs[ci.dst] = m.binop(in.Op, in.X.Type(), in.Y.Type(), m.get(fr, &ci.ops[0]), m.get(fr, &ci.ops[1]))
	case *ssa.Call:
		return m.doCall(g, fr, ci, &in.Call)
	case *ssa.If:
		c := m.get(fr, &ci.ops[0])
		t, ok := c.(*Term)
		if !ok {
			if p, isP := c.(poison); isP {
				panic(unsupported("branch on poison: %s", p.why))
			}
			panic(unsupported("branch on %T", c))
		}
		k := 1
		if m.branch(t) {
			k = 0
		}
		fr.prev = fr.blk
		fr.blk = blk.b.Succs[k].Index
		fr.pc = 0
		return false
	case *ssa.Jump:
		fr.prev = fr.blk
		fr.blk = blk.b.Succs[0].Index
		fr.pc = 0
		return false
	case *ssa.Return:
		var v value
		switch len(ci.ops) {
		case 0:
		case 1:
			v = m.get(fr, &ci.ops[0])
		default:
			t := make(tuple, len(ci.ops))
			for i := range t {
				t[i] = m.get(fr, &ci.ops[i])
			}
			v = t
		}
		m.ret(g, fr, v)
		return g.status != gRun
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			m.invokeDeferred(g, fr, d)
			return g.status != gRun
		}
	case *ssa.Panic:
		v := m.get(fr, &ci.ops[0])
		panic(goPanic{v})
	case *ssa.Defer:
		fn, args := m.prepCall(g, fr, ci, &in.Call)
		if in.DeferStack != nil {
			panic(unsupported("deferstack"))
		}
		fr.defers = append(fr.defers, deferred{fn: fn, args: args, call: &in.Call})
	case *ssa.Go:
		fn, args := m.prepCall(g, fr, ci, &in.Call)
		m.spawn(g, fn, args, fr.cf.instr)
	case *ssa.MakeClosure:
		c := &closure{fn: in.Fn.(*ssa.Function)}
		for i := range in.Bindings {
			c.env = append(c.env, m.get(fr, &ci.ops[i+1]))
		}
		fr.regs[ci.dst] = c
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = m.mkIface(in.X.Type(), m.get(fr, &ci.ops[0]))
	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap()
	case *ssa.MakeChan:
		n := m.intArg(m.get(fr, &ci.ops[0]), "chan size")
		m.nchan++
		fr.regs[ci.dst] = &chanv{cap: n, id: m.nchan, elem: in.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.MakeSlice:
		ln := m.intArg(m.get(fr, &ci.ops[0]), "slice len")
		cp := m.intArg(m.get(fr, &ci.ops[1]), "slice cap")
		if ln < 0 || cp < ln {
			panic(goPanic{m.runtimeErr("makeslice: len out of range")})
		}
		if cp > 1<<20 {
			panic(unsupported("makeslice of %d", cp))
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make(slice, cp)
		for i := range s {
			s[i] = zero(et)
		}
		fr.regs[ci.dst] = s[:ln]
	case *ssa.FieldAddr:
		p := m.ptr(m.get(fr, &ci.ops[0]))
		fr.regs[ci.dst] = &m.structOf(p)[in.Field]
	case *ssa.Field:
		v := m.get(fr, &ci.ops[0])
		s, ok := v.(structure)
		if !ok {
			panic(unsupported("field of %T", v))
		}
		fr.regs[ci.dst] = s[in.Field]
	case *ssa.IndexAddr:
		x := m.get(fr, &ci.ops[0])
		i := m.idx(m.get(fr, &ci.ops[1]), in.Index.Type())
		switch s := x.(type) {
		case slice:
			k := m.boundIdx(i, len(s))
			fr.regs[ci.dst] = &s[k]
		case *value:
			a := m.ptr(s)
			arr, ok := (*a).(array)
			if !ok {
				panic(unsupported("indexaddr of %T", *a))
			}
			k := m.boundIdx(i, len(arr))
			fr.regs[ci.dst] = &arr[k]
		case poison:
			panic(unsupported("poison slice: %s", s.why))
		default:
			panic(unsupported("indexaddr of %T", x))
		}
	case *ssa.Index:
		x := m.get(fr, &ci.ops[0])
		i := m.idx(m.get(fr, &ci.ops[1]), in.Index.Type())
		switch s := x.(type) {
		case array:
			fr.regs[ci.dst] = s[m.boundIdx(i, len(s))]
		case string, *symStr:
			fr.regs[ci.dst] = m.strIndex(x, i)
		default:
			panic(unsupported("index of %T", x))
		}
	case *ssa.Lookup:
		x := m.get(fr, &ci.ops[0])
		k := m.get(fr, &ci.ops[1])
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			if p, isP := x.(poison); isP {
				panic(unsupported("poison map: %s", p.why))
			}
			mp := x.(*mapv)
			if mp != nil {
				m.race(g, &mp.race, false)
			}
			e := m.mapFind(mp, mt.Key(), k)
			var v value
			if e != nil {
				v = e.val
			} else {
				v = zero(mt.Elem())
			}
			if in.CommaOk {
				fr.regs[ci.dst] = tuple{v, cBool(e != nil)}
			} else {
				fr.regs[ci.dst] = v
			}
		} else {
			fr.regs[ci.dst] = m.strIndex(x, m.idx(k, in.Index.Type()))
		}
	case *ssa.MapUpdate:
		mp, ok := m.get(fr, &ci.ops[0]).(*mapv)
		if !ok {
			panic(unsupported("map update of %T", m.get(fr, &ci.ops[0])))
		}
		if mp != nil {
			m.race(g, &mp.race, true)
		}
		m.mapSet(mp, in.Map.Type().Underlying().(*types.Map).Key(), m.get(fr, &ci.ops[1]), m.get(fr, &ci.ops[2]))
	case *ssa.Slice:
		fr.regs[ci.dst] = m.doSlice(fr, ci, in)
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, &ci.ops[0]).(slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			panic(goPanic{m.runtimeErr("cannot convert slice to array pointer")})
		}
		panic(unsupported("slice to array pointer"))
	case *ssa.ChangeType:
		fr.regs[ci.dst] = m.get(fr, &ci.ops[0])
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = m.get(fr, &ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), m.get(fr, &ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), m.get(fr, &ci.ops[0]))
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = m.typeAssert(in, m.get(fr, &ci.ops[0]))
	case *ssa.Extract:
		t, ok := m.get(fr, &ci.ops[0]).(tuple)
		if !ok {
			v := m.get(fr, &ci.ops[0])
			if p, isP := v.(poison); isP {
				fr.regs[ci.dst] = p
				break
			}
			panic(unsupported("extract of %T", v))
		}
		fr.regs[ci.dst] = t[in.Index]
	case *ssa.Range:
		fr.regs[ci.dst] = m.mkRange(g, fr, in, m.get(fr, &ci.ops[0]))
	case *ssa.Next:
		fr.regs[ci.dst] = m.next(g, in, m.get(fr, &ci.ops[0]))
	case *ssa.Send:
		if m.point(g, fr, opSend) {
			return true
		}
		return m.doSend(g, fr, m.get(fr, &ci.ops[0]), m.get(fr, &ci.ops[1]))
	case *ssa.Select:
		if m.point(g, fr, opSelect) {
			return true
		}
		return m.doSelect(g, fr, ci, in)
	default:
		panic(unsupported("instruction %T", ci.in))
	}
	fr.pc++
	return false
}

func (m *Machine) mkIface(t types.Type, v value) value {
	if p, ok := v.(poison); ok {
		return p
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return iface{t: t, v: v}
}

func (m *Machine) strIndex(s value, i *Term) value {
	n := strLen(s)
	if i.op == OConst {
		k := m.boundIdx(i, n)
		if c, ok := s.(string); ok {
			return cBV(8, uint64(c[k]))
		}
		return s.(*symStr).b[k]
	}
	m.boundSym(i, n)
	b := strBytes(s)
	r := b[n-1]
	for k := n - 2; k >= 0; k-- {
		r = m.tc.Ite(m.tc.Eq(i, cInt(k)), b[k], r)
	}
	return r
}

func (m *Machine) prepCall(g *goroutine, fr *frame, ci *cinstr, c *ssa.CallCommon) (value, []value) {
	// Operands of a CallCommon: Value first, then Args.
	fnv := m.get(fr, &ci.ops[0])
	args := make([]value, 0, len(c.Args)+1)
	if c.IsInvoke() {
		switch recv := fnv.(type) {
		case iface:
			if recv.t == nil {
				panic(goPanic{m.runtimeErr("invalid memory address or nil pointer dereference")})
			}
			f := m.findMethod(recv.t, c.Method)
			args = append(args, recv.v)
			fnv = f
		case poison:
			panic(unsupported("method %s on poison: %s", c.Method.Name(), recv.why))
		default:
			panic(unsupported("invoke on %T", fnv))
		}
	}
	for i := range c.Args {
		args = append(args, m.get(fr, &ci.ops[i+1]))
	}
	return fnv, args
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (m *Machine) findMethod(t types.Type, meth *types.Func) value {
	k := methKey{t, meth}
	if f, ok := m.E.methods.Load(k); ok {
		return f
	}
	f := m.E.P.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	if f == nil {
		panic(unsupported("no method %s on %s", meth.Name(), t))
	}
	m.E.methods.Store(k, f)
	return f
}

func (m *Machine) doCall(g *goroutine, fr *frame, ci *cinstr, c *ssa.CallCommon) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]value, len(c.Args))
		for i := range args {
			args[i] = m.get(fr, &ci.ops[i+1])
		}
		v := m.builtinCall(g, fr, b, c, args)
		fr.regs[ci.dst] = v
		fr.pc++
		return false
	}
	fn, args := m.prepCall(g, fr, ci, c)
	if sf := staticFn(fn); sf != nil {
		if op := acquireOp(fnKey(sf)); op != opNone {
			if m.inInit > 0 {
				fr.regs[ci.dst] = zeroResult(sf.Signature)
				fr.pc++
				return false
			}
			if m.point(g, fr, op) {
				return true
			}
			return m.syncCall(g, fr, ci, sf, op, args)
		}
	}
	if p, ok := fn.(poison); ok && m.inInit > 0 {
		fr.regs[ci.dst] = p
		fr.pc++
		return false
	}
	fr.pc++
	if m.inInit > 0 && len(g.frames) == 1 {
		// top-level initialiser: contain unsupported calls
		depth := len(g.frames)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupportedErr); ok {
						g.frames = g.frames[:depth]
						fr.regs[ci.dst] = poison{u.msg}
						m.note("init: " + u.msg)
						return
					}
					panic(r)
				}
			}()
			v := m.callNested(fn, args)
			fr.regs[ci.dst] = v
		}()
		return false
	}
	depth := len(g.frames)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if len(g.frames) == depth {
					fr.pc--
				}
				panic(r)
			}
		}()
		m.invoke(g, fn, args, ci.dst, nil)
	}()
	return g.status != gRun || m.yieldNow(g)
}

func staticFn(v value) *ssa.Function {
	switch f := v.(type) {
	case *ssa.Function:
		return f
	case *closure:
		if f != nil {
			return f.fn
		}
	}
	return nil
}

func (m *Machine) unop(g *goroutine, in *ssa.UnOp, x value) value {
	switch in.Op {
	case token.MUL:
		p := m.ptr(x)
		m.race(g, p, false)
		return copyVal(*p)
	case token.NOT:
		return m.tc.Not(m.term(x))
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		t := m.term(x)
		return m.tc.Bin(OSub, cBV(t.w, 0), t)
	case token.XOR:
		return m.tc.Bnot(m.term(x))
	}
	panic(unsupported("unop %s", in.Op))
}

func (m *Machine) term(v value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case poison:
		panic(unsupported("poison: %s", x.why))
	}
	panic(unsupported("expected scalar, have %T", v))
}

func (m *Machine) binop(op token.Token, xt, yt types.Type, x, y value) value {
	switch op {
	case token.EQL:
		return m.eqT(xt, yt, x, y)
	case token.NEQ:
		return m.tc.Not(m.eqT(xt, yt, x, y))
	}
	switch a := x.(type) {
	case float64:
		b := y.(float64)
		f32 := xt.Underlying().(*types.Basic).Kind() == types.Float32
		rnd := func(f float64) value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return rnd(a + b)
		case token.SUB:
			return rnd(a - b)
		case token.MUL:
			return rnd(a * b)
		case token.QUO:
			return rnd(a / b)
		case token.LSS:
			return cBool(a < b)
		case token.LEQ:
			return cBool(a <= b)
		case token.GTR:
			return cBool(a > b)
		case token.GEQ:
			return cBool(a >= b)
		}
	case string, *symStr:
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return m.tc.Not(m.strLess(y, x))
		case token.GEQ:
			return m.tc.Not(m.strLess(x, y))
		}
	case *Term:
		b := m.term(y)
		if a.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return m.tc.And(a, b)
			case token.OR, token.LOR:
				return m.tc.Or(a, b)
			}
		}
		_, signed, _ := intWidth(xt.Underlying().(*types.Basic))
		pick := func(s, u Op) Op {
			if signed {
				return s
			}
			return u
		}
		switch op {
		case token.ADD:
			return m.tc.Bin(OAdd, a, b)
		case token.SUB:
			return m.tc.Bin(OSub, a, b)
		case token.MUL:
			return m.tc.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if !m.branch(m.tc.Not(m.tc.Eq(b, cBV(b.w, 0)))) {
				panic(goPanic{m.runtimeErr("integer divide by zero")})
			}
			if op == token.QUO {
				return m.tc.Bin(pick(OSdiv, OUdiv), a, b)
			}
			return m.tc.Bin(pick(OSrem, OUrem), a, b)
		case token.AND:
			return m.tc.Bin(OBand, a, b)
		case token.OR:
			return m.tc.Bin(OBor, a, b)
		case token.XOR:
			return m.tc.Bin(OBxor, a, b)
		case token.AND_NOT:
			return m.tc.Bin(OBand, a, m.tc.Bnot(b))
		case token.SHL, token.SHR:
			_, ysigned, _ := intWidth(yt.Underlying().(*types.Basic))
			if ysigned {
				if !m.branch(m.tc.Bin(OSle, cBV(b.w, 0), b)) {
					panic(goPanic{m.runtimeErr("negative shift amount")})
				}
			}
			var cnt *Term
			if b.w <= a.w {
				cnt = m.tc.Resize(b, a.w, false)
			} else {
				big := m.tc.Bin(OUle, cBV(b.w, uint64(a.w)), b)
				cnt = m.tc.Ite(big, cBV(a.w, uint64(a.w)), m.tc.Extract(b, 0, a.w))
			}
			if op == token.SHL {
				return m.tc.Bin(OShl, a, cnt)
			}
			return m.tc.Bin(pick(OAshr, OLshr), a, cnt)
		case token.LSS:
			return m.tc.Bin(pick(OSlt, OUlt), a, b)
		case token.LEQ:
			return m.tc.Bin(pick(OSle, OUle), a, b)
		case token.GTR:
			return m.tc.Bin(pick(OSlt, OUlt), b, a)
		case token.GEQ:
			return m.tc.Bin(pick(OSle, OUle), b, a)
		}
	case poison:
		panic(unsupported("poison: %s", a.why))
	}
	panic(unsupported("binop %s on %T", op, x))
}

func (m *Machine) eqT(xt, yt types.Type, x, y value) *Term {
	_, xi := xt.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi && !yi {
		y = m.mkIface(yt, y)
		if isNilConst(yt) {
			y = iface{}
		}
	} else if yi && !xi {
		x = m.mkIface(xt, x)
		if isNilConst(xt) {
			x = iface{}
		}
	}
	return m.eq(xt, x, y)
}

func isNilConst(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (m *Machine) convert(from, to types.Type, v value) value {
	if p, ok := v.(poison); ok {
		return p
	}
	uf, ut := from.Underlying(), to.Underlying()
	switch tt := ut.(type) {
	case *types.Basic:
		if w, _, ok := intWidth(tt); ok {
			switch x := v.(type) {
			case *Term:
				_, fs, _ := intWidth(uf.(*types.Basic))
				return m.tc.Resize(x, w, fs)
			case float64:
				return cBV(w, uint64(int64(x)))
			case *value:
				return m.ptrNum(x)
			}
		}
		if tt.Info()&types.IsFloat != 0 {
			var f float64
			switch x := v.(type) {
			case float64:
				f = x
			case *Term:
				c := x
				if c.op != OConst {
					c = cBV(x.w, m.concretize(x))
				}
				_, fs, _ := intWidth(uf.(*types.Basic))
				if fs {
					f = float64(c.sval())
				} else {
					f = float64(c.val)
				}
			}
			if tt.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
		if tt.Info()&types.IsComplex != 0 {
			return v
		}
		if tt.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case string, *symStr:
				return x
			case *Term:
				c := x
				if c.op != OConst {
					c = cBV(x.w, m.concretize(x))
				}
				return string(rune(c.sval()))
			case slice:
				if e, ok := uf.(*types.Slice).Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
					return mkStr(sliceTerms(x))
				}
				var sb strings.Builder
				for _, r := range x {
					t := m.term(r)
					if t.op != OConst {
						t = cBV(32, m.concretize(t))
					}
					sb.WriteRune(rune(t.sval()))
				}
				return sb.String()
			}
		}
		if tt.Kind() == types.UnsafePointer {
			return &opaque{kind: "unsafe", data: v}
		}
	case *types.Slice:
		if e, ok := tt.Elem().Underlying().(*types.Basic); ok && (uf.(interface{}) != nil) {
			if b, isB := uf.(*types.Basic); isB && b.Info()&types.IsString != 0 {
				if e.Kind() == types.Uint8 {
					bs := strBytes(v)
					c := int(roundupsize(uint64(len(bs))))
					if len(bs) <= 32 {
						c = 32
					}
					s := make(slice, len(bs), c)
					for i, t := range bs {
						s[i] = t
					}
					full := s[:c]
					for i := len(bs); i < c; i++ {
						full[i] = cBV(8, 0)
					}
					return s
				}
				s, ok := v.(string)
				if !ok {
					bs := strBytes(v)
					out := make(slice, 0, len(bs))
					for _, t := range bs {
						if !m.branch(m.tc.Bin(OUlt, t, cBV(8, 0x80))) {
							panic(unsupported("[]rune of symbolic non-ASCII string"))
						}
						out = append(out, m.tc.Resize(t, 32, false))
					}
					return out
				}
				var out slice
				for _, r := range s {
					out = append(out, cBV(32, uint64(r)))
				}
				return out
			}
		}
		return v
	case *types.Pointer:
		if o, ok := v.(*opaque); ok && o.kind == "unsafe" {
			if p, ok := o.data.(*value); ok {
				return p
			}
		}
		if p, ok := v.(*value); ok {
			return p
		}
	}
	switch v.(type) {
	case *mapv, *chanv, *closure, iface, structure, *value, array, *ssa.Function:
		return v
	}
	panic(unsupported("convert %s to %s (%T)", from, to, v))
}

func (m *Machine) ptrNum(p *value) *Term {
	if p == nil {
		return cBV(64, 0)
	}
	panic(unsupported("pointer to integer"))
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	type key struct {
		t  types.Type
		it *types.Interface
	}
	k := key{t, it}
	if v, ok := m.implCache[k]; ok {
		return v
	}
	r := types.Implements(t, it)
	m.implCache[k] = r
	return r
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, x value) value {
	if p, ok := x.(poison); ok {
		panic(unsupported("type assertion on poison: %s", p.why))
	}
	i, isI := x.(iface)
	if !isI {
		panic(unsupported("type assertion on %T", x))
	}
	ok := false
	var v value
	if i.t != nil {
		if it, isIface := in.AssertedType.Underlying().(*types.Interface); isIface {
			ok = m.implements(i.t, it)
			v = i
		} else {
			ok = types.Identical(i.t, in.AssertedType)
			v = i.v
		}
	}
	if !ok {
		if !in.CommaOk {
			what := "nil"
			if i.t != nil {
				what = i.t.String()
			}
			panic(goPanic{iface{t: m.E.rterrT, v: fmt.Sprintf("interface conversion: interface is %s, not %s", what, in.AssertedType)}})
		}
		return tuple{zero(in.AssertedType), tFalse}
	}
	if in.CommaOk {
		return tuple{v, tTrue}
	}
	return v
}

func (m *Machine) doSlice(fr *frame, ci *cinstr, in *ssa.Slice) value {
	x := m.get(fr, &ci.ops[0])
	var lo, hi, mx value
	k := 1
	if in.Low != nil {
		lo = m.get(fr, &ci.ops[k])
	}
	k++
	if in.High != nil {
		hi = m.get(fr, &ci.ops[k])
	}
	k++
	if in.Max != nil {
		mx = m.get(fr, &ci.ops[k])
	}
	geti := func(v value, def int) int {
		if v == nil {
			return def
		}
		return m.intArg(v, "slice bound")
	}
	bad := func(l, h, c int) {
		panic(goPanic{m.runtimeErr(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, c))})
	}
	switch s := x.(type) {
	case string, *symStr:
		n := strLen(x)
		l, h := geti(lo, 0), geti(hi, n)
		if l < 0 || h < l || h > n {
			bad(l, h, n)
		}
		if c, ok := x.(string); ok {
			return c[l:h]
		}
		return mkStr(s.(*symStr).b[l:h])
	case slice:
		c := cap(s)
		l, h := geti(lo, 0), geti(hi, len(s))
		mxv := geti(mx, c)
		if l < 0 || h < l || mxv < h || mxv > c {
			bad(l, h, c)
		}
		return s[l:h:mxv]
	case *value:
		p := m.ptr(s)
		a, ok := (*p).(array)
		if !ok {
			panic(unsupported("slice of pointer to %T", *p))
		}
		c := len(a)
		l, h := geti(lo, 0), geti(hi, c)
		mxv := geti(mx, c)
		if l < 0 || h < l || mxv < h || mxv > c {
			bad(l, h, c)
		}
		return slice(a[l:h:mxv])
	case poison:
		panic(unsupported("poison slice: %s", s.why))
	}
	panic(unsupported("slice of %T", x))
}

type rangeIter struct {
	entries []*mapEntry
	str     value
	pos     int
	kt, vt  types.Type
	rec     *rangeRec
	mp      *mapv
}

type rangeRec struct{ keys []string }

func (m *Machine) mkRange(g *goroutine, fr *frame, in *ssa.Range, x value) value {
	switch mt := in.X.Type().Underlying().(type) {
	case *types.Map:
		it := &rangeIter{kt: mt.Key(), vt: mt.Elem()}
		mp, _ := x.(*mapv)
		if mp != nil {
			m.race(g, &mp.race, false)
			it.entries = append(it.entries, mp.entries...)
			it.mp = mp
		}
		if fr.cf.instr && m.nested == 0 {
			it.rec = &rangeRec{}
			m.ranges = append(m.ranges, it.rec)
		}
		return it
	}
	return &rangeIter{str: x}
}

func (m *Machine) next(g *goroutine, in *ssa.Next, x value) value {
	it := x.(*rangeIter)
	if in.IsString {
		n := strLen(it.str)
		if it.pos >= n {
			return tuple{tFalse, cInt(0), cBV(32, 0)}
		}
		p := it.pos
		if s, ok := it.str.(string); ok {
			r, sz := utf8.DecodeRuneInString(s[p:])
			it.pos += sz
			return tuple{tTrue, cInt(p), cBV(32, uint64(r))}
		}
		b := strBytes(it.str)[p]
		if b.op == OConst && b.val >= 0x80 {
			buf := []byte{}
			for q := p; q < n && q < p+4; q++ {
				t := strBytes(it.str)[q]
				if t.op != OConst {
					break
				}
				buf = append(buf, byte(t.val))
			}
			r, sz := utf8.DecodeRune(buf)
			it.pos += sz
			return tuple{tTrue, cInt(p), cBV(32, uint64(r))}
		}
		if !m.branch(m.tc.Bin(OUlt, b, cBV(8, 0x80))) {
			panic(unsupported("range over symbolic non-ASCII string"))
		}
		it.pos++
		return tuple{tTrue, cInt(p), m.tc.Resize(b, 32, false)}
	}
	for {
		rem := it.entries[:0:0]
		for _, e := range it.entries {
			if !e.deleted {
				rem = append(rem, e)
			}
		}
		it.entries = rem
		if len(rem) == 0 {
			return tuple{tFalse, zero(it.kt), zero(it.vt)}
		}
		if it.mp != nil {
			m.race(g, &it.mp.race, false)
		}
		k := 0
		if m.cfg.MapOrder && len(rem) > 1 && it.rec != nil &&
			(m.cfg.MapOrderOf == "" || strings.Contains("map["+it.kt.String()+"]"+it.vt.String(), m.cfg.MapOrderOf)) {
			k = m.choose("maporder", len(rem))
		}
		e := rem[k]
		it.entries = append(append([]*mapEntry(nil), rem[:k]...), rem[k+1:]...)
		if it.rec != nil {
			it.rec.keys = append(it.rec.keys, "")
			i, rec, key := len(it.rec.keys)-1, it.rec, e.key
			m.atEnd = append(m.atEnd, func(md *Model) { rec.keys[i] = showKey(md, key) })
		}
		return tuple{tTrue, e.key, copyVal(e.val)}
	}
}

// showKey renders a map key the way the native replay does (fmt %v).
func showKey(md *Model, v value) string {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return fmt.Sprint(md.eval(x) == 1)
		}
		return fmt.Sprint(sext64(md.eval(x), x.w))
	case string:
		return x
	case *symStr:
		b := make([]byte, len(x.b))
		for i, t := range x.b {
			b[i] = byte(md.eval(t))
		}
		return string(b)
	case iface:
		if x.t == nil {
			return "<nil>"
		}
		return showKey(md, x.v)
	}
	return "?"
}

func (m *Machine) builtinCall(g *goroutine, fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []value) value {
	if b.Name() == "recover" {
		// valid when fr was called directly by the deferring mechanism of a panicking frame
		if fr.deferFor != nil && fr.deferFor.panicky && len(g.panics) > 0 {
			ps := g.panics[len(g.panics)-1]
			if !ps.recovered {
				ps.recovered = true
				return ps.val
			}
		}
		return iface{}
	}
	return m.builtin(b, c, args)
}

func (m *Machine) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []value) value {
	for _, a := range args {
		if p, ok := a.(poison); ok {
			panic(unsupported("builtin %s on poison: %s", b.Name(), p.why))
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *symStr:
			return cInt(strLen(x))
		case slice:
			return cInt(len(x))
		case array:
			return cInt(len(x))
		case *value:
			return cInt(len((*x).(array)))
		case *mapv:
			if x == nil {
				return cInt(0)
			}
			m.race(m.cur, &x.race, false)
			return cInt(x.n)
		case *chanv:
			if x == nil {
				return cInt(0)
			}
			return cInt(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case slice:
			return cInt(cap(x))
		case array:
			return cInt(len(x))
		case *value:
			return cInt(len((*x).(array)))
		case *chanv:
			return cInt(x.cap)
		}
	case "append":
		a, _ := args[0].(slice)
		var et types.Type
		if c != nil {
			et = c.Args[0].Type().Underlying().(*types.Slice).Elem()
		}
		switch y := args[1].(type) {
		case slice:
			m.raceSlice(y, false)
			return m.appendSlice(et, a, y)
		case string, *symStr:
			bs := strBytes(y)
			vs := make([]value, len(bs))
			for i, t := range bs {
				vs[i] = t
			}
			return m.appendSlice(types.Typ[types.Uint8], a, vs)
		}
	case "copy":
		d := args[0].(slice)
		var src []value
		switch y := args[1].(type) {
		case slice:
			src = y
		default:
			for _, t := range strBytes(y) {
				src = append(src, t)
			}
		}
		n := min(len(d), len(src))
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeLoc(&d[i], tmp[i])
		}
		return cInt(n)
	case "delete":
		mp, _ := args[0].(*mapv)
		if mp == nil {
			return nil
		}
		m.race(m.cur, &mp.race, true)
		m.mapDelete(mp, c.Args[0].Type().Underlying().(*types.Map).Key(), args[1])
		return nil
	case "close":
		m.closeChan(args[0].(*chanv))
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			panic(goPanic{m.runtimeErr("invalid memory address or nil pointer dereference")})
		}
		return args[0]
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "String": // unsafe.String
		p := args[0]
		_ = p
	}
	panic(unsupported("builtin %s", b.Name()))
}

func (m *Machine) show(v value) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case string:
		return x
	case *symStr:
		return fmt.Sprintf("<symbolic string of %d bytes>", len(x.b))
	case iface:
		if x.t == nil {
			return "nil"
		}
		if p, ok := x.v.(*value); ok && p != nil {
			if s, ok := (*p).(structure); ok && len(s) > 0 {
				return x.t.String() + ":" + m.show(s[0])
			}
		}
		return x.t.String() + ":" + m.show(x.v)
	case structure:
		s := []string{}
		for _, f := range x {
			s = append(s, m.show(f))
			if len(s) > 6 {
				break
			}
		}
		return "{" + strings.Join(s, " ") + "}"
	case *value:
		if x == nil {
			return "nil"
		}
		return "&..."
	}
	return fmt.Sprintf("%T", v)
}

var _ = math.Pi
var _ = sort.Strings

// protoEnumNames returns the table of names of a generated protobuf enum whose
// String method f is (the method itself goes through protobuf reflection).
func protoEnumNames(f *ssa.Function) *ssa.Global {
	if f.Name() != "String" || f.Pkg == nil || f.Signature.Recv() == nil {
		return nil
	}
	t, ok := f.Signature.Recv().Type().(*types.Named)
	if !ok {
		return nil
	}
	if b, ok := t.Underlying().(*types.Basic); !ok || b.Kind() != types.Int32 {
		return nil
	}
	g, _ := f.Pkg.Members[t.Obj().Name()+"_name"].(*ssa.Global)
	return g
}
