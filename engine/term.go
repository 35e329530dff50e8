package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Op is a term constructor. Width 0 means Bool, otherwise a bit-vector.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OEq  // bool result
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // val = lo bit
)

type Term struct {
	op   Op
	w    uint8
	val  uint64 // const value, var index, or extract low bit
	a    []*Term
	id   int
	name string
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c *Term
}

// TermCtx hash-conses the terms of one worker.
type TermCtx struct {
	tab    map[termKey]*Term
	nextID int
	vars   []*Term
	byName map[string]*Term
}

func newTermCtx() *TermCtx {
	return &TermCtx{tab: map[termKey]*Term{}, byName: map[string]*Term{}, nextID: 1}
}

var (
	tTrue  = &Term{op: OConst, w: 0, val: 1}
	tFalse = &Term{op: OConst, w: 0, val: 0}
)
var smallConst [65][1025]*Term

func init() {
	for _, w := range []int{8, 16, 32, 64} {
		for i := range smallConst[w] {
			if w == 8 && i > 255 {
				break
			}
			smallConst[w][i] = &Term{op: OConst, w: uint8(w), val: uint64(i)}
		}
	}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func cBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func cBV(w uint8, v uint64) *Term {
	v &= mask(w)
	if v <= 1024 {
		if t := smallConst[w][v]; t != nil {
			return t
		}
	}
	return &Term{op: OConst, w: w, val: v}
}

func cInt(v int) *Term { return cBV(64, uint64(v)) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (t *Term) sval() int64 { return sext64(t.val, t.w) }

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.op == OConst && b.op == OConst && a.w == b.w && a.val == b.val
}

func (c *TermCtx) mk(op Op, w uint8, val uint64, args ...*Term) *Term {
	k := termKey{op: op, w: w, val: val}
	// constants are not unique pointers: canonicalise through the table
	for i, x := range args {
		if x.op == OConst {
			ck := termKey{op: OConst, w: x.w, val: x.val}
			if y, ok := c.tab[ck]; ok {
				args[i] = y
			} else {
				y := &Term{op: OConst, w: x.w, val: x.val, id: c.nextID}
				c.nextID++
				c.tab[ck] = y
				args[i] = y
			}
		}
	}
	switch len(args) {
	case 3:
		k.c = args[2]
		fallthrough
	case 2:
		k.b = args[1]
		fallthrough
	case 1:
		k.a = args[0]
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: args, id: c.nextID}
	c.nextID++
	c.tab[k] = t
	return t
}

func (c *TermCtx) Var(name string, w uint8) *Term {
	if t, ok := c.byName[name]; ok {
		if t.w != w {
			panic("variable width clash " + name)
		}
		return t
	}
	t := &Term{op: OVar, w: w, val: uint64(len(c.vars)), id: c.nextID, name: name}
	c.nextID++
	c.vars = append(c.vars, t)
	c.byName[name] = t
	return t
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.op == OConst {
		return cBool(a.val == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return c.mk(ONot, 0, 0, a)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return tFalse
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return tFalse
	}
	return c.mk(OAnd, 0, 0, a, b)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return tTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return tTrue
	}
	return c.mk(OOr, 0, 0, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if same(a, b) {
		return tTrue
	}
	if a.op == OConst && b.op == OConst {
		return cBool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
	}
	if b.op == OConst {
		switch a.op {
		case OIte:
			if a.a[1].op == OConst && a.a[2].op == OConst {
				x, y := a.a[1].val == b.val, a.a[2].val == b.val
				switch {
				case x && y:
					return tTrue
				case x:
					return a.a[0]
				case y:
					return c.Not(a.a[0])
				default:
					return tFalse
				}
			}
		case OZext:
			in := a.a[0]
			if b.val > mask(in.w) {
				return tFalse
			}
			return c.Eq(in, cBV(in.w, b.val))
		}
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, a, b)
}

func (c *TermCtx) Ite(p, a, b *Term) *Term {
	if p.isTrue() || same(a, b) {
		return a
	}
	if p.isFalse() {
		return b
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return p
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(p)
		}
		if a.isTrue() {
			return c.Or(p, b)
		}
		if a.isFalse() {
			return c.And(c.Not(p), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(p), a)
		}
		if b.isFalse() {
			return c.And(p, a)
		}
	}
	return c.mk(OIte, a.w, 0, p, a, b)
}

func foldBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	sx, sy := sext64(x, w), sext64(y, w)
	b := func(v bool) uint64 {
		if v {
			return 1
		}
		return 0
	}
	switch op {
	case OUlt:
		return b(x < y)
	case OUle:
		return b(x <= y)
	case OSlt:
		return b(sx < sy)
	case OSle:
		return b(sx <= sy)
	case OEq:
		return b(x == y)
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		if y == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSrem:
		if y == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m
	}
	panic("foldBin")
}

// Bin builds a binary bit-vector operation; w is the operand width.
func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d op %d", a.w, b.w, op))
	}
	rw := w
	switch op {
	case OEq:
		return c.Eq(a, b)
	case OUlt, OUle, OSlt, OSle:
		rw = 0
	}
	if a.op == OConst && b.op == OConst {
		v := foldBin(op, w, a.val, b.val)
		if rw == 0 {
			return cBool(v == 1)
		}
		return cBV(rw, v)
	}
	az, bz := a.op == OConst && a.val == 0, b.op == OConst && b.val == 0
	switch op {
	case OAdd:
		if az {
			return b
		}
		if bz {
			return a
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && a.op == OAdd && a.a[1].op == OConst {
			return c.Bin(OAdd, a.a[0], cBV(w, a.a[1].val+b.val))
		}
	case OSub:
		if bz {
			return a
		}
		if same(a, b) {
			return cBV(w, 0)
		}
		if b.op == OConst {
			return c.Bin(OAdd, a, cBV(w, -b.val))
		}
	case OMul:
		if az || bz {
			return cBV(w, 0)
		}
		if a.op == OConst && a.val == 1 {
			return b
		}
		if b.op == OConst && b.val == 1 {
			return a
		}
		if b.op == OConst && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OShl, a, cBV(w, uint64(bits.TrailingZeros64(b.val))))
		}
	case OBand:
		if az || bz {
			return cBV(w, 0)
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val == mask(w) {
			return a
		}
		if same(a, b) {
			return a
		}
	case OBor:
		if az {
			return b
		}
		if bz || same(a, b) {
			return a
		}
	case OBxor:
		if az {
			return b
		}
		if bz {
			return a
		}
		if same(a, b) {
			return cBV(w, 0)
		}
	case OShl, OLshr:
		if bz {
			return a
		}
		if az {
			return a
		}
		if b.op == OConst && b.val >= uint64(w) {
			return cBV(w, 0)
		}
	case OAshr:
		if bz {
			return a
		}
	case OUlt:
		if same(a, b) || bz {
			return tFalse
		}
		if b.op == OConst && a.op == OZext && b.val > mask(a.a[0].w) {
			return tTrue
		}
	case OUle:
		if same(a, b) || az {
			return tTrue
		}
	case OSlt:
		if same(a, b) {
			return tFalse
		}
		if b.op == OConst && a.op == OZext && a.w > a.a[0].w {
			if b.sval() <= 0 {
				return tFalse
			}
			return c.Bin(OUlt, a, b)
		}
		if a.op == OConst && b.op == OZext && b.w > b.a[0].w && a.sval() < 0 {
			return tTrue
		}
	case OSle:
		if same(a, b) {
			return tTrue
		}
		if a.op == OConst && b.op == OZext && b.w > b.a[0].w && a.sval() <= 0 {
			return tTrue
		}
	case OUdiv:
		if b.op == OConst && b.val == 1 {
			return a
		}
	}
	return c.mk(op, rw, 0, a, b)
}

func (c *TermCtx) Bnot(a *Term) *Term {
	if a.op == OConst {
		return cBV(a.w, ^a.val)
	}
	return c.mk(OBnot, a.w, 0, a)
}

func (c *TermCtx) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		if w > a.w && signed {
			return cBV(w, uint64(a.sval()))
		}
		return cBV(w, a.val)
	}
	if w < a.w {
		return c.Extract(a, 0, w)
	}
	if signed {
		if a.op == OZext && a.a[0].w < a.w {
			return c.mk(OZext, w, 0, a.a[0])
		}
		return c.mk(OSext, w, 0, a)
	}
	if a.op == OZext {
		return c.mk(OZext, w, 0, a.a[0])
	}
	return c.mk(OZext, w, 0, a)
}

func (c *TermCtx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.op == OConst {
		return cBV(w, a.val>>lo)
	}
	switch a.op {
	case OZext:
		in := a.a[0]
		if lo >= in.w {
			return cBV(w, 0)
		}
		if lo == 0 && w >= in.w {
			return c.Resize(in, w, false)
		}
		if lo+w <= in.w {
			return c.Extract(in, lo, w)
		}
	case OSext:
		in := a.a[0]
		if lo+w <= in.w {
			return c.Extract(in, lo, w)
		}
	case OBor, OBand, OBxor:
		return c.Bin(a.op, c.Extract(a.a[0], lo, w), c.Extract(a.a[1], lo, w))
	case OShl:
		if a.a[1].op == OConst {
			s := a.a[1].val
			if uint64(lo) >= s {
				return c.Extract(a.a[0], lo-uint8(s), w)
			}
			if uint64(lo)+uint64(w) <= s {
				return cBV(w, 0)
			}
		}
	case OLshr:
		if a.a[1].op == OConst {
			s := a.a[1].val
			if uint64(lo)+s+uint64(w) <= uint64(a.w) {
				return c.Extract(a.a[0], lo+uint8(s), w)
			}
		}
	case OExtract:
		return c.Extract(a.a[0], lo+uint8(a.val), w)
	case OIte:
		if a.a[1].op == OConst || a.a[2].op == OConst {
			return c.Ite(a.a[0], c.Extract(a.a[1], lo, w), c.Extract(a.a[2], lo, w))
		}
	}
	return c.mk(OExtract, w, uint64(lo), a)
}

// Model assigns constants to variables; absent variables are zero.
type Model struct {
	vals map[string]uint64
	memo map[*Term]uint64
}

func (m *Model) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if m.memo == nil {
		m.memo = map[*Term]uint64{}
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m.vals[t.name]
	case ONot:
		r = 1 - m.eval(t.a[0])
	case OAnd:
		if m.eval(t.a[0]) == 1 {
			r = m.eval(t.a[1])
		}
	case OOr:
		if m.eval(t.a[0]) == 1 {
			r = 1
		} else {
			r = m.eval(t.a[1])
		}
	case OIte:
		if m.eval(t.a[0]) == 1 {
			r = m.eval(t.a[1])
		} else {
			r = m.eval(t.a[2])
		}
	case OBnot:
		r = ^m.eval(t.a[0]) & mask(t.w)
	case OZext:
		r = m.eval(t.a[0])
	case OSext:
		r = uint64(sext64(m.eval(t.a[0]), t.a[0].w)) & mask(t.w)
	case OExtract:
		r = (m.eval(t.a[0]) >> t.val) & mask(t.w)
	default:
		r = foldBin(t.op, t.a[0].w, m.eval(t.a[0]), m.eval(t.a[1]))
	}
	m.memo[t] = r
	return r
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor",
	OBxor: "bvxor", OBnot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr"}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return strconv.FormatBool(t.val == 1)
		}
		return strconv.FormatInt(t.sval(), 10)
	case OVar:
		return t.name
	}
	var sb strings.Builder
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	sb.WriteString("(" + n)
	for _, x := range t.a {
		sb.WriteString(" " + x.String())
		if sb.Len() > 400 {
			return sb.String() + "...)"
		}
	}
	return sb.String() + ")"
}
