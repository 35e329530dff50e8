package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// value is one of: *Term (bool, integers), float64, complex128, string,
// *symStr, *value (pointer), structure, array, slice, *mapv, *chanv, iface,
// *ssa.Function, *closure, *ssa.Builtin, *nativeFn, tuple, *opaque, poison.
type value interface{}

type structure []value
type array []value
type slice []value
type tuple []value

// symStr is a string with at least one symbolic byte.
type symStr struct{ b []*Term }

type iface struct {
	t types.Type // nil for a nil interface
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type nativeFn struct {
	name string
	f    func(m *Machine, args []value) value
}

// opaque is a model-level object (unsafe pointers, reflect values, ...).
type opaque struct {
	kind string
	data interface{}
}

// poison is the result of an unsupported call during package initialisation.
type poison struct{ why string }

type chanv struct {
	cap    int
	buf    []value
	bufVC  []vclock
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	id     int
	vc     vclock
	elem   types.Type
}

type mapEntry struct {
	key, val value
	deleted  bool
}

type mapv struct {
	entries []*mapEntry
	idx     map[string]*mapEntry
	nsym    int
	n       int
	race    value
}

func newMap() *mapv { return &mapv{idx: map[string]*mapEntry{}} }

// keyStr renders a fully concrete key; ok is false when it is symbolic.
func keyStr(v value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op != OConst {
			return "", false
		}
		return "i" + strconv.FormatUint(x.val, 16), true
	case string:
		return "s" + strconv.Itoa(len(x)) + ":" + x, true
	case *symStr:
		return "", false
	case float64:
		return fmt.Sprintf("f%g", x), true
	case iface:
		if x.t == nil {
			return "nil", true
		}
		s, ok := keyStr(x.v)
		return "I" + types.TypeString(x.t, nil) + "|" + s, ok
	case structure:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range x {
			s, ok := keyStr(f)
			if !ok {
				return "", false
			}
			sb.WriteString(s + ",")
		}
		return sb.String() + "}", true
	case array:
		var sb strings.Builder
		sb.WriteString("[")
		for _, f := range x {
			s, ok := keyStr(f)
			if !ok {
				return "", false
			}
			sb.WriteString(s + ",")
		}
		return sb.String() + "]", true
	case *value:
		return fmt.Sprintf("p%p", x), true
	case *chanv:
		return fmt.Sprintf("c%p", x), true
	case *opaque:
		return fmt.Sprintf("o%p", x), true
	case nil:
		return "nil", true
	}
	panic(unsupported("map key %T", v))
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return u.msg }

func unsupported(f string, a ...interface{}) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}

func copyVal(v value) value {
	switch x := v.(type) {
	case structure:
		n := make(structure, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case array:
		n := make(array, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	}
	return v
}

func intWidth(b *types.Basic) (w uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			return cBV(w, 0)
		}
		switch {
		case u.Kind() == types.Bool || u.Kind() == types.UntypedBool:
			return tFalse
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, u.Len())
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Slice:
		return slice(nil)
	case *types.Map:
		return (*mapv)(nil)
	case *types.Chan:
		return (*chanv)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*closure)(nil)
	case *types.Tuple:
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	panic(unsupported("zero of %s", t))
}

func strBytes(v value) []*Term {
	switch x := v.(type) {
	case string:
		b := make([]*Term, len(x))
		for i := 0; i < len(x); i++ {
			b[i] = cBV(8, uint64(x[i]))
		}
		return b
	case *symStr:
		return x.b
	case poison:
		panic(unsupported("poison string: %s", x.why))
	}
	panic(unsupported("strBytes of %T", v))
}

func strLen(v value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *symStr:
		return len(x.b)
	case poison:
		panic(unsupported("poison string: %s", x.why))
	}
	panic(unsupported("len of string value %T", v))
}

func mkStr(b []*Term) value {
	buf := make([]byte, len(b))
	for i, t := range b {
		if t.op != OConst {
			return &symStr{b: append([]*Term(nil), b...)}
		}
		buf[i] = byte(t.val)
	}
	return string(buf)
}

func strConcat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	return mkStr(append(append([]*Term(nil), strBytes(a)...), strBytes(b)...))
}

func bytesToSlice(b []byte) slice {
	s := make(slice, len(b))
	for i := range b {
		s[i] = cBV(8, uint64(b[i]))
	}
	return s
}

// concreteBytes returns the bytes of a byte slice if all are concrete.
func concreteBytes(s slice) ([]byte, bool) {
	b := make([]byte, len(s))
	for i, v := range s {
		t, ok := v.(*Term)
		if !ok {
			panic(unsupported("byte slice element %T", v))
		}
		if t.op != OConst {
			return nil, false
		}
		b[i] = byte(t.val)
	}
	return b, true
}

func sliceTerms(s slice) []*Term {
	b := make([]*Term, len(s))
	for i, v := range s {
		b[i] = v.(*Term)
	}
	return b
}

func isNilFunc(v value) bool {
	switch f := v.(type) {
	case nil:
		return true
	case *closure:
		return f == nil
	case *ssa.Function:
		return f == nil
	case *nativeFn:
		return f == nil
	}
	return false
}

// eq builds the equality of two values of static type t.
func (m *Machine) eq(t types.Type, a, b value) *Term {
	if p, ok := a.(poison); ok {
		panic(unsupported("poison: %s", p.why))
	}
	if p, ok := b.(poison); ok {
		panic(unsupported("poison: %s", p.why))
	}
	switch x := a.(type) {
	case *Term:
		return m.tc.Eq(x, b.(*Term))
	case float64:
		return cBool(x == b.(float64))
	case complex128:
		return cBool(x == b.(complex128))
	case string, *symStr:
		return m.strEq(a, b)
	case *value:
		y, ok := b.(*value)
		return cBool(ok && x == y)
	case *opaque:
		return cBool(a == b)
	case *chanv:
		return cBool(x == b.(*chanv))
	case *mapv:
		y, _ := b.(*mapv)
		return cBool(x == nil && y == nil || x == y)
	case slice:
		y, _ := b.(slice)
		if x == nil || y == nil {
			return cBool(x == nil && y == nil)
		}
		panic(unsupported("slice comparison"))
	case *closure, *ssa.Function, *nativeFn, *ssa.Builtin:
		return cBool(isNilFunc(a) && isNilFunc(b))
	case structure:
		y := b.(structure)
		st := t.Underlying().(*types.Struct)
		r := tTrue
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = m.tc.And(r, m.eq(st.Field(i).Type(), x[i], y[i]))
		}
		return r
	case array:
		y := b.(array)
		et := t.Underlying().(*types.Array).Elem()
		r := tTrue
		for i := range x {
			r = m.tc.And(r, m.eq(et, x[i], y[i]))
		}
		return r
	case iface:
		y, ok := b.(iface)
		if !ok {
			panic(unsupported("iface compared with %T", b))
		}
		if x.t == nil || y.t == nil {
			return cBool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tFalse
		}
		if !types.Comparable(x.t) {
			panic(goPanic{m.runtimeErr("comparing uncomparable type " + x.t.String())})
		}
		return m.eq(x.t, x.v, y.v)
	case nil:
		return cBool(b == nil || isNilFunc(b))
	}
	panic(unsupported("eq of %T", a))
}

func (m *Machine) strEq(a, b value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return cBool(x == y)
		}
	}
	if strLen(a) != strLen(b) {
		return tFalse
	}
	x, y := strBytes(a), strBytes(b)
	r := tTrue
	for i := range x {
		r = m.tc.And(r, m.tc.Eq(x[i], y[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// strLess builds a < b.
func (m *Machine) strLess(a, b value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return cBool(x < y)
		}
	}
	x, y := strBytes(a), strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := cBool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = m.tc.Or(m.tc.Bin(OUlt, x[i], y[i]), m.tc.And(m.tc.Eq(x[i], y[i]), r))
	}
	return r
}

// mapFind returns the entry for key, branching on symbolic comparisons.
func (m *Machine) mapFind(mp *mapv, kt types.Type, key value) *mapEntry {
	if mp == nil {
		return nil
	}
	if k, ok := key.(iface); ok && k.t != nil && !types.Comparable(k.t) {
		panic(goPanic{m.runtimeErr("hash of unhashable type " + k.t.String())})
	}
	ks, conc := keyStr(key)
	if conc {
		if e := mp.idx[ks]; e != nil {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.entries {
		if e.deleted {
			continue
		}
		if conc {
			if _, ec := keyStr(e.key); ec {
				continue
			}
		}
		if m.branch(m.eq(kt, key, e.key)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *mapv, kt types.Type, key, val value) {
	if mp == nil {
		panic(goPanic{m.runtimeErr("assignment to entry in nil map")})
	}
	if e := m.mapFind(mp, kt, key); e != nil {
		e.val = val
		return
	}
	e := &mapEntry{key: key, val: val}
	mp.entries = append(mp.entries, e)
	mp.n++
	if ks, ok := keyStr(key); ok {
		mp.idx[ks] = e
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDelete(mp *mapv, kt types.Type, key value) {
	e := m.mapFind(mp, kt, key)
	if e == nil {
		return
	}
	e.deleted = true
	mp.n--
	if ks, ok := keyStr(e.key); ok {
		delete(mp.idx, ks)
	} else {
		mp.nsym--
	}
	for i, x := range mp.entries {
		if x == e {
			mp.entries = append(append([]*mapEntry(nil), mp.entries[:i]...), mp.entries[i+1:]...)
			break
		}
	}
}

// growCap emulates runtime.growslice of Go 1.18.
func growCap(oldCap, newLen int, elemSize int64) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		newcap = newLen
	} else {
		const threshold = 256
		if oldCap < threshold {
			newcap = doublecap
		} else {
			for 0 < newcap && newcap < newLen {
				newcap += (newcap + 3*threshold) / 4
			}
			if newcap <= 0 {
				newcap = newLen
			}
		}
	}
	if elemSize == 0 {
		return newLen
	}
	return int(roundupsize(uint64(newcap)*uint64(elemSize)) / uint64(elemSize))
}

var sizeClasses = []uint64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n uint64) uint64 {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) &^ 8191
}

func (m *Machine) appendSlice(et types.Type, a slice, b []value) slice {
	if len(b) == 0 {
		return a
	}
	n := len(a) + len(b)
	if n <= cap(a) {
		r := a[:n]
		tmp := make([]value, len(b))
		for i, v := range b {
			tmp[i] = copyVal(v)
		}
		for i, v := range tmp {
			storeLoc(&r[len(a)+i], v)
		}
		m.raceSlice(r[len(a):], true)
		return r
	}
	c := growCap(cap(a), n, m.E.P.sizes.Sizeof(et))
	if c < n {
		c = n
	}
	r := make(slice, n, c)
	for i := range a {
		r[i] = copyVal(a[i])
	}
	m.raceSlice(a, false)
	for i, v := range b {
		r[len(a)+i] = copyVal(v)
	}
	full := r[:c]
	for i := n; i < c; i++ {
		full[i] = zero(et)
	}
	return r
}
