package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// jsonBlob is a serialised value: encoding/json is modelled as a lossless
// deep copy of exported fields between identical types.
type jsonBlob struct {
	t types.Type
	v value
}

func (m *Machine) deepCopy(v value, seen map[*value]*value) value {
	switch x := v.(type) {
	case structure:
		n := make(structure, len(x))
		for i := range x {
			n[i] = m.deepCopy(x[i], seen)
		}
		return n
	case array:
		n := make(array, len(x))
		for i := range x {
			n[i] = m.deepCopy(x[i], seen)
		}
		return n
	case slice:
		if x == nil {
			return x
		}
		n := make(slice, len(x))
		for i := range x {
			n[i] = m.deepCopy(x[i], seen)
		}
		return n
	case *value:
		if x == nil {
			return x
		}
		if p, ok := seen[x]; ok {
			return p
		}
		p := new(value)
		seen[x] = p
		*p = m.deepCopy(*x, seen)
		return p
	case *mapv:
		if x == nil {
			return x
		}
		n := newMap()
		for _, e := range x.entries {
			m.mapSet(n, nil, e.key, m.deepCopy(e.val, seen))
		}
		return n
	case iface:
		return iface{t: x.t, v: m.deepCopy(x.v, seen)}
	case *closure, *ssa.Function, *chanv:
		return v
	}
	return v
}

func (m *Machine) newBlob(kind string, t types.Type, v value) slice {
	m.sideN++
	tok := fmt.Sprintf("\x01%s#%d\x01", kind, m.sideN)
	m.side["blob:"+tok] = &jsonBlob{t: t, v: m.deepCopy(v, map[*value]*value{})}
	return bytesToSlice([]byte(tok))
}

func (m *Machine) findBlob(s slice) *jsonBlob {
	b, ok := concreteBytes(s)
	if !ok {
		return nil
	}
	r, _ := m.side["blob:"+string(b)].(*jsonBlob)
	return r
}

func derefT(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}

// blobMatches compares a stored blob's type with the decode target.
func (m *Machine) loadBlob(b *jsonBlob, target iface) value {
	v := b.v
	t := b.t
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		pp := v.(*value)
		if pp == nil {
			return iface{} // JSON null: leaves the target unchanged
		}
		v = *pp
		t = p.Elem()
	}
	dst := m.ptr(target.v)
	dt := target.t.Underlying().(*types.Pointer).Elem()
	for {
		p, ok := dt.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		np := new(value)
		*np = zero(p.Elem())
		*dst = np
		dst = np
		dt = p.Elem()
	}
	if !types.Identical(t, dt) {
		panic(unsupported("decoding %s into %s", t, dt))
	}
	storeLoc(dst, m.deepCopy(v, map[*value]*value{}))
	return iface{}
}

func registerJSON(E *Env) {
	I := E.intr
	I["encoding/json.Marshal"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return tuple{bytesToSlice([]byte("null")), iface{}}
		}
		return tuple{m.newBlob("json", i.t, i.v), iface{}}
	}
	I["encoding/json.Unmarshal"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		s := a[0].(slice)
		if b := m.findBlob(s); b != nil {
			return m.loadBlob(b, a[1].(iface))
		}
		bs, ok := concreteBytes(s)
		if !ok {
			// A byte string that is not a blob: decoding fails. Symbolic bytes that
			// happen to be valid JSON are outside the model.
			return m.errVal("invalid character in JSON input")
		}
		if string(bs) == "null" {
			return iface{}
		}
		return m.errVal("invalid JSON input")
	}
}

type sealRec struct {
	key, nonce, pt, aad, out []*Term
}

func (m *Machine) symEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return tFalse
	}
	r := tTrue
	for i := range a {
		r = m.tc.And(r, m.tc.Eq(a[i], b[i]))
	}
	return r
}

// registerCrypto models AES-GCM as an ideal authenticated cipher.
func registerCrypto(E *Env) {
	I := E.intr
	I["crypto/aes.NewCipher"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		k := a[0].(slice)
		switch len(k) {
		case 16, 24, 32:
		default:
			return tuple{iface{}, m.errVal(fmt.Sprintf("crypto/aes: invalid key size %d", len(k)))}
		}
		p := new(value)
		*p = structure{copyTerms(k)}
		return tuple{iface{t: m.E.gcmT, v: p}, iface{}}
	}
	I["crypto/cipher.NewGCM"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		return tuple{a[0], iface{}}
	}
	I["("+"*github.com/sisu-network/dheart/verifrt.GCM).NonceSize"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value { return cInt(12) }
	I["("+"*github.com/sisu-network/dheart/verifrt.GCM).Overhead"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value { return cInt(16) }
	gcmKey := func(m *Machine, v value) []*Term { return sliceTerms(m.structOf(m.ptr(v))[0].(slice)) }
	I["(*github.com/sisu-network/dheart/verifrt.GCM).Seal"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		dst, nonce, pt, aad := a[1].(slice), sliceTerms(a[2].(slice)), sliceTerms(a[3].(slice)), sliceTerms(a[4].(slice))
		if len(nonce) != 12 {
			panic(goPanic{iface{t: m.E.rterrT, v: "crypto/cipher: incorrect nonce length given to GCM"}})
		}
		out := make([]*Term, len(pt)+16)
		for i := range out {
			out[i] = m.fresh("gcm", 8)
		}
		recs, _ := m.side["gcm"].([]sealRec)
		m.side["gcm"] = append(append([]sealRec(nil), recs...), sealRec{gcmKey(m, a[0]), nonce, pt, aad, out})
		vs := make([]value, len(out))
		for i := range out {
			vs[i] = out[i]
		}
		return m.appendSlice(types.Typ[types.Uint8], dst, vs)
	}
	I["(*github.com/sisu-network/dheart/verifrt.GCM).Open"] = func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		dst, nonce, ct, aad := a[1].(slice), sliceTerms(a[2].(slice)), sliceTerms(a[3].(slice)), sliceTerms(a[4].(slice))
		if len(nonce) != 12 {
			panic(goPanic{iface{t: m.E.rterrT, v: "crypto/cipher: incorrect nonce length given to GCM"}})
		}
		key := gcmKey(m, a[0])
		recs, _ := m.side["gcm"].([]sealRec)
		for _, r := range recs {
			e := m.tc.And(m.symEq(r.out, ct), m.tc.And(m.symEq(r.key, key), m.tc.And(m.symEq(r.nonce, nonce), m.symEq(r.aad, aad))))
			if m.branch(e) {
				vs := make([]value, len(r.pt))
				for i := range vs {
					vs[i] = r.pt[i]
				}
				return tuple{m.appendSlice(types.Typ[types.Uint8], dst, vs), iface{}}
			}
		}
		return tuple{slice(nil), m.errVal("cipher: message authentication failed")}
	}
}

func copyTerms(s slice) slice { return append(slice{}, s...) }

var _ = strings.Contains

// registerProto models protobuf message names from the Go type's package path.
func registerProto(E *Env) {
	f := func(m *Machine, g *goroutine, f *ssa.Function, a []value) value {
		x := a[0].(iface)
		if x.t == nil {
			return ""
		}
		p, ok := x.t.(*types.Pointer)
		if !ok {
			panic(unsupported("proto.MessageName of %v", x.t))
		}
		n, ok := p.Elem().(*types.Named)
		if !ok {
			panic(unsupported("proto.MessageName of %v", x.t))
		}
		path := n.Obj().Pkg().Path()
		const tl = "github.com/sisu-network/tss-lib/"
		if !strings.HasPrefix(path, tl) {
			panic(unsupported("proto.MessageName of %v", x.t))
		}
		return strings.ReplaceAll(strings.TrimPrefix(path, tl), "/", ".") + "." + n.Obj().Name()
	}
	E.intr["google.golang.org/protobuf/proto.MessageName"] = f
	E.intr["github.com/golang/protobuf/proto.MessageName"] = f
}
