package utils

import (
	"crypto/rand"
	"errors"

	"github.com/sisu-network/dheart/verifrt"
)

// verifRand is a source of random bytes that delivers a few at a time.
type verifRand struct {
	out   []byte
	short bool
	fails bool
}

func (r *verifRand) Read(b []byte) (int, error) {
	n := len(b)
	if r.short && n > 5 {
		n = 5
	}
	if r.fails && len(r.out) > 0 || n == 0 {
		return 0, errors.New("no randomness")
	}
	x := verifrt.Bytes("random", n)
	copy(b, x)
	r.out = append(r.out, x...)
	return n, nil
}

func verifSame(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = verifrt.And(ok, a[i] == b[i])
	}
	return ok
}

// VerifSecret: an encrypted text can be read with its key only, and unchanged only.
func VerifSecret() {
	src := &verifRand{short: verifrt.Bool("short")}
	rand.Reader = src
	size := []int{16, 32, 24, 0, 15, 33}[verifrt.Choice("size", verifrt.Param("sizes"))]
	key := verifrt.Bytes("key", size)
	msg := verifrt.Bytes("msg", verifrt.Choice("len", verifrt.Param("msg")+1))
	orig := append([]byte{}, msg...)
	src.fails = verifrt.Bool("no_randomness")
	enc, err := AESDEncrypt(msg, key)
	if size != 16 && size != 24 && size != 32 {
		verifrt.Assert(err != nil, "a key of a wrong length is accepted")
		_, err = AESDecrypt(msg, key)
		verifrt.Assert(err != nil, "a key of a wrong length is accepted")
		verifrt.Reach("bad key")
		return
	}
	if src.fails && src.short {
		verifrt.Assert(err != nil, "a text is encrypted without enough randomness")
		verifrt.Reach("no randomness")
		return
	}
	verifrt.Assert(err == nil, "a text cannot be encrypted")
	verifrt.Assert(verifSame(msg, orig), "the text is changed by encrypting it")
	verifrt.Assert(len(src.out) >= 12 && len(enc) >= 12 && verifSame(enc[:12], src.out[len(src.out)-12:]), "a nonce is not random")
	switch verifrt.Choice("attack", 5) {
	case 0:
		dec, err := AESDecrypt(enc, key)
		verifrt.Assert(err == nil, "an encrypted text cannot be read")
		verifrt.Assert(verifSame(dec, orig), "another text is read")
		verifrt.Reach("read")
	case 1: // changed at any place
		at := verifrt.Concrete(verifrt.Int("at", 0, len(enc)-1))
		b := verifrt.Byte("changed")
		verifrt.Assume(b != enc[at])
		bad := append([]byte{}, enc...)
		bad[at] = b
		_, err := AESDecrypt(bad, key)
		verifrt.Assert(err != nil, "a changed text is read")
		verifrt.Reach("changed")
	case 2: // cut off
		_, err := AESDecrypt(enc[:verifrt.Concrete(verifrt.Int("cut", 0, len(enc)-1))], key)
		verifrt.Assert(err != nil, "a text that is cut off is read")
		verifrt.Reach("cut")
	case 3: // another key
		other := verifrt.Bytes("other", size)
		verifrt.Assume(!verifSame(other, key))
		_, err := AESDecrypt(enc, other)
		verifrt.Assert(err != nil, "a text is read with another key")
		verifrt.Reach("other key")
	case 4: // with something behind
		_, err := AESDecrypt(append(append([]byte{}, enc...), verifrt.Byte("tail")), key)
		verifrt.Assert(err != nil, "a changed text is read")
	}
}

// VerifRubbish: any text that was never encrypted is refused.
func VerifRubbish() {
	_, err := AESDecrypt(verifrt.Bytes("text", verifrt.Choice("len", verifrt.Param("len")+1)), verifrt.Bytes("key", 16))
	verifrt.Assert(err != nil, "a text that was never encrypted is read")
	verifrt.Reach("refused")
}

// VerifPubKeys: a key is what it was made of.
func VerifPubKeys() {
	t := []string{"ed25519", "secp256k1", "sr25519", ""}[verifrt.Choice("type", 4)]
	b := verifrt.Bytes("key", verifrt.Choice("len", 4))
	k, err := GetCosmosPubKey(t, b)
	if t == "sr25519" || t == "" {
		verifrt.Assert(err != nil && k == nil, "an unknown type of key is accepted")
		verifrt.Reach("refused")
		return
	}
	verifrt.Assert(err == nil && k.Type() == t && verifSame(k.Bytes(), b), "a key is changed")
	verifrt.Reach("key")
}

// VerifPad: a number is padded in front.
func VerifPad() {
	b := verifrt.Bytes("number", verifrt.Choice("len", 5))
	orig := append([]byte{}, b...)
	n := verifrt.Choice("size", 6)
	out := PadToLengthBytesForSignature(b, n)
	pad := n - len(orig)
	if pad < 0 {
		pad = 0
	}
	verifrt.Assert(len(out) == pad+len(orig) && verifSame(out[pad:], orig), "a number is changed")
	for _, x := range out[:pad] {
		verifrt.Assert(x == 0, "a number is changed")
	}
	verifrt.Reach("pad")
}
