package server

import (
	"crypto/ecdsa"
	"errors"
	"math/big"
	"unsafe"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	"github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/verifrt"
)

// The keys are numbered as they are generated.
var (
	verifPubs  []string // public keys
	verifNoRng bool
	verifSigs  map[*big.Int][]byte
)

func verifNewKey(add func(n int) []byte) error {
	verifrt.HLock()
	defer verifrt.HUnlock()
	if verifNoRng {
		return errors.New("no randomness")
	}
	verifPubs = append(verifPubs, string(add(len(verifPubs)+1)))
	return nil
}

//verif:stub github.com/ethereum/go-ethereum/crypto.GenerateKey
func verifGenEc() (k *ecdsa.PrivateKey, err error) {
	err = verifNewKey(func(n int) []byte {
		k = &ecdsa.PrivateKey{D: big.NewInt(int64(n))}
		k.X, k.Y = k.D, k.D
		return verifPubEc(&k.PublicKey)
	})
	return k, err
}

//verif:stub github.com/ethereum/go-ethereum/crypto.FromECDSAPub
func verifPubEc(k *ecdsa.PublicKey) []byte { return []byte{byte(k.X.Int64())} }

//verif:stub github.com/ethereum/go-ethereum/crypto.Sign
func verifSignEc(hash []byte, k *ecdsa.PrivateKey) ([]byte, error) {
	if len(hash) != verifrt.Param("bytes") {
		return nil, errors.New("wrong length")
	}
	return append([]byte{byte(k.D.Int64())}, hash...), nil
}

//verif:stub github.com/decred/dcrd/dcrec/edwards/v2.GeneratePrivateKey
func verifGenEd() (k *edwards.PrivateKey, err error) {
	err = verifNewKey(func(n int) []byte {
		k = &edwards.PrivateKey{}
		d := &ecdsa.PrivateKey{D: big.NewInt(int64(n))}
		d.X, d.Y = d.D, d.D
		(*verifEdKey)(unsafe.Pointer(k)).ecPk = d
		return verifPubEd(*k.PubKey())
	})
	return k, err
}

// verifEdKey is what is in a key of edwards.
type verifEdKey struct {
	ecPk   *ecdsa.PrivateKey
	secret *[32]byte
}

//verif:stub (github.com/decred/dcrd/dcrec/edwards/v2.PublicKey).Serialize
func verifPubEd(p edwards.PublicKey) []byte { return []byte{byte(p.X.Int64())} }

// The signature carries what it signs.
//
//verif:stub (github.com/decred/dcrd/dcrec/edwards/v2.PrivateKey).Sign
func verifSignEd(k edwards.PrivateKey, hash []byte) (*edwards.Signature, error) {
	d := k.ToECDSA().D // crashes without a key
	if len(hash) == 0 {
		return nil, errors.New("no message")
	}
	r := new(big.Int)
	verifrt.HLock()
	verifSigs[r] = append([]byte{byte(d.Int64())}, hash...)
	verifrt.HUnlock()
	return &edwards.Signature{R: r, S: r}, nil
}

//verif:stub (github.com/decred/dcrd/dcrec/edwards/v2.Signature).Serialize
func verifSerEd(s edwards.Signature) []byte {
	verifrt.HLock()
	defer verifrt.HUnlock()
	return verifSigs[s.R]
}

type verifClient struct {
	keygens  []*types.KeygenResult
	keysigns []*types.KeysignResult
	fail     bool
}

func (c *verifClient) TryDial() {}
func (c *verifClient) PostKeygenResult(r *types.KeygenResult) error {
	verifrt.HLock()
	c.keygens = append(c.keygens, r)
	verifrt.HUnlock()
	return c.err()
}
func (c *verifClient) PostPresignResult(r *types.PresignResult) error { return c.err() }
func (c *verifClient) PostKeysignResult(r *types.KeysignResult) error {
	verifrt.HLock()
	c.keysigns = append(c.keysigns, r)
	verifrt.HUnlock()
	return c.err()
}
func (c *verifClient) err() error {
	if c.fail {
		return errors.New("no connection")
	}
	return nil
}

// verifAsked is what Sisu asked for.
type verifAsked struct {
	req      *types.KeysignRequest
	key      string
	accepted bool
	known    bool
}

// verifNumber is the number of a key.
func verifNumber(r *types.KeygenResult) int {
	for i, p := range verifPubs {
		if p == string(r.PubKeyBytes) {
			return i + 1
		}
	}
	return 0
}

// VerifSingle: Sisu uses a single node.
func VerifSingle() {
	verifPubs, verifNoRng, verifSigs = nil, false, map[*big.Int][]byte{}
	c := &verifClient{}
	api := NewSingleNodeApi(c)
	api.Init()
	api.SetSisuReady(true)
	verifrt.Assert(api.SetPrivKey("k", "secp256k1") == nil, "the private key is refused")
	var asked []*verifAsked
	newest := map[string]int{}
	n := verifrt.Param("calls")
	if verifrt.Choice("keyed", 2) == 1 { // a key is there
		t := []string{"ecdsa", "eddsa"}[verifrt.Choice("type", 2)]
		verifrt.Assert(api.KeyGen("k", t, nil) == nil, "a key generation is refused")
		verifrt.Drain(-1)
		verifrt.Assert(len(c.keygens) == 1 && c.keygens[0].Outcome == types.OutcomeSuccess, "no key is generated")
		newest[t] = 1
		c.keygens = nil
	}
	verifNoRng, c.fail = verifrt.Choice("no_random", 2) == 1, verifrt.Choice("client_fails", 2) == 1
	before := len(verifPubs)
	done := make(chan bool, n)
	for i := 0; i < n; i++ {
		a := &verifAsked{key: []string{"ecdsa", "eddsa", "rsa"}[verifrt.Choice("type", 3)]}
		if a.key == "rsa" && i == 0 {
			a.key = verifrt.Str("name", 5)
			verifrt.Assume(a.key != "ecdsa" && a.key != "eddsa")
		}
		a.known = a.key == "ecdsa" || a.key == "eddsa"
		asked = append(asked, a)
		if verifrt.Choice("sign", 2) == 1 {
			a.req = &types.KeysignRequest{KeyType: a.key}
			m := 1
			if i == 0 {
				m += verifrt.Choice("messages", 2)
			}
			for k := 0; k < m; k++ {
				w := &types.KeysignMessage{Id: "m", BytesToSign: verifrt.Bytes("bytes", verifrt.Param("bytes"))}
				if i == 0 {
					switch verifrt.Choice("message", 3) {
					case 1:
						w.BytesToSign = nil
					case 2:
						w = nil
					}
				}
				a.req.KeysignMessages = append(a.req.KeysignMessages, w)
			}
		}
		call := func() {
			if a.req != nil {
				a.accepted = api.KeySign(a.req, nil) == nil
			} else {
				a.accepted = api.KeyGen("k", a.key, nil) == nil
			}
			done <- true
		}
		if i < n-1 && verifrt.Choice("concurrent", 2) == 1 {
			go call()
		} else {
			call()
		}
		if i < n-1 && verifrt.Choice("pause", 2) == 1 {
			verifrt.Drain(-1)
		}
	}
	verifrt.Drain(-1)
	verifrt.Assert(len(done) == n, "a call does not end")

	keygens := 0
	for _, a := range asked {
		if a.req == nil {
			verifrt.Assert(a.accepted == a.known, "a key generation of an unknown type is accepted, or of a known one refused")
			if a.accepted {
				keygens++
			}
			continue
		}
		results := 0
		for _, r := range c.keysigns {
			if r.Request != a.req {
				continue
			}
			results++
			verifrt.Assert(r.Outcome == types.OutcomeSuccess && len(r.Signatures) == len(a.req.KeysignMessages), "signatures are missing")
			for k, m := range a.req.KeysignMessages {
				verifrt.Assert(m != nil && len(m.BytesToSign) > 0 && a.known, "a message is signed that cannot be signed")
				s := r.Signatures[k]
				verifrt.Assert(len(s) == 1+len(m.BytesToSign) && s[0] >= 1 && int(s[0]) <= len(verifPubs), "a signature is made without a key")
				same := true
				for j, b := range m.BytesToSign {
					same = verifrt.And(same, s[1+j] == b)
				}
				verifrt.Assert(same, "a signature is made for another message")
				verifrt.Reach("signed")
			}
		}
		good := a.known && newest[a.key] > 0
		for _, m := range a.req.KeysignMessages {
			good = good && m != nil && len(m.BytesToSign) > 0
		}
		if a.accepted {
			verifrt.Assert(results == 1, "an accepted signing has no result or several")
		} else {
			verifrt.Assert(results == 0, "a refused signing has a result")
			verifrt.Assert(!good, "a signing is refused that can be done")
			verifrt.Reach("refused")
		}
	}
	verifrt.Assert(len(c.keygens) == keygens, "an accepted key generation has no result or several")
	next := before
	for _, r := range c.keygens {
		if verifNoRng {
			verifrt.Assert(r.Outcome == types.OutcomeFailure && len(r.PubKeyBytes) == 0, "a key is reported that was not generated")
			verifrt.Reach("no key")
			continue
		}
		next++
		verifrt.Assert(r.Outcome == types.OutcomeSuccess && verifNumber(r) > before, "no key is reported")
		verifrt.Reach("key")
	}
	verifrt.Assert(next == len(verifPubs), "a generated key is not reported")
	// what is signed from now on is signed with a key that was reported
	for _, t := range []string{"ecdsa", "eddsa"} {
		last, has := newest[t], newest[t] > 0
		var of []int
		for _, r := range c.keygens {
			if r.KeyType == t && r.Outcome == types.OutcomeSuccess {
				of, has = append(of, verifNumber(r)), true
			}
		}
		if len(of) == 0 && last > 0 {
			of = []int{last}
		}
		c.keysigns = nil
		req := &types.KeysignRequest{KeyType: t, KeysignMessages: []*types.KeysignMessage{{Id: "z", BytesToSign: make([]byte, verifrt.Param("bytes"))}}}
		err := api.KeySign(req, nil)
		verifrt.Assert((err == nil) == has, "a signing without a key is accepted, or with a key refused")
		verifrt.Drain(-1)
		if has {
			verifrt.Assert(len(c.keysigns) == 1 && len(c.keysigns[0].Signatures) == 1, "an accepted signing has no result or several")
			by, ok := int(c.keysigns[0].Signatures[0][0]), false
			for _, k := range of {
				ok = ok || k == by
			}
			verifrt.Assert(ok, "a signature is made with a key that was not reported last")
		} else {
			verifrt.Assert(len(c.keysigns) == 0, "a refused signing has a result")
		}
	}
}
