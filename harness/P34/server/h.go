package server

import (
	"errors"

	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/verifrt"
)

var verifGot []ctypes.PubKey
var verifCalls int
var (
	verifId, verifType string
	verifReq           *types.KeysignRequest
	verifErr           error
	verifReady         []bool
)

//verif:stub (*github.com/sisu-network/dheart/core.Heart).SetPrivKey
func verifSetPrivKey(h *core.Heart, key, keyType string) error {
	verifId, verifType = key, keyType
	verifCalls++
	return verifErr
}

//verif:stub (*github.com/sisu-network/dheart/core.Heart).SetSisuReady
func verifSetReady(h *core.Heart, ready bool) {
	verifReady = append(verifReady, ready)
	verifCalls++
}

//verif:stub (*github.com/sisu-network/dheart/core.Heart).BlockEnd
func verifBlockEnd(h *core.Heart, height int64) error {
	verifId = string(rune(height))
	verifCalls++
	return verifErr
}

//verif:stub (*github.com/sisu-network/dheart/core.Heart).Start
func verifStart(h *core.Heart) error {
	verifCalls++
	return verifErr
}

//verif:stub (*github.com/sisu-network/dheart/core.Heart).Keygen
func verifKeygen(h *core.Heart, id string, keyType string, keys []ctypes.PubKey) error {
	verifId, verifType = id, keyType
	verifGot, verifCalls = keys, verifCalls+1
	return verifErr
}

//verif:stub (*github.com/sisu-network/dheart/core.Heart).Keysign
func verifKeysign(h *core.Heart, req *types.KeysignRequest, keys []ctypes.PubKey) error {
	verifReq = req
	verifGot, verifCalls = keys, verifCalls+1
	return verifErr
}

// VerifKeys: the keys of the committee reach the node as they are.
func VerifKeys() {
	verifGot, verifCalls, verifErr = nil, 0, nil
	api := NewTssApi(&core.Heart{})
	n := verifrt.Choice("n", 3)
	bad := false
	var ws []types.PubKeyWrapper
	for i := 0; i < n; i++ {
		t := []string{"ed25519", "secp256k1", "rsa", "", "ed25519x", "Secp256k1", "secp256k"}[verifrt.Choice("type", 7)]
		if t == "rsa" && verifrt.Bool("any") {
			t = verifrt.Str("name", 7)
		}
		bad = bad || t != "ed25519" && t != "secp256k1"
		// the length of keys differs: compressed points, Edwards points, whole points
		key := make([]byte, []int{2, 32, 33, 65}[verifrt.Choice("len", 4)])
		copy(key, verifrt.Bytes("key", 2))
		copy(key[len(key)-1:], verifrt.Bytes("last", 1))
		ws = append(ws, types.PubKeyWrapper{KeyType: t, Key: key})
	}
	signing := verifrt.Bool("signing")
	var err error
	if signing {
		req := &types.KeysignRequest{KeyType: "ecdsa"}
		err = api.KeySign(req, ws)
		verifrt.Assert(err != nil || verifReq == req, "another request is signed")
	} else {
		err = api.KeyGen("kg", "ecdsa", ws)
		verifrt.Assert(err != nil || verifId == "kg" && verifType == "ecdsa", "another key is generated")
		bad = bad || n == 0
	}
	verifrt.Assert((err != nil) == bad, "unknown keys are accepted or known ones refused")
	if bad {
		verifrt.Assert(verifCalls == 0, "a refused request is worked on")
		verifrt.Reach("refused")
		return
	}
	verifrt.Assert(verifCalls == 1 && len(verifGot) == n, "keys are lost")
	for i, k := range verifGot {
		var b []byte
		if ws[i].KeyType == "ed25519" {
			p, ok := k.(*ed25519.PubKey)
			verifrt.Assert(ok, "a key changes its type")
			b = p.Key
		} else {
			p, ok := k.(*secp256k1.PubKey)
			verifrt.Assert(ok, "a key changes its type")
			b = p.Key
		}
		verifrt.Assert(len(b) == len(ws[i].Key), "a key changes its length")
		same := true
		for j := range b {
			same = verifrt.And(same, b[j] == ws[i].Key[j])
		}
		verifrt.Assert(same, "a key is changed")
	}
	verifrt.Reach("accepted")
}

// VerifCalls: every call reaches the node once, with what it was called with,
// and its answer gets back.
func VerifCalls() {
	verifGot, verifCalls, verifReady = nil, 0, nil
	if verifErr = nil; verifrt.Bool("fails") {
		verifErr = errors.New("refused")
	}
	api := NewTssApi(&core.Heart{})
	a, b := verifrt.Str("a", 3), verifrt.Str("b", 2)
	keys := []types.PubKeyWrapper{{KeyType: "ed25519", Key: []byte{1}}}
	var err error
	switch verifrt.Choice("call", 6) {
	case 0:
		err = api.KeyGen(a, b, keys)
		verifrt.Assert(verifrt.And(verifId == a, verifType == b), "another key is generated")
	case 1:
		req := &types.KeysignRequest{KeyType: a, KeysignMessages: []*types.KeysignMessage{{Id: b, BytesToSign: []byte(a)}}}
		err = api.KeySign(req, keys)
		verifrt.Assert(verifReq != nil && len(verifReq.KeysignMessages) == 1, "another request is signed")
		m := verifReq.KeysignMessages[0]
		verifrt.Assert(verifrt.And(verifReq.KeyType == a, m.Id == b, string(m.BytesToSign) == a), "another request is signed")
	case 2:
		err = api.SetPrivKey(a, b)
		verifrt.Assert(verifrt.And(verifId == a, verifType == b), "another private key is set")
	case 3:
		r := verifrt.Bool("ready")
		api.SetSisuReady(r)
		verifrt.Assert(len(verifReady) == 1 && verifReady[0] == r, "another state of Sisu is set")
		verifErr = nil
	case 4:
		err = api.BlockEnd(65)
		verifrt.Assert(verifId == "A", "another block ends")
	case 5: // calls without effect
		api.Ping(a)
		api.Version()
		verifrt.Assert(verifCalls == 0, "a ping changes the node")
		verifrt.Assert(api.KeySign(nil, keys) != nil && verifCalls == 0, "an empty request is signed")
		verifrt.Reach("none")
		return
	}
	verifrt.Assert(verifCalls == 1, "a call does not reach the node once")
	verifrt.Assert(err == verifErr, "the answer of the node is lost")
	verifrt.Reach("called")
}
