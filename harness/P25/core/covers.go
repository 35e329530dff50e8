package core

import (
	"math/big"

	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifp"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker"
	libchain "github.com/sisu-network/lib/chain"
	tsscommon "github.com/sisu-network/tss-lib/common"
	"github.com/sisu-network/tss-lib/crypto"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

// VerifCovers: a signature that Sisu gets covers the message it asked for, whatever bytes that has.
// Protocol instances sign what they are given: ECDSA a number, EdDSA the bytes of a number.
func VerifCovers() {
	verifLongNames()
	verifp.List = nil
	nodes := verifNodes(2)
	db := &verifh.DB{}
	db.EcKey = func(string) (*eckeygen.LocalPartySaveData, error) { return &eckeygen.LocalPartySaveData{}, nil }
	db.EdKey = func(string) (*edkeygen.LocalPartySaveData, error) {
		return &edkeygen.LocalPartySaveData{EDDSAPub: crypto.NewECPointNoCurveCheck(tss.EC(tss.EddsaScheme), big.NewInt(5), big.NewInt(6))}, nil
	}
	h, _, sisu := verifHeart(nodes, db)
	worker.VerifLeaderIndex = 0
	ec := verifrt.Bool("ecdsa")
	n := 1 + verifrt.Choice("batch", verifrt.Param("batch"))
	req := &htypes.KeysignRequest{KeyType: libchain.KEY_TYPE_EDDSA}
	msgs := make([][]byte, n)
	for i := 0; i < n; i++ {
		more := 0
		if i == n-1 {
			more = 2
		}
		length := 1 + verifrt.Choice("length", verifrt.Param("length")+more)
		if length > verifrt.Param("length") { // as long as a hash, or longer
			length = 30 + 2*(length-verifrt.Param("length"))
		}
		if length < 32 {
			msgs[i] = verifrt.Bytes("message", length)
		} else {
			b := verifrt.Bytes("message", 3)
			msgs[i] = make([]byte, length)
			msgs[i][0], msgs[i][31], msgs[i][length-1] = b[0], b[1], b[2]
		}
		req.KeysignMessages = append(req.KeysignMessages, &htypes.KeysignMessage{Id: verifh.Names[i], OutChain: "c", BytesToSign: append([]byte{}, msgs[i]...)})
	}
	numbers := map[int64]*big.Int{}
	covered := map[int64][]byte{}
	of := func(p *verifp.Party) *tsscommon.ECSignature {
		id := int64(p.N) + 1
		numbers[id] = p.Msg
		covered[id] = p.Msg.Bytes()
		return &tsscommon.ECSignature{R: []byte{byte(id)}, S: []byte{1}, SignatureRecovery: []byte{0}, Signature: []byte{byte(id)}}
	}
	verifp.EcSig, verifp.EdSig = of, of
	verifEdCheck = func(hash []byte, r, s *big.Int) bool {
		c := covered[r.Int64()]
		return len(c) == len(hash) && verifEqual(c, hash)
	}
	if ec {
		req.KeyType = libchain.KEY_TYPE_ECDSA
	}
	verifRun()
	if h.Keysign(req, verifKeys(nodes)) != nil {
		zero := false
		for _, m := range msgs {
			zero = zero || m[0] == 0
		}
		verifrt.Assert(zero && !ec, "a request is refused")
		return
	}
	for id := range h.engine.(*defaultEngine).workers {
		verifSelect(h.engine, nodes, id)
	}
	verifrt.Drain(-1)
	verifrt.Assert(len(sisu.keysigns) == 1 && len(sisu.keygens) == 0, "not exactly one result is reported")
	res := sisu.keysigns[0]
	verifrt.Assert(res.Request == req, "the result is not that of the request")
	verifrt.Assert(h.engine.GetActiveWorkerCount() == 0, "the work is not over")
	if res.Outcome != htypes.OutcomeSuccess {
		// EdDSA instances of tss-lib drop leading zeros of a message.
		zero := false
		for _, m := range msgs {
			zero = zero || m[0] == 0
		}
		verifrt.Assert(zero && !ec, "a signing fails")
		verifrt.Assert(len(res.Signatures) == 0, "a failure has signatures")
		verifrt.Reach("failed")
		return
	}
	verifrt.Assert(len(res.Signatures) == n, "signatures are missing")
	for i, g := range res.Signatures {
		if ec {
			id := int64(g[31])
			hash := msgs[i]
			if len(hash) > 32 { // ECDSA signs that many bits only
				hash = hash[:32]
				verifrt.Reach("long")
			}
			verifrt.Assert(numbers[id] != nil && numbers[id].Cmp(new(big.Int).SetBytes(hash)) == 0, "an ECDSA signature is that of another message")
			verifrt.Reach("ecdsa")
		} else {
			c := covered[int64(g[0])]
			verifrt.Assert(len(c) == len(msgs[i]) && verifEqual(c, msgs[i]), "an EdDSA signature is that of another message")
			verifrt.Reach("eddsa")
		}
	}
}
