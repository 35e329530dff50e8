package core

import (
	"math/big"

	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifp"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker"
	wTypes "github.com/sisu-network/dheart/worker/types"
	libchain "github.com/sisu-network/lib/chain"
	tsscommon "github.com/sisu-network/tss-lib/common"
	"github.com/sisu-network/tss-lib/crypto"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

// VerifSignatures: a batch of signatures reaches Sisu.
func VerifSignatures() {
	verifLongNames()
	verifp.List = nil
	nodes := verifNodes(2)
	db := &verifh.DB{}
	db.EcKey = func(string) (*eckeygen.LocalPartySaveData, error) { return &eckeygen.LocalPartySaveData{}, nil }
	db.EdKey = func(string) (*edkeygen.LocalPartySaveData, error) {
		return &edkeygen.LocalPartySaveData{EDDSAPub: crypto.NewECPointNoCurveCheck(tss.EC(tss.EddsaScheme), big.NewInt(5), big.NewInt(6))}, nil
	}
	h, _, sisu := verifHeart(nodes, db)
	worker.VerifLeaderIndex = verifrt.Choice("leader", 2)
	ec := verifrt.Bool("ecdsa")
	n := verifrt.Concrete(verifrt.Int("batch", 1, verifrt.Param("batch")))
	type sig struct {
		r, s []byte
		rec  byte
	}
	sigs := make([]sig, n)
	req := &htypes.KeysignRequest{KeyType: libchain.KEY_TYPE_EDDSA}
	for i := 0; i < n; i++ {
		req.KeysignMessages = append(req.KeysignMessages, &htypes.KeysignMessage{Id: verifh.Names[i], OutChain: "c", BytesToSign: []byte{byte(i) + 1}})
		sigs[i] = sig{r: verifrt.Bytes("r", []int{32, 31, 1}[verifrt.Choice("rlen", 3)]), s: verifrt.Bytes("s", []int{32, 31}[verifrt.Choice("slen", 2)]), rec: verifrt.Byte("rec")}
	}
	of := func(p *verifp.Party) *tsscommon.ECSignature {
		g := sigs[p.Msg.Int64()-1]
		out := &tsscommon.ECSignature{R: append([]byte{}, g.r...), S: append([]byte{}, g.s...), SignatureRecovery: []byte{g.rec}}
		out.Signature = append(append([]byte{}, g.r...), g.s...)
		if p.Kind == wTypes.EdSigning {
			out.R, out.S = []byte{1}, []byte{1} // only verified, see VerifCovers
		}
		return out
	}
	verifp.EcSig, verifp.EdSig = of, of
	if ec {
		req.KeyType = libchain.KEY_TYPE_ECDSA
	}
	verifRun()
	verifrt.Assert(h.Keysign(req, verifKeys(nodes)) == nil, "a request is refused")
	verifrt.Drain(0)
	verifrt.Assert(len(sisu.keysigns) == 0, "a result is reported too early")
	for id := range h.engine.(*defaultEngine).workers {
		verifSelect(h.engine, nodes, id)
	}
	verifrt.Drain(-1)
	verifrt.Assert(len(sisu.keysigns) == 1 && len(sisu.keygens) == 0, "not exactly one result is reported")
	res := sisu.keysigns[0]
	verifrt.Assert(res.Outcome == htypes.OutcomeSuccess && res.Request == req, "the result is not the success of the request")
	verifrt.Assert(len(res.Signatures) == n, "signatures are missing")
	for i, g := range res.Signatures {
		r, s := sigs[i].r, sigs[i].s
		if !ec {
			verifrt.Assert(len(g) == len(r)+len(s) && verifEqual(g, append(append([]byte{}, r...), s...)), "a signature is changed or belongs to another message")
			continue
		}
		verifrt.Assert(len(g) == 65, "an ECDSA signature does not have 65 bytes")
		want := make([]byte, 65)
		copy(want[32-len(r):], r)
		copy(want[64-len(s):], s)
		want[64] = sigs[i].rec
		verifrt.Assert(verifEqual(g, want), "an ECDSA signature is not R, S and the recovery id of its message")
	}
	verifrt.Assert(h.engine.GetActiveWorkerCount() == 0, "the work is not over")
	if ec {
		verifrt.Reach("ecdsa")
	} else {
		verifrt.Reach("eddsa")
	}
}

func verifEqual(a, b []byte) bool {
	ok := len(a) == len(b)
	for i := range a {
		ok = verifrt.And(ok, a[i] == b[i])
	}
	return ok
}
