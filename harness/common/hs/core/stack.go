package core

import (
	"crypto/ecdsa"
	"math/big"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifp"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/tss-lib/tss"
)

//verif:stub github.com/ethereum/go-ethereum/crypto.FromECDSAPub
func verifEcPub(pub *ecdsa.PublicKey) []byte {
	out := make([]byte, 65)
	out[0] = 4
	x, y := pub.X.Bytes(), pub.Y.Bytes()
	copy(out[33-len(x):], x)
	copy(out[65-len(y):], y)
	return out
}

//verif:stub github.com/decred/dcrd/dcrec/edwards/v2.Verify
func verifEdVerify(pub *edwards.PublicKey, hash []byte, r, s *big.Int) bool {
	return verifEdCheck == nil || verifEdCheck(hash, r, s)
}

// verifEdCheck verifies the signatures that a harness makes, if it makes any.
var verifEdCheck func(hash []byte, r, s *big.Int) bool

//verif:stub github.com/decred/dcrd/dcrec/edwards/v2.NewPublicKey
func verifEdPub(x, y *big.Int) *edwards.PublicKey { return &edwards.PublicKey{X: x, Y: y} }

// verifSelect lets node 1 take part in the work.
func verifSelect(e Engine, nodes []*Node, work string) {
	var m *common.TssMessage
	p0, p1 := nodes[0].PartyId.Id, nodes[1].PartyId.Id
	if worker.VerifLeaderIndex == 1 {
		m = common.NewPreExecOutputMessage(p1, "", work, true, nil, verifPids(nodes))
	} else {
		m = common.NewAvailabilityResponseMessage(p1, p0, work, common.AvailabilityResponseMessage_YES, 1)
	}
	e.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: p1, Data: verifSigned(p1, m, m, p1)})
}

// verifRun lets all instances run to their ends.
func verifRun() {
	verifp.OnStart = func(p *verifp.Party) *tss.Error {
		go func() {
			for k := range verifp.Kinds(p) {
				p.Send(k, func(string) []byte { return nil })
			}
			p.End()
		}()
		return nil
	}
}

func verifLongNames() { verifh.Names = []string{"p0aa", "p1aa", "p2aa"} }

