package core

import (
	"encoding/json"
	"math/big"

	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	"github.com/sisu-network/dheart/p2p"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker/types"
	"github.com/sisu-network/tss-lib/tss"
)

// verifNet is the network of one node.
type verifNet struct {
	sent []verifPacket
	fail bool
}

type verifPacket struct {
	to  string
	msg *common.SignedMessage
}

func (n *verifNet) Start([]byte, string) error { return nil }
func (n *verifNet) WriteToStream(to peer.ID, p protocol.ID, b []byte) error {
	m := &common.SignedMessage{}
	err := json.Unmarshal(b, m)
	verifrt.HLock()
	n.sent = append(n.sent, verifPacket{to: string(to), msg: m})
	verifrt.HUnlock()
	return err
}
func (n *verifNet) AddListener(protocol.ID, p2p.P2PDataListener) {}
func (n *verifNet) IsReady() bool                                { return true }

// verifKey signs by putting its name in front of the message.
type verifKey struct {
	ctypes.PrivKey
	name string
}

func (k *verifKey) Sign(b []byte) ([]byte, error) { return append([]byte(k.name), b...), nil }

type verifPub struct {
	ctypes.PubKey
	name string
}

// verifSameMsg compares two signed contents.
func verifSameMsg(a, b []byte) bool {
	x, y := &common.TssMessage{}, &common.TssMessage{}
	if json.Unmarshal(a, x) != nil || json.Unmarshal(b, y) != nil {
		return false
	}
	if x.Type != y.Type || x.From != y.From || x.To != y.To || x.WorkId != y.WorkId || len(x.UpdateMessages) != len(y.UpdateMessages) {
		return false
	}
	for i, u := range x.UpdateMessages {
		v := y.UpdateMessages[i]
		if (u == nil) != (v == nil) {
			return false
		}
		if u != nil && (string(u.Data) != string(v.Data) || u.Round != v.Round) {
			return false
		}
	}
	p, q := x.PreExecOutputMessage, y.PreExecOutputMessage
	if (p == nil) != (q == nil) {
		return false
	}
	if p != nil && (p.Success != q.Success || !verifSameStrings(p.Pids, q.Pids) || !verifSameStrings(p.PresignIds, q.PresignIds)) {
		return false
	}
	a1, a2 := x.AvailabilityResponseMessage, y.AvailabilityResponseMessage
	if (a1 == nil) != (a2 == nil) || a1 != nil && a1.Answer != a2.Answer {
		return false
	}
	k1, k2 := x.AskRequestMessage, y.AskRequestMessage
	if (k1 == nil) != (k2 == nil) || k1 != nil && k1.MsgKey != k2.MsgKey {
		return false
	}
	return true
}

func verifSameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (k *verifPub) VerifySignature(msg, sig []byte) bool {
	return len(sig) > len(k.name) && string(sig[:len(k.name)]) == k.name && verifSameMsg(msg, sig[len(k.name):])
}

type verifEngCb struct {
	keygens   []*htypes.KeygenResult
	keysigns  []*htypes.KeysignResult
	keysignOf []string
	failed    []string
}

func (c *verifEngCb) OnWorkKeygenFinished(r *htypes.KeygenResult) {
	verifrt.HLock()
	c.keygens = append(c.keygens, r)
	verifrt.HUnlock()
}
func (c *verifEngCb) OnWorkSigningFinished(req *types.WorkRequest, r *htypes.KeysignResult) {
	verifrt.HLock()
	c.keysigns = append(c.keysigns, r)
	c.keysignOf = append(c.keysignOf, req.WorkId)
	verifrt.HUnlock()
}
func (c *verifEngCb) OnWorkFailed(req *types.WorkRequest, culprits []*tss.PartyID) {
	verifrt.HLock()
	c.failed = append(c.failed, req.WorkId)
	verifrt.HUnlock()
}

// verifNodes returns n nodes; the peer of node i is Names[i].
func verifNodes(n int) []*Node {
	out := make([]*Node, n)
	for i := range out {
		id := peer.ID(verifh.Names[i])
		out[i] = &Node{PeerId: id, PubKey: &verifPub{name: verifh.Names[i]}, PartyId: tss.NewPartyID(id.String(), "", big.NewInt(int64(i+1)))}
		out[i].PartyId.Index = i
	}
	return out
}

func verifPids(nodes []*Node) []*tss.PartyID {
	var out []*tss.PartyID
	for _, n := range nodes {
		out = append(out, n.PartyId)
	}
	return out
}

var verifReset func()

// verifEngine is node 0's engine, knowing all nodes.
func verifEngine(nodes []*Node, db *verifh.DB, cb *verifEngCb) (Engine, *verifNet) {
	return verifEngineOf(0, nodes, db, cb)
}

func verifEngineOf(i int, nodes []*Node, db *verifh.DB, cb *verifEngCb) (Engine, *verifNet) {
	if verifReset != nil {
		verifReset()
	}
	net := &verifNet{}
	e := NewEngine(nodes[i], net, db, cb, &verifKey{name: verifh.Names[i]}, verifh.Timeouts())
	e.AddNodes(nodes)
	return e, net
}

func verifRequest(nodes []*Node, kind int, id string) *types.WorkRequest {
	pids := verifPids(nodes)
	switch kind {
	case 0:
		return types.NewEdKeygenRequest(id, pids, len(pids)-1)
	case 1:
		return types.NewEdSigningRequest(id, pids, len(pids)-1, [][]byte{{1}}, []string{"c"}, nil)
	case 2:
		return types.NewEcKeygenRequest("ecdsa", id, pids, len(pids)-1, nil)
	}
	return types.NewEcSigningRequest(id, pids, len(pids)-1, [][]byte{{1}}, []string{"c"}, nil)
}

// verifPeerString: a peer is written as its name.
//
//verif:stub (github.com/libp2p/go-libp2p/core/peer.ID).String
func verifPeerString(id peer.ID) string { return string(id) }

// verifSigned is a message on the wire, signed by the given node.
func verifSigned(from string, m, signed *common.TssMessage, by string) []byte {
	inner, _ := json.Marshal(signed)
	b, _ := json.Marshal(&common.SignedMessage{From: from, TssMessage: m, Signature: append([]byte(by), inner...)})
	return b
}
