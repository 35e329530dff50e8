package core

import (
	"encoding/json"

	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifrt"
)

func verifPick(name string, from ...string) string {
	return from[verifrt.Choice(name, len(from))]
}

// VerifSender: one message, genuine or forged, reaches the node.
func VerifSender() {
	nodes := verifNodes(3)
	cb := &verifEngCb{}
	e, net := verifEngine(nodes, &verifh.DB{}, cb)
	e.AddRequest(verifRequest(nodes, 0, "w"))
	d := verifWorkers[0].cb.(*defaultEngine)
	own := &common.TssMessage{Type: common.TssMessage_UPDATE_MESSAGES, From: "p0", To: "p1", WorkId: "w", UpdateMessages: []*common.UpdateMessage{{Data: []byte{7}, Round: "own"}}}
	d.UnicastMessage(nodes[1].PartyId, own)
	verifrt.Assert(len(net.sent) == 1 && net.sent[0].to == "p1", "a message is not sent")
	net.sent = nil

	data := verifrt.Bytes("data", 1)
	build := func(d []byte) *common.TssMessage {
		return &common.TssMessage{Type: common.TssMessage_UPDATE_MESSAGES, UpdateMessages: []*common.UpdateMessage{{Data: d, Round: "r"}}}
	}
	m, signed := build(data), build(data)
	kind := verifrt.Choice("type", 4)
	switch kind {
	case 1:
		m.Type, m.UpdateMessages = common.TssMessage_AVAILABILITY_RESPONSE, nil
		m.AvailabilityResponseMessage = &common.AvailabilityResponseMessage{Answer: common.AvailabilityResponseMessage_YES}
	case 2:
		m.Type, m.UpdateMessages = common.TssMessage_PRE_EXEC_OUTPUT, nil
		m.PreExecOutputMessage = &common.PreExecOutputMessage{Success: true, Pids: []string{"p0", "p1"}}
	case 3:
		m.Type, m.UpdateMessages = common.TssMessage_ASK_MESSAGE_REQUEST, nil
		m.AskRequestMessage = &common.AskRequestMessage{MsgKey: common.GetMessageKey("w", "p0", "p1", "own")}
	}
	*signed = *m
	m.From = verifPick("from", "p1", "p2", "stranger")
	m.To = verifPick("to", "", "p0", "p2")
	m.WorkId = verifPick("work", "w", "u")
	signed.From, signed.To, signed.WorkId = m.From, m.To, m.WorkId
	altered := true
	switch verifrt.Choice("altered", 6) {
	case 0:
		altered = false
	case 1:
		signed.From = "p0"
	case 2:
		signed.To = "p1"
	case 3:
		signed.WorkId = "v"
	case 4:
		signed.Type = common.TssMessage_AVAILABILITY_REQUEST
	case 5:
		if kind != 0 {
			verifrt.Stop()
		}
		other := verifrt.Bytes("other", 1)
		verifrt.Assume(other[0] != data[0])
		signed.UpdateMessages = build(other).UpdateMessages
	}
	envelope := verifPick("envelope", "p1", "p2", "stranger")
	by := verifPick("signed_by", "p1", "p2", "stranger")
	peer := verifPick("peer", "p1", "p2", "stranger")
	b := verifSigned(envelope, m, signed, by)
	if verifrt.Bool("unsigned") {
		b, _ = json.Marshal(&common.SignedMessage{From: envelope, TssMessage: m})
		altered = true
	}
	e.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: peer, Data: b})
	verifrt.Drain(0)
	genuine := m.From != "stranger" && by == m.From && !altered && m.To != "p2"

	// what it caused
	got := append([]*common.TssMessage{}, verifWorkers[0].got...)
	e.AddRequest(verifRequest(nodes, 1, "u"))
	verifrt.Assert(len(verifWorkers) == 2, "a work does not start")
	got = append(got, verifWorkers[1].got...)
	answers := len(net.sent)
	for _, p := range net.sent {
		verifrt.Assert(p.to == "p1" && kind == 3, "a message is answered to another node")
	}
	// somebody asks for it
	net.sent = nil
	ask := common.NewRequestMessage("p2", "", "w", common.GetMessageKey(m.WorkId, m.From, m.To, "r"))
	e.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: "p2", Data: verifSigned("p2", ask, ask, "p2")})
	relayed := len(net.sent)

	if !genuine {
		verifrt.Assert(len(got) == 0, "a message that its sender did not sign for this node is processed")
		verifrt.Assert(answers == 0, "a request that its sender did not sign is answered")
		verifrt.Assert(relayed == 0, "a message that its sender did not sign is relayed")
		verifrt.Reach("forged")
		return
	}
	if envelope != m.From || peer == "stranger" {
		verifrt.Reach("odd") // these may be refused
		return
	}
	if kind == 3 {
		verifrt.Assert(len(got) == 0, "a message request reaches a worker")
		want := 0
		if m.From == "p1" {
			want = 1
		}
		verifrt.Assert(answers == want, "a genuine message request is not answered to its sender only")
		verifrt.Reach("genuine request")
		return
	}
	verifrt.Assert(len(got) == 1, "a genuine message is not processed once")
	verifrt.Assert(got[0].From == m.From && got[0].WorkId == m.WorkId && got[0].Type == m.Type, "a genuine message is changed")
	n := 0
	if kind == 0 && m.To == "" {
		n = 1
		verifrt.Assert(relayed == 1 && net.sent[0].to == "p2" && net.sent[0].msg.From == m.From && verifSameSigned(net.sent[0].msg, m, by), "a genuine broadcast is not relayed as it was signed")
	}
	verifrt.Assert(relayed == n, "a message is relayed to somebody it is not for")
	verifrt.Reach("genuine")
}

func verifSameSigned(s *common.SignedMessage, m *common.TssMessage, by string) bool {
	a, _ := json.Marshal(s.TssMessage)
	b, _ := json.Marshal(m)
	return verifSameMsg(a, b) && (&verifPub{name: by}).VerifySignature(b, s.Signature)
}

// VerifRoundtrip: what one node sends is accepted by the node it is for.
func VerifRoundtrip() {
	nodes := verifNodes(3)
	a, netA := verifEngine(nodes, &verifh.DB{}, &verifEngCb{})
	a.AddRequest(verifRequest(nodes, 0, "w"))
	da := verifWorkers[0].cb.(*defaultEngine)
	b, _ := verifEngineOf(1, nodes, &verifh.DB{}, &verifEngCb{})
	b.AddRequest(verifRequest(nodes, 0, "w"))
	var m *common.TssMessage
	to := verifPick("to", "", "p1")
	switch verifrt.Choice("type", 4) {
	case 0:
		m = &common.TssMessage{Type: common.TssMessage_UPDATE_MESSAGES, From: "p0", To: to, WorkId: "w", UpdateMessages: []*common.UpdateMessage{{Data: verifrt.Bytes("data", 1), Round: "r"}}}
	case 1:
		m = common.NewAvailabilityRequestMessage("p0", to, "w")
	case 2:
		m = common.NewAvailabilityResponseMessage("p0", to, "w", common.AvailabilityResponseMessage_YES, 1)
	case 3:
		m = common.NewPreExecOutputMessage("p0", to, "w", true, nil, verifPids(nodes))
	}
	if to == "" {
		da.BroadcastMessage(verifPids(nodes), m)
		verifrt.Assert(len(netA.sent) == 2, "a broadcast does not reach all others once")
	} else {
		da.UnicastMessage(nodes[1].PartyId, m)
		verifrt.Assert(len(netA.sent) == 1, "a message is not sent once")
	}
	reached := 0
	for _, p := range netA.sent {
		if p.to != "p1" {
			verifrt.Assert(to == "" && p.to == "p2", "a message is sent to a node it is not for")
			continue
		}
		raw, _ := json.Marshal(p.msg)
		b.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: "p0", Data: raw})
		reached++
	}
	verifrt.Assert(reached == 1, "a message does not reach the node it is for")
	got := verifWorkers[0].got
	verifrt.Assert(len(got) == 1, "a genuine message is not accepted")
	x, _ := json.Marshal(got[0])
	y, _ := json.Marshal(m)
	verifrt.Assert(verifSameMsg(x, y), "a message is changed on its way")
	verifrt.Reach("done")
}
