package core

import (
	"encoding/json"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifrt"
)

// VerifAPI: any calls at once; all return and none disturbs another.
func VerifAPI() {
	nodes := verifNodes(3)
	cb := &verifEngCb{}
	e, net := verifEngine(nodes[:2], &verifh.DB{}, cb)
	e.AddRequest(verifRequest(nodes[:2], 0, "w0"))
	if verifrt.Bool("second") {
		e.AddRequest(verifRequest(nodes[:2], 1, "w1"))
	}
	d := verifWorkers[0].cb.(*defaultEngine)
	update := func(from string, b byte) *common.TssMessage {
		return &common.TssMessage{Type: common.TssMessage_UPDATE_MESSAGES, From: from, WorkId: "w0", UpdateMessages: []*common.UpdateMessage{{Data: []byte{b}, Round: "r"}}}
	}
	me, other := nodes[0].PartyId.Id, nodes[1].PartyId.Id
	d.BroadcastMessage(verifPids(nodes[:2]), update(me, 9))
	op := func(k int) {
		switch k {
		case 0:
			e.AddRequest(verifRequest(nodes[:2], 1, "w2"))
		case 1:
			e.ProcessNewMessage(update(other, 1))
		case 2:
			e.AddNodes(nodes[2:])
		case 3:
			verifWorkers[0].cb.OnWorkFailed(verifWorkers[0].req)
		case 4:
			d.BroadcastMessage(verifPids(nodes[:2]), update(me, 2))
		case 5: // to a node that is not known yet
			d.BroadcastMessage(verifPids(nodes), update(me, 3))
			e.AddNodes(nodes[2:])
		case 6:
			m := update(me, 4)
			m.To = other
			d.UnicastMessage(nodes[1].PartyId, m)
		case 7:
			e.ProcessNewMessage(common.NewRequestMessage(other, "", "w0", common.GetMessageKey("w0", me, "", "r")))
		case 8:
			e.GetActiveWorkerCount()
		case 9:
			verifWorkers[0].cb.OnNodeNotSelected(verifWorkers[0].req)
		case 10:
			m := update(other, 5)
			inner, _ := json.Marshal(m)
			b, _ := json.Marshal(&common.SignedMessage{From: other, TssMessage: m, Signature: append([]byte("p1"), inner...)})
			e.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: "p1", Data: b})
		}
	}
	calls := verifrt.Param("calls")
	last := 0
	done := 0
	for i := 0; i < calls; i++ {
		last = last + verifrt.Choice("call", 11-last) // calls are unordered
		k := last
		go func() {
			op(k)
			verifrt.HLock()
			done++
			verifrt.HUnlock()
		}()
	}
	verifrt.Drain(0)
	verifrt.Assert(done == calls, "a call never returns")
	n := len(net.sent)
	d.BroadcastMessage(verifPids(nodes[:2]), update(me, 7))
	verifrt.Assert(len(net.sent) == n+1, "messages are not sent any more")
	e.ProcessNewMessage(update(other, 8))
	e.AddRequest(verifRequest(nodes[:2], 1, "w3"))
	verifrt.Reach("done")
}
