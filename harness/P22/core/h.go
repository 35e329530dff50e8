package core

import (
	"encoding/json"

	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifp"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/dheart/worker/types"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

// verifBadMessage is any message a member can put on the wire.
func verifBadMessage(from *tss.PartyID, kinds int) *common.TssMessage {
	m := &common.TssMessage{Type: common.TssMessage_Type(verifrt.Choice("type", 6)), From: from.Id}
	m.WorkId = "w"
	if verifrt.Bool("to_me") {
		m.To = "p0"
	}
	if verifrt.Bool("no_body") {
		return m
	}
	switch m.Type {
	case common.TssMessage_UPDATE_MESSAGES:
		n := verifrt.Concrete(verifrt.Int("updates", 0, 3))
		for i := 0; i < n; i++ {
			var u *common.UpdateMessage
			switch verifrt.Choice("update", 4) {
			case 1:
				u = &common.UpdateMessage{}
			case 2: // not a protocol message
				u = &common.UpdateMessage{Data: []byte{9}, Round: "r"}
			case 3:
				k := verifrt.Choice("kind", kinds)
				w := &verifp.Wire{K: verifp.WireKinds[k], ID: byte(k), From: from, Bcast: m.To == "", Payload: []byte{byte(i)}}
				u = mustMsg(w, from.Id).UpdateMessages[0]
				if verifrt.Bool("no_routing") {
					u.SerializedMessageRouting = nil
				}
			}
			m.UpdateMessages = append(m.UpdateMessages, u)
		}
	case common.TssMessage_AVAILABILITY_RESPONSE:
		m.AvailabilityResponseMessage = &common.AvailabilityResponseMessage{Answer: common.AvailabilityResponseMessage_ANSWER(verifrt.Choice("answer", 3))}
	case common.TssMessage_PRE_EXEC_OUTPUT:
		o := &common.PreExecOutputMessage{Success: verifrt.Bool("success")}
		n := verifrt.Concrete(verifrt.Int("pids", 0, 3))
		for i := 0; i < n; i++ {
			o.Pids = append(o.Pids, []string{"p0", "p1", "", "x"}[verifrt.Choice("pid", 4)])
		}
		n = verifrt.Concrete(verifrt.Int("presigns", 0, 2))
		for i := 0; i < n; i++ {
			o.PresignIds = append(o.PresignIds, "s")
		}
		m.PreExecOutputMessage = o
	case common.TssMessage_ASK_MESSAGE_REQUEST:
		m.AskRequestMessage = &common.AskRequestMessage{MsgKey: []string{"", "x", "w__p1", "w__p1____r", "w__p0____r__x", "______"}[verifrt.Choice("key", 6)]}
	}
	return m
}

func mustMsg(w *verifp.Wire, from string) *common.TssMessage {
	to := ""
	if !w.Bcast {
		to = "p0"
	}
	m, err := common.NewTssMessage(from, to, "w", []tss.Message{w}, w.Type())
	verifrt.Assert(err == nil, "no message")
	return m
}

// VerifMalformed: a member sends arbitrary messages in any phase of a work.
// With the param outsider, a third node does that is known but not asked to
// take part in the work.
func VerifMalformed() {
	verifp.List = nil
	out := verifrt.Param("outsider")
	nodes := verifNodes(2 + out)
	pids := verifPids(nodes)
	bad := pids[1+out]
	pids = pids[:2:2]
	cb := &verifEngCb{}
	db := &verifh.DB{}
	e, _ := verifEngine(nodes, db, cb)
	var req *types.WorkRequest
	switch verifrt.Choice("work", verifrt.Param("works")) {
	case 0:
		req = types.NewEdSigningRequest("w", pids, 1, [][]byte{{1}, {2}}, []string{"c", "c"}, &edkeygen.LocalPartySaveData{})
	case 1:
		req = types.NewEcSigningRequest("w", pids, 1, [][]byte{{1}}, []string{"c"}, &eckeygen.LocalPartySaveData{})
	case 2:
		req = types.NewEcKeygenRequest("ecdsa", "w", pids, 1, &eckeygen.LocalPreParams{})
	}
	kinds := verifp.Kinds(&verifp.Party{Kind: req.WorkType})
	verifp.WireKinds = kinds
	worker.VerifLeaderIndex = verifrt.Choice("leader", 2)
	deliver := func(m *common.TssMessage) {
		e.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: m.From, Data: verifSigned(m.From, m, m, m.From)})
	}
	phase := verifrt.Choice("phase", 3)
	if phase > 0 {
		verifrt.Assert(e.AddRequest(req) == nil, "a request is refused")
		verifrt.Drain(0)
	}
	if phase > 1 {
		if worker.VerifLeaderIndex == 1 {
			deliver(common.NewPreExecOutputMessage("p1", "", "w", true, nil, pids))
		} else {
			deliver(common.NewAvailabilityResponseMessage("p1", "p0", "w", common.AvailabilityResponseMessage_YES, 1))
		}
		verifrt.Drain(0)
		verifrt.Assert(len(verifp.List) == req.BatchSize, "the work does not run")
	}
	n := verifrt.Param("msgs")
	for i := 0; i < n; i++ {
		if i == 0 && verifrt.Bool("raw") {
			data := []byte("not json")
			switch verifrt.Choice("raw_kind", 3) {
			case 1:
				data = nil
			case 2:
				data, _ = json.Marshal(&common.SignedMessage{From: "p1", Signature: []byte("p1")})
			}
			e.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: "p1", Data: data})
			continue
		}
		deliver(verifBadMessage(bad, 1))
		verifrt.Drain(0)
	}
	if phase == 0 {
		verifrt.Assert(e.AddRequest(req) == nil, "a request is refused")
	}
	verifrt.Drain(-1)
	verifrt.Assert(len(cb.failed)+len(cb.keysigns)+len(cb.keygens) <= 1, "a work ends twice")
	verifrt.Assert(e.GetActiveWorkerCount() == 1-len(cb.failed)-len(cb.keysigns), "a work is not ended properly")
	// the node is still usable
	r2 := types.NewEdKeygenRequest("next", pids, 1)
	verifrt.Assert(e.AddRequest(r2) == nil, "the node does not take requests any more")
	verifrt.Drain(-1)
	ended := false
	for _, f := range cb.failed {
		ended = ended || f == "next"
	}
	verifrt.Assert(ended, "the node does not work any more") // nobody answers
	verifrt.Reach("done")
}
