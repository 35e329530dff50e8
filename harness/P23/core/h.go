package core

import (
	"encoding/json"

	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifp"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/dheart/worker/types"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

type verifSite struct {
	e   Engine
	net *verifNet
	ex  *worker.WorkerExecutor
	w   *verifWorker
}

func (s *verifSite) take(from string, p verifPacket) {
	raw, _ := json.Marshal(p.msg)
	s.e.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: from, Data: raw})
}

// VerifRecover: p1 sends a message that p0 does not get; p0 asks for it.
func VerifRecover() {
	n := 3
	nodes := verifNodes(n)
	pids := verifPids(nodes)
	batch := 1
	var kinds []verifp.Kind
	request := func() *types.WorkRequest {
		return types.NewEcKeygenRequest("ecdsa", "w", pids, n-1, &eckeygen.LocalPreParams{})
	}
	if verifrt.Bool("signing") {
		batch = verifrt.Concrete(verifrt.Int("batch", 1, 2))
		kinds = verifp.Kinds(&verifp.Party{Kind: types.EcSigning})
		full := verifp.Kinds(&verifp.Party{Kind: types.EcSigning, Msg: verifOne})
		kinds = full
		request = func() *types.WorkRequest {
			return types.NewEcSigningRequest("w", pids, n-1, [][]byte{{1}, {2}}[:batch], []string{"c", "c"}[:batch], &eckeygen.LocalPartySaveData{})
		}
	} else {
		kinds = verifp.Kinds(&verifp.Party{Kind: types.EcKeygen})
	}
	verifp.WireKinds = kinds
	sites := make([]*verifSite, n)
	for i := range sites {
		s := &verifSite{}
		s.e, s.net = verifEngineOf(i, nodes, &verifh.DB{}, &verifEngCb{})
		sites[i] = s
	}
	for i, s := range sites {
		req := request()
		s.e.AddRequest(req)
		s.w = verifWorkers[i]
		s.ex = worker.NewWorkerExecutor(req, req.WorkType, nodes[i].PartyId, req.AllParties, s.e.(*defaultEngine), &verifh.DB{}, nil, nil, verifh.Timeouts())
	}
	a, b, c := sites[0], sites[1], sites[2]

	// p1 sends
	k := verifrt.Choice("kind", len(kinds))
	to := ""
	if kinds[k].P2P {
		to = []string{"p0", "p2"}[verifrt.Choice("to", 2)]
	}
	for i := 0; i < batch; i++ {
		w := &verifp.Wire{K: kinds[k], ID: byte(k), From: pids[1], Bcast: to == "", Payload: []byte{byte(i) + 1}}
		if to == "p0" {
			w.To = []*tss.PartyID{pids[0]}
		} else if to == "p2" {
			w.To = []*tss.PartyID{pids[2]}
		}
		b.ex.OnJobMessage(worker.VerifJobAt(i), w)
	}
	cHas := false
	for _, p := range b.net.sent {
		verifrt.Assert(to == "" || p.to == to, "a message is sent to somebody it is not for")
		if p.to == "p2" && verifrt.Bool("c_gets_it") {
			from := "p1"
			if to == "" && verifrt.Bool("relayed") {
				from = "p0" // had it when it asked, and has lost it since
			}
			c.take(from, p)
			cHas = true
		}
	}
	b.net.sent, c.net.sent = nil, nil
	if verifrt.Bool("work_over") { // the others are done already
		b.w.cb.OnWorkFailed(b.w.req)
		c.w.cb.OnWorkFailed(c.w.req)
	}

	// p0 asks
	a.ex.OnMissingMesssageDetected(map[string][]string{"p1": {kinds[k].Name()}})
	bAsked, cAsked := 0, 0
	asks := a.net.sent
	a.net.sent = nil
	for _, p := range asks {
		verifrt.Assert(p.msg.TssMessage.Type == common.TssMessage_ASK_MESSAGE_REQUEST, "something else is sent")
		if p.to == "p1" {
			bAsked++
		} else {
			cAsked++
		}
	}
	verifrt.Assert(bAsked == 1, "the sender is not asked for the missing message")
	if !kinds[k].P2P {
		verifrt.Assert(cAsked == 1, "another member is not asked for a missing broadcast")
	} else {
		verifrt.Assert(cAsked == 0, "another member is asked for a direct message")
	}
	expect := 0
	for _, p := range asks {
		if verifrt.Bool("ask_lost") {
			continue
		}
		s := b
		if p.to == "p2" {
			s = c
		}
		s.take("p0", p)
		if p.to == "p1" && to != "p2" || p.to == "p2" && cHas && to == "" {
			expect++
		}
	}
	got := 0
	for i, s := range sites[1:] {
		for _, p := range s.net.sent {
			verifrt.Assert(p.to == "p0", "an answer goes to somebody else")
			verifrt.Assert(to != "p2", "a direct message is given to somebody it is not for")
			a.take(verifh.Names[i+1], p)
			got++
		}
	}
	verifrt.Assert(got == expect, "a message request is not answered once by everybody who has the message")
	verifrt.Assert(len(a.w.got) == expect, "a recovered message does not reach the work")
	for _, m := range a.w.got {
		verifrt.Assert(m.Type == common.TssMessage_UPDATE_MESSAGES && m.From == "p1" && m.To == to && m.WorkId == "w" && len(m.UpdateMessages) == batch, "another message is recovered")
		for i, u := range m.UpdateMessages {
			verifrt.Assert(len(u.Data) == 2 && u.Data[0] == byte(k) && u.Data[1] == byte(i)+1 && u.Round == kinds[k].Name(), "another message is recovered")
		}
	}
	if expect > 0 {
		verifrt.Reach("recovered")
	} else {
		verifrt.Reach("not recovered")
	}
}
