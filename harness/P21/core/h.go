package core

import (
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifrt"
)

// VerifEarlyWork: messages of works that run, wait in the queue or are not yet
// known here arrive at any time.
func VerifEarlyWork() {
	nodes := verifNodes(3)
	cb := &verifEngCb{}
	e, _ := verifEngine(nodes, &verifh.DB{}, cb)
	works := 3 // the third has to wait for an end
	ids := []string{"w0", "w1", "w2"}
	M := verifrt.Param("msgs")
	order := verifrt.Choice("order", 4)
	if order == 3 {
		M = 1
	}
	type sent struct {
		work int
		msg  *common.TssMessage
	}
	var msgs []sent
	for i := 0; i < M; i++ {
		from := nodes[1+verifrt.Concrete(verifrt.Int("from", 0, 1))].PartyId.Id
		work := verifrt.Concrete(verifrt.Int("work", 0, works-1))
		var m *common.TssMessage
		switch verifrt.Choice("kind", 4) {
		case 0:
			m = common.NewAvailabilityRequestMessage(from, nodes[0].PartyId.Id, ids[work])
		case 1:
			m = common.NewAvailabilityResponseMessage(from, nodes[0].PartyId.Id, ids[work], common.AvailabilityResponseMessage_YES, 1)
		case 2:
			m = common.NewPreExecOutputMessage(from, "", ids[work], true, nil, verifPids(nodes))
		case 3:
			m = &common.TssMessage{Type: common.TssMessage_UPDATE_MESSAGES, From: from, WorkId: ids[work], UpdateMessages: []*common.UpdateMessage{{Data: []byte{byte(i)}, Round: "r"}}}
		}
		msgs = append(msgs, sent{work, m})
	}
	req := func() {
		for i := 0; i < works; i++ {
			verifrt.Assert(e.AddRequest(verifRequest(nodes, i%2, ids[i])) == nil, "a request is refused")
		}
	}
	deliver := func() {
		for _, s := range msgs {
			verifrt.Assert(e.ProcessNewMessage(s.msg) == nil, "a message is refused")
		}
	}
	switch order {
	case 0:
		deliver()
		req()
	case 1:
		req()
		deliver()
	case 2:
		go deliver()
		req()
	case 3: // the other one begins
		go deliver()
		go req()
	}
	verifrt.Drain(0)
	first := verifWorkers[0]
	first.ended = true
	first.cb.OnWorkFailed(first.req)
	verifrt.Drain(0)
	verifrt.Assert(len(verifWorkers) == works, "a work does not run")
	if order < 2 && verifrt.Choice("again", 2) == 1 {
		verifWorkers[1].ended = true
		verifWorkers[1].cb.OnWorkFailed(verifWorkers[1].req)
		verifrt.Assert(e.AddRequest(verifRequest(nodes, 0, ids[0])) == nil, "a request is refused")
		verifrt.Drain(0)
		verifrt.Assert(len(verifWorkers) == works+1, "a work does not run again")
		verifrt.Reach("again")
	}
	for i, s := range msgs {
		n := 0
		for _, w := range verifWorkers {
			for _, g := range w.got {
				if g == s.msg {
					verifrt.Assert(w.req.WorkId == ids[s.work], "a message reaches another work")
					n++
				}
			}
		}
		_ = i
		verifrt.Assert(n > 0, "a message for a work is lost")
		verifrt.Assert(n == 1, "a message is given to a work twice")
	}
	verifrt.Reach("done")
}
