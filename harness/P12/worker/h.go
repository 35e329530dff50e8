package worker

import (
	"github.com/sisu-network/dheart/core/cache"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker/types"
	"github.com/sisu-network/tss-lib/tss"
)

// VerifOneOutcome: whatever selection messages arrive, in whatever order and
// however often, before, while or after the selection runs, their delivery
// returns without waiting for a timeout and the selection ends exactly once.
func VerifOneOutcome() {
	n := verifrt.Param("n")
	lead := 1
	VerifLeaderIndex = lead
	me := lead
	if verifrt.Bool("member") {
		me = 0
	}
	ps := verifh.Parties(n)
	var req *types.WorkRequest
	if verifrt.Bool("keygen") {
		req = types.NewEcKeygenRequest("ecdsa", "w", ps, 1, nil)
	} else {
		req = types.NewEdSigningRequest("w", ps, 1, [][]byte{{1}}, []string{"c"}, nil)
	}
	outs := 0
	sel := NewPreworkSelection(req, req.AllParties, verifh.Parties(n)[me], &verifh.DB{}, cache.NewMessageCache(), &verifh.Dispatcher{},
		&verifh.Presigns{}, verifh.Timeouts(), func(SelectionResult) { verifrt.HLock(); outs++; verifrt.HUnlock() })
	sel.Init()
	msg := func() *common.TssMessage {
		from := verifh.Names[verifrt.Concrete(verifrt.Int("from", 0, n-1))]
		switch verifrt.Choice("kind", 3) {
		case 0:
			return common.NewAvailabilityRequestMessage(from, verifh.Names[me], "w")
		case 1:
			m := common.NewAvailabilityResponseMessage(from, verifh.Names[me], "w", common.AvailabilityResponseMessage_YES, 1)
			m.AvailabilityResponseMessage.Answer = common.AvailabilityResponseMessage_ANSWER(verifrt.Concrete(verifrt.Int("no", 0, 1)))
			return m
		}
		var pids []*tss.PartyID
		ok := verifrt.Bool("ok")
		if ok {
			pids = ps
		}
		return common.NewPreExecOutputMessage(from, "", "w", ok, nil, pids)
	}
	var early []*common.TssMessage
	if verifrt.Bool("early") {
		early = append(early, msg())
	}
	go sel.Run(early)
	k := verifrt.Param("msgs") - len(early)
	if verifrt.Bool("concurrent") {
		k--
		delivered := 0
		for i := 0; i < k; i++ {
			m := msg()
			go func() {
				sel.ProcessNewMessage(m)
				verifrt.HLock()
				delivered++
				verifrt.HUnlock()
			}()
		}
		verifrt.Drain(0)
		verifrt.Assert(delivered == k, "the delivery of a selection message blocks")
	} else {
		// one after the other, so that the last ones arrive late
		delivered := 0
		go func() {
			for i := 0; i < k; i++ {
				sel.ProcessNewMessage(msg())
				verifrt.HLock()
				delivered++
				verifrt.HUnlock()
			}
		}()
		verifrt.Drain(0)
		verifrt.Assert(delivered == k, "the delivery of a selection message blocks")
	}
	verifrt.Assert(outs <= 1, "more than one outcome of a selection")
	verifrt.Drain(-1)
	verifrt.Assert(outs == 1, "not exactly one outcome of a selection")
	verifrt.Reach("done")
}

// VerifFlood: members answer the leader many more times than there are
// members; none of the deliveries waits, also not when all are too late.
func VerifFlood() {
	n := verifrt.Param("n")
	lead := n - 1
	VerifLeaderIndex = lead
	ps := verifh.Parties(n)
	outs := 0
	success := false
	req := types.NewEdSigningRequest("w", ps, n-1, [][]byte{{1}}, []string{"c"}, nil)
	sel := NewPreworkSelection(req, req.AllParties, verifh.Parties(n)[lead], &verifh.DB{}, cache.NewMessageCache(), &verifh.Dispatcher{},
		&verifh.Presigns{}, verifh.Timeouts(), func(r SelectionResult) { verifrt.HLock(); outs++; success = r.Success; verifrt.HUnlock() })
	sel.Init()
	var ms []*common.TssMessage
	said := make([]bool, n)
	for i := 0; i < verifrt.Param("msgs"); i++ {
		from := verifrt.Concrete(verifrt.Int("from", 0, n-2))
		m := common.NewAvailabilityResponseMessage(verifh.Names[from], verifh.Names[lead], "w", common.AvailabilityResponseMessage_YES, 1)
		if verifrt.Bool("refuses") {
			m.AvailabilityResponseMessage.Answer = common.AvailabilityResponseMessage_NO
		} else {
			said[from] = true
		}
		ms = append(ms, m)
	}
	late := verifrt.Bool("late")
	if late {
		go sel.Run(nil)
		verifrt.Drain(-1)
		verifrt.Assert(outs == 1 && !success, "a selection without answers succeeds or does not end")
	}
	delivered := 0
	concurrent := verifrt.Bool("concurrent")
	for i := range ms {
		m := ms[i]
		deliver := func() {
			sel.ProcessNewMessage(m)
			verifrt.HLock()
			delivered++
			verifrt.HUnlock()
		}
		if concurrent {
			go deliver()
			continue
		}
		if !late && i == 0 {
			go sel.Run(nil)
			verifrt.Drain(0)
		}
		go deliver()
		verifrt.Drain(0)
		verifrt.Assert(delivered == i+1, "the delivery of an answer blocks")
	}
	if !late && concurrent {
		go sel.Run(nil)
	}
	verifrt.Drain(0)
	verifrt.Assert(delivered == len(ms), "the delivery of an answer blocks")
	verifrt.Drain(-1)
	verifrt.Assert(outs == 1, "not exactly one outcome of a selection")
	all := true
	for i := 0; i < n-1; i++ {
		all = all && said[i]
	}
	verifrt.Assert(success == (all && !late), "the answers do not decide")
	if late {
		verifrt.Reach("late")
	}
	verifrt.Reach("flooded")
}
