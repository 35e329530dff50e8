package worker

import (
	"github.com/sisu-network/dheart/core/cache"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker/types"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
)

func verifRequest(kind, n, threshold, batch int) *types.WorkRequest {
	ps := verifh.Parties(n)
	var msgs [][]byte
	var chains []string
	for i := 0; i < batch; i++ {
		msgs = append(msgs, []byte{byte(i + 1)})
		chains = append(chains, "c")
	}
	switch kind {
	case 0:
		return types.NewEcKeygenRequest("ecdsa", "w", ps, threshold, nil)
	case 1:
		return types.NewEdKeygenRequest("w", ps, threshold)
	case 2:
		return types.NewEcSigningRequest("w", ps, threshold, msgs, chains, nil)
	}
	return types.NewEdSigningRequest("w", ps, threshold, msgs, chains, nil)
}

type verifOutput struct {
	from    int
	success bool
	pids    []int
	ids     []string
}

// verifOutputMsg is an arbitrary selection result: any sender, any list of
// members (repetitions and strangers included), any list of presigns.
func verifOutputMsg(n, maxPids, maxIds int) (verifOutput, *common.TssMessage) {
	var o verifOutput
	name := func(k int) string {
		if k < n {
			return verifh.Names[k]
		}
		return "px"
	}
	o.from = verifrt.Concrete(verifrt.Int("from", 0, n))
	o.success = verifrt.Bool("success")
	pm := &common.PreExecOutputMessage{Success: o.success}
	k := verifrt.Concrete(verifrt.Int("npids", 0, maxPids))
	for i := 0; i < k; i++ {
		p := verifrt.Concrete(verifrt.Int("pid", 0, n))
		o.pids = append(o.pids, p)
		pm.Pids = append(pm.Pids, name(p))
	}
	m := verifrt.Concrete(verifrt.Int("nids", 0, maxIds))
	for i := 0; i < m; i++ {
		o.ids = append(o.ids, "s"+string(rune('0'+i)))
	}
	pm.PresignIds = o.ids
	return o, &common.TssMessage{Type: common.TssMessage_PRE_EXEC_OUTPUT, From: name(o.from), WorkId: "w", PreExecOutputMessage: pm}
}

// VerifMemberAccepts: what a member makes of the announced selection.
func VerifMemberAccepts() {
	n, t := verifrt.Param("n"), verifrt.Param("threshold")
	lead := verifrt.Param("leader")
	me := verifrt.Param("me")
	VerifLeaderIndex = lead
	kind := verifrt.Concrete(verifrt.Int("kind", 0, 3))
	batch := 1
	maxIds := 0
	if kind == 2 {
		batch = 2
		maxIds = 3
	}
	req := verifRequest(kind, n, t, batch)
	rows := 0
	var asked []string
	fail := false
	dbs := &verifh.DB{Presign: func(ids []string) ([]*ecsigning.SignatureData_OneRoundData, error) {
		asked = ids
		fail = verifrt.Bool("dbfails")
		rows = verifrt.Concrete(verifrt.Int("rows", 0, 3))
		if fail {
			return nil, verifh.ErrDB
		}
		out := make([]*ecsigning.SignatureData_OneRoundData, rows)
		for i := range out {
			out[i] = &ecsigning.SignatureData_OneRoundData{}
		}
		return out, nil
	}}
	disp := &verifh.Dispatcher{}
	var outs []SelectionResult
	sel := NewPreworkSelection(req, req.AllParties, verifh.Parties(n)[me], dbs, cache.NewMessageCache(), disp, &verifh.Presigns{}, verifh.Timeouts(),
		func(res SelectionResult) { verifrt.HLock(); outs = append(outs, res); verifrt.HUnlock() })
	sel.Init()
	o, m := verifOutputMsg(n, verifrt.Param("pids"), maxIds)
	early := verifrt.Bool("early")
	if early {
		cached := []*common.TssMessage{m}
		if len(o.pids) == n && len(o.ids) == 0 && verifrt.Bool("repeated") {
			cached = append(cached, m, m)
		}
		go sel.Run(cached)
		verifrt.Drain(0)
	} else {
		go sel.Run(nil)
		verifrt.Drain(0)
		verifrt.Assert(len(outs) == 0, "a member decided before the leader")
		sel.ProcessNewMessage(m)
		verifrt.Drain(0)
	}
	if o.from != lead {
		verifrt.Assert(len(outs) == 0, "a selection result of a node that is not the leader was used")
		verifrt.Reach("not-leader")
		// the leader's own result still counts
		ok := &common.TssMessage{Type: common.TssMessage_PRE_EXEC_OUTPUT, From: verifh.Names[lead], WorkId: "w",
			PreExecOutputMessage: &common.PreExecOutputMessage{Success: true}}
		o = verifOutput{from: lead, success: true}
		for i := 0; i < n; i++ {
			o.pids = append(o.pids, i)
			ok.PreExecOutputMessage.Pids = append(ok.PreExecOutputMessage.Pids, verifh.Names[i])
		}
		if verifrt.Bool("silent") {
			verifrt.Drain(-1)
			verifrt.Assert(len(outs) == 1 && !outs[0].Success, "no failure after a silent leader")
			verifrt.Reach("timeout")
			return
		}
		sel.ProcessNewMessage(ok)
		verifrt.Drain(0)
		early = false
	}
	if !early {
		r := disp.Kind(common.TssMessage_AVAILABILITY_RESPONSE)
		verifrt.Assert(len(r) == 1 && !r[0].Broadcast && r[0].To[0] == verifh.Names[lead] && r[0].Msg.To == verifh.Names[lead] &&
			r[0].Msg.From == verifh.Names[me] && r[0].Msg.AvailabilityResponseMessage.Answer == common.AvailabilityResponseMessage_YES, "the member did not offer itself to the leader once")
	}
	verifrt.Assert(len(outs) == 1, "not exactly one outcome after the leader's result")
	// reference
	cnt := make([]int, n+1)
	valid := o.success && len(o.pids) >= t+1
	for _, p := range o.pids {
		cnt[p]++
		if cnt[p] > 1 || p == n {
			valid = false
		}
	}
	if kind < 2 && len(o.pids) != n {
		valid = false
	}
	in := cnt[me] > 0
	if valid && in && len(o.ids) > 0 && (len(o.ids) != batch || fail || rows != batch) {
		valid = false
		verifrt.Reach("bad-presigns")
	}
	res := outs[0]
	verifrt.Assert(res.Success == valid, "selection result accepted/refused wrongly")
	if valid {
		verifrt.Assert(res.IsNodeExcluded == !in, "the member's own part in the work does not follow the selection")
		verifrt.Assert(len(res.SelectedPids) == len(o.pids), "the accepted selection differs from the announced one")
		for i, p := range o.pids {
			verifrt.Assert(res.SelectedPids[i] != nil && res.SelectedPids[i].Id == verifh.Names[p], "the accepted selection differs from the announced one")
		}
		if in {
			verifrt.Assert(len(res.PresignIds) == len(o.ids), "the accepted presigns differ from the announced ones")
			for i := range o.ids {
				verifrt.Assert(res.PresignIds[i] == o.ids[i] && asked[i] == o.ids[i], "the accepted presigns differ from the announced ones")
			}
			if len(o.ids) > 0 {
				verifrt.Reach("with-presigns")
			}
		} else {
			verifrt.Reach("excluded")
		}
	}
	verifrt.Drain(-1)
	verifrt.Assert(len(outs) == 1, "more than one outcome")
	verifrt.Reach("done")
}
