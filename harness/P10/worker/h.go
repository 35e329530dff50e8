package worker

import (
	"github.com/sisu-network/dheart/core/cache"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker/types"
	"github.com/sisu-network/tss-lib/tss"
)

type verifLeaderRun struct {
	n, threshold int
	req          *types.WorkRequest
	yes          map[string]bool
	disp         *verifh.Dispatcher
	outs         []SelectionResult
	decided      bool
	wantOK       bool
	presigns     []string
	owners       []*tss.PartyID
}

func (r *verifLeaderRun) min() int {
	if r.req.IsKeygen() {
		return r.n
	}
	return r.threshold + 1
}

func verifRequest(kind int, ps []*tss.PartyID, threshold, batch int) *types.WorkRequest {
	var msgs [][]byte
	var chains []string
	for i := 0; i < batch; i++ {
		msgs = append(msgs, []byte{byte(i + 1)})
		chains = append(chains, "c")
	}
	switch kind {
	case 0:
		return types.NewEcKeygenRequest("ecdsa", "w", ps, threshold, nil)
	case 1:
		return types.NewEdKeygenRequest("w", ps, threshold)
	case 2:
		return types.NewEcSigningRequest("w", ps, threshold, msgs, chains, nil)
	}
	return types.NewEdSigningRequest("w", ps, threshold, msgs, chains, nil)
}

// verifResponse is an arbitrary availability message: any member (the leader
// and an outsider included), either answer.
func verifResponse(n int) *common.TssMessage {
	k := verifrt.Concrete(verifrt.Int("from", 0, n))
	from := "px"
	if k < n {
		from = verifh.Names[k]
	}
	ans := common.AvailabilityResponseMessage_NO
	if verifrt.Bool("yes") {
		ans = common.AvailabilityResponseMessage_YES
	}
	m := common.NewAvailabilityResponseMessage(from, "p0", "w", ans, 1)
	// built by hand as well: the constructor is not what this check is about
	m.AvailabilityResponseMessage.Answer = ans
	return m
}

// VerifLeaderSelects: the leader's outcome against the reference, for every
// kind of work, every set and order of early and late answers and every
// content of the presign store.
func VerifLeaderSelects() {
	n := verifrt.Param("n")
	lead := verifrt.Param("leader")
	VerifLeaderIndex = lead
	kind := verifrt.Concrete(verifrt.Int("kind", 0, 3))
	t := verifrt.Concrete(verifrt.Int("threshold", 1, n-1))
	batch := 1
	if kind == 2 {
		batch = verifrt.Param("batch")
	}
	ps := verifh.Parties(n)
	me := ps[lead].Id
	r := &verifLeaderRun{n: n, threshold: t, req: verifRequest(kind, ps, t, batch), yes: map[string]bool{me: true}, disp: &verifh.Dispatcher{}}
	pm := &verifh.Presigns{Get: func(b, num int, all map[string]*tss.PartyID) ([]string, []*tss.PartyID) {
		verifrt.Assert(b == batch, "presigns were requested for a wrong number of messages")
		if !verifrt.Bool("stored") {
			return []string{}, []*tss.PartyID{}
		}
		var ids []string
		for i := 0; i < b; i++ {
			ids = append(ids, "s"+string(rune('0'+i)))
		}
		var own []*tss.PartyID
		for _, p := range r.req.AllParties {
			if q := all[p.Id]; q != nil && len(own) < t+1 {
				if verifrt.Bool("owner") {
					own = append(own, q)
				}
			}
		}
		if len(own) != t+1 {
			return []string{}, []*tss.PartyID{}
		}
		r.presigns, r.owners = ids, own
		return ids, own
	}}
	sel := NewPreworkSelection(r.req, r.req.AllParties, ps[lead], &verifh.DB{}, cache.NewMessageCache(), r.disp, pm, verifh.Timeouts(),
		func(res SelectionResult) { verifrt.HLock(); r.outs = append(r.outs, res); verifrt.HUnlock() })
	sel.Init()
	early := verifrt.Concrete(verifrt.Int("early", 0, verifrt.Param("early")))
	var cached []*common.TssMessage
	for i := 0; i < early; i++ {
		m := verifResponse(n)
		cached = append(cached, m)
		r.answer(m)
	}
	go sel.Run(cached)
	verifrt.Drain(0)
	r.check(me)
	if len(r.outs) == 0 {
		// every member that has not said YES yet was asked
		asked := map[string]int{}
		for _, s := range r.disp.Kind(common.TssMessage_AVAILABILITY_REQUEST) {
			verifrt.Assert(!s.Broadcast && s.Msg.To == s.To[0] && s.Msg.From == me && s.Msg.WorkId == "w", "malformed availability request")
			asked[s.To[0]]++
		}
		for _, p := range ps {
			want := 0
			if !r.yes[p.Id] {
				want = 1
			}
			verifrt.Assert(asked[p.Id] == want, "availability requests went to the wrong members")
		}
	}
	late := verifrt.Param("late")
	for i := 0; i < late && len(r.outs) == 0; i++ {
		m := verifResponse(n)
		if err := sel.ProcessNewMessage(m); err != nil {
			verifrt.Assert(false, "an availability answer was refused")
		}
		r.answer(m)
		verifrt.Drain(0)
		r.check(me)
	}
	if len(r.outs) == 0 {
		verifrt.Drain(-1)
		verifrt.Assert(len(r.outs) == 1, "no outcome after the selection time-out")
		want := !r.req.IsKeygen() && len(r.yes) >= t+1
		verifrt.Assert(r.outs[0].Success == want, "wrong outcome after the selection time-out")
		if want {
			r.verify(me, nil, nil)
			verifrt.Reach("timeout-success")
		} else {
			verifrt.Reach("timeout-failure")
		}
	} else {
		verifrt.Reach("early-success")
	}
	verifrt.Drain(-1)
	verifrt.Assert(len(r.outs) == 1, "more than one selection outcome")
	r.announced(me)
	verifrt.Reach("done")
}

func (r *verifLeaderRun) answer(m *common.TssMessage) {
	if m.AvailabilityResponseMessage.Answer != common.AvailabilityResponseMessage_YES {
		return
	}
	for _, p := range r.req.AllParties {
		if p.Id == m.From {
			r.yes[p.Id] = true
		}
	}
}

// check compares the outcome so far with the reference.
func (r *verifLeaderRun) check(me string) {
	want := false
	if len(r.yes) >= r.min() {
		want = r.req.WorkType != types.EcSigning || r.presigns != nil || len(r.yes) == r.n
	}
	verifrt.Assert(len(r.outs) <= 1, "more than one selection outcome")
	verifrt.Assert(!want || len(r.outs) == 1, "the leader does not start although enough members are available")
	verifrt.Assert(want || len(r.outs) == 0, "the leader decided without enough available members")
	if want {
		verifrt.Assert(r.outs[0].Success, "the leader failed although enough members are available")
		r.verify(me, r.presigns, r.owners)
	}
}

// verify checks a successful outcome.
func (r *verifLeaderRun) verify(me string, presigns []string, owners []*tss.PartyID) {
	res := r.outs[0]
	seen := map[string]bool{}
	for _, p := range res.SelectedPids {
		verifrt.Assert(p != nil && !seen[p.Id], "a member is selected twice")
		seen[p.Id] = true
		verifrt.Assert(r.yes[p.Id], "a member that did not say YES is selected")
	}
	verifrt.Assert(len(res.SelectedPids) >= r.min(), "fewer members selected than the work needs")
	verifrt.Assert(res.IsNodeExcluded == !seen[me], "the leader's own part in the work does not follow the selection")
	verifrt.Assert(len(res.PresignIds) == len(presigns), "wrong presigns in the outcome")
	for i := range presigns {
		verifrt.Assert(res.PresignIds[i] == presigns[i], "wrong presigns in the outcome")
	}
	if len(presigns) > 0 {
		verifrt.Assert(len(res.SelectedPids) == len(owners), "the selection is not the presigns' owners")
		for _, p := range owners {
			verifrt.Assert(seen[p.Id], "the selection is not the presigns' owners")
		}
		if !seen[me] {
			verifrt.Reach("leader-excluded")
		}
	} else {
		verifrt.Assert(seen[me], "the leader left itself out")
	}
}

// announced checks that the members were told exactly the outcome.
func (r *verifLeaderRun) announced(me string) {
	res := r.outs[0]
	out := r.disp.Kind(common.TssMessage_PRE_EXEC_OUTPUT)
	verifrt.Assert(len(out) == 1, "the outcome was not announced exactly once")
	m := out[0].Msg
	verifrt.Assert(out[0].Broadcast && len(out[0].To) == r.n && m.To == "" && m.From == me && m.WorkId == "w", "the outcome was not announced to the whole committee")
	pm := m.PreExecOutputMessage
	verifrt.Assert(pm.Success == res.Success && len(pm.Pids) == len(res.SelectedPids) && len(pm.PresignIds) == len(res.PresignIds), "the announced outcome differs from the leader's own")
	for i := range pm.Pids {
		verifrt.Assert(pm.Pids[i] == res.SelectedPids[i].Id, "the announced selection differs from the leader's own")
	}
	for i := range pm.PresignIds {
		verifrt.Assert(pm.PresignIds[i] == res.PresignIds[i], "the announced presigns differ from the leader's own")
	}
	if !res.Success {
		verifrt.Assert(len(pm.Pids) == 0, "a failed selection announces members")
	}
}
