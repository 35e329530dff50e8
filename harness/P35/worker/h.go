package worker

import (
	"time"

	"github.com/sisu-network/dheart/core/cache"
	"github.com/sisu-network/dheart/core/components"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/utils"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker/types"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	"github.com/sisu-network/tss-lib/tss"
)

// verifPeer is one node with its own view of the work.
type verifPeer struct {
	name    string
	up      bool
	start   time.Duration
	sel     *PreworkSelection
	running bool
	early   []*common.TssMessage
	outs    []SelectionResult
	at      time.Duration
	owner   bool
	answers bool
}

// verifNetwork connects the nodes.
type verifNetwork struct {
	peers    []*verifPeer
	slowFrom int
	slow     time.Duration
	sent     int
}

type verifLink struct {
	n    *verifNetwork
	from int
}

func (l verifLink) send(to *verifPeer, m *common.TssMessage) {
	if !to.up {
		return
	}
	if l.from == l.n.slowFrom && l.n.slow > 0 {
		time.Sleep(l.n.slow)
	}
	verifrt.HLock()
	run := to.running
	if !run {
		to.early = append(to.early, m)
	}
	verifrt.HUnlock()
	if run {
		to.sel.ProcessNewMessage(m)
	}
}

func (l verifLink) BroadcastMessage(pids []*tss.PartyID, m *common.TssMessage) {
	for _, p := range pids {
		if p.Id != l.n.peers[l.from].name {
			l.UnicastMessage(p, m)
		}
	}
}

func (l verifLink) UnicastMessage(p *tss.PartyID, m *common.TssMessage) {
	for _, to := range l.n.peers {
		if to.name == p.Id {
			l.send(to, m)
		}
	}
}

// VerifAgree: leader and members with the default timeouts.
func VerifAgree() {
	n := verifrt.Param("n")
	lead := verifrt.Choice("leader", verifrt.Param("leaders"))
	VerifLeaderIndex = lead
	kind := verifrt.Choice("kind", 4)
	batch := 1
	threshold := utils.GetThreshold(n)
	offsets := []time.Duration{0, 5 * time.Second, 11 * time.Second, time.Second}

	net := &verifNetwork{}
	owners := -1 // who owns a presign
	if kind == 2 {
		owners = verifrt.Choice("owners", n+2) - 1
	}
	var ownerNames []string
	net.slowFrom, net.slow = verifrt.Choice("slow_node", n+1), 3*time.Second
	late := verifrt.Choice("late_node", n+1)
	for i := 0; i < n; i++ {
		p := &verifPeer{name: verifh.Names[i], up: true}
		if i != lead && verifrt.Bool("down") {
			p.up = false
		}
		if i == late || verifrt.Param("all_late") == 1 {
			p.start = offsets[1+verifrt.Choice("start", verifrt.Param("offsets"))]
		}
		if owners >= 0 && i != owners { // all but one, or all
			p.owner = true
			ownerNames = append(ownerNames, p.name)
		}
		net.peers = append(net.peers, p)
	}
	pidString := ""
	for i, o := range ownerNames {
		if i > 0 {
			pidString += ","
		}
		pidString += o
	}
	begin := time.Now()
	for i := range net.peers {
		i, p := i, net.peers[i]
		if !p.up {
			continue
		}
		ps := verifh.Parties(n)
		var req *types.WorkRequest
		switch kind {
		case 0:
			req = types.NewEcKeygenRequest("ecdsa", "w", ps, threshold, nil)
		case 1:
			req = types.NewEdKeygenRequest("w", ps, threshold)
		case 2:
			req = types.NewEcSigningRequest("w", ps, threshold, [][]byte{{1}}, []string{"c"}, nil)
		case 3:
			req = types.NewEdSigningRequest("w", ps, threshold, [][]byte{{1}}, []string{"c"}, nil)
		}
		db := &verifh.DB{}
		db.ShortForm = func() ([]string, []string, error) {
			if p.owner {
				return []string{"x-0"}, []string{pidString}, nil
			}
			return nil, nil, nil
		}
		db.MarkUsed = func([]string) error { return nil }
		db.Presign = func(ids []string) ([]*ecsigning.SignatureData_OneRoundData, error) {
			if p.owner && len(ids) == batch && ids[0] == "x-0" {
				return []*ecsigning.SignatureData_OneRoundData{{}}, nil
			}
			return nil, nil
		}
		presigns := components.NewAvailPresignManager(db)
		verifrt.Assert(presigns.Load() == nil, "presigns cannot be listed")
		p.sel = NewPreworkSelection(req, req.AllParties, ps[i], db, cache.NewMessageCache(), verifLink{net, i}, presigns,
			config.NewDefaultTimeoutConfig(), func(r SelectionResult) {
				verifrt.HLock()
				defer verifrt.HUnlock()
				p.outs = append(p.outs, r)
				p.at = time.Now().Sub(begin)
			})
		p.sel.Init()
		go func() {
			if p.start > 0 {
				time.Sleep(p.start)
			}
			verifrt.HLock()
			p.running = true
			early := p.early
			verifrt.HUnlock()
			p.sel.Run(early)
		}()
	}
	verifrt.Drain(-1)

	leader := net.peers[lead]
	up := 0
	for _, p := range net.peers {
		if p.up {
			up++
			verifrt.Assert(len(p.outs) == 1, "a node does not decide exactly once")
		}
	}
	res := leader.outs[0]
	need := threshold + 1
	if kind < 2 {
		need = n
	}
	verifrt.Assert(res.Success == (up >= need), "the leader gives up although enough nodes take part, or goes on with too few")
	if !res.Success {
		for _, p := range net.peers {
			verifrt.Assert(!p.up || !p.outs[0].Success || p.outs[0].IsNodeExcluded, "a member runs a work that the leader gave up")
		}
		verifrt.Reach("given up")
		return
	}
	in := map[string]bool{}
	for _, s := range res.SelectedPids {
		in[s.Id] = true
	}
	verifrt.Assert(len(in) == len(res.SelectedPids) && len(in) >= need, "the committee is too small")
	for _, p := range net.peers {
		if !p.up {
			verifrt.Assert(!in[p.name], "a node that is down is selected")
			continue
		}
		o := p.outs[0]
		if !in[p.name] {
			verifrt.Assert(o.IsNodeExcluded, "a node that is not selected does not get to know")
			verifrt.Reach("excluded")
			continue
		}
		verifrt.Assert(o.Success && !o.IsNodeExcluded, "a selected node does not take part")
		verifrt.Assert(len(o.SelectedPids) == len(res.SelectedPids) && len(o.PresignIds) == len(res.PresignIds), "the nodes run with different committees")
		for _, s := range o.SelectedPids {
			verifrt.Assert(in[s.Id], "the nodes run with different committees")
		}
		for i, id := range o.PresignIds {
			verifrt.Assert(id == res.PresignIds[i], "the nodes run with different presigns")
			verifrt.Assert(p.owner, "a node runs with presigns that it does not have")
			verifrt.Reach("presigns")
		}
	}
	if leader.at >= 15*time.Second+leader.start {
		verifrt.Reach("after timeout")
	}
	verifrt.Reach("agreed")
}
