package worker

import (
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifp"
	"github.com/sisu-network/dheart/verifrt"
	wTypes "github.com/sisu-network/dheart/worker/types"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

type verifWorkerCb struct{ failed, notSelected, results int }

func (c *verifWorkerCb) GetAvailablePresigns(batch, n int, all map[string]*tss.PartyID) ([]string, []*tss.PartyID) {
	return nil, nil
}
func (c *verifWorkerCb) GetPresignOutputs(ids []string) []*ecsigning.SignatureData_OneRoundData {
	return nil
}
func (c *verifWorkerCb) OnNodeNotSelected(*wTypes.WorkRequest)             { c.notSelected++ }
func (c *verifWorkerCb) OnWorkFailed(*wTypes.WorkRequest)                  { c.failed++ }
func (c *verifWorkerCb) OnWorkerResult(*wTypes.WorkRequest, *WorkerResult) { c.results++ }

// VerifEarly: protocol messages of the other member arrive at any time around
// the start of the work and the end of the committee selection.
func VerifEarly() {
	verifp.List = nil
	n := 2
	VerifLeaderIndex = 1
	pids := verifh.Parties(n)
	b := 1
	cb := &verifWorkerCb{}
	cfg := verifh.Timeouts()
	d := &verifh.Dispatcher{}
	var w Worker
	switch verifrt.Choice("kind", verifrt.Param("kinds")) {
	case 0:
		req := wTypes.NewEdKeygenRequest("w", verifh.Clone(pids), n-1)
		w = NewKeygenWorker(req, pids[0], d, &verifh.DB{}, cb, cfg)
	case 1:
		b = 2
		req := wTypes.NewEdSigningRequest("w", verifh.Clone(pids), n-1, [][]byte{{1}, {2}}, []string{"a", "a"}, &edkeygen.LocalPartySaveData{})
		w = NewSigningWorker(req, pids[0], d, &verifh.DB{}, cb, cfg, 4, &verifh.Presigns{})
	case 2:
		req := wTypes.NewEcSigningRequest("w", verifh.Clone(pids), n-1, [][]byte{{1}}, []string{"a"}, &eckeygen.LocalPartySaveData{})
		w = NewSigningWorker(req, pids[0], d, &verifh.DB{}, cb, cfg, 4, &verifh.Presigns{})
	case 3:
		req := wTypes.NewEcKeygenRequest("ecdsa", "w", verifh.Clone(pids), n-1, &eckeygen.LocalPreParams{})
		w = NewKeygenWorker(req, pids[0], d, &verifh.DB{}, cb, cfg)
	}
	M := verifrt.Param("msgs")
	kinds := verifp.Kinds(&verifp.Party{Kind: wTypes.EdKeygen})
	verifp.WireKinds = kinds
	var msgs []*common.TssMessage
	for k := 0; k < M; k++ {
		ms := make([]tss.Message, b)
		for i := range ms {
			ms[i] = &verifp.Wire{K: kinds[k], ID: byte(k), From: pids[1], Bcast: !kinds[k].P2P, Payload: []byte{byte(i)}}
			if kinds[k].P2P {
				ms[i].(*verifp.Wire).To = []*tss.PartyID{pids[0]}
			}
		}
		to := ""
		if kinds[k].P2P {
			to = "p0"
			verifrt.Reach("direct")
		}
		m, err := common.NewTssMessage("p1", to, "w", ms, kinds[k].Name())
		verifrt.Assert(err == nil, "no message")
		msgs = append(msgs, m)
	}
	out := common.NewPreExecOutputMessage("p1", "", "w", true, nil, pids)

	before := verifrt.Concrete(verifrt.Int("before_start", 0, M)) // these wait in the engine
	outEarly := verifrt.Bool("outcome_before_start")
	cache := append([]*common.TssMessage{}, msgs[:before]...)
	if outEarly {
		cache = append(cache, out)
	}
	rest := msgs[before:]
	go func() {
		for _, m := range rest {
			if err := w.ProcessNewMessage(m); err != nil {
				verifrt.Assert(false, "a protocol message is refused")
			}
		}
	}()
	if !outEarly {
		go func() { w.ProcessNewMessage(out) }()
	}
	if verifrt.Bool("late_start") {
		verifrt.Drain(0)
	}
	w.Start(cache)
	verifrt.Drain(0)
	verifrt.Assert(cb.failed == 0 && cb.notSelected == 0, "the work does not run")
	verifrt.Assert(len(verifp.List) == b, "the work does not run")
	for i, p := range verifp.List {
		verifrt.Assert(len(p.Got) >= M, "a protocol message that came early is lost")
		verifrt.Assert(len(p.Got) == M, "a protocol message is processed twice")
		seen := make([]bool, M)
		for _, g := range p.Got {
			verifrt.Assert(!seen[g.ID], "a protocol message is processed twice")
			seen[g.ID] = true
			verifrt.Assert(g.From.Id == "p1" && len(g.Payload) == 1 && int(g.Payload[0]) == i, "a protocol message reaches another instance")
		}
	}
	verifrt.Reach("done")
}
