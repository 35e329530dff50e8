package worker

import (
	"time"

	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifp"
	"github.com/sisu-network/dheart/verifrt"
	wTypes "github.com/sisu-network/dheart/worker/types"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

// VerifResult: the instances of a batch end well, stall or cannot start;
// messages from others may be refused by the protocol; inputs may be missing.
func VerifResult() {
	verifp.List = nil
	n, b := verifrt.Param("n"), 1
	pids := verifh.Parties(n)
	db := &verifh.DB{}
	var req *wTypes.WorkRequest
	var pre []*ecsigning.SignatureData_OneRoundData
	missing := false
	kind := verifrt.Choice("kind", 4)
	if kind > 1 {
		b = verifrt.Concrete(verifrt.Int("batch", 1, verifrt.Param("batch")))
	}
	var msgs [][]byte
	var chains []string
	for i := 0; i < b; i++ {
		msgs, chains = append(msgs, []byte{byte('a' + i)}), append(chains, "eth")
	}
	switch kind {
	case 0:
		req = wTypes.NewEdKeygenRequest("w", verifh.Clone(pids), n-1)
	case 1:
		req = wTypes.NewEcKeygenRequest("ecdsa", "w", verifh.Clone(pids), n-1, nil)
		switch verifrt.Choice("preparams", 3) {
		case 0:
			req.EcKeygenInput = &eckeygen.LocalPreParams{}
		case 1:
			db.PreparamsF = func() (*eckeygen.LocalPreParams, error) { return &eckeygen.LocalPreParams{}, nil }
		case 2:
			missing = true
		}
	case 2:
		req = wTypes.NewEcSigningRequest("w", verifh.Clone(pids), n-1, msgs, chains, &eckeygen.LocalPartySaveData{})
		have := verifrt.Concrete(verifrt.Int("presigns", 0, b))
		pre = []*ecsigning.SignatureData_OneRoundData{}
		for i := 0; i < have; i++ {
			pre = append(pre, &ecsigning.SignatureData_OneRoundData{T: int32(i)})
		}
		missing = have < b
		if !missing && verifrt.Bool("no_key") {
			req.EcSigningInput, missing = nil, true
		}
	case 3:
		req = wTypes.NewEdSigningRequest("w", verifh.Clone(pids), n-1, msgs, chains, &edkeygen.LocalPartySaveData{})
		if verifrt.Bool("no_key") {
			req.EdSigningInput, missing = nil, true
		}
	}
	var results []ExecutionResult
	ex := NewWorkerExecutor(req, req.WorkType, pids[0], pids, &verifh.Dispatcher{}, db, pre,
		func(_ *WorkerExecutor, r ExecutionResult) {
			verifrt.HLock()
			results = append(results, r)
			verifrt.HUnlock()
		}, verifh.Timeouts())
	const (
		well = iota
		stalls
		noStart
	)
	how := make([]int, b)
	allWell := true
	if !missing {
		for i := range how {
			how[i] = verifrt.Choice("how", 3)
			allWell = allWell && how[i] == well
		}
	}
	refused := !missing && allWell && verifrt.Bool("refused")
	slow := b
	if !missing && !refused && b > 1 {
		slow = verifrt.Choice("slow", b+1) // takes longer than the others
	}
	verifp.OnStart = func(p *verifp.Party) *tss.Error {
		if how[p.N] == noStart {
			return p.Fail()
		}
		if p.Presign != nil {
			verifrt.Assert(int(p.Presign.T) == p.N, "an instance gets the presign data of another message")
		}
		if how[p.N] == well {
			go func() {
				if refused && p.N == b-1 {
					time.Sleep(5 * time.Second)
				}
				if p.N == slow {
					time.Sleep(3 * time.Second)
				}
				for k := range verifp.Kinds(p) {
					p.Send(k, func(string) []byte { return nil })
				}
				p.End()
			}()
		}
		return nil
	}
	verifp.OnUpdate = func(p *verifp.Party, m *verifp.Wire) *tss.Error {
		if len(m.Payload) > 0 {
			return p.Fail()
		}
		return nil
	}
	ex.Init()
	go ex.Run(nil)
	bad := func() {
		ms := make([]tss.Message, b)
		for i := range ms {
			ms[i] = &verifp.Wire{K: verifp.Kinds(verifp.List[0])[0], From: pids[1], Bcast: true}
		}
		ms[0].(*verifp.Wire).Payload = []byte{1}
		verifp.WireKinds = verifp.Kinds(verifp.List[0])
		m, err := common.NewTssMessage(pids[1].Id, "", "w", ms, ms[0].Type())
		verifrt.Assert(err == nil, "no message")
		ex.ProcessUpdateMessage(m)
	}
	if refused {
		time.Sleep(2 * time.Second)
		bad()
	}
	verifrt.Drain(-1)
	verifrt.Assert(len(results) == 1, "the execution does not end with exactly one outcome")
	ok := allWell && !missing && !refused
	r := results[0]
	verifrt.Assert(r.Success == ok, "the execution reports the wrong outcome")
	if !ok {
		verifrt.Reach("failed")
	} else {
		verifrt.Assert(len(r.JobResults) == b, "results of the batch are missing")
		for i, j := range r.JobResults {
			verifrt.Assert(j != nil && VerifResultOf(j) == i, "results of the batch are mixed up")
		}
		verifrt.Reach("done")
	}
	if len(verifp.List) == b {
		bad() // late
		verifrt.Drain(-1)
		verifrt.Assert(len(results) == 1, "the execution ends twice")
	}
}
