package worker

import (
	"time"

	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifp"
	"github.com/sisu-network/dheart/verifrt"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

type verifJobCb struct {
	sent    []*verifp.Wire
	results []JobResult
	slow    int // the message whose delivery takes long
	begun   int
}

func (c *verifJobCb) OnJobMessage(job *Job, m tss.Message) {
	verifrt.HLock()
	i := c.begun
	c.begun++
	verifrt.HUnlock()
	if i == c.slow {
		time.Sleep(time.Second)
	}
	verifrt.HLock()
	c.sent = append(c.sent, m.(*verifp.Wire))
	verifrt.HUnlock()
}

func (c *verifJobCb) OnJobResult(job *Job, r JobResult) {
	verifrt.HLock()
	c.results = append(c.results, r)
	verifrt.HUnlock()
}

func verifJob(n int, cb *verifJobCb) (*Job, *verifp.Party) {
	verifp.List = nil
	pids := verifh.Parties(n)
	params := tss.NewParameters(tss.NewPeerContext(pids), pids[0], n, n-1)
	var j *Job
	const T = 100 * time.Second
	switch verifrt.Choice("kind", verifrt.Param("kinds")) {
	case 0:
		j = NewEdKeygenJob("w", 0, pids, params, cb, T)
	case 1:
		j = NewEdSigningJob("w", 0, pids, params, []byte("m"), edkeygen.LocalPartySaveData{}, cb, T)
	case 2:
		j = NewEcSigningJob("w", 0, pids, params, []byte("m"), eckeygen.LocalPartySaveData{}, &ecsigning.SignatureData_OneRoundData{}, cb, T, "eth")
	case 3:
		j = NewEcKeygenJob("w", 0, pids, params, &eckeygen.LocalPreParams{}, cb, T)
	case 4:
		j = NewEcSigningJob("w", 0, pids, params, nil, eckeygen.LocalPartySaveData{}, nil, cb, T, "eth")
	case 5:
		j = NewEcSigningJob("w", 0, pids, params, []byte("m"), eckeygen.LocalPartySaveData{}, nil, cb, T, "eth")
	}
	return j, verifp.List[0]
}

// VerifJob: an instance sends its messages and its result; a delivery may take
// long; the instance may stall for good at any point.
func VerifJob() {
	n := verifrt.Param("n")
	cb := &verifJobCb{slow: -1}
	j, p := verifJob(n, cb)
	total := len(verifp.Kinds(p))
	steps := total // messages kinds sent before a stall; total+1: also the result
	if verifrt.Bool("stall") {
		steps = verifrt.Concrete(verifrt.Int("steps", 0, total))
	} else {
		steps = total + 1
	}
	if verifrt.Bool("slow") {
		cb.slow = verifrt.Concrete(verifrt.Int("slow_message", 0, verifrt.Param("slow")))
	}
	started := make(chan bool)
	go func() {
		<-started
		for k := 0; k < total && k < steps; k++ {
			p.Send(k, func(to string) []byte { return []byte(to) })
		}
		if steps > total {
			p.End()
		}
	}()
	if verifrt.Bool("fails") {
		verifp.OnStart = func(*verifp.Party) *tss.Error { return p.Fail() }
		err := j.Start()
		verifrt.Assert(err != nil, "an instance that cannot start is reported as started")
		verifrt.Reach("start error")
		return
	}
	verifrt.Assert(j.Start() == nil, "the job does not start")
	close(started)
	verifrt.Drain(-1)
	i := 0
	for k := 0; k < total && k < steps; k++ {
		kind := verifp.Kinds(p)[k]
		peers := []string{""}
		if kind.P2P {
			peers = nil
			for _, q := range p.Params.Parties().IDs() {
				if q.Id != p.Me.Id {
					peers = append(peers, q.Id)
				}
			}
		}
		for _, to := range peers {
			verifrt.Assert(i < len(cb.sent), "a message of the protocol is not delivered")
			verifrt.Assert(int(cb.sent[i].ID) == k && string(cb.sent[i].Payload) == to, "messages of the protocol are mixed up")
			i++
		}
	}
	verifrt.Assert(len(cb.sent) == i, "a message is delivered twice")
	verifrt.Assert(len(cb.results) == 1, "a job does not end with exactly one result")
	r := cb.results[0]
	if steps > total {
		verifrt.Assert(r.Success && VerifResultOf(&r) == 0, "the result is not the one of the protocol")
		verifrt.Reach("done")
	} else {
		verifrt.Assert(!r.Success && r.Failure == JobFailureTimeout, "a stalled job is not reported as failed")
		verifrt.Reach("stalled")
	}
}
