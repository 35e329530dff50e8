package core

import (
	"github.com/sisu-network/dheart/core/components"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/dheart/worker/interfaces"
	"github.com/sisu-network/dheart/worker/types"
	"github.com/sisu-network/tss-lib/tss"
)

func init() { verifReset = func() { verifWorkers, verifOnStart = nil, nil } }

// verifWorker stands for a worker: it records what it is given; the harness
// decides when it ends.
type verifWorker struct {
	req     *types.WorkRequest
	cb      worker.WorkerCallback
	started int
	got     []*common.TssMessage
	ended   bool
}

var (
	verifWorkers []*verifWorker
	// verifOnStart runs when a worker starts.
	verifOnStart func(w *verifWorker)
)

func verifNewWorker(req *types.WorkRequest, cb worker.WorkerCallback) worker.Worker {
	w := &verifWorker{req: req, cb: cb}
	verifrt.HLock()
	verifWorkers = append(verifWorkers, w)
	verifrt.HUnlock()
	return w
}

//verif:stub github.com/sisu-network/dheart/worker.NewKeygenWorker
func verifKeygenWorker(req *types.WorkRequest, me *tss.PartyID, d interfaces.MessageDispatcher, db db.Database, cb worker.WorkerCallback, cfg config.TimeoutConfig) worker.Worker {
	return verifNewWorker(req, cb)
}

//verif:stub github.com/sisu-network/dheart/worker.NewSigningWorker
func verifSigningWorker(req *types.WorkRequest, me *tss.PartyID, d interfaces.MessageDispatcher, db db.Database, cb worker.WorkerCallback, cfg config.TimeoutConfig, max int, ps components.AvailablePresigns) worker.Worker {
	return verifNewWorker(req, cb)
}

func (w *verifWorker) Start(cached []*common.TssMessage) error {
	verifrt.HLock()
	w.started++
	w.got = append(w.got, cached...)
	verifrt.HUnlock()
	if verifOnStart != nil {
		verifOnStart(w)
	}
	return nil
}
func (w *verifWorker) GetPartyId() string { return w.req.WorkId }
func (w *verifWorker) ProcessNewMessage(m *common.TssMessage) error {
	verifrt.HLock()
	w.got = append(w.got, m)
	verifrt.HUnlock()
	return nil
}
func (w *verifWorker) GetCulprits() []*tss.PartyID { return nil }
func (w *verifWorker) Stop()                       {}

