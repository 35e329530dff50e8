package core

import (
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker/types"
)

// verifRank: key generations go before signings.
func verifRank(w *types.WorkRequest) int {
	if w.WorkType == types.EcKeygen || w.WorkType == types.EdKeygen {
		return 1
	}
	return 0
}

// VerifQueueHistory: an arbitrary history of submissions and removals, against
// a reference of the accepted requests in submission order.
func VerifQueueHistory() {
	q := NewRequestQueue()
	steps := verifrt.Param("steps")
	var pending []*types.WorkRequest
	for i := 0; i < steps; i++ {
		if verifrt.Bool("pop") {
			w := q.Pop()
			if len(pending) == 0 {
				verifrt.Assert(w == nil, "empty queue returned a request")
				continue
			}
			best := 0
			for j := range pending {
				if verifRank(pending[j]) > verifRank(pending[best]) {
					best = j
				}
			}
			verifrt.Assert(w == pending[best], "popped request is not the oldest of the highest priority")
			var rest []*types.WorkRequest
			for j := range pending {
				if j != best {
					rest = append(rest, pending[j])
				}
			}
			pending = rest
			continue
		}
		id := verifrt.Str("id", 1)
		wt := verifrt.Int("type", 1, 4)
		dup := false
		for _, p := range pending {
			if p.WorkId == id {
				dup = true
			}
		}
		w := &types.WorkRequest{WorkId: id, WorkType: types.WorkType(wt)}
		ok := q.AddWork(w)
		verifrt.Assert(ok == !dup, "submission accepted/refused wrongly")
		if ok {
			pending = append(pending, w)
		}
		verifrt.Assert(q.Size() == len(pending), "queue size differs from the number of accepted requests")
	}
	verifrt.Reach("done")
}
