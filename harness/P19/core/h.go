package core

import (
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifrt"
)

// VerifPool: works are requested and end at any time, also at once; some twice.
func VerifPool() {
	nodes := verifNodes(2)
	cb := &verifEngCb{}
	e, _ := verifEngine(nodes, &verifh.DB{}, cb)
	k := verifrt.Param("works")
	running, max := 0, 0
	verifOnStart = func(w *verifWorker) {
		verifrt.HLock()
		running++
		if running > max {
			max = running
		}
		verifrt.HUnlock()
	}
	end := func(w *verifWorker) {
		verifrt.HLock()
		running--
		w.ended = true
		verifrt.HUnlock()
		if verifrt.Param("not_selected") > 0 && w.req.WorkId == "w0" {
			w.cb.OnNodeNotSelected(w.req)
		} else {
			w.cb.OnWorkFailed(w.req)
		}
	}
	ids := []string{"w0", "w1", "w2", "w3", "w4"}
	kind := func(i int) int { return i % 2 }
	first := verifrt.Concrete(verifrt.Int("first", 0, k)) // requested one after the other
	for i := 0; i < first; i++ {
		verifrt.Assert(e.AddRequest(verifRequest(nodes, kind(i), ids[i])) == nil, "a request is refused")
	}
	dup := -1
	if verifrt.Bool("again") {
		dup = verifrt.Concrete(verifrt.Int("again_work", 0, k-1))
	}
	// the rest at once, together with the end of a running work
	for i := first; i < k; i++ {
		i := i
		go func() { e.AddRequest(verifRequest(nodes, kind(i), ids[i])) }()
	}
	if dup >= 0 {
		go func() { e.AddRequest(verifRequest(nodes, kind(dup), ids[dup])) }()
	}
	var early *verifWorker
	if len(verifWorkers) > 0 && verifrt.Bool("end_early") {
		early = verifWorkers[verifrt.Concrete(verifrt.Int("which", 0, len(verifWorkers)-1))]
		if dup >= 0 && early.req.WorkId == ids[dup] {
			verifrt.Stop() // then it may run again
		}
		go end(early)
	}
	verifrt.Drain(0)
	check := func() {
		verifrt.Assert(max <= MaxWorker, "more works run at once than allowed")
		n := 0
		for _, w := range verifWorkers {
			if w.started > 0 && !w.ended {
				n++
			}
		}
		verifrt.Assert(e.GetActiveWorkerCount() == n, "the number of active works is wrong")
	}
	check()
	for step := 0; step < 2*k; step++ {
		var next *verifWorker
		for _, w := range verifWorkers {
			if !w.ended && (dup < 0 || w.req.WorkId != ids[dup]) {
				next = w
				break
			}
		}
		if next == nil {
			for _, w := range verifWorkers {
				if !w.ended {
					next = w
				}
			}
		}
		if next == nil {
			break
		}
		end(next)
		verifrt.Drain(0)
		check()
	}
	for i := 0; i < k; i++ {
		n := 0
		for _, w := range verifWorkers {
			if w.req.WorkId == ids[i] {
				n += w.started
			}
		}
		verifrt.Assert(n > 0, "a requested work never runs")
		verifrt.Assert(n == 1, "a requested work runs twice")
	}
	verifrt.Reach("done")
}
