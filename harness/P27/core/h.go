package core

import (
	"math/big"

	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/dheart/worker/types"
	libchain "github.com/sisu-network/lib/chain"
	tsscommon "github.com/sisu-network/tss-lib/common"
	"github.com/sisu-network/tss-lib/crypto"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
)

// verifCall is one call of Sisu.
type verifCall struct {
	kind    int // 0 keygen, 1 signing
	keyType string
	id      string
	empty   bool
	req     *htypes.KeysignRequest
	err     error
}

func (c *verifCall) bad() bool { return c.empty || c.keyType == "other" }

func (c *verifCall) same(d *verifCall) bool {
	return c.kind == d.kind && c.keyType == d.keyType && c.id == d.id && c.empty == d.empty
}

func verifCalls(n int, ids []string) []*verifCall {
	var out []*verifCall
	for i := 0; i < n; i++ {
		c := &verifCall{kind: verifrt.Choice("call", 2), keyType: libchain.KEY_TYPE_ECDSA}
		c.id = ids[verifrt.Choice("id", len(ids))]
		switch verifrt.Choice("key_type", 3) {
		case 1:
			c.keyType = libchain.KEY_TYPE_EDDSA
			c.id += "d"
		case 2:
			c.keyType = "other"
			c.id += "o"
		}
		if c.kind == 1 {
			c.id += "s"
			c.req = &htypes.KeysignRequest{KeyType: c.keyType}
			if c.keyType != "other" && verifrt.Bool("empty") {
				c.empty = true
			} else {
				c.req.KeysignMessages = []*htypes.KeysignMessage{{Id: c.id, OutChain: "c", BytesToSign: []byte{1}}}
				if i == 0 && verifrt.Choice("batch", 2) == 1 {
					c.id += "+"
					c.req.KeysignMessages = append(c.req.KeysignMessages, &htypes.KeysignMessage{Id: c.id, OutChain: "c", BytesToSign: []byte{2}})
					verifrt.Reach("batch")
				}
			}
		}
		out = append(out, c)
	}
	return out
}

type verifLife struct {
	h        *Heart
	sisu     *verifSisu
	nodes    []*Node
	ecKey    bool
	edKey    bool
	outcomes map[string][]int // of the works in the order of their ends
	kinds    map[string]types.WorkType
}

// verifNewLife: a heart whose works end in any way.
func verifNewLife(keys bool) *verifLife {
	verifLongNames()
	l := &verifLife{nodes: verifNodes(2), ecKey: true, edKey: true, outcomes: map[string][]int{}, kinds: map[string]types.WorkType{}}
	if keys {
		l.ecKey, l.edKey = verifrt.Bool("ec_key"), verifrt.Bool("ed_key")
	}
	db := &verifh.DB{}
	point := crypto.NewECPointNoCurveCheck(nil, big.NewInt(5), big.NewInt(6))
	if l.ecKey {
		db.EcKey = func(string) (*eckeygen.LocalPartySaveData, error) {
			return &eckeygen.LocalPartySaveData{ECDSAPub: point}, nil
		}
	}
	if l.edKey {
		db.EdKey = func(string) (*edkeygen.LocalPartySaveData, error) {
			return &edkeygen.LocalPartySaveData{EDDSAPub: point}, nil
		}
	}
	l.h, _, l.sisu = verifHeart(l.nodes, db)
	l.sisu.fail = keys && verifrt.Bool("sisu_down")
	verifOnStart = func(w *verifWorker) {
		n := 3
		if w.req.IsKeygen() {
			n = 2
		}
		end := verifrt.Choice("end", n)
		verifrt.HLock()
		l.outcomes[w.req.WorkId] = append(l.outcomes[w.req.WorkId], end)
		l.kinds[w.req.WorkId] = w.req.WorkType
		verifrt.HUnlock()
		go func() {
			switch end {
			case 0:
				r := &worker.JobResult{}
				sig := &tsscommon.ECSignature{R: make([]byte, 32), S: make([]byte, 32), Signature: make([]byte, 64), SignatureRecovery: []byte{0}}
				switch w.req.WorkType {
				case types.EcKeygen:
					r.EcKeygen = &eckeygen.LocalPartySaveData{ECDSAPub: point}
				case types.EdKeygen:
					r.EdKeygen = &edkeygen.LocalPartySaveData{EDDSAPub: point}
				case types.EcSigning:
					r.EcSigning = &ecsigning.SignatureData{Signature: sig}
				case types.EdSigning:
					r.EdSigning = &edsigning.SignatureData{Signature: sig}
				}
				rs := make([]*worker.JobResult, w.req.BatchSize)
				for i := range rs {
					rs[i] = r
				}
				w.cb.OnWorkerResult(w.req, &worker.WorkerResult{Success: true, JobResults: rs})
			case 1:
				w.cb.OnWorkFailed(w.req)
			case 2:
				w.cb.OnNodeNotSelected(w.req)
			}
		}()
	}
	return l
}

func (l *verifLife) do(c *verifCall) {
	if c.kind == 0 {
		c.err = l.h.Keygen(c.id, c.keyType, verifKeys(l.nodes))
	} else {
		c.err = l.h.Keysign(c.req, verifKeys(l.nodes))
	}
}

// check compares what Sisu was told with what it asked for. A request that is
// repeated while the first one is not done may share its result.
func (l *verifLife) check(calls []*verifCall, mayShare bool) {
	kgs := make([]bool, len(l.sisu.keygens))
	kss := make([]bool, len(l.sisu.keysigns))
	done := make([]bool, len(calls))
	for i, c := range calls {
		missing := c.kind == 1 && (c.keyType == libchain.KEY_TYPE_ECDSA && !l.ecKey || c.keyType == libchain.KEY_TYPE_EDDSA && !l.edKey)
		verifrt.Assert((c.err != nil) == (c.bad() || missing), "a request that cannot be done is accepted or another one is refused")
		if c.err != nil {
			verifrt.Reach("refused")
			continue
		}
		verifrt.Reach("accepted")
		if done[i] {
			continue
		}
		n := 0 // accepted requests like this
		for j, d := range calls {
			if d.err == nil && d.same(c) {
				done[j] = true
				n++
			}
		}
		got := 0
		if c.kind == 0 {
			for j, r := range l.sisu.keygens {
				// results of key generations carry the type of key only
				if r.KeyType == c.keyType {
					kgs[j] = true
					got++
				}
			}
			for j, d := range calls {
				if d.err == nil && d.kind == 0 && d.keyType == c.keyType && d.id != c.id {
					done[j] = true
					n++
				}
			}
		} else {
			for j, r := range l.sisu.keysigns {
				mine := false
				for _, d := range calls {
					mine = mine || d.same(c) && r.Request == d.req
				}
				if mine {
					kss[j] = true
					got++
				}
			}
		}
		verifrt.Assert(got >= 1 && got <= n && (mayShare || got == n), "an accepted request does not get exactly one result")
	}
	// the outcomes are those of the works
	count := map[types.WorkType]*[3]int{}
	for id, os := range l.outcomes {
		if count[l.kinds[id]] == nil {
			count[l.kinds[id]] = &[3]int{}
		}
		for _, o := range os {
			count[l.kinds[id]][o]++
		}
	}
	take := func(k types.WorkType, o htypes.OutcomeType) {
		i := int(o)
		verifrt.Assert(count[k] != nil && i < 3 && count[k][i] > 0, "a result has another outcome than its work")
		count[k][i]--
	}
	for j, r := range l.sisu.keygens {
		verifrt.Assert(kgs[j], "a result is reported that nobody asked for")
		k := types.EcKeygen
		if r.KeyType == libchain.KEY_TYPE_EDDSA {
			k = types.EdKeygen
		}
		take(k, r.Outcome)
		verifrt.Assert((len(r.PubKeyBytes) > 0) == (r.Outcome == htypes.OutcomeSuccess), "a key comes with a failure or not with a success")
	}
	for j, r := range l.sisu.keysigns {
		verifrt.Assert(kss[j], "a result is reported that nobody asked for")
		k := types.EcSigning
		if r.Request.KeyType == libchain.KEY_TYPE_EDDSA {
			k = types.EdSigning
		}
		take(k, r.Outcome)
		verifrt.Assert((len(r.Signatures) == len(r.Request.KeysignMessages)) == (r.Outcome == htypes.OutcomeSuccess) && (len(r.Signatures) > 0) == (r.Outcome == htypes.OutcomeSuccess), "signatures come with a failure or not with a success")
	}
	verifrt.Assert(l.h.engine.GetActiveWorkerCount() == 0, "a work is not over")
	verifrt.Reach("done")
}

// VerifOneAfter: requests come one after the other.
func VerifOneAfter() {
	l := verifNewLife(true)
	calls := verifCalls(verifrt.Param("ops"), []string{"a"})
	for _, c := range calls {
		l.do(c)
		verifrt.Assert(verifrt.Drain(-1) == 0, "the node is stuck")
	}
	l.check(calls, false)
}

// VerifAtOnce: requests come at the same time.
func VerifAtOnce() {
	l := verifNewLife(false)
	calls := verifCalls(verifrt.Param("ops"), []string{"a", "b"})
	for _, c := range calls {
		c := c
		go l.do(c)
	}
	verifrt.Assert(verifrt.Drain(-1) == 0, "the node is stuck")
	l.check(calls, true)
}
