package core

import (
	"math/big"
	"sync"

	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifp"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker"
	libchain "github.com/sisu-network/lib/chain"
	"github.com/sisu-network/tss-lib/crypto"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

// verifStore is a key store.
type verifStore struct {
	lock     sync.Mutex
	wait     chan struct{} // a slow store
	fails    bool
	tries    int
	stored   bool
	keyType  string
	work     string
	pids     []*tss.PartyID
	x, y     *big.Int
	reported bool
}

func (s *verifStore) save(keyType, work string, pids []*tss.PartyID, p *crypto.ECPoint) error {
	verifrt.Assert(!s.reported, "the key is reported before it is stored")
	s.lock.Lock() // writing takes time
	s.lock.Unlock()
	if s.wait != nil { // as much as everything else
		<-s.wait
	}
	s.tries++
	if s.fails {
		return verifh.ErrDB
	}
	s.stored, s.keyType, s.work, s.pids, s.x, s.y = true, keyType, work, pids, p.X(), p.Y()
	return nil
}

type verifWatch struct {
	verifSisu
	store *verifStore
}

func (w *verifWatch) PostKeygenResult(r *htypes.KeygenResult) error {
	w.store.reported = true
	verifrt.Assert(r.Outcome != htypes.OutcomeSuccess || w.store.stored, "a key is reported that is not stored")
	return w.verifSisu.PostKeygenResult(r)
}

// VerifKey: a key generation ends.
func VerifKey() {
	verifLongNames()
	verifp.List = nil
	nodes := verifNodes(2)
	st := &verifStore{fails: verifrt.Bool("store_fails")}
	db := &verifh.DB{}
	db.PreparamsF = func() (*eckeygen.LocalPreParams, error) { return &eckeygen.LocalPreParams{}, nil }
	db.EcKeygenSave = func(k, w string, p []*tss.PartyID, out *eckeygen.LocalPartySaveData) error {
		return st.save(k, w, p, out.ECDSAPub)
	}
	db.EdKeygenSave = func(k, w string, p []*tss.PartyID, out *edkeygen.LocalPartySaveData) error {
		return st.save(k, w, p, out.EDDSAPub)
	}
	h, _, _ := verifHeart(nodes, db)
	sisu := &verifWatch{store: st}
	h.client = sisu
	worker.VerifLeaderIndex = verifrt.Choice("leader", 2)
	ec := verifrt.Bool("ecdsa")
	x := new(big.Int).Lsh(big.NewInt(3), uint(8*verifrt.Choice("x", 2)*30))
	y := new(big.Int).Lsh(big.NewInt(5), uint(8*verifrt.Choice("y", 2)*30))
	x.Add(x, big.NewInt(int64(verifrt.Choice("odd", 2))))
	point := crypto.NewECPointNoCurveCheck(nil, x, y)
	verifp.EcKey = func(*verifp.Party) *eckeygen.LocalPartySaveData { return &eckeygen.LocalPartySaveData{ECDSAPub: point} }
	verifp.EdKey = func(*verifp.Party) *edkeygen.LocalPartySaveData { return &edkeygen.LocalPartySaveData{EDDSAPub: point} }
	verifRun()
	protocolFails := verifrt.Bool("protocol_fails")
	if protocolFails {
		verifp.OnStart = func(p *verifp.Party) *tss.Error { return p.Fail() }
	}
	keyType := libchain.KEY_TYPE_EDDSA
	if ec {
		keyType = libchain.KEY_TYPE_ECDSA
	}
	keys := verifKeys(nodes)
	if verifrt.Bool("other_order") {
		keys = []ctypes.PubKey{keys[1], keys[0]}
	}
	verifrt.Assert(h.Keygen("kg", keyType, keys) == nil, "a request is refused")
	verifrt.Drain(0)
	slow := verifrt.Choice("slow", 2) == 1
	if slow {
		st.wait = make(chan struct{})
	}
	verifSelect(h.engine, nodes, "kg")
	verifrt.Drain(-1)
	if slow {
		close(st.wait)
		verifrt.Drain(-1)
		verifrt.Reach("slow")
	}

	verifrt.Assert(len(sisu.keygens) == 1 && len(sisu.keysigns) == 0, "not exactly one result is reported")
	r := sisu.keygens[0]
	verifrt.Assert(r.KeyType == keyType, "a result is reported for another type of key")
	verifrt.Assert(h.engine.GetActiveWorkerCount() == 0, "the work is not over")
	if protocolFails || st.fails {
		verifrt.Assert(r.Outcome == htypes.OutcomeFailure && len(r.PubKeyBytes) == 0, "a failed key generation is not reported as such")
		if protocolFails {
			verifrt.Assert(st.tries == 0, "a key is stored that was not generated")
			verifrt.Reach("failed")
		} else {
			verifrt.Reach("not stored")
		}
		return
	}
	verifrt.Assert(r.Outcome == htypes.OutcomeSuccess, "a successful key generation is not reported as such")
	verifrt.Assert(st.keyType == keyType && st.work == "kg" && len(st.pids) == 2 && st.pids[0].Id == "p0aa" && st.pids[1].Id == "p1aa", "the key is stored under another name")
	verifrt.Assert(st.x.Cmp(x) == 0 && st.y.Cmp(y) == 0, "another key is stored")
	xb, yb := x.Bytes(), y.Bytes()
	var want []byte
	if ec {
		want = make([]byte, 65)
		want[0] = 4
		copy(want[33-len(xb):], xb)
		copy(want[65-len(yb):], yb)
		verifrt.Reach("ecdsa")
	} else {
		want = make([]byte, 32)
		for i := range yb {
			want[len(yb)-1-i] = yb[i]
		}
		if x.Bit(0) == 1 {
			want[31] |= 0x80
		}
		verifrt.Reach("eddsa")
	}
	verifrt.Assert(verifEqualBytes(r.PubKeyBytes, want), "the reported key is not the generated one")
}

func verifEqualBytes(a, b []byte) bool { return string(a) == string(b) }
