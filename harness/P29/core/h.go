package core

import (
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/utils"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker/types"
	libchain "github.com/sisu-network/lib/chain"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
)

// verifPerm is any order of n things.
func verifPerm(n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var out []int
	for len(rest) > 0 {
		k := verifrt.Choice("order", len(rest))
		out = append(out, rest[k])
		rest = append(append([]int{}, rest[:k]...), rest[k+1:]...)
	}
	return out
}

func verifKeyDB() *verifh.DB {
	db := &verifh.DB{}
	db.EcKey = func(string) (*eckeygen.LocalPartySaveData, error) { return &eckeygen.LocalPartySaveData{}, nil }
	db.EdKey = func(string) (*edkeygen.LocalPartySaveData, error) { return &edkeygen.LocalPartySaveData{}, nil }
	return db
}

// VerifSame: two nodes get the same request, with the committee in any order.
func VerifSame() {
	n := 2 + verifrt.Choice("nodes", 3)
	keyType := libchain.KEY_TYPE_ECDSA
	if verifrt.Bool("eddsa") {
		keyType = libchain.KEY_TYPE_EDDSA
	}
	signing := verifrt.Bool("signing")
	req := &htypes.KeysignRequest{KeyType: keyType}
	batch := 1 + verifrt.Choice("batch", 2)
	for i := 0; i < batch; i++ {
		req.KeysignMessages = append(req.KeysignMessages, &htypes.KeysignMessage{Id: verifh.Names[i], OutChain: verifh.Names[i+1], BytesToSign: verifrt.Bytes("msg", 2)})
	}
	var reqs []*types.WorkRequest
	for k := 0; k < 2; k++ {
		nodes := verifNodes(n)
		h, _, _ := verifHeart(nodes, verifKeyDB())
		var keys []ctypes.PubKey
		if k == 0 {
			keys = verifKeys(nodes)
		} else {
			for _, i := range verifPerm(n) {
				keys = append(keys, nodes[i].PubKey)
			}
		}
		if signing {
			verifrt.Assert(h.Keysign(req, keys) == nil, "a request is refused")
		} else {
			verifrt.Assert(h.Keygen("kg", keyType, keys) == nil, "a request is refused")
		}
		verifrt.Assert(len(verifWorkers) == 1, "a request is not worked on")
		reqs = append(reqs, verifWorkers[0].req)
	}
	a, b := reqs[0], reqs[1]
	verifrt.Assert(a.WorkId == b.WorkId && a.WorkId != "" && a.WorkType == b.WorkType && a.BatchSize == b.BatchSize && a.KeygenType == b.KeygenType, "nodes derive different works")
	verifrt.Assert(a.N == b.N && a.N == n && a.Threshold == b.Threshold && a.Threshold == utils.GetThreshold(n), "nodes derive different committee sizes")
	verifrt.Assert(len(a.AllParties) == n && len(b.AllParties) == n, "nodes derive different committees")
	for i := range a.AllParties {
		p, q := a.AllParties[i], b.AllParties[i]
		verifrt.Assert(p.Id == q.Id && p.Index == q.Index && p.Index == i && p.KeyInt().Cmp(q.KeyInt()) == 0, "nodes derive different committees")
	}
	if !signing {
		verifrt.Assert(a.WorkId == "kg", "a key generation runs under another name")
		want := types.EcKeygen
		if keyType == libchain.KEY_TYPE_EDDSA {
			want = types.EdKeygen
		}
		verifrt.Assert(a.WorkType == want && a.KeygenType == keyType && a.BatchSize == 1, "another kind of key is generated")
		verifrt.Reach("keygen")
		return
	}
	want := types.EcSigning
	if keyType == libchain.KEY_TYPE_EDDSA {
		want = types.EdSigning
	}
	verifrt.Assert(a.WorkType == want, "another kind of signature is made")
	for _, r := range reqs {
		verifrt.Assert(r.BatchSize == batch && len(r.Messages) == batch && len(r.Chains) == batch, "messages are lost")
		for i, m := range req.KeysignMessages {
			verifrt.Assert(len(r.Messages[i]) == 2 && verifrt.And(r.Messages[i][0] == m.BytesToSign[0], r.Messages[i][1] == m.BytesToSign[1]) && r.Chains[i] == m.OutChain, "another message is signed")
		}
	}
	verifrt.Reach("signing")
}

// VerifDistinct: requests for different lists of messages are different works.
func VerifDistinct() {
	var ids []string
	var lists [][]string
	for k := 0; k < 2; k++ {
		nodes := verifNodes(2)
		h, _, _ := verifHeart(nodes, verifKeyDB())
		req := &htypes.KeysignRequest{KeyType: libchain.KEY_TYPE_ECDSA}
		var l []string
		for i, n := 0, 1+verifrt.Choice("batch", 3); i < n; i++ {
			id := []string{"a", "b", "ab"}[verifrt.Choice("id", 3)]
			l = append(l, id)
			req.KeysignMessages = append(req.KeysignMessages, &htypes.KeysignMessage{Id: id, OutChain: "c", BytesToSign: []byte{byte(k)}})
		}
		verifrt.Assert(h.Keysign(req, verifKeys(nodes)) == nil, "a request is refused")
		lists = append(lists, l)
		ids = append(ids, verifWorkers[0].req.WorkId)
	}
	same := verifSameStrings(lists[0], lists[1])
	verifrt.Assert((ids[0] == ids[1]) == same, "works are mixed up or split")
	if same {
		verifrt.Reach("same")
	} else {
		verifrt.Reach("distinct")
	}
}

type verifOddKey struct{ ctypes.PubKey }

func (verifOddKey) Type() string { return "odd" }

// VerifCommittee: a committee with keys that are no keys is refused.
func VerifCommittee() {
	nodes := verifNodes(3)
	h, _, _ := verifHeart(nodes, verifKeyDB())
	n := verifrt.Choice("n", 4)
	bad := n == 0
	var keys []ctypes.PubKey
	for i := 0; i < n; i++ {
		switch verifrt.Choice("key", 3) {
		case 0:
			keys = append(keys, nodes[i].PubKey)
		case 1:
			keys = append(keys, nil)
			bad = true
		case 2:
			keys = append(keys, verifOddKey{})
			bad = true
		}
	}
	var err error
	if verifrt.Bool("signing") {
		req := &htypes.KeysignRequest{KeyType: libchain.KEY_TYPE_ECDSA, KeysignMessages: []*htypes.KeysignMessage{{Id: "m", OutChain: "c", BytesToSign: []byte{1}}}}
		switch verifrt.Choice("odd", 3) {
		case 1:
			req = nil
			bad = true
		case 2:
			req.KeysignMessages = append(req.KeysignMessages, nil)
			bad = true
		}
		err = h.Keysign(req, keys)
	} else {
		err = h.Keygen("kg", libchain.KEY_TYPE_ECDSA, keys)
	}
	verifrt.Assert((err != nil) == bad, "an invalid request is accepted or a valid one refused")
	if bad {
		verifrt.Assert(len(verifWorkers) == 0, "an invalid request is worked on")
		// the node is still usable
		verifrt.Assert(h.Keygen("kg2", libchain.KEY_TYPE_ECDSA, verifKeys(nodes)) == nil && len(verifWorkers) == 1, "the node does not take requests any more")
		verifrt.Reach("refused")
	} else {
		verifrt.Reach("accepted")
	}
}
