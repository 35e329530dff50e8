package worker

import (
	"math/big"

	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/tss-lib/tss"
)

type verifDigest struct {
	in  string
	out [2]byte
}

var verifDigests []verifDigest

// verifSum256 stands for SHA-256 as an arbitrary injective function: the order
// of two digests is any the solver likes.
//
//verif:stub crypto/sha256.Sum256
func verifSum256(data []byte) (out [32]byte) {
	s := string(data)
	for _, d := range verifDigests {
		if d.in == s {
			out[0], out[31] = d.out[0], d.out[1]
			return
		}
	}
	// two symbolic bytes, so that digests can agree at either end
	out[0], out[31] = verifrt.Byte("digest"), verifrt.Byte("digest")
	for _, d := range verifDigests {
		verifrt.Assume(verifrt.Or(d.out[0] != out[0], d.out[1] != out[31]))
	}
	verifDigests = append(verifDigests, verifDigest{s, [2]byte{out[0], out[31]}})
	return
}

// VerifLeader: two nodes that list the committee in different orders elect the
// same member; the election is a function of the work and the committee.
func VerifLeader() {
	n := verifrt.Concrete(verifrt.Int("n", 1, verifrt.Param("maxN")))
	work := verifrt.Str("work", 1)
	var a []*tss.PartyID
	for i := 0; i < n; i++ {
		id := verifrt.Str("id", 1)
		for _, p := range a {
			verifrt.Assume(p.Id != id)
		}
		a = append(a, tss.NewPartyID(id, "", big.NewInt(int64(i+1))))
	}
	// an arbitrary permutation
	b := make([]*tss.PartyID, n)
	var used [8]bool
	for i := 0; i < n; i++ {
		k := verifrt.Concrete(verifrt.Int("perm", 0, n-1))
		verifrt.Assume(!used[k])
		used[k] = true
		// the other node holds its own copies
		b[i] = tss.NewPartyID(a[k].Id, "", big.NewInt(int64(k+1)))
	}
	l1 := ChooseLeader(work, a)
	l2 := ChooseLeader(work, b)
	verifrt.Assert(l1 != nil && l2 != nil, "no leader")
	verifrt.Assert(l1.Id == l2.Id, "the leader depends on the order of the committee")
	in := false
	for _, p := range a {
		if p.Id == l1.Id {
			in = true
		}
	}
	verifrt.Assert(in, "the leader is not a committee member")
	// repeated elections agree and do not disturb the committee
	verifrt.Assert(ChooseLeader(work, a).Id == l1.Id, "a second election differs")
	verifrt.Reach("done")
}

// VerifLeaderRotates: whichever member it is, some digest makes it the leader,
// for every work: the election is not fixed by the position in the committee.
func VerifLeaderRotates() {
	n := verifrt.Param("n")
	var a []*tss.PartyID
	for i := 0; i < n; i++ {
		a = append(a, tss.NewPartyID(string(rune('a'+i)), "", big.NewInt(int64(i+1))))
	}
	l1 := ChooseLeader("v", a)
	l2 := ChooseLeader("w", a)
	if l1.Id == "a" && l2.Id == "b" {
		verifrt.Reach("rotates-ab")
	}
	if l1.Id == "b" && l2.Id == "a" {
		verifrt.Reach("rotates-ba")
	}
	if l1.Id == "c" && l2.Id == "c" {
		verifrt.Reach("same-c")
	}
}
