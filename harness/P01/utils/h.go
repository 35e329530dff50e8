package utils

import "github.com/sisu-network/dheart/verifrt"

// VerifThreshold: for every committee size n, t+1 = ceil(2n/3) and 1 <= t+1 <= n.
func VerifThreshold() {
	n := verifrt.Int("n", 1, verifrt.Param("maxN"))
	t := GetThreshold(n)
	q := t + 1
	verifrt.Assert(q >= 1, "quorum below one")
	verifrt.Assert(q <= n, "quorum larger than the committee")
	verifrt.Assert(3*q >= 2*n, "quorum below two thirds")
	verifrt.Assert(3*(q-1) < 2*n, "quorum not the smallest two-thirds majority")
	verifrt.Reach("done")
}
