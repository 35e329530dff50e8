package worker

// VerifResultOf is the mark of the instance that made a result, -1 for none.
func VerifResultOf(r *JobResult) int {
	n := -1
	k := 0
	if r.EcKeygen != nil {
		n, k = int(r.EcKeygen.ShareID.Int64())-1, k+1
	}
	if r.EcSigning != nil {
		n, k = int(r.EcSigning.OneRoundData.T)-1, k+1
	}
	if r.EdKeygen != nil {
		n, k = int(r.EdKeygen.ShareID.Int64())-1, k+1
	}
	if r.EdSigning != nil {
		n, k = int(r.EdSigning.Signature.Signature[0])-1, k+1
	}
	if k != 1 {
		return -1
	}
	return n
}
