package worker

// VerifLeaderIndex is the committee position the stand-in digest elects.
var VerifLeaderIndex int

// verifSum256 stands for SHA-256 in the leader election: it makes the member
// "p<VerifLeaderIndex>" the leader of every work.
//
//verif:stub crypto/sha256.Sum256
func verifSum256(data []byte) (out [32]byte) {
	if len(data) > 1 {
		out[0] = (data[1] - '0' + 8 - byte(VerifLeaderIndex)) & 7
	}
	return
}
