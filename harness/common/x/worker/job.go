package worker

// VerifJobAt is the job at a position of a batch.
func VerifJobAt(i int) *Job { return &Job{index: i} }
