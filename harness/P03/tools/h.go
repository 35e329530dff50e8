package tools

import "github.com/sisu-network/dheart/verifrt"

// VerifCircularQueue: after every history of additions (keys symbolic, so any
// pattern of repeated keys), each key added within the last `size` additions
// yields its latest item and every other key yields nothing.
func VerifCircularQueue() {
	size := verifrt.Concrete(verifrt.Int("size", 1, verifrt.Param("maxSize")))
	q := NewCircularQueue(size)
	n := verifrt.Param("adds")
	var keys []string
	for i := 0; i < n; i++ {
		k := verifrt.Str("key", 1)
		keys = append(keys, k)
		q.Add(k, i)
		probe := verifrt.Str("probe", 1)
		want := -1
		for j := 0; j < len(keys); j++ {
			if j+size >= len(keys) && keys[j] == probe {
				want = j
			}
		}
		got := q.Get(probe)
		if want < 0 {
			verifrt.Assert(got == nil, "an entry older than the queue size is still returned")
			continue
		}
		verifrt.Assert(got != nil, "an entry among the latest additions was lost")
		verifrt.Assert(got.(int) == want, "lookup returned an outdated item")
	}
	verifrt.Reach("done")
}

// VerifCircularQueueSize: a queue needs a positive size.
func VerifCircularQueueSize() {
	n := verifrt.Int("n", -3, 0)
	verifrt.Assert(NewCircularQueue(n) == nil, "queue of no capacity accepted")
	verifrt.Reach("done")
}
