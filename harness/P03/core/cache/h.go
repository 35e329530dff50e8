package cache

import (
	"math/big"

	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/tss-lib/tss"
)

// VerifWorkMessageCache: arbitrary messages from arbitrary senders; each
// sender's latest messages stay retrievable under (sender, key), five times as
// many for this node, and no sender displaces another one's.
func VerifWorkMessageCache() {
	size := verifrt.Param("size")
	c := NewWorkMessageCache(size, tss.NewPartyID("m", "", big.NewInt(1)))
	type rec struct {
		from, key string
		msg       *common.SignedMessage
	}
	var log []rec
	n := verifrt.Param("adds")
	for i := 0; i < n; i++ {
		from := verifrt.Str("from", 1)
		key := verifrt.Str("key", 1)
		m := &common.SignedMessage{From: from}
		c.Add(key, m)
		log = append(log, rec{from, key, m})
	}
	from := verifrt.Str("qfrom", 1)
	key := verifrt.Str("qkey", 1)
	limit := size
	if from == "m" {
		limit = size * 5
	}
	seen := 0
	var want *common.SignedMessage
	for i := len(log) - 1; i >= 0 && want == nil; i-- {
		if log[i].from != from {
			continue
		}
		if seen < limit && log[i].key == key {
			want = log[i].msg
		}
		seen++
	}
	got := c.Get(from, key)
	if want == nil {
		verifrt.Assert(got == nil, "a message that was displaced or never stored is returned")
	} else {
		verifrt.Assert(got == want, "a recent message is not retrievable")
	}
	verifrt.Reach("done")
}

// VerifOwnMessages: this node's own messages: exactly the last 5*size stay.
func VerifOwnMessages() {
	c := NewWorkMessageCache(1, tss.NewPartyID("m", "", big.NewInt(1)))
	n := 7
	keys := []string{"a", "b", "c", "d", "e", "f", "g"}
	noise := verifrt.Int("noise", 0, n-1)
	var msgs []*common.SignedMessage
	for i := 0; i < n; i++ {
		m := &common.SignedMessage{From: "m"}
		msgs = append(msgs, m)
		c.Add(keys[i], m)
		if i == noise {
			other := verifrt.Str("other", 1)
			verifrt.Assume(other != "m")
			c.Add(verifrt.Str("okey", 1), &common.SignedMessage{From: other})
		}
	}
	for i := 0; i < n; i++ {
		got := c.Get("m", keys[i])
		if i < n-5 {
			verifrt.Assert(got == nil, "own message kept beyond the limit")
		} else {
			verifrt.Assert(got == msgs[i], "own recent message lost")
		}
	}
	verifrt.Reach("done")
}
