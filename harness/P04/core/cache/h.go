package cache

import (
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifrt"
)

// VerifEarlyMessages: arbitrary interleavings of arrivals and collections for
// several works, senders and message types.
func VerifEarlyMessages() {
	c := NewMessageCache()
	var held []*common.TssMessage
	n := verifrt.Param("steps")
	filter := common.GetPreworkSelectionMsgType()
	for i := 0; i < n; i++ {
		op := verifrt.Int("op", 0, 2)
		if op == 0 {
			m := &common.TssMessage{From: verifrt.Str("from", 1), WorkId: verifrt.Str("work", 1), Type: common.TssMessage_Type(verifrt.Int("type", 0, 1))}
			c.AddMessage(m)
			held = append(held, m)
			continue
		}
		work := verifrt.Str("work", 1)
		var got []*common.TssMessage
		pop := op == 1
		filtered := false
		if pop {
			if verifrt.Bool("filtered") {
				filtered = true
				got = c.PopAllMessages(work, filter)
			} else {
				got = c.PopAllMessages(work, nil)
			}
		} else {
			got = c.GetAllMessages(work)
		}
		var want, rest []*common.TssMessage
		for _, m := range held {
			if m.WorkId == work && (!filtered || filter[m.Type]) {
				want = append(want, m)
			} else {
				rest = append(rest, m)
			}
		}
		verifCheck(got, want)
		if pop {
			held = rest
		}
	}
	verifrt.Reach("done")
}

func verifCheck(got, want []*common.TssMessage) {
	for _, w := range want {
		k := 0
		for _, g := range got {
			if g == w {
				k++
			}
		}
		verifrt.Assert(k > 0, "a waiting message was lost")
		verifrt.Assert(k == 1, "a waiting message was handed out twice")
	}
	verifrt.Assert(len(got) == len(want), "messages of another work, another type or already handed out were returned")
	for i := range want {
		for j := i + 1; j < len(want); j++ {
			if want[i].From != want[j].From {
				continue
			}
			pi, pj := -1, -1
			for k, g := range got {
				if g == want[i] {
					pi = k
				}
				if g == want[j] {
					pj = k
				}
			}
			verifrt.Assert(pi < pj, "messages of one sender were reordered")
		}
	}
}

// VerifPerSenderLimit: a sender over its limit loses only its own oldest
// messages, and the other senders lose none.
func VerifPerSenderLimit() {
	c := NewMessageCache()
	quiet := verifrt.Int("quiet", 0, 2)
	over := verifrt.Concrete(verifrt.Int("over", 0, 2))
	q := &common.TssMessage{From: "q", WorkId: "w"}
	var spam []*common.TssMessage
	for i := 0; i < 64+over; i++ {
		if (i == 0 && quiet == 0) || (i == 40 && quiet == 1) || (i == 63 && quiet == 2) {
			c.AddMessage(q)
		}
		m := &common.TssMessage{From: "s", WorkId: "w"}
		c.AddMessage(m)
		spam = append(spam, m)
	}
	got := c.PopAllMessages("w", nil)
	nq, ns := 0, 0
	for _, g := range got {
		if g == q {
			nq++
		} else {
			verifrt.Assert(ns < 64 && g == spam[over+ns], "the limit did not drop exactly the oldest messages")
			ns++
		}
	}
	verifrt.Assert(nq == 1, "a sender's flood displaced another sender's message")
	verifrt.Assert(ns == 64, "a sender under its limit lost messages")
	verifrt.Assert(len(c.PopAllMessages("w", nil)) == 0, "messages handed out twice")
	verifrt.Reach("done")
}
