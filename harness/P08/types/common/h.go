package common

import (
	"math/big"

	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/tss-lib/tss"
)

// VerifEnvelopes: every constructor carries its arguments into the message.
func VerifEnvelopes() {
	from, to, work := verifrt.Str("from", 2), verifrt.Str("to", 2), verifrt.Str("work", 2)
	hdr := func(m *TssMessage, t TssMessage_Type) {
		verifrt.Assert(m.Type == t, "wrong kind of message")
		verifrt.Assert(verifrt.And(m.From == from, m.To == to), "sender or destination changed")
		verifrt.Assert(m.WorkId == work, "work changed")
	}
	hdr(NewAvailabilityRequestMessage(from, to, work), TssMessage_AVAILABILITY_REQUEST)

	ans := verifrt.Int("answer", 0, 1)
	jobs := verifrt.Int("jobs", 0, 1<<20)
	m := NewAvailabilityResponseMessage(from, to, work, AvailabilityResponseMessage_ANSWER(ans), jobs)
	hdr(m, TssMessage_AVAILABILITY_RESPONSE)
	verifrt.Assert(m.AvailabilityResponseMessage != nil, "response without body")
	verifrt.Assert(int(m.AvailabilityResponseMessage.Answer) == ans, "the availability answer is not the one given")
	verifrt.Assert(int(m.AvailabilityResponseMessage.MaxJob) == jobs, "the number of jobs changed")

	key := verifrt.Str("key", 3)
	m = NewRequestMessage(from, to, work, key)
	hdr(m, TssMessage_ASK_MESSAGE_REQUEST)
	verifrt.Assert(m.AskRequestMessage != nil && m.AskRequestMessage.MsgKey == key, "the asked key changed")

	ok := verifrt.Bool("success")
	n := verifrt.Concrete(verifrt.Int("pids", 0, 3))
	k := verifrt.Concrete(verifrt.Int("presigns", 0, 2))
	var pids []*tss.PartyID
	for i := 0; i < n; i++ {
		pids = append(pids, tss.NewPartyID(verifrt.Str("pid", 2), "", big.NewInt(1)))
	}
	var ps []string
	for i := 0; i < k; i++ {
		ps = append(ps, verifrt.Str("presign", 2))
	}
	m = NewPreExecOutputMessage(from, to, work, ok, ps, pids)
	hdr(m, TssMessage_PRE_EXEC_OUTPUT)
	o := m.PreExecOutputMessage
	verifrt.Assert(o != nil && o.Success == ok, "the outcome changed")
	verifrt.Assert(len(o.Pids) == n && len(o.PresignIds) == k, "participants or presigns lost")
	for i := range pids {
		verifrt.Assert(o.Pids[i] == pids[i].Id, "participant changed")
	}
	for i := range ps {
		verifrt.Assert(o.PresignIds[i] == ps[i], "presign changed")
	}
	verifrt.Reach("done")
}

type verifErr struct{}

func (verifErr) Error() string { return "wire" }

// fake protocol message: only its wire form matters here
type verifMsg struct {
	tss.Message
	data    []byte
	routing *tss.MessageRouting
	fail    bool
}

func (m *verifMsg) WireBytes() ([]byte, *tss.MessageRouting, error) {
	if m.fail {
		return nil, nil, verifErr{}
	}
	return m.data, m.routing, nil
}

// VerifUpdateMessage: the batch of protocol messages is carried in batch order
// with its payloads and the round name; an unserialisable one fails the whole.
func VerifUpdateMessage() {
	from, to, work, round := verifrt.Str("from", 1), verifrt.Str("to", 1), verifrt.Str("work", 1), verifrt.Str("round", 2)
	n := verifrt.Concrete(verifrt.Int("batch", 0, 3))
	bad := verifrt.Concrete(verifrt.Int("bad", 0, 3))
	var msgs []tss.Message
	var data [][]byte
	for i := 0; i < n; i++ {
		d := verifrt.Bytes("payload", 2)
		data = append(data, d)
		msgs = append(msgs, &verifMsg{data: d, routing: &tss.MessageRouting{IsBroadcast: verifrt.Bool("b")}, fail: i == bad})
	}
	m, err := NewTssMessage(from, to, work, msgs, round)
	if bad < n {
		verifrt.Assert(err != nil, "a message that cannot be serialised is sent")
		verifrt.Reach("error")
		return
	}
	verifrt.Assert(err == nil, "a valid batch is refused")
	verifrt.Assert(m.Type == TssMessage_UPDATE_MESSAGES, "wrong kind of message")
	verifrt.Assert(verifrt.And(m.From == from, m.To == to), "sender or destination changed")
	verifrt.Assert(m.WorkId == work, "work changed")
	verifrt.Assert(len(m.UpdateMessages) == n, "batch size changed")
	for i, u := range m.UpdateMessages {
		verifrt.Assert(string(u.Data) == string(data[i]), "payload changed or reordered")
		verifrt.Assert(u.Round == round, "round changed")
		verifrt.Assert(len(u.SerializedMessageRouting) > 0, "routing lost")
	}
	verifrt.Reach("done")
}
