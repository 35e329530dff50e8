package message

import (
	"github.com/sisu-network/dheart/verifrt"
	wtypes "github.com/sisu-network/dheart/worker/types"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
	"github.com/sisu-network/tss-lib/tss"
	"github.com/golang/protobuf/proto"
)

type verifKind struct {
	content   tss.MessageContent
	work      wtypes.WorkType
	round     int
	broadcast bool
}

// the protocol messages of tss-lib in the order in which a party sends them
func verifKinds() []verifKind {
	return []verifKind{
		{&eckeygen.KGRound1Message{}, wtypes.EcKeygen, 1, true},
		{&eckeygen.KGRound2Message1{}, wtypes.EcKeygen, 2, false},
		{&eckeygen.KGRound2Message2{}, wtypes.EcKeygen, 2, true},
		{&eckeygen.KGRound3Message{}, wtypes.EcKeygen, 3, true},
		{&ecsigning.SignRound1Message1{}, wtypes.EcSigning, 1, false},
		{&ecsigning.SignRound1Message2{}, wtypes.EcSigning, 1, true},
		{&ecsigning.SignRound2Message{}, wtypes.EcSigning, 2, false},
		{&ecsigning.SignRound3Message{}, wtypes.EcSigning, 3, true},
		{&ecsigning.SignRound4Message{}, wtypes.EcSigning, 4, true},
		{&ecsigning.SignRound5Message{}, wtypes.EcSigning, 5, true},
		{&ecsigning.SignRound6Message{}, wtypes.EcSigning, 6, true},
		{&ecsigning.SignRound7Message{}, wtypes.EcSigning, 7, true},
		{&edkeygen.KGRound1Message{}, wtypes.EdKeygen, 1, true},
		{&edkeygen.KGRound2Message1{}, wtypes.EdKeygen, 2, false},
		{&edkeygen.KGRound2Message2{}, wtypes.EdKeygen, 2, true},
		{&edsigning.SignRound1Message{}, wtypes.EdSigning, 1, true},
		{&edsigning.SignRound2Message{}, wtypes.EdSigning, 2, true},
		{&edsigning.SignRound3Message{}, wtypes.EdSigning, 3, true},
	}
}

func verifRound(w wtypes.WorkType, r int) Round {
	switch w {
	case wtypes.EcKeygen:
		return []Round{EcKeygen1, EcKeygen2, EcKeygen3}[r-1]
	case wtypes.EcSigning:
		return []Round{EcSigning1, EcSigning2, EcSigning3, EcSigning4, EcSigning5, EcSigning6, EcSigning7}[r-1]
	case wtypes.EdKeygen:
		return []Round{EdKeygen1, EdKeygen2}[r-1]
	}
	return []Round{EdSigning1, EdSigning2, EdSigning3}[r-1]
}

// VerifRoundOfMessage: each protocol message is attributed to its own protocol
// and round.
func VerifRoundOfMessage() {
	ks := verifKinds()
	k := ks[verifrt.Concrete(verifrt.Int("kind", 0, len(ks)-1))]
	r, err := GetMsgRound(k.content)
	verifrt.Assert(err == nil, "a protocol message has no round")
	verifrt.Assert(r == verifRound(k.work, k.round), "a protocol message is attributed to another round")
	_, err = GetMsgRound(nil)
	verifrt.Assert(err != nil, "an unknown message has a round")
	verifrt.Reach("done")
}

// VerifBroadcastTable: a message is asked from everybody exactly if the
// protocol broadcasts it.
func VerifBroadcastTable() {
	ks := verifKinds()
	k := ks[verifrt.Concrete(verifrt.Int("kind", 0, len(ks)-1))]
	verifrt.Assert(IsBroadcastMessage(proto.MessageName(k.content)) == k.broadcast, "a message is recovered over the wrong channel")
	verifrt.Reach("done")
}

// VerifExpectedMessages: the messages expected from a peer are the protocol's
// messages, in protocol order.
func VerifExpectedMessages() {
	w := []wtypes.WorkType{wtypes.EcKeygen, wtypes.EcSigning, wtypes.EdKeygen, wtypes.EdSigning}[verifrt.Choice("work", 4)]
	var want []string
	for _, k := range verifKinds() {
		if k.work == w {
			want = append(want, proto.MessageName(k.content))
		}
	}
	got := GetMessagesByWorkType(w)
	verifrt.Assert(len(got) == len(want), "the protocol has another number of messages")
	for i := range want {
		verifrt.Assert(got[i] == want[i], "the expected messages are not the protocol's, in order")
	}
	verifrt.Reach("done")
}
