// Package verifp replaces the protocol instances of tss-lib.
package verifp

import (
	"crypto/elliptic"
	"errors"
	"math/big"

	"github.com/golang/protobuf/proto"
	"github.com/sisu-network/dheart/verifrt"
	wTypes "github.com/sisu-network/dheart/worker/types"
	tsscommon "github.com/sisu-network/tss-lib/common"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
	"github.com/sisu-network/tss-lib/tss"
)

// Party stands for a protocol instance of tss-lib: what it sends and when
// it ends is up to the harness.
type Party struct {
	tss.Party
	Kind    wTypes.WorkType
	N       int // n-th instance created
	Me      *tss.PartyID
	Params  *tss.Parameters
	Msg     *big.Int
	Presign *ecsigning.SignatureData_OneRoundData
	Out     chan<- tss.Message
	ecKg    chan<- eckeygen.LocalPartySaveData
	ecSig   chan<- *ecsigning.SignatureData
	edKg    chan<- edkeygen.LocalPartySaveData
	edSig   chan<- *edsigning.SignatureData
	Got     []*Wire
}

var (
	List     []*Party
	OnStart  func(p *Party) *tss.Error
	OnUpdate func(p *Party, m *Wire) *tss.Error
)

func verifAddParty(p *Party) tss.Party {
	p.N = len(List)
	p.Me = p.Params.PartyID()
	List = append(List, p)
	return p
}

//verif:stub github.com/sisu-network/tss-lib/ecdsa/keygen.NewLocalParty
func VerifEcKeygenParty(params *tss.Parameters, out chan<- tss.Message, end chan<- eckeygen.LocalPartySaveData, pre ...eckeygen.LocalPreParams) tss.Party {
	return verifAddParty(&Party{Kind: wTypes.EcKeygen, Params: params, Out: out, ecKg: end})
}

//verif:stub github.com/sisu-network/tss-lib/ecdsa/signing.NewLocalParty
func VerifEcSigningParty(msg *big.Int, params *tss.Parameters, key eckeygen.LocalPartySaveData, one *ecsigning.SignatureData_OneRoundData, out chan<- tss.Message, end chan<- *ecsigning.SignatureData) tss.Party {
	return verifAddParty(&Party{Kind: wTypes.EcSigning, Params: params, Msg: msg, Presign: one, Out: out, ecSig: end})
}

//verif:stub github.com/sisu-network/tss-lib/eddsa/keygen.NewLocalParty
func VerifEdKeygenParty(params *tss.Parameters, out chan<- tss.Message, end chan<- edkeygen.LocalPartySaveData) tss.Party {
	return verifAddParty(&Party{Kind: wTypes.EdKeygen, Params: params, Out: out, edKg: end})
}

//verif:stub github.com/sisu-network/tss-lib/eddsa/signing.NewLocalParty
func VerifEdSigningParty(msg *big.Int, params *tss.Parameters, key edkeygen.LocalPartySaveData, out chan<- tss.Message, end chan<- *edsigning.SignatureData) tss.Party {
	return verifAddParty(&Party{Kind: wTypes.EdSigning, Params: params, Msg: msg, Out: out, edSig: end})
}

func (p *Party) PartyID() *tss.PartyID { return p.Me }
func (p *Party) Start() *tss.Error {
	if OnStart == nil {
		return nil
	}
	return OnStart(p)
}
func (p *Party) WrapError(err error, culprits ...*tss.PartyID) *tss.Error {
	return tss.NewError(err, "verif", 0, p.Me, culprits...)
}
func (p *Party) Update(m tss.ParsedMessage) (bool, *tss.Error) {
	w := m.(*Wire)
	verifrt.HLock()
	p.Got = append(p.Got, w)
	verifrt.HUnlock()
	if OnUpdate != nil {
		if err := OnUpdate(p, w); err != nil {
			return false, err
		}
	}
	return true, nil
}
func (p *Party) UpdateFromBytes(b []byte, from *tss.PartyID, bc bool) (bool, *tss.Error) {
	m, err := VerifParseWire(b, from, bc)
	if err != nil {
		return false, p.WrapError(err)
	}
	return p.Update(m)
}

// Fail is a protocol failure.
func (p *Party) Fail() *tss.Error { return p.WrapError(errors.New("protocol")) }

// The results of instances, if not just their marks.
var (
	EcKey func(p *Party) *eckeygen.LocalPartySaveData
	EcSig func(p *Party) *tsscommon.ECSignature
	EdKey func(p *Party) *edkeygen.LocalPartySaveData
	EdSig func(p *Party) *tsscommon.ECSignature
)

// End hands out the result of the instance, marked with its number.
func (p *Party) End() {
	id := big.NewInt(int64(p.N) + 1)
	switch {
	case p.Kind == wTypes.EcKeygen && EcKey != nil:
		p.ecKg <- *EcKey(p)
		return
	case p.Kind == wTypes.EcSigning && EcSig != nil:
		p.ecSig <- &ecsigning.SignatureData{OneRoundData: &ecsigning.SignatureData_OneRoundData{}, Signature: EcSig(p)}
		return
	case p.Kind == wTypes.EdKeygen && EdKey != nil:
		p.edKg <- *EdKey(p)
		return
	case p.Kind == wTypes.EdSigning && EdSig != nil:
		p.edSig <- &edsigning.SignatureData{Signature: EdSig(p)}
		return
	}
	switch p.Kind {
	case wTypes.EcKeygen:
		d := eckeygen.LocalPartySaveData{}
		d.ShareID = id
		p.ecKg <- d
	case wTypes.EcSigning:
		p.ecSig <- &ecsigning.SignatureData{OneRoundData: &ecsigning.SignatureData_OneRoundData{T: int32(p.N) + 1}, Signature: &tsscommon.ECSignature{R: []byte{1}, S: []byte{byte(p.N) + 1}, Signature: []byte{byte(p.N) + 1}}}
	case wTypes.EdKeygen:
		d := edkeygen.LocalPartySaveData{}
		d.ShareID = id
		p.edKg <- d
	case wTypes.EdSigning:
		p.edSig <- &edsigning.SignatureData{Signature: &tsscommon.ECSignature{Signature: []byte{byte(p.N) + 1}}}
	}
}

// Kind is a kind of protocol message.
type Kind struct {
	Content tss.MessageContent
	P2P     bool
}

// Name of the kind.
func (k Kind) Name() string { return string(proto.MessageName(k.Content)) }

// Kinds lists the messages an instance sends, in the order of the protocols.
func Kinds(p *Party) []Kind {
	switch p.Kind {
	case wTypes.EcKeygen:
		return []Kind{{&eckeygen.KGRound1Message{}, false}, {&eckeygen.KGRound2Message1{}, true}, {&eckeygen.KGRound2Message2{}, false}, {&eckeygen.KGRound3Message{}, false}}
	case wTypes.EcSigning:
		pre := []Kind{{&ecsigning.SignRound1Message1{}, true}, {&ecsigning.SignRound1Message2{}, false}, {&ecsigning.SignRound2Message{}, true},
			{&ecsigning.SignRound3Message{}, false}, {&ecsigning.SignRound4Message{}, false}, {&ecsigning.SignRound5Message{}, false}, {&ecsigning.SignRound6Message{}, false}}
		last := Kind{&ecsigning.SignRound7Message{}, false}
		if p.Presign != nil {
			return []Kind{last}
		}
		if p.Msg == nil {
			return pre
		}
		return append(pre, last)
	case wTypes.EdKeygen:
		return []Kind{{&edkeygen.KGRound1Message{}, false}, {&edkeygen.KGRound2Message1{}, true}, {&edkeygen.KGRound2Message2{}, false}}
	}
	return []Kind{{&edsigning.SignRound1Message{}, false}, {&edsigning.SignRound2Message{}, false}, {&edsigning.SignRound3Message{}, false}}
}

// Wire is a protocol message; it travels as one byte for its kind and its payload.
type Wire struct {
	K       Kind
	ID      byte
	From    *tss.PartyID
	To      []*tss.PartyID
	Bcast   bool
	Payload []byte
	BadWire bool
}

func (m *Wire) Type() string                  { return m.K.Name() }
func (m *Wire) GetTo() []*tss.PartyID         { return m.To }
func (m *Wire) GetFrom() *tss.PartyID         { return m.From }
func (m *Wire) IsBroadcast() bool             { return m.Bcast }
func (m *Wire) IsToOldCommittee() bool        { return false }
func (m *Wire) IsToOldAndNewCommittees() bool { return false }
func (m *Wire) WireMsg() *tss.MessageWrapper  { return nil }
func (m *Wire) String() string                { return "message" }
func (m *Wire) Content() tss.MessageContent   { return m.K.Content }
func (m *Wire) ValidateBasic() bool           { return true }
func (m *Wire) WireBytes() ([]byte, *tss.MessageRouting, error) {
	if m.BadWire {
		return nil, nil, errors.New("cannot be serialised")
	}
	return append([]byte{m.ID}, m.Payload...), &tss.MessageRouting{From: m.From, To: m.To, IsBroadcast: m.Bcast}, nil
}

// WireKinds are the kinds known on the wire by their identifiers.
var WireKinds []Kind

// WireBase is the identifier of the first kind of an instance's messages, if not 0.
var WireBase func(p *Party) byte

func (p *Party) base() byte {
	if WireBase == nil {
		return 0
	}
	return WireBase(p)
}

// Bytes puts a message on the wire.
func Bytes(id int, payload ...byte) []byte { return append([]byte{byte(id)}, payload...) }

//verif:stub github.com/sisu-network/tss-lib/tss.ParseWireMessage
func VerifParseWire(b []byte, from *tss.PartyID, bc bool) (tss.ParsedMessage, error) {
	if len(b) == 0 || int(b[0]) >= len(WireKinds) {
		return nil, errors.New("malformed")
	}
	return &Wire{K: WireKinds[b[0]], ID: b[0], From: from, Bcast: bc, Payload: b[1:]}, nil
}

// Send hands out the messages of a kind: one for all, or one for each peer.
func (p *Party) Send(k int, payload func(to string) []byte) {
	kind := Kinds(p)[k]
	if !kind.P2P {
		p.Out <- &Wire{K: kind, ID: p.base() + byte(k), From: p.Me, Bcast: true, Payload: payload("")}
		return
	}
	for _, to := range p.Params.Parties().IDs() {
		if to.Id != p.Me.Id {
			p.Out <- &Wire{K: kind, ID: p.base() + byte(k), From: p.Me, To: []*tss.PartyID{to}, Payload: payload(to.Id)}
		}
	}
}

type verifCurve struct{ elliptic.Curve }

var verifParams = elliptic.CurveParams{Name: "verif", BitSize: 256, N: new(big.Int).Lsh(big.NewInt(1), 255)}

func (verifCurve) Params() *elliptic.CurveParams { return &verifParams }

// VerifEC replaces the curve; only the size of its order matters here.
//
//verif:stub github.com/sisu-network/tss-lib/tss.EC
func VerifEC(scheme string) elliptic.Curve { return verifCurve{} }
