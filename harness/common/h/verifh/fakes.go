// Package verifh holds stand-ins shared by the harnesses.
package verifh

import (
	"errors"
	"math/big"
	"time"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifrt"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

// Names of the test committee's members.
var Names = []string{"p0", "p1", "p2", "p3", "p4", "p5"}

// Parties returns a committee of n members with ascending keys.
func Parties(n int) []*tss.PartyID {
	out := make([]*tss.PartyID, n)
	for i := range out {
		out[i] = tss.NewPartyID(Names[i], "", big.NewInt(int64(i+1)))
		out[i].Index = i
	}
	return out
}

// Clone copies a committee.
func Clone(ps []*tss.PartyID) []*tss.PartyID {
	out := make([]*tss.PartyID, len(ps))
	for i, p := range ps {
		out[i] = tss.NewPartyID(p.Id, p.Moniker, p.KeyInt())
		out[i].Index = p.Index
	}
	return out
}

// Timeouts for the harnesses, far apart from each other.
func Timeouts() config.TimeoutConfig {
	return config.TimeoutConfig{
		KeygenJobTimeout: 100 * time.Second, SigningJobTimeout: 100 * time.Second, PresignJobTimeout: 100 * time.Second,
		MonitorMessageTimeout: 40 * time.Second, SelectionLeaderTimeout: 10 * time.Second, SelectionMemberTimeout: 20 * time.Second,
	}
}

// Sent is one message handed to the network.
type Sent struct {
	Broadcast bool
	To        []string
	Msg       *common.TssMessage
}

// Dispatcher records the messages handed to the network.
type Dispatcher struct{ Sent []Sent }

func (d *Dispatcher) BroadcastMessage(pids []*tss.PartyID, m *common.TssMessage) {
	verifrt.HLock()
	defer verifrt.HUnlock()
	s := Sent{Broadcast: true, Msg: m}
	for _, p := range pids {
		s.To = append(s.To, p.Id)
	}
	d.Sent = append(d.Sent, s)
}

func (d *Dispatcher) UnicastMessage(p *tss.PartyID, m *common.TssMessage) {
	verifrt.HLock()
	defer verifrt.HUnlock()
	d.Sent = append(d.Sent, Sent{To: []string{p.Id}, Msg: m})
}

// Kind returns the recorded messages of one kind.
func (d *Dispatcher) Kind(t common.TssMessage_Type) []Sent {
	var out []Sent
	for _, s := range d.Sent {
		if s.Msg.Type == t {
			out = append(out, s)
		}
	}
	return out
}

// DB is a database stand-in; unset functions answer with an error.
type DB struct {
	db.Database
	Presign      func(ids []string) ([]*ecsigning.SignatureData_OneRoundData, error)
	ShortForm    func() ([]string, []string, error)
	SavePresign  func(work string, pids []*tss.PartyID, out []*ecsigning.SignatureData_OneRoundData) error
	MarkUsed     func(ids []string) error
	EcKeygenSave func(keyType, work string, pids []*tss.PartyID, out *eckeygen.LocalPartySaveData) error
	EdKeygenSave func(keyType, work string, pids []*tss.PartyID, out *edkeygen.LocalPartySaveData) error
	EcKey        func(keyType string) (*eckeygen.LocalPartySaveData, error)
	EdKey        func(keyType string) (*edkeygen.LocalPartySaveData, error)
	PreparamsF   func() (*eckeygen.LocalPreParams, error)
	Peers        func() []*p2ptypes.Peer
	SavedPeers   []*p2ptypes.Peer
}

// ErrDB is the error of an unavailable database.
var ErrDB = errors.New("database")

func (d *DB) LoadPresign(ids []string) ([]*ecsigning.SignatureData_OneRoundData, error) {
	if d.Presign == nil {
		return nil, ErrDB
	}
	return d.Presign(ids)
}

func (d *DB) GetAvailablePresignShortForm() ([]string, []string, error) {
	if d.ShortForm == nil {
		return nil, nil, ErrDB
	}
	return d.ShortForm()
}

func (d *DB) SavePresignData(work string, pids []*tss.PartyID, out []*ecsigning.SignatureData_OneRoundData) error {
	if d.SavePresign == nil {
		return ErrDB
	}
	return d.SavePresign(work, pids, out)
}

func (d *DB) UpdatePresignStatus(ids []string) error {
	if d.MarkUsed == nil {
		return ErrDB
	}
	return d.MarkUsed(ids)
}

func (d *DB) SaveEcKeygen(keyType, work string, pids []*tss.PartyID, out *eckeygen.LocalPartySaveData) error {
	if d.EcKeygenSave == nil {
		return ErrDB
	}
	return d.EcKeygenSave(keyType, work, pids, out)
}

func (d *DB) SaveEdKeygen(keyType, work string, pids []*tss.PartyID, out *edkeygen.LocalPartySaveData) error {
	if d.EdKeygenSave == nil {
		return ErrDB
	}
	return d.EdKeygenSave(keyType, work, pids, out)
}

func (d *DB) LoadEcKeygen(keyType string) (*eckeygen.LocalPartySaveData, error) {
	if d.EcKey == nil {
		return nil, ErrDB
	}
	return d.EcKey(keyType)
}

func (d *DB) LoadEdKeygen(keyType string) (*edkeygen.LocalPartySaveData, error) {
	if d.EdKey == nil {
		return nil, ErrDB
	}
	return d.EdKey(keyType)
}

func (d *DB) LoadPreparams() (*eckeygen.LocalPreParams, error) {
	if d.PreparamsF == nil {
		return nil, ErrDB
	}
	return d.PreparamsF()
}

func (d *DB) LoadPeers() []*p2ptypes.Peer {
	if d.Peers == nil {
		return nil
	}
	return d.Peers()
}
func (d *DB) SavePeers(peers []*p2ptypes.Peer) error {
	d.SavedPeers = append(d.SavedPeers, peers...)
	return nil
}

func (d *DB) SavePreparams(p *eckeygen.LocalPreParams) error { return nil }
func (d *DB) Init() error                                    { return nil }
func (d *DB) Close() error                                   { return nil }

// Presigns is a presign store stand-in.
type Presigns struct {
	Get func(batch, n int, all map[string]*tss.PartyID) ([]string, []*tss.PartyID)
	Add func(work string, pids []*tss.PartyID, out []*ecsigning.SignatureData_OneRoundData)
}

func (p *Presigns) Load() error { return nil }
func (p *Presigns) GetAvailablePresigns(batch, n int, all map[string]*tss.PartyID) ([]string, []*tss.PartyID) {
	if p.Get == nil {
		return nil, nil
	}
	return p.Get(batch, n, all)
}
func (p *Presigns) AddPresign(work string, pids []*tss.PartyID, out []*ecsigning.SignatureData_OneRoundData) {
	if p.Add != nil {
		p.Add(work, pids, out)
	}
}
