package core

import (
	"encoding/hex"
	"errors"

	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	"github.com/sisu-network/dheart/client"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/p2p"
	ptypes "github.com/sisu-network/dheart/p2p/types"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/utils"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifrt"
	libchain "github.com/sisu-network/lib/chain"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
)

var _ = utils.AESDecrypt
var _ client.Client

// verifCm is a connection manager.
type verifCm struct {
	verifNet
	fails    bool
	started  bool
	key      []byte
	kind     string
	listener p2p.P2PDataListener
}

func (c *verifCm) Start(key []byte, keyType string) error {
	if c.fails {
		return errors.New("address in use")
	}
	c.started, c.key, c.kind = true, key, keyType
	return nil
}
func (c *verifCm) AddListener(p protocol.ID, l p2p.P2PDataListener) {
	if p == p2p.TSSProtocolID {
		c.listener = l
	}
}
func (c *verifCm) WriteToStream(to peer.ID, p protocol.ID, b []byte) error { return nil }

var (
	verifCms   []*verifCm
	verifCmBad bool
	verifMe    *Node
)

//verif:stub github.com/sisu-network/dheart/p2p.NewConnectionManager
func verifNewCm(cfg ptypes.ConnectionsConfig) p2p.ConnectionManager {
	c := &verifCm{fails: verifCmBad}
	verifCms = append(verifCms, c)
	return c
}

// verifDecrypt: an encrypted text is the text with a mark in front.
//
//verif:stub github.com/sisu-network/dheart/utils.AESDecrypt
func verifDecrypt(b, key []byte) ([]byte, error) {
	if len(b) == 0 || b[0] != 0xee {
		return nil, errors.New("cannot decrypt")
	}
	return b[1:], nil
}

// verifKeyNode: this node's node, or one of the committee.
//
//verif:stub github.com/sisu-network/dheart/core.NewNode
func verifKeyNode(key ctypes.PubKey) *Node {
	if p, ok := key.(*verifPub); ok {
		for _, n := range verifNodes(2) {
			if n.PubKey.(*verifPub).name == p.name {
				return n
			}
		}
		return nil
	}
	switch key.(type) {
	case *ed25519.PubKey, *secp256k1.PubKey:
		return verifMe
	}
	return nil
}

// verifSecp: the public key of a key is not looked at.
//
//verif:stub (*github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1.PrivKey).PubKey
func verifSecp(*secp256k1.PrivKey) ctypes.PubKey { return &secp256k1.PubKey{Key: make([]byte, 33)} }

type verifSilent struct{ client.Client }

func (verifSilent) PostKeygenResult(*htypes.KeygenResult) error   { return nil }
func (verifSilent) PostKeysignResult(*htypes.KeysignResult) error { return nil }

func verifEnc(k byte) string {
	b := make([]byte, 65)
	b[0] = 0xee
	b[64] = k
	return hex.EncodeToString(b)
}

// VerifStart: Sisu's calls in any order.
func VerifStart() {
	verifReset()
	verifCms, verifCmBad = nil, false
	nodes := verifNodes(2)
	verifMe = nodes[0]
	keys := []ctypes.PubKey{nodes[0].PubKey, nodes[1].PubKey}
	dbDown := false
	db := &verifh.DB{}
	db.ShortForm = func() ([]string, []string, error) {
		if dbDown {
			return nil, nil, verifh.ErrDB
		}
		return nil, nil, nil
	}
	db.EdKey = func(string) (*edkeygen.LocalPartySaveData, error) { return &edkeygen.LocalPartySaveData{}, nil }
	h := NewHeart(config.HeartConfig{}, verifSilent{})
	h.db = db
	enc := verifEnc
	typ := "ed25519"
	if verifrt.Param("secp") == 1 {
		typ = "secp256k1"
	}
	set, ready, ever, works := 0, false, false, 0
	for i := 0; i < verifrt.Param("ops"); i++ {
		switch op := verifrt.Choice("op", 8); op {
		case 0:
			h.SetSisuReady(true)
			ready, ever = true, true
		case 1:
			h.SetSisuReady(false)
			ready = false
		case 2, 3: // a proper key
			k := op - 1
			err := h.SetPrivKey(enc(byte(k)), typ)
			verifrt.Assert((err == nil) == (set == 0 || set == k), "the key of the node is not set or replaced")
			if set == 0 {
				set = k
			}
		case 4, 5: // a proper key, but the node cannot start
			verifCmBad, dbDown = op == 4, op == 5
			err := h.SetPrivKey(enc(1), typ)
			verifCmBad, dbDown = false, false
			verifrt.Assert((err == nil) == (set == 1), "a node that did not start is taken for running")
		case 6: // rubbish
			n := 3
			if set != 0 {
				n = 4
			}
			switch verifrt.Choice("bad", n) {
			case 0:
				verifrt.Assert(h.SetPrivKey("xyz", typ) != nil, "a text that is not hex is accepted as a key")
			case 1:
				verifrt.Assert(h.SetPrivKey("aabb", typ) != nil, "a text that cannot be decrypted is accepted as a key")
			case 2:
				verifrt.Assert(h.SetPrivKey(enc(3), []string{"rsa", "Ed25519"}[verifrt.Param("secp")]) != nil, "an unknown type of key is accepted")
			case 3:
				k := enc(byte(set))
				if verifrt.Choice("part", 2) == 1 {
					k += "00"
				} else {
					k = k[:len(k)-2]
				}
				verifrt.Assert(h.SetPrivKey(k, typ) != nil, "another key is taken for that of the node")
			}
		case 7:
			var err error
			id := verifh.Names[i]
			if verifrt.Bool("signing") {
				err = h.Keysign(&htypes.KeysignRequest{KeyType: libchain.KEY_TYPE_EDDSA, KeysignMessages: []*htypes.KeysignMessage{}}, keys)
				if ready && set != 0 { // nothing to sign
					verifrt.Assert(err != nil && err != ErrDheartNotReady, "a ready node claims that it is not")
					break
				}
			} else {
				err = h.Keygen(id, libchain.KEY_TYPE_EDDSA, keys)
				if err == nil {
					works++
				}
			}
			if ready && set != 0 {
				verifrt.Assert(err == nil, "a request is refused although the node is ready")
				verifrt.Reach("accepted")
			} else {
				verifrt.Assert(err == ErrDheartNotReady, "a request is accepted before the node is ready")
				verifrt.Reach("not ready")
			}
		}
	}
	verifrt.Drain(0)
	if works > MaxWorker {
		works = MaxWorker
	}
	verifrt.Assert(len(verifWorkers) == works, "a request is not worked on")
	started := 0
	for _, c := range verifCms {
		if !c.started {
			continue
		}
		started++
		verifrt.Assert(len(c.key) == 64 && c.key[63] == byte(set) && c.kind == typ, "the node runs with another key")
		if ready {
			verifrt.Assert(c.listener == p2p.P2PDataListener(h.engine), "a ready node does not listen to the network")
		}
		verifrt.Assert(ever || c.listener == nil, "a node listens to the network before Sisu is ready")
		n := len(verifWorkers)
		if n == MaxWorker {
			continue
		}
		h.engine.AddNodes(nodes)
		h.engine.AddRequest(verifRequest(nodes, 0, "x"))
		verifrt.Assert(len(verifWorkers) == n+1, "the node does not work")
	}
	verifrt.Assert(started <= 1 && (started == 1) == (set != 0), "the node is not started exactly once")
	verifrt.Reach("done")
}

// VerifTwice: two calls of Sisu at the same time.
func VerifTwice() {
	verifReset()
	verifCms, verifCmBad = nil, false
	nodes := verifNodes(2)
	verifMe = nodes[0]
	keys := []ctypes.PubKey{nodes[0].PubKey, nodes[1].PubKey}
	h := NewHeart(config.HeartConfig{}, verifSilent{})
	h.db = &verifh.DB{ShortForm: func() ([]string, []string, error) { return nil, nil, nil }}
	before := verifrt.Choice("before", 3)
	if before == 1 {
		h.SetSisuReady(true)
	}
	verifCmBad = before == 2 && verifrt.Choice("bad", 2) == 1
	k := 1 + verifrt.Byte("key")&1
	var err1, err2 error
	go func() { err1 = h.SetPrivKey(verifEnc(1), "ed25519") }()
	other := verifrt.Choice("other", 3)
	go func() {
		switch other {
		case 0:
			err2 = h.SetPrivKey(verifEnc(k), "ed25519")
		case 1:
			h.SetSisuReady(true)
		case 2:
			err2 = h.Keygen("id", libchain.KEY_TYPE_EDDSA, keys)
		}
	}()
	verifrt.Assert(verifrt.Drain(0) == 0, "the node is stuck")
	started := 0
	for _, c := range verifCms {
		if c.started {
			started++
			ready := before == 1 || other == 1
			verifrt.Assert((c.listener != nil) == ready, "a ready node does not listen to the network, or one that is not does")
		}
	}
	if verifCmBad {
		verifrt.Assert(started == 0 && err1 != nil && (other != 0 || err2 != nil), "a node that did not start is taken for running")
		verifrt.Reach("failed")
		return
	}
	verifrt.Assert(started == 1, "the node is not started exactly once")
	switch other {
	case 0:
		ok := 0
		if err1 == nil {
			ok++
		}
		if err2 == nil {
			ok++
		}
		verifrt.Assert(ok == 2 && k == 1 || ok == 1 && k == 2, "the key of the node is not set or replaced")
		verifrt.Reach("keys")
	case 1:
		verifrt.Assert(err1 == nil, "the key of the node is not set")
		verifrt.Reach("ready")
	case 2:
		verifrt.Assert(err1 == nil && (err2 == nil && before == 1 || err2 == ErrDheartNotReady), "a request is accepted before the node is ready")
		verifrt.Reach("request")
	}
}
