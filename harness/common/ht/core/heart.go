package core

import (
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/verifh"
	_ "github.com/sisu-network/dheart/verifk"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/tss-lib/tss"
)

// verifSisu records what Sisu is told.
type verifSisu struct {
	keygens  []*htypes.KeygenResult
	keysigns []*htypes.KeysignResult
	fail     bool
}

func (c *verifSisu) TryDial() {}
func (c *verifSisu) PostKeygenResult(r *htypes.KeygenResult) error {
	verifrt.HLock()
	c.keygens = append(c.keygens, r)
	verifrt.HUnlock()
	return c.err()
}
func (c *verifSisu) PostPresignResult(r *htypes.PresignResult) error { return c.err() }
func (c *verifSisu) PostKeysignResult(r *htypes.KeysignResult) error {
	verifrt.HLock()
	c.keysigns = append(c.keysigns, r)
	verifrt.HUnlock()
	return c.err()
}
func (c *verifSisu) err() error {
	if c.fail {
		return verifh.ErrDB
	}
	return nil
}

var verifKnown []*Node

// verifNewNode finds the node of a public key; keys without a node are of an
// unsupported type.
//
//verif:stub github.com/sisu-network/dheart/core.NewNode
func verifNewNode(key ctypes.PubKey) *Node {
	p, ok := key.(*verifPub)
	if !ok {
		return nil
	}
	for _, n := range verifKnown {
		if n.PubKey.(*verifPub).name == p.name {
			return &Node{PeerId: n.PeerId, PubKey: key, PartyId: tss.NewPartyID(n.PartyId.Id, "", n.PartyId.KeyInt())}
		}
	}
	return nil
}

// verifHeart is node 0's heart with its real engine, ready to work.
func verifHeart(nodes []*Node, d db.Database) (*Heart, *verifNet, *verifSisu) {
	if verifReset != nil {
		verifReset()
	}
	verifKnown = nodes
	c := &verifSisu{}
	h := NewHeart(config.HeartConfig{}, c)
	net := &verifNet{}
	h.db, h.cm = d, net
	h.engine = NewEngine(nodes[0], net, d, h, &verifKey{name: verifh.Names[0]}, verifh.Timeouts())
	h.engine.AddNodes(nodes)
	h.SetSisuReady(true)
	return h, net, c
}

func verifKeys(nodes []*Node) []ctypes.PubKey {
	var out []ctypes.PubKey
	for _, n := range nodes {
		out = append(out, n.PubKey)
	}
	return out
}
