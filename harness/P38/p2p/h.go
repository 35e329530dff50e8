package p2p

import (
	"context"
	"errors"
	"time"

	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p/core/crypto"
	"github.com/libp2p/go-libp2p/core/host"
	"github.com/libp2p/go-libp2p/core/network"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	maddr "github.com/multiformats/go-multiaddr"
	ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/verifrt"
)

var errVerif = errors.New("verif")

// verifWorld is everything around a connection manager.
type verifWorld struct {
	badKey, badNet, badDiscover bool
	host                        *verifHost
	key                         crypto.PrivKey
	listen                      []maddr.Multiaddr
	hosts                       int
	announced                   int
}

var verifW *verifWorld

type verifKey struct {
	crypto.PrivKey
	kind string
	b    []byte
}

func verifUnmarshal(kind string, b []byte) (crypto.PrivKey, error) {
	if verifW.badKey {
		return nil, errVerif
	}
	return &verifKey{kind: kind, b: b}, nil
}

//verif:stub github.com/libp2p/go-libp2p/core/crypto.UnmarshalSecp256k1PrivateKey
func VerifSecp(b []byte) (crypto.PrivKey, error) { return verifUnmarshal("secp256k1", b) }

//verif:stub github.com/libp2p/go-libp2p/core/crypto.UnmarshalEd25519PrivateKey
func VerifEd(b []byte) (crypto.PrivKey, error) { return verifUnmarshal("ed25519", b) }

// verifAddr is an address: <anything>/p2p/<one letter>, or without a peer.
type verifAddr struct {
	maddr.Multiaddr
	s string
}

func (a *verifAddr) String() string { return a.s }

//verif:stub github.com/multiformats/go-multiaddr.NewMultiaddr
func VerifMultiaddr(s string) (maddr.Multiaddr, error) {
	if s == "" || s[0] != '/' {
		return nil, errVerif
	}
	return &verifAddr{s: s}, nil
}

//verif:stub github.com/libp2p/go-libp2p/core/peer.AddrInfoFromP2pAddr
func VerifAddrInfo(m maddr.Multiaddr) (*peer.AddrInfo, error) {
	s := m.(*verifAddr).s
	if len(s) < 6 || s[len(s)-6:len(s)-1] != "/p2p/" {
		return nil, errVerif
	}
	return &peer.AddrInfo{ID: peer.ID(s[len(s)-1:]), Addrs: []maddr.Multiaddr{m}}, nil
}

//verif:stub (github.com/libp2p/go-libp2p/core/peer.ID).String
func verifPeerString(id peer.ID) string { return string(id) }

//verif:stub (github.com/libp2p/go-libp2p/core/peer.AddrInfo).String
func verifInfoString(i peer.AddrInfo) string { return string(i.ID) }

//verif:stub github.com/libp2p/go-libp2p.ListenAddrs
func VerifListen(a ...maddr.Multiaddr) libp2p.Option {
	verifW.listen = append(verifW.listen, a...)
	return nil
}

//verif:stub github.com/libp2p/go-libp2p.Identity
func VerifIdentity(k crypto.PrivKey) libp2p.Option {
	verifW.key = k
	return nil
}

//verif:stub github.com/libp2p/go-libp2p.New
func VerifNewHost(opts ...libp2p.Option) (host.Host, error) {
	if verifW.badNet || verifW.key == nil {
		return nil, errVerif
	}
	verifW.hosts++
	return verifW.host, nil
}

//verif:stub (*github.com/sisu-network/dheart/p2p.DefaultConnectionManager).discover
func verifDiscover(cm *DefaultConnectionManager, ctx context.Context, h host.Host) error {
	if verifW.badDiscover {
		return errVerif
	}
	verifW.announced++
	return nil
}

type verifHost struct {
	host.Host
	handlers  map[protocol.ID]network.StreamHandler
	down      map[peer.ID]int // failing dials of each peer
	dials     map[peer.ID]int
	last      map[peer.ID]time.Time
	connected map[peer.ID]time.Time
	streams   []*verifStream
}

func (h *verifHost) Addrs() []maddr.Multiaddr { return verifW.listen }
func (h *verifHost) ID() peer.ID              { return "me" }
func (h *verifHost) SetStreamHandler(p protocol.ID, f network.StreamHandler) {
	h.handlers[p] = f
}
func (h *verifHost) Connect(ctx context.Context, pi peer.AddrInfo) error {
	verifrt.HLock()
	defer verifrt.HUnlock()
	now := time.Now()
	if h.dials[pi.ID] > 0 {
		verifrt.Assert(now.Sub(h.last[pi.ID]) >= time.Second, "a peer is dialled without a break")
	}
	_, done := h.connected[pi.ID]
	verifrt.Assert(!done, "a connected peer is dialled again")
	verifrt.Assert(len(pi.Addrs) == 1 && ctx != nil, "a peer is dialled without its address")
	h.last[pi.ID] = now
	h.dials[pi.ID]++
	verifrt.Assert(h.dials[pi.ID] <= 120, "the start waits for ever for a peer that is down")
	if h.down[pi.ID] < 0 || h.dials[pi.ID] <= h.down[pi.ID] {
		return errVerif
	}
	h.connected[pi.ID] = now
	return nil
}

type verifStream struct {
	network.Stream
	to    peer.ID
	proto protocol.ID
	data  []byte
}

func (s *verifStream) Write(b []byte) (int, error) { s.data = append(s.data, b...); return len(b), nil }
func (s *verifStream) Reset() error                { return nil }

func (h *verifHost) NewStream(ctx context.Context, p peer.ID, pids ...protocol.ID) (network.Stream, error) {
	_, up := h.connected[p]
	if !up {
		return nil, errVerif
	}
	s := &verifStream{to: p, proto: pids[0]}
	h.streams = append(h.streams, s)
	return s, nil
}

// VerifStart: a connection manager with any configuration and peers.
func VerifStart() {
	w := &verifWorld{host: &verifHost{handlers: map[protocol.ID]network.StreamHandler{}, down: map[peer.ID]int{}, dials: map[peer.ID]int{},
		last: map[peer.ID]time.Time{}, connected: map[peer.ID]time.Time{}}}
	verifW = w
	h := w.host
	cfg := ptypes.ConnectionsConfig{Host: "1.2.3.4", Port: 5, Rendezvous: "r"}
	bad := false
	n := verifrt.Choice("peers", verifrt.Param("peers")+1)
	for i := 0; i < n; i++ {
		id := string(rune('a' + i))
		addr := "/ip4/1.1.1." + id + "/p2p/" + id
		switch verifrt.Choice("address", 3) {
		case 1:
			addr, bad = "nonsense", true
		case 2:
			addr, bad = "/ip4/1.1.1."+id, true // says nobody
		}
		cfg.Peers = append(cfg.Peers, &ptypes.Peer{Address: addr})
		h.down[peer.ID(id)] = verifrt.Int("down", -1, verifrt.Param("downs"))
	}
	keyType := []string{"secp256k1", "ed25519", "other"}[verifrt.Choice("type", 3)]
	switch verifrt.Choice("fault", 4) {
	case 1:
		w.badKey = true
	case 2:
		w.badNet = true
	case 3:
		w.badDiscover = true
	}
	bad = bad || w.badKey || w.badNet || w.badDiscover || keyType == "other"
	cm := NewConnectionManager(cfg)
	verifrt.Assert(!cm.IsReady(), "the network is ready before it is started")
	key := verifrt.Bytes("key", 2)
	var err error
	over := false
	begin := time.Now()
	took := time.Duration(0)
	go func() {
		e := cm.Start(key, keyType)
		verifrt.HLock()
		err, over, took = e, true, time.Now().Sub(begin)
		verifrt.HUnlock()
	}()
	verifrt.Assert(verifrt.Drain(-1) == 0 && over, "the start does not end")
	if bad {
		verifrt.Assert(err != nil, "a wrong configuration or a failure is not reported")
		verifrt.Reach("bad")
		return
	}
	verifrt.Assert(err == nil, "the network does not start")
	k := w.key.(*verifKey)
	verifrt.Assert(k.kind == keyType && len(k.b) == 2 && verifrt.And(k.b[0] == key[0], k.b[1] == key[1]), "the node has another identity")
	verifrt.Assert(len(w.listen) == 1 && w.listen[0].(*verifAddr).s == "/ip4/1.2.3.4/tcp/5", "the node listens at another address")
	verifrt.Assert(w.hosts == 1 && w.announced == 1, "the node is not announced once")
	verifrt.Assert(h.handlers[TSSProtocolID] != nil && h.handlers[PingProtocolID] != nil, "a protocol is not listened to")
	if n > 0 {
		verifrt.Assert(cm.IsReady(), "the network is not ready after its start")
	}
	longest := 0
	for _, d := range h.down {
		if d < 0 {
			longest = 50
		} else if d > longest {
			longest = d
		}
	}
	verifrt.Assert(took <= time.Duration(longest)*5*time.Second, "the start takes too long")
	for i := 0; i < n; i++ {
		id := peer.ID(rune('a' + i))
		at, up := h.connected[id]
		e := cm.WriteToStream(id, TSSProtocolID, []byte{1})
		if h.down[id] < 0 {
			verifrt.Assert(!up && h.dials[id] > 5, "a peer is given up soon")
			verifrt.Assert(e != nil, "a message to a peer that is down is accepted")
			verifrt.Reach("down")
			continue
		}
		verifrt.Assert(up, "a peer is not connected")
		verifrt.Assert(at.Sub(begin) <= time.Duration(h.down[id])*5*time.Second, "a peer waits for another one")
		verifrt.Assert(e == nil && h.streams[len(h.streams)-1].to == id, "a message cannot be sent to a connected peer")
		if h.down[id] > 0 {
			verifrt.Reach("slow")
		}
	}
	verifrt.Reach("started")
}
