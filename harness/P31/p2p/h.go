package p2p

import (
	"context"
	"errors"
	"sync"

	"github.com/libp2p/go-libp2p/core/host"
	"github.com/libp2p/go-libp2p/core/network"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/verifrt"
)

var errVerif = errors.New("verif")

// verifOut is a stream to a peer. What is written reaches the peer unless the
// stream is broken.
type verifOut struct {
	network.Stream
	lock   sync.Mutex
	host   *verifHost
	to     peer.ID
	proto  protocol.ID
	data   []byte
	broken bool
}

func (s *verifOut) Write(b []byte) (int, error) {
	s.host.writes++
	if s.host.writes == s.host.breakAt || s.host.writes == s.host.breakAt2 {
		if !s.broken {
			s.data = append(s.data, b[:len(b)*s.host.part/2]...)
		}
		s.broken = true
		s.host.failed++
	}
	if s.broken {
		return 0, errVerif
	}
	// A write is atomic, a sequence of writes is not.
	s.lock.Lock()
	s.data = append(s.data, b...)
	s.lock.Unlock()
	return len(b), nil
}
func (s *verifOut) Reset() error          { s.broken = true; return nil }
func (s *verifOut) Close() error          { s.broken = true; return nil }
func (s *verifOut) Protocol() protocol.ID { return s.proto }

type verifHost struct {
	host.Host
	streams  []*verifOut
	refuse   int // the call of NewStream that fails
	calls    int
	writes   int
	breakAt  int // the write that finds its stream broken
	breakAt2 int // another one
	part     int // halves of what is written that arrive nevertheless
	failed   int
}

func (h *verifHost) NewStream(ctx context.Context, p peer.ID, pids ...protocol.ID) (network.Stream, error) {
	h.calls++
	if h.calls == h.refuse {
		h.failed++
		return nil, errVerif
	}
	s := &verifOut{host: h, to: p, proto: pids[0]}
	h.streams = append(h.streams, s)
	return s, nil
}

// verifPeerString: a peer is written as its name.
//
//verif:stub (github.com/libp2p/go-libp2p/core/peer.ID).String
func verifPeerString(id peer.ID) string { return string(id) }

func verifManager(h *verifHost) *DefaultConnectionManager {
	cm := NewConnectionManager(ptypes.ConnectionsConfig{}).(*DefaultConnectionManager)
	cm.host = h
	for _, p := range []peer.ID{"a", "b"} {
		cm.connections[p] = NewConnection(p, nil, &cm.host)
	}
	return cm
}

type verifSend struct {
	to    peer.ID
	proto protocol.ID
	err   error
}

func verifSends(n int) []*verifSend {
	var out []*verifSend
	for i := 0; i < n; i++ {
		s := &verifSend{to: "a", proto: TSSProtocolID}
		switch verifrt.Choice("to", 4) {
		case 1:
			s.to = "b"
		case 2:
			s.proto = PingProtocolID
		case 3:
			s.to = "nobody"
		}
		out = append(out, s)
	}
	return out
}

// verifArrived checks what arrived against what was sent.
func verifArrived(h *verifHost, sends []*verifSend) {
	count := make([]int, len(sends))
	for _, s := range h.streams {
		d := s.data
		for len(d) > 0 && !(s.broken && len(d) < HeaderLength+2) {
			verifrt.Assert(len(d) >= HeaderLength+2 && d[0] == 2 && d[1] == 0 && d[2] == 0 && d[3] == 0, "a message is garbled on its way")
			i := int(d[4])
			verifrt.Assert(i < len(sends) && int(d[5]) == 100+i, "a message is garbled on its way")
			verifrt.Assert(sends[i].to == s.to && sends[i].proto == s.proto, "a message goes to a wrong peer or protocol")
			count[i]++
			d = d[HeaderLength+2:]
		}
	}
	for i, s := range sends {
		if s.to == "nobody" {
			verifrt.Assert(s.err != nil && count[i] == 0, "a message to an unknown peer is accepted")
			continue
		}
		if s.err == nil {
			verifrt.Assert(count[i] == 1, "a message that was accepted does not arrive once")
		} else {
			verifrt.Assert(count[i] == 0, "a message that failed arrives")
		}
	}
}

// VerifConcurrent: messages sent at the same time arrive whole, once, where
// they should.
func VerifConcurrent() {
	h := &verifHost{}
	cm := verifManager(h)
	sends := verifSends(verifrt.Param("sends"))
	for i, s := range sends {
		i, s := i, s
		go func() { s.err = cm.WriteToStream(s.to, s.proto, []byte{byte(i), byte(100 + i)}) }()
	}
	verifrt.Assert(verifrt.Drain(0) == 0, "sending a message blocks forever")
	for _, s := range sends {
		verifrt.Assert(s.to == "nobody" || s.err == nil, "a message cannot be sent")
	}
	verifArrived(h, sends)
	verifrt.Reach("done")
}

// VerifBroken: a failure is reported to its sender and costs that message
// only: what follows arrives.
func VerifBroken() {
	n := verifrt.Param("sends")
	h := &verifHost{
		refuse:  verifrt.Concrete(verifrt.Int("refuse", 0, n)),
		breakAt: verifrt.Concrete(verifrt.Int("break", 0, n)),
	}
	if h.breakAt > 0 {
		h.breakAt2 = verifrt.Concrete(verifrt.Int("break2", h.breakAt, n+1))
		h.part = verifrt.Choice("part", 2)
	}
	cm := verifManager(h)
	sends := verifSends(n)
	for i, s := range sends {
		before := h.failed
		s.err = cm.WriteToStream(s.to, s.proto, []byte{byte(i), byte(100 + i)})
		verifrt.Assert(s.err == nil || s.to == "nobody" || h.failed > before, "a failure costs more than one message")
	}
	verifArrived(h, sends)
	if h.failed > 0 {
		verifrt.Reach("failed")
	}
	verifrt.Reach("done")
}
