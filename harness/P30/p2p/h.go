package p2p

import (
	"errors"
	"io"

	"github.com/libp2p/go-libp2p/core/network"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/verifrt"
)

type verifConn struct{ network.Conn }

func (verifConn) RemotePeer() peer.ID { return peer.ID("peer") }

// verifPeerString: a peer is written as its name.
//
//verif:stub (github.com/libp2p/go-libp2p/core/peer.ID).String
func verifPeerString(id peer.ID) string { return string(id) }

// verifStream is one direction of a stream: what is written is read in pieces
// of arbitrary sizes.
type verifStream struct {
	network.Stream
	data   []byte
	end    error
	pieces int // reads that may be short
	reset  bool
	onRead func(s *verifStream)
}

func (s *verifStream) Write(b []byte) (int, error) {
	s.data = append(s.data, b...)
	return len(b), nil
}

func (s *verifStream) Read(b []byte) (int, error) {
	if s.onRead != nil {
		s.onRead(s)
	}
	if len(s.data) == 0 {
		return 0, s.end
	}
	n := len(s.data)
	if len(b) < n {
		n = len(b)
	}
	if s.pieces > 0 && n > 1 {
		s.pieces--
		n = 1 + verifrt.Choice("piece", n)
	}
	copy(b, s.data[:n])
	s.data = s.data[n:]
	return n, nil
}
func (s *verifStream) Reset() error          { s.reset = true; return nil }
func (s *verifStream) Close() error          { s.reset = true; return nil }
func (s *verifStream) Conn() network.Conn    { return verifConn{} }
func (s *verifStream) Protocol() protocol.ID { return TSSProtocolID }

func verifMsgs(k int) [][]byte {
	var out [][]byte
	for i := 0; i < k; i++ {
		n := verifrt.Concrete(verifrt.Int("len", 0, verifrt.Param("len")))
		out = append(out, verifrt.Bytes("msg", n))
	}
	return out
}

func verifSame(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = verifrt.And(ok, a[i] == b[i])
	}
	return ok
}

// VerifFraming: messages written to a stream one after the other are read one
// by one, however the network cuts the stream into pieces.
func VerifFraming() {
	msgs := verifMsgs(verifrt.Param("msgs"))
	s := &verifStream{end: io.EOF, pieces: verifrt.Param("pieces")}
	for _, m := range msgs {
		verifrt.Assert(WriteStreamWithBuffer(m, s) == nil, "a message cannot be written")
	}
	cut := -1
	if verifrt.Bool("cut") {
		cut = verifrt.Concrete(verifrt.Int("cut_at", 0, len(s.data)-1))
		s.data = s.data[:cut]
		s.end = errors.New("connection lost")
	}
	at := 0
	var gots [][]byte
	for _, m := range msgs {
		got, err := ReadStreamWithBuffer(s)
		at += HeaderLength + len(m)
		if cut >= 0 && at > cut {
			verifrt.Assert(err != nil, "a message that was cut off is handed out")
			verifrt.Reach("cut")
			return
		}
		verifrt.Assert(err == nil, "a message is not read")
		verifrt.Assert(verifSame(got, m), "a message is read with another content")
		gots = append(gots, got)
	}
	for i, m := range msgs {
		verifrt.Assert(verifSame(gots[i], m), "a message changes when the next one is read")
	}
	_, err := ReadStreamWithBuffer(s)
	verifrt.Assert(err != nil, "a message is made up")
	verifrt.Reach("done")
}

// VerifHeader: a header that announces too much is refused.
func VerifHeader() {
	h := verifrt.Bytes("header", HeaderLength)
	s := &verifStream{end: io.EOF, data: append(append([]byte{}, h...), 1, 2)}
	n := uint32(h[0]) | uint32(h[1])<<8 | uint32(h[2])<<16 | uint32(h[3])<<24
	verifrt.Assume(verifrt.Or(n <= 3, n > MaxPayload))
	got, err := ReadStreamWithBuffer(s)
	if n > 2 {
		verifrt.Assert(err != nil, "a message that was announced too long is accepted")
		verifrt.Assert(n <= MaxPayload || len(s.data) == 2, "a message that was announced too long is read")
		verifrt.Reach("refused")
		return
	}
	verifrt.Assert(err == nil && len(got) == int(n), "a message of the announced length is not read")
	verifrt.Reach("accepted")
}

type verifListener struct{ got []*ptypes.P2PMessage }

func (l *verifListener) OnNetworkMessage(m *ptypes.P2PMessage) {
	verifrt.HLock()
	l.got = append(l.got, m)
	verifrt.HUnlock()
}

// VerifHandle: the messages of a stream reach the listener that is there when
// they arrive; those that come before it do no harm.
func VerifHandle() {
	k := verifrt.Param("msgs")
	cm := NewConnectionManager(ptypes.ConnectionsConfig{}).(*DefaultConnectionManager)
	l := &verifListener{}
	s := &verifStream{end: io.EOF}
	ready := verifrt.Concrete(verifrt.Int("ready_at", 0, k))
	sent := 0
	s.onRead = func(s *verifStream) {
		if len(s.data) > 0 {
			return
		}
		if sent == ready {
			cm.AddListener(TSSProtocolID, l)
		}
		if sent < k {
			WriteStreamWithBuffer([]byte{byte(sent)}, s)
			sent++
		}
	}
	cm.handleStream(s)
	verifrt.Drain(0)
	verifrt.Assert(sent == k, "a stream is not read to its end")
	verifrt.Assert(len(l.got) == k-ready, "a message does not reach the listener once")
	seen := make([]bool, k)
	for _, m := range l.got {
		verifrt.Assert(m.FromPeerId == "peer", "a message is attributed to another peer")
		verifrt.Assert(len(m.Data) == 1 && int(m.Data[0]) >= ready && !seen[m.Data[0]], "a message does not reach the listener once")
		seen[m.Data[0]] = true
	}
	verifrt.Reach("done")
}
