package core

import (
	"encoding/json"
	"errors"
	"math/big"
	"time"

	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifp"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/dheart/worker"
	wTypes "github.com/sisu-network/dheart/worker/types"
	libchain "github.com/sisu-network/lib/chain"
	tsscommon "github.com/sisu-network/tss-lib/common"
	"github.com/sisu-network/tss-lib/crypto"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

const (
	verifNoFault = iota
	verifLost
	verifDelayed
	verifTwice
	verifDownNode
	verifSelectionLost
	verifLateSisu
	verifUnreachable // as a node that is down, but to find that out takes time
	verifCrash       // a node goes down as it sends a message of the protocol
	verifSlow        // a node takes long to send its messages of the protocol
)

// verifCluster is the network of several nodes.
type verifCluster struct {
	hearts []*Heart
	sisus  []*verifSisu
	saved  []int
	fault  int
	used   bool
	down   int

	n, run, late int
	nodes        []*Node
	marked       []bool
	works        []*verifWork
	presigned    bool
	sig          []byte
	point        *crypto.ECPoint
	owners       []int
}

type verifCable struct {
	c    *verifCluster
	from int
}

func (n verifCable) Start([]byte, string) error                   { return nil }
func (n verifCable) AddListener(protocol.ID, p2p.P2PDataListener) {}
func (n verifCable) IsReady() bool                                { return true }
func (n verifCable) WriteToStream(to peer.ID, p protocol.ID, b []byte) error {
	c := n.c
	i := 0
	for i < len(c.hearts) && verifh.Names[i] != string(to) {
		i++
	}
	verifrt.Assert(i < len(c.hearts) && i != n.from && p == p2p.TSSProtocolID, "a message is sent to nobody")
	if c.fault == verifUnreachable && i == c.down {
		time.Sleep(p2p.TimeoutConnecting)
	}
	if i == c.down || n.from == c.down {
		return errors.New("no connection")
	}
	m := &common.SignedMessage{}
	if err := verifDecode(b, m); err != nil {
		return err
	}
	here := false
	run := c.run
	update := m.TssMessage.Type == common.TssMessage_UPDATE_MESSAGES
	selection := m.TssMessage.Type == common.TssMessage_PRE_EXEC_OUTPUT || m.TssMessage.Type == common.TssMessage_AVAILABILITY_RESPONSE
	verifrt.HLock()
	if !c.used && (update && (c.fault >= verifLost && c.fault <= verifTwice || c.fault == verifCrash) || selection && c.fault == verifSelectionLost) && verifrt.Bool("here") {
		here, c.used = true, true
	}
	verifrt.HUnlock()
	take := func() {
		if c.run != run || i == c.down {
			return
		}
		c.hearts[i].engine.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: verifh.Names[n.from], Data: b})
	}
	if update && c.fault == verifSlow && n.from == c.late && m.From == verifh.Names[n.from] {
		time.Sleep(20 * time.Second)
	}
	if here {
		switch c.fault {
		case verifCrash:
			c.down = n.from
			return errors.New("no connection")
		case verifLost, verifSelectionLost:
			return nil
		case verifDelayed:
			go func() {
				time.Sleep(2 * time.Second)
				take()
			}()
			return nil
		case verifTwice:
			go take()
		}
	}
	go take()
	return nil
}

// round is the number of the round of a kind of message.
func verifRound(k verifp.Kind) byte {
	n := k.Name()
	for i := 0; i+6 < len(n); i++ {
		if n[i:i+5] == "Round" {
			return n[i+5]
		}
	}
	return 0
}

// verifState is the progress of one instance.
type verifState struct {
	next int // the next kind to send
	run  int
	got  map[string]bool
	over bool
}

var (
	verifStates map[*verifp.Party]*verifState
	verifQueue  chan func()
)

// verifStep sends the messages of the next rounds whose inputs have arrived.
func verifStep(p *verifp.Party) []func() {
	s := verifStates[p]
	kinds := verifp.Kinds(p)
	var out []func()
	for {
		for k := 0; k < s.next; k++ {
			for _, q := range p.Params.Parties().IDs() {
				if q.Id != p.Me.Id && !s.got[q.Id+string(rune(int(verifBase(p))+k))] {
					return out
				}
			}
		}
		if s.next == len(kinds) {
			if !s.over {
				s.over = true
				out = append(out, p.End)
			}
			return out
		}
		r := verifRound(kinds[s.next])
		for s.next < len(kinds) && verifRound(kinds[s.next]) == r {
			k := s.next
			s.next++
			out = append(out, func() { p.Send(k, func(string) []byte { return []byte{byte(s.run)} }) })
		}
	}
}

func verifAct(p *verifp.Party) {
	verifrt.HLock()
	acts := verifStep(p)
	verifrt.HUnlock()
	if len(acts) > 0 {
		go func() {
			for _, f := range acts {
				f()
			}
		}()
	}
}

// verifWork is a request of Sisu.
type verifWork struct {
	kind  int
	first int // number of its first message
	batch int
}

func (w *verifWork) keygen() bool { return w.kind < 2 }

// VerifCluster: all nodes get the same requests.
func VerifCluster() {
	c := verifNewCluster(verifrt.Param("nodes"), verifrt.Param("works"))
	c.fault = verifrt.Choice("fault", verifrt.Param("faults"))
	if c.fault == verifDownNode || c.fault == verifUnreachable {
		c.down = verifrt.Choice("down", c.n)
	}
	c.ready()
	late := -1
	if c.fault == verifLateSisu {
		late = verifrt.Choice("late", c.n)
	}
	c.request(late)
	verifrt.Assert(verifrt.Drain(-1) == 0, "the nodes are stuck")
	c.check()
}

// VerifRepeat: a work that failed is requested again when the network is well.
func VerifRepeat() {
	c := verifNewCluster(verifrt.Param("nodes"), 1)
	c.fault = []int{verifSelectionLost, verifCrash, verifDownNode, verifUnreachable}[verifrt.Choice("fault", verifrt.Param("faults1"))]
	if c.fault == verifDownNode || c.fault == verifUnreachable {
		c.down = verifrt.Choice("down", c.n)
	}
	c.ready()
	c.request(-1)
	verifrt.Assert(verifrt.Drain(-1) == 0, "the nodes are stuck")
	for i, s := range c.sisus {
		for _, r := range s.keygens {
			if r.Outcome == htypes.OutcomeSuccess {
				verifrt.Stop() // no failure
			}
		}
		for _, r := range s.keysigns {
			if r.Outcome != htypes.OutcomeFailure {
				verifrt.Stop()
			}
		}
		if i != c.down {
			verifrt.Assert(c.hearts[i].engine.GetActiveWorkerCount() == 0, "a work is not over")
			verifrt.Assert(len(s.keygens)+len(s.keysigns) == 1, "not exactly one result is reported")
		}
		*s = verifSisu{}
		c.saved[i] = 0
	}
	if c.fault == verifCrash {
		verifrt.Assume(c.down >= 0)
		verifrt.Reach("crashed")
	}
	if c.down >= 0 && (c.fault == verifCrash || verifrt.Bool("restarted")) {
		c.start(c.down)
	}
	c.down, c.used, c.run = -1, false, 1
	c.fault = []int{verifNoFault, verifLateSisu, verifSlow, verifLost}[verifrt.Param("from")+verifrt.Choice("fault2", verifrt.Param("faults"))]
	late := -1
	if c.fault == verifLateSisu || c.fault == verifSlow {
		late = verifrt.Choice("late", c.n)
	}
	c.late = late
	if c.fault != verifLateSisu {
		late = -1
	}
	c.request(late)
	verifrt.Assert(verifrt.Drain(-1) == 0, "the nodes are stuck")
	c.check()
	verifrt.Reach("repeated")
}

func verifNewCluster(n, nw int) *verifCluster {
	verifLongNames()
	verifp.List = nil
	verifStates = map[*verifp.Party]*verifState{}
	var works []*verifWork
	messages := 0
	for i := 0; i < nw; i++ {
		w := &verifWork{batch: 1, first: messages}
		switch {
		case nw == 1:
			w.kind = verifrt.Choice("kind", verifrt.Param("kinds")) // the last one signs from presigns
		case i == 0:
			w.kind = verifrt.Choice("kind", 4)
		default:
			w.kind = 2 + verifrt.Choice("kind", 2)
		}
		if w.kind >= 2 {
			w.batch = verifrt.Param("batch")
			messages += w.batch
		}
		works = append(works, w)
	}
	presigned := nw == 1 && works[0].kind == 4
	worker.VerifLeaderIndex = verifrt.Choice("leader", verifrt.Param("leaders"))
	c := &verifCluster{n: n, works: works, presigned: presigned, down: -1, late: -1}
	nodes := verifNodes(n)
	verifKnown = nodes
	point := crypto.NewECPointNoCurveCheck(nil, big.NewInt(5), big.NewInt(6))
	sig := verifrt.Bytes("sig", messages)
	verifp.EcKey = func(*verifp.Party) *eckeygen.LocalPartySaveData { return &eckeygen.LocalPartySaveData{ECDSAPub: point} }
	verifp.EdKey = func(*verifp.Party) *edkeygen.LocalPartySaveData { return &edkeygen.LocalPartySaveData{EDDSAPub: point} }
	of := func(p *verifp.Party) *tsscommon.ECSignature {
		b := make([]byte, 32)
		b[0], b[31] = byte(p.Msg.Int64()), sig[p.Msg.Int64()-1]
		return &tsscommon.ECSignature{R: b, S: b, Signature: append(append([]byte{}, b...), b...), SignatureRecovery: []byte{0}}
	}
	verifp.EcSig, verifp.EdSig = of, of
	verifp.OnStart = func(p *verifp.Party) *tss.Error {
		verifrt.HLock()
		if verifStates[p] == nil {
			verifStates[p] = &verifState{got: map[string]bool{}, run: c.run}
		}
		verifrt.HUnlock()
		verifAct(p)
		return nil
	}
	verifp.OnUpdate = func(p *verifp.Party, w *verifp.Wire) *tss.Error {
		verifrt.HLock()
		s := verifStates[p]
		if s == nil {
			s = &verifState{got: map[string]bool{}, run: c.run}
			verifStates[p] = s
		}
		stale := "a message of the failed work gets into the repeated one"
		if c.fault == verifSlow {
			stale = "a message of the failed work is relayed in place of the one of a slow node in the repeated work"
		}
		verifrt.Assert(len(w.Payload) == 1 && int(w.Payload[0]) == s.run, stale)
		s.got[w.From.Id+string(rune(w.ID))] = true
		started := s.next > 0
		verifrt.HUnlock()
		if started {
			verifAct(p)
		}
		return nil
	}
	verifp.WireBase = verifBase
	verifp.WireKinds = make([]verifp.Kind, 5*16)
	for _, p := range []*verifp.Party{{Kind: wTypes.EcKeygen}, {Kind: wTypes.EdKeygen}, {Kind: wTypes.EcSigning, Msg: big.NewInt(1)},
		{Kind: wTypes.EdSigning}, {Kind: wTypes.EcSigning, Presign: &ecsigning.SignatureData_OneRoundData{}}} {
		copy(verifp.WireKinds[verifBase(p):], verifp.Kinds(p))
	}
	c.nodes, c.sig, c.point = nodes, sig, point
	return c
}

// ready starts all nodes.
func (c *verifCluster) ready() {
	n, presigned := c.n, c.presigned
	c.saved, c.marked = make([]int, n), make([]bool, n)
	owners := []int{0, 1}
	if presigned {
		owners[1] = 1 + verifrt.Choice("owner", n-1)
		if n > 3 {
			owners = append(owners, 3)
			if owners[1] == 3 {
				owners[1] = 2
			}
		}
	}
	c.owners = owners
	c.hearts, c.sisus = make([]*Heart, n), make([]*verifSisu, n)
	for i := 0; i < n; i++ {
		c.sisus[i] = &verifSisu{}
		c.start(i)
	}
}

// start starts a node, possibly again.
func (c *verifCluster) start(i int) {
	n, presigned, works, point, owners := c.n, c.presigned, c.works, c.point, c.owners
	db := &verifh.DB{}
	db.PreparamsF = func() (*eckeygen.LocalPreParams, error) { return &eckeygen.LocalPreParams{}, nil }
	db.EcKey = func(string) (*eckeygen.LocalPartySaveData, error) {
		return &eckeygen.LocalPartySaveData{ECDSAPub: point}, nil
	}
	db.EdKey = func(string) (*edkeygen.LocalPartySaveData, error) {
		return &edkeygen.LocalPartySaveData{EDDSAPub: point}, nil
	}
	db.EcKeygenSave = func(string, string, []*tss.PartyID, *eckeygen.LocalPartySaveData) error { c.saved[i]++; return nil }
	db.EdKeygenSave = func(string, string, []*tss.PartyID, *edkeygen.LocalPartySaveData) error { c.saved[i]++; return nil }
	if presigned {
		verifPresigns(c, db, i, owners, works[0].batch)
	}
	s := c.sisus[i]
	h := NewHeart(config.HeartConfig{}, s)
	h.db, h.cm = db, verifCable{c, i}
	mine := verifNodes(n)
	h.engine = NewEngine(mine[i], h.cm, db, h, &verifKey{name: verifh.Names[i]}, config.NewDefaultTimeoutConfig())
	h.engine.AddNodes(mine)
	if presigned {
		verifrt.Assert(h.engine.Init() == nil, "the engine does not start")
	}
	h.SetSisuReady(true)
	c.hearts[i] = h
}

// request sends the requests of Sisu to all nodes that are up.
func (c *verifCluster) request(late int) {
	works, nodes := c.works, c.nodes
	for i := range c.hearts {
		i := i
		if i == c.down {
			continue
		}
		go func() {
			if i == late {
				time.Sleep(5 * time.Second)
			}
			keys := verifKeys(nodes)
			if i == 1 { // the order is not the same everywhere
				keys = append([]ctypes.PubKey{keys[len(keys)-1]}, keys[:len(keys)-1]...)
			}
			for k := range works {
				w := works[k]
				if i == 1 {
					w = works[len(works)-1-k]
				}
				var err error
				switch w.kind {
				case 0:
					err = c.hearts[i].Keygen("kg", libchain.KEY_TYPE_ECDSA, keys)
				case 1:
					err = c.hearts[i].Keygen("kg", libchain.KEY_TYPE_EDDSA, keys)
				default:
					req := &htypes.KeysignRequest{KeyType: []string{libchain.KEY_TYPE_ECDSA, libchain.KEY_TYPE_EDDSA, libchain.KEY_TYPE_ECDSA}[w.kind-2]}
					for k := 0; k < w.batch; k++ {
						m := w.first + k
						req.KeysignMessages = append(req.KeysignMessages, &htypes.KeysignMessage{Id: verifh.Names[m], OutChain: "c", BytesToSign: []byte{byte(m) + 1}})
					}
					err = c.hearts[i].Keysign(req, keys)
				}
				verifrt.Assert(err == nil, "a request is refused")
			}
		}()
	}
}

// check checks the results of all nodes.
func (c *verifCluster) check() {
	n, nw, works, presigned, sig := c.n, len(c.works), c.works, c.presigned, c.sig

	for _, p := range verifp.List {
		if presigned && p.Presign != nil {
			verifrt.Assert(int64(p.Presign.T) == p.Msg.Int64(), "a presign is used for another message")
			verifrt.Reach("presigned")
		}
	}
	leaderDown := c.down == worker.VerifLeaderIndex
	for _, w := range works {
		success, notSelected, failed, up := 0, 0, 0, 0
		for i, s := range c.sisus {
			if i == c.down {
				verifrt.Assert(len(s.keygens)+len(s.keysigns) == 0, "a node that is down reports a result")
				continue
			}
			up++
			verifrt.Assert(c.hearts[i].engine.GetActiveWorkerCount() == 0, "a work is not over")
			verifrt.Assert(len(s.keygens)+len(s.keysigns) == nw, "not exactly one result is reported")
			if w.keygen() {
				verifrt.Assert(len(s.keygens) == 1, "not exactly one result is reported")
				r := s.keygens[0]
				verifrt.Assert(r.Outcome == htypes.OutcomeSuccess || r.Outcome == htypes.OutcomeFailure, "a key generation has another outcome")
				verifrt.Assert((c.saved[i] == 1) == (r.Outcome == htypes.OutcomeSuccess), "a key is reported that is not stored")
				if r.Outcome == htypes.OutcomeSuccess {
					success++
					verifrt.Assert(len(r.PubKeyBytes) > 0, "no key is reported")
				} else {
					failed++
				}
				continue
			}
			var r *htypes.KeysignResult
			for _, o := range s.keysigns {
				if o.Request.KeysignMessages[0].Id == verifh.Names[w.first] {
					verifrt.Assert(r == nil, "not exactly one result is reported")
					r = o
				}
			}
			verifrt.Assert(r != nil, "not exactly one result is reported")
			switch r.Outcome {
			case htypes.OutcomeSuccess:
				success++
				verifrt.Assert(len(r.Signatures) == w.batch, "signatures are missing")
				for k, g := range r.Signatures {
					m := w.first + k
					verifrt.Assert(len(g) >= 64 && g[0] == byte(m)+1 && verifrt.And(g[31] == sig[m], g[63] == sig[m]), "a node reports another signature")
				}
			case htypes.OutcomeFailure:
				failed++
			case htypes.OutcometNotSelected:
				notSelected++
			default:
				verifrt.Assert(false, "a signing has another outcome")
			}
		}
		verifrt.Assert(success+notSelected+failed == up, "results are missing")
		switch {
		case c.fault == verifSelectionLost && c.used:
			verifrt.Reach("selection lost") // whoever is left behind fails; everybody reports
		case nw > MaxWorker:
			verifrt.Reach("many") // works may wait for each other until they are given up
		case leaderDown || c.down >= 0 && w.keygen():
			verifrt.Assert(failed == up, "a work without its leader or without enough nodes does not fail")
			verifrt.Reach("failed")
		case w.keygen():
			verifrt.Assert(success == n, "a key generation fails although all nodes take part")
			verifrt.Reach("keygen")
		default:
			verifrt.Assert(failed == 0 && success >= 2, "a signing fails although enough nodes take part")
			verifrt.Reach("signing")
			if presigned && c.down < 0 {
				verifrt.Reach("presigns")
			}
			if notSelected > 0 {
				verifrt.Reach("not selected")
			}
		}
	}
}

// verifPresigns gives a node the presigns of the owners.
func verifPresigns(c *verifCluster, db *verifh.DB, i int, owners []int, batch int) {
	db.ShortForm = func() ([]string, []string, error) {
		var ids, pids []string
		if c.marked[i] {
			return nil, nil, nil
		}
		for k := 0; k < batch; k++ {
			ids = append(ids, "w-"+string(rune('0'+k)))
			l := ""
			for j, o := range owners {
				if j > 0 {
					l += ","
				}
				l += verifh.Names[o]
			}
			pids = append(pids, l)
		}
		return ids, pids, nil
	}
	db.Presign = func(ids []string) ([]*ecsigning.SignatureData_OneRoundData, error) {
		var out []*ecsigning.SignatureData_OneRoundData
		for _, o := range owners {
			for k := range ids {
				if o == i {
					out = append(out, &ecsigning.SignatureData_OneRoundData{T: int32(k) + 1})
				}
			}
		}
		return out, nil
	}
	db.MarkUsed = func([]string) error { c.marked[i] = true; return nil }
}

// verifBase is where the kinds of messages of an instance are in the list of all.
func verifBase(p *verifp.Party) byte {
	switch {
	case p.Kind == wTypes.EcKeygen:
		return 0
	case p.Kind == wTypes.EdKeygen:
		return 16
	case p.Kind == wTypes.EdSigning:
		return 48
	case p.Presign != nil:
		return 64
	}
	return 32
}

func verifDecode(b []byte, m *common.SignedMessage) error { return json.Unmarshal(b, m) }
