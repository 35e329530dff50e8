package components

import (
	"time"

	"github.com/sisu-network/dheart/core/message"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifrt"
	wTypes "github.com/sisu-network/dheart/worker/types"
	"github.com/sisu-network/tss-lib/tss"
)

type verifMsg struct {
	tss.ParsedMessage
	from *tss.PartyID
	typ  string
}

func (m *verifMsg) Type() string         { return m.typ }
func (m *verifMsg) GetFrom() *tss.PartyID { return m.from }

type verifMonCb struct{ got []map[string][]string }

func (c *verifMonCb) OnMissingMesssageDetected(m map[string][]string) {
	verifrt.HLock()
	c.got = append(c.got, m)
	verifrt.HUnlock()
}

// VerifMonitor: an arbitrary history of received messages, then silence.
func VerifMonitor() {
	n := verifrt.Param("n")
	ps := verifh.Parties(n)
	m := map[string]*tss.PartyID{}
	for _, p := range ps {
		m[p.Id] = p
	}
	work := []wTypes.WorkType{wTypes.EcKeygen, wTypes.EcSigning, wTypes.EdKeygen, wTypes.EdSigning}[verifrt.Choice("work", 4)]
	types := message.GetMessagesByWorkType(work)
	cb := &verifMonCb{}
	const T = 40 * time.Second
	mon := NewMessageMonitor(ps[0], work, cb, m, T)
	go mon.Start()
	recv := make([][]bool, n)
	for i := range recv {
		recv[i] = make([]bool, len(types))
	}
	max := -1
	k := verifrt.Concrete(verifrt.Int("received", 0, verifrt.Param("msgs")))
	for i := 0; i < k; i++ {
		// never silent for as long as the timeout
		time.Sleep(25 * time.Second)
		lo, hi := 0, n // n: a stranger
		kinds := verifrt.Param("types")
		if kinds > len(types) {
			kinds = len(types)
		}
		tmax := kinds
		if verifrt.Param("peers_only") > 0 {
			lo, hi, tmax = 1, n-1, tmax-1
		}
		from := verifrt.Concrete(verifrt.Int("from", lo, hi))
		typ := verifrt.Concrete(verifrt.Int("type", 0, tmax))
		msg := &verifMsg{typ: "unknown", from: tss.NewPartyID("px", "", verifh.Parties(1)[0].KeyInt())}
		if typ < kinds {
			msg.typ = types[typ]
		}
		if from < n {
			msg.from = ps[from]
		} else if i > 0 {
			verifrt.Stop() // strangers do not count as activity
		}
		mon.NewMessageReceived(msg, msg.from)
		if from < n && typ < kinds {
			recv[from][typ] = true
			if from > 0 && typ > max {
				max = typ
			}
		}
		if from < n {
			continue
		}
		break
	}
	if k > 0 {
		verifrt.Assert(len(cb.got) == 0, "messages are asked for although messages keep arriving")
	}
	if verifrt.Bool("stop") {
		mon.Stop()
		verifrt.Drain(1)
		verifrt.Drain(1)
		verifrt.Assert(len(cb.got) == 0, "messages are asked for after the end of the work")
		verifrt.Assert(verifrt.Drain(1) == 0, "the monitor never ends")
		verifrt.Reach("stopped")
		return
	}
	verifrt.Drain(1)
	if len(cb.got) == 0 {
		verifrt.Drain(1) // the current period had an arrival
	}
	want := make([][]int, n)
	some := false
	for p := 1; p < n; p++ {
		for t := 0; t <= max; t++ {
			if !recv[p][t] {
				want[p] = append(want[p], t)
				some = true
			}
		}
	}
	if !some && max < len(types)-1 {
		for p := 1; p < n; p++ {
			want[p] = []int{max + 1}
		}
		some = true
	}
	if !some {
		verifrt.Assert(len(cb.got) == 0, "messages are asked for although none is missing")
		verifrt.Reach("complete")
		return
	}
	verifrt.Assert(len(cb.got) == 1, "missing messages are not asked for after a silence")
	got := cb.got[0]
	_, self := got[ps[0].Id]
	verifrt.Assert(!self, "the node asks itself for messages")
	for p := 1; p < n; p++ {
		g := got[ps[p].Id]
		verifrt.Assert(len(g) == len(want[p]), "another set of messages than the missing ones is asked for")
		for i, t := range want[p] {
			verifrt.Assert(g[i] == types[t], "another message than the missing one is asked for")
		}
	}
	verifrt.Reach("done")
}
