package blame

import (
	"math/big"

	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/tss-lib/tss"
)

// VerifBlame: an arbitrary history of reports about arbitrary works, rounds and
// parties; the culprits of one round are exactly the participants that sent
// nothing in it or were reported in it.
func VerifBlame() {
	m := NewManager()
	all := map[string]*tss.PartyID{}
	names := []string{"a", "b"}
	for i, s := range names {
		all[s] = tss.NewPartyID(s, "", big.NewInt(int64(i+1)))
	}
	var pids []*tss.PartyID
	for i, s := range append(names, "x") {
		pids = append(pids, tss.NewPartyID(s, "", big.NewInt(int64(i+1))))
	}
	var sent, bad [2]bool
	qw := verifrt.Str("qwork", 1)
	other := verifrt.Str("work", 1)
	verifrt.Assume(other != qw)
	qr := verifrt.Concrete(verifrt.Int("qround", 1, 2))
	n := verifrt.Param("steps")
	for i := 0; i < n; i++ {
		op := verifrt.Choice("op", 2)
		who := verifrt.Choice("who", 3)
		w := []string{qw, other}[verifrt.Choice("which", 2)]
		r := 1 + verifrt.Choice("round", 2)
		match := w == qw && r == qr
		if op == 0 {
			m.AddSender(w, uint32(r), pids[who].Id)
			if match && who < 2 {
				sent[who] = true
			}
		} else {
			m.AddCulpritByRound(w, uint32(r), []*tss.PartyID{pids[who]})
			if match && who < 2 {
				bad[who] = true
			}
		}
	}
	got := m.GetRoundCulprits(qw, uint32(qr), all)
	total := 0
	for i := range names {
		k := 0
		for _, g := range got {
			if g.Id == names[i] {
				verifrt.Assert(g == all[names[i]], "culprit is not the participant's identity")
				k++
			}
		}
		total += k
		if !sent[i] || bad[i] {
			verifrt.Assert(k == 1, "a silent or reported participant is not blamed exactly once")
		} else {
			verifrt.Assert(k == 0, "a participant that sent its message and was not reported is blamed")
		}
	}
	verifrt.Assert(total == len(got), "someone outside the committee is blamed")
	verifrt.Assert(len(m.GetPreExecutionCulprits()) == 0, "a round's report became a pre-execution culprit")
	verifrt.Reach("done")
}

// VerifPreExecution: the culprits of the time before execution are those
// reported, in order, whatever was reported about rounds meanwhile.
func VerifPreExecution() {
	m := NewManager()
	var pre []*tss.PartyID
	n := verifrt.Param("reports")
	for i := 0; i < n; i++ {
		var batch []*tss.PartyID
		k := verifrt.Concrete(verifrt.Int("batch", 0, 2))
		for j := 0; j < k; j++ {
			batch = append(batch, tss.NewPartyID(verifrt.Str("who", 1), "", big.NewInt(1)))
		}
		if verifrt.Bool("round") {
			m.AddCulpritByRound(verifrt.Str("work", 1), uint32(1), batch)
		} else {
			m.AddPreExecutionCulprit(batch)
			pre = append(pre, batch...)
		}
	}
	gp := m.GetPreExecutionCulprits()
	verifrt.Assert(len(gp) == len(pre), "pre-execution culprits lost or invented")
	for i := range gp {
		verifrt.Assert(gp[i] == pre[i], "pre-execution culprit changed")
	}
	verifrt.Reach("done")
}

// VerifBlameKeys: what is reported about one work and round does not show in another.
func VerifBlameKeys() {
	m := NewManager()
	a := tss.NewPartyID("a", "", big.NewInt(1))
	all := map[string]*tss.PartyID{"a": a}
	works := []string{"w", "w1", "w:1", "w-1", "w_1", "w/1", "w 1", ""}
	rounds := []uint32{1, 2, 11, 111}
	w, q := works[verifrt.Choice("work", len(works))], works[verifrt.Choice("qwork", len(works))]
	r, s := rounds[verifrt.Choice("round", len(rounds))], rounds[verifrt.Choice("qround", len(rounds))]
	same := w == q && r == s
	if verifrt.Bool("sent") {
		m.AddSender(w, r, "a")
		verifrt.Assert((len(m.GetRoundCulprits(q, s, all)) == 0) == same, "a message counts for another work or round")
	} else {
		m.AddSender(q, s, "a")
		m.AddCulpritByRound(w, r, []*tss.PartyID{a})
		verifrt.Assert((len(m.GetRoundCulprits(q, s, all)) == 1) == same, "a report counts for another work or round")
	}
	verifrt.Reach("done")
}
