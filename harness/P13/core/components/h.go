package components

import (
	"github.com/sisu-network/dheart/utils"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifrt"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	"github.com/sisu-network/tss-lib/tss"
)

var verifSets = []string{"p0,p1", "p1,p2", "p0,p2"}

func verifSubset() map[string]*tss.PartyID {
	out := map[string]*tss.PartyID{}
	missing := verifrt.Choice("missing", 4)
	for i, p := range verifh.Parties(3) {
		if i != missing {
			out[p.Id] = p
		}
	}
	return out
}

// VerifPresignHandout: an arbitrary store, then requests one after the other
// or at once.
func VerifPresignHandout() {
	rows := verifrt.Param("rows")
	owner := map[string]string{}
	stock := make([]int, len(verifSets))
	used := map[string]bool{}
	fails, unsaved := false, false
	dbs := &verifh.DB{
		ShortForm: func() (ids []string, pids []string, err error) {
			k := verifrt.Concrete(verifrt.Int("rows", 1, rows))
			for i := 0; i < k; i++ {
				s := verifrt.Concrete(verifrt.Int("set", 0, 1))
				id := "old-" + string(rune('0'+i))
				owner[id] = verifSets[s]
				stock[s]++
				ids, pids = append(ids, id), append(pids, verifSets[s])
			}
			return
		},
		SavePresign: func(work string, pids []*tss.PartyID, out []*ecsigning.SignatureData_OneRoundData) error {
			if unsaved {
				return verifh.ErrDB
			}
			return nil
		},
		MarkUsed: func(ids []string) error {
			if verifrt.Param("concurrent") == 0 {
				fails = verifrt.Bool("fails")
			}
			if fails {
				return verifh.ErrDB
			}
			verifrt.HLock()
			for _, id := range ids {
				used[id] = true
			}
			verifrt.HUnlock()
			return nil
		},
	}
	m := NewAvailPresignManager(dbs)
	verifrt.Assert(m.Load() == nil, "store not loaded")
	if verifrt.Param("concurrent") == 0 && verifrt.Choice("add", 2) == 1 {
		ps := verifh.Parties(3)
		k := 1 + verifrt.Choice("new", 2)
		s := verifrt.Choice("newset", 3)
		pids := [][]*tss.PartyID{{ps[0], ps[1]}, {ps[1], ps[2]}, {ps[0], ps[2]}}[s]
		unsaved = verifrt.Choice("unsaved", 2) == 1
		m.AddPresign("new", pids, make([]*ecsigning.SignatureData_OneRoundData, k))
		for i := 0; i < k && !unsaved; i++ {
			owner["new-"+string(rune('0'+i))] = utils.GetPidString(pids)
			stock[s]++
		}
	}
	type res struct {
		ids  []string
		pids []*tss.PartyID
	}
	check := func(batch int, all map[string]*tss.PartyID, r res) {
		if len(r.ids) == 0 {
			return
		}
		verifrt.Reach("handed-out")
		verifrt.Assert(len(r.ids) == batch, "another number of presigns than asked for")
		for i, id := range r.ids {
			o, known := owner[id]
			verifrt.Assert(known, "a presign that does not exist")
			verifrt.Assert(used[id], "a presign handed out that is not marked used in the database")
			verifrt.Assert(len(r.pids) == 2, "wrong owners")
			s := ""
			for j, p := range r.pids {
				verifrt.Assert(p != nil && all[p.Id] == p, "an owner of the presigns is not available")
				if j > 0 {
					s += ","
				}
				s += p.Id
			}
			verifrt.Assert(s == o, "the presign belongs to other parties")
			for _, x := range r.ids[:i] {
				verifrt.Assert(x != id, "a presign is handed out twice")
			}
		}
	}
	if verifrt.Param("concurrent") == 0 {
		var seen []string
		for i := 0; i < verifrt.Param("gets"); i++ {
			batch := 1 + verifrt.Choice("batch", 2)
			all := verifSubset()
			fails = false
			var r res
			r.ids, r.pids = m.GetAvailablePresigns(batch, 2, all)
			check(batch, all, r)
			possible := false
			for s, set := range verifSets {
				_, a := all[set[:2]]
				_, b := all[set[3:]]
				if a && b && stock[s] >= batch {
					possible = true
				}
			}
			if len(r.ids) == 0 {
				verifrt.Assert(fails || !possible, "enough presigns of available owners exist but none are found")
				if fails && possible {
					return // unknown which ones are lost
				}
				continue
			}
			verifrt.Assert(!fails, "presigns handed out that could not be marked used")
			for _, id := range r.ids {
				for s, set := range verifSets {
					if owner[id] == set {
						stock[s]--
					}
				}
				for _, x := range seen {
					verifrt.Assert(x != id, "a presign is handed out twice")
				}
				seen = append(seen, id)
			}
		}
		verifrt.Reach("done")
		return
	}
	ps := verifh.Parties(3)
	all := map[string]*tss.PartyID{"p0": ps[0], "p1": ps[1], "p2": ps[2]}
	var rs [2]res
	var bs [2]int
	add := verifrt.Choice("adds", 3) // new presigns of which owners arrive at the same time
	if add > 0 {
		pids := [][]*tss.PartyID{{ps[0], ps[1]}, {ps[0], ps[2]}}[add-1]
		owner["new-0"] = utils.GetPidString(pids)
		stock[2-(add&1)*2]++
		go m.AddPresign("new", pids, make([]*ecsigning.SignatureData_OneRoundData, 1))
	}
	for i := range rs {
		i := i
		if i == 1 && add > 0 {
			break
		}
		bs[i] = verifrt.Concrete(verifrt.Int("batch", 1, 2))
		go func() {
			a, b := m.GetAvailablePresigns(bs[i], 2, all)
			verifrt.HLock()
			rs[i] = res{a, b}
			verifrt.HUnlock()
		}()
	}
	verifrt.Assert(verifrt.Drain(0) == 0, "a request for presigns never returns")
	for i := range rs {
		check(bs[i], all, rs[i])
	}
	for _, a := range rs[0].ids {
		for _, b := range rs[1].ids {
			verifrt.Assert(a != b, "a presign is handed out twice")
		}
	}
	got, _ := m.GetAvailablePresigns(1, 2, all)
	total := stock[0] + stock[1] + stock[2] - len(rs[0].ids) - len(rs[1].ids)
	verifrt.Assert(len(got) == 1 == (total > 0), "presigns lost or invented")
	verifrt.Reach("done")
}

var verifGroups = []string{"p0,p1,p2", "p0,p1,p3", "p0,p1", "p0,p1,p2,p3", "p1,p2"}

// VerifGroups: presigns of owner groups of several sizes that contain each
// other, stored earlier or made since, and any set of available parties.
func VerifGroups() {
	ps := verifh.Parties(4)
	owner := map[string]string{}
	used := map[string]bool{}
	dbs := &verifh.DB{
		ShortForm: func() (ids []string, pids []string, err error) {
			if k := verifrt.Choice("old", len(verifGroups)+1); k > 0 {
				owner["old-0"] = verifGroups[k-1]
				return []string{"old-0"}, []string{verifGroups[k-1]}, nil
			}
			return
		},
		SavePresign: func(work string, pids []*tss.PartyID, out []*ecsigning.SignatureData_OneRoundData) error { return nil },
		MarkUsed: func(ids []string) error {
			for _, id := range ids {
				used[id] = true
			}
			return nil
		},
	}
	m := NewAvailPresignManager(dbs)
	verifrt.Assert(m.Load() == nil, "store not loaded")
	for i := 0; i < verifrt.Param("news"); i++ {
		g := verifGroups[verifrt.Choice("group", len(verifGroups))]
		var pids []*tss.PartyID
		for j := 0; j < len(g); j += 3 {
			pids = append(pids, ps[g[j+1]-'0'])
		}
		id := "new" + string(rune('a'+i))
		m.AddPresign(id, pids, make([]*ecsigning.SignatureData_OneRoundData, 1))
		owner[id+"-0"] = g
	}
	all := map[string]*tss.PartyID{}
	for _, p := range ps {
		if verifrt.Bool("available") {
			all[p.Id] = p
		}
	}
	can := func(g string) bool {
		for j := 0; j < len(g); j += 3 {
			if all[g[j:j+2]] == nil {
				return false
			}
		}
		return true
	}
	left := map[string]string{}
	for id, g := range owner {
		if can(g) {
			left[id] = g
		}
	}
	for {
		ids, pids := m.GetAvailablePresigns(1, len(ps), all)
		if len(ids) == 0 {
			break
		}
		verifrt.Assert(len(ids) == 1 && left[ids[0]] != "", "a presign is handed out again or without its owners")
		g := left[ids[0]]
		delete(left, ids[0])
		verifrt.Assert(used[ids[0]], "a presign handed out that is not marked used in the database")
		verifrt.Assert(utils.GetPidString(pids) == g, "the presign belongs to other parties")
		for _, p := range pids {
			verifrt.Assert(all[p.Id] == p, "an owner of the presigns is not available")
		}
		verifrt.Reach("given")
	}
	verifrt.Assert(len(left) == 0, "presigns of available owners are not found")
	verifrt.Reach("empty")
}
