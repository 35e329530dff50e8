package db

import (
	"math/big"

	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/verifrt"
	libchain "github.com/sisu-network/lib/chain"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

func verifPids(n int) []*tss.PartyID {
	var out []*tss.PartyID
	for i := n - 1; i >= 0; i-- { // not in order
		out = append(out, tss.NewPartyID("p"+string(rune('0'+i)), "", big.NewInt(int64(i+1))))
	}
	return out
}

// VerifPresigns: any sequence of saving and using presigns.
func VerifPresigns() {
	d := verifOpen()
	type presign struct {
		id, pids string
		ki       []byte
		used     bool
	}
	var have []*presign
	works := map[string]bool{}
	clock := 1
	for op, n := 0, verifrt.Param("ops"); op < n; op++ {
		switch verifrt.Choice("op", 3) {
		case 0: // save
			w := []string{"w", "w-1"}[verifrt.Choice("work", 2)]
			batch := verifrt.Choice("batch", 3)
			parties := 2 + len(have)%2
			var outs []*ecsigning.SignatureData_OneRoundData
			for i := 0; i < batch; i++ {
				outs = append(outs, &ecsigning.SignatureData_OneRoundData{PartyId: "p0", KI: verifrt.Bytes("ki", 2)})
			}
			err := d.SavePresignData(w, verifPids(parties), outs)
			if batch > 0 && works[w] {
				verifrt.Assert(err != nil, "the presigns of a work are replaced")
				break
			}
			verifrt.Assert(err == nil, "presigns cannot be saved")
			if batch > 0 {
				works[w] = true
			}
			if len(have) > 0 {
				clock += verifrt.Choice("later", 2)
			}
			verifStamp(d, "presign", clock)
			for i := 0; i < batch; i++ {
				have = append(have, &presign{id: w + "-" + string(rune('0'+i)), pids: "p0,p1,p2"[:parties*3-1], ki: append([]byte{}, outs[i].KI...)})
			}
			verifrt.Reach("saved")
		case 1: // use
			ids, _ := verifAsk(2)
			verifrt.Assert(d.UpdatePresignStatus(ids) == nil, "presigns cannot be marked as used")
			for _, p := range have {
				for _, id := range ids {
					p.used = p.used || p.id == id
				}
			}
			verifrt.Reach("used")
		case 2: // the connection breaks
			if verifrt.Choice("how", 2) == 1 {
				var err error
				cut := false
				switch verifrt.Choice("call", 3) {
				case 0:
					cut = verifCutOff(func() { _, err = d.LoadPresign([]string{"w-0", "w-1"}) })
				case 1:
					cut = verifCutOff(func() { _, err = d.LoadPresignStatus([]string{"w-0", "w-1"}) })
				case 2:
					cut = verifCutOff(func() { _, _, err = d.GetAvailablePresignShortForm() })
				}
				verifrt.Assert(!cut || err != nil, "a failure is not reported")
				verifrt.Assert(verifLeaks() == 0, "a result set is left open")
				verifrt.Reach("cut off")
				return
			}
			verifBreak(d)
			_, e1 := d.LoadPresign([]string{"w-0"})
			_, e2 := d.LoadPresignStatus([]string{"w-0"})
			_, _, e3 := d.GetAvailablePresignShortForm()
			e4 := d.UpdatePresignStatus([]string{"w-0"})
			e5 := d.SavePresignData("w", verifPids(2), []*ecsigning.SignatureData_OneRoundData{{PartyId: "p0"}})
			verifrt.Assert(e1 != nil && e2 != nil && e3 != nil && e4 != nil && e5 != nil, "a failure is not reported")
			verifrt.Reach("broken")
			return
		}
	}
	// what is available
	ids, pids, err := d.GetAvailablePresignShortForm()
	verifrt.Assert(err == nil && len(ids) == len(pids), "presigns cannot be listed")
	free := 0
	for _, p := range have {
		n := 0
		for i := range ids {
			if ids[i] == p.id {
				n++
				verifrt.Assert(pids[i] == p.pids, "a presign is listed for another committee")
			}
		}
		if p.used {
			verifrt.Assert(n == 0, "a used presign is available again")
		} else {
			verifrt.Assert(n == 1, "an unused presign is not listed once")
			free++
		}
	}
	verifrt.Assert(len(ids) == free, "presigns are listed that do not exist")
	// what is loaded
	ask, repeats := verifAsk(verifrt.Param("ask"))
	missing := 0
	for _, id := range ask {
		found := false
		for _, p := range have {
			found = found || p.id == id
		}
		if !found {
			missing++
		}
	}
	data, err := d.LoadPresign(ask)
	status, err2 := d.LoadPresignStatus(ask)
	if missing > 0 || repeats {
		verifrt.Assert(err != nil || len(data) < len(ask), "presigns are loaded that do not exist, or one of them twice")
		verifrt.Assert(err2 != nil || len(status) < len(ask), "presigns are loaded that do not exist, or one of them twice")
		verifrt.Reach("missing")
		return
	}
	verifrt.Assert(err == nil && err2 == nil && len(data) == len(ask) && len(status) == len(ask), "presigns cannot be loaded")
	for i, id := range ask {
		for _, p := range have {
			if p.id == id {
				verifrt.Assert(len(data[i].KI) == 2 && verifrt.And(data[i].KI[0] == p.ki[0], data[i].KI[1] == p.ki[1]) && data[i].PartyId == "p0", "a presign is loaded in the place of another")
				verifrt.Assert(status[i] == PresignStatusNotUsed == !p.used, "the status of another presign is loaded")
			}
		}
	}
	verifrt.Assert(verifLeaks() == 0, "a result set is left open")
	verifrt.Reach("loaded")
}

// verifAsk is a list of 1..n ids and whether one is in it twice.
func verifAsk(n int) ([]string, bool) {
	var ids []string
	repeats := false
	for i, k := 0, 1+verifrt.Choice("n", n); i < k; i++ {
		id := []string{"w-0", "w-1", "w-1-0"}[verifrt.Choice("id", 3)]
		for _, o := range ids {
			repeats = repeats || o == id
		}
		ids = append(ids, id)
	}
	return ids, repeats
}

// VerifKeys: keys and preparams are loaded as they were saved.
func VerifKeys() {
	d := verifOpen()
	_, err := d.LoadPreparams()
	verifrt.Assert(err == ErrNotFound, "preparams are loaded that were not saved")
	type key struct {
		work string
		val  int64
	}
	have := map[string][]key{}
	var pre int64
	for op, n := 0, verifrt.Param("ops"); op < n; op++ {
		v := int64(verifrt.Int("value", 1, 1<<40))
		work := []string{"a", "b"}[verifrt.Choice("work", 2)]
		var t string
		switch verifrt.Choice("op", 4) {
		case 0:
			t = libchain.KEY_TYPE_ECDSA
			err = d.SaveEcKeygen(t, work, verifPids(2), &eckeygen.LocalPartySaveData{LocalSecrets: eckeygen.LocalSecrets{Xi: big.NewInt(v)}})
		case 1:
			t = libchain.KEY_TYPE_EDDSA
			err = d.SaveEdKeygen(t, work, verifPids(2), &edkeygen.LocalPartySaveData{LocalSecrets: edkeygen.LocalSecrets{Xi: big.NewInt(v)}})
		case 2:
			err = d.SavePreparams(&eckeygen.LocalPreParams{P: big.NewInt(v)})
			verifrt.Assert((err == nil) == (pre == 0), "preparams are replaced or cannot be saved")
			if pre == 0 {
				pre = v
			}
		case 3:
			if verifrt.Choice("how", 2) == 1 {
				var err error
				cut := false
				switch verifrt.Choice("call", 3) {
				case 0:
					cut = verifCutOff(func() { _, err = d.LoadPreparams() })
					verifrt.Assert(!cut || err != ErrNotFound, "preparams are taken for missing")
				case 1:
					cut = verifCutOff(func() { _, err = d.LoadEcKeygen(libchain.KEY_TYPE_ECDSA) })
				case 2:
					cut = verifCutOff(func() { _, err = d.LoadEdKeygen(libchain.KEY_TYPE_EDDSA) })
				}
				verifrt.Assert(!cut || err != nil, "a failure is not reported")
				verifrt.Assert(verifLeaks() == 0, "a result set is left open")
				verifrt.Reach("cut off")
				return
			}
			verifBreak(d)
			_, e1 := d.LoadPreparams()
			_, e2 := d.LoadEcKeygen(libchain.KEY_TYPE_ECDSA)
			_, e3 := d.LoadEdKeygen(libchain.KEY_TYPE_EDDSA)
			e4 := d.SaveEcKeygen("x", "w", verifPids(2), &eckeygen.LocalPartySaveData{})
			e5 := d.SaveEdKeygen("x", "w", verifPids(2), &edkeygen.LocalPartySaveData{})
			e6 := d.SavePreparams(&eckeygen.LocalPreParams{})
			verifrt.Assert(e1 != nil && e1 != ErrNotFound && e2 != nil && e3 != nil && e4 != nil && e5 != nil && e6 != nil, "a failure is not reported")
			verifrt.Reach("broken")
			return
		}
		if t != "" {
			dup := false
			for _, k := range have[t] {
				dup = dup || k.work == work
			}
			verifrt.Assert((err != nil) == dup, "a key is replaced or cannot be saved")
			if !dup {
				have[t] = append(have[t], key{work, v})
			}
		}
	}
	p, err := d.LoadPreparams()
	if pre == 0 {
		verifrt.Assert(err == ErrNotFound, "preparams are loaded that were not saved")
	} else {
		verifrt.Assert(err == nil && p.P.Int64() == pre, "other preparams are loaded")
		verifrt.Reach("preparams")
	}
	for _, t := range []string{libchain.KEY_TYPE_ECDSA, libchain.KEY_TYPE_EDDSA} {
		var xi *big.Int
		if t == libchain.KEY_TYPE_ECDSA {
			k, err := d.LoadEcKeygen(t)
			verifrt.Assert(err == nil, "a key cannot be loaded")
			if k != nil {
				xi = k.Xi
			}
		} else {
			k, err := d.LoadEdKeygen(t)
			verifrt.Assert(err == nil, "a key cannot be loaded")
			if k != nil {
				xi = k.Xi
			}
		}
		if len(have[t]) == 0 {
			verifrt.Assert(xi == nil, "a key is loaded that was not saved")
			continue
		}
		verifrt.Assert(xi != nil, "a key is lost")
		ok := false
		for _, k := range have[t] {
			ok = verifrt.Or(ok, xi.Int64() == k.val)
		}
		verifrt.Assert(ok, "another key is loaded")
		verifrt.Reach("key")
	}
	verifrt.Assert(verifLeaks() == 0, "a result set is left open")
}

// VerifPeers: peers are loaded as they were saved.
func VerifPeers() {
	d := verifOpen()
	verifrt.Assert(len(d.LoadPeers()) == 0, "peers are loaded that were not saved")
	if verifrt.Bool("broken") {
		verifBreak(d)
		verifrt.Assert(d.SavePeers([]*p2ptypes.Peer{{Address: "a", PubKey: "k", PubKeyType: "t"}}) != nil, "a failure is not reported")
		verifrt.Assert(len(d.LoadPeers()) == 0, "peers are loaded from nowhere")
		verifrt.Reach("broken")
		return
	}
	var ps []*p2ptypes.Peer
	for i, n := 0, verifrt.Choice("n", 4); i < n; i++ {
		k := string(rune('0' + i))
		ps = append(ps, &p2ptypes.Peer{Address: verifrt.Str("addr", verifrt.Choice("len", 3)), PubKey: "key" + k, PubKeyType: []string{"ed25519", "secp256k1"}[verifrt.Choice("type", 2)]})
	}
	verifrt.Assert(d.SavePeers(ps) == nil, "peers cannot be saved")
	got := d.LoadPeers()
	verifrt.Assert(len(got) == len(ps), "peers are lost")
	for _, p := range ps {
		n := 0
		for _, g := range got {
			if g.PubKey == p.PubKey {
				n++
				verifrt.Assert(g.Address == p.Address && g.PubKeyType == p.PubKeyType, "a peer is changed")
			}
		}
		verifrt.Assert(n == 1, "a peer is lost")
	}
	verifrt.Assert(verifLeaks() == 0, "a result set is left open")
	verifrt.Reach("peers")
}
