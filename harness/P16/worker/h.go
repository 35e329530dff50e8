package worker

import (
	"time"

	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/verifh"
	"github.com/sisu-network/dheart/verifp"
	"github.com/sisu-network/dheart/verifrt"
	wTypes "github.com/sisu-network/dheart/worker/types"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

func verifMsgs(b int) (msgs [][]byte, chains []string) {
	for i := 0; i < b; i++ {
		msgs = append(msgs, []byte{byte('a' + i)})
		chains = append(chains, "eth")
	}
	return
}

// VerifOutput: the instances of a batch run side by side and send their
// messages, each up to some point; what reaches the network?
func VerifOutput() {
	verifp.List = nil
	n, b := verifrt.Param("n"), verifrt.Concrete(verifrt.Int("batch", 1, verifrt.Param("batch")))
	pids := verifh.Parties(n)
	me := verifrt.Concrete(verifrt.Int("me", 0, n-1))
	msgs, chains := verifMsgs(b)
	var req *wTypes.WorkRequest
	switch verifrt.Choice("kind", verifrt.Param("kinds")) {
	case 0:
		req = wTypes.NewEcSigningRequest("w", verifh.Clone(pids), n-1, msgs, chains, &eckeygen.LocalPartySaveData{})
	case 1:
		req = wTypes.NewEdSigningRequest("w", verifh.Clone(pids), n-1, msgs, chains, &edkeygen.LocalPartySaveData{})
	}
	d := &verifh.Dispatcher{}
	calls := 0
	ex := NewWorkerExecutor(req, req.WorkType, pids[me], pids, d, &verifh.DB{}, make([]*ecsigning.SignatureData_OneRoundData, b),
		func(*WorkerExecutor, ExecutionResult) { calls++ }, verifh.Timeouts())
	K := verifrt.Param("rounds")
	sent := make([]int, b)
	bad := -1
	for i := range sent {
		sent[i] = verifrt.Concrete(verifrt.Int("sent", 0, K))
	}
	if verifrt.Bool("unserialisable") {
		bad = verifrt.Concrete(verifrt.Int("bad", 0, K-1))
	}
	pay := make([]byte, b)
	for i := range pay {
		pay[i] = verifrt.Byte("payload")
	}
	slow := b
	if b > 1 && verifrt.Bool("slow") {
		slow = 0 // works later than the others
	}
	verifp.OnStart = func(p *verifp.Party) *tss.Error {
		go func() {
			if p.N == slow {
				time.Sleep(100 * time.Millisecond)
			}
			for k := 0; k < sent[p.N]; k++ {
				kind := verifp.Kinds(p)[k]
				for _, to := range pids {
					w := &verifp.Wire{K: kind, ID: byte(k), From: p.Me, BadWire: k == bad && p.N == 0, Payload: []byte{pay[p.N], to.Id[1]}}
					if !kind.P2P {
						w.Bcast, w.Payload = true, []byte{pay[p.N]}
						p.Out <- w
						break
					}
					if to.Id != p.Me.Id {
						w.To = []*tss.PartyID{to}
						p.Out <- w
					}
				}
			}
		}()
		return nil
	}
	ex.Init()
	go ex.Run(nil)
	verifrt.Drain(0)
	if slow < b {
		verifrt.Drain(1)
		verifrt.Drain(0)
	}
	min := K
	for _, s := range sent {
		if s < min {
			min = s
		}
	}
	up := d.Kind(common.TssMessage_UPDATE_MESSAGES)
	count := 0
	for k := 0; k < min; k++ {
		if k == bad {
			continue
		}
		kind := verifp.Kinds(verifp.List[0])[k]
		for _, to := range pids {
			dest := to.Id
			if !kind.P2P {
				dest = ""
			} else if to.Id == pids[me].Id {
				continue
			}
			found := 0
			for _, s := range up {
				if s.Msg.To != dest || s.Msg.UpdateMessages[0].Round != kind.Name() {
					continue
				}
				found++
				count++
				verifrt.Assert(s.Broadcast == !kind.P2P, "a message goes to the wrong kind of destination")
				if kind.P2P {
					verifrt.Assert(len(s.To) == 1 && s.To[0] == dest, "a private message goes to somebody else")
				} else {
					verifrt.Assert(len(s.To) == n, "a broadcast does not go to all members")
				}
				verifrt.Assert(s.Msg.From == pids[me].Id && s.Msg.WorkId == "w", "sender or work of an outgoing message are wrong")
				verifrt.Assert(len(s.Msg.UpdateMessages) == b, "a batch is sent incomplete")
				for i, u := range s.Msg.UpdateMessages {
					verifrt.Assert(u.Data[0] == byte(k) && u.Data[1] == pay[i], "a message of the batch is mixed up")
					if kind.P2P {
						verifrt.Assert(len(u.Data) == 3 && u.Data[2] == dest[1], "a private message is sent to another member")
					}
				}
			}
			verifrt.Assert(found == 1, "a completed round of the batch is not sent exactly once")
			if !kind.P2P {
				break
			}
		}
	}
	verifrt.Assert(len(up) == count, "something else than the completed rounds of the batch is sent")
	verifrt.Reach("done")
}
