package client

import (
	"context"
	"errors"
	"time"

	"github.com/ethereum/go-ethereum/rpc"
	"github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/verifrt"
)

// verifSisu is the other side of the connections.
type verifSisu struct {
	dials, pings int
	noDial       int // dials that fail
	noPing       int // pings that fail
	breaks       bool
	answered     bool
	got          []verifCall
	conns        []*rpc.Client
}

type verifCall struct {
	method string
	arg    interface{}
	conn   *rpc.Client
}

var verifS *verifSisu

var errVerif = errors.New("network")

//verif:stub github.com/ethereum/go-ethereum/rpc.DialContext
func VerifDial(ctx context.Context, url string) (*rpc.Client, error) {
	verifrt.HLock()
	defer verifrt.HUnlock()
	s := verifS
	verifrt.Assert(url == "url" && ctx != nil, "another address is dialled")
	s.dials++
	if s.dials <= s.noDial {
		return nil, errVerif
	}
	c := &rpc.Client{}
	s.conns = append(s.conns, c)
	return c, nil
}

//verif:stub (*github.com/ethereum/go-ethereum/rpc.Client).CallContext
func VerifCallContext(c *rpc.Client, ctx context.Context, result interface{}, method string, args ...interface{}) error {
	verifrt.HLock()
	defer verifrt.HUnlock()
	s := verifS
	verifrt.Assert(c != nil, "a call crashes because there is no connection")
	verifrt.Assert(len(args) == 1, "a call without its argument")
	if method == "tss_ping" {
		s.pings++
		if s.pings <= s.noPing {
			return errVerif
		}
		s.answered = true
		return nil
	}
	if s.breaks && verifrt.Bool("broken") {
		return errVerif
	}
	s.got = append(s.got, verifCall{method, args[0], c})
	return nil
}

// VerifConnect: results are posted before, while and after Sisu is connected.
func VerifConnect() {
	s := &verifSisu{}
	verifS = s
	tries := verifrt.Param("tries")
	s.noDial = verifrt.Choice("no_dial", tries)
	s.noPing = verifrt.Choice("no_ping", tries-s.noDial)
	s.breaks = verifrt.Bool("breaks")
	c := NewClient("url")
	n := verifrt.Param("posts")
	type post struct {
		kg  *types.KeygenResult
		ks  *types.KeysignResult
		err error
	}
	posts := make([]post, n)
	send := func(i int) {
		var err error
		p := &posts[i]
		if p.kg != nil {
			err = c.PostKeygenResult(p.kg)
		} else {
			err = c.PostKeysignResult(p.ks)
		}
		verifrt.HLock()
		p.err = err
		verifrt.HUnlock()
	}
	for i := range posts {
		if verifrt.Choice("keysign", 2) == 0 {
			posts[i].kg = &types.KeygenResult{KeyType: verifrt.Str("type", 1), PubKeyBytes: verifrt.Bytes("key", 2), Outcome: types.OutcomeSuccess}
		} else {
			posts[i].ks = &types.KeysignResult{Outcome: types.OutcomeSuccess, Signatures: [][]byte{verifrt.Bytes("sig", 2)}}
		}
	}
	early := verifrt.Choice("early", n+1)
	for i := 0; i < early; i++ {
		send(i) // nobody has dialled yet
		verifrt.Assert(posts[i].err != nil && len(s.got) == 0, "a result is posted without a connection")
		verifrt.Reach("early")
	}
	begin := time.Now()
	over := false
	go func() {
		c.TryDial()
		verifrt.HLock()
		over = true
		verifrt.Assert(s.answered, "the client is connected although Sisu did not answer")
		verifrt.HUnlock()
	}()
	mid := early
	if early < n && verifrt.Bool("meanwhile") {
		mid++
		go send(early)
	}
	verifrt.Assert(verifrt.Drain(-1) == 0, "the client is stuck")
	verifrt.Assert(over, "the client is not connected although Sisu answers")
	verifrt.Assert(s.dials == s.noDial+s.noPing+1 && s.pings == s.noPing+1, "the client gives up or dials again")
	if s.noDial+s.noPing > 0 {
		verifrt.Assert(time.Now().Sub(begin) >= time.Second, "the client dials without a break")
	}
	verifrt.Reach("connected")
	for i := mid; i < n; i++ {
		send(i)
	}
	k := 0
	for _, p := range posts {
		if p.err != nil {
			verifrt.Reach("refused")
			continue
		}
		verifrt.Assert(k < len(s.got), "a result is lost without an error")
		g := s.got[k]
		k++
		if p.kg != nil {
			verifrt.Assert(g.method == "tss_keygenResult" && g.arg == interface{}(p.kg), "another result is delivered")
		} else {
			verifrt.Assert(g.method == "tss_keysignResult" && g.arg == interface{}(p.ks), "another result is delivered")
		}
		verifrt.Reach("delivered")
	}
	verifrt.Assert(k == len(s.got), "a result is delivered twice or despite an error")
	if !s.breaks {
		for i := mid; i < n; i++ {
			verifrt.Assert(posts[i].err == nil, "a result is refused although Sisu is connected")
		}
	}
}
