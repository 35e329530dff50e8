package server

import (
	"crypto/ecdsa"
	"errors"
	"net"
	"net/http"

	"github.com/sisu-network/dheart/client"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/verifrt"
)

// What the process did.
var (
	VerifHeart     *core.Heart
	VerifCfg       config.HeartConfig
	VerifClient    client.Client
	VerifStarts    int
	VerifStartBad  bool
	VerifListened  []string
	VerifServed    []http.Handler
	VerifRegisterd []interface{}
	VerifAsked     *core.Heart
	VerifTaken     bool // the port is in use
	VerifServing   = make(chan struct{})
)

//verif:stub github.com/sisu-network/dheart/core.NewHeart
func verifNewHeart(cfg config.HeartConfig, c client.Client) *core.Heart {
	verifrt.Assert(VerifHeart == nil, "a second node is created")
	VerifHeart, VerifCfg, VerifClient = &core.Heart{}, cfg, c
	return VerifHeart
}

//verif:stub (*github.com/sisu-network/dheart/core.Heart).Start
func verifStart(h *core.Heart) error {
	verifrt.Assert(h == VerifHeart, "another node is started")
	VerifStarts++
	if VerifStartBad {
		return errors.New("cannot start")
	}
	return nil
}

type verifListener struct{}

func (verifListener) Accept() (net.Conn, error) { return nil, errors.New("no connections") }
func (verifListener) Close() error              { return nil }
func (verifListener) Addr() net.Addr            { return nil }

//verif:stub net.Listen
func verifListen(network, address string) (net.Listener, error) {
	verifrt.Assert(network == "tcp", "another network")
	verifrt.HLock()
	VerifListened = append(VerifListened, address)
	verifrt.HUnlock()
	if VerifTaken {
		verifrt.Reach("taken")
		return nil, errors.New("the port is in use")
	}
	return verifListener{}, nil
}

//verif:stub (*net/http.Server).Serve
func verifServe(s *http.Server, l net.Listener) error {
	_, ok := l.(verifListener)
	verifrt.Assert(ok, "another listener is served")
	verifrt.Assert(len(VerifRegisterd) == 1, "requests are served before there is anything to serve")
	verifrt.HLock()
	VerifServed = append(VerifServed, s.Handler)
	if len(VerifServed) == 1 {
		close(VerifServing)
	}
	verifrt.HUnlock()
	return nil
}

//verif:stub (*github.com/sisu-network/dheart/core.Heart).SetSisuReady
func verifSetSisuReady(h *core.Heart, isReady bool) { VerifAsked = h }

//verif:stub github.com/ethereum/go-ethereum/crypto.GenerateKey
func verifGenerateKey() (*ecdsa.PrivateKey, error) { return nil, errors.New("no randomness") }

// VerifHeartOf is the node of an API.
func VerifHeartOf(a interface{}) *core.Heart {
	VerifAsked = nil
	a.(Api).SetSisuReady(true)
	return VerifAsked
}

// VerifSingle tells whether an API is that of a single node and asks it for a result.
func VerifSingle(a interface{}) bool {
	s, ok := a.(*SingleNodeApi)
	if ok {
		verifrt.Assert(s.KeyGen("id", "ecdsa", nil) == nil, "a single node refuses to generate a key")
		verifrt.Assert(verifrt.Drain(-1) == 0, "the process hangs")
	}
	return ok
}
