package run

import (
	"errors"
	"io/fs"
	"os"

	"github.com/ethereum/go-ethereum/rpc"
	"github.com/logdna/logdna-go/logger"
	"github.com/sisu-network/dheart/client"
	"github.com/sisu-network/dheart/core/config"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/server"
	"github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/verifrt"
	"github.com/sisu-network/lib/log"
)

// The surroundings of the process.
var (
	verifHome    string
	verifAes     string
	verifExists  bool
	verifNoDisk  bool
	verifMade    int
	verifHandler *rpc.Server
	verifClient  *verifSisu
	verifLate    bool
)

type verifSisu struct {
	url     string
	dials   int
	results int
}

func (c *verifSisu) TryDial() {
	verifrt.HLock()
	c.dials++
	verifrt.HUnlock()
	if verifLate { // the server of Sisu is up some time after that of this process
		<-server.VerifServing
	}
}
func (c *verifSisu) PostKeygenResult(result *types.KeygenResult) error {
	verifrt.HLock()
	c.results++
	verifrt.HUnlock()
	return nil
}
func (c *verifSisu) PostPresignResult(result *types.PresignResult) error { return nil }
func (c *verifSisu) PostKeysignResult(result *types.KeysignResult) error { return nil }

//verif:stub github.com/sisu-network/lib/log.NewDNALogger
func verifNewDNALogger(key string, o logger.Options, x bool) *log.DNALogger { return nil }

//verif:stub github.com/sisu-network/lib/log.SetLogger
func verifSetLogger(l log.Logger) {}

//verif:stub os.Getenv
func verifGetenv(k string) string {
	switch k {
	case "HOME_DIR":
		return verifHome
	case "AES_KEY_HEX":
		return verifAes
	}
	return ""
}

//verif:stub os.Stat
func verifStat(p string) (os.FileInfo, error) {
	verifrt.Assert(p == verifHome, "another directory is looked for")
	if verifExists {
		return nil, nil
	}
	return nil, fs.ErrNotExist
}

//verif:stub os.IsNotExist
func verifIsNotExist(err error) bool { return err == fs.ErrNotExist }

//verif:stub os.MkdirAll
func verifMkdirAll(p string, perm os.FileMode) error {
	verifrt.Assert(p == verifHome, "another directory is created")
	verifMade++
	if verifNoDisk {
		return errors.New("no disk")
	}
	verifExists = true
	return nil
}

//verif:stub github.com/sisu-network/dheart/client.NewClient
func verifNewClient(url string) client.Client {
	verifrt.Assert(verifClient == nil, "Sisu is connected twice")
	verifClient = &verifSisu{url: url}
	return verifClient
}

//verif:stub github.com/ethereum/go-ethereum/rpc.NewServer
func verifNewServer() *rpc.Server {
	verifHandler = &rpc.Server{}
	return verifHandler
}

//verif:stub (*github.com/ethereum/go-ethereum/rpc.Server).RegisterName
func verifRegisterName(s *rpc.Server, name string, api interface{}) error {
	verifrt.Assert(s == verifHandler && name == "tss", "the API is registered elsewhere")
	server.VerifRegisterd = append(server.VerifRegisterd, api)
	return nil
}

// verifSetup starts the process. It returns false if the process ends instead.
func verifSetup() (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	SetupApiServer()
	return true
}

// VerifProcess: the process serves what it was configured to serve, or ends.
func VerifProcess() {
	verifHome = "/home/x"
	config.VerifPath = "/home/x/dheart.toml"
	secret := verifrt.Byte("secret")
	const digits = "0123456789abcdef"
	verifAes = string([]byte{digits[secret>>4], digits[secret&15]})
	verifExists = verifrt.Choice("home", 2) == 1
	bad := true
	switch verifrt.Choice("bad", 6) {
	case 0:
		bad = false
	case 1:
		verifAes = verifAes[:1]
	case 2:
		verifAes = "g" + verifAes[1:]
	case 3:
		verifNoDisk = true
		bad = !verifExists
	case 4:
		config.VerifBad = true
	case 5:
		server.VerifStartBad = true
	}
	single := verifrt.Choice("single", 2) == 1
	port := []int{5678, 1, 65535}[verifrt.Choice("port", 3)]
	config.VerifFile = config.HeartConfig{HomeDir: "h", UseOnMemory: single, ShortcutPreparams: verifrt.Bool("shortcut"), SisuServerUrl: "url", Port: port,
		Db:         config.DbConfig{Host: "host", Port: verifrt.Int("db port", 0, 9999), Username: "u", Password: "p", Schema: "s", InMemory: verifrt.Bool("in memory")},
		Connection: p2ptypes.ConnectionsConfig{Host: "me", Port: verifrt.Int("p2p port", 0, 9999), Rendezvous: "r", Peers: []*p2ptypes.Peer{{Address: "a"}}}}
	if verifrt.Choice("log", 2) == 1 {
		config.VerifFile.LogDNA.Secret = "secret"
	}

	verifLate = verifrt.Choice("late", 2) == 1
	ok := verifSetup()
	verifrt.Assert(verifrt.Drain(0) == 0, "the process hangs")
	if single && server.VerifStartBad {
		bad = false
	}
	verifrt.Assert(ok == !bad, "the process comes up when it must not, or the other way round")
	if !ok {
		verifrt.Assert(len(server.VerifListened) == 0 && len(server.VerifServed) == 0, "a process that cannot start serves requests")
		verifrt.Reach("ends")
		return
	}
	verifrt.Assert(config.VerifRead == 1, "the configuration is not read")
	verifrt.Assert(verifClient != nil && verifClient.url == "url" && verifClient.dials == 1, "Sisu is not connected")
	verifrt.Assert(len(server.VerifListened) == 1, "the process does not listen")
	want := map[int]string{5678: "0.0.0.0:5678", 1: "0.0.0.0:1", 65535: "0.0.0.0:65535"}[port]
	verifrt.Assert(server.VerifListened[0] == want, "the process listens elsewhere")
	verifrt.Assert(len(server.VerifServed) == 1 && server.VerifServed[0] == verifHandler, "the API is not served")
	api := server.VerifRegisterd[0]
	verifrt.Assert(server.VerifSingle(api) == single, "the process works in another mode")
	if single {
		verifrt.Assert(verifClient.results == 1, "results go elsewhere")
		verifrt.Assert(server.VerifStarts == 0, "a single node joins the network")
		verifrt.Reach("single")
		return
	}
	verifrt.Assert(server.VerifHeartOf(api) == server.VerifHeart && server.VerifStarts == 1, "the node that is served is not started once")
	verifrt.Assert(server.VerifClient == verifClient, "results go elsewhere")
	got, want2 := server.VerifCfg, config.VerifFile
	verifrt.Assert(len(got.AesKey) == 1 && got.AesKey[0] == secret, "the node has another secret")
	verifrt.Assert(got.Db == want2.Db && got.ShortcutPreparams == want2.ShortcutPreparams, "the node has another configuration")
	verifrt.Assert(got.Connection.Host == "me" && got.Connection.Port == want2.Connection.Port && got.Connection.Rendezvous == "r" && len(got.Connection.Peers) == 1 && got.Connection.Peers[0] == want2.Connection.Peers[0],
		"the node has another configuration")
	verifrt.Reach("committee")
}

// VerifPort: a process that cannot be reached by Sisu ends, with the error of the network.
func VerifPort() {
	verifHome, verifAes, verifExists = "/home/x", "00", true
	config.VerifPath = "/home/x/dheart.toml"
	server.VerifTaken = true
	config.VerifFile = config.HeartConfig{UseOnMemory: verifrt.Bool("single"), SisuServerUrl: "url", Port: 5678}
	verifrt.Assert(verifSetup(), "the process does not come up")
	verifrt.Drain(0)
	verifrt.Assert(false, "a process that nobody can reach goes on")
}
