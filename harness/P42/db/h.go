package db

import (
	"database/sql"
	"syscall"

	"github.com/sisu-network/dheart/core/config"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/verifrt"
)

func verifPeer(name string) *p2ptypes.Peer {
	return &p2ptypes.Peer{Address: name, PubKey: "01" + name, PubKeyType: "ed25519"}
}

// VerifServer opens a database on a server, some step of which may fail.
func VerifServer() {
	verifReset()
	host := []string{"127.0.0.1", "db.example.org"}[verifrt.Choice("host", 2)]
	port := []int{3306, 33060}[verifrt.Choice("port", 2)]
	addr := host + ":" + []string{"3306", "33060"}[port/33060]
	user, pass := verifrt.Str("user", 1), verifrt.Str("pass", 2)
	verifrt.Assume(user[0] >= 'a' && user[0] <= 'z')
	for i := 0; i < len(pass); i++ {
		verifrt.Assume(pass[i] > ' ' && pass[i] < 127)
	}
	verifSrv = &verifServer{host: addr, user: user, pass: pass, schemas: map[string]map[string]*verifTable{"other": {}}}
	if verifrt.Choice("before", 2) == 1 { // the node was started before
		d := NewDatabase(&config.DbConfig{Host: host, Port: port, Username: user, Password: pass, Schema: "dheart"})
		verifrt.Assert(d.Init() == nil, "the database cannot be opened for the first time")
		verifrt.Assert(d.SavePeers([]*p2ptypes.Peer{verifPeer("a")}) == nil, "nothing can be stored in the database")
		d.Close()
		verifrt.Reach("again")
	}
	had := verifSrv.schemas["dheart"] != nil
	cfg := config.DbConfig{Host: host, Port: port, Username: user, Password: pass, Schema: "dheart"}
	wrong := verifrt.Choice("wrong", 5)
	switch wrong {
	case 1:
		cfg.Host = ""
	case 2:
		cfg.Host = "elsewhere"
	case 3:
		cfg.Port++
	case 4:
		cfg.Password = pass + "x"
	}
	verifSteps = 0
	if wrong == 0 {
		verifFailAt = verifrt.Choice("fail", 2+verifrt.Param("steps"))
	}
	d := NewDatabase(&cfg)
	err := d.Init()
	verifFailAt = -1
	verifrt.Obs("failed", verifFailed)
	verifrt.Assert(verifWrong == "", "opening the database removes a directory that is not its own")
	if wrong != 0 {
		verifrt.Assert(err != nil, "a database that cannot be reached is reported as open")
		verifrt.Reach("unreachable")
		return
	}
	if verifFailed == "" {
		verifrt.Assert(err == nil, "the database cannot be opened")
		verifrt.Assert(len(verifMade) == 0, "opening the database leaves a directory behind")
		verifrt.Reach("open")
	} else {
		verifrt.Reach("failed")
	}
	if err != nil {
		verifrt.Reach("reported")
		return
	}
	verifrt.Assert(d.SavePeers([]*p2ptypes.Peer{verifPeer("b")}) == nil, "a database is reported as open, but nothing can be stored in it")
	verifrt.Assert(d.SavePreparams(nil) == nil, "a database is reported as open, but no preparams can be stored in it")
	verifrt.Assert(d.UpdatePresignStatus([]string{"x"}) == nil, "a database is reported as open, but has no presigns")
	_, err = d.LoadEcKeygen("ecdsa")
	verifrt.Assert(err == nil, "a database is reported as open, but has no keys")
	n := 1
	if had {
		n = 2
	}
	verifrt.Assert(len(d.LoadPeers()) == n, "what was stored before the database was opened again is lost")
	verifrt.Assert(verifSrv.schemas["dheart"]["peers"] != nil && len(verifSrv.schemas["dheart"]["peers"].rows) == n && len(verifSrv.schemas["other"]) == 0,
		"the node does not store in the schema that is configured")
}

// VerifMemory uses a database in memory, with pauses and from two threads.
func VerifMemory() {
	verifReset()
	d := NewDatabase(&config.DbConfig{InMemory: true, Schema: "dheart"})
	verifFailAt = verifrt.Choice("fail", 1+verifrt.Param("steps"))
	err := d.Init()
	verifFailAt = -1
	verifrt.Obs("failed", verifFailed)
	verifrt.Assert(verifWrong == "", "opening the database removes a directory that is not its own")
	if verifFailed != "" {
		verifrt.Assert(err != nil || d.SavePeers([]*p2ptypes.Peer{verifPeer("a")}) == nil, "a database is reported as open, but nothing can be stored in it")
		verifrt.Reach("failed")
		return
	}
	verifrt.Assert(err == nil, "the database cannot be opened")
	verifrt.Assert(len(verifMade) == 0, "opening the database leaves a directory behind")
	verifrt.Assert(d.SavePeers([]*p2ptypes.Peer{verifPeer("a")}) == nil, "nothing can be stored in the database")
	n := 1
	for i := 0; i < verifrt.Param("uses"); i++ {
		switch verifrt.Choice("use", 3) {
		case 0:
			verifPause(8 << verifrt.Choice("long", 3))
			verifrt.Reach("pause")
		case 1: // a second thread stores while the first one reads
			name := string(rune('b' + i))
			var err2 error
			verifMeanwhile(d.(*SqlDatabase).db, func() { err2 = d.SavePeers([]*p2ptypes.Peer{verifPeer(name)}) })
			k := len(d.LoadPeers())
			verifrt.Assert(err2 == nil, "nothing can be stored while another thread reads")
			verifrt.Assert(k == n || k == n+1, "a result changes while another thread stores")
			n++
			verifrt.Reach("meanwhile")
		case 2:
			verifrt.Assert(d.SavePreparams(nil) == nil || i > 0, "preparams cannot be stored")
		}
	}
	verifrt.Assert(len(d.LoadPeers()) == n, "what was stored in memory is lost")
	verifrt.Assert(!verifBlocked, "a thread waits for a connection for ever")
	verifrt.Reach("loaded")
}

// verifPause lets time pass; in the replay, a part of it.
func verifPause(seconds int) {
	verifNow += seconds
	if !verifrt.Symbolic() {
		ts := syscall.NsecToTimespec(int64(seconds) * 1e9 / 64)
		ts.Sec++ // unused connections are closed once in a second
		for syscall.Nanosleep(&ts, &ts) != nil {
		}
	}
}

// verifMeanwhile: f is called by another thread when the next result is read.
func verifMeanwhile(d *sql.DB, f func()) {
	waits := false
	verifDuring = func(r *sql.Rows) {
		verifDuring = func(*sql.Rows) {}
		if verifModel(d) {
			p := verifPools[d]
			waits = p.maxOpen > 0 && p.open >= p.maxOpen && len(p.free) == 0
		} else {
			s := d.Stats()
			waits = s.MaxOpenConnections > 0 && s.InUse >= s.MaxOpenConnections
		}
		if !waits {
			f()
		}
	}
	verifAfter = func(r *sql.Rows) {
		verifAfter = func(*sql.Rows) {}
		if waits {
			f()
		}
	}
}
