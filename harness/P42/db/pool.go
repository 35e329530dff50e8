package db

import (
	"context"
	"database/sql"
	"io/fs"
	"io/ioutil"
	"os"
	"strings"
	"time"

	"github.com/golang-migrate/migrate/v4"
	"github.com/golang-migrate/migrate/v4/database"
	"github.com/golang-migrate/migrate/v4/database/mysql"
	"github.com/sisu-network/dheart/verifrt"
)

// A model of the pools of connections of database/sql, of a MySQL server, of
// the library for migrations and of the disk. In the replay the in-memory
// database is a real one whose limits of time are shortened, and the disk
// is real; the MySQL server and the migrations remain the model.

type verifConn struct {
	born, idle int
	shared     string
	tables     map[string]*verifTable
}

type verifPool struct {
	driver, dsn           string
	free                  []*verifConn
	open, maxOpen         int
	maxIdle               int
	idleTime, lifetime    int // seconds, 0 is for ever
	closed                bool
	host, user, pass, sch string
}

type verifServer struct {
	host, user, pass string
	schemas          map[string]map[string]*verifTable
}

var (
	verifPools   map[*sql.DB]*verifPool
	verifSrv     *verifServer
	verifNow     int
	verifSteps   int // steps that can fail
	verifFailAt  int
	verifFailed  string
	verifShared  map[string]map[string]*verifTable
	verifUsers   map[string]int
	verifBlocked bool
	verifDrivers map[database.Driver]*sql.DB
	verifMigs    map[*migrate.Migrate]*verifMig
	verifMade    map[string]bool // directories made
	verifFiles   map[string]string
	verifDirs    int
	verifWrong   string // what was removed without being made
)

type verifMig struct {
	url string
	d   *sql.DB
}

func verifReset() {
	verifTables, verifCursors, verifDown, verifClock = map[string]*verifTable{}, map[*sql.Rows]*verifCursor{}, false, 0
	verifPools, verifSrv, verifNow, verifSteps, verifFailAt, verifFailed = map[*sql.DB]*verifPool{}, nil, 0, 0, 0, ""
	verifShared, verifUsers, verifBlocked = map[string]map[string]*verifTable{}, map[string]int{}, false
	verifDrivers, verifMigs = map[database.Driver]*sql.DB{}, map[*migrate.Migrate]*verifMig{}
	verifMade, verifFiles, verifWrong = map[string]bool{}, map[string]string{}, ""
	verifConnOf = verifAcquire
	verifDirs, verifModelled = 0, verifModel
}

// verifFault tells whether this step fails.
func verifFault(what string) bool {
	verifSteps++
	if verifSteps == verifFailAt {
		verifFailed = what
		return true
	}
	return false
}

func (p *verifPool) expired(c *verifConn) bool {
	return p.lifetime > 0 && verifNow >= c.born+p.lifetime || p.idleTime > 0 && verifNow >= c.idle+p.idleTime
}

func (p *verifPool) drop(c *verifConn) {
	p.open--
	if c.shared != "" {
		verifUsers[c.shared]--
		if verifUsers[c.shared] == 0 {
			delete(verifShared, c.shared)
		}
	}
}

func verifAcquire(d *sql.DB, query string) (map[string]*verifTable, func(), error) {
	p := verifPools[d]
	if p == nil || p.closed {
		return nil, nil, errVerifSQL
	}
	var keep []*verifConn
	for _, c := range p.free {
		if p.expired(c) {
			p.drop(c)
		} else {
			keep = append(keep, c)
		}
	}
	p.free = keep
	var c *verifConn
	switch {
	case len(p.free) > 0:
		c = p.free[0]
		p.free = p.free[1:]
	case p.maxOpen > 0 && p.open >= p.maxOpen:
		verifBlocked = true
		return nil, nil, errVerifSQL
	default:
		c = &verifConn{born: verifNow}
		if p.driver == "mysql" {
			s := verifSrv
			if s == nil || p.host != s.host || p.user != s.user || p.pass != s.pass {
				return nil, nil, errVerifSQL
			}
			if p.sch != "" {
				if c.tables = s.schemas[p.sch]; c.tables == nil {
					return nil, nil, errVerifSQL
				}
			}
		} else {
			if strings.Contains(p.dsn, "cache=shared") {
				c.shared = p.dsn
				if verifUsers[p.dsn] == 0 {
					verifShared[p.dsn] = map[string]*verifTable{}
				}
				verifUsers[p.dsn]++
				c.tables = verifShared[p.dsn]
			} else {
				c.tables = map[string]*verifTable{}
			}
		}
		p.open++
	}
	release := func() {
		c.idle = verifNow
		if p.closed || len(p.free) >= p.maxIdle || p.expired(c) {
			p.drop(c)
			return
		}
		p.free = append(p.free, c)
	}
	if p.driver == "mysql" {
		if verifFault("query") {
			release()
			return nil, nil, errVerifSQL
		}
		toks := verifTokens(query)
		q := &verifParser{toks: toks}
		if q.is("CREATE", "DATABASE") || q.is("CREATE", "SCHEMA") {
			ifNot := q.is("IF", "NOT", "EXISTS")
			name := q.next()
			release()
			if verifSrv.schemas[name] != nil && !ifNot {
				return nil, nil, errVerifSQL
			}
			if verifSrv.schemas[name] == nil {
				verifSrv.schemas[name] = map[string]*verifTable{}
			}
			return nil, nil, nil
		}
		if q.is("USE") {
			c.tables = verifSrv.schemas[q.next()]
			release()
			if c.tables == nil {
				return nil, nil, errVerifSQL
			}
			return nil, nil, nil
		}
		if c.tables == nil {
			release()
			return nil, nil, errVerifSQL
		}
	}
	return c.tables, release, nil
}

// verifModel tells whether the model stands for this database also in the replay.
func verifModel(d *sql.DB) bool { return verifrt.Symbolic() || verifPools[d] != nil }

//verif:stub database/sql.Open
func verifSqlOpen(driver, dsn string) (*sql.DB, error) {
	if verifFault("open") {
		return nil, errVerifSQL
	}
	if driver != "mysql" && !verifrt.Symbolic() {
		return sql.Open(driver, dsn)
	}
	if driver != "mysql" && driver != "sqlite3" {
		return nil, errVerifSQL
	}
	p := &verifPool{driver: driver, dsn: dsn, maxIdle: 2}
	if driver == "mysql" {
		// user:password@tcp(host:port)/schema?parameters
		i := strings.LastIndex(dsn, "/")
		if i < 0 {
			return nil, errVerifSQL
		}
		left, right := dsn[:i], dsn[i+1:]
		if k := strings.IndexByte(right, '?'); k >= 0 {
			right = right[:k]
		}
		p.sch = right
		k := strings.LastIndex(left, "@")
		if k < 0 {
			return nil, errVerifSQL
		}
		account, addr := left[:k], left[k+1:]
		p.user = account
		if c := strings.IndexByte(account, ':'); c >= 0 {
			p.user, p.pass = account[:c], account[c+1:]
		}
		if !strings.HasPrefix(addr, "tcp(") || !strings.HasSuffix(addr, ")") {
			return nil, errVerifSQL
		}
		p.host = addr[4 : len(addr)-1]
	}
	d := new(sql.DB)
	verifPools[d] = p
	return d, nil
}

//verif:stub (*database/sql.DB).Close
func verifDBClose(d *sql.DB) error {
	if !verifModel(d) {
		return d.Close()
	}
	p := verifPools[d]
	for _, c := range p.free {
		p.drop(c)
	}
	p.free, p.closed = nil, true
	return nil
}

//verif:stub (*database/sql.DB).Ping
func verifPing(d *sql.DB) error {
	if !verifModel(d) {
		return d.Ping()
	}
	_, release, err := verifAcquire(d, "PING")
	if err == nil {
		release()
	}
	return err
}

//verif:stub (*database/sql.DB).PingContext
func verifPingContext(d *sql.DB, ctx context.Context) error { return verifPing(d) }

func verifSeconds(t time.Duration) int {
	if t <= 0 {
		return 0
	}
	return int((t + time.Second - 1) / time.Second)
}

//verif:stub (*database/sql.DB).SetMaxIdleConns
func verifSetMaxIdle(d *sql.DB, n int) {
	if !verifModel(d) {
		d.SetMaxIdleConns(n)
		return
	}
	verifPools[d].maxIdle = n
	verifPools[d].fit()
}

//verif:stub (*database/sql.DB).SetMaxOpenConns
func verifSetMaxOpen(d *sql.DB, n int) {
	if !verifModel(d) {
		d.SetMaxOpenConns(n)
		return
	}
	verifPools[d].maxOpen = n
	verifPools[d].fit()
}

func (p *verifPool) fit() {
	if p.maxOpen > 0 && p.maxIdle > p.maxOpen {
		p.maxIdle = p.maxOpen
	}
}

//verif:stub (*database/sql.DB).SetConnMaxIdleTime
func verifSetIdleTime(d *sql.DB, t time.Duration) {
	if !verifModel(d) {
		d.SetConnMaxIdleTime(t / 64)
		return
	}
	verifPools[d].idleTime = verifSeconds(t)
}

//verif:stub (*database/sql.DB).SetConnMaxLifetime
func verifSetLifetime(d *sql.DB, t time.Duration) {
	if !verifModel(d) {
		d.SetConnMaxLifetime(t / 64)
		return
	}
	verifPools[d].lifetime = verifSeconds(t)
}

// ---- migrations

//verif:stub github.com/golang-migrate/migrate/v4/database/mysql.WithInstance
func verifWithInstance(d *sql.DB, cfg *mysql.Config) (database.Driver, error) {
	_, release, err := verifAcquire(d, "SELECT DATABASE()")
	if err != nil {
		return nil, err
	}
	release()
	drv := &mysql.Mysql{}
	verifDrivers[drv] = d
	return drv, nil
}

//verif:stub github.com/golang-migrate/migrate/v4.NewWithDatabaseInstance
func verifNewMigrate(url, name string, drv database.Driver) (*migrate.Migrate, error) {
	if verifFault("migrations") || !strings.HasPrefix(url, "file://") || verifDrivers[drv] == nil {
		return nil, errVerifSQL
	}
	m := &migrate.Migrate{}
	verifMigs[m] = &verifMig{url: strings.TrimPrefix(url, "file://"), d: verifDrivers[drv]}
	return m, nil
}

//verif:stub (*github.com/golang-migrate/migrate/v4.Migrate).Up
func verifUp(m *migrate.Migrate) error {
	mig := verifMigs[m]
	files := verifList(mig.url, ".up.sql")
	if len(files) == 0 {
		return errVerifSQL
	}
	tables, release, err := verifAcquire(mig.d, "SELECT version")
	if err != nil {
		return err
	}
	defer release()
	// The version is the number of migrations that were done.
	v := tables["schema_migrations"]
	if v == nil {
		v = &verifTable{}
		tables["schema_migrations"] = v
	}
	if len(v.rows) >= len(files) {
		return migrate.ErrNoChange
	}
	for i := len(v.rows); i < len(files); i++ {
		if verifFault("migrate") {
			return errVerifSQL
		}
		if err := verifCreate(tables, files[i]); err != nil {
			return err
		}
		v.rows = append(v.rows, verifRow{})
	}
	return nil
}

// ---- disk

// What the replay does; calls by these names are not redirected.
var (
	verifRealTempDir   = ioutil.TempDir
	verifRealMkdirAll  = os.MkdirAll
	verifRealWrite     = os.WriteFile
	verifRealRead      = os.ReadFile
	verifRealReadInfos = ioutil.ReadDir
	verifRealReadDir   = os.ReadDir
)

// verifList returns the contents of the files, in the order of their names.
func verifList(dir, suffix string) []string {
	var names, out []string
	if !verifrt.Symbolic() {
		entries, _ := verifRealReadInfos(dir)
		for _, e := range entries {
			if strings.HasSuffix(e.Name(), suffix) {
				bz, _ := verifRealRead(dir + "/" + e.Name())
				out = append(out, string(bz))
			}
		}
		return out
	}
	for _, n := range verifNames(dir) {
		if strings.HasSuffix(n, suffix) {
			names = append(names, n)
		}
	}
	for _, n := range names {
		out = append(out, verifFiles[dir+"/"+n])
	}
	return out
}

func verifNames(dir string) []string {
	var names []string
	for f := range verifFiles {
		if strings.HasPrefix(f, dir+"/") && !strings.Contains(f[len(dir)+1:], "/") {
			names = append(names, f[len(dir)+1:])
			for i := len(names) - 1; i > 0 && names[i] < names[i-1]; i-- {
				names[i], names[i-1] = names[i-1], names[i]
			}
		}
	}
	return names
}

func verifTempDir(dir, pattern string) (string, error) {
	if verifFault("disk") {
		return "", errVerifSQL
	}
	verifDirs++
	name := "/tmp/verif" + string(rune('a'+verifDirs))
	if !verifrt.Symbolic() {
		var err error
		if name, err = verifRealTempDir(dir, pattern); err != nil {
			return "", err
		}
	}
	verifMade[name] = true
	return name, nil
}

func verifMkdirAll(dir string) error {
	if verifFault("disk") {
		return errVerifSQL
	}
	if !verifrt.Symbolic() {
		return verifRealMkdirAll(dir, 0700)
	}
	return nil
}

func verifWrite(name string, bz []byte) error {
	if verifFault("disk") {
		return errVerifSQL
	}
	inside := false
	for d := range verifMade {
		inside = inside || strings.HasPrefix(name, d+"/")
	}
	if !inside {
		return errVerifSQL
	}
	if !verifrt.Symbolic() {
		return verifRealWrite(name, bz, 0600)
	}
	verifFiles[name] = string(bz)
	return nil
}

func verifRead(name string) ([]byte, error) {
	if verifFault("disk") {
		return nil, errVerifSQL
	}
	if !verifrt.Symbolic() {
		return verifRealRead(name)
	}
	if s, ok := verifFiles[name]; ok {
		return []byte(s), nil
	}
	return nil, errVerifSQL
}

//verif:stub os.MkdirTemp
func verifMkdirTemp(dir, pattern string) (string, error) { return verifTempDir(dir, pattern) }

//verif:stub io/ioutil.TempDir
func verifIoTempDir(dir, pattern string) (string, error) { return verifTempDir(dir, pattern) }

//verif:stub os.Mkdir
func verifMkdir(dir string, perm os.FileMode) error { return verifMkdirAll(dir) }

//verif:stub os.MkdirAll
func verifOsMkdirAll(dir string, perm os.FileMode) error { return verifMkdirAll(dir) }

//verif:stub os.WriteFile
func verifOsWrite(name string, bz []byte, perm os.FileMode) error { return verifWrite(name, bz) }

//verif:stub io/ioutil.WriteFile
func verifIoWrite(name string, bz []byte, perm os.FileMode) error { return verifWrite(name, bz) }

//verif:stub os.ReadFile
func verifOsRead(name string) ([]byte, error) { return verifRead(name) }

//verif:stub io/ioutil.ReadFile
func verifIoRead(name string) ([]byte, error) { return verifRead(name) }

type verifEntry struct{ name string }

func (e *verifEntry) Name() string               { return e.name }
func (e *verifEntry) Size() int64                { return 1 }
func (e *verifEntry) Mode() fs.FileMode          { return 0600 }
func (e *verifEntry) ModTime() time.Time         { return time.Time{} }
func (e *verifEntry) IsDir() bool                { return false }
func (e *verifEntry) Sys() interface{}           { return nil }
func (e *verifEntry) Type() fs.FileMode          { return 0 }
func (e *verifEntry) Info() (fs.FileInfo, error) { return e, nil }

//verif:stub io/ioutil.ReadDir
func verifIoReadDir(dir string) ([]fs.FileInfo, error) {
	if verifFault("disk") {
		return nil, errVerifSQL
	}
	if !verifrt.Symbolic() {
		return verifRealReadInfos(dir)
	}
	var out []fs.FileInfo
	for _, n := range verifNames(dir) {
		out = append(out, &verifEntry{n})
	}
	return out, nil
}

//verif:stub os.ReadDir
func verifOsReadDir(dir string) ([]fs.DirEntry, error) {
	if verifFault("disk") {
		return nil, errVerifSQL
	}
	if !verifrt.Symbolic() {
		return verifRealReadDir(dir)
	}
	var out []fs.DirEntry
	for _, n := range verifNames(dir) {
		out = append(out, &verifEntry{n})
	}
	return out, nil
}

//verif:stub os.RemoveAll
func verifRemoveAll(dir string) error {
	inside := verifMade[dir]
	for d := range verifMade {
		inside = inside || strings.HasPrefix(dir, d+"/")
	}
	if !inside { // never done, also not in the replay
		verifWrong = dir + "!"
		return nil
	}
	delete(verifMade, dir)
	if !verifrt.Symbolic() {
		return os.RemoveAll(dir)
	}
	for f := range verifFiles {
		if f == dir || strings.HasPrefix(f, dir+"/") {
			delete(verifFiles, f)
		}
	}
	return nil
}
