package db

import (
	"database/sql"
	"errors"
	"strings"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/verifrt"
)

// A model of the SQL database with the schema of the migrations. In the replay
// the calls go to a real SQLite database instead.

type verifRow map[string]interface{}

type verifTable struct {
	cols []string
	key  []string
	rows []verifRow
}

type verifCursor struct {
	rows    [][]interface{}
	at      int
	closed  bool
	release func()
}

var (
	verifTables  map[string]*verifTable
	verifCursors map[*sql.Rows]*verifCursor
	verifDown    bool
	verifClock   int
	verifCut     int       // the connection breaks instead of delivering that row of a result
	verifCutRows *sql.Rows // the result that was cut off
	errVerifSQL  = errors.New("SQL error")
)

// verifTokens splits a statement: names, numbers, 'texts' and single symbols.
func verifTokens(q string) []string {
	var out []string
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '\'':
			j := i + 1
			for q[j] != '\'' {
				j++
			}
			out = append(out, q[i:j+1])
			i = j + 1
		case c == '`' || c == '"':
			j := i + 1
			for q[j] != c {
				j++
			}
			out = append(out, q[i+1:j])
			i = j + 1
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9':
			j := i
			for j < len(q) && (q[j] == '_' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] >= '0' && q[j] <= '9') {
				j++
			}
			out = append(out, q[i:j])
			i = j
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out
}

type verifParser struct {
	toks []string
	args []interface{}
	used int
}

func (p *verifParser) peek() string {
	if len(p.toks) == 0 {
		return ""
	}
	return strings.ToUpper(p.toks[0])
}
func (p *verifParser) next() string {
	if len(p.toks) == 0 {
		return ""
	}
	t := p.toks[0]
	p.toks = p.toks[1:]
	return t
}

// is takes the words if they come next.
func (p *verifParser) is(words ...string) bool {
	if len(p.toks) < len(words) {
		return false
	}
	for i, w := range words {
		if strings.ToUpper(p.toks[i]) != w {
			return false
		}
	}
	p.toks = p.toks[len(words):]
	return true
}
func (p *verifParser) need(words ...string) {
	if !p.is(words...) {
		verifrt.Unsupported("SQL: " + strings.Join(words, " ") + " expected, not " + p.peek())
	}
}

// value is a parameter or a literal; ok is false if the statement is wrong.
func (p *verifParser) value() (v interface{}, ok bool) {
	t := p.next()
	if t == "?" {
		if p.used >= len(p.args) {
			return nil, false
		}
		v = p.args[p.used]
		p.used++
		if b, is := v.([]byte); is {
			v = append([]byte{}, b...)
		}
		return v, true
	}
	if len(t) > 1 && t[0] == '\'' {
		return t[1 : len(t)-1], true
	}
	return nil, false
}

// list is ( v, v, ... )
func (p *verifParser) list() ([]interface{}, bool) {
	if !p.is("(") {
		return nil, false
	}
	var out []interface{}
	if p.is(")") {
		return out, true
	}
	for {
		v, ok := p.value()
		if !ok {
			return nil, false
		}
		out = append(out, v)
		if p.is(")") {
			return out, true
		}
		if !p.is(",") {
			return nil, false
		}
	}
}

func (p *verifParser) names() []string {
	var out []string
	for {
		out = append(out, p.next())
		if !p.is(",") {
			return out
		}
	}
}

func verifText(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case []byte:
		return string(x)
	}
	verifrt.Unsupported("SQL: a value that is no text")
	return ""
}

// where returns the condition of a statement.
func (p *verifParser) where() (func(verifRow) bool, bool) {
	cond := func(verifRow) bool { return true }
	if !p.is("WHERE") {
		return cond, true
	}
	for {
		col := p.next()
		var vals []interface{}
		ok := true
		if p.is("=") {
			var v interface{}
			v, ok = p.value()
			vals = []interface{}{v}
		} else {
			p.need("IN")
			vals, ok = p.list()
		}
		if !ok {
			return nil, false
		}
		prev := cond
		cond = func(r verifRow) bool {
			if !prev(r) {
				return false
			}
			for _, v := range vals {
				if verifText(r[col]) == verifText(v) {
					return true
				}
			}
			return false
		}
		if !p.is("AND") {
			return cond, true
		}
	}
}

func (p *verifParser) end() bool {
	p.is(";")
	return len(p.toks) == 0 && p.used == len(p.args)
}

// verifSchema reads the migrations.
func verifSchema() {
	verifTables, verifCursors, verifDown, verifClock = map[string]*verifTable{}, map[*sql.Rows]*verifCursor{}, false, 0
	verifCreate(verifTables, verifrt.RepoFiles("db/migrations", ".up.sql"))
}

// verifCreate runs statements that create tables.
func verifCreate(tables map[string]*verifTable, query string) error {
	p := &verifParser{toks: verifTokens(query)}
	for len(p.toks) > 0 {
		if p.is(";") {
			continue
		}
		p.need("CREATE", "TABLE")
		ifNot := p.is("IF", "NOT", "EXISTS")
		t := &verifTable{}
		name := p.next()
		if tables[name] == nil {
			tables[name] = t
		} else if !ifNot {
			return errVerifSQL
		}
		p.need("(")
		for depth := 0; ; {
			if p.is("PRIMARY", "KEY", "(") {
				t.key = p.names()
				p.need(")")
			} else {
				col := p.next()
				t.cols = append(t.cols, col)
			}
			for depth > 0 || p.peek() != "," && p.peek() != ")" {
				if p.is("PRIMARY", "KEY") {
					t.key = []string{t.cols[len(t.cols)-1]}
					continue
				}
				switch p.next() {
				case "(":
					depth++
				case ")":
					depth--
				case "":
					verifrt.Unsupported("SQL: schema")
				}
			}
			if p.next() == ")" {
				break
			}
		}
	}
	return nil
}

func (t *verifTable) has(col string) bool {
	for _, c := range t.cols {
		if c == col {
			return true
		}
	}
	return false
}

func (t *verifTable) same(a, b verifRow) bool {
	for _, k := range t.key {
		if verifText(a[k]) != verifText(b[k]) {
			return false
		}
	}
	return len(t.key) > 0
}

//verif:stub (*database/sql.DB).Exec
func verifExec(d *sql.DB, query string, args ...interface{}) (sql.Result, error) {
	if !verifModelled(d) {
		return d.Exec(query, args...)
	}
	if verifDown {
		return nil, errVerifSQL
	}
	tables, release, err := verifConnOf(d, query)
	if err != nil || tables == nil {
		return nil, err
	}
	defer release()
	return verifRun(tables, query, args)
}

// verifConnOf is the connection that a statement runs on: its tables, and what gives it back. There
// are no tables if the statement was done already.
var verifConnOf = func(d *sql.DB, query string) (map[string]*verifTable, func(), error) {
	return verifTables, func() {}, nil
}

// verifModelled tells whether the database is the model.
var verifModelled = func(d *sql.DB) bool { return verifrt.Symbolic() }

// verifDuring happens while a result is read.
var verifDuring = func(r *sql.Rows) {}

// verifAfter happens when a result was closed.
var verifAfter = func(r *sql.Rows) {}

func verifRun(tables map[string]*verifTable, query string, args []interface{}) (sql.Result, error) {
	p := &verifParser{toks: verifTokens(query), args: args}
	ignore, replace := false, false
	switch {
	case p.peek() == "INSERT" || p.peek() == "REPLACE":
		replace = p.next()[0]|32 == 'r' || p.is("OR", "REPLACE")
		ignore = p.is("IGNORE") || p.is("OR", "IGNORE")
		p.need("INTO")
		t := tables[p.next()]
		if t == nil {
			return nil, errVerifSQL
		}
		p.need("(")
		cols := p.names()
		p.need(")")
		p.need("VALUES")
		var added []verifRow
		for {
			vals, ok := p.list()
			if !ok || len(vals) != len(cols) {
				return nil, errVerifSQL
			}
			r := verifRow{"created_time": verifClock}
			for i, c := range cols {
				if !t.has(c) {
					return nil, errVerifSQL
				}
				r[c] = vals[i]
			}
			added = append(added, r)
			if !p.is(",") {
				break
			}
		}
		if !p.end() {
			return nil, errVerifSQL
		}
		rows := append([]verifRow{}, t.rows...)
		for _, r := range added {
			dup := false
			for i, o := range rows {
				if t.same(r, o) {
					dup = true
					if replace {
						rows[i] = r
					}
				}
			}
			if dup && !ignore && !replace {
				return nil, errVerifSQL
			}
			if !dup {
				rows = append(rows, r)
			}
		}
		t.rows = rows
		return nil, nil
	case p.is("UPDATE"):
		t := tables[p.next()]
		if t == nil {
			return nil, errVerifSQL
		}
		p.need("SET")
		set := map[string]interface{}{}
		for {
			col := p.next()
			p.need("=")
			v, ok := p.value()
			if !ok || !t.has(col) {
				return nil, errVerifSQL
			}
			set[col] = v
			if !p.is(",") {
				break
			}
		}
		cond, ok := p.where()
		if !ok || !p.end() {
			return nil, errVerifSQL
		}
		for _, r := range t.rows {
			if cond(r) {
				for c, v := range set {
					r[c] = v
				}
			}
		}
		return nil, nil
	case p.is("DELETE", "FROM"):
		t := tables[p.next()]
		if t == nil {
			return nil, errVerifSQL
		}
		cond, ok := p.where()
		if !ok || !p.end() {
			return nil, errVerifSQL
		}
		var rows []verifRow
		for _, r := range t.rows {
			if !cond(r) {
				rows = append(rows, r)
			}
		}
		t.rows = rows
		return nil, nil
	}
	if p.peek() == "CREATE" {
		return nil, verifCreate(tables, query)
	}
	verifrt.Unsupported("SQL: " + query)
	return nil, nil
}

//verif:stub (*database/sql.DB).Query
func verifQuery(d *sql.DB, query string, args ...interface{}) (*sql.Rows, error) {
	if !verifModelled(d) {
		return d.Query(query, args...)
	}
	if verifDown {
		return nil, errVerifSQL
	}
	tables, release, err := verifConnOf(d, query)
	if err != nil {
		return nil, err
	}
	rows, err := verifSelect(tables, query, args)
	if err != nil {
		release()
		return nil, err
	}
	verifCursors[rows].release = release
	return rows, nil
}

func verifSelect(tables map[string]*verifTable, query string, args []interface{}) (*sql.Rows, error) {
	p := &verifParser{toks: verifTokens(query), args: args}
	p.need("SELECT")
	cols := p.names()
	p.need("FROM")
	t := tables[p.next()]
	if t == nil {
		return nil, errVerifSQL
	}
	for _, c := range cols {
		if !t.has(c) {
			return nil, errVerifSQL
		}
	}
	cond, ok := p.where()
	if !ok {
		return nil, errVerifSQL
	}
	var rows []verifRow
	for _, r := range t.rows {
		if cond(r) {
			rows = append(rows, r)
		}
	}
	if p.is("ORDER", "BY") {
		for {
			col := p.next()
			desc := p.is("DESC")
			if !desc {
				p.is("ASC")
			}
			// stable, so that the first column has to be the only one
			for i := range rows {
				for j := i; j > 0; j-- {
					var less bool
					if col == "created_time" {
						less = rows[j][col].(int) < rows[j-1][col].(int)
						if desc {
							less = rows[j][col].(int) > rows[j-1][col].(int)
						}
					} else {
						less = verifText(rows[j][col]) < verifText(rows[j-1][col])
						if desc {
							less = verifText(rows[j][col]) > verifText(rows[j-1][col])
						}
					}
					if !less {
						break
					}
					rows[j], rows[j-1] = rows[j-1], rows[j]
				}
			}
			if p.is(",") {
				verifrt.Unsupported("SQL: order by several columns")
			}
			break
		}
	} else if len(rows) == 2 && verifrt.Choice("other_order", 2) == 1 {
		rows[0], rows[1] = rows[1], rows[0] // any order
	}
	if p.is("LIMIT") {
		n := p.next()
		k := 0
		for i := 0; i < len(n); i++ {
			k = k*10 + int(n[i]-'0')
		}
		if k < len(rows) {
			rows = rows[:k]
		}
	}
	if !p.end() {
		return nil, errVerifSQL
	}
	c := &verifCursor{at: -1}
	for _, r := range rows {
		var vs []interface{}
		for _, col := range cols {
			vs = append(vs, r[col])
		}
		c.rows = append(c.rows, vs)
	}
	res := new(sql.Rows)
	verifCursors[res] = c
	return res, nil
}

//verif:stub (*database/sql.Rows).Next
func verifNext(r *sql.Rows) bool {
	verifDuring(r)
	if verifCut > 0 {
		verifCut--
		if verifCut == 0 {
			verifCutRows = r
			return false
		}
	}
	if verifCursors[r] == nil {
		if r.Next() {
			return true
		}
		verifAfter(r)
		return false
	}
	c := verifCursors[r]
	if c.closed {
		return false
	}
	c.at++
	if c.at >= len(c.rows) {
		c.end()
		verifAfter(r)
		return false
	}
	return true
}

// end gives the connection back.
func (c *verifCursor) end() {
	if !c.closed {
		c.closed = true
		c.release()
	}
}

//verif:stub (*database/sql.Rows).Scan
func verifScan(r *sql.Rows, dest ...interface{}) error {
	if verifCursors[r] == nil {
		return r.Scan(dest...)
	}
	c := verifCursors[r]
	if c.closed || c.at < 0 || c.at >= len(c.rows) || len(dest) != len(c.rows[c.at]) {
		return errVerifSQL
	}
	for i, v := range c.rows[c.at] {
		switch d := dest[i].(type) {
		case *[]byte:
			if v == nil {
				*d = nil
			} else {
				*d = append([]byte{}, []byte(verifText(v))...)
			}
		case *string:
			if v == nil {
				return errVerifSQL
			}
			*d = verifText(v)
		case *sql.NullString:
			if v == nil {
				*d = sql.NullString{}
			} else {
				*d = sql.NullString{String: verifText(v), Valid: true}
			}
		default:
			verifrt.Unsupported("SQL: type of a destination")
		}
	}
	return nil
}

//verif:stub (*database/sql.Rows).Close
func verifRowsClose(r *sql.Rows) error {
	if verifCursors[r] == nil {
		err := r.Close()
		verifAfter(r)
		return err
	}
	verifCursors[r].end()
	verifAfter(r)
	return nil
}

//verif:stub (*database/sql.Rows).Err
func verifRowsErr(r *sql.Rows) error {
	if verifCutRows == r {
		return errVerifSQL
	}
	if verifCursors[r] == nil {
		return r.Err()
	}
	return nil
}

// verifOpen is a new database.
func verifOpen() *SqlDatabase {
	cfg := config.GetLocalhostDbConfig()
	cfg.Schema = "dheart"
	cfg.InMemory = true
	if !verifrt.Symbolic() {
		d := NewDatabase(&cfg).(*SqlDatabase)
		if err := d.Connect(); err != nil {
			panic(err)
		}
		d.db.SetMaxOpenConns(1)
		if err := d.inMemoryMigration(); err != nil {
			panic(err)
		}
		return d
	}
	verifSchema()
	return &SqlDatabase{db: new(sql.DB), config: &cfg}
}

// verifStamp sets the time of what was written to the table just now.
func verifStamp(d *SqlDatabase, table string, at int) {
	if verifrt.Symbolic() {
		for _, r := range verifTables[table].rows {
			if r["created_time"].(int) == 0 {
				r["created_time"] = at
			}
		}
		return
	}
	if _, err := d.db.Exec("UPDATE "+table+" SET created_time = ? WHERE created_time > '2020'", "2001-01-01 00:00:0"+string(rune('0'+at))); err != nil {
		panic(err)
	}
}

// verifBreak cuts the connection to the database.
func verifBreak(d *SqlDatabase) {
	verifDown = true
	if !verifrt.Symbolic() {
		d.db.Close()
	}
}

// verifLeaks is the number of result sets that were not closed.
func verifLeaks() int {
	n := 0
	for _, c := range verifCursors {
		if !c.closed {
			n++
		}
	}
	return n
}

// verifCutOff makes a call whose connection breaks at a row. It returns whether it did.
func verifCutOff(f func()) bool {
	verifCut, verifCutRows = 1+verifrt.Choice("row", 2), nil
	f()
	verifCut = 0
	return verifCutRows != nil
}
