package mig

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"regexp"
	"slices"
	"strings"
	"sync"
)

// server is a database server with a version table, advisory locks, and
// a log of the other statements. It understands what the migration library
// sends to Postgres and SQL Server.
type server struct {
	mssql bool

	mu      sync.Mutex
	cond    *sync.Cond
	table   bool
	rows    []verRow
	applied []step
	locks   map[string]*session
	open    int
	// fault returns the error for the n-th event
	fault  func(event string, n int) error
	events int
	// after is called after a step ran, without the lock
	during func()
}

type verRow struct {
	version int64
	dirty   bool
}

// step is a statement of a migration; seen is the version row it ran under.
type step struct {
	text   string
	seen   []verRow
	locked bool
}

func newServer(mssql bool) *server {
	s := &server{mssql: mssql, locks: map[string]*session{}}
	s.cond = sync.NewCond(&s.mu)
	return s
}

func (s *server) Open() *sql.DB { return sql.OpenDB(srvConnector{s}) }

type srvConnector struct{ s *server }

func (c srvConnector) Driver() driver.Driver { return nil }
func (c srvConnector) Connect(context.Context) (driver.Conn, error) {
	if err := c.s.event("connect"); err != nil {
		return nil, err
	}
	c.s.mu.Lock()
	c.s.open++
	c.s.mu.Unlock()
	return &session{s: c.s}, nil
}

func (s *server) event(name string) error {
	s.mu.Lock()
	n := s.events
	s.events++
	f := s.fault
	s.mu.Unlock()
	if f != nil {
		return f(name, n)
	}
	return nil
}

// releaseAll forgets all locks, as if the sessions had ended.
func (s *server) releaseAll() {
	s.mu.Lock()
	defer s.mu.Unlock()
	clear(s.locks)
	s.cond.Broadcast()
}

func (s *server) lock(x *session, id string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for s.locks[id] != nil && s.locks[id] != x {
		s.cond.Wait()
	}
	s.locks[id] = x
}

func (s *server) unlock(x *session, id string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.locks[id] != x {
		if s.mssql {
			return fmt.Errorf("cannot release the application lock because it is not currently held")
		}
		return nil
	}
	delete(s.locks, id)
	s.cond.Broadcast()
	return nil
}

type session struct {
	s      *server
	tx     bool
	saved  []verRow
	closed bool
}

var (
	_ driver.QueryerContext = (*session)(nil)
	_ driver.ExecerContext  = (*session)(nil)
	_ driver.ConnBeginTx    = (*session)(nil)
	_ driver.Pinger         = (*session)(nil)
)

func (x *session) Prepare(string) (driver.Stmt, error) { return nil, fmt.Errorf("not supported") }
func (x *session) Begin() (driver.Tx, error) {
	return x.BeginTx(context.Background(), driver.TxOptions{})
}
func (x *session) Ping(context.Context) error { return x.s.event("ping") }
func (x *session) Close() error {
	x.s.mu.Lock()
	defer x.s.mu.Unlock()
	if !x.closed {
		x.closed = true
		x.s.open--
		for id, h := range x.s.locks {
			if h == x {
				delete(x.s.locks, id)
			}
		}
		x.s.cond.Broadcast()
	}
	return nil
}

func (x *session) BeginTx(context.Context, driver.TxOptions) (driver.Tx, error) {
	if err := x.s.event("begin"); err != nil {
		return nil, err
	}
	x.s.mu.Lock()
	defer x.s.mu.Unlock()
	x.tx = true
	x.saved = slices.Clone(x.s.rows)
	return srvTx{x}, nil
}

type srvTx struct{ x *session }

func (t srvTx) Commit() error {
	if err := t.x.s.event("commit"); err != nil {
		t.end(false)
		return err
	}
	t.end(true)
	return nil
}

func (t srvTx) Rollback() error {
	t.end(false)
	return t.x.s.event("rollback")
}

func (t srvTx) end(ok bool) {
	t.x.s.mu.Lock()
	defer t.x.s.mu.Unlock()
	if t.x.tx && !ok {
		t.x.s.rows = t.x.saved
	}
	t.x.tx = false
}

func (x *session) CheckNamedValue(nv *driver.NamedValue) error {
	v, err := driver.DefaultParameterConverter.ConvertValue(nv.Value)
	if err == nil {
		nv.Value = v
	}
	return err
}

func one(col string, v driver.Value) (driver.Rows, error) {
	return &srvRows{cols: []string{col}, rows: [][]driver.Value{{v}}}, nil
}

var reVersion = regexp.MustCompile(`(?is)^\s*SELECT\s+(TOP 1 )?version,\s*dirty\s+FROM`)

func (x *session) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	s := x.s
	lq := strings.ToLower(q)
	switch {
	case strings.Contains(lq, "current_database()") || strings.Contains(lq, "db_name()"):
		if err := s.event("dbname"); err != nil {
			return nil, err
		}
		return one("name", "db")
	case strings.Contains(lq, "current_schema()") || strings.Contains(lq, "schema_name()"):
		if err := s.event("schemaname"); err != nil {
			return nil, err
		}
		return one("name", "public")
	case strings.Contains(lq, "information_schema.tables"):
		if err := s.event("hastable"); err != nil {
			return nil, err
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		n := int64(0)
		if s.table {
			n = 1
		}
		return one("count", n)
	case strings.Contains(lq, "sp_getapplock") && len(args) == 1:
		if err := s.event("lock"); err != nil {
			return nil, err
		}
		s.lock(x, fmt.Sprint(args[0].Value))
		return one("r", int64(0))
	case reVersion.MatchString(q):
		if err := s.event("version"); err != nil {
			return nil, err
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		r := &srvRows{cols: []string{"version", "dirty"}}
		for _, v := range s.rows {
			r.rows = append(r.rows, []driver.Value{v.version, v.dirty})
		}
		return r, nil
	}
	return nil, fmt.Errorf("unknown query %q", q)
}

var reIdent = regexp.MustCompile(`(?i)^\s*(TRUNCATE|TRUNCATE TABLE)\s+("public"\."schema_migrations"|\[public\]\.\[schema_migrations\])\s*$`)

func (x *session) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	s := x.s
	lq := strings.ToLower(q)
	ok := driver.RowsAffected(0)
	switch {
	case strings.Contains(lq, "pg_advisory_lock") && len(args) == 1:
		if err := s.event("lock"); err != nil {
			return nil, err
		}
		s.lock(x, fmt.Sprint(args[0].Value))
		return ok, nil
	case (strings.Contains(lq, "pg_advisory_unlock") || strings.Contains(lq, "sp_releaseapplock")) && len(args) == 1:
		if err := s.event("unlock"); err != nil {
			return nil, err
		}
		return ok, s.unlock(x, fmt.Sprint(args[0].Value))
	case strings.HasPrefix(lq, "create table if not exists \"public\".\"schema_migrations\"") ||
		strings.HasPrefix(lq, "if not exists"):
		if err := s.event("create"); err != nil {
			return nil, err
		}
		s.mu.Lock()
		s.table = true
		s.mu.Unlock()
		return ok, nil
	case reIdent.MatchString(q):
		if err := s.event("truncate"); err != nil {
			return nil, err
		}
		s.mu.Lock()
		s.rows = nil
		s.mu.Unlock()
		return ok, nil
	case strings.HasPrefix(lq, "insert into ") && strings.Contains(lq, "schema_migrations") && len(args) == 2:
		if err := s.event("insert"); err != nil {
			return nil, err
		}
		v, isInt := args[0].Value.(int64)
		d, isBool := args[1].Value.(bool)
		if n, isNum := args[1].Value.(int64); isNum {
			d, isBool = n != 0, true
		}
		if !isInt || !isBool {
			return nil, fmt.Errorf("bad arguments %v", args)
		}
		s.mu.Lock()
		s.rows = append(s.rows, verRow{v, d})
		s.mu.Unlock()
		return ok, nil
	}
	// a step of a migration
	if err := s.event("step"); err != nil {
		return nil, err
	}
	s.mu.Lock()
	locked := false
	for _, h := range s.locks {
		locked = locked || h == x
	}
	s.applied = append(s.applied, step{q, slices.Clone(s.rows), locked})
	during := s.during
	s.mu.Unlock()
	if during != nil {
		during()
	}
	if f := failOf(q); f != nil {
		return nil, f
	}
	return ok, nil
}

type srvRows struct {
	cols []string
	rows [][]driver.Value
}

func (r *srvRows) Columns() []string { return r.cols }
func (r *srvRows) Close() error      { return nil }
func (r *srvRows) Next(dest []driver.Value) error {
	if len(r.rows) == 0 {
		return io.EOF
	}
	copy(dest, r.rows[0])
	r.rows = r.rows[1:]
	return nil
}
