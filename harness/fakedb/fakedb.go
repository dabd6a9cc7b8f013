// Package fakedb is a database/sql driver for the checks: result sets come
// from a handler, faults are injected at chosen events, and open connections,
// result sets and transactions are counted. It has a small store of
// keys and values with transactions.
package fakedb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"maps"
	"slices"
	"sync"
	"time"
)

// Event is something the driver does; faults are keyed by it.
type Event string

// Events.
const (
	Connect  Event = "connect"
	Ping     Event = "ping"
	Query    Event = "query"
	Exec     Event = "exec"
	Next     Event = "next"
	CloseRow Event = "rowsclose"
	Begin    Event = "begin"
	Commit   Event = "commit"
	Rollback Event = "rollback"
)

// Result is a result set. Err, if set, ends it instead of io.EOF.
type Result struct {
	Cols  []string
	Types []string
	Rows  [][]driver.Value
	Err   error
}

// DB is the database behind the driver.
type DB struct {
	// Handler answers queries. If nil, the key-value store does.
	Handler func(query string, args []driver.NamedValue) (*Result, error)
	// Changes answers statements with the number of rows affected. If nil, the key-value store does.
	Changes func(query string, args []driver.NamedValue) (int64, error)
	// Fault returns the error for the n-th (from 0) event of its kind.
	Fault func(e Event, n int) error
	// Delay is how long an event takes.
	Delay func(e Event, n int) time.Duration
	// Interrupt lets events end, with the context's error, when their context does.
	Interrupt bool
	// Seen is told the context of every event.
	Seen func(e Event, ctx context.Context)

	mu       sync.Mutex
	counts   map[Event]int
	conns    int
	rows     int
	txs      int
	opts     []driver.TxOptions
	queries  []string
	store    map[string]int64
	closedDB int
}

// Open returns a database/sql handle.
func (d *DB) Open() *sql.DB { return sql.OpenDB(connector{d}) }

// Count returns how often the event happened.
func (d *DB) Count(e Event) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.counts[e]
}

// Open connections, result sets, transactions.
func (d *DB) Leaks() (conns, rows, txs int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.conns, d.rows, d.txs
}

// Options are the options of the transactions begun.
func (d *DB) Options() []driver.TxOptions {
	d.mu.Lock()
	defer d.mu.Unlock()
	return slices.Clone(d.opts)
}

// Queries are the queries so far.
func (d *DB) Queries() []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	return slices.Clone(d.queries)
}

// Store returns the committed contents.
func (d *DB) Store() map[string]int64 {
	d.mu.Lock()
	defer d.mu.Unlock()
	return maps.Clone(d.store)
}

func (d *DB) event(ctx context.Context, e Event) error {
	if d.Seen != nil {
		d.Seen(e, ctx)
	}
	d.mu.Lock()
	if d.counts == nil {
		d.counts = map[Event]int{}
	}
	n := d.counts[e]
	d.counts[e]++
	d.mu.Unlock()
	if d.Delay != nil {
		if w := d.Delay(e, n); w > 0 && !d.Interrupt {
			time.Sleep(w)
		} else if w > 0 {
			t := time.NewTimer(w)
			defer t.Stop()
			select {
			case <-t.C:
			case <-ctx.Done():
				return ctx.Err()
			}
		}
	}
	if d.Fault != nil {
		return d.Fault(e, n)
	}
	return nil
}

func (d *DB) add(p *int, n int) {
	d.mu.Lock()
	*p += n
	d.mu.Unlock()
}

type connector struct{ d *DB }

func (c connector) Driver() driver.Driver { return drv{} }
func (c connector) Connect(ctx context.Context) (driver.Conn, error) {
	if err := c.d.event(ctx, Connect); err != nil {
		return nil, err
	}
	c.d.add(&c.d.conns, 1)
	return &conn{d: c.d}, nil
}

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, fmt.Errorf("fakedb: not supported") }

type conn struct {
	d      *DB
	tx     map[string]int64 // pending writes
	closed bool
}

var (
	_ driver.QueryerContext = (*conn)(nil)
	_ driver.ExecerContext  = (*conn)(nil)
	_ driver.ConnBeginTx    = (*conn)(nil)
	_ driver.Pinger         = (*conn)(nil)
)

func (c *conn) Prepare(string) (driver.Stmt, error) {
	return nil, fmt.Errorf("fakedb: not supported")
}

func (c *conn) Close() error {
	if !c.closed {
		c.closed = true
		c.d.add(&c.d.conns, -1)
		if c.tx != nil {
			c.tx = nil
			c.d.add(&c.d.txs, -1)
		}
	}
	return nil
}

func (c *conn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }

func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := c.d.event(ctx, Begin); err != nil {
		return nil, err
	}
	if c.tx != nil {
		return nil, fmt.Errorf("fakedb: already in a transaction")
	}
	c.tx = map[string]int64{}
	c.d.mu.Lock()
	c.d.txs++
	c.d.opts = append(c.d.opts, o)
	c.d.mu.Unlock()
	return tx{c}, nil
}

func (c *conn) Ping(ctx context.Context) error { return c.d.event(ctx, Ping) }

type tx struct{ c *conn }

func (t tx) end(apply bool) {
	d := t.c.d
	d.mu.Lock()
	defer d.mu.Unlock()
	if t.c.tx == nil {
		return
	}
	if apply {
		if d.store == nil {
			d.store = map[string]int64{}
		}
		maps.Copy(d.store, t.c.tx)
	}
	t.c.tx = nil
	d.txs--
}

func (t tx) Commit() error {
	err := t.c.d.event(context.Background(), Commit)
	t.end(err == nil)
	return err
}

func (t tx) Rollback() error {
	err := t.c.d.event(context.Background(), Rollback)
	t.end(false)
	return err
}

func (c *conn) CheckNamedValue(nv *driver.NamedValue) error {
	v, err := driver.DefaultParameterConverter.ConvertValue(nv.Value)
	if err == nil {
		nv.Value = v
	}
	return err
}

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	c.d.mu.Lock()
	c.d.queries = append(c.d.queries, q)
	c.d.mu.Unlock()
	if err := c.d.event(ctx, Query); err != nil {
		return nil, err
	}
	var res *Result
	var err error
	if c.d.Handler != nil {
		res, err = c.d.Handler(q, args)
	} else {
		res, err = c.get(q, args)
	}
	if err != nil {
		return nil, err
	}
	c.d.add(&c.d.rows, 1)
	return &rows{ctx: ctx, d: c.d, r: res}, nil
}

// get answers "get" with the value of a key.
func (c *conn) get(q string, args []driver.NamedValue) (*Result, error) {
	if q != "get" || len(args) != 1 {
		return nil, fmt.Errorf("fakedb: unknown query %q", q)
	}
	k := args[0].Value.(string)
	res := &Result{Cols: []string{"v"}}
	c.d.mu.Lock()
	defer c.d.mu.Unlock()
	if v, ok := c.tx[k]; ok {
		res.Rows = [][]driver.Value{{v}}
	} else if v, ok := c.d.store[k]; ok {
		res.Rows = [][]driver.Value{{v}}
	}
	return res, nil
}

// ExecContext: "put" sets the value of a key.
func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	c.d.mu.Lock()
	c.d.queries = append(c.d.queries, q)
	c.d.mu.Unlock()
	if err := c.d.event(ctx, Exec); err != nil {
		return nil, err
	}
	if c.d.Changes != nil {
		n, err := c.d.Changes(q, args)
		return driver.RowsAffected(n), err
	}
	if q != "put" || len(args) != 2 {
		return nil, fmt.Errorf("fakedb: unknown statement %q", q)
	}
	c.d.mu.Lock()
	defer c.d.mu.Unlock()
	k, v := args[0].Value.(string), args[1].Value.(int64)
	if c.tx != nil {
		c.tx[k] = v
	} else {
		if c.d.store == nil {
			c.d.store = map[string]int64{}
		}
		c.d.store[k] = v
	}
	return driver.RowsAffected(1), nil
}

type rows struct {
	ctx    context.Context // of the query
	d      *DB
	r      *Result
	i      int
	closed bool
}

func (r *rows) Columns() []string { return r.r.Cols }

func (r *rows) ColumnTypeDatabaseTypeName(i int) string {
	if i < len(r.r.Types) {
		return r.r.Types[i]
	}
	return ""
}

func (r *rows) Close() error {
	if r.closed {
		return nil
	}
	r.closed = true
	r.d.add(&r.d.rows, -1)
	return r.d.event(context.Background(), CloseRow)
}

func (r *rows) Next(dest []driver.Value) error {
	if err := r.d.event(r.ctx, Next); err != nil {
		return err
	}
	if r.i >= len(r.r.Rows) {
		if r.r.Err != nil {
			return r.r.Err
		}
		return io.EOF
	}
	copy(dest, r.r.Rows[r.i])
	r.i++
	return nil
}
