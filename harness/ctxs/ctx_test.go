package ctxs

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/fakedb"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/xsql"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

var bg = context.Background()

type ctxKey struct{}

type rec struct {
	ID   xdb.ID
	Name string
}

func (r *rec) ScanRow(row xdb.Row) error { return row.Scan(&r.ID, &r.Name) }

type result struct{ rows []*rec }

func (r *result) SetResult(rows []*rec, _ bool, _ uint32) { r.rows = rows }
func (r *result) SetResultWithCursor(rows []*rec, _ bool, _ func(*rec) string) {
	r.rows = rows
}

type counter struct {
	mu sync.Mutex
	n  uint64
}

func (c *counter) NextID() uint64 { c.mu.Lock(); defer c.mu.Unlock(); c.n++; return c.n }

func text(rows []*rec) string {
	var b strings.Builder
	for _, r := range rows {
		fmt.Fprintf(&b, "%s=%s;", r.ID, r.Name)
	}
	return b.String()
}

func one(r *rec, err error) (string, error) {
	if err != nil {
		return "", err
	}
	return text([]*rec{r}), nil
}

// calls are the ways to the database: they return what they read.
var calls = map[string]func(ctx context.Context, db xdb.DB) (string, error){
	"query": func(ctx context.Context, db xdb.DB) (string, error) {
		rows, err := db.QueryContext(ctx, "q", "a")
		if err != nil {
			return "", err
		}
		defer rows.Close()
		var list []*rec
		for rows.Next() {
			r := &rec{}
			if err := r.ScanRow(rows); err != nil {
				return "", err
			}
			list = append(list, r)
		}
		return text(list), rows.Err()
	},
	"row": func(ctx context.Context, db xdb.DB) (string, error) {
		r := &rec{}
		err := r.ScanRow(db.QueryRowContext(ctx, "q"))
		return one(r, err)
	},
	"exec": func(ctx context.Context, db xdb.DB) (string, error) {
		_, err := db.ExecContext(ctx, "put", "k", 1)
		return "", err
	},
	"QueryRow": func(ctx context.Context, db xdb.DB) (string, error) {
		r, err := xdb.QueryRow[rec](ctx, db, "q")
		if err != nil {
			if r != nil {
				return text([]*rec{r}), err
			}
			return "", err
		}
		return text([]*rec{r}), nil
	},
	"ExecuteListQuery": func(ctx context.Context, db xdb.DB) (string, error) {
		l, err := xdb.ExecuteListQuery[rec](ctx, db, "q")
		return text(l), err
	},
	"ExecuteQuery": func(ctx context.Context, db xdb.DB) (string, error) {
		var res result
		err := xdb.ExecuteQuery(ctx, db, &res, "q", "x")
		return text(res.rows), err
	},
	"ExecuteQueryWithPagination": func(ctx context.Context, db xdb.DB) (string, error) {
		var res result
		err := xdb.ExecuteQueryWithPagination(ctx, db, &res, "q", 5, 0)
		return text(res.rows), err
	},
	"ExecuteQueryWithCursor": func(ctx context.Context, db xdb.DB) (string, error) {
		var res result
		err := xdb.ExecuteQueryWithCursor(ctx, db, func(*rec) string { return "" }, &res, "q", "", 5)
		return text(res.rows), err
	},
	"Builder.Query": func(ctx context.Context, db xdb.DB) (string, error) {
		var r rec
		var list []*rec
		q := xsql.From("t").Select("id").To(&r.ID).Select("name").To(&r.Name)
		defer q.Close()
		err := q.Query(ctx, db, func(*sql.Rows) { x := r; list = append(list, &x) })
		return text(list), err
	},
	"Builder.QueryAndClose": func(ctx context.Context, db xdb.DB) (string, error) {
		var r rec
		var list []*rec
		err := xsql.Postgres.From("t").Select("id").To(&r.ID).Select("name").To(&r.Name).
			QueryAndClose(ctx, db, func(*sql.Rows) { x := r; list = append(list, &x) })
		return text(list), err
	},
	"Builder.QueryRow": func(ctx context.Context, db xdb.DB) (string, error) {
		r := &rec{}
		q := xsql.From("t").Select("id").To(&r.ID).Select("name").To(&r.Name)
		defer q.Close()
		err := q.QueryRow(ctx, db)
		return one(r, err)
	},
	"Builder.QueryRowAndClose": func(ctx context.Context, db xdb.DB) (string, error) {
		r := &rec{}
		err := xsql.From("t").Select("id").To(&r.ID).Select("name").To(&r.Name).QueryRowAndClose(ctx, db)
		return one(r, err)
	},
	"Builder.Exec": func(ctx context.Context, db xdb.DB) (string, error) {
		q := xsql.Update("t").Set("a", 1)
		defer q.Close()
		_, err := q.Exec(ctx, db)
		return "", err
	},
	"Builder.ExecAndClose": func(ctx context.Context, db xdb.DB) (string, error) {
		_, err := xsql.DeleteFrom("t").Where("a = ?", 1).ExecAndClose(ctx, db)
		return "", err
	},
}

var callNames = func() []string {
	var l []string
	for n := range calls {
		l = append(l, n)
	}
	// begin is not on the handle
	l = append(l, "BeginTx", "BeginTx")
	sortStrings(l)
	return l
}()

func sortStrings(l []string) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

func TestC37_Calls(t *testing.T) {
	vh.Run(t, 4000, 60000, "a call of each kind, on the provider, its handle or a transaction, against a database in virtual time in which statements and rows take random times and the connection may be busy; the context ends before the call, at a random instant of it, or after it, by a cancel, a deadline or a cancel of its parent; compared with the time and the result of the same call without an end; non-trivial: the context ends during the call",
		func(rt *rapid.T, c *vh.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) { oneCall(rt, c) })
		})
}

// ending makes a context which ends after d.
func ending(kind string, d time.Duration) (ctx context.Context, want error, free func()) {
	base := context.WithValue(bg, ctxKey{}, "token")
	switch kind {
	case "deadline":
		ctx, cancel := context.WithTimeout(base, d)
		return ctx, context.DeadlineExceeded, cancel
	case "parent":
		p, cancel := context.WithCancel(base)
		ctx, cancel2 := context.WithTimeout(p, time.Hour)
		if d <= 0 {
			cancel()
		} else {
			time.AfterFunc(d, cancel)
		}
		return ctx, context.Canceled, func() { cancel2(); cancel() }
	}
	ctx, cancel := context.WithCancelCause(base)
	end := func() { cancel(errors.New("the cause")) }
	if d <= 0 {
		end()
	} else {
		time.AfterFunc(d, end)
	}
	return ctx, context.Canceled, end
}

func oneCall(rt *rapid.T, c *vh.Case) {
	n := rapid.IntRange(1, 6).Draw(rt, "rows")
	name := rapid.SampledFrom(callNames).Draw(rt, "call")
	on := rapid.SampledFrom([]string{"provider", "provider", "handle", "tx", "tx handle", "tx Tx()"}).Draw(rt, "on")
	if name == "BeginTx" {
		on = "provider"
	}
	delays := rapid.SliceOfN(rapid.IntRange(0, 4), 1, 12).Draw(rt, "delays")
	busy := 0
	if strings.HasPrefix(on, "provider") || on == "handle" {
		busy = rapid.SampledFrom([]int{0, 0, 3, 7}).Draw(rt, "busy")
	}
	kind := rapid.SampledFrom([]string{"cancel", "deadline", "parent"}).Draw(rt, "end")

	var data [][]driver.Value
	for i := range n {
		data = append(data, []driver.Value{int64(i + 1), "n" + strconv.Itoa(i)})
	}
	var mu sync.Mutex
	timed, seq := false, 0
	token := true // the context of the call is known at the events
	writes := 0
	fake := &fakedb.DB{
		Interrupt: true,
		Handler: func(string, []driver.NamedValue) (*fakedb.Result, error) {
			return &fakedb.Result{Cols: []string{"id", "name"}, Rows: data}, nil
		},
		Changes: func(string, []driver.NamedValue) (int64, error) {
			mu.Lock()
			defer mu.Unlock()
			writes++
			return 1, nil
		},
	}
	fake.Delay = func(e fakedb.Event, _ int) time.Duration {
		mu.Lock()
		defer mu.Unlock()
		if !timed || e != fakedb.Query && e != fakedb.Exec && e != fakedb.Next && e != fakedb.Begin {
			return 0
		}
		d := delays[seq%len(delays)]
		seq++
		return time.Duration(d) * time.Millisecond
	}
	fake.Seen = func(e fakedb.Event, ctx context.Context) {
		mu.Lock()
		defer mu.Unlock()
		if timed && (e == fakedb.Query || e == fakedb.Exec || e == fakedb.Next || e == fakedb.Begin) && ctx.Value(ctxKey{}) != "token" {
			token = false
		}
	}
	conn := fake.Open()
	conn.SetMaxOpenConns(1)
	p, err := xdb.New("fake", conn, &counter{})
	if err != nil {
		vh.Harness(rt, "%v", err)
	}
	defer func() {
		_ = p.Close()
		_ = conn.Close()
	}()
	if err := conn.PingContext(bg); err != nil {
		vh.Harness(rt, "%v", err)
	}
	prov := xdb.Provider(p)
	if strings.HasPrefix(on, "tx") {
		if prov, err = p.BeginTx(bg, nil); err != nil {
			rt.Fatalf("begin: %v", err)
		}
		defer prov.Close()
	}
	var db xdb.DB = prov
	switch on {
	case "handle", "tx handle":
		db = prov.DB()
	case "tx Tx()":
		db = prov.Tx()
	}
	c.Class("on " + on)
	var begun xdb.Provider
	call := func(ctx context.Context) (string, error) {
		if name == "BeginTx" {
			tx, err := p.BeginTx(ctx, nil)
			if err == nil {
				begun = tx
			} else if tx != nil && !reflect.ValueOf(tx).IsNil() {
				return "a provider", err
			}
			return "", err
		}
		return calls[name](ctx, db)
	}
	run := func(ctx context.Context) (string, error, time.Duration) {
		mu.Lock()
		timed, seq, token = true, 0, true
		mu.Unlock()
		if busy > 0 {
			other, err := conn.Conn(bg)
			if err != nil {
				vh.Harness(rt, "%v", err)
			}
			time.AfterFunc(time.Duration(busy)*time.Millisecond, func() { _ = other.Close() })
		}
		start := time.Now()
		res, err := call(ctx)
		took := time.Since(start)
		mu.Lock()
		timed = false
		mu.Unlock()
		if busy > 0 {
			time.Sleep(time.Duration(busy)*time.Millisecond + time.Millisecond)
		}
		return res, err, took
	}
	idle := func(when string) {
		synctest.Wait()
		_, rows, txs := fake.Leaks()
		wantTx, wantUse := 0, 0
		if strings.HasPrefix(on, "tx") {
			wantTx, wantUse = 1, 1
		}
		if use := conn.Stats().InUse; rows != 0 || txs != wantTx || use != wantUse {
			rt.Fatalf("%s on %s %s: %d result sets, %d transactions and %d connections are in use", name, on, when, rows, txs, use)
		}
	}
	full := func(when string) (string, time.Duration) {
		res, err, took := run(context.WithValue(bg, ctxKey{}, "token"))
		if err != nil {
			rt.Fatalf("%s on %s %s: %v", name, on, when, err)
		}
		if !token {
			rt.Fatalf("%s on %s %s: the database does not get the context of the call", name, on, when)
		}
		if name == "BeginTx" {
			if err := begun.Rollback(); err != nil {
				rt.Fatalf("rollback: %v", err)
			}
			begun = nil
		}
		idle(when)
		return res, took
	}
	want, total := full("without an end")

	// whole milliseconds are instants of the database
	at := time.Duration(0)
	when := rapid.IntRange(0, 5).Draw(rt, "when")
	switch {
	case when == 0:
	case when == 5:
		at = total + 500*time.Microsecond
	default:
		ms := int(total / time.Millisecond)
		at = time.Duration(rapid.IntRange(0, max(ms-1, 0)).Draw(rt, "at"))*time.Millisecond + 500*time.Microsecond
	}
	before := writes
	events := fake.Count(fakedb.Query) + fake.Count(fakedb.Exec) + fake.Count(fakedb.Begin)
	ctx, cause, free := ending(kind, at)
	defer free()
	got, err, took := run(ctx)
	what := fmt.Sprintf("%s on %s of %d rows, takes %v, busy %d ms, %s after %v", name, on, n, total, busy, kind, at)
	if !token {
		rt.Fatalf("%s: the database does not get the context of the call", what)
	}
	if at < total || at == 0 {
		switch {
		case err == nil:
			rt.Fatalf("%s: no error, result %q after %v", what, got, took)
		case !errors.Is(err, cause):
			rt.Fatalf("%s: the error is not of the context: %v", what, err)
		case took > at+time.Second:
			rt.Fatalf("%s: returns after %v", what, took)
		case writes != before:
			rt.Fatalf("%s: the statement was executed in spite of %v", what, err)
		case at == 0 && fake.Count(fakedb.Query)+fake.Count(fakedb.Exec)+fake.Count(fakedb.Begin) != events:
			rt.Fatalf("%s: the database is asked though the context has ended", what)
		case name == "BeginTx" && got != "":
			rt.Fatalf("%s: %s and %v", what, got, err)
		case (name == "ExecuteListQuery" || strings.HasPrefix(name, "ExecuteQuery") || name == "QueryRow") && got != "":
			rt.Fatalf("%s: the result %q and %v", what, got, err)
		case !strings.HasPrefix(want, got):
			rt.Fatalf("%s: got %q, expected a part of %q", what, got, want)
		}
	} else {
		if err != nil || got != want {
			rt.Fatalf("%s: %q %v, expected %q", what, got, err, want)
		}
	}
	free()
	if begun != nil {
		// the context of a transaction ends it
		synctest.Wait()
		if _, err := begun.ExecContext(bg, "put", "k", 1); err == nil {
			rt.Fatalf("%s: the transaction goes on after its context ended", what)
		}
		if err := begun.Commit(); err == nil {
			rt.Fatalf("%s: the transaction is committed after its context ended", what)
		}
		if writes != before {
			rt.Fatalf("%s: a statement of the ended transaction was executed", what)
		}
		begun = nil
	}
	idle("after the end")
	// other calls go on
	if again, _ := full("after another call's context ended"); again != want {
		rt.Fatalf("%s: later %q, expected %q", what, again, want)
	}
	if strings.HasPrefix(on, "tx") {
		if err := prov.Commit(); err != nil {
			rt.Fatalf("%s: commit: %v", what, err)
		}
		on = "provider"
		idle("after commit")
	}
	c.Class(name)
	c.ClassIf(at == 0, "ended before")
	c.ClassIf(at > total, "ends after")
	c.ClassIf(busy > 0 && at > 0 && at < time.Duration(busy)*time.Millisecond, "ends while waiting for a connection")
	c.NonTrivial(at > 0 && at < total, what)
}
