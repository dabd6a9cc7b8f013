package prov

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"maps"
	"reflect"
	"slices"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/fakedb"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/pkg/flake"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// newIDs makes a generator for the time of the bubble.
func newIDs() flake.IDGenerator {
	return flake.NewIDGenerator(flake.Settings{
		StartTime: time.Now().Add(-time.Hour),
		MachineID: func() (uint16, error) { return 1, nil },
	})
}

var errFault = errors.New("injected fault")

var keys = []string{"a", "b", "c"}

// get reads a key in one of the ways.
func get(db xdb.DB, ctx context.Context, way int, k string) (v int64, found bool, err error) {
	if way == 0 {
		err = db.QueryRowContext(ctx, "get", k).Scan(&v)
		if err == sql.ErrNoRows {
			return 0, false, nil
		}
		return v, err == nil, err
	}
	rows, err := db.QueryContext(ctx, "get", k)
	if err != nil {
		return 0, false, err
	}
	defer rows.Close()
	for rows.Next() {
		if err := rows.Scan(&v); err != nil {
			return 0, false, err
		}
		found = true
	}
	return v, found, rows.Err()
}

func put(db xdb.DB, ctx context.Context, k string, v int64) error {
	_, err := db.ExecContext(ctx, "put", k, v)
	return err
}

type txn struct {
	p       xdb.Provider
	n       int
	cancel  context.CancelFunc
	pending map[string]int64
	done    bool
}

// view is how the provider is used as a database.
func view(rt *rapid.T, p xdb.Provider) (xdb.DB, string) {
	switch rapid.IntRange(0, 3).Draw(rt, "view") {
	case 0:
		return p.DB(), "DB()"
	case 1:
		if tx := p.Tx(); tx != nil && !reflect.ValueOf(tx).IsNil() {
			return tx, "Tx()"
		}
	}
	return p, "provider"
}

func TestC15_Transactions(t *testing.T) {
	vh.Run(t, 3000, 60000, "up to 30 steps over a provider and up to 3 open transactions: begin with random options, put and get through any of them and in every way, commit, rollback, close, cancel the context, a nested begin, a commit without a transaction, with begin, commit, rollback and statements failing at random points; every read, the stored data and the errors are compared with a model, and at the end nothing is left open; non-trivial: a transaction with a write came to its end",
		func(rt *rapid.T, c *vh.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) { transactions(rt, c) })
		})
}

func transactions(rt *rapid.T, c *vh.Case) {
	var log []string
	fail := func(format string, args ...any) {
		rt.Helper()
		rt.Fatalf(format+"\n%s", append(args, strings.Join(log, "; "))...)
	}
	next := map[fakedb.Event]bool{} // events which fail the next time
	db := &fakedb.DB{}
	var nextLock sync.Mutex // pings come from another goroutine
	db.Fault = func(e fakedb.Event, n int) error {
		nextLock.Lock()
		defer nextLock.Unlock()
		if next[e] {
			delete(next, e)
			return errFault
		}
		return nil
	}
	ctx := context.Background()
	conn := db.Open()
	var all []*txn
	p, err := xdb.New("fake", conn, newIDs())
	if err != nil {
		fail("new: %v", err)
	}
	p.WithConnectionString("fake://conn")
	finished := false
	defer func() {
		if !finished { // failed: nothing may be left in the bubble
			for _, x := range all {
				x.cancel()
			}
			_ = p.Close()
			_ = conn.Close()
		}
	}()
	store := map[string]int64{}
	var open []*txn
	var wantOpts []driver.TxOptions
	ended := 0
	seq := int64(0)

	disarm := func(e fakedb.Event) {
		nextLock.Lock()
		delete(next, e)
		nextLock.Unlock()
	}
	arm := func(e fakedb.Event) bool {
		if rapid.IntRange(0, 5).Draw(rt, "fault") == 0 {
			nextLock.Lock()
			next[e] = true
			nextLock.Unlock()
			log = append(log, "fault "+string(e))
			return true
		}
		return false
	}
	pick := func() *txn { return rapid.SampledFrom(all).Draw(rt, "tx") }
	drop := func(x *txn) {
		x.done = true
		for i, o := range open {
			if o == x {
				open = append(open[:i:i], open[i+1:]...)
			}
		}
	}
	checkStore := func() {
		got := db.Store()
		if !(len(got) == 0 && len(store) == 0) && !maps.Equal(got, store) {
			fail("stored %v, expected %v", got, store)
		}
		if _, rows, txs := db.Leaks(); rows != 0 || txs != len(open) {
			fail("%d result sets and %d transactions are open, expected 0 and %d", rows, txs, len(open))
		}
		if o := db.Options(); len(o) != len(wantOpts) {
			fail("%d transactions were begun, expected %d", len(o), len(wantOpts))
		} else {
			for i := range o {
				if o[i] != wantOpts[i] {
					fail("options %+v of transaction %d, expected %+v", o[i], i, wantOpts[i])
				}
			}
		}
	}
	wantErr := func(what string, err error, want bool) {
		if (err != nil) != want {
			fail("%s: error %v, expected an error: %v", what, err, want)
		}
	}

	steps := rapid.IntRange(1, 30).Draw(rt, "steps")
	for range steps {
		op := rapid.SampledFrom([]string{"begin", "begin", "put", "put", "put", "get", "get", "commit", "rollback", "close", "cancel", "nested", "outer", "outerPut", "outerGet", "sleep"}).Draw(rt, "op")
		if len(all) == 0 && (op == "put" || op == "get" || op == "commit" || op == "rollback" || op == "close" || op == "cancel" || op == "nested") {
			op = "begin"
		}
		c.Class(op)
		switch op {
		case "begin":
			if len(open) >= 3 {
				continue
			}
			var o *sql.TxOptions
			want := driver.TxOptions{}
			if rapid.Bool().Draw(rt, "withOptions") {
				o = &sql.TxOptions{
					Isolation: rapid.SampledFrom([]sql.IsolationLevel{sql.LevelDefault, sql.LevelReadCommitted, sql.LevelRepeatableRead, sql.LevelSerializable, sql.LevelSnapshot}).Draw(rt, "level"),
					ReadOnly:  rapid.Bool().Draw(rt, "readonly"),
				}
				want = driver.TxOptions{Isolation: driver.IsolationLevel(o.Isolation), ReadOnly: o.ReadOnly}
			}
			bad := arm(fakedb.Begin)
			tctx, cancel := context.WithCancel(ctx)
			dead := rapid.IntRange(0, 9).Draw(rt, "dead") == 0
			if dead {
				cancel()
				disarm(fakedb.Begin)
			}
			log = append(log, fmt.Sprintf("begin %d %+v dead=%v", len(all), o, dead))
			tp, err := p.BeginTx(tctx, o)
			wantErr("begin", err, bad || dead)
			if err != nil {
				cancel()
				if tp != nil && !reflect.ValueOf(tp).IsNil() {
					fail("begin: a provider and %v", err)
				}
				if bad && !dead && !errors.Is(err, errFault) {
					fail("begin: another error %v", err)
				}
				break
			}
			wantOpts = append(wantOpts, want)
			x := &txn{p: tp, n: len(all), cancel: cancel, pending: map[string]int64{}}
			open = append(open, x)
			all = append(all, x)
			if tp.Name() != "fake" || tp.Tx() == nil || tp.DB() == nil {
				fail("transaction provider: name %q, tx %v, db %v", tp.Name(), tp.Tx(), tp.DB())
			}
			a, b := tp.NextID(), p.NextID()
			if a.UInt64() >= b.UInt64() || a.Invalid() {
				fail("ids %v, %v", a, b)
			}
		case "put":
			x := pick()
			db1, how := view(rt, x.p)
			seq++
			k := rapid.SampledFrom(keys).Draw(rt, "key")
			bad := !x.done && arm(fakedb.Exec)
			log = append(log, fmt.Sprintf("put %d %s=%d by %s", x.n, k, seq, how))
			err := put(db1, ctx, k, seq)
			wantErr("put", err, bad || x.done)
			if err == nil {
				x.pending[k] = seq
			}
		case "get":
			x := pick()
			db1, how := view(rt, x.p)
			k := rapid.SampledFrom(keys).Draw(rt, "key")
			way := rapid.IntRange(0, 1).Draw(rt, "way")
			bad := !x.done && arm(fakedb.Query)
			log = append(log, fmt.Sprintf("get %d %s by %s", x.n, k, how))
			v, found, err := get(db1, ctx, way, k)
			wantErr("get", err, bad || x.done)
			if err == nil {
				want, ok := x.pending[k]
				if !ok {
					want, ok = store[k]
				}
				if v != want || found != ok {
					fail("read %v %v, expected %v %v", v, found, want, ok)
				}
			}
		case "commit":
			x := pick()
			bad := !x.done && arm(fakedb.Commit)
			log = append(log, fmt.Sprintf("commit %d", x.n))
			var err error
			if rapid.Bool().Draw(rt, "byTx") {
				err = x.p.Tx().Commit()
			} else {
				err = x.p.Commit()
			}
			wantErr("commit", err, bad || x.done)
			if bad && !errors.Is(err, errFault) {
				fail("commit: another error %v", err)
			}
			if err == nil {
				maps.Copy(store, x.pending)
			}
			if !x.done && len(x.pending) > 0 {
				ended++
			}
			c.ClassIf(bad, "failed commit")
			drop(x)
		case "rollback", "close":
			x := pick()
			bad := !x.done && arm(fakedb.Rollback)
			log = append(log, fmt.Sprintf("%s %d", op, x.n))
			var err error
			if op == "close" {
				err = x.p.Close()
			} else {
				err = x.p.Rollback()
			}
			wantErr(op, err, bad)
			if !x.done && len(x.pending) > 0 {
				ended++
			}
			drop(x)
		case "cancel":
			x := pick()
			log = append(log, fmt.Sprintf("cancel %d", x.n))
			x.cancel()
			synctest.Wait()
			drop(x)
		case "nested":
			x := pick()
			log = append(log, fmt.Sprintf("nested in %d", x.n))
			n, err := x.p.BeginTx(ctx, nil)
			wantErr("nested begin", err, true)
			if n != nil && !reflect.ValueOf(n).IsNil() {
				fail("nested begin: a provider and %v", err)
			}
		case "outer":
			log = append(log, "commit and rollback of the outer provider")
			wantErr("outer commit", p.Commit(), true)
			wantErr("outer rollback", p.Rollback(), true)
			if p.Tx() != nil {
				fail("the outer provider has a transaction")
			}
		case "outerPut":
			seq++
			k := rapid.SampledFrom(keys).Draw(rt, "key")
			bad := arm(fakedb.Exec)
			log = append(log, fmt.Sprintf("put %s=%d", k, seq))
			db1, _ := view(rt, p)
			err := put(db1, ctx, k, seq)
			wantErr("put", err, bad)
			if err == nil {
				store[k] = seq
			}
		case "outerGet":
			k := rapid.SampledFrom(keys).Draw(rt, "key")
			bad := arm(fakedb.Query)
			log = append(log, "get "+k)
			db1, _ := view(rt, p)
			v, found, err := get(db1, ctx, rapid.IntRange(0, 1).Draw(rt, "way"), k)
			wantErr("get", err, bad)
			if want, ok := store[k]; err == nil && (v != want || found != ok) {
				fail("read %v %v, expected %v %v", v, found, want, ok)
			}
		case "sleep":
			// over a few pings
			time.Sleep(time.Duration(rapid.IntRange(1, 200).Draw(rt, "seconds")) * time.Second)
		}
		nextLock.Lock()
		clear(next)
		nextLock.Unlock()
		checkStore()
	}
	// the outer provider is closed before or after the transactions
	early := rapid.Bool().Draw(rt, "closeFirst")
	if early {
		log = append(log, "close the outer provider")
		if err := p.Close(); err != nil {
			fail("close: %v", err)
		}
	}
	for _, x := range all {
		if err := x.p.Close(); err != nil && !early {
			fail("close of transaction %d: %v", x.n, err)
		}
		x.cancel()
		drop(x)
	}
	synctest.Wait()
	checkStore()
	if !early {
		if err := p.Close(); err != nil {
			fail("close: %v", err)
		}
	}
	synctest.Wait()
	if conns, rows, txs := db.Leaks(); conns != 0 || rows != 0 || txs != 0 {
		fail("after the end %d connections, %d result sets, %d transactions are open", conns, rows, txs)
	}
	finished = true
	c.NonTrivial(ended > 0, strings.Join(log, "; "))
}

// ---- C16 ----

func TestC16_Close(t *testing.T) {
	vh.Run(t, 3000, 60000, "histories in virtual time of sleeps (over, up to and around the moments of pings), statements, transactions and closes, with pings and connections which fail or take up to 10 minutes (given up when the context ends, or not), at most one connection or more; after the close every call is made again, nothing may happen for ten minutes, and no goroutine may be left; non-trivial: at least one ping before the close",
		func(rt *rapid.T, c *vh.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) { closing(rt, c) })
		})
}

func closing(rt *rapid.T, c *vh.Case) {
	var log []string
	fail := func(format string, args ...any) {
		rt.Helper()
		rt.Fatalf(format+"\n%s", append(args, strings.Join(log, "; "))...)
	}
	ctx := context.Background()
	start := time.Now()
	failPings := rapid.SampledFrom([]string{"", "", "some", "all", "badconn"}).Draw(rt, "failPings")
	slow := rapid.SampledFrom([]int{0, 0, 0, 1, 59, 60, 61, 600}).Draw(rt, "slow")
	slowAt := rapid.IntRange(0, 3).Draw(rt, "slowAt")
	badConnect := rapid.IntRange(0, 4).Draw(rt, "badConnect") == 0
	db := &fakedb.DB{}
	var mu sync.Mutex
	var tried []time.Duration // when a ping was tried
	attempt := func() {
		mu.Lock()
		defer mu.Unlock()
		tried = append(tried, time.Since(start))
	}
	attempts := func() []time.Duration {
		mu.Lock()
		defer mu.Unlock()
		return slices.Clone(tried)
	}
	db.Fault = func(e fakedb.Event, n int) error {
		if e == fakedb.Connect && badConnect && n%3 == 1 {
			attempt()
			return errFault
		}
		if e != fakedb.Ping {
			return nil
		}
		attempt()
		switch {
		case failPings == "all" || failPings == "some" && n%2 == 0:
			return errFault
		case failPings == "badconn" && n%3 == 0:
			return driver.ErrBadConn
		}
		return nil
	}
	// a ping gives up when its context ends, or does not
	db.Interrupt = rapid.Bool().Draw(rt, "interrupt")
	db.Delay = func(e fakedb.Event, n int) time.Duration {
		if e == fakedb.Ping && n == slowAt {
			return time.Duration(slow) * time.Second
		}
		return 0
	}
	conn := db.Open()
	maxConns := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "maxConns")
	conn.SetMaxOpenConns(maxConns)
	p, err := xdb.New("fake", conn, newIDs())
	if err != nil {
		fail("new: %v", err)
	}
	var txs []xdb.Provider
	finished := false
	defer func() {
		if !finished { // failed: nothing may be left in the bubble
			for _, x := range txs {
				_ = x.Close()
			}
			_ = p.Close()
			_ = conn.Close()
		}
	}()
	log = append(log, fmt.Sprintf("pings %q, slow %ds at %d, bad connections %v, max %d", failPings, slow, slowAt, badConnect, maxConns))
	for range rapid.IntRange(0, 8).Draw(rt, "steps") {
		op := rapid.SampledFrom([]string{"sleep", "sleep", "toTick", "put", "begin", "end"}).Draw(rt, "op")
		switch op {
		case "sleep":
			d := time.Duration(rapid.IntRange(1, 400).Draw(rt, "seconds")) * time.Second
			log = append(log, "sleep "+d.String())
			time.Sleep(d)
		case "toTick":
			// up to the moment of a ping, or next to it
			at := time.Duration(int(time.Since(start)/time.Minute)+1) * time.Minute
			d := at - time.Since(start) + time.Duration(rapid.IntRange(-1, 1).Draw(rt, "ns"))
			log = append(log, "sleep "+d.String())
			time.Sleep(d)
		case "put":
			if maxConns == 0 {
				log = append(log, "put")
				if err := put(p, ctx, "a", 1); err != nil && !badConnect {
					fail("put: %v", err)
				}
			}
		case "begin":
			if len(txs) < 1 || maxConns == 0 && len(txs) < 3 {
				x, err := p.BeginTx(ctx, nil)
				log = append(log, fmt.Sprint("begin: ", err))
				if err != nil && !badConnect {
					fail("begin: %v", err)
				}
				if err == nil {
					txs = append(txs, x)
				}
			}
		case "end":
			if len(txs) > 0 {
				x := txs[len(txs)-1]
				txs = txs[:len(txs)-1]
				how := rapid.IntRange(0, 3).Draw(rt, "how")
				log = append(log, fmt.Sprint("end ", how))
				if how == 1 || how == 2 {
					if err := x.Commit(); err != nil {
						fail("commit: %v", err)
					}
				}
				if how == 3 {
					if err := x.Rollback(); err != nil {
						fail("rollback: %v", err)
					}
				}
				if how != 1 {
					if err := x.Close(); err != nil {
						fail("close of the transaction: %v", err)
					}
				}
				if err := put(p, ctx, "a", 1); err != nil && !badConnect && len(txs) == 0 {
					fail("put after the end of a transaction: %v", err)
				}
			}
		}
	}
	if len(txs) > 0 && rapid.Bool().Draw(rt, "wait") {
		synctest.Wait()
	}
	age := time.Since(start)
	// it is kept alive: a ping at least every 5 minutes (or as long as one takes, or while the only
	// connection is in use)
	free := maxConns == 0 || maxConns == 2
	if free && slow < 300 {
		last := time.Duration(0)
		for _, a := range append(attempts(), age) {
			if a-last > 5*time.Minute {
				fail("no ping from %s to %s, pings at %v", last, a, attempts())
			}
			last = a
		}
	}
	pings := len(attempts())
	log = append(log, fmt.Sprintf("close after %s, %d pings", age, pings))
	n := rapid.IntRange(1, 3).Draw(rt, "closes")
	for i := range n {
		if err := p.Close(); err != nil {
			fail("close %d: %v", i, err)
		}
		if i < n-1 && rapid.Bool().Draw(rt, "between") {
			time.Sleep(time.Duration(rapid.IntRange(0, 120).Draw(rt, "pause")) * time.Second)
		}
	}
	if rapid.Bool().Draw(rt, "settle") {
		synctest.Wait()
	}
	// calls after the close
	after := func() {
		if _, err := p.BeginTx(ctx, nil); err == nil {
			fail("begin after the close: no error")
		}
		if err := put(p, ctx, "a", 1); err == nil {
			fail("put after the close: no error")
		}
		for way := range 2 {
			if _, _, err := get(p, ctx, way, "a"); err == nil {
				fail("get after the close: no error")
			}
		}
		if err := put(p.DB(), ctx, "a", 1); err == nil {
			fail("put after the close: no error")
		}
		if p.Commit() == nil || p.Rollback() == nil {
			fail("commit or rollback after the close: no error")
		}
		if p.Name() != "fake" || p.NextID().Invalid() {
			fail("name or id after the close")
		}
		if err := p.Close(); err != nil {
			fail("close again: %v", err)
		}
	}
	after()
	for _, x := range txs {
		_ = x.Close()
		_ = x.Close()
		if _, err := x.BeginTx(ctx, nil); err == nil {
			fail("begin in a transaction after the close: no error")
		}
	}
	synctest.Wait()
	if conns, rows, open := db.Leaks(); db.Interrupt && (conns != 0 || rows != 0 || open != 0) {
		fail("right after the close %d connections, %d result sets, %d transactions are open", conns, rows, open)
	}
	// a ping which is under way and can not be interrupted ends first
	time.Sleep(time.Duration(slow) * time.Second)
	synctest.Wait()
	pings = len(attempts())
	time.Sleep(10 * time.Minute)
	if len(attempts()) != pings {
		fail("%d pings after the close", len(attempts())-pings)
	}
	after()
	if conns, rows, open := db.Leaks(); conns != 0 || rows != 0 || open != 0 {
		fail("after the close %d connections, %d result sets, %d transactions are open", conns, rows, open)
	}
	c.ClassIf(len(txs) > 0, "open transactions")
	c.ClassIf(age%time.Minute == 0 && age > 0, "closed at a ping")
	c.ClassIf(slow > 0, "slow ping")
	c.ClassIf(failPings != "", "failing pings")
	finished = true
	c.NonTrivial(pings > 0, strings.Join(log, "; "))
	// the bubble ends here: a goroutine which is left fails the check
}
