package sch

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/fakedb"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/schema"
	"pgregory.net/rapid"
)

type ctxKey struct{}

func TestC37_Listings(t *testing.T) {
	vh.Run(t, 500, 6000, "listings of tables, with dependencies or not, views and foreign keys over a random catalog, through a handle, a provider's connection or a transaction, against a database in virtual time in which queries and rows take random times; the context ends before, at a random instant of, or after the listing; compared with the listing without an end; non-trivial: the context ends during the listing",
		func(rt *rapid.T, c *vh.Case) {
			kind := rapid.SampledFrom([]string{"postgres", "sqlserver"}).Draw(rt, "kind")
			s := &server{catalog: drawCatalog(rt, kind != "postgres", rapid.Bool().Draw(rt, "dense")), kind: kind}
			s.load(rt)
			defer s.catalog.close()
			// the catalog is asked in real time, before
			rapid.SyncTest(rt, func(rt *rapid.T) { timedListing(rt, c, s) })
		})
}

func timedListing(rt *rapid.T, c *vh.Case, s *server) {
	var mu sync.Mutex
	timed, token, seq := false, true, 0
	delays := rapid.SliceOfN(rapid.IntRange(0, 3), 1, 12).Draw(rt, "delays")
	s.fake = &fakedb.DB{Handler: s.answer, Interrupt: true}
	s.fake.Delay = func(e fakedb.Event, _ int) time.Duration {
		mu.Lock()
		defer mu.Unlock()
		if !timed || e != fakedb.Query && e != fakedb.Next {
			return 0
		}
		seq++
		return time.Duration(delays[seq%len(delays)]) * time.Millisecond
	}
	s.fake.Seen = func(e fakedb.Event, ctx context.Context) {
		mu.Lock()
		defer mu.Unlock()
		if timed && (e == fakedb.Query || e == fakedb.Next) && ctx.Value(ctxKey{}) != "token" {
			token = false
		}
	}
	s.conn = s.fake.Open()
	defer s.conn.Close()
	// the connections are made at no cost
	s.conn.SetMaxIdleConns(8)
	schemas, tables := s.drawFilter(rt)
	name := rapid.SampledFrom([]string{"tables", "dependencies", "dependencies", "views", "keys"}).Draw(rt, "call")
	var db xdb.DB = s.conn
	inTx := rapid.IntRange(0, 3).Draw(rt, "tx") == 0
	if inTx {
		tx, err := s.conn.Begin()
		if err != nil {
			vh.Harness(rt, "%v", err)
		}
		defer tx.Rollback()
		db = tx
	}
	p := schema.NewProvider(db, s.kind)
	list := func(ctx context.Context) (res any, n int, err error, took time.Duration) {
		mu.Lock()
		timed, seq, token = true, 0, true
		mu.Unlock()
		start := time.Now()
		switch name {
		case "views":
			var r schema.Tables
			r, err = p.ListViews(ctx, schemas, tables)
			res, n = plain(r), len(r)
		case "keys":
			var r schema.ForeignKeys
			r, err = p.ListForeignKeys(ctx, schemas, tables)
			var l []string
			for _, k := range r {
				l = append(l, fmt.Sprintf("%+v", *k))
			}
			res, n = l, len(l)
		default:
			var r schema.Tables
			r, err = p.ListTables(ctx, schemas, tables, name == "dependencies")
			res, n = plain(r), len(r)
		}
		took = time.Since(start)
		mu.Lock()
		timed = false
		mu.Unlock()
		return
	}
	clean := func(when string) {
		synctest.Wait()
		_, rows, _ := s.fake.Leaks()
		use := s.conn.Stats().InUse
		if inTx {
			use--
		}
		if rows != 0 || use != 0 {
			rt.Fatalf("%s %s: %d result sets and %d connections are in use", name, when, rows, use)
		}
	}
	good := func(when string) (any, time.Duration) {
		res, _, err, took := list(context.WithValue(bg, ctxKey{}, "token"))
		if err != nil {
			rt.Fatalf("%s %s: %v", name, when, err)
		}
		if !token {
			rt.Fatalf("%s %s: the database does not get the context of the call", name, when)
		}
		clean(when)
		return res, took
	}
	want, total := good("without an end")
	at := time.Duration(0)
	when := rapid.IntRange(0, 7).Draw(rt, "when")
	switch {
	case when == 0:
	case when == 7:
		at = total + 500*time.Microsecond
	default:
		at = time.Duration(rapid.IntRange(0, max(int(total/time.Millisecond)-1, 0)).Draw(rt, "at"))*time.Millisecond + 500*time.Microsecond
	}
	ctx, cancel := context.WithCancel(context.WithValue(bg, ctxKey{}, "token"))
	defer cancel()
	cause := context.Canceled
	if rapid.Bool().Draw(rt, "deadline") {
		cause = context.DeadlineExceeded
		var cancel2 context.CancelFunc
		ctx, cancel2 = context.WithTimeout(ctx, at)
		defer cancel2()
	} else if at == 0 {
		cancel()
	} else {
		time.AfterFunc(at, cancel)
	}
	queries := s.fake.Count(fakedb.Query)
	got, n, err, took := list(ctx)
	what := fmt.Sprintf("%s of %q %q (%s, transaction %v), takes %v, %v after %v", name, schemas, tables, s.kind, inTx, total, cause, at)
	if !token {
		rt.Fatalf("%s: the database does not get the context of the call", what)
	}
	if at == 0 || at < total {
		switch {
		case err == nil:
			rt.Fatalf("%s: no error, %d objects after %v", what, n, took)
		case !errors.Is(err, cause):
			rt.Fatalf("%s: the error is not of the context: %v", what, err)
		case n != 0:
			rt.Fatalf("%s: %d objects and %v", what, n, err)
		case took > at+time.Second:
			rt.Fatalf("%s: returns after %v", what, took)
		case at == 0 && s.fake.Count(fakedb.Query) != queries:
			rt.Fatalf("%s: the database is asked though the context has ended", what)
		}
	} else if err != nil || !reflect.DeepEqual(got, want) {
		rt.Fatalf("%s: %v %v, expected %v", what, got, err, want)
	}
	cancel()
	clean("after the end")
	if again, _ := good("after the context of another listing ended"); !reflect.DeepEqual(again, want) {
		rt.Fatalf("%s: later %v, expected %v", what, again, want)
	}
	c.Class(name)
	c.Class(s.kind)
	c.ClassIf(inTx, "in a transaction")
	c.NonTrivial(at > 0 && at < total, what)
}
