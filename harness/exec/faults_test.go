package exec

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"reflect"
	"testing"

	"github.com/effective-security/xdb/internal/verif/fakedb"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/xsql"
	"pgregory.net/rapid"
)

// A database which fails at a chosen event.
func TestC10_Faults(t *testing.T) {
	vh.Run(t, 3000, 40000, "all executing methods, with or without scan targets and handler, over a driver of which queries, rows, statements or closing fail at a chosen point, or the context is cancelled; the statement is executed again afterwards; non-trivial: a fault is hit", func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(0, 6).Draw(rt, "rows")
		var rows [][]driver.Value
		for i := range n {
			rows = append(rows, []driver.Value{int64(i*10 + rapid.IntRange(0, 9).Draw(rt, "v"))})
		}
		arg := int64(rapid.IntRange(0, 99).Draw(rt, "arg"))
		method := rapid.SampledFrom([]string{"Query", "QueryRow", "Exec"}).Draw(rt, "method")
		at := rapid.IntRange(0, n+1).Draw(rt, "at")
		fault := rapid.SampledFrom([]string{"", "start", "next", "close", "cancelled"}).Draw(rt, "fault")
		useTo := method == "QueryRow" || rapid.Bool().Draw(rt, "to")
		useHandler := rapid.IntRange(0, 3).Draw(rt, "handler") > 0
		andClose := rapid.Bool().Draw(rt, "andclose")
		boom := errors.New("boom")
		armed := true

		var sent []any
		db := &fakedb.DB{}
		check := func(q string, args []driver.NamedValue) {
			sent = append(sent, q)
			for _, a := range args {
				sent = append(sent, a.Value)
			}
		}
		db.Handler = func(q string, args []driver.NamedValue) (*fakedb.Result, error) {
			check(q, args)
			return &fakedb.Result{Cols: []string{"x"}, Rows: rows}, nil
		}
		db.Changes = func(q string, args []driver.NamedValue) (int64, error) {
			check(q, args)
			return int64(n), nil
		}
		nexts := 0
		db.Fault = func(e fakedb.Event, _ int) error {
			if e == fakedb.Next {
				nexts++
			}
			if armed && (fault == "start" && (e == fakedb.Query || e == fakedb.Exec) ||
				fault == "next" && e == fakedb.Next && nexts == at+1 ||
				fault == "close" && e == fakedb.CloseRow) {
				return boom
			}
			return nil
		}
		h := db.Open()
		defer h.Close()

		d := rapid.SampledFrom([]xsql.SQLDialect{xsql.NoDialect, xsql.Postgres, xsql.SQLServer}).Draw(rt, "dialect")
		var x int64
		var q xsql.Builder
		if method == "Exec" {
			q = d.Update("t").Set("a", arg)
		} else {
			q = d.From("t").Where("a > ?", arg)
			if useTo {
				q = q.Select("x").To(&x)
			} else {
				q = q.Select("x")
			}
		}
		text := q.String()

		for round := range 2 {
			armed = round == 0
			cx, cancel := context.WithCancel(context.Background())
			if armed && fault == "cancelled" {
				cancel()
			}
			last := round == 1
			sent, nexts, x = nil, 0, -1
			var got []int64
			var handler func(*sql.Rows)
			if useHandler {
				handler = func(r *sql.Rows) {
					v := x
					if !useTo {
						if err := r.Scan(&v); err != nil {
							rt.Fatalf("scan in the handler: %v", err)
						}
					}
					got = append(got, v)
				}
			}
			var err error
			var res sql.Result
			switch {
			case method == "Query" && last && andClose:
				err = q.QueryAndClose(cx, h, handler)
			case method == "Query":
				err = q.Query(cx, h, handler)
			case method == "QueryRow" && last && andClose:
				err = q.QueryRowAndClose(cx, h)
			case method == "QueryRow":
				err = q.QueryRow(cx, h)
			case last && andClose:
				res, err = q.ExecAndClose(cx, h)
			default:
				res, err = q.Exec(cx, h)
			}
			cancel()

			// what is due
			var want error
			seen := n
			if armed {
				switch {
				case fault == "cancelled":
					want, seen = context.Canceled, 0
				case fault == "start":
					want, seen = boom, 0
				case fault == "next" && method == "Query" && at <= n:
					want, seen = boom, at
				case fault == "next" && method == "QueryRow" && at == 0:
					want = boom
				case fault == "close" && method != "Exec":
					want = boom
				}
			}
			if want == nil && method == "QueryRow" && n == 0 {
				want = sql.ErrNoRows
			}
			if !errors.Is(err, want) || (err == nil) != (want == nil) {
				rt.Fatalf("%s round %d: error %v, expected %v", method, round, err, want)
			}
			var wrows []int64
			for _, r := range rows[:min(seen, n)] {
				wrows = append(wrows, r[0].(int64))
			}
			switch method {
			case "Query":
				if useHandler && !reflect.DeepEqual(got, wrows) {
					rt.Fatalf("round %d: rows %v, expected %v", round, got, wrows)
				}
				if len(wrows) > 0 && useTo && x != wrows[len(wrows)-1] {
					rt.Fatalf("round %d: the last row read is %d, expected %v", round, x, wrows)
				}
			case "QueryRow":
				if err == nil && x != wrows[0] {
					rt.Fatalf("round %d: row %d, expected %v", round, x, wrows)
				}
			default:
				if err == nil {
					if a, e := res.RowsAffected(); e != nil || a != int64(n) {
						rt.Fatalf("round %d: %d affected %v, expected %d", round, a, e, n)
					}
				}
			}
			if !(armed && (fault == "start" || fault == "cancelled")) && !reflect.DeepEqual(sent, []any{text, arg}) {
				rt.Fatalf("round %d: sent %v, expected once %q %d", round, sent, text, arg)
			}
			if _, open, _ := db.Leaks(); open != 0 || h.Stats().InUse != 0 {
				rt.Fatalf("round %d: %d result sets and %d connections are left open", round, open, h.Stats().InUse)
			}
			c.NonTrivial(want == boom || want == context.Canceled, fmt.Sprint(method, fault, at, n, useTo, useHandler, andClose))
		}
		if !andClose {
			q.Close()
		}
		c.Class(method + " " + fault)
	})
}
