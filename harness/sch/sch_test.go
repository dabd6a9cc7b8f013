package sch

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"reflect"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/fakedb"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/schema"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

var bg = context.Background()

// server is a catalog behind a database handle.
type server struct {
	*catalog
	fake *fakedb.DB
	conn *sql.DB
	kind string
}

func newServer(rt *rapid.T, dense bool) *server {
	kind := rapid.SampledFrom([]string{"postgres", "sqlserver", "mssql"}).Draw(rt, "kind")
	s := &server{catalog: drawCatalog(rt, kind != "postgres", dense), kind: kind}
	s.load(rt)
	s.fake = &fakedb.DB{Handler: s.answer}
	s.conn = s.fake.Open()
	rt.Cleanup(func() {
		_ = s.conn.Close()
		s.catalog.close()
	})
	return s
}

// fold changes the case of some letters.
func fold(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 3).Draw(t, "case") {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

// drawFilter draws schemas and tables to list; now and then names which do not exist.
func (s *server) drawFilter(t *rapid.T) (schemas, tables []string) {
	var ss, tt []string
	for _, r := range s.rels {
		ss = append(ss, r.schema)
		tt = append(tt, r.name)
	}
	ss = append(ss, "nosuch", "", "%", "' OR ''='")
	tt = append(tt, "nosuch", "", "%", "x' OR '1'='1")
	one := func(pool []string, label string) []string {
		var res []string
		switch rapid.IntRange(0, 3).Draw(t, label) {
		case 0:
			return nil
		case 1:
			return []string{}
		}
		for range rapid.IntRange(1, 3).Draw(t, label+"s") {
			res = append(res, fold(t, rapid.SampledFrom(pool).Draw(t, label)))
		}
		if rapid.IntRange(0, 31).Draw(t, "many") == 7 {
			// most of them do not exist
			for i := range rapid.SampledFrom([]int{7, 20, 70, 300}).Draw(t, "more") {
				at := (i * 7) % (len(res) + 1)
				res = slices.Insert(res, at, fmt.Sprint("nosuch_", i))
			}
		}
		return res
	}
	return one(ss, "schema"), one(tt, "table")
}

// clean checks that nothing is left open.
func (s *server) clean() error {
	if _, rows, _ := s.fake.Leaks(); rows != 0 {
		return fmt.Errorf("left %d result sets open", rows)
	}
	if n := s.conn.Stats().InUse; n != 0 {
		return fmt.Errorf("left %d connections in use", n)
	}
	return nil
}

func (s *server) classes(c *vh.Case) {
	c.Class(s.kind)
	c.ClassIf(s.fallback.Load() > 0, "query answered by the model")
	odd, composite, multi := false, false, false
	for _, r := range s.rels {
		if strings.ContainsAny(r.schema+r.name, `'"\%`) {
			odd = true
		}
		for _, ix := range r.idx {
			composite = composite || len(ix.cols) > 1
		}
	}
	for _, k := range s.fks {
		multi = multi || len(k.cols) > 1
	}
	c.ClassIf(odd, "names with quotes")
	c.ClassIf(composite, "index of several columns")
	c.ClassIf(multi, "foreign key of several columns")
}

// same compares the answer with that of a new provider.
func sameTables(a, b schema.Tables) bool { return reflect.DeepEqual(plain(a), plain(b)) }

// plain is the description without pointers, foreign keys as names.
func plain(tt schema.Tables) []string {
	var res []string
	for _, t := range tt {
		s := fmt.Sprintf("%q %q %q %q %v pk=%q", t.Schema, t.Name, t.SchemaName, t.Type, t.IsView, t.PrimaryKeyName())
		for _, c := range t.Columns {
			s += fmt.Sprintf("\n  %q %q %q %v %d %d %q ix=%q", c.Name, c.Type, c.UdtType, c.Nullable, c.MaxLength, c.Position, c.SchemaName, c.Indexes.Names())
		}
		for _, x := range t.Indexes {
			s += fmt.Sprintf("\n  %+v", *x)
		}
		res = append(res, s)
	}
	return res
}

func TestC27_Listing(t *testing.T) {
	vh.Run(t, 2500, 40000, "a catalog of up to 3 schemas and 15 relations (tables, foreign tables, views, system and shipped relations, names in two cases and with quotes and dots, dropped columns, indexes and foreign keys of several columns with equal names in several tables) behind the real catalog queries, which run in SQLite over emulated system tables; every listing with random filters in random case is compared with the catalog; non-trivial: something is selected and something is not",
		func(rt *rapid.T, c *vh.Case) {
			s := newServer(rt, false)
			p := schema.NewProvider(s.conn, s.kind)
			if p.Name() != s.kind {
				rt.Fatalf("provider of %q is named %q", s.kind, p.Name())
			}
			key := ""
			some, less := false, false
			for range 3 {
				schemas, tables := s.drawFilter(rt)
				argsS, argsT := slices.Clone(schemas), slices.Clone(tables)
				var err error
				switch call := rapid.SampledFrom([]string{"tables", "tables", "views", "keys"}).Draw(rt, "call"); call {
				case "tables":
					var got schema.Tables
					if got, err = p.ListTables(bg, schemas, tables, false); err == nil {
						want := selected(s.tables(), schemas, tables)
						some, less = some || len(want) > 0, less || len(want) < len(s.tables())
						err = s.diffTables(got, want, false)
					}
				case "views":
					var got schema.Tables
					if got, err = p.ListViews(bg, schemas, tables); err == nil {
						want := selected(s.views(), schemas, tables)
						some, less = some || len(want) > 0, less || len(want) < len(s.views())
						err = s.diffTables(got, want, false)
					}
				default:
					var got schema.ForeignKeys
					if got, err = p.ListForeignKeys(bg, schemas, tables); err == nil {
						some, less = some || len(got) > 0, less || len(got) < len(s.fks)
						err = s.diffKeys(got, schemas, tables)
					}
				}
				if err != nil {
					rt.Fatalf("listing with the schemas %q and tables %q: %v\n%v", schemas, tables, err, s)
				}
				if !slices.Equal(schemas, argsS) || !slices.Equal(tables, argsT) {
					rt.Fatalf("listing changed its arguments")
				}
				if err := s.clean(); err != nil {
					rt.Fatalf("listing %v", err)
				}
				key += fmt.Sprintf("%q %q\n", schemas, tables)
			}
			s.classes(c)
			c.NonTrivial(some && less, key+s.String())
		})
}

func TestC28_Dependencies(t *testing.T) {
	vh.Run(t, 2000, 30000, "a history of up to 5 listings of one provider, most with dependencies, over a catalog as for C27 with random foreign keys (cycles, self references, keys of several columns, two keys over one column), with objects and keys that come and go between the calls; each result is the selected tables and the closure of their foreign keys with full descriptions, and equals that of a new provider; non-trivial: the closure has more than the selection",
		func(rt *rapid.T, c *vh.Case) {
			s := newServer(rt, rapid.IntRange(0, 4).Draw(rt, "dense") > 0)
			p := schema.NewProvider(s.conn, s.kind)
			more := false
			key := ""
			n := rapid.IntRange(1, 5).Draw(rt, "calls")
			for range n {
				if rapid.IntRange(0, 3).Draw(rt, "drop") == 0 && len(s.fks) > 0 {
					// the database changes
					i := rapid.IntRange(0, len(s.fks)-1).Draw(rt, "key")
					s.fks = slices.Delete(s.fks, i, i+1)
					_ = s.db.Close()
					s.load(rt)
					c.Class("the database changed")
				}
				schemas, tables := s.drawFilter(rt)
				// once in a while: just one table
				if tt := s.tables(); len(tt) > 0 && rapid.IntRange(0, 3).Draw(rt, "single") > 0 {
					if from := slices.DeleteFunc(slices.Clone(tt), func(r *rel) bool { return len(s.fksOf(r.schema, r.name, "")) == 0 }); len(from) > 0 {
						tt = from
					}
					x := rapid.SampledFrom(tt).Draw(rt, "one")
					schemas, tables = []string{fold(rt, x.schema)}, []string{fold(rt, x.name)}
				}
				key += fmt.Sprintf("%q %q\n", schemas, tables)
				switch rapid.IntRange(0, 5).Draw(rt, "call") {
				case 0:
					got, err := p.ListTables(bg, schemas, tables, false)
					if err == nil {
						err = s.diffTables(got, selected(s.tables(), schemas, tables), false)
					}
					if err != nil {
						rt.Fatalf("listing with the schemas %q and tables %q: %v\n%s%v", schemas, tables, err, key, s)
					}
					continue
				case 1:
					got, err := p.ListForeignKeys(bg, schemas, tables)
					if err == nil {
						err = s.diffKeys(got, schemas, tables)
					}
					if err != nil {
						rt.Fatalf("listing keys with the schemas %q and tables %q: %v\n%s%v", schemas, tables, err, key, s)
					}
					continue
				}
				start := selected(s.tables(), schemas, tables)
				want := s.closure(start)
				got, err := p.ListTables(bg, schemas, tables, true)
				if err == nil {
					err = s.diffTables(got, want, true)
				}
				if err != nil {
					rt.Fatalf("listing with dependencies, schemas %q and tables %q: %v\n%s%v", schemas, tables, err, key, s)
				}
				again, err := schema.NewProvider(s.conn, s.kind).ListTables(bg, schemas, tables, true)
				if err != nil || !sameTables(got, again) {
					rt.Fatalf("a new provider lists\n%s\n%v\nand the used one\n%s", strings.Join(plain(again), "\n"), err, strings.Join(plain(got), "\n"))
				}
				if err := s.clean(); err != nil {
					rt.Fatalf("listing %v", err)
				}
				more = more || len(want) > len(start)
				c.ClassIf(len(want) > len(start)+1, "closure of several tables")
				for _, k := range s.fks {
					c.ClassIf(k.schema == k.refSchema && k.table == k.refTable, "self reference")
				}
			}
			s.classes(c)
			c.ClassIf(n > 1, "several calls")
			c.NonTrivial(more, key+s.String())
		})
}

// Several goroutines list through one provider.
func TestC08_Listings(t *testing.T) {
	vh.Run(t, 100, 3000, "2 to 4 goroutines which make 1 to 3 listings each through one provider at the same time, over a catalog as for C27; each gets what it gets alone, without a data race; non-trivial: two goroutines list with dependencies",
		func(rt *rapid.T, c *vh.Case) {
			s := newServer(rt, rapid.IntRange(0, 4).Draw(rt, "dense") > 0)
			p := schema.NewProvider(s.conn, s.kind)
			type call struct {
				schemas, tables []string
				kind            string
				tabs            schema.Tables
				keys            schema.ForeignKeys
				err             error
			}
			var plans [][]*call
			key, deps := "", 0
			for range rapid.IntRange(2, 4).Draw(rt, "goroutines") {
				var plan []*call
				for range rapid.IntRange(1, 3).Draw(rt, "calls") {
					x := &call{kind: rapid.SampledFrom([]string{"dependencies", "dependencies", "tables", "views", "keys"}).Draw(rt, "call")}
					x.schemas, x.tables = s.drawFilter(rt)
					plan = append(plan, x)
					key += fmt.Sprintf("%s %q %q\n", x.kind, x.schemas, x.tables)
				}
				if plan[0].kind == "dependencies" {
					deps++
				}
				plans = append(plans, plan)
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for _, plan := range plans {
				wg.Go(func() {
					<-start
					for _, x := range plan {
						switch x.kind {
						case "views":
							x.tabs, x.err = p.ListViews(bg, x.schemas, x.tables)
						case "keys":
							x.keys, x.err = p.ListForeignKeys(bg, x.schemas, x.tables)
						default:
							x.tabs, x.err = p.ListTables(bg, x.schemas, x.tables, x.kind == "dependencies")
						}
					}
				})
			}
			close(start)
			wg.Wait()
			for _, plan := range plans {
				for _, x := range plan {
					err := x.err
					if err == nil {
						switch x.kind {
						case "views":
							err = s.diffTables(x.tabs, selected(s.views(), x.schemas, x.tables), false)
						case "keys":
							err = s.diffKeys(x.keys, x.schemas, x.tables)
						case "tables":
							err = s.diffTables(x.tabs, selected(s.tables(), x.schemas, x.tables), false)
						default:
							err = s.diffTables(x.tabs, s.closure(selected(s.tables(), x.schemas, x.tables)), true)
						}
					}
					if err != nil {
						rt.Fatalf("%s with the schemas %q and tables %q, at the same time as others: %v\n%s%v", x.kind, x.schemas, x.tables, err, key, s)
					}
				}
			}
			if err := s.clean(); err != nil {
				rt.Fatalf("listing %v", err)
			}
			c.NonTrivial(deps > 1, key+s.String())
		})
}

var errFault = errors.New("fault of the check")

func TestC29_Faults(t *testing.T) {
	vh.Run(t, 2000, 30000, "a listing over a catalog as for C27, with a fault at a random one of its events: a query, a row, the end of the rows, a connection, or a cell which can not be scanned; the error is returned, nothing is returned with it and no result set or connection stays in use; without it the listing is right; also with one connection and in a transaction; non-trivial: the fault happened",
		func(rt *rapid.T, c *vh.Case) {
			s := newServer(rt, rapid.Bool().Draw(rt, "dense"))
			single := rapid.Bool().Draw(rt, "single connection")
			if single {
				s.conn.SetMaxOpenConns(1)
				c.Class("a single connection")
			}
			schemas, tables := s.drawFilter(rt)
			call := rapid.SampledFrom([]string{"tables", "dependencies", "dependencies", "views", "keys"}).Draw(rt, "call")
			var db xdb.DB = s.conn
			inTx := rapid.IntRange(0, 3).Draw(rt, "tx") == 0
			var tx *sql.Tx
			if inTx {
				var err error
				if tx, err = s.conn.Begin(); err != nil {
					vh.Harness(rt, "%v", err)
				}
				db = tx
				c.Class("in a transaction")
			}
			p := schema.NewProvider(db, s.kind)
			list := func() (ret any, n int, err error) {
				// a hang is a violation
				ctx, cancel := context.WithTimeout(bg, 10*time.Second)
				defer cancel()
				defer func() {
					if ctx.Err() != nil {
						rt.Fatalf("%s with the schemas %q and tables %q does not end\n%v", call, schemas, tables, s)
					}
				}()
				switch call {
				case "views":
					r, err := p.ListViews(ctx, schemas, tables)
					return r, len(r), err
				case "keys":
					r, err := p.ListForeignKeys(ctx, schemas, tables)
					return r, len(r), err
				}
				r, err := p.ListTables(ctx, schemas, tables, call == "dependencies")
				return r, len(r), err
			}
			good := func(when string) {
				r, _, err := list()
				if err == nil {
					switch call {
					case "views":
						err = s.diffTables(r.(schema.Tables), selected(s.views(), schemas, tables), false)
					case "keys":
						err = s.diffKeys(r.(schema.ForeignKeys), schemas, tables)
					default:
						want := selected(s.tables(), schemas, tables)
						if call == "dependencies" {
							want = s.closure(want)
						}
						err = s.diffTables(r.(schema.Tables), want, call == "dependencies")
					}
				}
				if err != nil {
					rt.Fatalf("%s with the schemas %q and tables %q %s: %v\n%v", call, schemas, tables, when, err, s)
				}
				if _, rows, _ := s.fake.Leaks(); rows != 0 {
					rt.Fatalf("%s %s left %d result sets open", call, when, rows)
				}
			}
			good("without a fault")
			// where it may fail: events of the listing
			queries, nexts := s.fake.Count(fakedb.Query), s.fake.Count(fakedb.Next)
			kind := rapid.SampledFrom([]string{"query", "next", "next", "cell", "bad connection"}).Draw(rt, "kind")
			happened := false
			want := errFault
			switch kind {
			case "query", "bad connection":
				n := queries + rapid.IntRange(0, queries-1).Draw(rt, "at")
				s.fake.Fault = func(e fakedb.Event, i int) error {
					if e == fakedb.Query && i == n {
						happened = true
						return errFault
					}
					return nil
				}
			case "next":
				if nexts == 0 {
					return
				}
				n := nexts + rapid.IntRange(0, nexts-1).Draw(rt, "at")
				s.fake.Fault = func(e fakedb.Event, i int) error {
					if e == fakedb.Next && i == n {
						happened = true
						return errFault
					}
					return nil
				}
			case "cell":
				// a value no field can take, in a random query
				n := rapid.IntRange(0, queries-1).Draw(rt, "at")
				at := rapid.IntRange(0, 7).Draw(rt, "cell")
				row := rapid.IntRange(0, 5).Draw(rt, "row")
				q := 0
				want = nil
				s.fake.Handler = func(query string, args []driverArg) (*fakedb.Result, error) {
					res, err := s.answer(query, args)
					if err == nil && q == n && len(res.Rows) > 0 {
						r := res.Rows[row%len(res.Rows)]
						r[at%len(r)] = struct{}{} // nothing reads this
						happened = true
					}
					q++
					return res, err
				}
			}
			ret, n, err := list()
			s.fake.Fault = nil
			s.fake.Handler = s.answer
			if happened {
				if err == nil {
					rt.Fatalf("%s with the schemas %q and tables %q, with a fault (%s): no error, %d results\n%v", call, schemas, tables, kind, n, s)
				}
				if want != nil && !errors.Is(err, want) {
					rt.Fatalf("%s with a fault (%s) returns %v, which is not the error of the database", call, kind, err)
				}
			}
			if err != nil {
				if !happened {
					rt.Fatalf("%s without a fault: %v", call, err)
				}
				if n != 0 {
					rt.Fatalf("%s returns %v and %d results: %v", call, err, n, ret)
				}
				c.Class("fault: " + kind)
			}
			if _, rows, _ := s.fake.Leaks(); rows != 0 {
				rt.Fatalf("%s with a fault (%s, %v) left %d result sets open\n%v", call, kind, err, rows, s)
			}
			good("after a fault")
			if tx != nil {
				if err := tx.Rollback(); err != nil {
					rt.Fatalf("rollback after %s: %v", call, err)
				}
			}
			if err := s.clean(); err != nil {
				rt.Fatalf("%s %v", call, err)
			}
			s.classes(c)
			c.NonTrivial(happened && err != nil, fmt.Sprintf("%s %s %v %q %q\n%v", call, kind, err, schemas, tables, s))
		})
}

func TestC29_Names(t *testing.T) {
	vh.Run(t, 2000, 30000, "a table of a random name in a schema of a random name (any characters, quotes, percent signs, comment marks, arguments) next to another with a like name; listed alone and with dependencies it is described as it is, and the text of each query is one the listing of a plain table uses too; non-trivial: the name has characters other than letters",
		func(rt *rapid.T, c *vh.Case) {
			kind := rapid.SampledFrom([]string{"postgres", "sqlserver"}).Draw(rt, "kind")
			ms := kind != "postgres"
			alphabet := `a'"%;-$1@[]()\ .` + "é\n/*"
			draw := func(label string) string {
				if rapid.IntRange(0, 4).Draw(rt, label+" plain") == 0 {
					return rapid.SampledFrom(relNames).Draw(rt, label)
				}
				return rapid.StringOfN(rapid.RuneFrom([]rune(alphabet)), 1, 8, 60).Draw(rt, label)
			}
			sn, tn := draw("schema"), draw("table")
			plain := &rel{schema: "s", name: "t", kind: "table", oid: 10, cols: []col{{name: "id", typ: "bigint", udt: "bigint", pos: 1}}}
			odd := &rel{schema: sn, name: tn, kind: "table", oid: 20, cols: []col{{name: "a", typ: "text", udt: "text", pos: 1}, {name: "b", typ: "bigint", udt: "bigint", nullable: true, pos: 2}},
				idx: []index{{name: "k", primary: true, unique: true, cols: []string{"a"}}, {name: "k2", cols: []string{"b", "a"}}}}
			from := &rel{schema: "s", name: "from", kind: "table", oid: 30, cols: []col{{name: "x", typ: "text", udt: "text", pos: 1}}}
			cat := &catalog{ms: ms, rels: []*rel{plain, odd, from}}
			if strings.EqualFold(sn, "s") && (strings.EqualFold(tn, "t") || strings.EqualFold(tn, "from")) {
				return
			}
			cat.fks = []*fkey{{name: "fk", schema: "s", table: "from", cols: []string{"x"}, refSchema: sn, refTable: tn, refCols: []string{"a"}, uniqueName: "k", oid: 40, tabOID: 30, reOID: 20}}
			cat.load(rt)
			defer cat.close()
			s := &server{catalog: cat, kind: kind, fake: &fakedb.DB{Handler: cat.answer}}
			s.conn = s.fake.Open()
			defer s.conn.Close()
			run := func(schemas, tables []string, deps bool) schema.Tables {
				got, err := schema.NewProvider(s.conn, kind).ListTables(bg, schemas, tables, deps)
				if err == nil {
					want := selected(cat.tables(), schemas, tables)
					if deps {
						want = cat.closure(want)
					}
					err = cat.diffTables(got, want, deps)
				}
				if err != nil {
					rt.Fatalf("listing %q %q with dependencies %v: %v", schemas, tables, deps, err)
				}
				return got
			}
			run([]string{"s"}, []string{"t"}, true)
			before := slices.Clone(s.fake.Queries())
			run([]string{sn}, []string{tn}, false)
			run([]string{"s"}, []string{"from"}, true)
			for _, q := range s.fake.Queries() {
				if !slices.Contains(before, q) {
					rt.Fatalf("the table %q.%q changes the text of a query:\n%s", sn, tn, q)
				}
			}
			if err := s.clean(); err != nil {
				rt.Fatalf("listing %v", err)
			}
			c.Class(kind)
			c.ClassIf(cat.fallback.Load() > 0, "query answered by the model")
			c.ClassIf(strings.ContainsAny(sn+tn, "'"), "quote")
			c.NonTrivial(strings.ContainsAny(sn+tn, alphabet[1:]), fmt.Sprintf("%s %q.%q", kind, sn, tn))
		})
}

func TestC29_Unknown(t *testing.T) {
	vh.Run(t, 60, 400, "the listings of a provider for a random unknown kind of database; an error, no crash; non-trivial: always",
		func(rt *rapid.T, c *vh.Case) {
			kind := rapid.SampledFrom([]string{"", "mysql", "sqlite3", "Postgres", "postgres ", "SQLSERVER", "pg", "fake"}).Draw(rt, "kind")
			fake := &fakedb.DB{}
			conn := fake.Open()
			defer conn.Close()
			p := schema.NewProvider(conn, kind)
			if p == nil || p.Name() != kind {
				rt.Fatalf("provider for %q: %v", kind, p)
			}
			call := rapid.SampledFrom([]string{"tables", "dependencies", "views", "keys"}).Draw(rt, "call")
			var err error
			n := 0
			switch call {
			case "views":
				var r schema.Tables
				r, err = p.ListViews(bg, nil, nil)
				n = len(r)
			case "keys":
				var r schema.ForeignKeys
				r, err = p.ListForeignKeys(bg, nil, nil)
				n = len(r)
			default:
				var r schema.Tables
				r, err = p.ListTables(bg, nil, nil, call == "dependencies")
				n = len(r)
			}
			if err == nil || n != 0 {
				rt.Fatalf("%s of the kind %q: %d results and no error", call, kind, n)
			}
			c.NonTrivial(true, call+" "+kind)
		})
}
