package race

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/fakedb"
	"github.com/effective-security/xdb/internal/verif/sqlgen"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/pkg/flake"
	"github.com/effective-security/xdb/pkg/print"
	"github.com/effective-security/xdb/schema"
	"github.com/effective-security/xdb/xsql"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// together runs f in n goroutines which start at the same moment, and fails
// with the first error, panic or data race.
func together(rt *rapid.T, n int, f func(w int) error) {
	before := raceErrors()
	errs := make([]error, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[w] = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
				}
			}()
			<-start
			errs[w] = f(w)
		}()
	}
	close(start)
	wg.Wait()
	for w, err := range errs {
		if err != nil {
			rt.Fatalf("goroutine %d of %d: %v", w, n, err)
		}
	}
	if d := raceErrors() - before; d > 0 {
		rt.Fatalf("%d data races", d)
	}
}

func sameArgs(a, b []any) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

func TestC08_Statements(t *testing.T) {
	if !raceOn {
		vh.Harness(t, "the race detector is off")
	}
	vh.Run(t, 800, 20000, "2 to 8 goroutines build, read, clone and close programs of builder calls (drawn beforehand, some of them shared by goroutines, small alphabet or unique text), in rounds, yielding between calls; every statement renders as the reference model says; non-trivial: at least 3 goroutines and two dialects or shared programs",
		func(rt *rapid.T, c *vh.Case) {
			type work struct {
				p    *sqlgen.Prog
				sql  string
				args []any
				nl   bool
			}
			g := &sqlgen.Gen{T: rt, Tiny: rapid.Bool().Draw(rt, "tiny")}
			var all []work
			dialects := map[string]bool{}
			for range rapid.IntRange(2, 8).Draw(rt, "programs") {
				p := g.Prog(1)
				m := p.Model()
				all = append(all, work{p: p, sql: sqlgen.Norm(m.Render(p.Dialect)), args: m.Args()})
				dialects[p.Dialect.Provider()] = true
			}
			workers := rapid.IntRange(2, 8).Draw(rt, "goroutines")
			plan := make([][]int, workers)
			yield := make([]int, workers)
			used := map[int]int{}
			shared := false
			for w := range plan {
				plan[w] = rapid.SliceOfN(rapid.IntRange(0, len(all)-1), 1, 6).Draw(rt, "plan")
				yield[w] = rapid.IntRange(0, 3).Draw(rt, "yield")
				for _, i := range plan[w] {
					if v, ok := used[i]; ok && v != w {
						shared = true
					}
					used[i] = w
				}
			}
			together(rt, workers, func(w int) error {
				for k, i := range plan[w] {
					x := all[i]
					check := func(b xsql.Builder, what string) error {
						if got := sqlgen.Norm(b.String()); got != x.sql {
							return fmt.Errorf("%s: wrong statement\nprogram: %s\ngot:  %s\nwant: %s", what, x.p, got, x.sql)
						}
						if !sameArgs(b.Args(), x.args) {
							return fmt.Errorf("%s: wrong arguments\nprogram: %s\ngot:  %v\nwant: %v", what, x.p, b.Args(), x.args)
						}
						return nil
					}
					var b xsql.Builder
					for s := range x.p.Ops {
						b = x.p.Step(b, s)
						if yield[w] > 1 {
							runtime.Gosched()
						}
					}
					var cl xsql.Builder
					if k%2 == 1 {
						cl = b.Clone()
					}
					if err := check(b, "statement"); err != nil {
						return err
					}
					if yield[w] > 0 {
						runtime.Gosched()
					}
					if err := check(b, "again"); err != nil {
						return err
					}
					b.Close()
					if cl != nil {
						if err := check(cl, "clone"); err != nil {
							return err
						}
						cl.Close()
					}
				}
				return nil
			})
			c.ClassIf(shared, "shared programs")
			c.NonTrivial(workers > 2 && (shared || len(dialects) > 1), fmt.Sprint(workers, plan, all))
			c.Sample("%d goroutines, plan %v, %s ...", workers, plan, all[0].p)
		})
}

func TestC08_Names(t *testing.T) {
	vh.Run(t, 800, 20000, "2 to 8 goroutines look up, get-or-create and put named queries, some names shared (with one text per name and dialect), some their own; non-trivial: a shared name",
		func(rt *rapid.T, c *vh.Case) {
			run := seq()
			ds := []xsql.SQLDialect{xsql.NoDialect, xsql.Postgres, xsql.SQLServer}
			workers := rapid.IntRange(2, 8).Draw(rt, "goroutines")
			type op struct{ name, dialect, how int }
			opGen := rapid.Custom(func(t *rapid.T) op {
				return op{rapid.IntRange(0, 5).Draw(t, "name"), rapid.IntRange(0, 2).Draw(t, "dialect"), rapid.IntRange(0, 4).Draw(t, "how")}
			})
			plan := make([][]op, workers)
			used := map[op]int{}
			shared := false
			for w := range plan {
				plan[w] = rapid.SliceOfN(opGen, 1, 12).Draw(rt, "ops")
				for _, o := range plan[w] {
					o.how = 0
					if v, ok := used[o]; ok && v != w {
						shared = true
					}
					used[o] = w
				}
			}
			together(rt, workers, func(w int) error {
				for _, o := range plan[w] {
					d := ds[o.dialect]
					name := fmt.Sprintf("q%d-%d", run, o.name)
					col := fmt.Sprintf("c%d_%d_%d", run, o.name, o.dialect)
					want := "SELECT " + col + " FROM t"
					switch o.how {
					case 0:
						if q, ok := d.GetCachedQuery(name); ok && sqlgen.Norm(q) != want {
							return fmt.Errorf("%s of %s: %q", name, d.Provider(), q)
						}
					case 1, 2:
						q, n := d.GetOrCreateQuery(name, func(n string) xsql.Builder {
							runtime.Gosched()
							return d.From("t").Select(col)
						})
						if sqlgen.Norm(q) != want || n != name {
							return fmt.Errorf("%s of %s: %q, %s", name, d.Provider(), q, n)
						}
						if q, ok := d.GetCachedQuery(name); !ok || sqlgen.Norm(q) != want {
							return fmt.Errorf("%s of %s after create: %v %q", name, d.Provider(), ok, q)
						}
					case 3:
						b := d.From("t").Select(col).SetName(name)
						if q := b.String(); sqlgen.Norm(q) != want {
							return fmt.Errorf("%s of %s: %q", name, d.Provider(), q)
						}
						b.Close()
					case 4:
						d.PutCachedQuery(name, want)
					}
				}
				return nil
			})
			c.NonTrivial(shared, fmt.Sprint(plan))
		})
}

var (
	seqMu sync.Mutex
	seqN  int
)

func seq() int {
	seqMu.Lock()
	defer seqMu.Unlock()
	seqN++
	return seqN
}

func TestC08_IDs(t *testing.T) {
	vh.Run(t, 800, 20000, "2 to 8 goroutines read the same ids and id lists (made in every way, copied or not) in a random order of reads: text, JSON, SQL, numbers, lists, set tests; each read gives what it gives alone; non-trivial: at least 3 goroutines",
		func(rt *rapid.T, c *vh.Case) {
			var list xdb.IDArray
			var nums []uint64
			for range rapid.IntRange(1, 6).Draw(rt, "ids") {
				n := rapid.Uint64Range(1, 1<<63-1).Draw(rt, "id")
				var id xdb.ID
				switch rapid.IntRange(0, 4).Draw(rt, "made") {
				case 0:
					id = xdb.NewID(n)
				case 1:
					id = xdb.MustID(xdb.IDString(n))
				case 2:
					_ = json.Unmarshal([]byte(xdb.IDString(n)), &id)
				case 3:
					_ = id.Scan(int64(n))
				case 4:
					id = xdb.NewID(n)
					_ = id.String()
				}
				list = append(list, id)
				nums = append(nums, n)
			}
			workers := rapid.IntRange(2, 8).Draw(rt, "goroutines")
			plan := make([][]int, workers)
			for w := range plan {
				plan[w] = rapid.SliceOfN(rapid.IntRange(0, 10), 1, 8).Draw(rt, "reads")
			}
			together(rt, workers, func(w int) error {
				for k, how := range plan[w] {
					i := (k + w) % len(list)
					id, n := list[i], nums[i]
					s := xdb.IDString(n)
					ok := true
					switch how {
					case 0, 1:
						ok = id.String() == s
					case 2:
						ok = id.UnderscoreString() == "_"+s
					case 3:
						ok = id.QuotedString() == `"`+s+`"`
					case 4:
						js, err := json.Marshal(id)
						ok = err == nil && string(js) == s
					case 5:
						v, err := id.Value()
						ok = err == nil && v == int64(n)
					case 6:
						ok = slices.Equal(list.List(), nums)
					case 7:
						ok = strings.Count(list.String(), ",") == len(list)-1 && list.Strings()[i] == s
					case 8:
						ok = list.Contains(xdb.NewID(n)) && list.Overlaps(xdb.IDArray{id})
					case 9:
						l := list.Add(xdb.NewID(uint64(w+1)<<63 | uint64(k)))
						ok = len(l) >= len(list) && l[i].UInt64() == n
					case 10:
						ok = id.Valid() && !id.IsZero() && !id.Invalid() && id.UInt64() == n && fmt.Sprint(id) == s
					}
					if !ok {
						return fmt.Errorf("read %d of id %d: wrong", how, n)
					}
				}
				return nil
			})
			c.NonTrivial(workers > 2, fmt.Sprint(nums, plan))
		})
}

func TestC08_Tables(t *testing.T) {
	vh.Run(t, 500, 10000, "2 to 8 goroutines ask one table description for its column lists and start statements from it; each answer is what it is alone; also printing and tags of shared schema objects; non-trivial: at least 3 goroutines",
		func(rt *rapid.T, c *vh.Case) {
			cols := rapid.SliceOfNDistinct(rapid.StringMatching(`[a-z]{1,6}`), 1, 8, rapid.ID[string]).Draw(rt, "cols")
			ti := &schema.TableInfo{Schema: "s", Name: "tab", SchemaName: "s.tab", PrimaryKey: cols[0], Columns: cols,
				Dialect: rapid.SampledFrom(sqlgen.Dialects).Draw(rt, "dialect")}
			tab := &schema.Table{Schema: "s", Name: "tab", SchemaName: "s.tab", Type: "BASE TABLE"}
			for i, n := range cols {
				tab.Columns = append(tab.Columns, &schema.Column{Name: n, Type: "int", Position: uint32(i), Nullable: i > 0})
			}
			idx := &schema.Index{Name: "pk", IsPrimary: true, ColumnNames: cols[:1], SchemaName: "s.tab.pk"}
			tab.Indexes = schema.Indexes{idx}
			tab.Columns[0].Indexes = schema.Indexes{idx}
			tab.PrimaryKey = tab.Columns[0]
			fk := &schema.ForeignKey{Name: "fk", Schema: "s", Table: "tab", Column: cols[0], RefSchema: "s", RefTable: "o", RefColumn: "id"}
			tab.Columns[len(cols)-1].Ref = fk

			joined := strings.Join(cols, ", ")
			workers := rapid.IntRange(2, 8).Draw(rt, "goroutines")
			plan := make([][]int, workers)
			for w := range plan {
				plan[w] = rapid.SliceOfN(rapid.IntRange(0, 8), 1, 8).Draw(rt, "reads")
			}
			var alone bytes.Buffer
			print.SchemaTable(&alone, tab)
			together(rt, workers, func(w int) error {
				for _, how := range plan[w] {
					got, want := "", ""
					text := func(b xsql.Builder) string { s := strings.Clone(b.String()); b.Close(); return sqlgen.Norm(s) }
					switch how {
					case 0, 1:
						got, want = ti.AllColumns(), joined
					case 2:
						got, want = text(ti.Select()), "SELECT "+joined+" FROM s.tab"
					case 3:
						got, want = ti.AliasedColumns("a", nil), "a."+strings.Join(cols, ", a.")
					case 4:
						got, want = text(ti.SelectAliased("", nil)), "SELECT "+joined+" FROM s.tab"
					case 5:
						got, want = text(ti.DeleteFrom().Where("x = 1")), "DELETE FROM s.tab WHERE x = 1"
					case 6:
						var b bytes.Buffer
						print.SchemaTable(&b, tab)
						got, want = b.String(), alone.String()
					case 7:
						got, want = fmt.Sprint(tab.PrimaryKeyName(), tab.Columns.Names(), tab.Indexes.Names(), tab.Columns[0].IsPrimary()), fmt.Sprint(cols[0], cols, []string{"pk"}, true)
					case 8:
						got, want = fmt.Sprint(strings.Contains(tab.Columns[len(cols)-1].Tag(), "fk:s.o.id"), fk.ColumnSchemaName()), fmt.Sprint(true, "s.tab."+cols[0])
					}
					if got != want {
						return fmt.Errorf("read %d: %q, expected %q", how, got, want)
					}
				}
				return nil
			})
			c.NonTrivial(workers > 2, fmt.Sprint(cols, plan))
		})
}

type row struct{ ID, N int64 }

func (r *row) ScanRow(rows xdb.Row) error { return rows.Scan(&r.ID, &r.N) }

func TestC08_Provider(t *testing.T) {
	vh.Run(t, 400, 10000, "2 to 8 goroutines use one provider: ids, writes, reads, transactions, lists, pages with their own parameters, while it pings; ids are distinct, every list is complete, every own key reads back; then it is closed; non-trivial: at least 3 goroutines and a transaction",
		func(rt *rapid.T, c *vh.Case) {
			workers := rapid.IntRange(2, 8).Draw(rt, "goroutines")
			plan := make([][]int, workers)
			tx := false
			for w := range plan {
				plan[w] = rapid.SliceOfN(rapid.IntRange(0, 8), 1, 10).Draw(rt, "ops")
				tx = tx || slices.Contains(plan[w], 2)
			}
			f := &fakedb.DB{}
			list := &fakedb.DB{Handler: func(q string, args []driver.NamedValue) (*fakedb.Result, error) {
				res := &fakedb.Result{Cols: []string{"id", "n"}, Types: []string{"INTEGER", "INTEGER"}}
				for i := range 5 {
					n := int64(-1)
					if len(args) > 0 {
						n, _ = args[0].Value.(int64)
					}
					res.Rows = append(res.Rows, []driver.Value{int64(i), n})
				}
				return res, nil
			}}
			gen := flake.NewIDGenerator(flake.Settings{StartTime: time.Now().Add(-time.Hour), MachineID: func() (uint16, error) { return 1, nil }})
			p, err := xdb.New("postgres", f.Open(), gen)
			if err != nil {
				vh.Harness(rt, "%v", err)
			}
			lp, err := xdb.New("postgres", list.Open(), gen)
			if err != nil {
				vh.Harness(rt, "%v", err)
			}
			defer lp.Close()
			defer p.Close()
			ids := make([][]uint64, workers)
			ctx := context.Background()
			together(rt, workers, func(w int) error {
				for k, op := range plan[w] {
					key := fmt.Sprintf("k%d", w)
					switch op {
					case 0:
						id := p.NextID()
						ids[w] = append(ids[w], id.UInt64())
						if d := time.Since(p.IDTime(id.UInt64())); d < -time.Second || d > time.Minute {
							return fmt.Errorf("id time %s ago", d)
						}
						if l := flake.LastID(gen); l < id.UInt64() || flake.FirstID(gen) >= id.UInt64() {
							return fmt.Errorf("the last id is %d after %s", l, id)
						}
					case 1:
						if _, err := p.ExecContext(ctx, "put", key, int64(k)); err != nil {
							return fmt.Errorf("put: %w", err)
						}
						var v int64
						if err := p.QueryRowContext(ctx, "get", key).Scan(&v); err != nil || v != int64(k) {
							return fmt.Errorf("get: %d, %v", v, err)
						}
					case 2:
						t, err := p.BeginTx(ctx, nil)
						if err != nil {
							return fmt.Errorf("begin: %w", err)
						}
						if _, err := t.ExecContext(ctx, "put", key+"t", int64(k)); err != nil {
							return fmt.Errorf("put: %w", err)
						}
						ids[w] = append(ids[w], t.NextID().UInt64())
						if err := t.Commit(); err != nil {
							return fmt.Errorf("commit: %w", err)
						}
						var v int64
						if err := p.QueryRowContext(ctx, "get", key+"t").Scan(&v); err != nil || v != int64(k) {
							return fmt.Errorf("get after commit: %d, %v", v, err)
						}
					case 3, 4:
						rows, err := xdb.ExecuteListQuery[row](ctx, lp, "list", int64(w))
						if err != nil || len(rows) != 5 || rows[4].N != int64(w) || rows[4].ID != 4 {
							return fmt.Errorf("list: %d rows, %v", len(rows), err)
						}
					case 5:
						qp := xdb.NewQueryParams("q")
						qp.Set(0, int64(w))
						name := qp.Name()
						rows, err := xdb.ExecuteListQuery[row](ctx, lp, "list", qp.Args()...)
						if err != nil || len(rows) != 5 || rows[0].N != int64(w) || name == "" {
							return fmt.Errorf("list with parameters: %d rows, %v", len(rows), err)
						}
					case 6:
						cur := xdb.EncodeCursor(map[string]any{"id": w, "k": k})
						m, err := xdb.DecodeCursor(cur)
						if err != nil || m.Int("id") != w {
							return fmt.Errorf("cursor: %v, %v", m, err)
						}
					case 7:
						if p.Name() != "postgres" || p.ConnectionString() != "" || p.DB() == nil {
							return errors.New("provider attributes")
						}
					case 8:
						type s struct {
							A xdb.ID
							T xdb.Time
							N string
						}
						d, src := s{A: xdb.NewID(1), N: "x"}, s{A: xdb.NewID(uint64(w + 2)), T: xdb.Now()}
						if err := xdb.Merge(&d, src); err != nil || d.A.UInt64() != uint64(w+2) || d.N != "x" || d.T.IsZero() {
							return fmt.Errorf("merge: %+v, %v", d, err)
						}
					}
				}
				return nil
			})
			seen := map[uint64]bool{}
			for _, l := range ids {
				for _, id := range l {
					if seen[id] {
						rt.Fatalf("id %d is returned twice", id)
					}
					seen[id] = true
				}
			}
			c.NonTrivial(workers > 2 && tx, fmt.Sprint(plan))
		})
}

func TestC08_KeepAlive(t *testing.T) {
	vh.Run(t, 300, 5000, "in virtual time: a provider pings while goroutines query it for minutes, with slow pings, and is closed; non-trivial: a ping happened",
		func(rt *rapid.T, c *vh.Case) {
			before := raceErrors()
			rapid.SyncTest(rt, func(rt *rapid.T) {
				slow := time.Duration(rapid.IntRange(0, 3).Draw(rt, "slow")) * 20 * time.Second
				f := &fakedb.DB{Delay: func(e fakedb.Event, n int) time.Duration {
					if e == fakedb.Ping {
						return slow
					}
					return 0
				}}
				var db *sql.DB = f.Open()
				gen := flake.NewIDGenerator(flake.Settings{StartTime: time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC), MachineID: func() (uint16, error) { return 1, nil }})
				p, err := xdb.New("postgres", db, gen)
				if err != nil {
					vh.Harness(rt, "%v", err)
				}
				defer db.Close()
				defer p.Close()
				workers := rapid.IntRange(1, 4).Draw(rt, "goroutines")
				steps := rapid.IntRange(1, 6).Draw(rt, "steps")
				step := time.Duration(rapid.IntRange(1, 90).Draw(rt, "step")) * time.Second
				together(rt, workers, func(w int) error {
					for range steps {
						time.Sleep(step)
						_ = p.NextID()
						if _, err := p.ExecContext(context.Background(), "put", "a", int64(w)); err != nil {
							return err
						}
					}
					return nil
				})
				if err := p.Close(); err != nil {
					rt.Fatalf("close: %v", err)
				}
				time.Sleep(3 * time.Minute)
				c.NonTrivial(f.Count(fakedb.Ping) > 0, fmt.Sprint(slow, workers, steps, step))
			})
			if d := raceErrors() - before; d > 0 {
				rt.Fatalf("%d data races", d)
			}
		})
}
