package exec

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/xsql"
	_ "github.com/mattn/go-sqlite3"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

var ctx = context.Background()

// row of table t; nil is NULL
type row struct {
	id int64
	a  *int64
	b  *string
	c  float64
}

type urow struct {
	tid int64
	v   string
}

func (r row) col(name string) any {
	switch name {
	case "id":
		return r.id
	case "a":
		if r.a == nil {
			return nil
		}
		return *r.a
	case "b":
		if r.b == nil {
			return nil
		}
		return *r.b
	}
	return r.c
}

// tri is three-valued logic: 1 true, 0 false, -1 unknown
type tri int

func b2t(b bool) tri {
	if b {
		return 1
	}
	return 0
}

func or(x, y tri) tri {
	if x == 1 || y == 1 {
		return 1
	}
	if x == -1 || y == -1 {
		return -1
	}
	return 0
}

func not(x tri) tri {
	if x == -1 {
		return -1
	}
	return 1 - x
}

// cond is a condition: a call on the builder, and its meaning.
type cond struct {
	text string
	args []any
	in   []any // non-nil: followed by an In call
	sub  func(d xsql.SQLDialect) (prefix, suffix string, q xsql.Builder)
	eval func(r row) tri
}

func (c cond) String() string {
	if c.sub != nil {
		return c.text
	}
	return fmt.Sprintf("%s %v%v", c.text, c.args, c.in)
}

type env struct {
	rt   *rapid.T
	db   *sql.DB
	rows []row
	us   []urow
	d    xsql.SQLDialect
	log  []string
}

var strs = []string{"", "x", "y", "it's", "q?", "é世界", "NULL", "a\nb"}

func (e *env) n(l string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(e.rt, l) }

func (e *env) drawRow(id int64) row {
	r := row{id: id, c: float64(e.n("c", -8, 8)) / 4}
	if e.n("anull", 0, 3) > 0 {
		v := int64(e.n("a", -3, 3))
		r.a = &v
	}
	if e.n("bnull", 0, 3) > 0 {
		v := rapid.SampledFrom(strs).Draw(e.rt, "b")
		r.b = &v
	}
	return r
}

func (e *env) must(err error) {
	if err != nil {
		e.rt.Fatalf("%v\n%s", err, strings.Join(e.log, "\n"))
	}
}

// idle fails if a result set was left behind.
func (e *env) idle() {
	if n := e.db.Stats().InUse; n != 0 {
		// the next case gets another one
		theDB = nil
		e.rt.Fatalf("%d connections are still in use\n%s", n, strings.Join(e.log, "\n"))
	}
}

var theDB *sql.DB

func newEnv(rt *rapid.T) *env {
	if theDB == nil {
		db, err := sql.Open("sqlite3", ":memory:")
		if err != nil {
			vh.Harness(rt, "sqlite: %v", err)
		}
		db.SetMaxOpenConns(1)
		theDB = db
	}
	e := &env{rt: rt, db: theDB}
	for _, q := range []string{
		"DROP TABLE IF EXISTS t", "DROP TABLE IF EXISTS u",
		"CREATE TABLE t (id INTEGER NOT NULL, a INTEGER, b TEXT, c REAL NOT NULL)",
		"CREATE TABLE u (tid INTEGER NOT NULL, v TEXT NOT NULL)",
	} {
		if _, err := e.db.Exec(q); err != nil {
			vh.Harness(rt, "sqlite: %s: %v (an open result set was left behind by the case before?)", q, err)
		}
	}
	e.d = rapid.SampledFrom([]xsql.SQLDialect{xsql.NoDialect, xsql.Postgres, xsql.SQLServer}).Draw(rt, "dialect")
	for i := range e.n("rows", 0, 12) {
		r := e.drawRow(int64(i + 1))
		e.rows = append(e.rows, r)
		if _, err := e.db.Exec("INSERT INTO t (id, a, b, c) VALUES (?, ?, ?, ?)", r.id, r.a, r.b, r.c); err != nil {
			vh.Harness(rt, "sqlite: %v", err)
		}
	}
	for range e.n("urows", 0, 6) {
		u := urow{int64(e.n("tid", 1, 14)), rapid.SampledFrom(strs).Draw(rt, "v")}
		e.us = append(e.us, u)
		if _, err := e.db.Exec("INSERT INTO u (tid, v) VALUES (?, ?)", u.tid, u.v); err != nil {
			vh.Harness(rt, "sqlite: %v", err)
		}
	}
	return e
}

func intEq(p *int64, v int64) tri {
	if p == nil {
		return -1
	}
	return b2t(*p == v)
}

func strEq(p *string, v string) tri {
	if p == nil {
		return -1
	}
	return b2t(*p == v)
}

// cond draws a condition on t.
func (e *env) cond() cond {
	switch e.n("cond", 0, 9) {
	case 0:
		v := int64(e.n("v", -3, 3))
		return cond{text: "t.a = ?", args: []any{v}, eval: func(r row) tri { return intEq(r.a, v) }}
	case 1:
		v := rapid.SampledFrom(strs).Draw(e.rt, "v")
		return cond{text: "t.b = ?", args: []any{v}, eval: func(r row) tri { return strEq(r.b, v) }}
	case 2:
		return cond{text: "t.a IS NULL", eval: func(r row) tri { return b2t(r.a == nil) }}
	case 3:
		lo, hi := int64(e.n("lo", 0, 14)), int64(e.n("hi", 0, 14))
		return cond{text: "t.id BETWEEN ? AND ?", args: []any{lo, hi}, eval: func(r row) tri { return b2t(r.id >= lo && r.id <= hi) }}
	case 4:
		v, w := int64(e.n("v", -3, 3)), rapid.SampledFrom(strs).Draw(e.rt, "w")
		return cond{text: "(t.a = ? OR t.b = ?)", args: []any{v, w}, eval: func(r row) tri { return or(intEq(r.a, v), strEq(r.b, w)) }}
	case 5:
		v := float64(e.n("v", -8, 8)) / 4
		return cond{text: "t.c > ?", args: []any{v}, eval: func(r row) tri { return b2t(r.c > v) }}
	case 6, 7:
		var in []any
		set := map[int64]bool{}
		for range e.n("nin", 1, 5) {
			v := int64(e.n("v", -3, 12))
			set[v] = true
			in = append(in, v)
		}
		if rapid.Bool().Draw(e.rt, "inA") {
			return cond{text: "t.a", in: in, eval: func(r row) tri {
				if r.a == nil {
					return -1
				}
				return b2t(set[*r.a])
			}}
		}
		return cond{text: "t.id NOT", in: in, eval: func(r row) tri { return b2t(!set[r.id]) }}
	case 8:
		v := rapid.SampledFrom(strs).Draw(e.rt, "v")
		return cond{text: fmt.Sprintf("id in (u.v <> %q)", v), sub: func(d xsql.SQLDialect) (string, string, xsql.Builder) {
			return "t.id IN (", ")", d.Select("u.tid").From("u").Where("u.v <> ?", v)
		}, eval: func(r row) tri {
			for _, u := range e.us {
				if u.tid == r.id && u.v != v {
					return 1
				}
			}
			return 0
		}}
	default:
		v := int64(e.n("v", 0, 14))
		return cond{text: "NOT t.id = ?", args: []any{v}, eval: func(r row) tri { return not(b2t(r.id == v)) }}
	}
}

func (e *env) conds(max int) []cond {
	var cs []cond
	for range e.n("conds", 0, max) {
		cs = append(cs, e.cond())
	}
	return cs
}

func (e *env) where(q xsql.Builder, c cond) xsql.Builder {
	switch {
	case c.sub != nil:
		// a condition has to be the most recent clause
		pre, suf, sub := c.sub(e.d)
		return q.Where("1 = 1").SubQuery(pre, suf, sub)
	case c.in != nil:
		return q.Where(c.text).In(c.in...)
	}
	return q.Where(c.text, c.args...)
}

func filter(rows []row, cs []cond) []row {
	var res []row
next:
	for _, r := range rows {
		for _, c := range cs {
			if c.eval(r) != 1 {
				continue next
			}
		}
		res = append(res, r)
	}
	return res
}

// shuffle applies the calls in random order.
func (e *env) shuffle(q xsql.Builder, calls []func(xsql.Builder) xsql.Builder) xsql.Builder {
	for len(calls) > 0 {
		i := e.n("call", 0, len(calls)-1)
		q = calls[i](q)
		calls = append(calls[:i:i], calls[i+1:]...)
	}
	return q
}

// less is SQLite's order: NULL, numbers, text by bytes.
func less(a, b any) int {
	switch {
	case a == nil && b == nil:
		return 0
	case a == nil:
		return -1
	case b == nil:
		return 1
	}
	switch x := a.(type) {
	case int64:
		y := b.(int64)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case float64:
		y := b.(float64)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case string:
		return strings.Compare(x, b.(string))
	}
	panic("less")
}

func norm(v any) any {
	switch x := v.(type) {
	case []byte:
		return string(x)
	case int:
		return int64(x)
	}
	return v
}

func show(rs [][]any) string {
	var sb strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&sb, "%#v\n", r)
	}
	return sb.String()
}

func sortRows(rs [][]any) {
	sort.Slice(rs, func(i, j int) bool {
		for k := range rs[i] {
			if fmt.Sprintf("%T%v", rs[i][k], rs[i][k]) != fmt.Sprintf("%T%v", rs[j][k], rs[j][k]) {
				return fmt.Sprintf("%T%v", rs[i][k], rs[i][k]) < fmt.Sprintf("%T%v", rs[j][k], rs[j][k])
			}
		}
		return false
	})
}

// fetch runs the statement; the values go through the targets.
func (e *env) fetch(q xsql.Builder, ncols int, viaTo bool) [][]any {
	dest := make([]any, ncols)
	var ptrs []any
	for i := range dest {
		ptrs = append(ptrs, &dest[i])
	}
	if viaTo {
		q = q.To(ptrs...)
	}
	e.log = append(e.log, fmt.Sprintf("%s %v", q.String(), q.Args()))
	var res [][]any
	h := func(rows *sql.Rows) {
		if !viaTo {
			if err := rows.Scan(ptrs...); err != nil {
				e.rt.Fatalf("scan: %v", err)
			}
		}
		r := make([]any, ncols)
		for i := range dest {
			r[i] = norm(dest[i])
		}
		res = append(res, r)
	}
	if rapid.Bool().Draw(e.rt, "close") {
		e.must(q.QueryAndClose(ctx, e.db, h))
	} else {
		e.must(q.Query(ctx, e.db, h))
		if rapid.Bool().Draw(e.rt, "again") {
			n := len(res)
			e.idle()
			e.must(q.Query(ctx, e.db, h))
			if !reflect.DeepEqual(res[:n:n], res[n:]) && n > 0 {
				e.rt.Fatalf("the second run differs\n%s", show(res))
			}
			res = res[:n]
		}
		q.Close()
	}
	return res
}

func (e *env) compare(got, want [][]any, ordered bool) {
	if !ordered {
		sortRows(got)
		sortRows(want)
	}
	if len(got) == 0 && len(want) == 0 {
		return
	}
	if !reflect.DeepEqual(got, want) {
		e.rt.Fatalf("wrong rows\n%s\ngot:\n%swant:\n%s", strings.Join(e.log, "\n"), show(got), show(want))
	}
}

type limits struct {
	limit, offset int
	set           bool
}

// limit draws limit, offset and page calls; the last values count.
func (e *env) limit() ([]func(xsql.Builder) xsql.Builder, limits) {
	var l limits
	switch e.n("limits", 0, 3) {
	case 0:
		return nil, l
	case 1:
		l = limits{e.n("limit", 0, 8), e.n("offset", 0, 6), true}
		return []func(xsql.Builder) xsql.Builder{
			func(q xsql.Builder) xsql.Builder { return q.Limit(l.limit) },
			func(q xsql.Builder) xsql.Builder { return q.Offset(l.offset) },
		}, l
	default:
		p, s := e.n("page", -1, 4), e.n("size", 0, 5)
		l = limits{max(s, 1), (max(p, 1) - 1) * max(s, 1), true}
		return []func(xsql.Builder) xsql.Builder{
			func(q xsql.Builder) xsql.Builder {
				if rapid.Bool().Draw(e.rt, "pageTwice") {
					q = q.Paginate(e.n("page0", 1, 4), e.n("size0", 1, 5))
				}
				return q.Paginate(p, s)
			},
		}, l
	}
}

func (l limits) cut(rs [][]any) [][]any {
	if !l.set {
		return rs
	}
	if l.offset >= len(rs) {
		return nil
	}
	rs = rs[l.offset:]
	if len(rs) > l.limit {
		rs = rs[:l.limit]
	}
	return rs
}

func project(rows []row, cols []string) [][]any {
	var res [][]any
	for _, r := range rows {
		var o []any
		for _, c := range cols {
			o = append(o, r.col(c))
		}
		res = append(res, o)
	}
	return res
}

func (e *env) cols() []string {
	all := []string{"id", "a", "b", "c"}
	n := e.n("ncols", 1, 4)
	var res []string
	for range n {
		res = append(res, rapid.SampledFrom(all).Draw(e.rt, "col"))
	}
	return res
}

// orders draws an order of all rows.
func (e *env) orders() (string, func(x, y row) bool) {
	c := rapid.SampledFrom([]string{"id", "a", "b", "c"}).Draw(e.rt, "order")
	desc := rapid.Bool().Draw(e.rt, "desc")
	s := "t." + c
	if desc {
		s += " DESC"
	}
	return s, func(x, y row) bool {
		k := less(x.col(c), y.col(c))
		if desc {
			k = -k
		}
		if k == 0 {
			k = less(x.id, y.id)
		}
		return k < 0
	}
}

func (e *env) selectCase(c *vh.Case) {
	cs := e.conds(3)
	cols := e.cols()
	viaTo := rapid.Bool().Draw(e.rt, "to")
	var calls []func(xsql.Builder) xsql.Builder
	for _, cd := range cs {
		calls = append(calls, func(q xsql.Builder) xsql.Builder { return e.where(q, cd) })
	}
	ordered := rapid.Bool().Draw(e.rt, "ordered")
	rows := filter(e.rows, cs)
	var l limits
	if ordered {
		s, lt := e.orders()
		sort.SliceStable(rows, func(i, j int) bool { return lt(rows[i], rows[j]) })
		if rapid.Bool().Draw(e.rt, "orderOnce") {
			calls = append(calls, func(q xsql.Builder) xsql.Builder { return q.OrderBy(s, "t.id") })
		} else {
			calls = append(calls, func(q xsql.Builder) xsql.Builder { return q.OrderBy(s).OrderBy("t.id") })
		}
		var lc []func(xsql.Builder) xsql.Builder
		lc, l = e.limit()
		calls = append(calls, lc...)
	}
	sel := make([]string, len(cols))
	for i, k := range cols {
		sel[i] = "t." + k
	}
	oneCall := rapid.Bool().Draw(e.rt, "oneSelect")
	var q xsql.Builder
	addSel := func(q xsql.Builder) xsql.Builder {
		if oneCall {
			return q.Select(strings.Join(sel, ", "))
		}
		for _, s := range sel {
			q = q.Select(s)
		}
		return q
	}
	if rapid.Bool().Draw(e.rt, "fromFirst") {
		q = e.d.From("t")
		calls = append(calls, addSel)
	} else {
		q = addSel2(e.d, sel)
		calls = append(calls, func(q xsql.Builder) xsql.Builder { return q.From("t") })
	}
	q = e.shuffle(q, calls)
	got := e.fetch(q, len(cols), viaTo)
	want := l.cut(project(rows, cols))
	e.compare(got, want, ordered)
	c.ClassIf(l.set, "limit")
	c.ClassIf(len(cs) > 0, "filter")
	c.NonTrivial(len(want) > 0 && len(want) < len(e.rows), strings.Join(e.log, ";"))
}

func addSel2(d xsql.SQLDialect, sel []string) xsql.Builder {
	q := d.Select(sel[0])
	for _, s := range sel[1:] {
		q = q.Select(s)
	}
	return q
}

func (e *env) groupCase(c *vh.Case) {
	cs := e.conds(2)
	minCount := int64(e.n("min", 0, 3))
	type agg struct{ n, sum int64 }
	groups := map[any]*agg{}
	for _, r := range filter(e.rows, cs) {
		g := groups[r.col("a")]
		if g == nil {
			g = &agg{}
			groups[r.col("a")] = g
		}
		g.n++
		g.sum += r.id
	}
	var want [][]any
	for k, g := range groups {
		if g.n > minCount && g.sum < 40 {
			want = append(want, []any{k, g.n, g.sum})
		}
	}
	calls := []func(xsql.Builder) xsql.Builder{
		func(q xsql.Builder) xsql.Builder { return q.GroupBy("t.a") },
		func(q xsql.Builder) xsql.Builder { return q.Having("COUNT(*) > ?", minCount) },
		func(q xsql.Builder) xsql.Builder { return q.Having("SUM(t.id) < ?", 40) },
	}
	for _, cd := range cs {
		calls = append(calls, func(q xsql.Builder) xsql.Builder { return e.where(q, cd) })
	}
	q := e.shuffle(e.d.From("t").Select("t.a").Select("COUNT(*), SUM(t.id)"), calls)
	e.compare(e.fetch(q, 3, rapid.Bool().Draw(e.rt, "to")), want, false)
	c.NonTrivial(len(want) > 0, strings.Join(e.log, ";"))
}

func (e *env) joinCase(c *vh.Case) {
	cs := e.conds(2)
	left := rapid.Bool().Draw(e.rt, "left")
	mark := rapid.SampledFrom(strs).Draw(e.rt, "mark")
	var want [][]any
	for _, r := range filter(e.rows, cs) {
		n := 0
		for _, u := range e.us {
			if u.tid == r.id {
				n++
				want = append(want, []any{mark, r.id, u.v})
			}
		}
		if n == 0 && left {
			want = append(want, []any{mark, r.id, nil})
		}
	}
	var calls []func(xsql.Builder) xsql.Builder
	for _, cd := range cs {
		calls = append(calls, func(q xsql.Builder) xsql.Builder { return e.where(q, cd) })
	}
	calls = append(calls, func(q xsql.Builder) xsql.Builder {
		if left {
			return q.LeftJoin("u", "u.tid = t.id")
		}
		return q.Join("u", "u.tid = t.id")
	}, func(q xsql.Builder) xsql.Builder {
		// CAST, as PostgreSQL would need a type as well
		return q.Select("CAST(? AS TEXT)", mark).Select("t.id").Select("u.v")
	})
	q := e.shuffle(e.d.From("t"), calls)
	e.compare(e.fetch(q, 3, rapid.Bool().Draw(e.rt, "to")), want, false)
	c.NonTrivial(len(want) > 0, strings.Join(e.log, ";"))
}

func (e *env) unionCase(c *vh.Case) {
	all := rapid.Bool().Draw(e.rt, "all")
	n := e.n("parts", 1, 2)
	cs := e.conds(2)
	q := e.d.Select("t.a").From("t")
	for _, cd := range cs {
		q = e.where(q, cd)
	}
	want := project(filter(e.rows, cs), []string{"a"})
	for range n {
		cs2 := e.conds(2)
		d2 := rapid.SampledFrom([]xsql.SQLDialect{xsql.NoDialect, xsql.Postgres}).Draw(e.rt, "d2")
		s := d2.Select("t.a").From("t")
		for _, cd := range cs2 {
			s = e.where(s, cd)
		}
		q = q.Union(all, s)
		want = append(want, project(filter(e.rows, cs2), []string{"a"})...)
	}
	if !all {
		seen := map[any]bool{}
		var u [][]any
		for _, r := range want {
			if !seen[r[0]] {
				seen[r[0]] = true
				u = append(u, r)
			}
		}
		want = u
	}
	e.compare(e.fetch(q, 1, rapid.Bool().Draw(e.rt, "to")), want, false)
	c.NonTrivial(len(want) > 1, strings.Join(e.log, ";"))
}

func (e *env) withCase(c *vh.Case) {
	in, out := e.conds(2), e.conds(2)
	sub := e.d.Select("*").From("t")
	for _, cd := range in {
		sub = e.where(sub, cd)
	}
	want := project(filter(filter(e.rows, in), out), []string{"id", "b"})
	var q xsql.Builder
	calls := []func(xsql.Builder) xsql.Builder{func(q xsql.Builder) xsql.Builder { return q.Select("t.id, t.b") }}
	for _, cd := range out {
		calls = append(calls, func(q xsql.Builder) xsql.Builder { return e.where(q, cd) })
	}
	switch e.n("shape", 0, 2) {
	case 0:
		q = e.d.With("w", sub).From("w AS t")
	case 1:
		q = e.d.From("w AS t")
		calls = append(calls, func(q xsql.Builder) xsql.Builder { return q.With("w", sub) })
	default:
		q = e.d.From("").SubQuery("(", ") AS t", sub)
	}
	q = e.shuffle(q, calls)
	e.compare(e.fetch(q, 2, rapid.Bool().Draw(e.rt, "to")), want, false)
	c.NonTrivial(len(want) > 0, strings.Join(e.log, ";"))
}

// table returns the table as it is.
func (e *env) table() [][]any {
	e.idle()
	rows, err := e.db.Query("SELECT id, a, b, c FROM t ORDER BY rowid")
	if err != nil {
		vh.Harness(e.rt, "sqlite: %v", err)
	}
	defer rows.Close()
	var res [][]any
	for rows.Next() {
		r := make([]any, 4)
		if err := rows.Scan(&r[0], &r[1], &r[2], &r[3]); err != nil {
			vh.Harness(e.rt, "sqlite: %v", err)
		}
		for i := range r {
			r[i] = norm(r[i])
		}
		res = append(res, r)
	}
	return res
}

func (e *env) exec(q xsql.Builder) int64 {
	e.log = append(e.log, fmt.Sprintf("%s %v", q.String(), q.Args()))
	var res sql.Result
	var err error
	if rapid.Bool().Draw(e.rt, "close") {
		res, err = q.ExecAndClose(ctx, e.db)
	} else {
		res, err = q.Exec(ctx, e.db)
		q.Close()
	}
	e.must(err)
	n, err := res.RowsAffected()
	e.must(err)
	return n
}

var allCols = []string{"id", "a", "b", "c"}

func (e *env) changeCase(c *vh.Case) {
	var n, want int64
	switch e.n("change", 0, 3) {
	case 0: // insert of one row
		r := e.drawRow(int64(100 + e.n("id", 0, 9)))
		q := e.d.InsertInto("t")
		for _, i := range rapid.Permutation([]int{0, 1, 2, 3}).Draw(e.rt, "fields") {
			k := allCols[i]
			switch {
			case r.col(k) == nil && rapid.Bool().Draw(e.rt, "skip"):
			case rapid.Bool().Draw(e.rt, "setExpr"):
				q = q.SetExpr(k, "COALESCE(NULL, ?)", r.col(k))
			default:
				q = q.Set(k, r.col(k))
			}
		}
		n, want = e.exec(q), 1
		e.rows = append(e.rows, r)
	case 1: // several rows
		perm := rapid.Permutation([]int{0, 1, 2, 3}).Draw(e.rt, "fields")
		q := e.d.InsertInto("t")
		for i := range e.n("new", 1, 6) {
			r := e.drawRow(int64(100 + i))
			nr := q.NewRow()
			for _, k := range perm {
				if rapid.Bool().Draw(e.rt, "setExpr") {
					nr = nr.SetExpr(allCols[k], "COALESCE(?, ?)", r.col(allCols[k]), r.col(allCols[k]))
				} else {
					nr = nr.Set(allCols[k], r.col(allCols[k]))
				}
			}
			e.rows = append(e.rows, r)
			want++
		}
		n = e.exec(q)
	case 2: // update
		cs := e.conds(2)
		v := rapid.SampledFrom(strs).Draw(e.rt, "v")
		inc := int64(e.n("inc", 1, 5))
		calls := []func(xsql.Builder) xsql.Builder{
			func(q xsql.Builder) xsql.Builder { return q.Set("b", v) },
			func(q xsql.Builder) xsql.Builder { return q.SetExpr("c", "c + ? * ?", inc, 2) },
		}
		for _, cd := range cs {
			calls = append(calls, func(q xsql.Builder) xsql.Builder { return e.where(q, cd) })
		}
		n = e.exec(e.shuffle(e.d.Update("t"), calls))
		for i, r := range e.rows {
			if len(filter([]row{r}, cs)) > 0 {
				e.rows[i].b = &v
				e.rows[i].c += float64(inc * 2)
				want++
			}
		}
	default: // delete
		cs := e.conds(2)
		q := e.d.DeleteFrom("t")
		for _, cd := range cs {
			q = e.where(q, cd)
		}
		n = e.exec(q)
		var keep []row
		for _, r := range e.rows {
			if len(filter([]row{r}, cs)) == 0 {
				keep = append(keep, r)
			} else {
				want++
			}
		}
		e.rows = keep
	}
	if n != want {
		e.rt.Fatalf("%d rows affected, expected %d\n%s", n, want, strings.Join(e.log, "\n"))
	}
	e.compare(e.table(), project(e.rows, allCols), true)
	c.NonTrivial(want > 0, strings.Join(e.log, ";"))
}

type Base struct {
	ID int64 `db:"t.id"`
}

type record struct {
	Base
	Skip int
	A    sql.NullInt64  `db:"t.a,opt"`
	B    sql.NullString `db:"t.b"`
	C    float64        `db:"t.c"`
}

// One row, through QueryRow.
func (e *env) rowCase(c *vh.Case) {
	cs := e.conds(2)
	s, lt := e.orders()
	rows := filter(e.rows, cs)
	sort.SliceStable(rows, func(i, j int) bool { return lt(rows[i], rows[j]) })
	var rec record
	q := e.d.From("t").OrderBy(s, "t.id").Limit(1)
	for _, cd := range cs {
		q = e.where(q, cd)
	}
	q = q.Bind(&rec)
	e.log = append(e.log, fmt.Sprintf("%s %v", q.String(), q.Args()))
	var err error
	if rapid.Bool().Draw(e.rt, "close") {
		err = q.QueryRowAndClose(ctx, e.db)
	} else {
		err = q.QueryRow(ctx, e.db)
		q.Close()
	}
	if len(rows) == 0 {
		if !errors.Is(err, sql.ErrNoRows) {
			e.rt.Fatalf("no rows: %v", err)
		}
		return
	}
	e.must(err)
	r := rows[0]
	w := record{Base: Base{r.id}, C: r.c}
	if r.a != nil {
		w.A = sql.NullInt64{Int64: *r.a, Valid: true}
	}
	if r.b != nil {
		w.B = sql.NullString{String: *r.b, Valid: true}
	}
	if rec != w {
		e.rt.Fatalf("got %+v, want %+v\n%s", rec, w, strings.Join(e.log, "\n"))
	}
	c.NonTrivial(len(rows) > 1, strings.Join(e.log, ";"))
}

// A statement which can not work is an error.
func (e *env) badCase(c *vh.Case) {
	var x int64
	kind := e.n("bad", 0, 7)
	called := 0
	h := func(*sql.Rows) { called++ }
	var err error
	expect := true
	switch kind {
	case 0:
		err = e.d.From("nope").Select("x").To(&x).QueryAndClose(ctx, e.db, h)
	case 1:
		err = e.d.From("nope").Select("x").To(&x).QueryRowAndClose(ctx, e.db)
	case 2:
		_, err = e.d.Update("t").Set("nope", 1).ExecAndClose(ctx, e.db)
	case 3:
		// the value does not fit into the target
		err = e.d.From("t").Select("'abc'").To(&x).QueryAndClose(ctx, e.db, h)
		expect = len(e.rows) > 0
	case 4:
		// too few targets
		err = e.d.From("t").Select("t.id, t.c").To(&x).QueryAndClose(ctx, e.db, h)
		expect = len(e.rows) > 0
	default:
		// some of the rows do not fit: the rows before the first of them are handled, in order
		col := "a"
		if kind == 7 {
			col = "b"
		}
		var sx string
		var got, want []any
		expect = false
		for _, r := range e.rows {
			v := r.col(col)
			expect = expect || v == nil
			if !expect {
				want = append(want, norm(v))
			}
		}
		q := e.d.From("t").Select("t." + col).OrderBy("t.id")
		if kind == 7 {
			err = q.To(&sx).QueryAndClose(ctx, e.db, func(*sql.Rows) { got = append(got, sx) })
		} else {
			err = q.To(&x).Query(ctx, e.db, func(*sql.Rows) { got = append(got, x) })
			q.Close()
		}
		if len(got) < len(want) || !reflect.DeepEqual(got[:len(want)], want) {
			e.rt.Fatalf("rows %v, expected at least %v (%v)", got, want, err)
		}
	}
	if (err != nil) != expect || called != 0 {
		e.rt.Fatalf("case %d: %v, handler called %d times", kind, err, called)
	}
	e.compare(e.table(), project(e.rows, allCols), true)
	c.NonTrivial(expect, fmt.Sprint("bad", kind, len(e.rows)))
}

func run(t *testing.T, quick, thorough int, rule string, f func(e *env, c *vh.Case)) {
	vh.Run(t, quick, thorough, rule, func(rt *rapid.T, c *vh.Case) {
		e := newEnv(rt)
		f(e, c)
		e.idle()
		c.Class(e.d.Provider())
	})
}

const tableRule = "SQLite tables of up to 12 random rows with NULLs, three dialects, calls in random order, compared with direct evaluation; "

func TestC10_Select(t *testing.T) {
	run(t, 1500, 20000, tableRule+"filters, IN lists, nested queries, orders, limits, pages; non-trivial: some but not all rows are selected", (*env).selectCase)
}

func TestC10_Group(t *testing.T) {
	run(t, 500, 6000, tableRule+"grouping with two HAVING conditions; non-trivial: a group is left", (*env).groupCase)
}

func TestC10_Join(t *testing.T) {
	run(t, 500, 6000, tableRule+"inner and left joins with an argument in the select list; non-trivial: a row is joined", (*env).joinCase)
}

func TestC10_Union(t *testing.T) {
	run(t, 500, 6000, tableRule+"unions of filtered queries of mixed dialects; non-trivial: at least two rows", (*env).unionCase)
}

func TestC10_With(t *testing.T) {
	run(t, 500, 6000, tableRule+"CTEs and nested FROM; non-trivial: a row is left", (*env).withCase)
}

func TestC10_Change(t *testing.T) {
	run(t, 1000, 12000, tableRule+"inserts of one or several rows, updates, deletes; rows affected and the table afterwards; non-trivial: a row is changed", (*env).changeCase)
}

func TestC10_Row(t *testing.T) {
	run(t, 600, 6000, tableRule+"the first row bound to a structure; non-trivial: several rows to choose from", (*env).rowCase)
}

func TestC10_Bad(t *testing.T) {
	run(t, 200, 2000, tableRule+"statements which can not work; non-trivial: an error is due", (*env).badCase)
}
