package xs

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"testing"

	"github.com/effective-security/xdb/internal/verif/sqlgen"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/xsql"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	func() {
		defer func() {
			if r := recover(); r != nil {
				atStart = fmt.Sprint("panic: ", r)
			}
		}()
		b := xsql.From("t").Where("a = ?", 1)
		defer b.Close()
		atStart = sqlgen.Norm(b.String())
	}()
	vh.Main(m)
}

// atStart is a statement in the default dialect, when none was set.
var atStart string

type args = []any

func sameArgs(a, b []any) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

func copyArgs(a []any) []any { return append([]any(nil), a...) }

func features(c *vh.Case, p *sqlgen.Prog) {
	out := map[string]int{}
	order := 0
	prev := -1
	rank := map[string]int{"With": 1, "InsertInto": 2, "Set": 3, "SetExpr": 3, "Rows": 3, "DeleteFrom": 4, "Update": 5, "Select": 6, "From": 7, "Join": 7, "Where": 8, "WhereIn": 8, "GroupBy": 9, "Having": 10, "Union": 11, "OrderBy": 12, "Limit": 13, "Offset": 14, "Returning": 15}
	for _, o := range p.Ops {
		out[o.Kind]++
		if r, ok := rank[o.Kind]; ok {
			if r < prev {
				order++
			}
			prev = r
		}
	}
	c.ClassIf(order > 0, "calls out of clause order")
	for _, k := range []string{"SubQuery", "With", "Union", "Rows", "Clause", "WhereIn", "Join", "Paginate", "Expr"} {
		c.ClassIf(out[k] > 0, k)
	}
	c.Class(p.Dialect.Provider())
}

const progRule = "random programs of builder calls (select, insert, bulk insert, update, delete, raw) with nested queries, random call order and dialect, every fragment and argument unique; "

// ---- C03 ----

var markerRe = regexp.MustCompile(`m(\d+)_(\d+):$`)

type bind struct {
	frag, idx int
	arg       any
}

// collectBindings lists which argument belongs to which marker.
func collectBindings(p *sqlgen.Prog, res map[[2]int]any) {
	add := func(text string, a []any) {
		for i, m := range regexp.MustCompile(`m(\d+)_(\d+):\?`).FindAllStringSubmatch(text, -1) {
			var k [2]int
			fmt.Sscanf(m[1]+" "+m[2], "%d %d", &k[0], &k[1])
			if i < len(a) {
				res[k] = a[i]
			}
		}
	}
	for _, o := range p.Ops {
		add(o.Text, o.Args)
		if o.Kind == "SetExpr" {
			add(o.Strs[0], o.Args)
		}
		for _, r := range o.Rows {
			for _, cl := range r {
				add(cl.Expr, cl.Args)
			}
		}
		if o.Sub != nil {
			collectBindings(o.Sub, res)
		}
	}
}

// placeholders returns the offsets of the placeholders in the rendered SQL,
// and the number of each of them (as $n says, or as it comes).
func placeholders(sql string, pg bool) (offs []int, nums []int) {
	if pg {
		for _, loc := range regexp.MustCompile(`\$\d+`).FindAllStringIndex(sql, -1) {
			var n int
			fmt.Sscanf(sql[loc[0]+1:loc[1]], "%d", &n)
			offs, nums = append(offs, loc[0]), append(nums, n)
		}
		return
	}
	for i := 0; i < len(sql); i++ {
		if sql[i] == '\\' && i+1 < len(sql) && sql[i+1] == '?' {
			i++
		} else if sql[i] == '?' {
			offs, nums = append(offs, i), append(nums, len(offs)+1)
		}
	}
	return
}

func checkBindings(rt *rapid.T, p *sqlgen.Prog, sql string, got []any) int {
	want := map[[2]int]any{}
	collectBindings(p, want)
	offs, nums := placeholders(sql, p.Dialect.Provider() == "postgres")
	if len(offs) != len(got) {
		rt.Fatalf("%d placeholders, %d arguments\nprogram: %s\nsql: %s\nargs: %v", len(offs), len(got), p, sql, got)
	}
	seen := 0
	for i, off := range offs {
		if nums[i] != i+1 {
			rt.Fatalf("placeholder %d has number %d\nprogram: %s\nsql: %s", i+1, nums[i], p, sql)
		}
		m := markerRe.FindStringSubmatch(sql[:off])
		if m == nil {
			continue
		}
		var k [2]int
		fmt.Sscanf(m[1]+" "+m[2], "%d %d", &k[0], &k[1])
		w, ok := want[k]
		if !ok {
			rt.Fatalf("unknown marker %v\nprogram: %s\nsql: %s", k, p, sql)
		}
		seen++
		delete(want, k)
		if !reflect.DeepEqual(w, got[nums[i]-1]) {
			rt.Fatalf("placeholder of fragment m%d_%d is bound to %v, not to %v\nprogram: %s\nsql: %s\nargs: %v", k[0], k[1], got[nums[i]-1], w, p, sql, got)
		}
	}
	if len(want) > 0 {
		rt.Fatalf("fragments are lost: %v\nprogram: %s\nsql: %s", want, p, sql)
	}
	return seen
}

func TestC03_Bindings(t *testing.T) {
	vh.Run(t, 6000, 120000, progRule+"each placeholder carries a marker which says what argument it was given with; non-trivial: at least two bound placeholders",
		func(rt *rapid.T, c *vh.Case) {
			g := &sqlgen.Gen{T: rt}
			p := g.Prog(2)
			b := p.Build()
			defer b.Close()
			sql, got := b.String(), copyArgs(b.Args())
			n := checkBindings(rt, p, sql, got)
			if m := p.Model(); !sameArgs(m.Args(), got) {
				rt.Fatalf("arguments %v, expected %v\nprogram: %s\nsql: %s", got, m.Args(), p, sql)
			}
			features(c, p)
			c.NonTrivial(n >= 2, p.String())
			c.Sample("%s\n=> %s %v", p, sql, got)
		})
}

// After every call of the program the statement so far has matching arguments.
func TestC03_EveryPrefix(t *testing.T) {
	vh.Run(t, 2000, 40000, progRule+"the SQL and the arguments are read after every call; non-trivial: at least 3 calls",
		func(rt *rapid.T, c *vh.Case) {
			g := &sqlgen.Gen{T: rt}
			p := g.Prog(1)
			m := &sqlgen.Model{}
			var b xsql.Builder
			for i, o := range p.Ops {
				b = p.Step(b, i)
				m.Apply(o)
				if !sameArgs(b.Args(), m.Args()) {
					rt.Fatalf("after call %d: arguments %v, expected %v\nprogram: %s", i, b.Args(), m.Args(), p)
				}
				offs, _ := placeholders(b.String(), p.Dialect.Provider() == "postgres")
				if len(offs) != len(b.Args()) {
					rt.Fatalf("after call %d: %d placeholders, %d arguments\nprogram: %s\nsql: %s", i, len(offs), len(b.Args()), p, b.String())
				}
			}
			b.Close()
			features(c, p)
			c.NonTrivial(len(p.Ops) >= 3, p.String())
		})
}

// ---- C04 ----

func checkModel(rt *rapid.T, p *sqlgen.Prog, b xsql.Builder) string {
	m := p.Model()
	sql := b.String()
	if got, want := sqlgen.Norm(sql), sqlgen.Norm(m.Render(p.Dialect)); got != want {
		rt.Fatalf("wrong statement\nprogram: %s\ngot:  %s\nwant: %s", p, got, want)
	}
	if !sameArgs(b.Args(), m.Args()) {
		rt.Fatalf("wrong arguments\nprogram: %s\ngot:  %v\nwant: %v", p, b.Args(), m.Args())
	}
	if !sameArgs(b.Dest(), m.Dest) {
		rt.Fatalf("wrong scan targets\nprogram: %s\ngot:  %v\nwant: %v", p, b.Dest(), m.Dest)
	}
	return sql
}

func TestC04_Reference(t *testing.T) {
	vh.Run(t, 6000, 120000, progRule+"compared with a reference renderer; non-trivial: at least 3 calls",
		func(rt *rapid.T, c *vh.Case) {
			g := &sqlgen.Gen{T: rt}
			p := g.Prog(2)
			b := p.Build()
			defer b.Close()
			sql := checkModel(rt, p, b)
			if again := b.String(); again != sql {
				rt.Fatalf("String is not stable\nprogram: %s\n%s\n%s", p, sql, again)
			}
			features(c, p)
			c.NonTrivial(len(p.Ops) >= 3, p.String())
			c.Sample("%s\n=> %s", p, sql)
		})
}

// Calls for different clauses commute.
func TestC04_Commute(t *testing.T) {
	vh.Run(t, 3000, 50000, "random SELECT programs with one clause kind per group, the groups are permuted keeping the order inside each group; the SQL and the arguments have to be the same; non-trivial: the permutation changes the order",
		func(rt *rapid.T, c *vh.Case) {
			g := &sqlgen.Gen{T: rt}
			p := g.Select(1)
			// only calls which do not depend on the most recent clause
			keep := p.Ops[:0:0]
			for _, o := range p.Ops {
				switch o.Kind {
				case "Expr", "SubQuery", "Clause", "Union", "UseNewLines", "Join", "LeftJoin", "RightJoin", "FullJoin", "String", "Invalidate", "CloneAndClose", "To", "Paginate", "Limit", "Offset":
				default:
					keep = append(keep, o)
				}
			}
			if len(keep) == 0 {
				keep = append(keep, sqlgen.Op{Kind: "From", Text: "t"})
			}
			p.Ops = keep
			group := func(k string) string {
				if k == "WhereIn" {
					return "Where"
				}
				return k
			}
			// a random stable merge: pick the next group at random
			rest := append([]sqlgen.Op(nil), keep...)
			q := &sqlgen.Prog{Dialect: p.Dialect}
			for len(rest) > 0 {
				var heads []int
				seen := map[string]bool{}
				for i, o := range rest {
					if !seen[group(o.Kind)] {
						seen[group(o.Kind)] = true
						heads = append(heads, i)
					}
				}
				// the first call has to be able to start a statement
				if len(q.Ops) == 0 {
					var ok []int
					for _, i := range heads {
						switch rest[i].Kind {
						case "Select", "From", "With":
							ok = append(ok, i)
						}
					}
					heads = ok
				}
				i := rapid.SampledFrom(heads).Draw(rt, "next")
				q.Ops = append(q.Ops, rest[i])
				rest = append(rest[:i:i], rest[i+1:]...)
			}
			b1, b2 := p.Build(), q.Build()
			defer b1.Close()
			defer b2.Close()
			s1, s2 := sqlgen.Norm(b1.String()), sqlgen.Norm(b2.String())
			if s1 != s2 || !sameArgs(b1.Args(), b2.Args()) {
				rt.Fatalf("the order of calls matters\n%s\n=> %s %v\n%s\n=> %s %v", p, s1, b1.Args(), q, s2, b2.Args())
			}
			c.NonTrivial(p.String() != q.String(), p.String()+" / "+q.String())
		})
}

func TestC04_NewLines(t *testing.T) {
	vh.Run(t, 1500, 20000, progRule+"built with new lines on and off; non-trivial: at least two clauses",
		func(rt *rapid.T, c *vh.Case) {
			g := &sqlgen.Gen{T: rt, Safe: true}
			p := g.Prog(0)
			var ops []sqlgen.Op
			for _, o := range p.Ops {
				if o.Kind != "UseNewLines" {
					ops = append(ops, o)
				}
			}
			with := func(nl bool) (string, []any) {
				q := &sqlgen.Prog{Dialect: p.Dialect, Ops: append([]sqlgen.Op{ops[0], {Kind: "UseNewLines", Flag: nl}}, ops[1:]...)}
				b := q.Build()
				defer b.Close()
				return b.String(), copyArgs(b.Args())
			}
			on, a1 := with(true)
			off, a2 := with(false)
			if sqlgen.Norm(on) != sqlgen.Norm(off) || !sameArgs(a1, a2) {
				rt.Fatalf("new lines change the statement\nprogram: %s\non:  %q %v\noff: %q %v", p, on, a1, off, a2)
			}
			m := &sqlgen.Prog{Dialect: p.Dialect, Ops: ops}
			if m.Model().Clauses() > 1 && !strings.Contains(on, "\n") {
				rt.Fatalf("new lines are on, but there are none\nprogram: %s\n%q", p, on)
			}
			c.NonTrivial(strings.Contains(on, "\n"), p.String())
		})
}

// ---- C05 ----

func TestC05_Dialects(t *testing.T) {
	vh.Run(t, 4000, 80000, progRule+"the same program in the three dialects; non-trivial: at least one placeholder and an escape, or two placeholders",
		func(rt *rapid.T, c *vh.Case) {
			g := &sqlgen.Gen{T: rt}
			p := g.Prog(2)
			render := func(d xsql.SQLDialect) (string, []any) {
				q := *p
				q.Dialect = d
				b := q.Build()
				defer b.Close()
				return b.String(), copyArgs(b.Args())
			}
			def, a1 := render(xsql.NoDialect)
			ms, a2 := render(xsql.SQLServer)
			pg, a3 := render(xsql.Postgres)
			if def != ms || !sameArgs(a1, a2) {
				rt.Fatalf("default and sqlserver differ\nprogram: %s\n%s\n%s", p, def, ms)
			}
			if want := sqlgen.ToPg(def); pg != want || !sameArgs(a1, a3) {
				rt.Fatalf("wrong postgres statement\nprogram: %s\ngot:  %s %v\nwant: %s %v", p, pg, a3, want, a1)
			}
			for i := range a3 {
				if !strings.Contains(pg, fmt.Sprintf("$%d", i+1)) {
					rt.Fatalf("no $%d\nprogram: %s\n%s", i+1, p, pg)
				}
			}
			esc := strings.Contains(def, `\?`)
			c.ClassIf(esc, "escape")
			c.ClassIf(len(a1) > 9, "more than 9 arguments")
			features(c, p)
			c.NonTrivial(len(a1) >= 2 || esc && len(a1) >= 1, p.String())
			c.Sample("%s\n=> %s", p, pg)
		})
}

// pkgFuncs starts statements with the functions of the package.
type pkgFuncs struct{ xsql.SQLDialect }

func (pkgFuncs) New(verb string, args ...any) xsql.Builder     { return xsql.New(verb, args...) }
func (pkgFuncs) From(expr string, args ...any) xsql.Builder    { return xsql.From(expr, args...) }
func (pkgFuncs) Select(expr string, args ...any) xsql.Builder  { return xsql.Select(expr, args...) }
func (pkgFuncs) Update(t string) xsql.Builder                  { return xsql.Update(t) }
func (pkgFuncs) InsertInto(t string) xsql.Builder              { return xsql.InsertInto(t) }
func (pkgFuncs) DeleteFrom(t string) xsql.Builder              { return xsql.DeleteFrom(t) }
func (pkgFuncs) With(name string, q xsql.Builder) xsql.Builder { return xsql.With(name, q) }

// The functions of the package use the default dialect of the moment.
func TestC05_Default(t *testing.T) {
	vh.Run(t, 500, 10000, progRule+"2 to 5 of them started with the functions of the package, the default dialect and its new lines set in between, all continued in turns; each is in the dialect it was started in; non-trivial: two dialects",
		func(rt *rapid.T, c *vh.Case) {
			defer func() {
				for _, d := range sqlgen.Dialects {
					xsql.SetDialect(d)
					xsql.UseNewLines(true)
				}
				xsql.SetDialect(xsql.NoDialect)
			}()
			g := &sqlgen.Gen{T: rt}
			type live struct {
				p    *sqlgen.Prog
				b    xsql.Builder
				next int
				nl   bool
			}
			cur, nl := xsql.SQLDialect(xsql.NoDialect), map[string]bool{}
			for _, d := range sqlgen.Dialects {
				nl[d.Provider()] = true
			}
			n := rapid.IntRange(2, 5).Draw(rt, "statements")
			var all []*live
			used := map[string]bool{}
			step := func(l *live) {
				if l.next < len(l.p.Ops) {
					l.b = sqlgen.ApplyOp(l.p.Dialect, l.b, l.p.Ops[l.next])
					l.next++
				}
			}
			for len(all) < n {
				switch rapid.IntRange(0, 3).Draw(rt, "step") {
				case 0:
					cur = rapid.SampledFrom(sqlgen.Dialects).Draw(rt, "default")
					xsql.SetDialect(cur)
				case 1:
					op := rapid.Bool().Draw(rt, "newlines")
					if d := xsql.UseNewLines(op); d != cur {
						rt.Fatalf("UseNewLines returned another dialect than the default: %s, %s", d.Provider(), cur.Provider())
					}
					nl[cur.Provider()] = op
				case 2:
					p := g.Prog(1)
					p.Dialect = cur
					l := &live{p: p, nl: nl[cur.Provider()]}
					for _, o := range p.Ops {
						if o.Kind == "UseNewLines" || o.Kind == "Paginate" || o.Sub != nil || o.Kind == "Union" {
							used["mixed "+fmt.Sprint(len(all))] = true
						}
					}
					l.b = sqlgen.ApplyOp(pkgFuncs{cur}, nil, p.Ops[0])
					l.next = 1
					all = append(all, l)
					used[cur.Provider()] = true
				default:
					if len(all) > 0 {
						step(rapid.SampledFrom(all).Draw(rt, "which"))
					}
				}
			}
			for i, l := range all {
				for l.next < len(l.p.Ops) {
					step(l)
				}
				m := l.p.Model()
				got := l.b.String()
				if want := m.Render(l.p.Dialect); sqlgen.Norm(got) != sqlgen.Norm(want) || !sameArgs(l.b.Args(), m.Args()) {
					rt.Fatalf("started with the default dialect %s\nprogram: %s\ngot:  %s %v\nwant: %s %v", l.p.Dialect.Provider(), l.p, got, l.b.Args(), want, m.Args())
				}
				if !used["mixed "+fmt.Sprint(i)] && !l.nl && strings.Contains(got, "\n") && !strings.Contains(m.SQL(), "\n") {
					rt.Fatalf("new lines were off when the statement was started\nprogram: %s\ngot: %q", l.p, got)
				}
			}
			for _, l := range all {
				l.b.Close()
			}
			two := 0
			for _, d := range sqlgen.Dialects {
				if used[d.Provider()] {
					two++
				}
			}
			c.NonTrivial(two > 1, fmt.Sprint(all[0].p, " / ", all[1].p))
		})
}

// Many arguments: numbers of several digits.
func TestC05_ManyArgs(t *testing.T) {
	vh.Run(t, 60, 600, "IN lists and bulk inserts of up to 400 arguments; non-trivial: more than 99 arguments",
		func(rt *rapid.T, c *vh.Case) {
			n := rapid.IntRange(1, 400).Draw(rt, "n")
			a := make([]any, n)
			for i := range a {
				a[i] = i
			}
			b := xsql.Postgres.Select("x").From("t").Where("y = ?", "first").Where("z").In(a...).Where("w = ?", "last")
			defer b.Close()
			offs, nums := placeholders(b.String(), true)
			if len(offs) != n+2 || len(b.Args()) != n+2 {
				rt.Fatalf("%d placeholders, %d arguments, expected %d", len(offs), len(b.Args()), n+2)
			}
			for i := range nums {
				if nums[i] != i+1 {
					rt.Fatalf("placeholder %d has number %d", i+1, nums[i])
				}
			}
			if b.Args()[0] != "first" || b.Args()[n+1] != "last" || b.Args()[1] != 0 || b.Args()[n] != n-1 {
				rt.Fatalf("wrong arguments %v", b.Args())
			}
			c.NonTrivial(n > 99, fmt.Sprint(n))
		})
}

func TestC05_Names(t *testing.T) {
	vh.One(t, "the dialects' names, and the default dialect when none was set", func(c *vh.Case) {
		for want, d := range map[string]xsql.SQLDialect{"default": xsql.NoDialect, "postgres": xsql.Postgres, "sqlserver": xsql.SQLServer} {
			if got := d.Provider(); got != want {
				t.Fatalf("dialect %q is named %q", want, got)
			}
		}
		if want := "SELECT * FROM t WHERE a = ?"; atStart != want && atStart != strings.TrimPrefix(want, "SELECT * ") {
			t.Fatalf("the default dialect gives %q, expected %q", atStart, want)
		}
		c.NonTrivial(true, atStart)
	})
}

func TestC05_Regress(t *testing.T) {
	vh.One(t, "fixed cases: escape in a fragment without arguments", func(c *vh.Case) {
		b := xsql.Postgres.Select("id").From("t").Where(`data \? 'k'`)
		if want := `SELECT id FROM t WHERE data ? 'k'`; sqlgen.Norm(b.String()) != want {
			t.Fatalf("got %s, want %s", b.String(), want)
		}
		b.Close()
		c.NonTrivial(true, "escape without arguments")
	})
}

// ---- C06 ----

func TestC06_Collisions(t *testing.T) {
	vh.Run(t, 6000, 120000, "2 to 6 programs over a tiny alphabet of fragments, later ones are copies of an earlier one with calls dropped, duplicated, swapped, split or replaced, so that they write the same text in other orders; alive at the same time or one after another; each has to render as if it was the only one; non-trivial: two different programs",
		func(rt *rapid.T, c *vh.Case) {
			g := &sqlgen.Gen{T: rt, Tiny: true}
			n := rapid.IntRange(2, 6).Draw(rt, "programs")
			progs := []*sqlgen.Prog{g.Prog(1)}
			for len(progs) < n {
				if rapid.IntRange(0, 3).Draw(rt, "fresh") == 0 {
					progs = append(progs, g.Prog(1))
					continue
				}
				p := progs[rapid.IntRange(0, len(progs)-1).Draw(rt, "of")]
				progs = append(progs, mutate(rt, g, p))
			}
			var live []xsql.Builder
			var liveProgs []*sqlgen.Prog
			distinct := map[string]bool{}
			var names []string
			for _, p := range progs {
				distinct[p.String()] = true
				names = append(names, p.String())
				b := p.Build()
				if rapid.Bool().Draw(rt, "readNow") {
					checkModel(rt, p, b)
				}
				if rapid.Bool().Draw(rt, "closeNow") {
					checkModel(rt, p, b)
					b.Close()
					continue
				}
				live, liveProgs = append(live, b), append(liveProgs, p)
			}
			for i, b := range live {
				checkModel(rt, liveProgs[i], b)
			}
			for _, b := range live {
				b.Close()
			}
			c.NonTrivial(len(distinct) > 1, strings.Join(names, " ; "))
		})
}

// The same long text, split between two clauses at different places: the
// differences are small ones, and powers of two.
func TestC06_LongCollisions(t *testing.T) {
	vh.Run(t, 60, 1500, "2 to 4 SELECT statements of one dialect that write the same text, of up to 1600 bytes and rarely 70000, with the boundary between the columns and the order at different places, also 2^n bytes apart; each has to render as if it was the only one; non-trivial: two different places",
		func(rt *rapid.T, c *vh.Case) {
			// every item takes 4 bytes with the separator
			n, diffs := rapid.IntRange(4, 400).Draw(rt, "items"), []int{1, 16, 32, 64, 128}
			if rapid.IntRange(0, 29).Draw(rt, "long") == 12 {
				n, diffs = 17000, []int{1, 64, 8192, 16384}
			}
			id := rapid.StringMatching("[a-z]{2}").Draw(rt, "item")
			list := func(k int) string { return strings.TrimSuffix(strings.Repeat(id+", ", k), ", ") }
			dialect := rapid.SampledFrom(sqlgen.Dialects).Draw(rt, "dialect")
			at := rapid.IntRange(1, n-1).Draw(rt, "at")
			seen := map[int]bool{}
			var names []string
			for range rapid.IntRange(2, 4).Draw(rt, "statements") {
				p := &sqlgen.Prog{Dialect: dialect, Ops: []sqlgen.Op{
					{Kind: "Select", Text: "x"}, {Kind: "From", Text: "t"}, {Kind: "OrderBy", Strs: []string{"y"}},
					{Kind: "Select", Text: list(at)}, {Kind: "OrderBy", Strs: []string{list(n - at)}}}}
				b := p.Build()
				checkModel(rt, p, b)
				b.Close()
				seen[at] = true
				names = append(names, fmt.Sprint(at, " of ", n))
				d := rapid.SampledFrom(diffs).Draw(rt, "diff")
				if rapid.Bool().Draw(rt, "down") {
					d = -d
				}
				at = 1 + ((at-1+d)%(n-1)+n-1)%(n-1)
			}
			c.NonTrivial(len(seen) > 1, strings.Join(names, " ; "))
		})
}

func mutate(rt *rapid.T, g *sqlgen.Gen, p *sqlgen.Prog) *sqlgen.Prog {
	q := &sqlgen.Prog{Dialect: p.Dialect, Ops: append([]sqlgen.Op(nil), p.Ops...)}
	for range rapid.IntRange(1, 3).Draw(rt, "mutations") {
		if len(q.Ops) < 2 {
			break
		}
		i := rapid.IntRange(1, len(q.Ops)-1).Draw(rt, "at")
		switch rapid.IntRange(0, 5).Draw(rt, "mutation") {
		case 0: // drop
			if dropOK(q.Ops, i) {
				q.Ops = append(q.Ops[:i:i], q.Ops[i+1:]...)
			}
		case 1: // duplicate
			if k := q.Ops[i].Kind; k == "Where" || k == "Select" || k == "OrderBy" || k == "GroupBy" {
				q.Ops = append(q.Ops[:i+1:i+1], q.Ops[i:]...)
			}
		case 2: // swap
			j := rapid.IntRange(1, len(q.Ops)-1).Draw(rt, "with")
			if simple(q.Ops[i].Kind) && simple(q.Ops[j].Kind) && !hasExpr(q.Ops) {
				q.Ops[i], q.Ops[j] = q.Ops[j], q.Ops[i]
			}
		case 3: // other dialect
			q.Dialect = rapid.SampledFrom(sqlgen.Dialects).Draw(rt, "dialect")
		case 4: // split or merge a list
			o := q.Ops[i]
			if o.Kind == "OrderBy" && len(o.Strs) > 0 && strings.Contains(strings.Join(o.Strs, ", "), ", ") {
				parts := strings.SplitN(strings.Join(o.Strs, ", "), ", ", 2)
				first, second := o, o
				first.Strs, second.Strs = []string{parts[0]}, []string{parts[1]}
				q.Ops[i] = first
				q.Ops = append(q.Ops, second)
			}
		case 5: // the text of one clause moves to another one
			o := q.Ops[i]
			if o.Kind == "OrderBy" && len(o.Strs) > 0 && len(o.Strs[0]) > 0 && !hasExpr(q.Ops) {
				parts := strings.SplitN(strings.Join(o.Strs, ", "), ", ", 2)
				if len(parts) == 2 {
					first := o
					first.Strs = []string{parts[0]}
					q.Ops[i] = first
					q.Ops = append(q.Ops[:i+1:i+1], append([]sqlgen.Op{{Kind: "Select", Text: parts[1]}}, q.Ops[i+1:]...)...)
				}
			}
		}
	}
	return q
}

func hasExpr(ops []sqlgen.Op) bool {
	for _, o := range ops {
		switch o.Kind {
		case "Expr", "SubQuery", "Clause", "Union":
			return true
		}
	}
	return false
}

func simple(k string) bool {
	switch k {
	case "Select", "Where", "WhereIn", "OrderBy", "GroupBy", "Having", "Limit", "Offset", "UseNewLines":
		return true
	}
	return false
}

func dropOK(ops []sqlgen.Op, i int) bool {
	if hasExpr(ops) {
		return false
	}
	switch ops[i].Kind {
	case "From":
		return false
	}
	return true
}

func TestC06_Regress(t *testing.T) {
	vh.One(t, "fixed cases: programs which write the same text in another layout", func(c *vh.Case) {
		a := xsql.NoDialect.Select("a").From("t").OrderBy("b").Select("c")
		if want := "SELECT a, c FROM t ORDER BY b"; sqlgen.Norm(a.String()) != want {
			t.Fatalf("got %s, want %s", a.String(), want)
		}
		b := xsql.NoDialect.Select("a").From("t").OrderBy("b, c")
		if want := "SELECT a FROM t ORDER BY b, c"; sqlgen.Norm(b.String()) != want {
			t.Fatalf("got %s, want %s", b.String(), want)
		}
		d := xsql.Postgres.Select("x").From("t").Where("a ?", 1)
		e := xsql.Postgres.Select("x").From("t").Where("a ?")
		if got := sqlgen.Norm(d.String()); got != "SELECT x FROM t WHERE a $1" {
			t.Fatalf("got %s", got)
		}
		_ = e
		a.Close()
		b.Close()
		d.Close()
		e.Close()
		c.NonTrivial(true, "same text")
	})
}

// Random statements, one after another, with other statements alive.
func TestC06_History(t *testing.T) {
	vh.Run(t, 1200, 20000, "histories of up to 12 statements: create, add calls, read, clone, close in random order, all of them interleaved; non-trivial: at least 2 statements alive at once and one closed",
		func(rt *rapid.T, c *vh.Case) {
			g := &sqlgen.Gen{T: rt, Tiny: rapid.Bool().Draw(rt, "tiny")}
			type st struct {
				p *sqlgen.Prog
				b xsql.Builder
				i int
			}
			var live []*st
			maxLive, closed := 0, 0
			var log []string
			for range rapid.IntRange(2, 40).Draw(rt, "steps") {
				a := rapid.IntRange(0, 5).Draw(rt, "action")
				if len(live) == 0 || a == 0 && len(live) < 12 {
					s := &st{p: g.Prog(1)}
					s.b = s.p.Step(nil, 0)
					s.i = 1
					live = append(live, s)
					maxLive = max(maxLive, len(live))
					log = append(log, "new")
					continue
				}
				k := rapid.IntRange(0, len(live)-1).Draw(rt, "which")
				s := live[k]
				done := &sqlgen.Prog{Dialect: s.p.Dialect, Ops: s.p.Ops[:s.i]}
				switch a {
				case 0, 1, 2:
					if s.i < len(s.p.Ops) {
						s.b = s.p.Step(s.b, s.i)
						s.i++
						log = append(log, fmt.Sprint("step", k))
					}
				case 3:
					checkModel(rt, done, s.b)
					log = append(log, fmt.Sprint("read", k))
				case 4:
					live = append(live, &st{p: s.p, b: s.b.Clone(), i: s.i})
					maxLive = max(maxLive, len(live))
					log = append(log, fmt.Sprint("clone", k))
				case 5:
					checkModel(rt, done, s.b)
					s.b.Close()
					closed++
					live = append(live[:k], live[k+1:]...)
					log = append(log, fmt.Sprint("close", k))
				}
			}
			var key []string
			for _, s := range live {
				checkModel(rt, &sqlgen.Prog{Dialect: s.p.Dialect, Ops: s.p.Ops[:s.i]}, s.b)
				s.b.Close()
				key = append(key, s.p.String())
			}
			c.NonTrivial(maxLive >= 2 && closed >= 1, strings.Join(log, ",")+strings.Join(key, ";"))
		})
}

// ---- C07 ----

func TestC07_Clone(t *testing.T) {
	vh.Run(t, 4000, 60000, progRule+"cloned at a random point (and clones of clones), then both sides get further calls, new statements are made, and one side is closed; each side has to render as its own calls say; non-trivial: calls after the clone on either side",
		func(rt *rapid.T, c *vh.Case) {
			g := &sqlgen.Gen{T: rt}
			p := g.Prog(1)
			at := rapid.IntRange(1, len(p.Ops)).Draw(rt, "at")
			var b xsql.Builder
			for i := 0; i < at; i++ {
				b = p.Step(b, i)
			}
			if rapid.Bool().Draw(rt, "readFirst") {
				_ = b.String()
			}
			// statements which leave their state behind in the pool
			for range rapid.IntRange(0, 3).Draw(rt, "noise") {
				nb := g.Prog(0).Build()
				_ = nb.String()
				nb.Close()
			}
			cl := b.Clone()
			pre := &sqlgen.Prog{Dialect: p.Dialect, Ops: p.Ops[:at]}
			if cl.String() != b.String() || !sameArgs(cl.Args(), b.Args()) || !sameArgs(cl.Dest(), b.Dest()) {
				rt.Fatalf("the clone differs\nprogram: %s\n%s %v\n%s %v", pre, b.String(), b.Args(), cl.String(), cl.Args())
			}
			// the calls which the clone gets: those of the same program, or other ones
			tail := p.Ops[at:]
			if rapid.Bool().Draw(rt, "otherTail") {
				o := g.Select(0)
				tail = nil
				for _, op := range o.Ops[1:] {
					switch op.Kind {
					case "Where", "WhereIn", "Limit", "Offset", "Clause", "UseNewLines", "Paginate", "To":
						tail = append(tail, op)
					}
				}
			}
			onClone := &sqlgen.Prog{Dialect: p.Dialect, Ops: append(append([]sqlgen.Op(nil), p.Ops[:at]...), tail...)}
			orig := p
			// interleave the calls of both sides
			i, j := at, at
			for i < len(orig.Ops) || j < len(onClone.Ops) {
				if j >= len(onClone.Ops) || i < len(orig.Ops) && rapid.Bool().Draw(rt, "side") {
					b = orig.Step(b, i)
					i++
				} else {
					cl = onClone.Step(cl, j)
					j++
				}
			}
			var cl2 xsql.Builder
			if rapid.Bool().Draw(rt, "second") {
				cl2 = cl.Clone()
			}
			first := rapid.Bool().Draw(rt, "closeFirst")
			if first {
				checkModel(rt, orig, b)
				b.Close()
				nb := g.Prog(0).Build()
				defer nb.Close()
			}
			checkModel(rt, onClone, cl)
			if !first {
				checkModel(rt, orig, b)
				b.Close()
			}
			if cl2 != nil {
				cl.Close()
				nb := g.Prog(0).Build()
				checkModel(rt, onClone, cl2)
				nb.Close()
				cl2.Close()
			} else {
				cl.Close()
			}
			features(c, p)
			c.NonTrivial(len(p.Ops) > at || len(tail) > 0, fmt.Sprint(at, p, onClone))
		})
}

var nameSeq int

func TestC07_Named(t *testing.T) {
	vh.Run(t, 1000, 20000, "a statement with a name of its own, under which its text is cached, is cloned and the clone gets further calls: the clone has to render as its own calls say, and the original as it did; non-trivial: calls after the clone",
		func(rt *rapid.T, c *vh.Case) {
			g := &sqlgen.Gen{T: rt}
			p := g.Select(1)
			o := g.Select(0)
			var tail []sqlgen.Op
			for _, op := range o.Ops[1:] {
				switch op.Kind {
				case "Where", "WhereIn", "Limit", "Offset", "Clause", "Select", "OrderBy", "To":
					tail = append(tail, op)
				}
			}
			onClone := &sqlgen.Prog{Dialect: p.Dialect, Ops: append(append([]sqlgen.Op(nil), p.Ops...), tail...)}
			nameSeq++
			b := p.Build().SetName(fmt.Sprintf("C07 %d", nameSeq))
			b.Invalidate()
			rendered := rapid.Bool().Draw(rt, "rendered")
			if rendered {
				_ = b.String()
			}
			cl := b.Clone()
			for i := len(p.Ops); i < len(onClone.Ops); i++ {
				cl = onClone.Step(cl, i)
			}
			checkModel(rt, onClone, cl)
			checkModel(rt, p, b)
			cl.Close()
			checkModel(rt, p, b)
			b.Close()
			c.NonTrivial(len(tail) > 0, fmt.Sprint(rendered, p, onClone))
		})
}

func TestC07_NewLines(t *testing.T) {
	vh.Run(t, 500, 5000, "a statement with a new line mode of its own is cloned and both get the same calls; the text has to be the same; non-trivial: always",
		func(rt *rapid.T, c *vh.Case) {
			g := &sqlgen.Gen{T: rt}
			nl := rapid.Bool().Draw(rt, "nl")
			d := rapid.SampledFrom(sqlgen.Dialects).Draw(rt, "d")
			b := d.From("t").UseNewLines(nl)
			cl := b.Clone()
			p := g.Select(0)
			for i := 1; i < len(p.Ops); i++ {
				if p.Ops[i].Kind == "UseNewLines" {
					continue
				}
				if k := p.Ops[i].Kind; strings.HasSuffix(k, "Join") || k == "Expr" {
					continue
				}
				b = sqlgen.ApplyOp(d, b, p.Ops[i])
				cl = sqlgen.ApplyOp(d, cl, p.Ops[i])
			}
			if b.String() != cl.String() {
				rt.Fatalf("the clone has another new line mode\n%q\n%q", b.String(), cl.String())
			}
			b.Close()
			cl.Close()
			c.NonTrivial(true, fmt.Sprint(nl, p))
		})
}

// ---- C09 ----

var uniq int

func TestC09_Named(t *testing.T) {
	vh.Run(t, 2500, 40000, "histories of lookups and named statements over a few fresh names and the three dialects, each (dialect, name) is bound to one random program; model: map of (dialect, name) to SQL; non-trivial: a name is used at least twice and there are two names or dialects",
		func(rt *rapid.T, c *vh.Case) {
			g := &sqlgen.Gen{T: rt, Tiny: rapid.Bool().Draw(rt, "tiny")}
			uniq++
			type key struct {
				d int
				n string
			}
			names := []string{fmt.Sprintf("q%d_a", uniq), fmt.Sprintf("q%d_b", uniq), fmt.Sprintf("q%d", uniq)}
			if rapid.Bool().Draw(rt, "similar") {
				// names which differ a little
				n := fmt.Sprintf("Query%d", uniq)
				all := []string{n, strings.ToLower(n), strings.ToUpper(n), n + " ", " " + n, n + "\n", n + "\x00", n + ".", "\x00" + n, n + "é", n + "e\u0301", n + ":postgres", "default" + n, n + strings.Repeat("x", 300), n + strings.Repeat("x", 301)}
				names = rapid.SliceOfNDistinct(rapid.SampledFrom(all), 2, 4, rapid.ID[string]).Draw(rt, "names")
				c.Class("similar names")
			}
			progs := map[key]*sqlgen.Prog{}
			model := map[key]string{}
			uses := map[key]int{}
			// texts which do not come from the program
			fixed := map[key]string{}
			same := func(k key, a, b string) bool {
				if _, ok := fixed[k]; ok {
					return a == b
				}
				return sqlgen.Norm(a) == sqlgen.Norm(b)
			}
			var log []string
			for range rapid.IntRange(2, 16).Draw(rt, "steps") {
				k := key{rapid.IntRange(0, 2).Draw(rt, "d"), rapid.SampledFrom(names).Draw(rt, "name")}
				d := sqlgen.Dialects[k.d]
				p := progs[k]
				if p == nil {
					p = g.Prog(1)
					p.Dialect = d
					progs[k] = p
				}
				want := p.Model().Render(d)
				act := rapid.IntRange(0, 5).Draw(rt, "act")
				log = append(log, fmt.Sprint(act, k))
				if act == 5 { // a text is put under the name
					text := rapid.SampledFrom([]string{"", " ", "SELECT 1", "?", fmt.Sprint("text ", uniq)}).Draw(rt, "text")
					d.PutCachedQuery(k.n, text)
					fixed[k], model[k] = text, text
					uses[k]++
					continue
				}
				if text, ok := fixed[k]; ok {
					want = text
				}
				switch act {
				case 0: // lookup
					got, ok := d.GetCachedQuery(k.n)
					w, wok := model[k]
					if ok != wok || !same(k, got, w) {
						rt.Fatalf("lookup of %v: %q %v, expected %q %v", k, got, ok, w, wok)
					}
				case 1: // get or create
					called := 0
					got, gotName := d.GetOrCreateQuery(k.n, func(n string) xsql.Builder {
						called++
						if n != k.n {
							rt.Fatalf("create is called with %q, expected %q", n, k.n)
						}
						return p.Build()
					})
					_, had := model[k]
					if gotName != k.n || !same(k, got, want) {
						rt.Fatalf("get or create of %v: %q %q, expected %q", k, got, gotName, want)
					}
					if had && called != 0 || !had && called != 1 {
						rt.Fatalf("create of %v is called %d times, was cached: %v", k, called, had)
					}
					model[k] = want
				case 2: // get or create, where create has rendered the statement already, or given it a name
					got, _ := d.GetOrCreateQuery(k.n, func(string) xsql.Builder {
						b := p.Build()
						if rapid.Bool().Draw(rt, "otherName") {
							b.SetName("other " + k.n)
							b.Invalidate()
						}
						if rapid.IntRange(0, 2).Draw(rt, "rendered") > 0 {
							_ = b.String()
						}
						return b
					})
					if !same(k, got, want) {
						rt.Fatalf("get or create of %v: %q, expected %q", k, got, want)
					}
					model[k] = want
				case 3: // named statement
					b := p.Build().SetName(k.n)
					if b.Name() != k.n {
						rt.Fatalf("name %q, expected %q", b.Name(), k.n)
					}
					b.Invalidate()
					if got := b.String(); !same(k, got, want) {
						rt.Fatalf("statement %v: %q, expected %q", k, got, want)
					}
					b.Close()
					model[k] = want
				case 4: // an unnamed statement with the same text does not see the names
					b := p.Build()
					checkModel(rt, p, b)
					b.Close()
				}
				uses[k]++
				// names do not leak to others
				for _, n := range names {
					for di, dd := range sqlgen.Dialects {
						got, ok := dd.GetCachedQuery(n)
						w, wok := model[key{di, n}]
						if ok != wok || !same(key{di, n}, got, w) {
							rt.Fatalf("after %v: cache of %s[%s] is %q %v, expected %q %v", log, dd.Provider(), n, got, ok, w, wok)
						}
					}
				}
			}
			twice := false
			for _, n := range uses {
				twice = twice || n > 1
			}
			var ps []string
			for k, p := range progs {
				ps = append(ps, fmt.Sprint(k, p))
			}
			c.NonTrivial(twice && len(uses) > 1, strings.Join(log, ",")+fmt.Sprint(len(ps)))
		})
}
