package sch

import (
	"database/sql"
	"fmt"
	"maps"
	"reflect"
	"slices"
	"strings"
	"testing"

	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/schema"
	"github.com/effective-security/xdb/xsql"
	_ "github.com/mattn/go-sqlite3"
	"pgregory.net/rapid"
)

func TestC35_Info(t *testing.T) {
	db, err := sql.Open("sqlite3", ":memory:")
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	defer db.Close()
	db.SetMaxOpenConns(1)
	n := 0
	vh.Run(t, 1500, 40000, "a table description with up to 8 columns whose names are prefixes of each other, and a history of up to 8 calls (all columns, prefixed columns with NULL for a random set which may have unknown names, select, aliased select, insert, update, delete) on it and a copy; the lists are compared with the model, and the statements run in SQLite against a table with one row of known values, next to a decoy table; non-trivial: a prefix, a replaced column and an earlier call",
		func(rt *rapid.T, c *vh.Case) {
			pool := []string{"id", "i", "d", "id2", "a", "ab", "A1", "name", "name_id", "org_id", "created_at", "null_x", "c1", "c11"}
			nc := rapid.IntRange(1, 8).Draw(rt, "n")
			if rapid.IntRange(0, 63).Draw(rt, "wide") == 17 {
				nc = rapid.SampledFrom([]int{20, 40, 70, 140, 270}).Draw(rt, "n")
				for i := range nc {
					pool = append(pool, fmt.Sprintf("w_%d", i))
				}
			}
			cols := rapid.Permutation(pool).Draw(rt, "columns")[:nc]
			n++
			tn := rapid.SampledFrom([]string{"t", "users", "Orders"}).Draw(rt, "table")
			exec := func(q string, args ...any) {
				if _, err := db.Exec(q, args...); err != nil {
					vh.Harness(rt, "%s: %v", q, err)
				}
			}
			defer func() {
				_, _ = db.Exec("DROP TABLE IF EXISTS " + tn)
				_, _ = db.Exec("DROP TABLE IF EXISTS decoy")
			}()
			var marks []string
			var vals []any
			for _, cn := range cols {
				marks = append(marks, "?")
				vals = append(vals, "v "+cn)
			}
			fill := func() {
				for _, x := range []string{tn, "decoy"} {
					exec("DROP TABLE IF EXISTS " + x)
					exec("CREATE TABLE " + x + " (" + strings.Join(cols, ", ") + ")")
				}
				exec("INSERT INTO "+tn+" VALUES ("+strings.Join(marks, ",")+")", vals...)
			}
			fill()
			dialect := rapid.SampledFrom([]xsql.SQLDialect{xsql.Postgres, xsql.SQLServer, xsql.NoDialect}).Draw(rt, "dialect")
			// the qualified name is used as it is
			full := rapid.SampledFrom([]string{"main." + tn, "main." + tn, `"main"."` + tn + `"`, "[main].[" + tn + "]", tn}).Draw(rt, "qualified name")
			info := &schema.TableInfo{Schema: rapid.SampledFrom([]string{"main", "main", "", "nope"}).Draw(rt, "schema"), Name: tn, SchemaName: full, PrimaryKey: cols[0],
				Columns: slices.Clone(cols), Indexes: []string{"x"}, Dialect: dialect}
			keep := *info
			keep.Columns = slices.Clone(info.Columns)
			other := &schema.TableInfo{Schema: "main", Name: "decoy", SchemaName: "main.decoy", Columns: []string{cols[0]}, Dialect: dialect}
			key := ""
			earlier, replaced := false, false
			query := func(b xsql.Builder) (names []string, row []any) {
				rows, err := db.Query(b.String(), b.Args()...)
				if err != nil {
					rt.Fatalf("%s: %v", b.String(), err)
				}
				defer rows.Close()
				names, _ = rows.Columns()
				count := 0
				for rows.Next() {
					row = make([]any, len(names))
					p := make([]any, len(names))
					for i := range row {
						p[i] = &row[i]
					}
					if err := rows.Scan(p...); err != nil {
						vh.Harness(rt, "%v", err)
					}
					count++
				}
				if err := rows.Err(); err != nil || count != 1 {
					rt.Fatalf("%s: %d rows, %v", b.String(), count, err)
				}
				return names, row
			}
			rowOf := func(tab string) []any {
				row := make([]any, len(cols))
				p := make([]any, len(cols))
				for i := range row {
					p[i] = &row[i]
				}
				if err := db.QueryRow("SELECT * FROM " + tab).Scan(p...); err != nil {
					return nil
				}
				return row
			}
			for range rapid.IntRange(1, 8).Draw(rt, "calls") {
				prefix := rapid.SampledFrom([]string{"", "a", "x", "id", tn}).Draw(rt, "prefix")
				var nulls map[string]bool
				if rapid.IntRange(0, 4).Draw(rt, "nulls") > 0 {
					nulls = map[string]bool{}
					for _, cn := range rapid.SliceOfN(rapid.SampledFrom(pool), 0, 4).Draw(rt, "null") {
						nulls[cn] = rapid.IntRange(0, 3).Draw(rt, "value") > 0
					}
				}
				before := maps.Clone(nulls)
				var wantList []string
				var wantRow []any
				for i, cn := range cols {
					switch {
					case nulls[cn]:
						wantList = append(wantList, "NULL")
						wantRow = append(wantRow, nil)
						replaced = replaced || prefix != "" && earlier
					case prefix != "":
						wantList = append(wantList, prefix+"."+cn)
						wantRow = append(wantRow, vals[i])
					default:
						wantList = append(wantList, cn)
						wantRow = append(wantRow, vals[i])
					}
				}
				split := func(s string) []string {
					l := strings.Split(s, ",")
					for i := range l {
						l[i] = strings.TrimSpace(l[i])
					}
					return l
				}
				call := rapid.SampledFrom([]string{"all", "aliased", "aliased", "select", "select some", "select aliased", "select aliased", "insert", "update", "delete", "from", "other"}).Draw(rt, "call")
				key += fmt.Sprintf("%s %s %v; ", call, prefix, nulls)
				switch call {
				case "all":
					if got := split(info.AllColumns()); !slices.Equal(got, cols) {
						rt.Fatalf("all columns of %q: %q", cols, got)
					}
				case "aliased":
					if got := split(info.AliasedColumns(prefix, nulls)); !slices.Equal(got, wantList) {
						rt.Fatalf("columns %q with the prefix %q and NULL for %v: %q after %s", cols, prefix, nulls, got, key)
					}
				case "other":
					_ = other.AllColumns()
					_ = other.AliasedColumns(prefix, nulls)
				case "select":
					b := info.Select()
					if names, row := query(b); !slices.Equal(names, cols) || !reflect.DeepEqual(row, vals) {
						rt.Fatalf("%s returns %q %v", b.String(), names, row)
					}
				case "select some":
					some := rapid.SliceOfN(rapid.SampledFrom(cols), 1, 4).Draw(rt, "some")
					b := info.Select(some...)
					var want []any
					for _, cn := range some {
						want = append(want, "v "+cn)
					}
					if names, row := query(b); !slices.Equal(names, some) || !reflect.DeepEqual(row, want) {
						rt.Fatalf("select of %q: %s returns %q %v", some, b.String(), names, row)
					}
				case "select aliased":
					b := info.SelectAliased(prefix, nulls)
					if _, row := query(b); !reflect.DeepEqual(row, wantRow) {
						rt.Fatalf("%s returns %v, want %v", b.String(), row, wantRow)
					}
				case "from":
					b := info.From().Select(cols[0])
					if _, row := query(b); !reflect.DeepEqual(row, vals[:1]) {
						rt.Fatalf("%s returns %v", b.String(), row)
					}
				case "insert":
					exec("DELETE FROM " + tn)
					b := info.InsertInto()
					for i, cn := range cols {
						b.Set(cn, vals[i])
					}
					if _, err := db.Exec(b.String(), b.Args()...); err != nil {
						rt.Fatalf("%s: %v", b.String(), err)
					}
					if row := rowOf(tn); !reflect.DeepEqual(row, vals) {
						rt.Fatalf("%s made the row %v", b.String(), row)
					}
				case "update":
					b := info.Update().Set(cols[0], "new").Where(cols[0]+" = ?", vals[0])
					if _, err := db.Exec(b.String(), b.Args()...); err != nil {
						rt.Fatalf("%s: %v", b.String(), err)
					}
					want := append([]any{"new"}, vals[1:]...)
					if row := rowOf(tn); !reflect.DeepEqual(row, want) {
						rt.Fatalf("%s made the row %v", b.String(), row)
					}
					fill()
				case "delete":
					exec("INSERT INTO decoy SELECT * FROM " + tn)
					b := info.DeleteFrom().Where(cols[0]+" = ?", vals[0])
					if _, err := db.Exec(b.String(), b.Args()...); err != nil {
						rt.Fatalf("%s: %v", b.String(), err)
					}
					if rowOf(tn) != nil || rowOf("decoy") == nil {
						rt.Fatalf("%s left %v, and %v in the other table", b.String(), rowOf(tn), rowOf("decoy"))
					}
					fill()
				}
				if !maps.Equal(before, nulls) {
					rt.Fatalf("%s changed the set of columns to replace", call)
				}
				if info.Schema != keep.Schema || info.Name != keep.Name || info.SchemaName != keep.SchemaName || info.PrimaryKey != keep.PrimaryKey || !slices.Equal(info.Columns, keep.Columns) {
					rt.Fatalf("%s changed the description", call)
				}
				earlier = true
			}
			c.ClassIf(replaced, "a replaced column after an earlier call")
			c.NonTrivial(replaced, fmt.Sprintf("%q %s", cols, key))
		})
}

func TestC35_Keys(t *testing.T) {
	vh.Run(t, 3000, 60000, "random tables with columns, indexes and foreign keys; names, qualified names, key and index membership and tags are compared with the objects, and the tag is parsed as Go parses tags; non-trivial: a column with an index or a key",
		func(rt *rapid.T, c *vh.Case) {
			tb := drawTable(rt)
			var names, inames []string
			indexed := false
			for _, x := range tb.Columns {
				names = append(names, x.Name)
				primary := false
				for _, i := range x.Indexes {
					primary = primary || i.IsPrimary
				}
				if x.IsIndex() != (len(x.Indexes) > 0) || x.IsPrimary() != primary {
					rt.Fatalf("column %+v: index %v, primary %v", *x, x.IsIndex(), x.IsPrimary())
				}
				indexed = indexed || len(x.Indexes) > 0 || x.Ref != nil
				// the tag
				tag, ok := reflect.StructTag(x.Tag()).Lookup("db")
				typ := x.UdtType
				if typ == "" {
					typ = x.Type
				}
				want := x.Name + "," + typ
				if x.MaxLength > 0 {
					want += fmt.Sprintf(",max:%d", x.MaxLength)
				}
				if x.Nullable {
					want += ",null"
				}
				if len(x.Indexes) > 0 {
					want += ",index"
				}
				if primary {
					want += ",primary"
				}
				if x.Ref != nil {
					want += ",fk:" + x.Ref.RefSchema + "." + x.Ref.RefTable + "." + x.Ref.RefColumn
				}
				if !ok || tag != want {
					rt.Fatalf("column %+v has the tag %s\nread as %q, want %q", *x, x.Tag(), tag, want)
				}
				if js, ok := reflect.StructTag(x.Tag()).Lookup("json"); !ok || js != ",omitempty" {
					rt.Fatalf("column %+v has the tag %s\nread as JSON %q", *x, x.Tag(), js)
				}
			}
			for _, x := range tb.Indexes {
				inames = append(inames, x.Name)
			}
			if !slices.Equal(tb.Columns.Names(), names) || !slices.Equal(tb.Indexes.Names(), inames) {
				rt.Fatalf("names are %q and %q, want %q and %q", tb.Columns.Names(), tb.Indexes.Names(), names, inames)
			}
			pk := ""
			if tb.PrimaryKey != nil {
				pk = tb.PrimaryKey.Name
			}
			var none *schema.Table
			if tb.PrimaryKeyName() != pk || none.PrimaryKeyName() != "" {
				rt.Fatalf("primary key %q, want %q", tb.PrimaryKeyName(), pk)
			}
			k := drawFK(rt)
			var nokey *schema.ForeignKey
			if k.ColumnSchemaName() != k.Schema+"."+k.Table+"."+k.Column || k.RefColumnSchemaName() != k.RefSchema+"."+k.RefTable+"."+k.RefColumn ||
				nokey.ColumnSchemaName() != "" || nokey.RefColumnSchemaName() != "" {
				rt.Fatalf("%+v: %q %q", *k, k.ColumnSchemaName(), k.RefColumnSchemaName())
			}
			c.NonTrivial(indexed, fmt.Sprintf("%v %+v", plain(schema.Tables{tb}), *k))
		})
}

func TestC35_Lists(t *testing.T) {
	vh.Run(t, 3000, 60000, "a description with up to 8 columns of any names (dots, quotes, spaces, keywords, other letters, repeated parts), any prefix, and any set of columns to replace; the lists and the select lists of the statements are compared with the model; non-trivial: a prefix and a replaced column",
		func(rt *rapid.T, c *vh.Case) {
			name := rapid.OneOf(
				rapid.SampledFrom([]string{"a", "b", "a.b", "a.a", "b.a", "NULL", "null", "*", "x", "t.id", `"a"`, `"a.b"`, "[a]", "`a`", "AS", "a AS b", "A", "count(*)", "日本", "a\"b", "%s", "%d", "$1", "a;b", "_", "c:d"}),
				rapid.StringOfN(rapid.RuneFrom([]rune("abAB_.\"[]x1é")), 1, 5, -1))
			cols := rapid.SliceOfNDistinct(name, 0, 8, rapid.ID[string]).Draw(rt, "columns")
			prefix := rapid.OneOf(rapid.Just(""), name).Draw(rt, "prefix")
			nulls := map[string]bool{}
			for _, cn := range rapid.SliceOfN(rapid.OneOf(name, rapid.SampledFrom(append([]string{"a"}, cols...))), 0, 5).Draw(rt, "null") {
				nulls[cn] = rapid.IntRange(0, 3).Draw(rt, "value") > 0
			}
			if rapid.IntRange(0, 9).Draw(rt, "nil") == 0 {
				nulls = nil
			}
			info := &schema.TableInfo{Schema: "s", Name: "t", SchemaName: "s.t", Columns: slices.Clone(cols), Dialect: xsql.NoDialect}
			// white space around commas has no meaning
			squeeze := func(s string) string {
				for _, x := range []string{", ", " ,"} {
					for strings.Contains(s, x) {
						s = strings.ReplaceAll(s, x, ",")
					}
				}
				return strings.TrimSpace(s)
			}
			var want []string
			replaced := false
			for _, cn := range cols {
				switch {
				case nulls[cn]:
					want = append(want, "NULL")
					replaced = true
				case prefix != "":
					want = append(want, prefix+"."+cn)
				default:
					want = append(want, cn)
				}
			}
			if got := squeeze(info.AllColumns()); got != strings.Join(cols, ",") {
				rt.Fatalf("all columns of %q: %q", cols, got)
			}
			if got := squeeze(info.AliasedColumns(prefix, nulls)); got != strings.Join(want, ",") {
				rt.Fatalf("columns %q with the prefix %q and NULL for %v: %q, want %q", cols, prefix, nulls, got, want)
			}
			if len(cols) > 0 {
				b := info.SelectAliased(prefix, nulls)
				got := squeeze(strings.ReplaceAll(b.String(), "\n", " "))
				tn := "s.t"
				if prefix != "" {
					tn += " " + prefix
				}
				if exp := "SELECT " + strings.Join(want, ",") + " FROM " + tn; strings.Join(strings.Fields(got), " ") != strings.Join(strings.Fields(exp), " ") {
					rt.Fatalf("select of %q with the prefix %q and NULL for %v: %q, want %q", cols, prefix, nulls, got, exp)
				}
				b.Close()
			}
			if !slices.Equal(info.Columns, cols) {
				rt.Fatalf("the description has the columns %q, had %q", info.Columns, cols)
			}
			c.NonTrivial(replaced && prefix != "", fmt.Sprintf("%q %q %v", cols, prefix, nulls))
		})
}
