package sch

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/effective-security/xdb/internal/verif/fakedb"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/schema"
	sqlite3 "github.com/mattn/go-sqlite3"
	"pgregory.net/rapid"
)

// The catalog of a database server: what it contains, its system tables in
// SQLite, and what a listing of it should return.

type col struct {
	name, typ, udt string
	nullable       bool
	maxLen         *int
	pos            int
}

type index struct {
	name            string
	primary, unique bool
	cols            []string // in the order of the key
}

type rel struct {
	schema, name string
	kind         string // table, foreign, view, system, shipped, tools
	cols         []col
	idx          []index
	oid          int
	parted       bool // a partitioned table of Postgres
}

type fkey struct {
	name, schema, table   string
	cols                  []string
	refSchema, refTable   string
	refCols               []string
	uniqueName            string // the constraint it refers to
	oid, tabOID, reOID, _ int
}

type catalog struct {
	ms   bool
	rels []*rel
	fks  []*fkey
	db   *sql.DB
	// translated queries, and those answered from the model because SQLite can not run them
	ran, fallback atomic.Int64
}

var schemaNames = []string{"public", "app", "App", "dbo", "o'neil", "my schema", `q"s`, "a.b", "日本", "pgbench", "information", "sysdata", "x"}
var relNames = []string{"users", "Users", "orders", "org", "o'brien", "x' OR '1'='1", "it''s", `q"t`, "sp ace", "semi;colon", "a.b", "b", "50%", `back\slash`, "select", "日本", "users_pkey", "[br]", "c--d", "$1", "@table", "pg_users", "sysdiagrams", "pg_catalog2", "_x", " lead", "trail "}
var colNames = []string{"id", "name", "Name", "org_id", "o'c", "sp ace", `q"c`, "日本", "type", "a.b", "x1", "x2", "count", "é", " lead", "trail "}

var pgTypes = [][2]string{{"bigint", "int8"}, {"character varying", "varchar"}, {"text", "text"}, {"timestamp with time zone", "timestamptz"}, {"ARRAY", "_text"}, {"USER-DEFINED", "mood"}, {"numeric", "numeric"}, {"boolean", "bool"}}
var msTypes = []string{"bigint", "nvarchar", "varchar", "varbinary", "bit", "datetime2", "decimal", "uniqueidentifier"}

// dense: mostly tables with keys, for many foreign keys
func drawCatalog(t *rapid.T, ms, dense bool) *catalog {
	c := &catalog{ms: ms}
	oid := 1000
	next := func() int { oid += 1 + oid%3; return oid }
	names := func(pool []string) []string {
		// SQL Server compares names regardless of case
		p := rapid.Permutation(pool).Draw(t, "names")
		if ms {
			var r []string
			for _, n := range p {
				if !slices.ContainsFunc(r, func(x string) bool { return strings.EqualFold(x, n) }) {
					r = append(r, n)
				}
			}
			return r
		}
		return p
	}
	schemas := names(schemaNames)[:rapid.IntRange(1, 3).Draw(t, "schemas")]
	pool := relNames
	if rapid.IntRange(0, 3).Draw(t, "same names") == 0 {
		pool = []string{"users", "Users", "USERS", "uSers", "users "}
	}
	tn := names(pool)
	tnames := tn[:rapid.IntRange(1, min(5, len(tn))).Draw(t, "tables")]
	for _, s := range schemas {
		for _, n := range tnames {
			if rapid.IntRange(0, 4).Draw(t, "absent") == 0 {
				continue
			}
			kinds := []string{"table", "table", "table", "table", "view", "foreign"}
			if ms {
				kinds = []string{"table", "table", "table", "table", "view", "shipped", "tools"}
			}
			if dense {
				kinds = append(kinds, "table", "table", "table", "table", "table", "table", "table", "table")
			}
			r := &rel{schema: s, name: n, kind: rapid.SampledFrom(kinds).Draw(t, "kind"), oid: next()}
			r.parted = !ms && r.kind == "table" && rapid.IntRange(0, 3).Draw(t, "partitioned") == 0
			least := 1
			if !ms && r.kind != "foreign" {
				least = 0 // Postgres has relations without columns
			}
			nc := rapid.IntRange(least, 6).Draw(t, "columns")
			if nc == 0 && rapid.Bool().Draw(t, "some") {
				nc = 1
			}
			pos := 0
			colNames := names(colNames)[:nc]
			if nc > 0 && rapid.IntRange(0, 63).Draw(t, "wide") == 5 {
				for i := range rapid.IntRange(60, 300).Draw(t, "wideColumns") {
					colNames = append(colNames, fmt.Sprintf("wide_%d", i))
				}
			}
			for i, cn := range colNames {
				if i > 20 {
					pos++
					r.cols = append(r.cols, col{name: cn, pos: pos, typ: r.cols[0].typ, udt: r.cols[0].udt, nullable: i%3 == 0})
					continue
				}
				pos += rapid.SampledFrom([]int{1, 1, 1, 1, 2, 2, 7, 7, 256, 700}).Draw(t, "gap")
				cl := col{name: cn, nullable: rapid.Bool().Draw(t, "null"), pos: pos}
				if ms {
					cl.typ = rapid.SampledFrom(msTypes).Draw(t, "type")
					cl.udt = cl.typ
				} else {
					ty := rapid.SampledFrom(pgTypes).Draw(t, "type")
					cl.typ, cl.udt = ty[0], ty[1]
				}
				switch rapid.IntRange(0, 3).Draw(t, "len") {
				case 0:
					l := rapid.SampledFrom([]int{1, 64, 4000, 65537, 10485760, 2147483647}).Draw(t, "max")
					cl.maxLen = &l
				case 1:
					if ms {
						l := -1 // (max)
						cl.maxLen = &l
					}
				}
				r.cols = append(r.cols, cl)
			}
			if (r.kind == "table" || r.kind == "tools" || r.kind == "shipped") && len(r.cols) > 0 {
				least := 0
				if dense {
					least = 1
				}
				ni := rapid.IntRange(least, 3).Draw(t, "indexes")
				if rapid.IntRange(0, 127).Draw(t, "many indexes") == 50 {
					ni = rapid.IntRange(10, 70).Draw(t, "indexes")
				}
				for i := range ni {
					ix := index{name: fmt.Sprintf("%s_%d_idx", n, i), unique: rapid.Bool().Draw(t, "unique")}
					if i == 0 && rapid.IntRange(0, 3).Draw(t, "pk") > 0 {
						ix = index{name: n + "_pkey", primary: true, unique: true}
					}
					k := rapid.OneOf(rapid.IntRange(1, min(3, len(r.cols))), rapid.IntRange(1, min(32, len(r.cols)))).Draw(t, "keys")
					for _, j := range rapid.Permutation(seq(len(r.cols))).Draw(t, "key")[:k] {
						ix.cols = append(ix.cols, r.cols[j].name)
					}
					r.idx = append(r.idx, ix)
				}
			}
			c.rels = append(c.rels, r)
		}
	}
	if !ms {
		for _, s := range []string{"pg_catalog", "information_schema"} {
			kind := rapid.SampledFrom([]string{"system", "systemview"}).Draw(t, "kind")
			c.rels = append(c.rels, &rel{schema: s, name: rapid.SampledFrom(relNames).Draw(t, "sys"), kind: kind, oid: next(),
				cols: []col{{name: "id", typ: "bigint", udt: "int8", pos: 1}}})
		}
	}
	// foreign keys
	tabs := c.tables()
	used := map[string]bool{}
	least := 0
	if dense {
		least = len(tabs)
	}
	refs := slices.Clone(tabs)
	for _, r := range c.rels {
		if r.kind == "tools" || r.kind == "shipped" {
			refs = append(refs, r)
		}
	}
	for range rapid.IntRange(least, 2*len(tabs)).Draw(t, "fkeys") {
		a := rapid.SampledFrom(tabs).Draw(t, "from")
		b := rapid.SampledFrom(refs).Draw(t, "to")
		if a.kind != "table" || b.kind == "foreign" {
			continue
		}
		var keys []index
		for _, ix := range b.idx {
			if ix.unique && len(ix.cols) <= len(a.cols) {
				keys = append(keys, ix)
			}
		}
		if len(keys) == 0 {
			continue
		}
		key := rapid.SampledFrom(keys).Draw(t, "key")
		f := &fkey{schema: a.schema, table: a.name, refSchema: b.schema, refTable: b.name, uniqueName: key.name, oid: next(), tabOID: a.oid, reOID: b.oid}
		for _, j := range rapid.Permutation(seq(len(key.cols))).Draw(t, "order") {
			f.refCols = append(f.refCols, key.cols[j])
		}
		for _, j := range rapid.Permutation(seq(len(a.cols))).Draw(t, "cols")[:len(f.refCols)] {
			f.cols = append(f.cols, a.cols[j].name)
		}
		f.name = rapid.SampledFrom([]string{"fk_1", "fk_2", "fk_user", "fk'q", ""}).Draw(t, "name")
		if f.name == "" {
			f.name = a.name + "_fkey"
		}
		// Postgres: unique in the table, SQL Server: in the schema
		where := a.schema + "\x00" + a.name
		if ms {
			where = a.schema
		}
		for i := 1; used[where+"\x00"+strings.ToLower(f.name)]; i++ {
			f.name = fmt.Sprintf("fk_%d", i+2)
		}
		used[where+"\x00"+strings.ToLower(f.name)] = true
		c.fks = append(c.fks, f)
	}
	if rapid.IntRange(0, 63).Draw(t, "chain") == 5 {
		// a long way from the first table to the last
		n := rapid.IntRange(20, 90).Draw(t, "chainTables")
		if rapid.IntRange(0, 7).Draw(t, "longer") == 3 {
			n = rapid.IntRange(140, 300).Draw(t, "chainTables")
		}
		cycle := rapid.Bool().Draw(t, "cycle")
		typ := pgTypes[0]
		if ms {
			typ = [2]string{"bigint", "bigint"}
		}
		var ch []*rel
		for i := range n {
			name := fmt.Sprintf("chain_%d", i)
			ch = append(ch, &rel{schema: schemas[i%len(schemas)], name: name, kind: "table", oid: next(),
				cols: []col{{name: "id", typ: typ[0], udt: typ[1], pos: 1}, {name: "next_id", typ: typ[0], udt: typ[1], pos: 2, nullable: true}},
				idx:  []index{{name: name + "_pkey", primary: true, unique: true, cols: []string{"id"}}}})
		}
		for i, a := range ch {
			if i == n-1 && !cycle {
				break
			}
			b := ch[(i+1)%n]
			c.fks = append(c.fks, &fkey{name: a.name + "_fkey", schema: a.schema, table: a.name, cols: []string{"next_id"},
				refSchema: b.schema, refTable: b.name, refCols: []string{"id"}, uniqueName: b.idx[0].name, oid: next(), tabOID: a.oid, reOID: b.oid})
		}
		for _, i := range rapid.Permutation(seq(n)).Draw(t, "chainOrder") {
			c.rels = append(c.rels, ch[i])
		}
	}
	return c
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// tables are the relations a listing of tables shows.
func (c *catalog) tables() []*rel {
	var r []*rel
	for _, x := range c.rels {
		if x.kind == "table" || x.kind == "foreign" {
			r = append(r, x)
		}
	}
	return r
}

func (c *catalog) views() []*rel {
	var r []*rel
	for _, x := range c.rels {
		if x.kind == "view" {
			r = append(r, x)
		}
	}
	return r
}

func (c *catalog) find(schema, name string) *rel {
	for _, r := range c.rels {
		if r.schema == schema && r.name == name {
			return r
		}
	}
	return nil
}

func (r *rel) colPos(name string) int {
	for _, c := range r.cols {
		if c.name == name {
			return c.pos
		}
	}
	return 0
}

// ---- the system tables in SQLite ----

type arrayAgg struct{ parts []string }

func (a *arrayAgg) Step(v string) { a.parts = append(a.parts, v) }
func (a *arrayAgg) Done() string  { return strings.Join(a.parts, " ") }

// arrays are texts with spaces; an element has none
func enc(s string) string { return strings.NewReplacer("\x01", "\x01a", " ", "\x01b").Replace(s) }
func dec(s string) string { return strings.NewReplacer("\x01b", " ", "\x01a", "\x01").Replace(s) }

var current *catalog

func init() {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	sql.Register("sqlite3_catalog", &sqlite3.SQLiteDriver{ConnectHook: func(c *sqlite3.SQLiteConn) error {
		must(c.RegisterAggregator("array_agg", func() *arrayAgg { return &arrayAgg{} }, true))
		must(c.RegisterFunc("array_to_string", func(a, sep string) string {
			parts := strings.Fields(a)
			for i := range parts {
				parts[i] = dec(parts[i])
			}
			return strings.Join(parts, sep)
		}, true))
		must(c.RegisterFunc("arr_enc", enc, true))
		must(c.RegisterFunc("any_eq", func(x, a any) bool {
			text := fmt.Sprint(a)
			list := strings.Fields(text)
			if strings.HasPrefix(text, "{") && strings.HasSuffix(text, "}") {
				list = strings.Split(text[1:len(text)-1], ",")
			}
			return slices.Contains(list, fmt.Sprint(x))
		}, true))
		must(c.RegisterFunc("array_position", func(a string, x int64) int64 {
			return int64(slices.Index(strings.Fields(a), strconv.FormatInt(x, 10)) + 1)
		}, true))
		must(c.RegisterFunc("arr_at", func(a string, i int64) int64 {
			f := strings.Fields(a)
			if i < 1 || int(i) > len(f) {
				return -1
			}
			n, _ := strconv.ParseInt(f[i-1], 10, 64)
			return n
		}, true))
		must(c.RegisterFunc("len", func(s string) int64 { return int64(len([]rune(s))) }, true))
		must(c.RegisterFunc("quotename", func(s string) string { return "[" + strings.ReplaceAll(s, "]", "]]") + "]" }, true))
		must(c.RegisterFunc("schema_name", func(id int64) string { return current.schemaName(int(id)) }, false))
		must(c.RegisterFunc("schema_id", func(name string) int64 { return int64(current.schemaID(name)) }, false))
		must(c.RegisterFunc("object_id", func(name string) int64 {
			for _, r := range current.rels {
				q := "[" + strings.ReplaceAll(r.schema, "]", "]]") + "].[" + strings.ReplaceAll(r.name, "]", "]]") + "]"
				if name == q || name == r.schema+"."+r.name {
					return int64(r.oid)
				}
			}
			return -1
		}, false))
		must(c.RegisterFunc("object_name", func(id int64) string {
			for _, r := range current.rels {
				if r.oid == int(id) {
					return r.name
				}
			}
			return ""
		}, false))
		must(c.RegisterFunc("object_schema_name", func(id int64) string {
			for _, r := range current.rels {
				if r.oid == int(id) {
					return r.schema
				}
			}
			return ""
		}, false))
		return nil
	}})
}

func (c *catalog) schemas() []string {
	var r []string
	for _, x := range c.rels {
		if !slices.Contains(r, x.schema) {
			r = append(r, x.schema)
		}
	}
	sort.Strings(r)
	return r
}

func (c *catalog) schemaID(name string) int {
	for i, s := range c.schemas() {
		if s == name || c.ms && strings.EqualFold(s, name) {
			return 5 + i
		}
	}
	return -1
}

func (c *catalog) schemaName(id int) string {
	s := c.schemas()
	if id < 5 || id >= 5+len(s) {
		return ""
	}
	return s[id-5]
}

type filler struct {
	t   *rapid.T
	db  *sql.DB
	tab map[string][][]any
	ord []string
	// bits for pick
	pool uint64
}

func (f *filler) table(name, cols string) {
	if _, err := f.db.Exec("CREATE TABLE " + name + " (" + cols + ")"); err != nil {
		vh.Harness(f.t, "%s: %v", name, err)
	}
	f.ord = append(f.ord, name)
}

func (f *filler) add(table string, vals ...any) { f.tab[table] = append(f.tab[table], vals) }

// pick draws one of two values, mostly the first.
func (f *filler) pick(a, b any) any {
	if f.pool == 0 {
		f.pool = rapid.Uint64Range(1<<32, 1<<63).Draw(f.t, "attributes")
	}
	v := f.pool & 3
	f.pool >>= 2
	if v == 3 {
		return b
	}
	return a
}

// flush inserts the rows, in some order.
func (f *filler) flush() {
	for _, name := range f.ord {
		rows := f.tab[name]
		if len(rows) == 0 {
			continue
		}
		for _, i := range rapid.Permutation(seq(len(rows))).Draw(f.t, "rows") {
			v := rows[i]
			if _, err := f.db.Exec("INSERT INTO "+name+" VALUES ("+strings.TrimSuffix(strings.Repeat("?,", len(v)), ",")+")", v...); err != nil {
				vh.Harness(f.t, "%s: %v", name, err)
			}
		}
	}
}

// load writes the system tables.
func (c *catalog) load(t *rapid.T) {
	db, err := sql.Open("sqlite3_catalog", ":memory:")
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	db.SetMaxOpenConns(1)
	db.SetMaxIdleConns(1)
	db.SetConnMaxLifetime(0)
	c.db = db
	current = c
	f := &filler{t: t, db: db, tab: map[string][][]any{}}
	att := []string{"information_schema"}
	if c.ms {
		att = append(att, "sys")
	}
	for _, a := range att {
		if _, err := db.Exec("ATTACH ':memory:' AS " + a); err != nil {
			vh.Harness(t, "%v", err)
		}
	}
	f.table("information_schema.tables", "table_catalog TEXT, table_schema TEXT, table_name TEXT, table_type TEXT")
	f.table("information_schema.columns", "table_catalog TEXT, table_schema TEXT, table_name TEXT, column_name TEXT, ordinal_position INT, column_default TEXT, is_nullable TEXT, data_type TEXT, character_maximum_length INT, udt_schema TEXT, udt_name TEXT, is_identity TEXT, is_generated TEXT, is_updatable TEXT")
	f.table("information_schema.views", "table_catalog TEXT, table_schema TEXT, table_name TEXT")
	f.table("information_schema.table_constraints", "constraint_catalog TEXT, constraint_schema TEXT, constraint_name TEXT, table_catalog TEXT, table_schema TEXT, table_name TEXT, constraint_type TEXT")
	f.table("information_schema.key_column_usage", "constraint_catalog TEXT, constraint_schema TEXT, constraint_name TEXT, table_catalog TEXT, table_schema TEXT, table_name TEXT, column_name TEXT, ordinal_position INT, position_in_unique_constraint INT")
	f.table("information_schema.constraint_column_usage", "table_catalog TEXT, table_schema TEXT, table_name TEXT, column_name TEXT, constraint_catalog TEXT, constraint_schema TEXT, constraint_name TEXT")
	f.table("information_schema.referential_constraints", "constraint_catalog TEXT, constraint_schema TEXT, constraint_name TEXT, unique_constraint_catalog TEXT, unique_constraint_schema TEXT, unique_constraint_name TEXT")
	for _, r := range c.rels {
		ty := map[string]string{"table": "BASE TABLE", "foreign": "FOREIGN", "view": "VIEW", "system": "BASE TABLE", "systemview": "VIEW", "shipped": "BASE TABLE", "tools": "BASE TABLE"}[r.kind]
		f.add("information_schema.tables", "db", r.schema, r.name, ty)
		if ty == "VIEW" {
			f.add("information_schema.views", "db", r.schema, r.name)
		}
		for _, cl := range r.cols {
			nn := "NO"
			if cl.nullable {
				nn = "YES"
			}
			var ml any
			if cl.maxLen != nil {
				ml = *cl.maxLen
			}
			f.add("information_schema.columns", "db", r.schema, r.name, cl.name, cl.pos, f.pick(nil, "0"), nn, cl.typ, ml, "pg_catalog", cl.udt, f.pick("NO", "YES"), f.pick("NEVER", "ALWAYS"), f.pick("YES", "NO"))
		}
		for _, ix := range r.idx {
			if !ix.unique {
				continue
			}
			ty := "UNIQUE"
			if ix.primary {
				ty = "PRIMARY KEY"
			}
			f.add("information_schema.table_constraints", "db", r.schema, ix.name, "db", r.schema, r.name, ty)
			for i, cn := range ix.cols {
				f.add("information_schema.key_column_usage", "db", r.schema, ix.name, "db", r.schema, r.name, cn, i+1, nil)
				f.add("information_schema.constraint_column_usage", "db", r.schema, r.name, cn, "db", r.schema, ix.name)
			}
		}
	}
	for _, k := range c.fks {
		f.add("information_schema.table_constraints", "db", k.schema, k.name, "db", k.schema, k.table, "FOREIGN KEY")
		f.add("information_schema.referential_constraints", "db", k.schema, k.name, "db", k.refSchema, k.uniqueName)
		var key index
		for _, ix := range c.find(k.refSchema, k.refTable).idx {
			if ix.name == k.uniqueName {
				key = ix
			}
		}
		for i := range k.cols {
			f.add("information_schema.key_column_usage", "db", k.schema, k.name, "db", k.schema, k.table, k.cols[i], i+1, slices.Index(key.cols, k.refCols[i])+1)
			f.add("information_schema.constraint_column_usage", "db", k.refSchema, k.refTable, k.refCols[i], "db", k.schema, k.name)
		}
	}
	if c.ms {
		c.loadMS(f)
	} else {
		c.loadPG(f)
	}
	f.flush()
}

func ints(n []int) string {
	s := make([]string, len(n))
	for i := range n {
		s[i] = strconv.Itoa(n[i])
	}
	return strings.Join(s, " ")
}

func (r *rel) nums(cols []string) []int {
	var n []int
	for _, c := range cols {
		n = append(n, r.colPos(c))
	}
	return n
}

func (c *catalog) loadPG(f *filler) {
	f.table("pg_namespace", "oid INT, nspname TEXT")
	f.table("pg_class", "oid INT, relname TEXT, relnamespace INT, relkind TEXT, relpersistence TEXT, relispartition INT, relhasindex INT")
	f.table("pg_attribute", "attrelid INT, attname TEXT, attnum INT, attisdropped INT")
	f.table("pg_index", "indexrelid INT, indrelid INT, indisunique INT, indisprimary INT, indkey TEXT, indnkeyatts INT, indnatts INT, indpred TEXT, indexprs TEXT, indisclustered INT, indimmediate INT")
	f.table("pg_indexes", "schemaname TEXT, tablename TEXT, indexname TEXT, tablespace TEXT, indexdef TEXT")
	f.table("pg_constraint", "oid INT, conname TEXT, connamespace INT, contype TEXT, conrelid INT, confrelid INT, conindid INT, conkey TEXT, confkey TEXT, condeferrable INT, convalidated INT, confdeltype TEXT, confmatchtype TEXT")
	for _, s := range c.schemas() {
		f.add("pg_namespace", c.schemaID(s), s)
	}
	oid := 900000
	for _, r := range c.rels {
		kind := map[string]string{"table": "r", "foreign": "f", "view": "v", "system": "r", "systemview": "v"}[r.kind]
		ikind := "i"
		if r.parted {
			kind, ikind = "p", "I"
		}
		f.add("pg_class", r.oid, r.name, c.schemaID(r.schema), kind, f.pick("p", "u"), kind == "r" && f.pick(false, true) == true, len(r.idx) > 0)
		for i := 1; i < 9 && len(r.cols) > 0; i++ {
			if !slices.ContainsFunc(r.cols, func(c col) bool { return c.pos == i }) && i < r.cols[len(r.cols)-1].pos {
				f.add("pg_attribute", r.oid, fmt.Sprintf("........pg.dropped.%d........", i), i, 1)
			}
		}
		for i, sysc := range []string{"tableoid", "ctid"} {
			f.add("pg_attribute", r.oid, sysc, -1-i, 0)
		}
		for _, cl := range r.cols {
			f.add("pg_attribute", r.oid, cl.name, cl.pos, 0)
		}
		for _, ix := range r.idx {
			oid++
			f.add("pg_class", oid, ix.name, c.schemaID(r.schema), ikind, "p", 0, 0)
			for i, cn := range ix.cols {
				f.add("pg_attribute", oid, cn, i+1, 0)
			}
			f.add("pg_index", oid, r.oid, ix.unique, ix.primary, ints(r.nums(ix.cols)), len(ix.cols), len(ix.cols), f.pick(nil, "{x}"), nil, f.pick(0, 1), 1)
			f.add("pg_indexes", r.schema, r.name, ix.name, nil, "CREATE INDEX")
			if ix.unique {
				ty := "u"
				if ix.primary {
					ty = "p"
				}
				f.add("pg_constraint", oid+500000, ix.name, c.schemaID(r.schema), ty, r.oid, 0, oid, ints(r.nums(ix.cols)), nil, 0, 1, " ", " ")
			}
		}
	}
	for _, k := range c.fks {
		a, b := c.find(k.schema, k.table), c.find(k.refSchema, k.refTable)
		f.add("pg_constraint", k.oid, k.name, c.schemaID(k.schema), "f", a.oid, b.oid, 0, ints(a.nums(k.cols)), ints(b.nums(k.refCols)), f.pick(0, 1), f.pick(1, 0), f.pick("a", "c"), "s")
	}
}

func (c *catalog) loadMS(f *filler) {
	f.table("sys.schemas", "name TEXT, schema_id INT")
	f.table("sys.objects", "name TEXT, object_id INT, schema_id INT, parent_object_id INT, type TEXT, type_desc TEXT, is_ms_shipped INT")
	f.table("sys.tables", "name TEXT, object_id INT, schema_id INT, type TEXT, type_desc TEXT, is_ms_shipped INT, temporal_type INT, is_memory_optimized INT")
	f.table("sys.views", "name TEXT, object_id INT, schema_id INT, type TEXT, type_desc TEXT, is_ms_shipped INT")
	f.table("sys.columns", "object_id INT, name TEXT, column_id INT, is_nullable INT, is_identity INT, is_computed INT")
	f.table("sys.indexes", "object_id INT, name TEXT, index_id INT, type INT, type_desc TEXT, is_unique INT, is_primary_key INT, is_unique_constraint INT, is_disabled INT, has_filter INT, fill_factor INT")
	f.table("sys.index_columns", "object_id INT, index_id INT, index_column_id INT, column_id INT, key_ordinal INT, is_included_column INT")
	f.table("sys.extended_properties", "class INT, class_desc TEXT, major_id INT, minor_id INT, name TEXT, value TEXT")
	f.table("sys.foreign_keys", "name TEXT, object_id INT, schema_id INT, parent_object_id INT, type TEXT, referenced_object_id INT, is_disabled INT, is_not_trusted INT, is_system_named INT")
	f.table("sys.foreign_key_columns", "constraint_object_id INT, constraint_column_id INT, parent_object_id INT, parent_column_id INT, referenced_object_id INT, referenced_column_id INT")
	for _, s := range c.schemas() {
		f.add("sys.schemas", s, c.schemaID(s))
	}
	for _, r := range c.rels {
		sid := c.schemaID(r.schema)
		shipped := r.kind == "shipped"
		if r.kind == "view" {
			f.add("sys.objects", r.name, r.oid, sid, 0, "V", "VIEW", shipped)
			f.add("sys.views", r.name, r.oid, sid, "V", "VIEW", shipped)
		} else {
			f.add("sys.objects", r.name, r.oid, sid, 0, "U", "USER_TABLE", shipped)
			f.add("sys.tables", r.name, r.oid, sid, "U", "USER_TABLE", shipped, f.pick(0, 2), f.pick(0, 1))
			f.add("sys.indexes", r.oid, nil, 0, 0, "HEAP", 0, 0, 0, 0, 0, 0)
		}
		for _, cl := range r.cols {
			f.add("sys.columns", r.oid, cl.name, cl.pos, cl.nullable, f.pick(0, 1), f.pick(0, 1))
		}
		for i, ix := range r.idx {
			clustered, desc := 2, "NONCLUSTERED"
			if i == 0 && f.pick(0, 1) == 1 {
				clustered, desc = 1, "CLUSTERED"
			}
			f.add("sys.indexes", r.oid, ix.name, i+1, clustered, desc, ix.unique, ix.primary, !ix.primary && ix.unique && f.pick(0, 1) == 1, f.pick(0, 1), f.pick(0, 1), 0)
			for j, cn := range ix.cols {
				f.add("sys.index_columns", r.oid, i+1, j+1, r.colPos(cn), j+1, 0)
			}
			if ix.primary {
				f.add("sys.objects", ix.name, 700000+r.oid, sid, r.oid, "PK", "PRIMARY_KEY_CONSTRAINT", 0)
			}
		}
		if r.kind == "tools" {
			f.add("sys.extended_properties", 1, "OBJECT_OR_COLUMN", r.oid, 0, "microsoft_database_tools_support", "1")
		}
		if r.kind == "table" || r.kind == "view" {
			// on anything but the table the name means nothing
			name := rapid.SampledFrom([]string{"MS_Description", "microsoft_database_tools_support"}).Draw(f.t, "property name")
			switch rapid.IntRange(0, 5).Draw(f.t, "property") {
			case 0:
				f.add("sys.extended_properties", 1, "OBJECT_OR_COLUMN", r.oid, 0, "MS_Description", "the table")
			case 1:
				for _, cl := range r.cols {
					f.add("sys.extended_properties", 1, "OBJECT_OR_COLUMN", r.oid, cl.pos, name, "the column")
				}
			case 2:
				for i := range r.idx {
					f.add("sys.extended_properties", 7, "INDEX", r.oid, i+1, name, "the index")
				}
			case 3:
				f.add("sys.extended_properties", 3, "SCHEMA", r.oid, 0, name, "a schema with the same number")
			}
		}
	}
	f.add("sys.extended_properties", 3, "SCHEMA", 5, 0, "MS_Description", "the schema")
	f.add("sys.extended_properties", 0, "DATABASE", 0, 0, "version", "1")
	for _, k := range c.fks {
		a, b := c.find(k.schema, k.table), c.find(k.refSchema, k.refTable)
		sid := c.schemaID(k.schema)
		f.add("sys.objects", k.name, k.oid, sid, a.oid, "F", "FOREIGN_KEY_CONSTRAINT", 0)
		f.add("sys.foreign_keys", k.name, k.oid, sid, a.oid, "F", b.oid, f.pick(0, 1), f.pick(0, 1), f.pick(0, 1))
		for i := range k.cols {
			f.add("sys.foreign_key_columns", k.oid, i+1, a.oid, a.colPos(k.cols[i]), b.oid, b.colPos(k.refCols[i]))
		}
	}
}

// ---- queries ----

var (
	reParam    = regexp.MustCompile(`'(?:[^']|'')*'|"(?:[^"]|"")*"|\$\d+`)
	reHint     = regexp.MustCompile(`(?i)\bWITH\s*\(\s*\w+(\s*,\s*\w+)*\s*\)`)
	reN        = regexp.MustCompile(`\bN'`)
	reAny      = regexp.MustCompile(`(?i)([\w.]+)\s*=\s*ANY\s*\(([^()]*)\)`)
	reCast     = regexp.MustCompile(`::\w+(\[\])?`)
	reCat      = regexp.MustCompile(`(?i)\bpg_catalog\.`)
	reElem     = regexp.MustCompile(`(?i)([\w.]+)\[\s*(array_position\([^()]*\))\s*\]`)
	reArrayAgg = regexp.MustCompile(`(?i)array_agg\(\s*([\w.]+)`)
	rePlus     = regexp.MustCompile(`\+\s*'|'\s*\+`)
	reApply    = regexp.MustCompile(`(?is)cross\s+apply\s*\(\s*select\s+(.*?)\s+(from\s.*?)\s+for\s+xml\s+path\s*\(''\)\s*\)\s*(\w+)\s*\(\s*(\w+)\s*\)`)
)

// translate makes SQLite run what is meant for the server.
func (c *catalog) translate(q string) string {
	if !c.ms {
		// $1 is a name to SQLite, bound in the order of appearance
		q = reParam.ReplaceAllStringFunc(q, func(s string) string {
			if s[0] != '$' {
				return s
			}
			return "?" + s[1:]
		})
		q = reCast.ReplaceAllString(q, "")
		q = reAny.ReplaceAllString(q, "any_eq($1, $2)")
		q = reCat.ReplaceAllString(q, "")
		q = reElem.ReplaceAllString(q, "arr_at($1, $2)")
		q = reArrayAgg.ReplaceAllStringFunc(q, func(s string) string {
			m := reArrayAgg.FindStringSubmatch(s)
			return "array_agg(arr_enc(" + m[1] + ")"
		})
		return q
	}
	q = reHint.ReplaceAllString(q, "")
	q = reN.ReplaceAllString(q, "'")
	q = rePlus.ReplaceAllStringFunc(q, func(s string) string { return strings.Replace(s, "+", "||", 1) })
	if m := reApply.FindStringSubmatch(q); m != nil {
		q = strings.Replace(q, m[0], "", 1)
		q = regexp.MustCompile(`(?i)\b`+m[4]+`\b`).ReplaceAllStringFunc(q, func(string) string {
			return "(select group_concat(v, '') from (select " + m[1] + " as v " + m[2] + "))"
		})
	}
	return q
}

// answer runs a query of the code under test.
func (c *catalog) answer(q string, args []driver.NamedValue) (*fakedb.Result, error) {
	var list []any
	for _, a := range args {
		if a.Name != "" {
			list = append(list, sql.Named(a.Name, a.Value))
		} else {
			list = append(list, a.Value)
		}
	}
	if err := c.unbound(q, args); err != nil {
		return nil, err
	}
	res, err := c.run(c.translate(q), list)
	if err != nil {
		if strings.Contains(q, "%!") {
			return nil, err
		}
		c.fallback.Add(1)
		return c.byModel(q, args)
	}
	c.ran.Add(1)
	return res, nil
}

var (
	reComment = regexp.MustCompile(`--[^\n]*|(?s:/\*.*?\*/)|\[[^\]]*\]|"[^"]*"`)
	reMsParam = regexp.MustCompile(`(?:^|[^@\w])@([A-Za-z_]\w*)`)
	rePgParam = regexp.MustCompile(`\$(\d+)`)
)

// unbound is the error of the driver or the server for parameters of the
// query and arguments that do not fit.
func (c *catalog) unbound(q string, args []driver.NamedValue) error {
	q = reComment.ReplaceAllString(reLiteral.ReplaceAllString(q, "''"), " ")
	if c.ms {
		if strings.Contains(strings.ToLower(q), "declare") {
			return nil
		}
		have := map[string]bool{}
		for i, a := range args {
			if a.Name == "" {
				a.Name = fmt.Sprint("p", i+1)
			}
			have[strings.ToLower(a.Name)] = true
		}
		for _, m := range reMsParam.FindAllStringSubmatch(q, -1) {
			if !have[strings.ToLower(m[1])] {
				return fmt.Errorf("mssql: Must declare the scalar variable \"@%s\"", m[1])
			}
		}
		return nil
	}
	n := 0
	for _, m := range rePgParam.FindAllStringSubmatch(q, -1) {
		k, _ := strconv.Atoi(m[1])
		n = max(n, k)
	}
	if n != len(args) {
		return fmt.Errorf("pq: got %d parameters but the statement requires %d", len(args), n)
	}
	return nil
}

func (c *catalog) run(q string, args []any) (*fakedb.Result, error) {
	rows, err := c.db.Query(q, args...)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	names, err := rows.Columns()
	if err != nil {
		return nil, err
	}
	res := &fakedb.Result{Cols: names}
	for rows.Next() {
		vals := make([]any, len(names))
		row := make([]driver.Value, len(names))
		ptrs := make([]any, len(names))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		if err := rows.Scan(ptrs...); err != nil {
			return nil, err
		}
		for i := range vals {
			row[i] = vals[i]
		}
		res.Rows = append(res.Rows, row)
	}
	return res, rows.Err()
}

var reLiteral = regexp.MustCompile(`'((?:[^']|'')*)'`)

// byModel answers a query which SQLite can not run, by its kind.
func (c *catalog) byModel(q string, args []driver.NamedValue) (*fakedb.Result, error) {
	lq := strings.ToLower(reLiteral.ReplaceAllString(q, "''"))
	var names []string
	for _, a := range args {
		names = append(names, fmt.Sprint(a.Value))
	}
	if len(names) == 2 && args[0].Name != "" && strings.Contains(strings.ToLower(args[0].Name), "table") {
		names[0], names[1] = names[1], names[0]
	}
	if len(names) == 0 {
		for _, m := range reLiteral.FindAllStringSubmatch(q, -1) {
			names = append(names, strings.ReplaceAll(m[1], "''", "'"))
		}
	}
	var r *rel
	if len(names) >= 2 {
		r = c.find(names[0], names[1])
	}
	res := &fakedb.Result{}
	colRow := func(cl col) []driver.Value {
		nn, ml := "NO", driver.Value(nil)
		if cl.nullable {
			nn = "YES"
		}
		if cl.maxLen != nil {
			ml = int64(*cl.maxLen)
		}
		return []driver.Value{cl.name, cl.typ, cl.udt, nn, ml, int64(cl.pos)}
	}
	switch {
	case strings.Contains(lq, "foreign") || strings.Contains(lq, "confkey"):
		res.Cols = make([]string, 7)
		for _, k := range c.fks {
			for i := range k.cols {
				res.Rows = append(res.Rows, []driver.Value{k.name, k.schema, k.table, k.cols[i], k.refSchema, k.refTable, k.refCols[i]})
			}
		}
	case strings.Contains(lq, "index"):
		res.Cols = make([]string, 4)
		if r != nil {
			for _, ix := range r.idx {
				res.Rows = append(res.Rows, []driver.Value{ix.name, ix.primary, ix.unique, strings.Join(ix.cols, ",")})
			}
		}
	case strings.Contains(lq, "view") && strings.Contains(lq, "column"):
		res.Cols = make([]string, 8)
		for _, v := range c.views() {
			for _, cl := range v.cols {
				res.Rows = append(res.Rows, append([]driver.Value{v.schema, v.name}, colRow(cl)...))
			}
			if len(v.cols) == 0 {
				res.Rows = append(res.Rows, []driver.Value{v.schema, v.name, nil, nil, nil, nil, nil, nil})
			}
		}
	case strings.Contains(lq, "column"):
		res.Cols = make([]string, 6)
		if r != nil {
			for _, cl := range r.cols {
				res.Rows = append(res.Rows, colRow(cl))
			}
		}
	default:
		res.Cols = make([]string, 3)
		for _, x := range c.tables() {
			res.Rows = append(res.Rows, []driver.Value{x.schema, x.name, c.typeOf(x)})
		}
	}
	return res, nil
}

func (c *catalog) typeOf(r *rel) string {
	switch {
	case c.ms:
		return "USER_TABLE"
	case r.kind == "foreign":
		return "FOREIGN"
	}
	return "BASE TABLE"
}

func (c *catalog) close() {
	if c.db != nil {
		_ = c.db.Close()
	}
}

// ---- what listings should return ----

func (c *catalog) wantColumns(r *rel) []*schema.Column {
	var cc []*schema.Column
	for _, cl := range r.cols {
		x := &schema.Column{Name: cl.name, Type: cl.typ, UdtType: cl.udt, Nullable: cl.nullable, Position: uint32(cl.pos),
			SchemaName: r.schema + "." + r.name + "." + cl.name}
		if cl.maxLen != nil && *cl.maxLen > 0 {
			x.MaxLength = uint32(*cl.maxLen)
		}
		cc = append(cc, x)
	}
	sort.Slice(cc, func(i, j int) bool { return cc[i].Position < cc[j].Position })
	return cc
}

func (c *catalog) fksOf(schema, table, column string) []*fkey {
	var r []*fkey
	for _, k := range c.fks {
		if k.schema == schema && k.table == table && (column == "" || slices.Contains(k.cols, column)) {
			r = append(r, k)
		}
	}
	return r
}

func matches(list []string, name string) bool {
	return len(list) == 0 || slices.ContainsFunc(list, func(s string) bool { return strings.EqualFold(s, name) })
}

// selected are the relations a call asks for.
func selected(rels []*rel, schemas, tables []string) []*rel {
	var r []*rel
	for _, x := range rels {
		if matches(schemas, x.schema) && matches(tables, x.name) {
			r = append(r, x)
		}
	}
	return r
}

// closure adds what is referenced.
func (c *catalog) closure(start []*rel) []*rel {
	res := slices.Clone(start)
	for i := 0; i < len(res); i++ {
		for _, k := range c.fksOf(res[i].schema, res[i].name, "") {
			x := c.find(k.refSchema, k.refTable)
			if !slices.Contains(res, x) {
				res = append(res, x)
			}
		}
	}
	return res
}

// diffTable compares a described table with the model; refs: foreign keys were asked for.
func (c *catalog) diffTable(t *schema.Table, r *rel, refs bool) error {
	if t.Schema != r.schema || t.Name != r.name || t.SchemaName != r.schema+"."+r.name {
		return fmt.Errorf("is named %q %q %q", t.Schema, t.Name, t.SchemaName)
	}
	if t.IsView != (r.kind == "view") {
		return fmt.Errorf("view: %v", t.IsView)
	}
	// tables of the server itself are not listed, but can be referred to
	unlisted := r.kind == "shipped" || r.kind == "tools"
	if r.kind != "view" && t.Type != c.typeOf(r) && !(unlisted && t.Type == "") {
		return fmt.Errorf("has type %q, want %q", t.Type, c.typeOf(r))
	}
	want := c.wantColumns(r)
	if len(t.Columns) != len(want) {
		return fmt.Errorf("has columns %q, want %d", t.Columns.Names(), len(want))
	}
	for i, w := range want {
		g := t.Columns[i]
		if g.Name != w.Name || g.Type != w.Type || g.UdtType != w.UdtType || g.Nullable != w.Nullable || g.MaxLength != w.MaxLength || g.Position != w.Position || g.SchemaName != w.SchemaName {
			return fmt.Errorf("has column %d %+v, want %+v", i, *g, *w)
		}
		var names []string
		if r.kind != "view" {
			for _, ix := range r.idx {
				if slices.Contains(ix.cols, w.Name) {
					names = append(names, ix.name)
				}
			}
		}
		got := slices.Clone(g.Indexes.Names())
		sort.Strings(got)
		sort.Strings(names)
		if !slices.Equal(got, names) && !(unlisted && len(got) == 0) {
			return fmt.Errorf("has column %q with the indexes %q, want %q", g.Name, got, names)
		}
		fks := c.fksOf(r.schema, r.name, w.Name)
		if r.kind == "view" {
			fks = nil
		}
		switch {
		case refs && len(fks) > 0 && g.Ref == nil:
			return fmt.Errorf("has column %q without its foreign key %q", g.Name, fks[0].name)
		case g.Ref != nil && !slices.ContainsFunc(fks, func(k *fkey) bool { return c.isPair(k, g.Ref) }):
			return fmt.Errorf("has column %q with the foreign key %+v", g.Name, *g.Ref)
		}
	}
	if unlisted && len(t.Indexes) == 0 && t.PrimaryKey == nil {
		return nil
	}
	if len(t.Indexes) != len(r.idx) {
		return fmt.Errorf("has indexes %q, want %d", t.Indexes.Names(), len(r.idx))
	}
	for _, w := range r.idx {
		i := slices.IndexFunc(t.Indexes, func(x *schema.Index) bool { return x.Name == w.name })
		if i < 0 {
			return fmt.Errorf("has indexes %q, without %q", t.Indexes.Names(), w.name)
		}
		g := t.Indexes[i]
		if g.IsPrimary != w.primary || g.IsUnique != w.unique || !slices.Equal(g.ColumnNames, w.cols) || g.SchemaName != r.schema+"."+r.name+"."+w.name {
			return fmt.Errorf("has index %+v, want %+v", *g, w)
		}
	}
	pk := ""
	for _, ix := range r.idx {
		if ix.primary && len(ix.cols) == 1 {
			pk = ix.cols[0]
		}
	}
	if t.PrimaryKeyName() != pk {
		return fmt.Errorf("has primary key %q, want %q", t.PrimaryKeyName(), pk)
	}
	if pk != "" && !slices.Contains(t.Columns, t.PrimaryKey) {
		return fmt.Errorf("has a primary key which is none of its columns")
	}
	return nil
}

func (c *catalog) isPair(k *fkey, g *schema.ForeignKey) bool {
	i := slices.Index(k.cols, g.Column)
	return i >= 0 && g.Name == k.name && g.Schema == k.schema && g.Table == k.table && g.RefSchema == k.refSchema &&
		g.RefTable == k.refTable && g.RefColumn == k.refCols[i] && g.SchemaName == k.schema+"."+k.table+"."+k.name
}

// diffTables compares a listing, in the order of the qualified names.
func (c *catalog) diffTables(got schema.Tables, want []*rel, refs bool) error {
	if !sort.SliceIsSorted(got, func(i, j int) bool { return got[i].SchemaName < got[j].SchemaName }) {
		return fmt.Errorf("is not in order")
	}
	left := slices.Clone(want)
	for _, t := range got {
		i := slices.IndexFunc(left, func(r *rel) bool { return r.schema == t.Schema && r.name == t.Name })
		if i < 0 {
			return fmt.Errorf("has %q.%q, which is not wanted or a repetition", t.Schema, t.Name)
		}
		if err := c.diffTable(t, left[i], refs); err != nil {
			return fmt.Errorf("%q.%q %w", t.Schema, t.Name, err)
		}
		left = slices.Delete(left, i, i+1)
	}
	if len(left) > 0 {
		return fmt.Errorf("is without %q.%q", left[0].schema, left[0].name)
	}
	return nil
}

// diffKeys compares foreign keys, in any order.
func (c *catalog) diffKeys(got schema.ForeignKeys, schemas, tables []string) error {
	var want []string
	for _, k := range c.fks {
		if matches(schemas, k.schema) && matches(tables, k.table) {
			for i := range k.cols {
				want = append(want, fmt.Sprintf("%q", []string{k.schema + "." + k.table + "." + k.name, k.name, k.schema, k.table, k.cols[i], k.refSchema, k.refTable, k.refCols[i]}))
			}
		}
	}
	var have []string
	for _, k := range got {
		have = append(have, fmt.Sprintf("%q", []string{k.SchemaName, k.Name, k.Schema, k.Table, k.Column, k.RefSchema, k.RefTable, k.RefColumn}))
	}
	sort.Strings(want)
	sort.Strings(have)
	if !slices.Equal(want, have) {
		return fmt.Errorf("are\n%s\nwant\n%s", strings.Join(have, "\n"), strings.Join(want, "\n"))
	}
	return nil
}

func (c *catalog) String() string {
	var sb strings.Builder
	for _, r := range c.rels {
		if r.parted {
			sb.WriteString("partitioned ")
		}
		fmt.Fprintf(&sb, "%s %q.%q(", r.kind, r.schema, r.name)
		for _, cl := range r.cols {
			fmt.Fprintf(&sb, "%q:%s:%d ", cl.name, cl.udt, cl.pos)
		}
		fmt.Fprintf(&sb, ") %v\n", r.idx)
	}
	for _, k := range c.fks {
		fmt.Fprintf(&sb, "fk %q %q.%q%q -> %q.%q%q\n", k.name, k.schema, k.table, k.cols, k.refSchema, k.refTable, k.refCols)
	}
	return sb.String()
}

type driverArg = driver.NamedValue
