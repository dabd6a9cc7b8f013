package gen

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/effective-security/xdb/schema"
	"pgregory.net/rapid"
)

// Described tables, the input of the generator.

type sqlType struct {
	typ, udt string
	max      bool
}

var pgTypes = []sqlType{
	{"bigint", "int8", false}, {"integer", "int4", false}, {"smallint", "int2", false},
	{"numeric", "numeric", false}, {"real", "float4", false}, {"double precision", "float8", false},
	{"boolean", "bool", false}, {"jsonb", "jsonb", false}, {"bytea", "bytea", false},
	{"character", "bpchar", true}, {"character varying", "varchar", true}, {"text", "text", false},
	{"cidr", "cidr", false}, {"inet", "inet", false}, {"USER-DEFINED", "ltree", false},
	{"date", "date", false}, {"timestamp without time zone", "timestamp", false},
	{"timestamp with time zone", "timestamptz", false}, {"time without time zone", "time", false},
	{"uuid", "uuid", false}, {"bit", "bit", true},
	{"ARRAY", "_int8", false}, {"ARRAY", "_text", false}, {"ARRAY", "_varchar", false},
}

var msTypes = []sqlType{
	{"bigint", "", false}, {"int", "", false}, {"smallint", "", false}, {"tinyint", "", false},
	{"decimal", "", false}, {"numeric", "", false}, {"real", "", false}, {"bit", "", false},
	{"nchar", "", true}, {"nvarchar", "", true}, {"char", "", true}, {"varchar", "", true}, {"text", "", true},
	{"time", "", false}, {"date", "", false}, {"datetime", "", false}, {"datetime2", "", false},
	{"timestamp", "", false}, {"uniqueidentifier", "", false},
}

// names which give different Go names, whatever the naming rule
var (
	cleanTables  = []string{"users", "org_members", "audit_logs", "ProductPrices", "cities", "addresses", "boxes", "news", "data", "people", "Children", "order_status", "event2", "map", "KeyValues", "_migrations"}
	cleanColumns = []string{"id", "org_id", "name", "created_at", "type", "func", "range", "err", "rows", "m", "value", "is_active", "child_count", "row_count", "_count", "url", "ApiKey", "_hidden", "parent_ids", "x1", "2fa", "äöü", "full name", "member.role", "price$", "Notes", "http_status", "UserID", "any"}
	cleanSchemas = []string{"public", "dbo", "app", "Sales", "_internal", "my schema"}
)

func wildName(t *rapid.T, label string, pool []string) string {
	switch rapid.IntRange(0, 3).Draw(t, label+"Kind") {
	case 0:
		return rapid.SampledFrom(pool).Draw(t, label)
	case 1:
		return rapid.SampledFrom([]string{`q"t`, "back`tick", "o'neil", `back\slash`, "日本", "select", "100%", "a-b", "a/b", "a b", "a_b", "aB", "AB", "ab", "a.b", "./x", "..", "$1", "{{.}}", "x*/", "//", "table", "Table", "scan_row", "ScanRow", "cached", "cached_props", "dialect", "string", "error", "nil", "_", "__", "-", "é", "ß", "ǆ", "user", "users", "UserSlice", "user_result", "UserTableInfo", "a:b", "a,b", "%s", "@x", "ID", "id", "Id", "iD"}).Draw(t, label)
	case 2:
		return rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_]{0,6}`).Draw(t, label)
	default:
		// anything printable
		s := strings.Map(func(r rune) rune {
			if !unicode.IsGraphic(r) {
				return -1
			}
			return r
		}, rapid.StringN(1, 6, -1).Draw(t, label))
		if s == "" {
			return "x"
		}
		return s
	}
}

type described struct {
	provider      string
	tables, views schema.Tables
	clean         bool // the names can not collide
	unknown       bool // has a type the generator does not know
	schemas       int
}

func drawDescribed(t *rapid.T, maxTables int) *described {
	d := &described{
		provider: rapid.SampledFrom([]string{"postgres", "sqlserver", "other"}).Draw(t, "provider"),
		clean:    rapid.IntRange(0, 9).Draw(t, "clean") < 6,
	}
	types := pgTypes
	if d.provider == "sqlserver" {
		types = msTypes
	}
	var schemaNames []string
	nSchemas, nTables, big := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "schemas"), rapid.IntRange(0, maxTables).Draw(t, "tables"), ""
	if rapid.IntRange(0, 39).Draw(t, "big?") == 17 {
		big = rapid.SampledFrom([]string{"schemas", "tables", "columns", "columns"}).Draw(t, "big")
		switch big {
		case "schemas":
			nSchemas, nTables = 30, rapid.IntRange(20, 40).Draw(t, "tables")
		case "tables":
			nTables = rapid.IntRange(20, 80).Draw(t, "tables")
		case "columns":
			nTables = max(nTables, 1)
		}
	}
	for i := range nSchemas {
		n := rapid.SampledFrom(cleanSchemas).Draw(t, "schema")
		if big == "schemas" {
			n = fmt.Sprintf("area_%d", i)
		} else if !d.clean {
			n = wildName(t, "schema", cleanSchemas)
			if i > 0 && rapid.IntRange(0, 3).Draw(t, "same file") == 0 {
				// schemas whose names give the same name of the file
				schemaNames[i-1], n = "a/b", rapid.SampledFrom([]string{"a_b", `a\b`}).Draw(t, "schema")
			}
		}
		schemaNames = append(schemaNames, n)
	}
	seen := map[string]bool{}
	usedSchemas := map[string]bool{}
	for ti := range nTables {
		sn := rapid.SampledFrom(schemaNames).Draw(t, "tableSchema")
		tn := rapid.SampledFrom(cleanTables).Draw(t, "tableName")
		if !d.clean {
			tn = wildName(t, "tableName", cleanTables)
		}
		if (big == "tables" || big == "schemas") && rapid.IntRange(0, 7).Draw(t, "ordinary") > 0 {
			tn = fmt.Sprintf("entry_x%d", ti)
		}
		if all := d.all(true); len(all) > 0 && rapid.IntRange(0, 7).Draw(t, "sameName") == 0 {
			// in another schema
			tn = rapid.SampledFrom(all).Draw(t, "same").Name
		}
		if seen[sn+"\x00"+tn] || seen[sn+"."+tn] {
			continue
		}
		seen[sn+"\x00"+tn], seen[sn+"."+tn] = true, true
		usedSchemas[sn] = true
		tab := &schema.Table{Schema: sn, Name: tn, SchemaName: sn + "." + tn, Type: "BASE TABLE"}
		cols := map[string]bool{}
		nCols := rapid.IntRange(0, 7).Draw(t, "columns")
		if big == "columns" {
			nCols = rapid.SampledFrom([]int{7, 35, 70, 140, 270}).Draw(t, "columns")
		}
		for ci := range nCols {
			cn := rapid.SampledFrom(cleanColumns).Draw(t, "column")
			if !d.clean {
				cn = wildName(t, "column", cleanColumns)
			}
			if ci > 7 {
				cn = fmt.Sprintf("part_f%d", ci)
			}
			if cols[cn] {
				continue
			}
			cols[cn] = true
			ty := rapid.SampledFrom(types).Draw(t, "type")
			if strings.HasSuffix(cn, "_count") && len(types) == len(pgTypes) && rapid.IntRange(0, 3).Draw(t, "counter") > 0 {
				ty = sqlType{"integer", "int4", false}
			}
			if rapid.IntRange(0, 249).Draw(t, "unknown") == 137 {
				ty = sqlType{"geometry", "", false}
				d.unknown = true
			}
			c := &schema.Column{
				Name: cn, Type: ty.typ, UdtType: ty.udt, Position: uint32(len(tab.Columns) + 1),
				Nullable: rapid.Bool().Draw(t, "null"), SchemaName: tab.SchemaName + "." + cn,
			}
			if ty.max {
				c.MaxLength = rapid.SampledFrom([]uint32{0, 1, 8, 255, 1 << 30}).Draw(t, "max")
			}
			if rapid.IntRange(0, 5).Draw(t, "ref") == 0 {
				c.Ref = &schema.ForeignKey{Name: "fk", Schema: sn, Table: tn, Column: cn, RefSchema: sn, RefTable: tn, RefColumn: "id"}
			}
			tab.Columns = append(tab.Columns, c)
		}
		for i := range rapid.IntRange(0, 3).Draw(t, "indexes") {
			if len(tab.Columns) == 0 {
				break
			}
			c := rapid.SampledFrom(tab.Columns).Draw(t, "indexed")
			x := &schema.Index{Name: fmt.Sprintf("idx%d_%s", i, c.Name), IsPrimary: i == 0, IsUnique: i < 2, ColumnNames: []string{c.Name}}
			if i == 0 {
				tab.PrimaryKey = c
			}
			c.Indexes = append(c.Indexes, x)
			tab.Indexes = append(tab.Indexes, x)
		}
		if rapid.IntRange(0, 4).Draw(t, "view") == 0 {
			tab.IsView, tab.Type = true, "VIEW"
			d.views = append(d.views, tab)
		} else {
			d.tables = append(d.tables, tab)
		}
	}
	d.schemas = len(usedSchemas)
	return d
}

func (d *described) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s:", d.provider)
	for _, t := range d.all(true) {
		fmt.Fprintf(&b, " %q.%q(", t.Schema, t.Name)
		for i, c := range t.Columns {
			if i > 0 {
				b.WriteString(", ")
			}
			fmt.Fprintf(&b, "%q %s", c.Name, c.Type)
			if c.UdtType != "" {
				fmt.Fprintf(&b, "/%s", c.UdtType)
			}
			if c.Nullable {
				b.WriteString(" null")
			}
		}
		b.WriteString(")")
	}
	return b.String()
}

// all are the tables, and the views if they are asked for
func (d *described) all(views bool) schema.Tables {
	r := append(schema.Tables{}, d.tables...)
	if views {
		r = append(r, d.views...)
	}
	return r
}

// letters and digits of the name, in lower case
func plain(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			return unicode.ToLower(unicode.ToUpper(r))
		}
		return -1
	}, s)
}

// mayCollide reports if the two names may become the same Go name: it errs to
// the side of yes
func mayCollide(a, b string) bool {
	a, b = strings.TrimLeft(plain(a), "x"), strings.TrimLeft(plain(b), "x")
	n := 3
	return a == "" || b == "" || strings.HasPrefix(a, b[:min(n, len(b))]) || strings.HasPrefix(b, a[:min(n, len(a))])
}

// mustSucceed reports if no two names of the tables can collide
func mustSucceed(tabs schema.Tables, o *options) bool {
	multi := map[string]bool{}
	for _, t := range tabs {
		multi[t.Schema] = true
	}
	for i, t := range tabs {
		if mayCollide(t.Name, "dialect") || strings.Contains(plain(t.Name), "table") || mayCollide(t.Name, o.DB) {
			return false
		}
		for _, u := range tabs[:i] {
			if len(multi) > 1 && o.UseSchema {
				return false
			}
			if t.Name == u.Name || mayCollide(t.Name, u.Name) {
				return false
			}
		}
		for j, c := range t.Columns {
			for _, r := range []string{"table", "scanrow", "cached"} {
				if mayCollide(c.Name, r) {
					return false
				}
			}
			for _, e := range t.Columns[:j] {
				if mayCollide(c.Name, e.Name) {
					return false
				}
			}
		}
	}
	// the names of files
	for a := range multi {
		for b := range multi {
			if a != b && (mayCollide(a, b)) {
				return false
			}
		}
	}
	return true
}

// cleanSucceed is the same for names of the clean lists
func cleanSucceed(tabs schema.Tables, o *options, def *override) bool {
	names := map[string]int{}
	plainSchemas := map[string]bool{}
	for _, t := range tabs {
		if def != nil && def.Tables[t.SchemaName] != "" {
			continue
		}
		names[t.Name]++
		if t.Schema == "public" || t.Schema == "dbo" {
			plainSchemas[t.Schema] = true
		}
	}
	for _, n := range names {
		if n > 1 && (!o.UseSchema || len(plainSchemas) > 1) {
			return false
		}
	}
	return true
}
