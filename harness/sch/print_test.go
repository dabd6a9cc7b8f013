package sch

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/pkg/print"
	"github.com/effective-security/xdb/schema"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// ---- objects to print ----

// cells: no line breaks, frames or spaces around, so that the frame can be read back
var cellRunes = []rune("abcXYZ019_.-,:;'\"%$#@!?()[]{}/\\&*+=|~^<> éß日本語🙂")

func drawText(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 5).Draw(t, label+" kind") {
	case 0:
		return ""
	case 1:
		return rapid.SampledFrom([]string{"id", "ID", "null", "~", "yes", "NO", "1", "1.50", "0x1", "2020-01-01", "- a", "a: b", "#x", "%s", "%!d", "{{.}}", "a  b", "snake_case", "[]"}).Draw(t, label)
	case 2:
		if rapid.IntRange(0, 15).Draw(t, label+" long") == 7 {
			return strings.Repeat(rapid.SampledFrom([]string{"x", "ab_", "é", "日"}).Draw(t, label), rapid.SampledFrom([]int{22, 65, 130, 300, 1100}).Draw(t, label+" length"))
		}
		return strings.TrimSpace(rapid.StringOfN(rapid.RuneFrom(cellRunes), 0, 120, -1).Draw(t, label))
	}
	return strings.TrimSpace(rapid.StringOfN(rapid.RuneFrom(cellRunes), 0, 12, -1).Draw(t, label))
}

func drawIndex(t *rapid.T) *schema.Index {
	return &schema.Index{
		Name:        drawText(t, "index"),
		IsPrimary:   rapid.Bool().Draw(t, "primary"),
		IsUnique:    rapid.Bool().Draw(t, "unique"),
		ColumnNames: slice(t, "columns", 3, func(t *rapid.T) string { return drawText(t, "column") }),
		SchemaName:  "x",
	}
}

func drawFK(t *rapid.T) *schema.ForeignKey {
	return &schema.ForeignKey{
		Name: drawText(t, "fk"), Schema: drawText(t, "s"), Table: drawText(t, "t"), Column: drawText(t, "c"),
		RefSchema: drawText(t, "rs"), RefTable: drawText(t, "rt"), RefColumn: drawText(t, "rc"), SchemaName: "x",
	}
}

func drawTable(t *rapid.T) *schema.Table {
	tb := &schema.Table{Schema: drawText(t, "schema"), Name: drawText(t, "name"), Type: drawText(t, "type"), IsView: rapid.Bool().Draw(t, "view"), SchemaName: "x"}
	for range count(t, "indexes", 3, 130) {
		tb.Indexes = append(tb.Indexes, drawIndex(t))
	}
	for range count(t, "columns", 6, 300) {
		c := &schema.Column{Name: drawText(t, "column"), Type: drawText(t, "type"), UdtType: drawText(t, "udt"),
			Nullable: rapid.Bool().Draw(t, "null"), Position: rapid.Uint32().Draw(t, "position"), SchemaName: "x"}
		if rapid.Bool().Draw(t, "has max") {
			c.MaxLength = rapid.Uint32().Draw(t, "max")
		}
		if rapid.IntRange(0, 3).Draw(t, "ref") == 0 {
			c.Ref = drawFK(t)
		}
		if len(tb.Indexes) > 0 && rapid.Bool().Draw(t, "indexed") {
			for range rapid.IntRange(1, 3).Draw(t, "of indexes") {
				c.Indexes = append(c.Indexes, rapid.SampledFrom(tb.Indexes).Draw(t, "index"))
			}
		}
		tb.Columns = append(tb.Columns, c)
	}
	if len(tb.Columns) > 0 && rapid.Bool().Draw(t, "pk") {
		tb.PrimaryKey = rapid.SampledFrom(tb.Columns).Draw(t, "primary key")
	}
	return tb
}

// count is up to n, rarely more.
func count(t *rapid.T, label string, n, max int) int {
	if rapid.IntRange(0, 255).Draw(t, label+" many") == 5 {
		return rapid.SampledFrom([]int{max / 8, max / 2, max}).Draw(t, label)
	}
	return rapid.IntRange(0, n).Draw(t, label)
}

func slice[T any](t *rapid.T, label string, n int, draw func(*rapid.T) T) []T {
	var res []T
	for range count(t, label, n, 150) {
		res = append(res, draw(t))
	}
	return res
}

// ---- what the text should have ----

// lines are the rows of the frames in the text, and the other lines, in order.
func lines(out string) [][]string {
	var res [][]string
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "│"):
			cells := strings.Split(strings.TrimSuffix(strings.TrimPrefix(l, "│"), "│"), "│")
			for i := range cells {
				cells[i] = strings.TrimSpace(cells[i])
			}
			res = append(res, cells)
		case strings.HasPrefix(l, "┌"), strings.HasPrefix(l, "├"), strings.HasPrefix(l, "└"), strings.TrimSpace(l) == "":
		default:
			res = append(res, []string{strings.TrimSpace(l)})
		}
	}
	return res
}

func yes(b bool) string {
	if b {
		return "YES"
	}
	return ""
}

func wantIndexes(ii schema.Indexes) [][]string {
	res := [][]string{{"NAME", "PRIMARY", "UNIQUE", "COLUMNS"}}
	for _, x := range ii {
		res = append(res, []string{x.Name, yes(x.IsPrimary), yes(x.IsUnique), strings.TrimSpace(strings.Join(x.ColumnNames, ", "))})
	}
	return res
}

func wantTable(t *schema.Table) [][]string {
	res := [][]string{{strings.TrimSpace("Schema: " + t.Schema)}, {strings.TrimSpace("Table: " + t.Name)},
		{"ORD", "NAME", "TYPE", "UDT", "NULL", "MAX", "INDEX", "REF"}}
	for _, c := range t.Columns {
		m, ref := "", ""
		if c.MaxLength > 0 {
			m = fmt.Sprint(c.MaxLength)
		}
		if c.Ref != nil {
			ref = strings.TrimSpace(c.Ref.RefSchema + "." + c.Ref.RefTable + "." + c.Ref.RefColumn)
		}
		res = append(res, []string{fmt.Sprint(c.Position), c.Name, c.Type, c.UdtType, yes(c.Nullable), m, yes(len(c.Indexes) > 0), ref})
	}
	if len(t.Indexes) > 0 {
		res = append(res, []string{"Indexes:"})
		res = append(res, wantIndexes(t.Indexes)...)
	}
	return res
}

func wantKeys(kk schema.ForeignKeys) [][]string {
	res := [][]string{{"NAME", "SCHEMA", "TABLE", "COLUMN", "FK SCHEMA", "FK TABLE", "FK COLUMN"}}
	for _, k := range kk {
		res = append(res, []string{k.Name, k.Schema, k.Table, k.Column, k.RefSchema, k.RefTable, k.RefColumn})
	}
	return res
}

// stripped is the table without what is not printed as JSON.
func stripped(t *schema.Table) *schema.Table {
	cp := *t
	cp.SchemaName, cp.FKMap = "", nil
	col := func(c *schema.Column) *schema.Column {
		if c == nil {
			return nil
		}
		x := *c
		x.SchemaName, x.Ref, x.Indexes = "", nil, nil
		return &x
	}
	cp.PrimaryKey = col(t.PrimaryKey)
	cp.Columns = nil
	for _, c := range t.Columns {
		cp.Columns = append(cp.Columns, col(c))
	}
	cp.Indexes = strippedIndexes(t.Indexes)
	return &cp
}

func strippedIndexes(ii schema.Indexes) schema.Indexes {
	var res schema.Indexes
	for _, i := range ii {
		x := *i
		x.SchemaName = ""
		if len(x.ColumnNames) == 0 {
			x.ColumnNames = nil
		}
		res = append(res, &x)
	}
	return res
}

func strippedKeys(kk schema.ForeignKeys) schema.ForeignKeys {
	var res schema.ForeignKeys
	for _, k := range kk {
		x := *k
		x.SchemaName = ""
		res = append(res, &x)
	}
	return res
}

// ---- values ----

func drawValue(t *rapid.T, depth int) any {
	n := 6
	if depth == 0 {
		n = 4
	}
	switch rapid.IntRange(0, n).Draw(t, "kind") {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "bool")
	case 2:
		f := rapid.Float64().Draw(t, "float")
		if math.IsInf(f, 0) || math.IsNaN(f) || f == math.Trunc(f) {
			f = 0.5
		}
		return f
	case 3:
		// text of several lines
		return rapid.StringOfN(rapid.RuneFrom([]rune("ab:-#'\"  \n\n\n\t")), 0, 10, -1).Draw(t, "lines")
	case 4:
		return drawText(t, "text")
	case 5:
		l := []any{}
		for range rapid.IntRange(0, 4).Draw(t, "len") {
			l = append(l, drawValue(t, depth-1))
		}
		return l
	default:
		m := map[string]any{}
		for range rapid.IntRange(0, 4).Draw(t, "len") {
			m[drawText(t, "key")] = drawValue(t, depth-1)
		}
		return m
	}
}

// parse reads the output back as the type of the value.
func parse(format string, out []byte, like any) (any, error) {
	p := reflect.New(reflect.TypeOf(like))
	var err error
	if format == "yaml" {
		err = yaml.Unmarshal(out, p.Interface())
	} else {
		d := json.NewDecoder(bytes.NewReader(out))
		if err = d.Decode(p.Interface()); err == nil && d.More() {
			err = fmt.Errorf("more than one value")
		}
	}
	return p.Elem().Interface(), err
}

// limited fails after n bytes, once or from then on.
type limited struct {
	bytes.Buffer
	n    int
	once bool
	fail bool
}

func (l *limited) Write(p []byte) (int, error) {
	if l.fail && l.once {
		return l.Buffer.Write(p)
	}
	if left := l.n - l.Len(); len(p) > left {
		l.fail = true
		m, _ := l.Buffer.Write(p[:max(0, left)])
		return m, errFault
	}
	return l.Buffer.Write(p)
}

func TestC34_Print(t *testing.T) {
	vh.Run(t, 4000, 100000, "random tables, lists of tables, indexes, foreign keys and JSON-like values with any text in them, in the formats json, yaml, table and unknown ones; the output parses back to the value, and the text has all objects with all attributes in order; with a writer that fails after a random number of bytes, once or for ever, an error is returned and the bytes before are the same; non-trivial: at least two objects or a nested value",
		func(rt *rapid.T, c *vh.Case) {
			var value, want any
			var text [][]string
			kind := rapid.SampledFrom([]string{"table", "tables", "keys", "indexes", "value"}).Draw(rt, "kind")
			more := false
			switch kind {
			case "table":
				tb := drawTable(rt)
				value, want, text = tb, stripped(tb), wantTable(tb)
				more = len(tb.Columns) > 1
			case "tables":
				tt := schema.Tables(slice(rt, "tables", 3, drawTable))
				var w schema.Tables
				for _, x := range tt {
					w = append(w, stripped(x))
					text = append(text, wantTable(x)...)
				}
				value, want, more = tt, w, len(tt) > 1
			case "keys":
				kk := schema.ForeignKeys(slice(rt, "keys", 5, drawFK))
				value, want, text, more = kk, strippedKeys(kk), wantKeys(kk), len(kk) > 1
			case "indexes":
				ii := schema.Indexes(slice(rt, "indexes", 5, drawIndex))
				value, want, text, more = ii, strippedIndexes(ii), wantIndexes(ii), len(ii) > 1
			default:
				v := map[string]any{"v": drawValue(rt, 3)}
				value, want = v, v
				switch v["v"].(type) {
				case []any, map[string]any:
					more = true
				}
			}
			format := rapid.SampledFrom([]string{"json", "yaml", "table", "", "JSON", "xml"}).Draw(rt, "format")
			if format == "yaml" && kind == "value" {
				// the YAML library does not read back some texts which start with a line break
				if y, err := yaml.Marshal(value); err == nil {
					if back, err := parse(format, y, value); err != nil || !reflect.DeepEqual(normal(back), normal(want)) {
						c.Class("left out: the YAML library does not read its own output")
						return
					}
				}
			}
			var buf bytes.Buffer
			if err := print.Object(&buf, format, value); err != nil {
				rt.Fatalf("printing as %q: %v", format, err)
			}
			out := buf.String()
			if format == "json" || format == "yaml" || text == nil && kind == "value" {
				got, err := parse(format, buf.Bytes(), value)
				if err != nil {
					rt.Fatalf("the output of %q does not parse: %v\n%s", format, err, out)
				}
				// nil and empty are the same here
				g, w := normal(got), normal(want)
				if !reflect.DeepEqual(g, w) {
					rt.Fatalf("printed as %q and read back\n%s\nwant\n%s\n%s", format, g, w, out)
				}
			} else {
				got := lines(out)
				if !reflect.DeepEqual(got, text) && len(got)+len(text) > 0 {
					rt.Fatalf("printed as %q\n%s\nwith the lines\n%q\nwant\n%q", format, out, got, text)
				}
				var direct bytes.Buffer
				print.Print(&direct, value)
				if direct.String() != out {
					rt.Fatalf("Print and Object differ:\n%s\n%s", direct.String(), out)
				}
			}
			// a writer that fails
			if len(out) > 0 {
				w := &limited{n: rapid.IntRange(0, len(out)-1).Draw(rt, "fails after"), once: rapid.Bool().Draw(rt, "fails once")}
				err := print.Object(w, format, value)
				if err == nil || !errors.Is(err, errFault) {
					rt.Fatalf("printing %s as %q to a writer that fails after %d of %d bytes: %v", kind, format, w.n, len(out), err)
				}
				c.ClassIf(w.once, "writer that fails once")
				if !w.once && !strings.HasPrefix(out, w.String()) {
					rt.Fatalf("printing as %q to a writer that fails writes other bytes:\n%q\nof\n%q", format, w.String(), out)
				}
				w = &limited{n: len(out) / 2}
				print.Print(w, value) // no crash
			}
			c.Class(kind + " as " + format)
			c.NonTrivial(more, kind+format+out)
			c.Sample("%s as %q:\n%s", kind, format, out)
		})
}

// normal is the value as text, where nil and empty lists are the same.
func normal(v any) string {
	switch x := v.(type) {
	case *schema.Table:
		return normal(schema.Tables{x})
	case schema.Tables:
		s := ""
		for _, t := range x {
			s += fmt.Sprintf("%q %q %q %v %q %v\n", t.Schema, t.Name, t.Type, t.IsView, t.SchemaName, t.PrimaryKey)
			if t.PrimaryKey != nil {
				s = strings.Replace(s, fmt.Sprint(t.PrimaryKey), fmt.Sprintf("%+v", *t.PrimaryKey), 1)
			}
			for _, c := range t.Columns {
				s += fmt.Sprintf("  %+v\n", *c)
			}
			s += normal(t.Indexes)
		}
		return s
	case schema.Indexes:
		s := ""
		for _, i := range x {
			s += fmt.Sprintf("  %q %v %v %q %q\n", i.Name, i.IsPrimary, i.IsUnique, i.ColumnNames, i.SchemaName)
		}
		return s
	case schema.ForeignKeys:
		s := ""
		for _, k := range x {
			s += fmt.Sprintf("  %+v\n", *k)
		}
		return s
	}
	b, err := json.Marshal(v)
	return string(b) + fmt.Sprint(err)
}

type badText struct{}

func (badText) MarshalText() ([]byte, error) { return nil, errFault }

type badYAML struct{}

func (badYAML) MarshalYAML() (any, error) { return nil, errFault }

func TestC34_Unencodable(t *testing.T) {
	vh.Run(t, 200, 2000, "values which JSON or YAML can not encode (channels, functions, NaN, marshalers that fail; cycles through maps are left out) at random depth; an error and no crash, in every format that can not encode the value; non-trivial: always",
		func(rt *rapid.T, c *vh.Case) {
			formats := []string{"json", "table", ""}
			bad := rapid.SampledFrom([]any{make(chan int), func() {}, math.NaN(), math.Inf(1), complex(1, 2), badText{}, badYAML{}}).Draw(rt, "bad")
			switch bad.(type) {
			case badText:
				formats = append(formats, "yaml")
			case badYAML:
				formats = []string{"yaml"}
			}
			v := bad
			depth := rapid.IntRange(0, 3).Draw(rt, "depth")
			for range depth {
				if rapid.Bool().Draw(rt, "list") {
					v = []any{"x", v}
				} else {
					v = map[string]any{"a": 1, "k": v}
				}
			}
			format := rapid.SampledFrom(formats).Draw(rt, "format")
			var buf bytes.Buffer
			if err := print.Object(&buf, format, v); err == nil {
				rt.Fatalf("printing %T as %q: no error, %q", bad, format, buf.String())
			}
			print.Print(&buf, v)
			c.NonTrivial(true, fmt.Sprintf("%T %d %s", bad, depth, format))
		})
}
