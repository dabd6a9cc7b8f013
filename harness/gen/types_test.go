package gen

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"net"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/fakedb"
	"github.com/effective-security/xdb/internal/verif/fakepg"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/schema"
	"github.com/lib/pq"
	"pgregory.net/rapid"
)

// The types of generated fields, as they are written in the code.
var goTypes = map[string]reflect.Type{
	"bool": reflect.TypeFor[bool](), "string": reflect.TypeFor[string](), "[]byte": reflect.TypeFor[[]byte](),
	"int": reflect.TypeFor[int](), "int8": reflect.TypeFor[int8](), "int16": reflect.TypeFor[int16](), "int32": reflect.TypeFor[int32](), "int64": reflect.TypeFor[int64](),
	"uint": reflect.TypeFor[uint](), "uint8": reflect.TypeFor[uint8](), "byte": reflect.TypeFor[uint8](), "uint16": reflect.TypeFor[uint16](), "uint32": reflect.TypeFor[uint32](), "uint64": reflect.TypeFor[uint64](),
	"float32": reflect.TypeFor[float32](), "float64": reflect.TypeFor[float64](),
	"time.Time": reflect.TypeFor[time.Time](), "json.RawMessage": reflect.TypeFor[json.RawMessage](),
	"xdb.ID": reflect.TypeFor[xdb.ID](), "xdb.ID32": reflect.TypeFor[xdb.ID32](), "xdb.IDArray": reflect.TypeFor[xdb.IDArray](),
	"xdb.Int32": reflect.TypeFor[xdb.Int32](), "xdb.Int64": reflect.TypeFor[xdb.Int64](), "xdb.Float": reflect.TypeFor[xdb.Float](), "xdb.Bool": reflect.TypeFor[xdb.Bool](),
	"xdb.Time": reflect.TypeFor[xdb.Time](), "xdb.NULLString": reflect.TypeFor[xdb.NULLString](), "xdb.UUID": reflect.TypeFor[xdb.UUID](),
	"xdb.Strings": reflect.TypeFor[xdb.Strings](), "xdb.Metadata": reflect.TypeFor[xdb.Metadata](),
	"pq.Int64Array": reflect.TypeFor[pq.Int64Array](), "pq.StringArray": reflect.TypeFor[pq.StringArray](), "pq.BoolArray": reflect.TypeFor[pq.BoolArray](), "pq.Float64Array": reflect.TypeFor[pq.Float64Array](), "pq.Int32Array": reflect.TypeFor[pq.Int32Array](), "pq.ByteaArray": reflect.TypeFor[pq.ByteaArray](),
}

// fieldTypes are the types of the generated fields, by column.
func fieldTypes(src []byte) (map[string]string, error) {
	// the model comes first
	f, err := parser.ParseFile(token.NewFileSet(), "m.go", src, 0)
	if err != nil {
		return nil, err
	}
	res := map[string]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.StructType)
		if !ok {
			return true
		}
		for _, fl := range s.Fields.List {
			if fl.Tag == nil {
				continue
			}
			tag, _ := strconv.Unquote(fl.Tag.Value)
			name, _, _ := strings.Cut(reflect.StructTag(tag).Get("db"), ",")
			if name != "" {
				res[name] = string(src[fl.Type.Pos()-1 : fl.Type.End()-1])
			}
		}
		return true
	})
	return res, nil
}

// value is a value of a column: what the database delivers and what it means.
type value struct {
	text string       // PostgreSQL, text format
	drv  driver.Value // SQL Server
	want any          // int64, float64, bool, string, []byte, time.Time, []int64, []string; nil is NULL
}

func (v value) String() string {
	if v.drv != nil {
		return fmt.Sprintf("%v (%T)", v.drv, v.drv)
	}
	if v.want == nil {
		return "NULL"
	}
	return strconv.Quote(v.text)
}

// same reports if the field has the value.
func same(field reflect.Value, want any) error {
	bad := func() error {
		return fmt.Errorf("%v of type %s, want %v", field.Interface(), field.Type(), want)
	}
	if want == nil {
		switch x := field.Interface().(type) {
		case xdb.ID:
			if x.UInt64() != 0 {
				return bad()
			}
			return nil
		}
		if !field.IsZero() && !(field.Kind() == reflect.Slice && field.Len() == 0) {
			return bad()
		}
		return nil
	}
	ok := false
	switch w := want.(type) {
	case int64:
		switch {
		case field.CanInt():
			ok = field.Int() == w
		case field.CanUint():
			ok = w >= 0 && field.Uint() == uint64(w)
		default:
			if x, isID := field.Interface().(xdb.ID); isID {
				ok = w >= 0 && x.UInt64() == uint64(w)
			}
		}
	case float64:
		if field.CanFloat() {
			f := field.Float()
			if field.Type().Bits() == 32 {
				w = float64(float32(w))
			}
			ok = f == w || math.IsNaN(f) && math.IsNaN(w)
		}
	case float32: // a column of single precision
		if field.CanFloat() {
			f := float32(field.Float())
			ok = f == w || f != f && w != w
		}
	case bool:
		ok = field.Kind() == reflect.Bool && field.Bool() == w
	case string:
		if _, isUUID := field.Interface().(xdb.UUID); isUUID {
			ok = strings.EqualFold(field.String(), w)
		} else if field.Kind() == reflect.String {
			ok = field.String() == w
		} else if b, isBytes := field.Interface().(json.RawMessage); isBytes {
			ok = string(b) == w
		}
	case []byte:
		if field.Kind() == reflect.Slice && field.Type().Elem().Kind() == reflect.Uint8 {
			ok = bytes.Equal(field.Bytes(), w)
		}
	case time.Time:
		switch x := field.Interface().(type) {
		case xdb.Time:
			ok = time.Time(x).Equal(w)
		case time.Time:
			ok = x.Equal(w)
		}
	case []int64:
		if field.Kind() == reflect.Slice && field.Len() == len(w) {
			ok = true
			for i := range w {
				e := field.Index(i)
				if id, isID := e.Interface().(xdb.ID); isID {
					ok = ok && w[i] >= 0 && id.UInt64() == uint64(w[i])
				} else {
					ok = ok && e.CanInt() && e.Int() == w[i]
				}
			}
		}
	case []string:
		if field.Kind() == reflect.Slice && field.Len() == len(w) {
			ok = true
			for i := range w {
				ok = ok && field.Index(i).Kind() == reflect.String && field.Index(i).String() == w[i]
			}
		}
	}
	if !ok {
		return bad()
	}
	return nil
}

func drawInt(t *rapid.T, bits int, id bool) int64 {
	hi := int64(1)<<(bits-1) - 1
	lo := -hi - 1
	if id {
		lo = 0
	}
	return rapid.OneOf(rapid.SampledFrom([]int64{lo, lo + 1, hi, hi - 1, 0, 1, min(127, hi), min(128, hi), min(255, hi), min(256, hi), min(32767, hi), min(32768, hi), min(65535, hi), min(65536, hi), min(1<<31-1, hi), min(1<<31, hi), min(1<<53+1, hi)}), rapid.Int64Range(lo, hi)).Draw(t, "int")
}

func drawString(t *rapid.T) string {
	return strings.ReplaceAll(rapid.OneOf(rapid.SampledFrom([]string{"", " ", "NULL", "null", "true", "0", "日本", `a"b\c`, "{x}", "a,b", strings.Repeat("x", 300)}), rapid.String()).Draw(t, "string"), "\x00", "")
}

func drawDecimal(t *rapid.T) string {
	s := rapid.StringMatching(`-?(0|[1-9][0-9]{0,20})(\.[0-9]{1,12})?`).Draw(t, "decimal")
	if s == "-0" {
		s = "0"
	}
	return s
}

// drawInstant draws a time to the microsecond
func drawInstant(t *rapid.T, minYear, maxYear int) time.Time {
	y := rapid.OneOf(rapid.SampledFrom([]int{minYear, 1, 999, 1000, 1752, 1753, 1899, 1900, 1969, 1970, 2000, 2026, 2038, 2262, 2263, 9999, maxYear}), rapid.IntRange(minYear, maxYear)).Draw(t, "year")
	y = max(minYear, min(maxYear, y))
	d := time.Date(y, time.Month(rapid.IntRange(1, 12).Draw(t, "month")), rapid.IntRange(1, 28).Draw(t, "day"), rapid.IntRange(0, 23).Draw(t, "hour"), rapid.IntRange(0, 59).Draw(t, "minute"), rapid.IntRange(0, 59).Draw(t, "second"), rapid.SampledFrom([]int{0, 1000, 120000000, 999999000, 500000000}).Draw(t, "fraction"), time.UTC)
	return d
}

// pgTime is the text of PostgreSQL
func pgTime(t time.Time, layout string) string {
	y := t.Year()
	bc := ""
	if y <= 0 {
		y, bc = 1-y, " BC"
	}
	s := t.Format(layout)
	// Format writes -043 for years before 1, and no leading zeros for them
	i := strings.IndexByte(strings.TrimPrefix(s, "-"), '-')
	rest := strings.TrimPrefix(s, "-")[i:]
	return fmt.Sprintf("%04d%s%s", y, rest, bc)
}

func drawUUID(t *rapid.T) []byte {
	return rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "uuid")
}

func pgArray[T any](v []T, f func(T) string) string {
	var p []string
	for _, x := range v {
		p = append(p, f(x))
	}
	return "{" + strings.Join(p, ",") + "}"
}

// pgText is an element of an array as PostgreSQL writes it
func pgText(s string) string {
	if s == "" || strings.EqualFold(s, "null") || strings.ContainsAny(s, "{},\"\\ \t\n\r\v\f") {
		return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
	}
	return s
}

var pgOIDs = map[string]uint32{"int8": 20, "int4": 23, "int2": 21, "numeric": 1700, "float4": 700, "float8": 701, "bool": 16, "jsonb": 3802, "bytea": 17, "bpchar": 1042, "varchar": 1043, "text": 25, "cidr": 650, "inet": 869, "ltree": 16500, "date": 1082, "timestamp": 1114, "timestamptz": 1184, "time": 1083, "uuid": 2950, "bit": 1560, "_int8": 1016, "_text": 1009, "_varchar": 1015}

func isIDName(n string) bool {
	return strings.EqualFold(n, "id") || strings.HasSuffix(n, "_id") || strings.HasSuffix(n, "Id") || strings.HasSuffix(n, "ID")
}

func pgFloat(f float64, bits int) string {
	switch {
	case math.IsNaN(f):
		return "NaN"
	case math.IsInf(f, 1):
		return "Infinity"
	case math.IsInf(f, -1):
		return "-Infinity"
	}
	return strconv.FormatFloat(f, 'g', -1, bits)
}

// drawPG draws a value of the column of a PostgreSQL table
func drawPG(t *rapid.T, c *schema.Column) value {
	if c.Nullable && rapid.IntRange(0, 3).Draw(t, "isNull") == 0 {
		return value{}
	}
	id := isIDName(c.Name)
	intv := func(bits int) value {
		n := drawInt(t, bits, id)
		return value{text: strconv.FormatInt(n, 10), want: n}
	}
	str := func(s string) value { return value{text: s, want: s} }
	switch c.UdtType {
	case "int8":
		return intv(64)
	case "int4":
		return intv(32)
	case "int2":
		return intv(16)
	case "numeric":
		s := drawDecimal(t)
		if rapid.IntRange(0, 19).Draw(t, "nan") == 13 {
			s = "NaN"
		}
		f, _ := strconv.ParseFloat(s, 64)
		return value{text: s, want: f}
	case "float4":
		f := rapid.OneOf(rapid.SampledFrom([]float32{0, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), 0.1, 16777217}), rapid.Float32()).Draw(t, "float")
		return value{text: pgFloat(float64(f), 32), want: f}
	case "float8":
		f := rapid.OneOf(rapid.SampledFrom([]float64{0, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 0.1, 1 << 53, math.MaxFloat32 * 10}), rapid.Float64()).Draw(t, "float")
		return value{text: pgFloat(f, 64), want: f}
	case "bool":
		b := rapid.Bool().Draw(t, "bool")
		return value{text: map[bool]string{true: "t", false: "f"}[b], want: b}
	case "jsonb":
		return str(rapid.SampledFrom([]string{`{}`, `[]`, `null`, `""`, `0`, `true`, `{"a": [1, 2, {"b": null}]}`, `"日本"`, `[1.5, "x\"y"]`}).Draw(t, "json"))
	case "bytea":
		b := rapid.SliceOf(rapid.Byte()).Draw(t, "bytes")
		return value{text: `\x` + hex.EncodeToString(b), want: append([]byte{}, b...)}
	case "bpchar":
		s := drawString(t)
		return str(s + strings.Repeat(" ", max(0, int(min(c.MaxLength, 20))-len([]rune(s)))))
	case "varchar", "text":
		return str(drawString(t))
	case "ltree":
		return str(rapid.SampledFrom([]string{"", "Top", "Top.Science.Astronomy", "a.b_c.1"}).Draw(t, "ltree"))
	case "cidr":
		return str(rapid.SampledFrom([]string{"10.0.0.0/8", "0.0.0.0/0", "::/0", "2001:db8::/32", "192.168.1.1/32"}).Draw(t, "cidr"))
	case "inet":
		return str(net.IP(rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "ip")).String() + rapid.SampledFrom([]string{"", "/24", "/0"}).Draw(t, "mask"))
	case "date":
		d := drawInstant(t, -4712, 294275).Truncate(24 * time.Hour)
		return value{text: pgTime(d, "2006-01-02"), want: d}
	case "timestamp":
		d := drawInstant(t, -4712, 294275)
		return value{text: pgTime(d, "2006-01-02 15:04:05.999999"), want: d}
	case "timestamptz":
		d := drawInstant(t, -4711, 294275)
		off := rapid.SampledFrom([]int{0, 0, 2 * 3600, -5 * 3600, 5*3600 + 1800, -(3*3600 + 1800), 14 * 3600, 53*60 + 28}).Draw(t, "zone")
		z := d.In(time.FixedZone("", off))
		y := z.Year()
		bc := ""
		if y <= 0 {
			y, bc = 1-y, " BC"
		}
		sign, o := "+", off
		if off < 0 {
			sign, o = "-", -off
		}
		zone := fmt.Sprintf("%s%02d", sign, o/3600)
		if o%3600 != 0 {
			zone += fmt.Sprintf(":%02d", o/60%60)
		}
		if o%60 != 0 {
			zone += fmt.Sprintf(":%02d", o%60)
		}
		return value{text: fmt.Sprintf("%04d%s%s%s", y, z.Format("-01-02 15:04:05.999999"), zone, bc), want: d}
	case "time":
		d := drawInstant(t, 2000, 2000)
		d = time.Date(0, 1, 1, d.Hour(), d.Minute(), d.Second(), d.Nanosecond(), time.UTC)
		return value{text: d.Format("15:04:05.999999"), want: d}
	case "uuid":
		b := drawUUID(t)
		s := fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
		return str(s)
	case "bit":
		if c.MaxLength > 1 {
			return str(rapid.StringMatching(fmt.Sprintf("[01]{%d}", min(c.MaxLength, 12))).Draw(t, "bits"))
		}
		b := rapid.Bool().Draw(t, "bit")
		return value{text: map[bool]string{true: "1", false: "0"}[b], want: b}
	case "_int8":
		ids := strings.HasSuffix(c.Name, "_ids")
		v := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int64 { return drawInt(t, 64, ids) }), 0, 6).Draw(t, "array")
		return value{text: pgArray(v, func(n int64) string { return strconv.FormatInt(n, 10) }), want: append([]int64{}, v...)}
	case "_text", "_varchar":
		v := rapid.SliceOfN(rapid.Custom(drawString), 0, 5).Draw(t, "array")
		return value{text: pgArray(v, pgText), want: append([]string{}, v...)}
	}
	panic("no values of " + c.UdtType)
}

// drawMS draws a value of the column of a SQL Server table
func drawMS(t *rapid.T, c *schema.Column) value {
	if c.Nullable && rapid.IntRange(0, 3).Draw(t, "isNull") == 0 {
		return value{}
	}
	id := isIDName(c.Name)
	is := func(v driver.Value, want any) value { return value{drv: v, want: want} }
	switch c.Type {
	case "bigint":
		n := drawInt(t, 64, id)
		return is(n, n)
	case "int":
		n := drawInt(t, 32, id)
		return is(n, n)
	case "smallint":
		n := drawInt(t, 16, id)
		return is(n, n)
	case "tinyint":
		n := int64(rapid.OneOf(rapid.SampledFrom([]int{0, 1, 127, 128, 255}), rapid.IntRange(0, 255)).Draw(t, "tinyint"))
		return is(n, n)
	case "decimal", "numeric":
		s := drawDecimal(t)
		f, _ := strconv.ParseFloat(s, 64)
		return is([]byte(s), f)
	case "real":
		f := rapid.OneOf(rapid.SampledFrom([]float32{0, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1}), rapid.Float32()).Draw(t, "float")
		return is(float64(f), f)
	case "bit":
		b := rapid.Bool().Draw(t, "bit")
		return is(b, b)
	case "nchar", "nvarchar", "char", "varchar", "text":
		s := drawString(t)
		return is(s, s)
	case "time":
		d := drawInstant(t, 2000, 2000)
		d = time.Date(1, 1, 1, d.Hour(), d.Minute(), d.Second(), d.Nanosecond(), time.UTC)
		return is(d, d)
	case "date":
		d := drawInstant(t, 1, 9999).Truncate(24 * time.Hour)
		return is(d, d)
	case "datetime":
		d := drawInstant(t, 1753, 9999).Truncate(time.Second)
		return is(d, d)
	case "datetime2":
		d := drawInstant(t, 1, 9999).Add(100)
		return is(d, d)
	case "timestamp":
		b := rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "rowversion")
		return is(append([]byte{}, b...), append([]byte{}, b...))
	case "uniqueidentifier":
		b := drawUUID(t)
		s := fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
		raw := []byte{b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6]}
		return is(append(raw, b[8:]...), s)
	}
	panic("no values of " + c.Type)
}

var typeColumns = []string{"id", "org_id", "ID", "userId", "name", "identity", "child_ids", "ids", "item_count", "valid", "x"}

func drawTypedTable(t *rapid.T, types []sqlType, provider string) *schema.Table {
	tab := &schema.Table{Schema: "public", Name: "things", SchemaName: "public.things", Type: "BASE TABLE"}
	n := rapid.IntRange(1, 7).Draw(t, "columns")
	used := map[string]bool{}
	for range n {
		name := rapid.SampledFrom(typeColumns).Draw(t, "column")
		if used[strings.ToLower(name)] {
			continue
		}
		used[strings.ToLower(name)] = true
		ty := rapid.SampledFrom(types).Draw(t, "type")
		c := &schema.Column{Name: name, Type: ty.typ, UdtType: ty.udt, Position: uint32(len(tab.Columns) + 1), Nullable: rapid.Bool().Draw(t, "null"), SchemaName: "public.things." + name}
		if provider == "sqlserver" && rapid.Bool().Draw(t, "udt") {
			c.UdtType = ty.typ
		}
		if ty.max {
			c.MaxLength = rapid.SampledFrom([]uint32{1, 2, 8, 255}).Draw(t, "max")
		}
		tab.Columns = append(tab.Columns, c)
	}
	return tab
}

// model generates the code of the table and returns the types of its fields
func modelTypes(t *rapid.T, tab *schema.Table, provider string) []reflect.Type {
	o := &options{DB: "db", Provider: provider, Tables: schema.Tables{tab}, PkgModel: "model", PkgSchema: "schema", OutModel: newDir(t)}
	defer os.RemoveAll(o.OutModel)
	res := here(o)
	if res.Err != "" {
		t.Fatalf("generating a model for known types: %s", res.Err)
	}
	ff, err := goFiles(o.OutModel)
	if err != nil || len(ff) != 1 {
		vh.Harness(t, "model: %v %d", err, len(ff))
	}
	var byCol map[string]string
	for _, src := range ff {
		if byCol, err = fieldTypes(src); err != nil {
			t.Fatalf("the model does not parse: %v", err)
		}
	}
	var types []reflect.Type
	for _, c := range tab.Columns {
		ty, ok := goTypes[byCol[c.Name]]
		if !ok {
			vh.Harness(t, "do not know the type %q of %q", byCol[c.Name], c.Name)
		}
		types = append(types, ty)
	}
	return types
}

func readValues(rt *rapid.T, c *vh.Case, db *sql.DB, tab *schema.Table, types []reflect.Type, vals [][]value) {
	rows, err := db.Query("SELECT things")
	if err != nil {
		vh.Harness(rt, "query: %v", err)
	}
	defer rows.Close()
	n := 0
	for rows.Next() {
		// one at a time, for the message
		var dest []any
		for _, ty := range types {
			dest = append(dest, reflect.New(ty).Interface())
		}
		err := rows.Scan(dest...)
		for j, col := range tab.Columns {
			v := vals[n][j]
			if err == nil {
				err = same(reflect.ValueOf(dest[j]).Elem(), v.want)
			} else if !strings.Contains(err.Error(), fmt.Sprintf("column index %d,", j)) {
				continue
			}
			if err != nil {
				rt.Fatalf("column %s %s/%s max %d null %v, field of type %s, value %s: %v", col.Name, col.Type, col.UdtType, col.MaxLength, col.Nullable, types[j], v, err)
			}
		}
		if err != nil {
			rt.Fatalf("reading %v: %v", vals[n], err)
		}
		n++
	}
	if err := rows.Err(); err != nil {
		rt.Fatalf("reading rows of %v: %v", vals, err)
	}
	if n != len(vals) {
		vh.Harness(rt, "%d rows of %d", n, len(vals))
	}
	var key strings.Builder
	for j, col := range tab.Columns {
		ty := col.UdtType
		if ty == "" {
			ty = col.Type
		}
		c.Class("type " + ty)
		fmt.Fprintf(&key, "%s %s null=%v -> %s:", col.Name, ty, col.Nullable, types[j])
		for _, r := range vals {
			s := r[j].String()
			if len(s) > 60 {
				s = s[:60] + "..."
			}
			fmt.Fprintf(&key, " %s", s)
		}
		key.WriteString("; ")
	}
	c.NonTrivial(len(vals) > 0, key.String())
}

func TestC31_Postgres(t *testing.T) {
	var mu sync.Mutex
	var reply *fakepg.Rows
	srv, err := fakepg.Start()
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	defer srv.Close()
	srv.Query = func(q string, _ []*string, _ bool) (*fakepg.Rows, error) {
		mu.Lock()
		defer mu.Unlock()
		if reply == nil {
			return &fakepg.Rows{}, nil
		}
		return reply, nil
	}
	host, port := srv.Addr()
	db, err := sql.Open("postgres", fmt.Sprintf("postgres://u:p@%s:%s/db?sslmode=disable", host, port))
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	defer db.Close()
	db.SetMaxOpenConns(1)
	vh.Run(t, 2500, 40000, "tables of 1-7 columns of every PostgreSQL type the generator knows, ordinary and id names, nullable or not, with 1-4 rows of boundary and random values; the values are read from a PostgreSQL server on the loopback by the real driver into fields of the generated types; non-trivial: at least one row was read",
		func(rt *rapid.T, c *vh.Case) {
			tab := drawTypedTable(rt, pgTypes, "postgres")
			types := modelTypes(rt, tab, "postgres")
			r := &fakepg.Rows{}
			for _, col := range tab.Columns {
				r.Cols = append(r.Cols, col.Name)
				r.OIDs = append(r.OIDs, pgOIDs[col.UdtType])
			}
			var vals [][]value
			for range rapid.IntRange(1, 4).Draw(rt, "rows") {
				var row []value
				var wire []*string
				for _, col := range tab.Columns {
					v := drawPG(rt, col)
					row = append(row, v)
					if v.want == nil {
						wire = append(wire, nil)
					} else {
						wire = append(wire, &v.text)
					}
				}
				vals = append(vals, row)
				r.Vals = append(r.Vals, wire)
			}
			mu.Lock()
			reply = r
			mu.Unlock()
			readValues(rt, c, db, tab, types, vals)
		})
}

func TestC31_SQLServer(t *testing.T) {
	var reply *fakedb.Result
	fdb := &fakedb.DB{Handler: func(string, []driver.NamedValue) (*fakedb.Result, error) { return reply, nil }}
	db := fdb.Open()
	defer db.Close()
	vh.Run(t, 2500, 40000, "the same for SQL Server types, with the values its driver delivers (integers as int64, decimals as text bytes, uniqueidentifier as 16 bytes in mixed order, rowversion as 8 bytes); non-trivial: at least one row was read",
		func(rt *rapid.T, c *vh.Case) {
			tab := drawTypedTable(rt, msTypes, "sqlserver")
			types := modelTypes(rt, tab, "sqlserver")
			r := &fakedb.Result{}
			for _, col := range tab.Columns {
				r.Cols = append(r.Cols, col.Name)
			}
			var vals [][]value
			for range rapid.IntRange(1, 4).Draw(rt, "rows") {
				var row []value
				var wire []driver.Value
				for _, col := range tab.Columns {
					v := drawMS(rt, col)
					row = append(row, v)
					wire = append(wire, v.drv)
				}
				vals = append(vals, row)
				r.Rows = append(r.Rows, wire)
			}
			reply = r
			readValues(rt, c, db, tab, types, vals)
		})
}

func TestC31_Unknown(t *testing.T) {
	known := map[string]bool{}
	for _, ty := range append(append([]sqlType{}, pgTypes...), msTypes...) {
		known[ty.typ], known[ty.udt] = true, true
	}
	other := []string{"int4range", "tsvector", "money", "interval", "hstore", "geometry", "xml", "sql_variant", "hierarchyid", "float", "varbinary", "image", "ntext", "smallmoney", "smalldatetime", "datetimeoffset", "point", "_bool", "_numeric", "varbit", "oid", "macaddr", "json", "mood"}
	vh.Run(t, 300, 3000, "tables with one column of a type which is no type the generator has a rule for: it may learn the type, but must not write code which does not compile, and an error must leave no file; non-trivial: an error was reported",
		func(rt *rapid.T, c *vh.Case) {
			name := rapid.OneOf(rapid.SampledFrom(other), rapid.StringMatching(`zz[a-z]{1,6}`)).Draw(rt, "type")
			provider := rapid.SampledFrom([]string{"postgres", "sqlserver", "other"}).Draw(rt, "provider")
			tab := drawTypedTable(rt, pgTypes, provider)
			bad := &schema.Column{Name: rapid.SampledFrom([]string{"zone", "zone_id"}).Draw(rt, "name"), Type: name, SchemaName: "public.things.zone", Nullable: rapid.Bool().Draw(rt, "null"), Position: 9}
			if provider == "postgres" {
				bad.Type, bad.UdtType = "USER-DEFINED", name
				if strings.HasPrefix(name, "_") {
					bad.Type = "ARRAY"
				}
			}
			at := rapid.IntRange(0, len(tab.Columns)).Draw(rt, "at")
			tab.Columns = append(tab.Columns[:at:at], append(schema.Columns{bad}, tab.Columns[at:]...)...)
			dir := newDir(rt)
			defer os.RemoveAll(dir)
			o := &options{DB: "db", Provider: provider, Tables: schema.Tables{tab}, OutModel: dir + "/m", OutSchema: dir + "/s"}
			before := snapshot(dir)
			res := here(o)
			if res.Err != "" {
				if !sameSnapshot(before, snapshot(dir)) {
					rt.Fatalf("failed with %q, but has written files", res.Err)
				}
				c.NonTrivial(true, provider+" "+name+" "+fmt.Sprint(at))
				return
			}
			if strings.HasPrefix(name, "zz") {
				rt.Fatalf("no error for the type %q", name)
			}
			c.Class("known type")
			if _, err := compile(rt, o, "xdbgen"); err != nil {
				rt.Fatalf("%v", err)
			}
		})
}
