package qp

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/effective-security/x/values"
	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/fakedb"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/xsql"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

var ctx = context.Background()

// rec is a model.
type rec struct {
	ID   xdb.ID
	Name string
}

var errScan = errors.New("scan refused")

var causes = []error{nil, nil, context.Canceled, context.DeadlineExceeded, io.EOF, sql.ErrTxDone, sql.ErrConnDone, errors.New("sql: no rows in result set"), errors.New("EOF")}

// withCause is an error of its own with a well-known one inside.
func withCause(text string, cause error) error {
	if cause == nil {
		return errors.New(text)
	}
	return fmt.Errorf("%s: %w", text, cause)
}

// refuse makes the n-th ScanRow fail; the checks here are sequential.
var refuse = -1
var scanned int

func (r *rec) ScanRow(row xdb.Row) error {
	n := scanned
	scanned++
	err := row.Scan(&r.ID, &r.Name)
	if err == nil && n == refuse {
		return errScan
	}
	return err
}

// own is another implementation of the query parameters.
type own struct{ xdb.QueryParams }

type result struct {
	calls   int
	rows    []*rec
	hasNext bool
	next    uint32
	cursor  func(*rec) string
}

func (r *result) SetResult(rows []*rec, hasNext bool, next uint32) {
	r.calls++
	r.rows, r.hasNext, r.next = rows, hasNext, next
}

type cursorResult struct{ result }

func (r *cursorResult) SetResultWithCursor(rows []*rec, hasNext bool, cursor func(*rec) string) {
	r.calls++
	r.rows, r.hasNext, r.cursor = rows, hasNext, cursor
}

func mkRows(n int) [][]driver.Value { return rowsOf(0, n) }

func rowsOf(from, to int) [][]driver.Value {
	var res [][]driver.Value
	for i := from; i < to; i++ {
		res = append(res, []driver.Value{int64(i + 1), "n" + strconv.Itoa(i)})
	}
	return res
}

func checkRows(rt *rapid.T, got []*rec, from, to int, what string) {
	if len(got) != max(to-from, 0) {
		rt.Fatalf("%s: %d rows, expected %d", what, len(got), max(to-from, 0))
	}
	for i, r := range got {
		if r.ID.UInt64() != uint64(from+i+1) || r.Name != "n"+strconv.Itoa(from+i) {
			rt.Fatalf("%s: row %d is %v %s", what, i, r.ID, r.Name)
		}
	}
}

// ---- C11 ----

func asInt(v driver.Value) int {
	switch x := v.(type) {
	case int64:
		return int(x)
	case uint32:
		return int(x)
	}
	panic(fmt.Sprintf("%T", v))
}

func TestC11_Offset(t *testing.T) {
	vh.Run(t, 3000, 50000, "tables of 0 to 60 rows, page sizes 1 to 70 (sometimes 2600 rows in pages of 100 to 2500, rarely 140000 in pages of up to 70000), start offsets up to the end of 32 bits, limit and offset as int, uint32, named arguments or query parameters, further arguments before them; the pages are followed until the end; non-trivial: at least two pages",
		func(rt *rapid.T, c *vh.Case) {
			n := rapid.IntRange(0, 60).Draw(rt, "rows")
			size := rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 70)).Draw(rt, "size")
			if n > 0 && rapid.IntRange(0, 2).Draw(rt, "exact") == 0 {
				// a page size which divides the number of rows
				for n%size != 0 {
					size--
				}
			}
			start := rapid.SampledFrom([]int{0, 0, 0, 1, size, n, n + 3}).Draw(rt, "start")
			form := rapid.SampledFrom([]string{"int", "uint32", "named", "namedInt", "params", "paramsDefault", "own"}).Draw(rt, "form")
			if rapid.IntRange(0, 63).Draw(rt, "manyRows") == 5 {
				n = rapid.IntRange(480, 2600).Draw(rt, "manyRows")
				size = rapid.SampledFrom([]int{100, 499, 500, 501, 1000, 1001, 2500}).Draw(rt, "manySize")
			}
			if rapid.IntRange(0, 511).Draw(rt, "hugeRows") == 77 {
				// past the range of 16 bits
				n = rapid.IntRange(65530, 140000).Draw(rt, "hugeRows")
				size = rapid.SampledFrom([]int{20000, 65535, 65536, 65537, 70000}).Draw(rt, "hugeSize")
			}
			if form == "paramsDefault" {
				n = rapid.SampledFrom([]int{0, 1, 499, 500, 501, 1000, 1003}).Draw(rt, "many")
				size = xdb.DefaultPageSize
			}
			if start > 0 && n < 1200 && rapid.IntRange(0, 2).Draw(rt, "far") == 0 {
				// the last rows of a big table
				far := rapid.SampledFrom([]int{1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1<<32 - 2000}).Draw(rt, "skipped") - rapid.IntRange(0, 70).Draw(rt, "before")
				start += far
				n += far
			}
			extra := rapid.IntRange(0, 2).Draw(rt, "extra")
			db := &fakedb.DB{}
			db.Handler = func(q string, args []driver.NamedValue) (*fakedb.Result, error) {
				if len(args) != extra+2 {
					return nil, fmt.Errorf("%d arguments", len(args))
				}
				l, o := asInt(args[extra].Value), asInt(args[extra+1].Value)
				if l != size {
					return nil, fmt.Errorf("limit %d", l)
				}
				o = min(o, n)
				return &fakedb.Result{Cols: []string{"id", "name"}, Rows: rowsOf(o, min(o+l, n))}, nil
			}
			conn := db.Open()
			defer conn.Close()
			offset := uint32(start)
			var got []*rec
			requests := 0
			want := max(n-start, 0)
			for {
				requests++
				if requests > want/size+1 {
					rt.Fatalf("more than %d requests for %d rows by %d", requests-1, want, size)
				}
				var args []any
				for i := range extra {
					args = append(args, i)
				}
				switch form {
				case "int":
					args = append(args, size, int(offset))
				case "uint32":
					args = append(args, uint32(size), offset)
				case "named":
					args = append(args, sql.Named("limit", size), sql.Named("offset", offset))
				case "namedInt":
					args = append(args, sql.Named("limit", uint32(size)), sql.Named("offset", int(offset)))
				case "params", "paramsDefault", "own":
					qp := xdb.NewQueryParams("q")
					for i := range extra {
						qp.Set(uint32(i), i)
					}
					if form != "paramsDefault" {
						qp.SetPage(uint32(size), offset)
					} else {
						qp.SetPage(0, offset)
					}
					args = []any{qp}
					if form == "own" {
						args = []any{own{qp}}
					}
				}
				var res result
				if err := xdb.ExecuteQueryWithPagination(ctx, conn, &res, "q", args...); err != nil {
					rt.Fatalf("%v", err)
				}
				if res.calls != 1 || len(res.rows) > size {
					rt.Fatalf("result is set %d times, %d rows", res.calls, len(res.rows))
				}
				got = append(got, res.rows...)
				if (res.next == 0) == res.hasNext {
					rt.Fatalf("next page %v at offset %d", res.hasNext, res.next)
				}
				if !res.hasNext {
					break
				}
				offset = res.next
			}
			checkRows(rt, got, min(start, n), n, "pages")
			c.Class(form)
			c.ClassIf(want%size == 0 && want > 0, "last page is full")
			c.NonTrivial(requests > 1, fmt.Sprint(n, size, start, form, extra))
		})
}

// The list without paging is complete, and announces no page.
func TestC11_Unpaged(t *testing.T) {
	vh.Run(t, 1000, 10000, "unpaged lists of 0 to 1200 rows, sometimes 5000, rarely 140000, arguments as list or as query parameters; non-trivial: more than 500 rows or at least two arguments",
		func(rt *rapid.T, c *vh.Case) {
			n := rapid.OneOf(rapid.IntRange(0, 10), rapid.IntRange(480, 520), rapid.IntRange(0, 1200)).Draw(rt, "rows")
			na := rapid.IntRange(0, 4).Draw(rt, "args")
			asParams := rapid.Bool().Draw(rt, "params")
			asOwn := rapid.Bool().Draw(rt, "own")
			if rapid.IntRange(0, 63).Draw(rt, "many") == 5 {
				n = rapid.IntRange(1000, 5000).Draw(rt, "manyRows")
			}
			if rapid.IntRange(0, 511).Draw(rt, "huge") == 77 {
				n = rapid.IntRange(65530, 140000).Draw(rt, "hugeRows")
			}
			var want []any
			qp := xdb.NewQueryParams("q")
			for i := range na {
				want = append(want, int64(100+i))
				qp.Set(uint32(i), int64(100+i))
			}
			var seen []any
			db := &fakedb.DB{Handler: func(q string, args []driver.NamedValue) (*fakedb.Result, error) {
				for _, a := range args {
					seen = append(seen, a.Value)
				}
				return &fakedb.Result{Cols: []string{"id", "name"}, Rows: mkRows(n)}, nil
			}}
			conn := db.Open()
			defer conn.Close()
			var res result
			args := want
			if asParams {
				args = []any{qp}
				if asOwn {
					args = []any{own{qp}}
				}
			}
			if err := xdb.ExecuteQuery(ctx, conn, &res, "q", args...); err != nil {
				rt.Fatalf("%v", err)
			}
			checkRows(rt, res.rows, 0, n, "list")
			if res.hasNext || res.next != 0 || res.calls != 1 || !(len(seen) == 0 && na == 0 || reflect.DeepEqual(seen, want)) {
				rt.Fatalf("next %v %d, arguments %v, expected %v", res.hasNext, res.next, seen, want)
			}
			c.NonTrivial(n > 500 || na > 1, fmt.Sprint(n, na, asParams))
		})
}

// ---- C12 ----

func TestC12_Pages(t *testing.T) {
	vh.Run(t, 3000, 40000, "ordered ids with gaps (up to 64 bits), page sizes 1 to 20 (sometimes 2600 rows in pages of 100 to 2500, rarely 140000 in pages of up to 70000), the cursor holds the id of the last row; followed until no page is announced; arguments as list or query parameters; non-trivial: at least two pages",
		func(rt *rapid.T, c *vh.Case) {
			n := rapid.IntRange(0, 40).Draw(rt, "rows")
			size := rapid.IntRange(1, 20).Draw(rt, "size")
			if rapid.IntRange(0, 63).Draw(rt, "many") == 5 {
				n = rapid.IntRange(480, 2600).Draw(rt, "manyRows")
				size = rapid.SampledFrom([]int{100, 499, 500, 501, 1000, 1001, 2500}).Draw(rt, "manySize")
			}
			if rapid.IntRange(0, 511).Draw(rt, "hugeRows") == 77 {
				// past the range of 16 bits
				n = rapid.IntRange(65530, 140000).Draw(rt, "hugeRows")
				size = rapid.SampledFrom([]int{20000, 65535, 65536, 65537, 70000}).Draw(rt, "hugeSize")
			}
			if n > 0 && rapid.IntRange(0, 2).Draw(rt, "exact") == 0 {
				for n%size != 0 {
					size--
				}
			}
			form := rapid.SampledFrom([]string{"int", "uint32", "named", "params", "own"}).Draw(rt, "form")
			ids := make([]int64, n)
			last := int64(0)
			hugeGap := rapid.SampledFrom([]int64{1, 3, 1 << 40}).Draw(rt, "hugeGap")
			for i := range ids {
				if n > 3000 {
					last += hugeGap
					ids[i] = last
					continue
				}
				last += rapid.OneOf(rapid.Int64Range(1, 3), rapid.Int64Range(1, 1<<57)).Draw(rt, "gap")
				ids[i] = last
			}
			db := &fakedb.DB{Handler: func(q string, args []driver.NamedValue) (*fakedb.Result, error) {
				if len(args) != 2 {
					return nil, fmt.Errorf("%d arguments", len(args))
				}
				after, limit := args[0].Value.(int64), asInt(args[1].Value)
				res := &fakedb.Result{Cols: []string{"id", "name"}}
				for i, id := range ids {
					if id > after && len(res.Rows) < limit {
						res.Rows = append(res.Rows, []driver.Value{id, "n" + strconv.Itoa(i)})
					}
				}
				return res, nil
			}}
			conn := db.Open()
			defer conn.Close()
			after := uint64(0)
			var got []*rec
			requests := 0
			for {
				requests++
				if requests > n/size+1 {
					rt.Fatalf("more than %d requests for %d rows by %d", requests-1, n, size)
				}
				var args []any
				switch form {
				case "int":
					args = []any{int64(after), size}
				case "uint32":
					args = []any{int64(after), uint32(size)}
				case "named":
					args = []any{sql.Named("after", int64(after)), sql.Named("limit", size)}
				default:
					args = []any{xdb.NewQueryParams("q").SetCursor(uint32(size), 3, int64(after))}
					if form == "own" {
						args[0] = own{args[0].(xdb.QueryParams)}
					}
				}
				var res cursorResult
				err := xdb.ExecuteQueryWithCursor(ctx, conn, func(r *rec) string {
					return xdb.EncodeCursor(values.MapAny{"after": r.ID.UInt64(), "name": r.Name})
				}, &res, "q", args...)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				got = append(got, res.rows...)
				if res.calls != 1 || len(res.rows) > size {
					rt.Fatalf("result is set %d times, %d rows", res.calls, len(res.rows))
				}
				if !res.hasNext {
					break
				}
				lastRow := res.rows[len(res.rows)-1]
				m, err := xdb.DecodeCursor(res.cursor(lastRow))
				if err != nil {
					rt.Fatalf("cursor: %v", err)
				}
				if m.UInt64("after") != lastRow.ID.UInt64() || m.String("name") != lastRow.Name {
					rt.Fatalf("cursor of %v %s is decoded as %v", lastRow.ID, lastRow.Name, m)
				}
				after = m.UInt64("after")
			}
			if len(got) != n {
				rt.Fatalf("%d rows, expected %d", len(got), n)
			}
			for i, r := range got {
				if r.ID.UInt64() != uint64(ids[i]) {
					rt.Fatalf("row %d has id %v, expected %d", i, r.ID, ids[i])
				}
			}
			c.Class(form)
			c.ClassIf(n > 0 && n%size == 0, "last page is full")
			c.ClassIf(last > 1<<53, "ids of more than 53 bits")
			c.NonTrivial(requests > 1, fmt.Sprint(ids, size, form))
		})
}

var textGen = rapid.OneOf(rapid.String(), rapid.StringMatching(`[a-zA-Z0-9_<>&"'\\/ é世\x{2028}]{0,8}`))

// scalar draws a value for a cursor.
func scalar(rt *rapid.T) any {
	switch rapid.IntRange(0, 7).Draw(rt, "kind") {
	case 0:
		return textGen.Draw(rt, "s")
	case 1:
		return rapid.Bool().Draw(rt, "b")
	case 2:
		return rapid.OneOf(rapid.Int64(), rapid.SampledFrom([]int64{math.MinInt64, math.MaxInt64, 1<<53 + 1, -(1<<53 + 1), 0, -1})).Draw(rt, "i")
	case 3:
		return rapid.OneOf(rapid.Uint64(), rapid.SampledFrom([]uint64{math.MaxUint64, 1 << 63, 1<<63 - 1, 1<<53 + 1})).Draw(rt, "u")
	case 4:
		return rapid.Float64Range(-1e18, 1e18).Draw(rt, "f")
	case 5:
		return rapid.Int().Draw(rt, "n")
	case 6:
		return rapid.Int32().Draw(rt, "n32")
	default:
		return rapid.Uint32().Draw(rt, "u32")
	}
}

func sameAccess(orig any, m values.MapAny, k string) string {
	bad := func(got any) string {
		return fmt.Sprintf("%s: %v (%T) reads back as %v (%T)", k, orig, orig, got, m[k])
	}
	switch v := orig.(type) {
	case string:
		if w := strings.ToValidUTF8(v, "\ufffd"); m.String(k) != w && m.String(k) != v {
			return bad(m.String(k))
		}
	case bool:
		if m.Bool(k) != v {
			return bad(m.Bool(k))
		}
	case int64:
		if m.Int64(k) != v || m.String(k) != strconv.FormatInt(v, 10) {
			return bad(m.Int64(k))
		}
	case uint64:
		if m.UInt64(k) != v || m.String(k) != strconv.FormatUint(v, 10) {
			return bad(m.UInt64(k))
		}
	case float64:
		if m.Float64(k) != v {
			return bad(m.Float64(k))
		}
	case int:
		if m.Int(k) != v || m.Int64(k) != int64(v) {
			return bad(m.Int(k))
		}
	case int32:
		if m.Int(k) != int(v) || m.Int64(k) != int64(v) || m.Float64(k) != float64(v) {
			return bad(m.Int(k))
		}
	case uint32:
		if m.UInt64(k) != uint64(v) || m.Int(k) != int(v) || m.Float64(k) != float64(v) {
			return bad(m.UInt64(k))
		}
	}
	return ""
}

func TestC12_RoundTrip(t *testing.T) {
	vh.Run(t, 4000, 60000, "cursors of 1 to 5 values: any text, integers of 64 bits, floats, booleans, lists and maps of them; read back with the accessors; non-trivial: at least two values",
		func(rt *rapid.T, c *vh.Case) {
			m := values.MapAny{}
			n := rapid.IntRange(1, 5).Draw(rt, "n")
			long := rapid.IntRange(0, 127).Draw(rt, "long") == 50
			c.ClassIf(long, "long")
			if long {
				n = rapid.IntRange(40, 120).Draw(rt, "n")
				m["long"] = strings.Repeat(rapid.SampledFrom([]string{"x", "é", "日本", "\""}).Draw(rt, "unit"), rapid.SampledFrom([]int{300, 2000, 5000, 40000}).Draw(rt, "length"))
			}
			for range n {
				k := rapid.OneOf(rapid.StringMatching(`[a-z]{1,5}`), textGen).Draw(rt, "key")
				k = strings.ToValidUTF8(k, "?")
				if rapid.IntRange(0, 5).Draw(rt, "nest") == 0 {
					m[k] = map[string]any{"v": scalar(rt), "l": []any{scalar(rt), scalar(rt)}}
				} else {
					m[k] = scalar(rt)
				}
			}
			cur := xdb.EncodeCursor(m)
			for _, r := range cur {
				if !strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", r) {
					rt.Fatalf("cursor %q is not safe in an URL", cur)
				}
			}
			back, err := xdb.DecodeCursor(cur)
			if err != nil {
				rt.Fatalf("%v: %v", m, err)
			}
			if len(back) != len(m) {
				rt.Fatalf("%v reads back as %v", m, back)
			}
			for k, v := range m {
				if nm, ok := v.(map[string]any); ok {
					b := back.Map(k)
					if s := sameAccess(nm["v"], b, "v"); s != "" {
						rt.Fatalf("%s", s)
					}
					l := b.Slice("l")
					if len(l) != 2 {
						rt.Fatalf("%v reads back as %v", nm, b)
					}
					for i, x := range nm["l"].([]any) {
						if s := sameAccess(x, values.MapAny{"l": l[i]}, "l"); s != "" {
							rt.Fatalf("%s", s)
						}
					}
					continue
				}
				if s := sameAccess(v, back, k); s != "" {
					rt.Fatalf("%s", s)
				}
			}
			c.NonTrivial(len(m) > 1, fmt.Sprintf("%v", m))
		})
}

func TestC12_Refuse(t *testing.T) {
	vh.Run(t, 4000, 60000, "arbitrary strings, base64 of arbitrary strings, and damaged cursors; a string is accepted exactly if it is base64 of a JSON object; non-trivial: the string is base64",
		func(rt *rapid.T, c *vh.Case) {
			var s string
			switch rapid.IntRange(0, 3).Draw(rt, "kind") {
			case 0:
				s = rapid.String().Draw(rt, "s")
			case 1:
				s = base64.RawURLEncoding.EncodeToString([]byte(textGen.Draw(rt, "s")))
			case 2:
				js := rapid.SampledFrom([]string{`{}`, `{"a":1}`, `{"a":1}{`, `{"a":1} {}`, `[1]`, `"x"`, `1`, `{"a":}`, `{"a":1e999}`, `{"a":-1e400}`, `{"a":{"b":[1e999]}}`, ` {"a": "b"} `, `{"a":1`, `{"a":01}`, `{a:1}`, ``, `true`, "{\"a\":\"\x01\"}"}).Draw(rt, "js")
				s = base64.RawURLEncoding.EncodeToString([]byte(js))
			case 3:
				b := []byte(xdb.EncodeCursor(values.MapAny{"after": 12345678, "x": "yz"}))
				i := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
				switch rapid.IntRange(0, 2).Draw(rt, "damage") {
				case 0:
					b[i] = byte(rapid.IntRange(0, 255).Draw(rt, "byte"))
				case 1:
					b = b[:i]
				case 2:
					b = append(b, '=')
				}
				s = string(b)
			}
			raw, err := base64.RawURLEncoding.DecodeString(s)
			isB64 := err == nil
			var obj map[string]any
			ok := isB64 && json.Unmarshal(raw, &obj) == nil && obj != nil
			if isB64 && strings.TrimSpace(string(raw)) == "null" {
				return // neither
			}
			m, err := xdb.DecodeCursor(s)
			if (err == nil) != ok {
				rt.Fatalf("cursor %q (%q): %v, expected ok=%v", s, raw, err, ok)
			}
			if err != nil && m != nil {
				rt.Fatalf("cursor %q: %v and %v", s, m, err)
			}
			if ok && len(m) != len(obj) {
				rt.Fatalf("cursor %q: %v, expected %v", s, m, obj)
			}
			c.ClassIf(ok, "accepted")
			c.NonTrivial(isB64 && len(raw) > 0, s)
		})
}

// ---- C13 ----

func TestC13_Faults(t *testing.T) {
	vh.Run(t, 6000, 80000, "result sets of 0 to 12 rows, sometimes of up to 2600, rarely of 140000, read by each of the functions, without a fault or with one, whose error may have a well-known cause (cancelled, EOF, done, no rows): the query fails, the n-th row fails, the end fails, the n-th scan is refused, the n-th value does not fit, the context is cancelled at the n-th row; non-trivial: a fault inside of the result set",
		func(rt *rapid.T, c *vh.Case) {
			n := rapid.IntRange(0, 12).Draw(rt, "rows")
			if rapid.IntRange(0, 63).Draw(rt, "many") == 5 {
				n = rapid.IntRange(490, 2600).Draw(rt, "manyRows")
			}
			if rapid.IntRange(0, 1023).Draw(rt, "huge") == 77 {
				n = rapid.IntRange(65530, 140000).Draw(rt, "hugeRows")
			}
			cause := rapid.SampledFrom(causes).Draw(rt, "cause")
			errFault := withCause("injected fault", cause)
			errScan = withCause("scan refused", cause)
			fault := rapid.SampledFrom([]string{"none", "query", "next", "next", "end", "scan", "value", "cancel", "badconn"}).Draw(rt, "fault")
			at := rapid.IntRange(0, max(n-1, 0)).Draw(rt, "at")
			if (fault == "next" || fault == "scan" || fault == "value" || fault == "cancel") && n == 0 {
				fault = "end"
			}
			fn := rapid.SampledFrom([]string{"row", "list", "query", "page", "cursor", "stmt", "stmtNoDest", "stmtRow", "stmtRowNoDest"}).Draw(rt, "fn")
			data := mkRows(n)
			if fault == "value" {
				data[at][0] = "not a number"
			}
			cctx, cancel := context.WithCancel(ctx)
			defer cancel()
			bad := 0
			db := &fakedb.DB{}
			db.Fault = func(e fakedb.Event, k int) error {
				switch {
				case fault == "query" && e == fakedb.Query,
					fault == "next" && e == fakedb.Next && k == at,
					fault == "end" && e == fakedb.Next && k == n:
					return errFault
				case fault == "badconn" && e == fakedb.Next && k == at:
					bad++
					return driver.ErrBadConn
				case fault == "cancel" && e == fakedb.Next && k == at:
					cancel()
				}
				return nil
			}
			db.Handler = func(q string, args []driver.NamedValue) (*fakedb.Result, error) {
				return &fakedb.Result{Cols: []string{"id", "name"}, Rows: data}, nil
			}
			conn := db.Open()
			conn.SetMaxOpenConns(1)
			defer conn.Close()
			refuse, scanned = -1, 0
			if fault == "scan" {
				refuse = at
			}
			defer func() { refuse = -1 }()

			var res result
			var cres cursorResult
			var list []*rec
			var err error
			single, seen := false, 0
			scanOwn := func(rows *sql.Rows) {
				// the caller's own scan
				r := &rec{}
				if r.ScanRow(rows) == nil {
					list = append(list, r)
				}
			}
			switch fn {
			case "row":
				single = true
				var r *rec
				r, err = xdb.QueryRow[rec](cctx, conn, "q")
				if err == nil {
					list = []*rec{r}
				} else if r != nil {
					rt.Fatalf("a row and an error: %v %v", r, err)
				}
			case "list":
				list, err = xdb.ExecuteListQuery[rec](cctx, conn, "q")
				if err != nil && list != nil {
					rt.Fatalf("%d rows and an error: %v", len(list), err)
				}
			case "query":
				err = xdb.ExecuteQuery(cctx, conn, &res, "q")
				list = res.rows
			case "page":
				err = xdb.ExecuteQueryWithPagination(cctx, conn, &res, "q", n+1, 0)
				list = res.rows
			case "cursor":
				err = xdb.ExecuteQueryWithCursor(cctx, conn, func(*rec) string { return "" }, &cres, "q", "", n+1)
				list = cres.rows
			case "stmt":
				var r rec
				err = xsql.From("t").Select("id").To(&r.ID).Select("name").To(&r.Name).QueryAndClose(cctx, conn, func(*sql.Rows) {
					cp := r
					list = append(list, &cp)
				})
				seen = len(list)
				if fault == "scan" {
					fault = "none"
				}
			case "stmtNoDest":
				if fault == "value" || fault == "scan" {
					fault = "none"
					refuse = -1
					data = mkRows(n)
				}
				err = xsql.From("t").Select("id, name").QueryAndClose(cctx, conn, scanOwn)
				seen = len(list)
			case "stmtRow":
				single = true
				var r rec
				err = xsql.From("t").Select("id").To(&r.ID).Select("name").To(&r.Name).QueryRowAndClose(cctx, conn)
				if err == nil {
					list = []*rec{&r}
				}
				if fault == "scan" {
					fault = "none"
				}
			}
			what := fmt.Sprintf("%s, %d rows, fault %s at %d", fn, n, fault, at)
			if fn == "stmtRowNoDest" {
				// what it returns for a row is not specified, the row is released
				err = xsql.From("t").Select("id, name").QueryRowAndClose(cctx, conn)
				if err == nil && (fault == "query" || n == 0) {
					rt.Fatalf("%s: no error", what)
				}
				if fault != "cancel" {
					if _, rows, _ := db.Leaks(); rows != 0 || conn.Stats().InUse != 0 {
						rt.Fatalf("%s: %d result sets and %d connections are left in use", what, rows, conn.Stats().InUse)
					}
				}
				c.Class(fn)
				return
			}
			mustFail := false
			switch fault {
			case "query":
				mustFail = true
			case "next", "scan", "value", "badconn":
				mustFail = !single || at == 0
				if fault == "badconn" && bad == 0 {
					mustFail = false
				}
			case "end":
				mustFail = !single || n == 0
			}
			if single && n == 0 && fault != "query" {
				mustFail = true
				if (fault == "none" || fault == "cancel") && !errors.Is(err, sql.ErrNoRows) {
					rt.Fatalf("%s: %v, expected no rows", what, err)
				}
			}
			if mustFail && err == nil {
				rt.Fatalf("%s: no error, %d rows", what, len(list))
			}
			if !mustFail && fault != "cancel" && err != nil {
				rt.Fatalf("%s: %v", what, err)
			}
			if mustFail && n > 0 {
				switch {
				case fault == "scan" && !errors.Is(err, errScan),
					(fault == "query" || fault == "next" || fault == "end") && !errors.Is(err, errFault):
					rt.Fatalf("%s: another error: %v", what, err)
				}
			}
			if err == nil {
				want := n
				if single {
					want = 1
				}
				checkRows(rt, list, 0, want, what)
			} else {
				if res.calls+cres.calls != 0 {
					rt.Fatalf("%s: the result is set in spite of %v", what, err)
				}
				if seen > 0 {
					checkRows(rt, list, 0, seen, what)
				}
			}
			if err == nil && (fn == "query" || fn == "page" || fn == "cursor") && res.calls+cres.calls != 1 {
				rt.Fatalf("%s: the result is set %d times", what, res.calls+cres.calls)
			}
			// the connection is free again
			if fault == "cancel" {
				// the rows are closed by a goroutine of database/sql
				for range 2000 {
					if conn.Stats().InUse == 0 {
						break
					}
					time.Sleep(time.Millisecond)
				}
			}
			if _, rows, _ := db.Leaks(); rows != 0 || conn.Stats().InUse != 0 {
				rt.Fatalf("%s: %d result sets and %d connections are left in use", what, rows, conn.Stats().InUse)
			}
			c.Class(fn)
			c.Class("fault " + fault)
			c.NonTrivial(fault != "none" && fault != "query" && n > 0, what)
		})
}
