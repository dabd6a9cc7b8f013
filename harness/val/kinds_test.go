package val

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// ---- generators ----

var u64Gen = rapid.OneOf(
	rapid.Uint64Range(0, 12),
	rapid.Custom(func(t *rapid.T) uint64 {
		// around a power of two or ten
		var b uint64
		if rapid.Bool().Draw(t, "ten") {
			b = uint64(math.Pow10(rapid.IntRange(0, 19).Draw(t, "exp")))
		} else {
			b = 1 << rapid.IntRange(0, 63).Draw(t, "bit")
		}
		return b + uint64(rapid.IntRange(-2, 2).Draw(t, "off"))
	}),
	rapid.SampledFrom([]uint64{math.MaxUint64, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt32, math.MaxInt32 + 1}),
	rapid.Uint64(),
)

var i64Gen = rapid.Custom(func(t *rapid.T) int64 { return int64(u64Gen.Draw(t, "u")) })

var f64Gen = rapid.OneOf(
	rapid.SampledFrom([]float64{0, 1, -1, 0.1, 1.5, 1e-7, 1e21, math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, 123456.789, 1 << 53, 1<<53 + 2}),
	rapid.Float64(),
	rapid.Custom(func(t *rapid.T) float64 { return float64(rapid.IntRange(-1e6, 1e6).Draw(t, "i")) }),
)

// databases have infinity and NaN, too
var f64SQL = rapid.OneOf(f64Gen, f64Gen, f64Gen, rapid.SampledFrom([]float64{math.Inf(1), math.Inf(-1), math.NaN()}))

// valid UTF-8
var strGen = rapid.OneOf(
	rapid.SampledFrom([]string{"", "a", "b", "null", "NULL", "0", `"`, `\`, "{}", "[]", "a b", "\x00", "<&>", "\u2028", "日本", "🙂", "'", "\t\n", "{a}", ","}),
	rapid.StringN(0, 12, -1),
)

// rare is true once in n draws.
func rare(t *rapid.T, n int) bool { return rapid.IntRange(0, n-1).Draw(t, "rare") == n/2 }

// longGen are texts, rarely long ones
var longGen = rapid.Custom(func(t *rapid.T) string {
	if rare(t, 64) {
		s := strGen.Draw(t, "part") + rapid.SampledFrom([]string{"x", "é", "日", "a\n", "'\""}).Draw(t, "unit")
		n := rapid.SampledFrom([]int{257, 1025, 4001, 8001, 65537}).Draw(t, "length")
		return strings.Repeat(s, n/len(s)+1) + "end"
	}
	return strGen.Draw(t, "s")
})

// many is a count, rarely large.
func many(t *rapid.T, n int) int {
	if rare(t, 128) {
		return rapid.SampledFrom([]int{17, 33, 65, 130, 260, 400}).Draw(t, "many")
	}
	return rapid.IntRange(0, n).Draw(t, "n")
}

// texts has up to n texts, rarely more.
func texts(t *rapid.T, n int) []string {
	res := []string{}
	n = many(t, n)
	for i := range n {
		s := strGen.Draw(t, "s")
		if n > 16 {
			s += strconv.Itoa(i)
		}
		res = append(res, s)
	}
	return res
}

var zones = []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("x", -7*3600-1800), time.FixedZone("", 14*3600), time.Local}

// instants of the years 1 to 9999
var timeGen = rapid.Custom(func(t *rapid.T) time.Time {
	lo := time.Date(1, 1, 3, 0, 0, 0, 0, time.UTC).Unix()
	hi := time.Date(9999, 12, 29, 0, 0, 0, 0, time.UTC).Unix()
	sec := rapid.OneOf(
		rapid.Int64Range(lo, hi),
		rapid.Int64Range(-3600, 3600),
		rapid.Int64Range(1600000000, 2000000000),
		rapid.SampledFrom([]int64{0, -1, 1, 1582934400, 951782400, -62135596800 + 86400*3}),
	).Draw(t, "sec")
	ns := rapid.OneOf(
		rapid.SampledFrom([]int64{0, 0, 1, 999, 1000, 999999, 1000000, 123000000, 120000000, 100000000, 999000000, 999999999}),
		rapid.Int64Range(0, 999999999),
	).Draw(t, "ns")
	return time.Unix(sec, ns).In(rapid.SampledFrom(zones).Draw(t, "zone"))
})

func u32hex(b []byte) string { return fmt.Sprintf("%X", b) }

// ---- the column types ----

func (k kind) GoString() string { return k.name }

// kind is a column type: how to make values, and how a driver returns them.
type kind struct {
	name  string
	gen   func(t *rapid.T) any
	new   func() sql.Scanner
	get   func(sql.Scanner) any
	value func(v any) (driver.Value, error)
	// forms are the representations of a non-null value
	forms func(t *rapid.T, v any) []any
	// bad is something that must be refused
	bad  func(t *rapid.T) any
	zero func(v any) bool // is written as NULL
	eq   func(a, b any) bool
}

func mk[T driver.Valuer, P interface {
	*T
	sql.Scanner
}](name string, gen func(t *rapid.T) T, forms func(t *rapid.T, v T) []any, bad func(t *rapid.T) any, zero func(v T) bool, eq func(a, b T) bool) kind {
	if eq == nil {
		eq = func(a, b T) bool { return reflect.DeepEqual(a, b) }
	}
	return kind{
		name: name,
		gen:  func(t *rapid.T) any { return gen(t) },
		new:  func() sql.Scanner { return P(new(T)) },
		get:  func(s sql.Scanner) any { return *(s.(P)) },
		value: func(v any) (driver.Value, error) {
			return v.(T).Value()
		},
		forms: func(t *rapid.T, v any) []any { return forms(t, v.(T)) },
		bad:   bad,
		zero:  func(v any) bool { return zero(v.(T)) },
		eq:    func(a, b any) bool { return eq(a.(T), b.(T)) },
	}
}

func oneOfAny(vals ...any) func(t *rapid.T) any {
	return func(t *rapid.T) any { return rapid.SampledFrom(vals).Draw(t, "bad") }
}

var someTime = time.Date(2024, 2, 29, 1, 2, 3, 0, time.UTC)

func ints(v int64) []any {
	res := []any{v, int(v)}
	if v >= 0 {
		res = append(res, uint64(v), uint(v))
	}
	return res
}

var kinds = []kind{
	mk("ID", func(t *rapid.T) xdb.ID { return xdb.NewID(u64Gen.Draw(t, "id")) },
		func(t *rapid.T, v xdb.ID) []any {
			u := v.UInt64()
			return []any{int64(u), u, int(u), uint(u)}
		},
		oneOfAny("x", "", "-", []byte("x"), someTime, 1.5, true),
		func(v xdb.ID) bool { return v.UInt64() == 0 },
		func(a, b xdb.ID) bool { return a.UInt64() == b.UInt64() && a.String() == b.String() }),
	mk("ID32", func(t *rapid.T) xdb.ID32 { return xdb.ID32(u64Gen.Draw(t, "id")) },
		func(t *rapid.T, v xdb.ID32) []any { return ints(int64(v)) },
		func(t *rapid.T) any {
			big := rapid.Uint64Range(math.MaxUint32+1, math.MaxUint64).Draw(t, "big")
			return rapid.SampledFrom([]any{int64(math.MaxUint32 + 1), int64(math.MaxInt64), int64(-1), -5, int64(math.MinInt64), big, uint(big), int64(big>>1 | 1<<40), int(big>>1 | 1<<41), uint64(math.MaxUint64), uint(math.MaxUint64), "x", []byte("x"), someTime, 1.5, true}).Draw(t, "bad")
		},
		func(v xdb.ID32) bool { return v == 0 }, nil),
	mk("Int64", func(t *rapid.T) xdb.Int64 { return xdb.Int64(i64Gen.Draw(t, "i")) },
		func(t *rapid.T, v xdb.Int64) []any { return ints(int64(v)) },
		func(t *rapid.T) any {
			big := rapid.Uint64Range(math.MaxInt64+1, math.MaxUint64).Draw(t, "big")
			return rapid.SampledFrom([]any{big, uint(big), "x", []byte("x"), someTime, 1.5, true}).Draw(t, "bad")
		},
		func(v xdb.Int64) bool { return v == 0 }, nil),
	mk("Int32", func(t *rapid.T) xdb.Int32 { return xdb.Int32(i64Gen.Draw(t, "i")) },
		func(t *rapid.T, v xdb.Int32) []any { return ints(int64(v)) },
		func(t *rapid.T) any {
			big := rapid.Uint64Range(math.MaxInt32+1, math.MaxInt64).Draw(t, "big")
			return rapid.SampledFrom([]any{int64(big), -int64(big) - 1, int(big), uint(big), big, uint64(math.MaxUint64), uint(math.MaxUint64), big<<1 | 1, uint(big<<1 | 1), int64(math.MaxInt32 + 1), int64(math.MinInt32 - 1), "x", []byte("x"), someTime, 1.5, true}).Draw(t, "bad")
		},
		func(v xdb.Int32) bool { return v == 0 }, nil),
	mk("Float", func(t *rapid.T) xdb.Float { return xdb.Float(f64SQL.Draw(t, "f")) },
		func(t *rapid.T, v xdb.Float) []any {
			f := float64(v)
			res := []any{f, []byte(strconv.FormatFloat(f, 'g', -1, 64)), []byte(strconv.FormatFloat(f, 'f', -1, 64))}
			if float64(float32(f)) == f {
				res = append(res, float32(f))
			}
			if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
				res = append(res, ints(int64(f))...)
			}
			return res
		},
		oneOfAny("x", []byte("x"), []byte(""), []byte("1,5"), []byte("1.5x"), someTime, true),
		func(v xdb.Float) bool { return v == 0 },
		func(a, b xdb.Float) bool { return a == b || a != a && b != b }),
	mk("Bool", func(t *rapid.T) xdb.Bool { return xdb.Bool(rapid.Bool().Draw(t, "b")) },
		func(t *rapid.T, v xdb.Bool) []any {
			if v {
				return append(ints(1), true, "t", []byte("t"), []byte("1"), "true")
			}
			return append(ints(0), false, "f", []byte("f"), []byte("0"), "false")
		},
		oneOfAny("x", []byte("x"), someTime, 1.5),
		func(v xdb.Bool) bool { return !bool(v) }, nil),
	mk("Time", func(t *rapid.T) xdb.Time { return xdb.Time(timeGen.Draw(t, "t")) },
		func(t *rapid.T, v xdb.Time) []any {
			x := time.Time(v)
			z := x.In(rapid.SampledFrom(zones).Draw(t, "z"))
			res := []any{x, x.UTC(), z}
			if x.Equal(x.Truncate(time.Millisecond)) {
				res = append(res, z.Format(time.RFC3339Nano), x.UTC().Format(time.RFC3339Nano))
			}
			return res
		},
		oneOfAny(int64(5), true, 1.5, []byte("x")),
		func(v xdb.Time) bool { return time.Time(v).IsZero() },
		func(a, b xdb.Time) bool { return time.Time(a).Equal(time.Time(b)) }),
	mk("NULLString", func(t *rapid.T) xdb.NULLString {
		if rapid.IntRange(0, 3).Draw(t, "bytes") == 0 {
			return xdb.NULLString(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "b"))
		}
		return xdb.NULLString(longGen.Draw(t, "s"))
	},
		func(t *rapid.T, v xdb.NULLString) []any { return []any{string(v), []byte(v)} },
		oneOfAny(struct{}{}, []int{1}, map[string]string{}),
		func(v xdb.NULLString) bool { return v == "" }, nil),
	mk("UUID", func(t *rapid.T) xdb.UUID {
		if rapid.IntRange(0, 9).Draw(t, "null") == 0 {
			return ""
		}
		b := rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "b")
		return xdb.UUID(strings.Join([]string{u32hex(b[:4]), u32hex(b[4:6]), u32hex(b[6:8]), u32hex(b[8:10]), u32hex(b[10:])}, "-"))
	},
		func(t *rapid.T, v xdb.UUID) []any {
			if v == "" {
				return []any{""}
			}
			var b [16]byte
			n, i := 0, 0
			for n < 16 {
				if v[i] == '-' {
					i++
					continue
				}
				x, _ := strconv.ParseUint(string(v[i:i+2]), 16, 8)
				b[n] = byte(x)
				n, i = n+1, i+2
			}
			// SQL Server: the first three groups are little-endian
			ms := []byte{b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]}
			return []any{string(v), []byte(v), ms}
		},
		func(t *rapid.T) any {
			n := rapid.SampledFrom([]int{1, 4, 8, 15, 17, 20, 32}).Draw(t, "n")
			return rapid.SampledFrom([]any{make([]byte, n), int64(5), true, 1.5, someTime}).Draw(t, "bad")
		},
		func(v xdb.UUID) bool { return v == "" }, nil),
	mk("Strings", func(t *rapid.T) xdb.Strings {
		if rapid.IntRange(0, 9).Draw(t, "null") == 0 {
			return nil
		}
		return append(xdb.Strings{}, texts(t, 5)...)
	},
		func(t *rapid.T, v xdb.Strings) []any {
			js, _ := json.Marshal(v)
			return []any{string(js), js}
		},
		oneOfAny("x", `{"a":"b"}`, `[1]`, `["a"`, `"a"`, []byte(`[1]`), []byte("x"), []byte(`["a",]`), int64(5), true, 1.5, someTime),
		func(v xdb.Strings) bool { return v == nil }, nil),
	mk("Metadata", genMetadata,
		func(t *rapid.T, v xdb.Metadata) []any {
			js, _ := json.Marshal(v)
			return []any{string(js), js}
		},
		oneOfAny("x", `{"a":1}`, `["a"]`, `{"a"`, `{"a":["b"]}`, `{"a":{}}`, []byte(`{"a":true}`), []byte("x"), `{"a":"b"}x`, int64(5), true, 1.5, someTime),
		func(v xdb.Metadata) bool { return len(v) == 0 },
		func(a, b xdb.Metadata) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }),
	mk("KVSet", genKVSet,
		func(t *rapid.T, v xdb.KVSet) []any {
			js, _ := json.Marshal(v)
			return []any{string(js), js}
		},
		oneOfAny("x", `{"a":1}`, `["a"]`, `{"a"`, `{"a":"b"}`, `{"a":[1]}`, []byte(`{"a":true}`), []byte("x"), `{"a":["b"]}x`, int64(5), true, 1.5, someTime),
		func(v xdb.KVSet) bool { return len(v) == 0 },
		func(a, b xdb.KVSet) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }),
	mk("IDArray", func(t *rapid.T) xdb.IDArray {
		var res xdb.IDArray
		for range many(t, 6) {
			res = append(res, xdb.NewID(u64Gen.Draw(t, "id")))
		}
		return res
	},
		func(t *rapid.T, v xdb.IDArray) []any {
			var sb strings.Builder
			sb.WriteString("{")
			for i, id := range v {
				if i > 0 {
					sb.WriteString(",")
				}
				sb.WriteString(strconv.FormatInt(int64(id.UInt64()), 10))
			}
			sb.WriteString("}")
			return []any{sb.String(), []byte(sb.String())}
		},
		oneOfAny("x", "", "{a}", "{1,99999999999999999999}", "{1,2", "{{1},{2}}", "{1,}", []byte("{1,x}"), int64(5), true, 1.5, someTime),
		func(v xdb.IDArray) bool { return len(v) == 0 },
		func(a, b xdb.IDArray) bool {
			if len(a) != len(b) {
				return false
			}
			for i := range a {
				if a[i].UInt64() != b[i].UInt64() || a[i].String() != b[i].String() {
					return false
				}
			}
			return true
		}),
}

func genMetadata(t *rapid.T) xdb.Metadata {
	if rapid.IntRange(0, 9).Draw(t, "null") == 0 {
		return nil
	}
	m := xdb.Metadata{}
	n := many(t, 6)
	for i := range n {
		k := strGen.Draw(t, "k")
		if n > 16 {
			k += strconv.Itoa(i)
		}
		m[k] = longGen.Draw(t, "v")
	}
	return m
}

func genKVSet(t *rapid.T) xdb.KVSet {
	if rapid.IntRange(0, 9).Draw(t, "null") == 0 {
		return nil
	}
	m := xdb.KVSet{}
	n := many(t, 5)
	for i := range n {
		var l []string
		if rapid.IntRange(0, 9).Draw(t, "nil") > 0 {
			l = texts(t, 3)
		}
		k := strGen.Draw(t, "k")
		if n > 16 {
			k += strconv.Itoa(i)
		}
		m[k] = l
	}
	return m
}

// show is the full content of a value.
func show(v any) string {
	switch x := v.(type) {
	case xdb.ID:
		return fmt.Sprintf("%d/%s", x.UInt64(), x.String())
	case xdb.IDArray:
		return fmt.Sprintf("%v/%v", x.List(), x.Strings())
	case xdb.Time:
		return time.Time(x).Format(time.RFC3339Nano)
	case xdb.Float:
		return strconv.FormatFloat(float64(x), 'g', -1, 64)
	}
	return fmt.Sprintf("%#v", v)
}

func showForm(v any) string {
	switch x := v.(type) {
	case []byte:
		return fmt.Sprintf("[]byte(%q)", x)
	case time.Time:
		return x.Format(time.RFC3339Nano)
	}
	return fmt.Sprintf("%T(%#v)", v, v)
}

// ---- C19 ----

func TestC19_RoundTrip(t *testing.T) {
	vh.Run(t, 12000, 200000, "a value of one of the 13 column types, boundaries included, is written as an SQL argument and read back in each representation a driver may return; NULL and things which must be refused are read, too; non-trivial: not the zero value",
		func(rt *rapid.T, c *vh.Case) {
			defer localZone(rt)()
			k := rapid.SampledFrom(kinds).Draw(rt, "type")
			v := k.gen(rt)
			before := show(v)
			dv, err := k.value(v)
			if err != nil {
				rt.Fatalf("%s %s: value: %v", k.name, show(v), err)
			}
			if after := show(v); after != before {
				rt.Fatalf("%s %s: became %s by writing it", k.name, before, after)
			}
			if !driver.IsValue(dv) {
				rt.Fatalf("%s %s: %T is no driver value", k.name, show(v), dv)
			}
			if (dv == nil) != k.zero(v) {
				rt.Fatalf("%s %s: written as %s, expected NULL: %v", k.name, show(v), showForm(dv), k.zero(v))
			}
			read := func(src any) {
				s := k.new()
				if err := s.Scan(src); err != nil {
					rt.Fatalf("%s %s: scan of %s: %v", k.name, show(v), showForm(src), err)
				}
				if got := k.get(s); !k.eq(got, v) {
					rt.Fatalf("%s %s: scan of %s: %s", k.name, show(v), showForm(src), show(got))
				}
			}
			read(dv)
			if s, ok := dv.(string); ok {
				read([]byte(s)) // text may come back as bytes
			}
			if k.zero(v) {
				if dv2, err := k.value(k.get(k.new())); err != nil || dv2 != nil {
					rt.Fatalf("%s: the zero value is written as %v %v", k.name, dv2, err)
				}
				read(nil)
			}
			// zero as a value of its own as well: other programs write it
			for _, f := range k.forms(rt, v) {
				read(f)
			}
			if strings.Contains("Strings Metadata KVSet NULLString", k.name) {
				for _, src := range []any{"", []byte{}, []byte(nil)} {
					s := k.new()
					if err := s.Scan(dv); err != nil {
						rt.Fatalf("%s %s: scan of %s: %v", k.name, show(v), showForm(dv), err)
					}
					if err := s.Scan(src); err != nil {
						rt.Fatalf("%s: scan of %s: %v", k.name, showForm(src), err)
					}
					if got := k.get(s); reflect.ValueOf(got).Len() != 0 {
						rt.Fatalf("%s: scan of the empty text %s: %s", k.name, showForm(src), show(got))
					}
				}
			}
			bad := k.bad(rt)
			s := k.new()
			if err := s.Scan(bad); err == nil {
				rt.Fatalf("%s: scan of %s: no error, and %s", k.name, showForm(bad), show(k.get(s)))
			}
			c.Class(k.name)
			c.NonTrivial(!k.zero(v), k.name+" "+show(v))
		})
}

// ---- C20 ----

func TestC20_Reuse(t *testing.T) {
	vh.Run(t, 8000, 120000, "two to eight values (written ones in any representation, NULL, the empty text, the last one with another case or white space, and things which are refused) are read into one variable, each is read into a new variable as well, and copies of the earlier ones are watched; the driver's buffer is overwritten after every read; non-trivial: at least two successful reads",
		func(rt *rapid.T, c *vh.Case) {
			defer localZone(rt)()
			k := rapid.SampledFrom(kinds).Draw(rt, "type")
			s := k.new()
			type old struct {
				v    any
				text string
			}
			var olds []old
			var log []string
			var last any
			good := 0
			for range rapid.IntRange(2, 8).Draw(rt, "reads") {
				var src any
				switch rapid.IntRange(0, 7).Draw(rt, "source") {
				case 0:
					src = nil
				case 1:
					src = k.bad(rt)
				case 2:
					src = rapid.SampledFrom([]any{"", []byte{}}).Draw(rt, "empty")
				case 3:
					// nearly the last one again
					f := rapid.SampledFrom([]func(string) string{strings.ToLower, strings.ToUpper, strings.TrimSpace, func(s string) string { return s + " " }, strings.Clone}).Draw(rt, "change")
					switch x := last.(type) {
					case string:
						src = f(x)
					case []byte:
						src = []byte(f(string(x)))
					default:
						src = last
					}
				default:
					v := k.gen(rt)
					if k.zero(v) {
						src, _ = k.value(v)
					} else {
						src = rapid.SampledFrom(k.forms(rt, v)).Draw(rt, "form")
					}
				}
				last = src
				fresh := k.new()
				var ferr, err error
				if b, ok := src.([]byte); ok {
					b1, b2 := append([]byte(nil), b...), append([]byte(nil), b...)
					ferr, err = fresh.Scan(b1), s.Scan(b2)
					for i := range b2 {
						b2[i] = '#'
					}
				} else {
					ferr, err = fresh.Scan(src), s.Scan(src)
				}
				log = append(log, showForm(src))
				if (err == nil) != (ferr == nil) {
					rt.Fatalf("%s: reading %s: %v, into a new variable: %v", k.name, strings.Join(log, "; "), err, ferr)
				}
				if err == nil {
					good++
					got, want := k.get(s), k.get(fresh)
					if !k.eq(got, want) {
						rt.Fatalf("%s: reading %s: %s, into a new variable: %s", k.name, strings.Join(log, "; "), show(got), show(want))
					}
				}
				for i, o := range olds {
					if now := show(o.v); now != o.text {
						rt.Fatalf("%s: reading %s changed the value %d read before from %s to %s", k.name, strings.Join(log, "; "), i, o.text, now)
					}
				}
				if err == nil {
					v := k.get(s)
					olds = append(olds, old{v, show(v)})
				}
			}
			c.Class(k.name)
			c.NonTrivial(good > 1, k.name+" "+strings.Join(log, "; "))
		})
}
