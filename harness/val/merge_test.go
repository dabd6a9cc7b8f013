package val

import (
	"database/sql"
	"errors"
	"fmt"
	"maps"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"

	cerrors "github.com/cockroachdb/errors"
	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/vh"
	"pgregory.net/rapid"
)

// ---- C23 ----

func TestC23_Maps(t *testing.T) {
	vh.Run(t, 4000, 60000, "up to 12 steps over three metadata and three key-value sets with arbitrary keys: merge, list, iterate with an early stop, write and read; all of them are compared with models after each step; non-trivial: a merge of two sets with a common key",
		func(rt *rapid.T, c *vh.Case) {
			var ms [3]xdb.Metadata
			var kv [3]xdb.KVSet
			var mm [3]map[string]string
			var km [3]map[string][]string
			for i := range 3 {
				ms[i], kv[i] = genMetadata(rt), genKVSet(rt)
				mm[i], km[i] = maps.Clone(ms[i]), maps.Clone(kv[i])
			}
			var log []string
			common := false
			for range rapid.IntRange(1, 12).Draw(rt, "steps") {
				i, j := rapid.IntRange(0, 2).Draw(rt, "i"), rapid.IntRange(0, 2).Draw(rt, "j")
				op := rapid.SampledFrom([]string{"merge", "merge", "mergeKV", "mergeKV", "list", "list", "range", "sql", "set"}).Draw(rt, "op")
				log = append(log, fmt.Sprintf("%s %d %d", op, i, j))
				what := func() string { return fmt.Sprintf("%s: %q %q", strings.Join(log, "; "), mm, km) }
				c.Class(op)
				switch op {
				case "merge":
					for k := range ms[j] {
						if _, ok := ms[i][k]; ok && i != j {
							common = true
						}
					}
					p := ms[i].Merge(ms[j])
					if p != &ms[i] || ms[i] == nil {
						rt.Fatalf("%s: returns another map", what())
					}
					if mm[i] == nil {
						mm[i] = map[string]string{}
					}
					maps.Copy(mm[i], mm[j])
				case "mergeKV":
					for k := range kv[j] {
						if _, ok := kv[i][k]; ok && i != j {
							common = true
						}
					}
					p := kv[i].Merge(kv[j])
					if p != &kv[i] || kv[i] == nil {
						rt.Fatalf("%s: returns another map", what())
					}
					if km[i] == nil {
						km[i] = map[string][]string{}
					}
					maps.Copy(km[i], km[j])
				case "set":
					// the merged maps are independent
					k, v := strGen.Draw(rt, "k"), strGen.Draw(rt, "v")
					if ms[i] != nil {
						ms[i][k], mm[i][k] = v, v
					}
					if kv[i] != nil {
						kv[i][k], km[i][k] = []string{v}, []string{v}
					}
				case "list":
					keys := slices.Collect(maps.Keys(mm[i]))
					sort.Strings(keys)
					var pairs []string
					for _, k := range keys {
						pairs = append(pairs, k, mm[i][k])
					}
					got := ms[i].Keys()
					sort.Strings(got)
					if !slices.Equal(got, keys) || !slices.Equal(ms[i].OrderedKeys(), keys) || !slices.Equal(ms[i].OrderedPairs(), pairs) {
						rt.Fatalf("%s: keys %q, ordered %q, pairs %q", what(), got, ms[i].OrderedKeys(), ms[i].OrderedPairs())
					}
				case "range":
					keys := slices.Collect(maps.Keys(mm[i]))
					sort.Strings(keys)
					stop := rapid.IntRange(0, len(keys)+1).Draw(rt, "stop")
					var seen []string
					f := func(k, v string) bool {
						if mm[i][k] != v {
							rt.Fatalf("%s: %q is %q", what(), k, v)
						}
						seen = append(seen, k)
						return len(seen) != stop
					}
					want := len(keys)
					if stop > 0 && stop < want {
						want = stop
					}
					ms[i].RangeOrdered(f)
					if !slices.Equal(seen, keys[:want]) {
						rt.Fatalf("%s: range in order %q, expected %q", what(), seen, keys[:want])
					}
					seen = nil
					ms[i].Range(f)
					uniq := map[string]bool{}
					for _, k := range seen {
						uniq[k] = true
						if _, ok := mm[i][k]; !ok {
							rt.Fatalf("%s: range finds %q", what(), k)
						}
					}
					if len(seen) != want || len(uniq) != want {
						rt.Fatalf("%s: range %q, expected %d", what(), seen, want)
					}
				case "sql":
					a, err := ms[i].Value()
					b, err2 := kv[i].Value()
					if err != nil || err2 != nil {
						rt.Fatalf("%s: %v %v", what(), err, err2)
					}
					if rapid.Bool().Draw(rt, "bytes") {
						if s, ok := a.(string); ok {
							a = []byte(s)
						}
						if s, ok := b.(string); ok {
							b = []byte(s)
						}
					}
					if err := ms[j].Scan(a); err != nil {
						rt.Fatalf("%s: %v", what(), err)
					}
					if err := kv[j].Scan(b); err != nil {
						rt.Fatalf("%s: %v", what(), err)
					}
					mm[j], km[j] = maps.Clone(mm[i]), maps.Clone(km[i])
				}
				for n := range 3 {
					if !maps.Equal(ms[n], mm[n]) {
						rt.Fatalf("%s: metadata %d is %q", what(), n, ms[n])
					}
					// a nil list and an empty one are equal
					if !maps.EqualFunc(kv[n], km[n], slices.Equal[[]string]) {
						rt.Fatalf("%s: set %d is %#v, expected %#v", what(), n, kv[n], km[n])
					}
				}
			}
			c.NonTrivial(common, fmt.Sprintf("%s %q %q", strings.Join(log, "; "), mm, km))
		})
}

// ---- C24 ----

type inner struct {
	ID   xdb.ID
	Time xdb.Time
	Name xdb.NULLString
	N    int
}

type Embedded struct {
	EID   xdb.ID
	ETime xdb.Time
	EStr  string
}

type model struct {
	Embedded
	ID    xdb.ID
	Org   xdb.ID
	Start xdb.Time
	End   xdb.Time
	Name  xdb.NULLString
	Title xdb.NULLString
	I64   xdb.Int64
	I32   xdb.Int32
	ID32  xdb.ID32
	F     xdb.Float
	B     xdb.Bool
	U     xdb.UUID
	L     xdb.Strings
	IDs   xdb.IDArray
	S     string
	N     int
	U8    uint8
	Flag  bool
	In    inner
}

// fields lists the leaves of a structure, and says which are set.
func fields(v reflect.Value, prefix string, res *[]leaf) {
	for i := range v.NumField() {
		f, name := v.Field(i), prefix+v.Type().Field(i).Name
		var l leaf
		switch x := f.Interface().(type) {
		case xdb.ID:
			l = leaf{name, x.UInt64() != 0, x.String()}
		case xdb.Time:
			l = leaf{name, !x.IsZero(), show(x)}
		case xdb.IDArray:
			l = leaf{name, len(x) > 0, x.String()}
		case xdb.Strings:
			l = leaf{name, len(x) > 0, fmt.Sprintf("%q", x)}
		default:
			if f.Kind() == reflect.Struct {
				fields(f, name+".", res)
				continue
			}
			l = leaf{name, !f.IsZero(), fmt.Sprintf("%#v", x)}
		}
		*res = append(*res, l)
	}
}

type leaf struct {
	name string
	set  bool
	text string
}

func leaves(m *model) []leaf {
	var res []leaf
	fields(reflect.ValueOf(m).Elem(), "", &res)
	return res
}

func genModel(t *rapid.T) model {
	some := func(name string) bool { return rapid.IntRange(0, 2).Draw(t, name) > 0 }
	var m model
	if some("id") {
		m.ID, m.EID, m.In.ID = xdb.NewID(u64Gen.Draw(t, "id")), xdb.NewID(u64Gen.Draw(t, "eid")), xdb.NewID(u64Gen.Draw(t, "iid"))
	}
	if some("org") {
		m.Org = xdb.NewID(u64Gen.Draw(t, "org"))
		if rapid.Bool().Draw(t, "reset") {
			m.Org.Reset()
		}
	}
	if some("start") {
		m.Start, m.In.Time = xdb.Time(timeGen.Draw(t, "start")), xdb.Time(timeGen.Draw(t, "itime"))
	}
	if some("end") {
		m.End, m.ETime = xdb.Time(timeGen.Draw(t, "end")), xdb.Time(timeGen.Draw(t, "etime"))
	}
	if some("name") {
		m.Name, m.In.Name = xdb.NULLString(strGen.Draw(t, "name")), xdb.NULLString(strGen.Draw(t, "iname"))
	}
	if some("title") {
		m.Title = xdb.NULLString(strGen.Draw(t, "title"))
	}
	if some("ints") {
		m.I64, m.I32, m.ID32 = xdb.Int64(i64Gen.Draw(t, "i")), xdb.Int32(i64Gen.Draw(t, "i")), xdb.ID32(i64Gen.Draw(t, "i"))
	}
	if some("values") {
		m.F, m.B, m.U = xdb.Float(f64Gen.Draw(t, "f")), xdb.Bool(rapid.Bool().Draw(t, "b")), xdb.UUID(strGen.Draw(t, "u"))
	}
	if some("lists") {
		m.L = rapid.SliceOfN(strGen, 0, 3).Draw(t, "l")
		m.IDs = asIDs(rapid.SliceOfN(rapid.Uint64Range(1, 9), 0, 3).Draw(t, "ids"), 0)
	}
	if some("plain") {
		m.S, m.N, m.U8, m.Flag = strGen.Draw(t, "s"), rapid.Int().Draw(t, "n"), rapid.Uint8().Draw(t, "u8"), rapid.Bool().Draw(t, "flag")
		m.EStr, m.In.N = strGen.Draw(t, "es"), rapid.IntRange(-1, 1).Draw(t, "in")
	}
	return m
}

func TestC24_Merge(t *testing.T) {
	vh.Run(t, 4000, 60000, "two or three structures with all column types, plain fields, a nested and an embedded structure, each field set or not, are merged one after another, the same one again at the end; every field is compared after each merge, the sources too, also after the result is changed; non-trivial: source and destination both have fields which the other has not",
		func(rt *rapid.T, c *vh.Case) {
			dst := genModel(rt)
			var srcs []*model
			for range rapid.IntRange(1, 3).Draw(rt, "sources") {
				m := genModel(rt)
				srcs = append(srcs, &m)
			}
			if rapid.Bool().Draw(rt, "again") {
				srcs = append(srcs, srcs[len(srcs)-1])
			}
			nontrivial := false
			var before [][]leaf
			for _, s := range srcs {
				before = append(before, leaves(s))
			}
			for i, s := range srcs {
				d := leaves(&dst)
				var err error
				if rapid.Bool().Draw(rt, "byValue") {
					err = xdb.Merge(&dst, *s)
				} else {
					err = xdb.Merge(&dst, s)
				}
				if err != nil {
					rt.Fatalf("merge: %v", err)
				}
				got, src := leaves(&dst), before[i]
				a, b := false, false
				for n := range got {
					want := d[n]
					if src[n].set {
						want = src[n]
						a = a || !d[n].set
					} else {
						b = b || d[n].set
					}
					if got[n].text != want.text {
						rt.Fatalf("merge %d: %s is %s, expected %s (destination %s, source %s)", i, got[n].name, got[n].text, want.text, d[n].text, src[n].text)
					}
				}
				nontrivial = nontrivial || a && b
				for j, s := range srcs {
					if !slices.Equal(leaves(s), before[j]) {
						rt.Fatalf("merge %d changed source %d:\n%v\n%v", i, j, leaves(s), before[j])
					}
				}
			}
			// the result has its own ids
			_ = dst.ID.Set("987654321")
			dst.Org.Reset()
			dst.IDs = dst.IDs.Add(xdb.NewID(77777))
			for j, s := range srcs {
				if !slices.Equal(leaves(s), before[j]) {
					rt.Fatalf("a change of the result changed source %d:\n%v\n%v", j, leaves(s), before[j])
				}
			}
			c.NonTrivial(nontrivial, fmt.Sprintf("%v", leaves(&dst)))
		})
}

// ---- C25 ----

type customErr struct{ msg string }

func (e customErr) Error() string { return e.msg }

type ptrErr struct{ inner error }

func (e *ptrErr) Error() string { return "wrapped by pointer" }
func (e *ptrErr) Unwrap() error { return e.inner }

// genErr makes an error chain; notFound: it is, wraps or mentions the no-rows error; record: it has an ErrorNotFound.
func genErr(t *rapid.T, depth int) (err error, noRows, record bool, desc string) {
	texts := []string{"boom", "no rows", "result set", "no rows in result", "record not found: t: 1", "no result", "NO ROWS IN RESULT SET", "record not found"}
	if depth > 0 && rapid.IntRange(0, 3).Draw(t, "wrap") > 0 {
		in, n, r, d := genErr(t, depth-1)
		switch rapid.IntRange(0, 7).Draw(t, "how") {
		case 0:
			if rapid.Bool().Draw(t, "tail") {
				return fmt.Errorf("%w: more", in), n, r, "w-(" + d + ")"
			}
			return fmt.Errorf("more: %w", in), n, r, "w(" + d + ")"
		case 1:
			return cerrors.Wrap(in, "ctx"), n, r, "wrap(" + d + ")"
		case 2:
			return cerrors.WithStack(in), n, r, "stack(" + d + ")"
		case 3:
			return cerrors.WithMessage(in, "m"), n, r, "msg(" + d + ")"
		case 4:
			return errors.Join(errors.New("other"), in), n, r, "join(" + d + ")"
		case 5:
			// hides the text, keeps the chain
			// an error of the same type and text is the same to cockroachdb/errors
			hidden := cerrors.Is(in, sql.ErrNoRows)
			return &ptrErr{in}, hidden, r, "ptr(" + d + ")"
		case 6:
			// keeps the text, cuts the chain
			text := rapid.SampledFrom([]string{"", "text: ", "(", "\n"}).Draw(t, "before") + in.Error() + rapid.SampledFrom([]string{"", "", " (SQLSTATE 02000)", ".", "\n", ": org 5"}).Draw(t, "after")
			return errors.New(text), strings.Contains(text, "no rows in result set"), false, "text(" + d + ")"
		case 7:
			return &xdb.ErrorNotFound{ID: "5", Table: "t", Err: in}, cerrors.Is(in, sql.ErrNoRows), true, "record(" + d + ")"
		}
	}
	switch rapid.IntRange(0, 6).Draw(t, "leaf") {
	case 6:
		return xdb.NewErrorNotFound(nil, "t", "5"), false, true, "record"

	case 0, 1:
		return sql.ErrNoRows, true, false, "ErrNoRows"
	case 2:
		return errors.New("pq: no rows in result set"), true, false, "text"
	case 3:
		return sql.ErrTxDone, false, false, "ErrTxDone"
	case 4:
		return customErr{rapid.SampledFrom(texts).Draw(t, "text")}, false, false, "custom"
	}
	return errors.New(rapid.SampledFrom(texts).Draw(t, "text")), false, false, "other"
}

func TestC25_NotFound(t *testing.T) {
	vh.Run(t, 6000, 100000, "error chains up to depth 4 of wraps, joins, hidden and cut texts around the no-rows error, other database errors, near texts and not-found records, with random tables and ids of several types; non-trivial: wrapped at least once",
		func(rt *rapid.T, c *vh.Case) {
			err, noRows, record, desc := genErr(rt, rapid.IntRange(0, 4).Draw(rt, "depth"))
			table := rapid.SampledFrom([]string{"t", "org", "public.user", "", "a: b"}).Draw(rt, "table")
			var id any
			var idText string
			switch rapid.IntRange(0, 4).Draw(rt, "idKind") {
			case 0:
				idText = strGen.Draw(rt, "id")
				id = idText
			case 1:
				u := u64Gen.Draw(rt, "id")
				x := xdb.NewID(u)
				id, idText = x, x.String()
			case 2:
				u := u64Gen.Draw(rt, "id")
				id, idText = u, fmt.Sprint(u)
			case 3:
				n := xdb.NULLString(strGen.Draw(rt, "id"))
				id, idText = n, string(n)
			case 4:
				id, idText = -5, "-5"
			}
			got := xdb.CheckNotFoundError(err, table, id)
			if got == nil {
				rt.Fatalf("%s: the error is lost", desc)
			}
			if !errors.Is(got, err) {
				rt.Fatalf("%s: the original error %v is not wrapped", desc, err)
			}
			if want := noRows || record; xdb.IsNotFoundError(err) != want {
				rt.Fatalf("%s: %q is classified as %v, expected %v", desc, err, !want, want)
			}
			if xdb.IsNotFoundError(got) != (noRows || record) {
				rt.Fatalf("%s: %q is checked as not found: %v", desc, got, xdb.IsNotFoundError(got))
			}
			same := func(e *xdb.ErrorNotFound) bool { return errors.Is(got, e) }
			if noRows {
				var nf *xdb.ErrorNotFound
				if !errors.As(got, &nf) || nf.Table != table || nf.ID != idText || !errors.Is(nf.Unwrap(), err) {
					rt.Fatalf("%s: no record of %s %s: %v", desc, table, idText, got)
				}
				if !strings.Contains(got.Error(), table) || !strings.Contains(got.Error(), idText) {
					rt.Fatalf("%s: %q does not name %s %s", desc, got, table, idText)
				}
				if !same(&xdb.ErrorNotFound{Table: table, ID: idText}) || !cerrors.Is(got, &xdb.ErrorNotFound{Table: table, ID: idText}) {
					rt.Fatalf("%s: %q does not match its table and id", desc, got)
				}
				if same(&xdb.ErrorNotFound{Table: table + "x", ID: idText}) || same(&xdb.ErrorNotFound{Table: table, ID: idText + "x"}) || same(&xdb.ErrorNotFound{Table: "zz", ID: "zz"}) || same(&xdb.ErrorNotFound{}) && (table != "" || idText != "") {
					rt.Fatalf("%s: %q matches another record", desc, got)
				}
				if nf.Is(errors.New(nf.Error())) || nf.Is(sql.ErrNoRows) || nf.Is(nil) {
					rt.Fatalf("%s: matches an error of another type", desc)
				}
			} else {
				if got.Error() != err.Error() {
					rt.Fatalf("%s: %q became %q", desc, err, got)
				}
				if !record {
					var nf *xdb.ErrorNotFound
					if errors.As(got, &nf) || same(&xdb.ErrorNotFound{Table: table, ID: idText}) {
						rt.Fatalf("%s: %q became a not-found error", desc, err)
					}
				}
			}
			if xdb.CheckNotFoundError(nil, table, id) != nil || xdb.IsNotFoundError(nil) {
				rt.Fatalf("no error became one")
			}
			c.ClassIf(noRows, "no rows")
			c.ClassIf(record, "record")
			c.NonTrivial(strings.Contains(desc, "("), desc+" "+table+" "+idText)
		})
}
