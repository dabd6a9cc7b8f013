package val

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/vh"
	"pgregory.net/rapid"
)

// ---- C22 ----

type nest struct {
	I32 xdb.Int32
	B   []xdb.Bool
	M   map[string]xdb.Int64
}

type all struct {
	ID   xdb.ID         `json:"id"`
	ID32 xdb.ID32       `json:"id32"`
	I64  xdb.Int64      `json:"i64"`
	I32  xdb.Int32      `json:"i32"`
	F    xdb.Float      `json:"f"`
	B    xdb.Bool       `json:"b"`
	T    xdb.Time       `json:"t"`
	N    xdb.NULLString `json:"n"`
	U    xdb.UUID       `json:"u"`
	S    xdb.Strings    `json:"s"`
	M    xdb.Metadata   `json:"m"`
	K    xdb.KVSet      `json:"k"`
	L    xdb.IDArray    `json:"l"`
	P    *xdb.Int64     `json:"p"`
	Q    *xdb.ID        `json:"q"`
	Nest *nest          `json:"nest"`
	Any  []nest         `json:"any"`
}

func genNest(t *rapid.T) nest {
	n := nest{I32: xdb.Int32(i64Gen.Draw(t, "i")), M: map[string]xdb.Int64{}}
	for range rapid.IntRange(0, 3).Draw(t, "n") {
		n.B = append(n.B, xdb.Bool(rapid.Bool().Draw(t, "b")))
		n.M[strGen.Draw(t, "k")] = xdb.Int64(i64Gen.Draw(t, "v"))
	}
	return n
}

// a float that six decimals can hold
var decGen = rapid.Custom(func(t *rapid.T) float64 {
	return rapid.OneOf(
		rapid.Custom(func(t *rapid.T) float64 {
			return float64(rapid.Int64Range(-1<<43, 1<<43).Draw(t, "n")) / float64(rapid.SampledFrom([]int{1, 2, 4, 8, 16, 32, 64}).Draw(t, "d"))
		}),
		rapid.Custom(func(t *rapid.T) float64 { return math.Trunc(f64Gen.Draw(t, "f")) }),
	).Draw(t, "dec")
})

func genAll(t *rapid.T) all {
	a := all{
		ID:   xdb.NewID(u64Gen.Draw(t, "id")),
		ID32: xdb.ID32(u64Gen.Draw(t, "id32")),
		I64:  xdb.Int64(i64Gen.Draw(t, "i64")),
		I32:  xdb.Int32(i64Gen.Draw(t, "i32")),
		F:    xdb.Float(decGen.Draw(t, "f")),
		B:    xdb.Bool(rapid.Bool().Draw(t, "b")),
		T:    xdb.Time(timeGen.Draw(t, "t")),
		N:    xdb.NULLString(strGen.Draw(t, "n")),
		U:    xdb.UUID(strGen.Draw(t, "u")),
		M:    genMetadata(t),
		K:    genKVSet(t),
	}
	if rapid.Bool().Draw(t, "lists") {
		a.S = append(xdb.Strings{}, rapid.SliceOfN(strGen, 0, 3).Draw(t, "s")...)
		for range rapid.IntRange(1, 4).Draw(t, "ids") {
			a.L = append(a.L, xdb.NewID(u64Gen.Draw(t, "id")))
		}
	}
	if rapid.Bool().Draw(t, "pointers") {
		i, id, n := xdb.Int64(i64Gen.Draw(t, "p")), xdb.NewID(u64Gen.Draw(t, "q")), genNest(t)
		a.P, a.Q, a.Nest = &i, &id, &n
		a.Any = []nest{genNest(t), genNest(t)}
	}
	return a
}

// norm makes values comparable.
func (a all) norm() string {
	ids := fmt.Sprint(a.ID.UInt64(), a.L.List())
	p := "nil"
	if a.P != nil {
		p = fmt.Sprint(*a.P)
	}
	if a.Q != nil {
		p += fmt.Sprint(a.Q.UInt64())
	}
	n := "nil"
	if a.Nest != nil {
		n = fmt.Sprintf("%#v", *a.Nest)
	}
	return fmt.Sprintf("%s %d %d %d %v %v %d/%d %q %q %#v %#v %#v %s %s %#v", ids, a.ID32, a.I64, a.I32, strconv.FormatFloat(float64(a.F)+0, 'g', -1, 64), a.B,
		a.T.UTC().Unix(), a.T.UTC().Nanosecond(), string(a.N), string(a.U), a.S, a.M, a.K, p, n, a.Any)
}

func TestC22_Structs(t *testing.T) {
	vh.Run(t, 3000, 60000, "structures with every type, in pointers, lists, maps and nested structures, go through JSON, and once more with numbers and booleans quoted; floats are ones that six decimals can hold (that is what the type writes); non-trivial: lists and pointers are set",
		func(rt *rapid.T, c *vh.Case) {
			a := genAll(rt)
			js, err := json.Marshal(a)
			if err != nil {
				rt.Fatalf("marshal: %v", err)
			}
			want := a.norm()
			var b all
			if err := json.Unmarshal(js, &b); err != nil {
				rt.Fatalf("%s: %v", js, err)
			}
			if got := b.norm(); got != want {
				rt.Fatalf("%s:\n%s, expected\n%s", js, got, want)
			}
			// quoted
			var m map[string]json.RawMessage
			if err := json.Unmarshal(js, &m); err != nil {
				rt.Fatalf("%s: %v", js, err)
			}
			for _, k := range []string{"id", "id32", "i64", "i32", "f", "b", "p", "q"} {
				if s := string(m[k]); s != "null" {
					m[k] = json.RawMessage(`"` + s + `"`)
				}
			}
			qs, _ := json.Marshal(m)
			var q all
			if err := json.Unmarshal(qs, &q); err != nil {
				rt.Fatalf("%s: %v", qs, err)
			}
			if got := q.norm(); got != want {
				rt.Fatalf("%s:\n%s, expected\n%s", qs, got, want)
			}
			// into a used structure
			used := genAll(rt)
			used.M, used.K, used.P, used.Q, used.Nest, used.Any = nil, nil, nil, nil, nil, nil
			used.L, used.S = nil, nil
			if err := json.Unmarshal(js, &used); err != nil {
				rt.Fatalf("%s: %v", js, err)
			}
			if got := used.norm(); got != want {
				rt.Fatalf("%s: into a used structure\n%s, expected\n%s", js, got, want)
			}
			c.NonTrivial(a.P != nil, string(js))
		})
}

func TestC22_Float(t *testing.T) {
	vh.Run(t, 3000, 60000, "any finite float comes back to six decimals, infinities and NaN are refused; non-trivial: has a fraction",
		func(rt *rapid.T, c *vh.Case) {
			f := f64Gen.Draw(rt, "f")
			if rapid.IntRange(0, 49).Draw(rt, "special") == 0 {
				f = rapid.SampledFrom([]float64{math.Inf(1), math.Inf(-1), math.NaN()}).Draw(rt, "inf")
			}
			js, err := json.Marshal(xdb.Float(f))
			if math.IsInf(f, 0) || math.IsNaN(f) {
				if err == nil {
					rt.Fatalf("%v: %s", f, js)
				}
				return
			}
			if err != nil {
				rt.Fatalf("%v: %v", f, err)
			}
			var g xdb.Float
			if err := json.Unmarshal(js, &g); err != nil {
				rt.Fatalf("%v: %s: %v", f, js, err)
			}
			if d := math.Abs(float64(g) - f); d > 0.51e-6 && d > math.Abs(f)*1e-15 {
				rt.Fatalf("%v: %s: %v", f, js, g)
			}
			c.NonTrivial(f != math.Trunc(f), string(js))
		})
}

// scalars of all kinds
var scalarGen = rapid.Custom(func(t *rapid.T) string {
	quote := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	n := i64Gen.Draw(t, "i")
	switch rapid.IntRange(0, 13).Draw(t, "kind") {
	case 0, 1:
		return strconv.FormatInt(n, 10)
	case 2:
		return quote(strconv.FormatInt(n, 10))
	case 3:
		return strconv.FormatUint(uint64(n), 10)
	case 4:
		return quote(numTextGen.Draw(t, "text"))
	case 5:
		return rapid.SampledFrom([]string{"true", "false", `"true"`, `"false"`, `"TRUE"`, `"FALSE"`, `"True"`, `"yes"`, `"1"`, `"0"`, "1", "0", "2", "-1", `"t"`, `"2"`}).Draw(t, "bool")
	case 6:
		return rapid.SampledFrom([]string{"{}", "[]", `{"a":1}`, "[1]", `["1"]`, `[true]`, `""`, `"NULL"`, `"null"`}).Draw(t, "other")
	case 7:
		return rapid.SampledFrom([]string{"1.5", "-0", "0.0", "1e3", "1E-3", "1e400", "1.0", "-1.5e10", `"1.5"`, `"1e3"`, "0.1", "123456789012345678901234567890"}).Draw(t, "float")
	case 8:
		return strconv.FormatInt(int64(math.MaxInt32)+int64(rapid.IntRange(-2, 2).Draw(t, "off")), 10)
	case 9:
		return strconv.FormatInt(int64(math.MinInt32)+int64(rapid.IntRange(-2, 2).Draw(t, "off")), 10)
	case 10:
		return strconv.FormatInt(int64(math.MaxUint32)+int64(rapid.IntRange(-2, 2).Draw(t, "off")), 10)
	case 11:
		b := new(big.Int).Lsh(big.NewInt(1), uint(rapid.SampledFrom([]int{63, 64}).Draw(t, "bits")))
		b.Add(b, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "off"))))
		if rapid.Bool().Draw(t, "neg") {
			b.Neg(b)
		}
		return b.String()
	case 12:
		return strconv.FormatFloat(f64Gen.Draw(t, "f"), 'g', -1, 64)
	}
	return quote(strGen.Draw(t, "s"))
})

func TestC22_Scalars(t *testing.T) {
	vh.Run(t, 15000, 300000, "JSON scalars (and lists, objects) of all kinds and sizes, quoted or not, into every type: plain numbers in range must be read, others are an error or read as the number they say, and a structure around them fails as well; non-trivial: refused or quoted",
		func(rt *rapid.T, c *vh.Case) {
			js := scalarGen.Draw(rt, "json")
			if js == "null" || !json.Valid([]byte(js)) {
				return
			}
			text, quoted := js, false
			if js[0] == '"' {
				quoted = true
				if err := json.Unmarshal([]byte(js), &text); err != nil {
					return
				}
			}
			zeroWord := quoted && (text == "" || text == "NULL")
			isRat := false
			rat := new(big.Rat)
			if len(text) < 400 && !strings.ContainsAny(text, "/_xXoObBpP") {
				_, isRat = rat.SetString(text)
			}
			canonInt := func(min, max *big.Int) bool {
				if !isRat || !rat.IsInt() || rat.Num().String() != text {
					return false
				}
				return rat.Num().Cmp(min) >= 0 && rat.Num().Cmp(max) <= 0
			}
			// got: the number read
			check := func(name string, err error, got *big.Int, min, max *big.Int) {
				if (canonInt(min, max) || quoted && text == "" || zeroWord && name != "ID") && err != nil {
					rt.Fatalf("%s: %s is refused: %v", name, js, err)
				}
				if err != nil {
					c.Class("refused")
					return
				}
				want := new(big.Int)
				switch {
				case zeroWord:
				case isRat && rat.IsInt():
					want = rat.Num()
				default:
					rt.Fatalf("%s: %s is read as %s", name, js, got)
				}
				if got.Cmp(want) != 0 {
					rt.Fatalf("%s: %s is read as %s", name, js, got)
				}
			}
			bigU := func(u uint64) *big.Int { return new(big.Int).SetUint64(u) }
			in := func(v any) error {
				err := json.Unmarshal([]byte(js), v)
				// the same inside of a list
				l := reflect.New(reflect.SliceOf(reflect.TypeOf(v).Elem()))
				lerr := json.Unmarshal([]byte("["+js+"]"), l.Interface())
				if (lerr == nil) != (err == nil) {
					rt.Fatalf("%T: %s: %v, in a list %v", v, js, err, lerr)
				}
				// the same into a variable which has a value
				used := reflect.New(reflect.TypeOf(v).Elem())
				for _, pre := range []string{`"7"`, `true`, `"2024-02-29T01:02:03Z"`} {
					if json.Unmarshal([]byte(pre), used.Interface()) == nil {
						break
					}
				}
				if used.Elem().IsZero() {
					rt.Fatalf("%T: can not be given a value", v)
				}
				uerr := json.Unmarshal([]byte(js), used.Interface())
				a, _ := json.Marshal(v)
				b, _ := json.Marshal(used.Interface())
				if (uerr == nil) != (err == nil) || err == nil && string(a) != string(b) {
					rt.Fatalf("%T: %s is read as %s, %v, into a used variable as %s, %v", v, js, a, err, b, uerr)
				}
				return err
			}
			var id xdb.ID
			err := in(&id)
			check("ID", err, bigU(id.UInt64()), bigU(0), bigU(math.MaxUint64))
			var id32 xdb.ID32
			err = in(&id32)
			check("ID32", err, bigU(uint64(id32)), bigU(0), bigU(math.MaxUint32))
			var i64 xdb.Int64
			err = in(&i64)
			check("Int64", err, big.NewInt(int64(i64)), big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64))
			var i32 xdb.Int32
			err = in(&i32)
			check("Int32", err, big.NewInt(int64(i32)), big.NewInt(math.MinInt32), big.NewInt(math.MaxInt32))

			var f xdb.Float
			err = in(&f)
			want, perr := strconv.ParseFloat(text, 64)
			switch {
			case err == nil && zeroWord && f == 0:
			case err != nil && zeroWord:
				rt.Fatalf("Float: %s is refused: %v", js, err)
			case err == nil && (perr != nil || float64(f) != want && want == want):
				rt.Fatalf("Float: %s is read as %v", js, f)
			case err != nil && perr == nil && isRat && (!quoted || rat.Num().String() == text):
				rt.Fatalf("Float: %s is refused: %v", js, err)
			}

			var b xdb.Bool
			err = in(&b)
			lower := strings.ToLower(text)
			isTrue := lower == "true" || lower == "1"
			isFalse := lower == "false" || lower == "0" || quoted && (lower == "" || lower == "null")
			mustRead := text == "true" || text == "false" || text == "1" || text == "0" ||
				quoted && (text == "TRUE" || text == "FALSE" || text == "NULL" || text == "")
			switch {
			case err == nil && !isTrue && !isFalse:
				rt.Fatalf("Bool: %s is read as %v", js, b)
			case err == nil && bool(b) != isTrue:
				rt.Fatalf("Bool: %s is read as %v", js, b)
			case err != nil && mustRead:
				rt.Fatalf("Bool: %s is refused: %v", js, err)
			}

			var n xdb.NULLString
			if err := in(&n); (err == nil) != quoted || quoted && string(n) != text {
				rt.Fatalf("NULLString: %s is read as %q, %v", js, n, err)
			}
			var u xdb.UUID
			if err := in(&u); (err == nil) != quoted || quoted && string(u) != text {
				rt.Fatalf("UUID: %s is read as %q, %v", js, u, err)
			}
			var tm xdb.Time
			if err := in(&tm); err == nil && !(quoted && text == "") {
				if r, rerr := time.Parse(time.RFC3339Nano, text); rerr != nil || !quoted || !r.Equal(tm.UTC()) {
					rt.Fatalf("Time: %s is read as %s", js, tm)
				}
			}
			c.ClassIf(quoted, "quoted")
			c.NonTrivial(quoted || !canonInt(big.NewInt(math.MinInt32), big.NewInt(math.MaxInt32)), js)
		})
}

func TestC22_Strings(t *testing.T) {
	vh.Run(t, 2000, 20000, "the text of numbers and booleans is the JSON text without quotes, to six decimals for floats; non-trivial: not zero",
		func(rt *rapid.T, c *vh.Case) {
			i, f := i64Gen.Draw(rt, "i"), decGen.Draw(rt, "f")
			for _, v := range []interface {
				json.Marshaler
				String() string
			}{xdb.Int64(i), xdb.Int32(i), xdb.ID32(i), xdb.Float(f), xdb.Bool(i > 0)} {
				js, err := v.MarshalJSON()
				if err != nil || string(js) != v.String() {
					rt.Fatalf("%#v: %s and %s, %v", v, js, v.String(), err)
				}
			}
			if xdb.Int64(i).Int64() != i || xdb.Int32(i).Int32() != int32(i) || xdb.Int32(i).Int64() != int64(int32(i)) || xdb.Float(f).Float() != f || xdb.Bool(i > 0).Bool() != (i > 0) || xdb.Int64(i).QuotedString() != `"`+strconv.FormatInt(i, 10)+`"` {
				rt.Fatalf("%d %v", i, f)
			}
			c.NonTrivial(i != 0, strconv.FormatInt(i, 10))
		})
}
