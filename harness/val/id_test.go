package val

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand/v2"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/lib/pq"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// checkID compares an id with its value.
func checkID(rt *rapid.T, id xdb.ID, want uint64, what string) {
	text, under, quoted := "", "", ""
	if want != 0 {
		text = strconv.FormatUint(want, 10)
		under, quoted = "_"+text, `"`+text+`"`
	}
	if id.UInt64() != want || id.String() != text || id.Valid() != (want != 0) || id.Invalid() != (want == 0) || id.IsZero() != (want == 0) {
		rt.Fatalf("%s: id %d %q valid=%v invalid=%v zero=%v, expected %d", what, id.UInt64(), id.String(), id.Valid(), id.Invalid(), id.IsZero(), want)
	}
	if u, q := id.UnderscoreString(), id.QuotedString(); u != under || q != quoted {
		rt.Fatalf("%s: id %d: %q and %q", what, want, u, q)
	}
	if fmt.Sprint(id) != text {
		rt.Fatalf("%s: id %d is printed as %q", what, want, fmt.Sprint(id))
	}
}

func TestC17_RoundTrip(t *testing.T) {
	type box struct {
		ID  xdb.ID            `json:"id" yaml:"id"`
		Ptr *xdb.ID           `json:"ptr" yaml:"ptr"`
		L   []xdb.ID          `json:"l" yaml:"l"`
		M   map[string]xdb.ID `json:"m" yaml:"m"`
	}
	vh.Run(t, 6000, 120000, "a 64-bit id, with the boundaries of all widths, is written and read back as text, JSON (plain and quoted, in structures, lists, maps and pointers), YAML and SQL; non-trivial: not zero",
		func(rt *rapid.T, c *vh.Case) {
			u := u64Gen.Draw(rt, "id")
			text := strconv.FormatUint(u, 10)
			checkID(rt, xdb.NewID(u), u, "NewID")
			if u != 0 {
				id, err := xdb.ParseID(text)
				if err != nil {
					rt.Fatalf("%s is refused: %v", text, err)
				}
				checkID(rt, id, u, "ParseID")
				checkID(rt, xdb.MustID(text), u, "MustID")
				checkID(rt, xdb.TryParseID(text), u, "TryParseID")
			}
			if n, err := xdb.ParseUint(text); err != nil || n != u || xdb.IDString(u) != text || xdb.QuotedIDString(u) != `"`+text+`"` {
				rt.Fatalf("%d: %d %v %s", u, n, err, xdb.IDString(u))
			}
			id := xdb.NewID(u)
			b := box{id, &id, []xdb.ID{id, xdb.NewID(7)}, map[string]xdb.ID{"k": id}}
			checkBox := func(g box, what string) {
				checkID(rt, g.ID, u, what)
				if g.Ptr == nil || len(g.L) != 2 || len(g.M) != 1 {
					rt.Fatalf("%s: %+v", what, g)
				}
				checkID(rt, *g.Ptr, u, what)
				checkID(rt, g.L[0], u, what)
				checkID(rt, g.L[1], 7, what)
				checkID(rt, g.M["k"], u, what)
			}
			js, err := json.Marshal(b)
			if err != nil {
				rt.Fatalf("json: %v", err)
			}
			var g box
			if err := json.Unmarshal(js, &g); err != nil {
				rt.Fatalf("json %s: %v", js, err)
			}
			checkBox(g, "json "+string(js))
			g = box{}
			q := fmt.Sprintf(`{"id":"%s","ptr":"%s","l":["%s","7"],"m":{"k":"%s"}}`, text, text, text, text)
			if err := json.Unmarshal([]byte(q), &g); err != nil {
				rt.Fatalf("json %s: %v", q, err)
			}
			checkBox(g, "json "+q)
			// the JSON number is the id
			var raw struct{ ID json.Number }
			if err := json.Unmarshal(js, &raw); err != nil || raw.ID.String() != text {
				rt.Fatalf("json %s: %v", js, err)
			}
			ym, err := yaml.Marshal(b)
			if err != nil {
				rt.Fatalf("yaml: %v", err)
			}
			g = box{}
			if err := yaml.Unmarshal(ym, &g); err != nil {
				rt.Fatalf("yaml %s: %v", ym, err)
			}
			checkBox(g, "yaml "+string(ym))
			dv, err := id.Value()
			if err != nil {
				rt.Fatalf("value: %v", err)
			}
			var s xdb.ID
			if err := s.Scan(dv); err != nil {
				rt.Fatalf("scan of %v: %v", dv, err)
			}
			checkID(rt, s, u, "sql")
			c.ClassIf(u > 1<<63, "above 63 bits")
			c.NonTrivial(u != 0, text)
		})
}

// texts near to numbers
var numTextGen = rapid.Custom(func(t *rapid.T) string {
	base := strconv.FormatUint(u64Gen.Draw(t, "u"), 10)
	switch rapid.IntRange(0, 12).Draw(t, "form") {
	case 0, 1, 2:
		return base
	case 3:
		return strings.Repeat("0", rapid.IntRange(1, 20).Draw(t, "zeros")) + base
	case 4:
		return rapid.SampledFrom([]string{"-", "+", " ", "\t", "\n", "0x", "0b1", "0o", "_", ".", "$", "'", "\x00", "１"}).Draw(t, "prefix") + base
	case 5:
		return base + rapid.SampledFrom([]string{" ", "\n", ".0", ".", "e0", "e1", "_", "L", "u", "\x00", ",", "٣"}).Draw(t, "suffix")
	case 6:
		return base + strconv.FormatUint(u64Gen.Draw(t, "more"), 10)
	case 7:
		// just out of range
		n := new(big.Int).Lsh(big.NewInt(1), uint(rapid.SampledFrom([]int{32, 63, 64, 65, 128}).Draw(t, "bits")))
		return n.Add(n, big.NewInt(int64(rapid.IntRange(-1, 2).Draw(t, "off")))).String()
	case 8:
		i := rapid.IntRange(0, len(base)).Draw(t, "at")
		return base[:i] + rapid.SampledFrom([]string{"_", " ", "a", ".", "-", "٣"}).Draw(t, "in") + base[i:]
	case 9:
		return rapid.SampledFrom([]string{"", "0", "00", "null", "NULL", "nil", "true", "NaN", "Inf", "0x10", "1e3", "1_000", "1,000"}).Draw(t, "word")
	case 10:
		return fmt.Sprintf("%x", u64Gen.Draw(t, "u"))
	case 11:
		return "-" + base
	}
	return strGen.Draw(t, "s")
})

// decimal returns the value of plain digits, nil if there are others.
func decimal(s string) *big.Int {
	if s == "" {
		return nil
	}
	for _, r := range s {
		if r < '0' || r > '9' {
			return nil
		}
	}
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil
	}
	return n
}

func TestC17_Refuse(t *testing.T) {
	vh.Run(t, 10000, 200000, "texts near to numbers: signs, spaces, leading zeros, other digits, exponents, separators, out of range, arbitrary text; accepted are exactly the positive decimal numbers in range; non-trivial: text which is refused, or has leading zeros",
		func(rt *rapid.T, c *vh.Case) {
			s := numTextGen.Draw(rt, "text")
			n := decimal(s)
			want := uint64(0)
			ok := n != nil && n.IsUint64() && n.Sign() > 0
			if ok {
				want = n.Uint64()
			}
			id, err := xdb.ParseID(s)
			if (err == nil) != ok {
				rt.Fatalf("ParseID %q: %v, expected ok=%v", s, err, ok)
			}
			checkID(rt, id, want, fmt.Sprintf("ParseID %q", s))
			checkID(rt, xdb.TryParseID(s), want, fmt.Sprintf("TryParseID %q", s))
			mustOK := func() (ok bool) {
				defer func() { ok = recover() == nil }()
				checkID(rt, xdb.MustID(s), want, "MustID")
				return
			}()
			if mustOK != ok {
				rt.Fatalf("MustID %q: ok=%v, expected %v", s, mustOK, ok)
			}
			var set xdb.ID
			if err := set.Set(s); (err == nil) != ok {
				rt.Fatalf("Set %q: %v, expected ok=%v", s, err, ok)
			}
			checkID(rt, set, want, "Set")
			if m, err := xdb.ParseUint(s); (err == nil) != (n != nil && n.IsUint64()) || err == nil && m != n.Uint64() {
				rt.Fatalf("ParseUint %q: %d %v", s, m, err)
			}
			// a list takes the valid ones
			if l := xdb.IDArrayFromStrings([]string{s, "5", s}); len(l) != 1+map[bool]int{true: 1}[ok && want != 5] {
				rt.Fatalf("list of %q and 5: %v", s, l.List())
			}
			// JSON, as string: zero is a value there
			q, _ := json.Marshal(s)
			var j xdb.ID
			jerr := json.Unmarshal(q, &j)
			jok := ok || s == "" || n != nil && n.Sign() == 0
			if (jerr == nil) != jok {
				rt.Fatalf("json %s: %v, expected ok=%v", q, jerr, jok)
			}
			checkID(rt, j, want, "json "+string(q))
			if json.Valid([]byte(s)) && strings.TrimSpace(s) == s && s[0] != '"' && s != "null" {
				var j xdb.ID
				jerr := json.Unmarshal([]byte(s), &j)
				if (jerr == nil) != jok {
					rt.Fatalf("json %s: %v, expected ok=%v", s, jerr, jok)
				}
				checkID(rt, j, want, "json "+s)
			}
			// YAML: a string is no id, and the parser's plain number is the value
			var y xdb.ID
			if err := yaml.Unmarshal(q, &y); err == nil && !jok {
				rt.Fatalf("yaml %s is taken for %d", q, y.UInt64())
			}
			if json.Valid([]byte(s)) && s[0] != '"' && strings.TrimSpace(s) == s {
				doc := []byte("v: " + s)
				var y struct{ V xdb.ID }
				err := yaml.Unmarshal(doc, &y)
				// what the parser makes of it as a plain number
				var plain struct{ V uint64 }
				perr := yaml.Unmarshal(doc, &plain)
				if (err == nil) != (perr == nil) || n != nil && n.IsUint64() && err != nil {
					rt.Fatalf("yaml %s: %v, as number %v", doc, err, perr)
				}
				if err == nil {
					checkID(rt, y.V, plain.V, "yaml "+string(doc))
				}
			}
			c.ClassIf(ok, "accepted")
			c.NonTrivial(!ok || s[0] == '0', strconv.Quote(s))
		})
}

func TestC17_Copies(t *testing.T) {
	vh.Run(t, 4000, 60000, "up to 25 steps over four variables: new, copy, set (valid or not), scan, reset, JSON, YAML, reading the text; all variables are compared with a model after each step; non-trivial: a copy was made before another was changed",
		func(rt *rapid.T, c *vh.Case) {
			var ids [4]xdb.ID
			var model [4]uint64
			var log []string
			copied, changed := false, false
			for range rapid.IntRange(1, 25).Draw(rt, "steps") {
				i := rapid.IntRange(0, 3).Draw(rt, "i")
				u := rapid.SampledFrom([]uint64{1, 2, 10, 7000000000, 1 << 63}).Draw(rt, "u")
				text := strconv.FormatUint(u, 10)
				op := rapid.SampledFrom([]string{"new", "copy", "copy", "set", "set", "bad", "scan", "null", "reset", "json", "yaml", "read", "zero"}).Draw(rt, "op")
				log = append(log, fmt.Sprintf("%s %d %s", op, i, text))
				var err error
				if copied && op != "copy" && op != "read" {
					changed = true
				}
				switch op {
				case "new":
					ids[i], model[i] = xdb.NewID(u), u
				case "copy":
					j := rapid.IntRange(0, 3).Draw(rt, "j")
					log[len(log)-1] += fmt.Sprint(" to ", j)
					ids[j], model[j] = ids[i], model[i]
					copied = copied || i != j
				case "set":
					err = ids[i].Set(text)
					model[i] = u
				case "bad":
					if ids[i].Set("x"+text) == nil {
						rt.Fatalf("no error")
					}
				case "scan":
					err = ids[i].Scan(int64(u))
					model[i] = u
				case "null":
					err = ids[i].Scan(nil)
					model[i] = 0
				case "reset":
					ids[i].Reset()
					model[i] = 0
				case "json":
					err = json.Unmarshal([]byte(rapid.SampledFrom([]string{text, `"` + text + `"`}).Draw(rt, "js")), &ids[i])
					model[i] = u
				case "yaml":
					err = yaml.Unmarshal([]byte(text), &ids[i])
					model[i] = u
				case "read":
					_ = ids[i].String()
				case "zero":
					ids[i], model[i] = xdb.ID{}, 0
				}
				if err != nil {
					rt.Fatalf("%s: %v", strings.Join(log, "; "), err)
				}
				for n := range ids {
					// the text may be read late
					if ids[n].UInt64() != model[n] {
						rt.Fatalf("%s: id %d is %d, expected %d", strings.Join(log, "; "), n, ids[n].UInt64(), model[n])
					}
				}
				if rapid.Bool().Draw(rt, "texts") {
					for n := range ids {
						checkID(rt, ids[n], model[n], strings.Join(log, "; "))
					}
				}
			}
			for n := range ids {
				checkID(rt, ids[n], model[n], strings.Join(log, "; "))
			}
			c.NonTrivial(changed, strings.Join(log, "; "))
		})
}

// ---- C18 ----

func asIDs(l []uint64, spare int) xdb.IDArray {
	res := make(xdb.IDArray, 0, len(l)+spare)
	for _, u := range l {
		res = append(res, xdb.NewID(u))
	}
	return res
}

func signed(l []uint64) []string {
	var res []string
	for _, u := range l {
		res = append(res, strconv.FormatInt(int64(u), 10))
	}
	return res
}

func TestC18_Sets(t *testing.T) {
	vh.Run(t, 4000, 60000, "up to 16 steps over up to 5 id arrays (new, with spare capacity, parts of others, read from SQL): add, concatenate, contains, overlaps, sort of a copy, lists, text and SQL form; all arrays are compared with ordered sets after each step; non-trivial: at least 3 arrays",
		func(rt *rapid.T, c *vh.Case) {
			var arrs []xdb.IDArray
			var sets [][]uint64
			var log []string
			idGen := rapid.OneOf(rapid.Uint64Range(1, 9), rapid.Uint64Range(1, 9), u64Gen)
			dedup := func(l []uint64) []uint64 {
				var res []uint64
				for _, u := range l {
					if !slices.Contains(res, u) {
						res = append(res, u)
					}
				}
				return res
			}
			eq := func(a, b []uint64) bool { return slices.Equal(a, b) }
			put := func(a xdb.IDArray, s []uint64) {
				if len(arrs) < 5 {
					arrs, sets = append(arrs, a), append(sets, s)
					return
				}
				i := rapid.IntRange(0, 4).Draw(rt, "replace")
				arrs[i], sets[i] = a, s
			}
			isSet := func(s []uint64) bool { return len(dedup(s)) == len(s) }
			large := rapid.IntRange(0, 19).Draw(rt, "large") == 5
			c.ClassIf(large, "large arrays")
			drawIDs := func() []uint64 {
				if !large || rapid.IntRange(0, 2).Draw(rt, "small") == 2 {
					return rapid.SliceOfN(idGen, 0, 8).Draw(rt, "ids")
				}
				// many different ones, and not in order
				r := rand.New(rand.NewPCG(rapid.Uint64().Draw(rt, "seed"), 1))
				res := make([]uint64, rapid.SampledFrom([]int{14, 40, 70, 130, 257, 300, 700}).Draw(rt, "many"))
				bits := rapid.SampledFrom([]uint{0, 40, 54}).Draw(rt, "bits")
				for i := range res {
					res[i] = r.Uint64() >> bits
				}
				return res
			}
			for range rapid.IntRange(2, 16).Draw(rt, "steps") {
				op := rapid.SampledFrom([]string{"new", "spare", "part", "add", "add", "add", "concat", "concat", "contains", "overlaps", "sort", "lists", "sql", "strings", "nil"}).Draw(rt, "op")
				if len(arrs) == 0 && op != "spare" {
					op = "new"
				}
				pick := func() int { return rapid.IntRange(0, len(arrs)-1).Draw(rt, "i") }
				what := func() string { return strings.Join(log, "; ") }
				switch op {
				case "nil":
					log = append(log, "nil")
					put(nil, nil)
				case "new":
					l := drawIDs()
					log = append(log, fmt.Sprintf("new %v", l))
					a := xdb.NewIDArray(l)
					if !eq(a.List(), dedup(l)) {
						rt.Fatalf("%s: %v", what(), a.List())
					}
					put(a, dedup(l))
				case "spare":
					l := dedup(drawIDs())
					log = append(log, fmt.Sprintf("with spare capacity %v", l))
					put(asIDs(l, rapid.IntRange(0, 4).Draw(rt, "spare")), l)
				case "part":
					i := pick()
					n := rapid.IntRange(0, len(arrs[i])).Draw(rt, "n")
					log = append(log, fmt.Sprintf("first %d of %d", n, i))
					put(arrs[i][:n], slices.Clone(sets[i][:n]))
				case "add":
					i, u := pick(), idGen.Draw(rt, "id")
					if len(sets[i]) > 0 && rapid.IntRange(0, 2).Draw(rt, "in") == 0 {
						u = rapid.SampledFrom(sets[i]).Draw(rt, "u")
					}
					log = append(log, fmt.Sprintf("add %d to %d", u, i))
					a := arrs[i].Add(xdb.NewID(u))
					s := slices.Clone(sets[i])
					if !slices.Contains(s, u) {
						s = append(s, u)
					}
					if !eq(a.List(), s) {
						rt.Fatalf("%s: %v, expected %v", what(), a.List(), s)
					}
					put(a, s)
				case "concat":
					i, j := pick(), pick()
					log = append(log, fmt.Sprintf("concat %d and %d", i, j))
					a := arrs[i].Concat(arrs[j])
					s1 := dedup(append(slices.Clone(sets[i]), sets[j]...))
					s2 := dedup(append(slices.Clone(sets[j]), sets[i]...))
					got := a.List()
					if !eq(got, s1) && !eq(got, s2) {
						rt.Fatalf("%s: %v, expected %v", what(), got, s1)
					}
					put(a, slices.Clone(got))
				case "contains":
					i, u := pick(), idGen.Draw(rt, "id")
					if len(sets[i]) > 0 && rapid.Bool().Draw(rt, "in") {
						u = rapid.SampledFrom(sets[i]).Draw(rt, "u")
					}
					if got := arrs[i].Contains(xdb.NewID(u)); got != slices.Contains(sets[i], u) {
						rt.Fatalf("%s: %v contains %d: %v", what(), sets[i], u, got)
					}
				case "overlaps":
					i, j := pick(), pick()
					want := slices.ContainsFunc(sets[i], func(u uint64) bool { return slices.Contains(sets[j], u) })
					if arrs[i].Overlaps(arrs[j]) != want || arrs[j].Overlaps(arrs[i]) != want {
						rt.Fatalf("%s: %v overlaps %v: expected %v", what(), sets[i], sets[j], want)
					}
				case "sort":
					i := pick()
					log = append(log, fmt.Sprintf("sort a copy of %d", i))
					a := slices.Clone(arrs[i]).Sort()
					s := slices.Clone(sets[i])
					slices.Sort(s)
					if !eq(a.List(), s) {
						rt.Fatalf("%s: %v, expected %v", what(), a.List(), s)
					}
					put(a, s)
				case "lists":
					i := pick()
					var texts []string
					for _, u := range sets[i] {
						if u == 0 {
							texts = append(texts, "")
						} else {
							texts = append(texts, strconv.FormatUint(u, 10))
						}
					}
					if !slices.Equal(arrs[i].Strings(), texts) || arrs[i].String() != strings.Join(texts, ",") {
						rt.Fatalf("%s: %v as text: %v", what(), sets[i], arrs[i].Strings())
					}
					p, q := arrs[i].Int64Array(), xdb.Int64Array(sets[i])
					if len(p) != len(sets[i]) || len(q) != len(sets[i]) {
						rt.Fatalf("%s: %v as int64: %v %v", what(), sets[i], p, q)
					}
					for _, a := range []pq.Int64Array{p, q} {
						// an empty list is an empty array, and not NULL
						if v, err := a.Value(); err != nil || v != "{"+strings.Join(signed(sets[i]), ",")+"}" {
							rt.Fatalf("%s: %v as an argument: %v %v", what(), sets[i], v, err)
						}
					}
					for n, u := range sets[i] {
						if uint64(p[n]) != u || uint64(q[n]) != u {
							rt.Fatalf("%s: %v as int64: %v %v", what(), sets[i], p, q)
						}
					}
					if b := xdb.IDArrayFromStrings(texts); isSet(sets[i]) && !eq(b.List(), slices.DeleteFunc(slices.Clone(sets[i]), func(u uint64) bool { return u == 0 })) {
						rt.Fatalf("%s: from %v: %v", what(), texts, b.List())
					}
				case "sql":
					i := pick()
					log = append(log, fmt.Sprintf("sql of %d", i))
					v, err := arrs[i].Value()
					if err != nil {
						rt.Fatalf("%s: %v", what(), err)
					}
					if s, ok := v.(string); ok && rapid.Bool().Draw(rt, "bytes") {
						v = []byte(s)
					}
					var a xdb.IDArray
					if len(arrs) > 1 && rapid.Bool().Draw(rt, "used") {
						a = slices.Clone(arrs[0])
					}
					if err := a.Scan(v); err != nil {
						rt.Fatalf("%s: %v", what(), err)
					}
					if !eq(a.List(), sets[i]) {
						rt.Fatalf("%s: %v, expected %v", what(), a.List(), sets[i])
					}
					put(a, slices.Clone(sets[i]))
				case "strings":
					l := rapid.SliceOfN(numTextGen, 0, 6).Draw(rt, "texts")
					log = append(log, fmt.Sprintf("from %q", l))
					var s []uint64
					for _, x := range l {
						if n := decimal(x); n != nil && n.IsUint64() && n.Sign() > 0 {
							s = append(s, n.Uint64())
						}
					}
					a := xdb.IDArrayFromStrings(l)
					if !eq(a.List(), dedup(s)) {
						rt.Fatalf("%s: %v, expected %v", what(), a.List(), dedup(s))
					}
					put(a, dedup(s))
				}
				for i := range arrs {
					if !eq(arrs[i].List(), sets[i]) {
						rt.Fatalf("%s: array %d is %v, expected %v", what(), i, arrs[i].List(), sets[i])
					}
				}
				c.Class(op)
			}
			c.NonTrivial(len(arrs) > 2, strings.Join(log, "; "))
		})
}

func TestC18_Int32(t *testing.T) {
	vh.Run(t, 500, 5000, "lists of 32-bit ids and enums as an SQL array; non-trivial: not empty",
		func(rt *rapid.T, c *vh.Case) {
			l := rapid.SliceOfN(rapid.OneOf(rapid.Int32(), rapid.Int32Range(-2, 2)), 0, 50).Draw(rt, "l")
			a := xdb.Int32Array(l)
			ids := make([]xdb.ID32, len(l))
			for i := range l {
				ids[i] = xdb.ID32(l[i])
			}
			b := xdb.Int32Array(ids)
			v, err := a.Value()
			if v2, err2 := b.Value(); v != v2 || err != nil || err2 != nil || len(l) == 0 && v != "{}" {
				rt.Fatalf("%v as an argument: %v %v, %v %v", l, v, err, v2, err2)
			}
			if !slices.Equal(a, l) || !slices.Equal(b, l) {
				rt.Fatalf("%v: %v %v", l, a, b)
			}
			c.NonTrivial(len(l) > 0, fmt.Sprint(l))
		})
}
