package val

import (
	"database/sql"
	"encoding/json"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/vh"
	"pgregory.net/rapid"
)

// localZone makes a zone the one of the process, until the returned function is called.
func localZone(rt *rapid.T) func() {
	old := time.Local
	time.Local = rapid.SampledFrom(zones).Draw(rt, "local")
	return func() { time.Local = old }
}

// ms cuts to milliseconds.
func ms(t time.Time) time.Time { return time.UnixMilli(t.UnixMilli()).UTC() }

func sameUTC(rt *rapid.T, got xdb.Time, want time.Time, what string) {
	t := time.Time(got)
	if !t.Equal(want) {
		rt.Fatalf("%s: %s, expected %s", what, t.Format(time.RFC3339Nano), want.Format(time.RFC3339Nano))
	}
	if name, off := t.Zone(); off != 0 || name != "UTC" {
		rt.Fatalf("%s: %s is not in UTC", what, t)
	}
	if !got.UTC().Equal(want) || got.UTC().Location() != time.UTC {
		rt.Fatalf("%s: %s as UTC is %s", what, t, got.UTC())
	}
}

func TestC21_RoundTrip(t *testing.T) {
	vh.Run(t, 10000, 200000, "an instant of the years 1 to 9999 in a random zone goes through text in all formats, JSON, SQL, milliseconds and the conversions, with a duration added; non-trivial: fractions of a second or a zone other than UTC",
		func(rt *rapid.T, c *vh.Case) {
			defer localZone(rt)()
			x := timeGen.Draw(rt, "time")
			xt := xdb.Time(x)
			desc := x.Format(time.RFC3339Nano)

			// text
			for _, l := range []string{time.RFC3339Nano, time.RFC3339, xdb.DefaultTimeFormat, "2006-01-02T15:04:05.000Z07:00", "2006-01-02T15:04:05.000000Z07:00", "2006-01-02T15:04:05.0000Z07:00"} {
				text := x.Format(l)
				want, err := time.Parse(time.RFC3339Nano, text)
				if err != nil {
					continue // a zone with seconds of former times
				}
				sameUTC(rt, xdb.ParseTime(text), ms(want), "parse of "+text)
				var s xdb.Time
				if err := s.Scan(text); err != nil {
					rt.Fatalf("scan of %s: %v", text, err)
				}
				sameUTC(rt, s, ms(want), "scan of "+text)
			}
			u := x.UTC()
			sameUTC(rt, xdb.ParseTime(u.Format(time.DateTime)), u.Truncate(time.Second), "date and time")
			sameUTC(rt, xdb.ParseTime(u.Format(time.DateOnly)), time.Date(u.Year(), u.Month(), u.Day(), 0, 0, 0, 0, time.UTC), "date")
			if text := xt.String(); true {
				sameUTC(rt, xdb.ParseTime(text), ms(x), "text "+text)
				if !strings.HasSuffix(text, "Z") || !strings.HasPrefix(text, u.Format("2006-01-02T15:04:05")) {
					rt.Fatalf("text %s of %s", text, desc)
				}
			}

			// JSON
			js, err := json.Marshal(struct{ T, P any }{xt, &xt})
			if err != nil {
				rt.Fatalf("json of %s: %v", desc, err)
			}
			var back struct {
				T xdb.Time
				P *xdb.Time
			}
			if err := json.Unmarshal(js, &back); err != nil || back.P == nil {
				rt.Fatalf("json %s: %v", js, err)
			}
			sameUTC(rt, back.T, x, "json "+string(js))
			sameUTC(rt, *back.P, x, "json "+string(js))
			// JSON of any zone keeps the instant
			other, err := json.Marshal(x)
			if err == nil {
				var o xdb.Time
				if err := json.Unmarshal(other, &o); err != nil || !o.UTC().Equal(x) || o.UTC().Location() != time.UTC || o.UnixMilli() != x.UnixMilli() {
					rt.Fatalf("json %s: %s %v", other, o.UTC(), err)
				}
				if o.String() != xt.String() {
					rt.Fatalf("json %s: text %s, expected %s", other, o, xt)
				}
			}

			// SQL
			dv, err := xt.Value()
			if err != nil {
				rt.Fatalf("value: %v", err)
			}
			if d, ok := dv.(time.Time); !ok || !d.Equal(x) || d.Location() != time.UTC {
				rt.Fatalf("value of %s: %v", desc, dv)
			}
			for _, src := range []any{dv, x} {
				var s xdb.Time
				if err := s.Scan(src); err != nil {
					rt.Fatalf("scan: %v", err)
				}
				sameUTC(rt, s, x, "scan")
			}

			// conversions
			sameUTC(rt, xdb.UTC(x), ms(x), "UTC")
			sameUTC(rt, xdb.FromUnixMilli(x.UnixMilli()), ms(x), "FromUnixMilli")
			if xt.UnixMilli() != x.UnixMilli() || xdb.FromUnixMilli(x.UnixMilli()).UnixMilli() != x.UnixMilli() {
				rt.Fatalf("%s: milliseconds %d", desc, xt.UnixMilli())
			}
			if !xt.UTC().Equal(x) || xt.UTC().Location() != time.UTC {
				rt.Fatalf("%s: UTC %s", desc, xt.UTC())
			}
			if xt.IsZero() != x.IsZero() || xt.IsNil() != x.IsZero() {
				rt.Fatalf("%s: zero", desc)
			}
			if p := xt.Ptr(); p == nil || !p.Equal(x) || p.Location() != time.UTC {
				rt.Fatalf("%s: pointer %v", desc, p)
			}
			if p := xdb.TimePtr(xt); p == nil || !p.Equal(x) {
				rt.Fatalf("%s: pointer %v", desc, p)
			}
			if n := xdb.NullTime(&x); !n.Valid || !n.Time.Equal(x) {
				rt.Fatalf("%s: null time %v", desc, n)
			}
			d := time.Duration(rapid.OneOf(rapid.Int64Range(-1e10, 1e10), rapid.Int64()).Draw(rt, "duration"))
			if sum := x.Add(d); sum.Year() > 1 && sum.Year() < 9999 {
				sameUTC(rt, xt.Add(d), ms(sum), desc+" and "+d.String())
			}
			c.Class(x.Location().String())
			c.NonTrivial(x.Nanosecond() != 0 || x.Location() != time.UTC, desc)
		})
}

func TestC21_Zero(t *testing.T) {
	vh.Run(t, 50, 200, "the zero time in every zone through text, JSON and SQL, and the current time; non-trivial: always",
		func(rt *rapid.T, c *vh.Case) {
			defer localZone(rt)()
			z := rapid.SampledFrom(zones[:4]).Draw(rt, "zone")
			x := xdb.Time(time.Time{}.In(z))
			js, err := json.Marshal(x)
			if err != nil || string(js) != `""` || x.String() != "" || !x.IsZero() || !x.IsNil() || x.Ptr() != nil || xdb.TimePtr(x) != nil {
				rt.Fatalf("zero: %s %v %q %v", js, err, x, x.Ptr())
			}
			if dv, err := x.Value(); dv != nil || err != nil {
				rt.Fatalf("zero: %v %v", dv, err)
			}
			for _, src := range []any{nil, "", time.Time{}.In(z)} {
				s := xdb.Now()
				if err := s.Scan(src); err != nil || !s.IsZero() {
					rt.Fatalf("scan of %v: %v %v", src, s, err)
				}
			}
			s := xdb.Now()
			if err := json.Unmarshal([]byte(`""`), &s); err != nil || !s.IsZero() {
				rt.Fatalf("zero: %v", err)
			}
			if xdb.NullTime(nil) != (sql.NullTime{}) || !xdb.ParseTime("").IsZero() {
				rt.Fatalf("zero")
			}
			d := time.Duration(rapid.Int64Range(-1e15, 1e15).Draw(rt, "d"))
			a, n, f, b := time.Now(), xdb.Now(), xdb.FromNow(d), time.Now()
			for _, g := range []struct {
				t      xdb.Time
				lo, hi time.Time
			}{{n, a, b}, {f, a.Add(d), b.Add(d)}} {
				u := g.t.UTC()
				if u.Before(ms(g.lo)) || u.After(g.hi) || !u.Equal(ms(u)) || time.Time(g.t).Location() != time.UTC {
					rt.Fatalf("now %s is not from %s to %s", u, g.lo, g.hi)
				}
			}
			c.NonTrivial(true, z.String()+d.String())
		})
}

var layouts = []string{time.RFC3339Nano, time.RFC3339, time.DateTime, time.DateOnly, "2006-01-02T15:04:05.999Z07:00"}

func TestC21_Text(t *testing.T) {
	vh.Run(t, 15000, 300000, "texts made from a time by a small change (digits, signs, separators, a piece cut or doubled, months, days and hours out of range) and other formats: the result is the time the text says in one of the documented formats, zero, or an error, for parsing, SQL and JSON; non-trivial: changed text which is as long as a valid one",
		func(rt *rapid.T, c *vh.Case) {
			defer localZone(rt)()
			x := timeGen.Draw(rt, "time")
			l := rapid.SampledFrom([]string{time.RFC3339Nano, time.RFC3339, time.DateTime, time.DateOnly, xdb.DefaultTimeFormat, time.RFC1123Z, time.ANSIC, "2006-01-02 15:04:05.999999", "2006-01-02T15:04:05", "2006-01-02 15:04:05-07:00", "01/02/2006"}).Draw(rt, "layout")
			s := []byte(x.Format(l))
			n := len(s)
			for range rapid.IntRange(0, 2).Draw(rt, "changes") {
				if len(s) == 0 {
					break
				}
				i := rapid.IntRange(0, len(s)-1).Draw(rt, "at")
				switch rapid.IntRange(0, 4).Draw(rt, "change") {
				case 0, 1:
					s[i] = rapid.SampledFrom([]byte("0123456789-:T .Z+")).Draw(rt, "char")
				case 2:
					s = append(s[:i:i], s[i+1:]...)
				case 3:
					s = append(s[:i+1:i+1], s[i:]...)
				case 4:
					s = append(s, rapid.SampledFrom([]byte(" Z0+")).Draw(rt, "char"))
				}
			}
			if rapid.IntRange(0, 9).Draw(rt, "other") == 0 {
				s = []byte(strGen.Draw(rt, "s"))
			}
			text := string(s)
			var readings []time.Time
			for _, l := range layouts {
				if t, err := time.Parse(l, text); err == nil {
					readings = append(readings, t)
				}
			}
			check := func(got xdb.Time, what string) {
				if got.IsZero() {
					return
				}
				for _, r := range readings {
					if got.UTC().Equal(ms(r)) {
						return
					}
				}
				rt.Fatalf("%s of %q: %s, expected one of %v", what, text, got, readings)
			}
			got := xdb.ParseTime(text)
			check(got, "parse")
			s1 := xdb.Now()
			if err := s1.Scan(text); err == nil {
				if !s1.UTC().Equal(got.UTC()) {
					rt.Fatalf("scan of %q: %s, parsed %s", text, s1, got)
				}
			}
			// what is a time in RFC 3339 must be read
			if r, err := time.Parse(time.RFC3339Nano, text); err == nil && r.Format(time.RFC3339Nano) == text && !got.UTC().Equal(ms(r)) {
				rt.Fatalf("parse of %q: %s, expected %s", text, got, r)
			}
			// JSON
			q, _ := json.Marshal(text)
			for _, js := range []string{string(q), text} {
				if js == "null" {
					continue
				}
				var want time.Time
				werr := json.Unmarshal([]byte(js), &want)
				var j xdb.Time
				err := json.Unmarshal([]byte(js), &j)
				if js == `""` {
					werr = nil
				}
				if (err == nil) != (werr == nil) || err == nil && !j.UTC().Equal(want) {
					rt.Fatalf("json %s: %s %v, expected %s %v", js, j.UTC(), err, want, werr)
				}
			}
			c.ClassIf(!got.IsZero(), "a time")
			c.NonTrivial(len(text) == n && len(readings) == 0, strconv.Quote(text))
		})
}

func TestC21_Order(t *testing.T) {
	vh.Run(t, 2000, 20000, "lists of instants in different zones sorted by their text, milliseconds and JSON agree with the standard order to the millisecond; non-trivial: different zones",
		func(rt *rapid.T, c *vh.Case) {
			defer localZone(rt)()
			a, b := timeGen.Draw(rt, "a"), timeGen.Draw(rt, "b")
			if rapid.Bool().Draw(rt, "near") {
				b = a.Add(time.Duration(rapid.Int64Range(-3e6, 3e6).Draw(rt, "d"))).In(b.Location())
			}
			x, y := xdb.Time(a), xdb.Time(b)
			cmp := func(n int64) int {
				switch {
				case n < 0:
					return -1
				case n > 0:
					return 1
				}
				return 0
			}
			want := cmp(a.UnixMilli() - b.UnixMilli())
			if cmp(x.UnixMilli()-y.UnixMilli()) != want || ms(a).Compare(ms(b)) != want {
				rt.Fatalf("%s and %s: %d %d", a, b, x.UnixMilli(), y.UnixMilli())
			}
			if x.UTC().Compare(y.UTC()) != a.Compare(b) {
				rt.Fatalf("%s and %s: %s %s", a, b, x.UTC(), y.UTC())
			}
			if (x.String() == y.String()) != (want == 0) {
				rt.Fatalf("%s and %s: texts %s and %s", a, b, x, y)
			}
			if xdb.UTC(a).UTC().Compare(xdb.UTC(b).UTC()) != want {
				rt.Fatalf("%s and %s: UTC %v %v", a, b, xdb.UTC(a), xdb.UTC(b))
			}
			c.NonTrivial(a.Location() != b.Location(), a.String()+" "+b.String())
		})
}
