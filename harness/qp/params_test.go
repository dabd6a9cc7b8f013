package qp

import (
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/vh"
	"pgregory.net/rapid"
)

// ---- C14 ----

type enumSet struct {
	pos uint32
	v   int32
}

// pmodel is the reference for the parameters.
type pmodel struct {
	name   string
	pos    uint64
	enums  []enumSet
	flags  []int32
	args   []any
	limit  uint32
	offset uint32
	cursor any
	paged  bool // the argument list is complete
	nulls  []string
	olds   []oldArgs // argument lists returned before

	oldLists []oldList // and flags and null columns
}

type oldArgs struct {
	got  []any
	want string
}

type oldList struct {
	get  func() string
	want string
}

func (m *pmodel) reset() { *m = pmodel{name: m.name, olds: m.olds, oldLists: m.oldLists} }

// shape is what the name stands for.
func (m *pmodel) shape(withNulls bool) string {
	kind := "none"
	if m.cursor != nil {
		kind = "cursor"
	} else if m.offset > 0 {
		kind = "offset"
	} else if m.limit > 0 {
		kind = "first page"
	}
	n := append([]string(nil), m.nulls...)
	sort.Strings(n)
	s := fmt.Sprintf("%q %x %v %v %s", m.name, m.pos, m.enums, m.flags, kind)
	if withNulls {
		s += fmt.Sprintf(" %q", n)
	} else {
		s += fmt.Sprintf(" %q", strings.Join(n, ""))
	}
	return s
}

func (m *pmodel) check(rt *rapid.T, b *xdb.QueryParamsBuilder, log []string) {
	fail := func(what string, got, want any) {
		rt.Fatalf("%s: %v, expected %v\n%s", what, got, want, strings.Join(log, "; "))
	}
	if !(len(b.Args()) == 0 && len(m.args) == 0) && !reflect.DeepEqual(b.Args(), m.args) {
		fail("arguments", b.Args(), m.args)
	}
	for i, o := range m.olds {
		if s := fmt.Sprint(o.got...); s != o.want {
			fail(fmt.Sprint("argument list returned before, ", i), s, o.want)
		}
	}
	for i, o := range m.oldLists {
		if s := o.get(); s != o.want {
			fail(fmt.Sprint("flags or null columns returned before, ", i), s, o.want)
		}
	}
	if f := b.GetFlags(); len(f) > 0 {
		m.oldLists = append(m.oldLists, oldList{func() string { return fmt.Sprint(f) }, fmt.Sprint(f)})
	}
	if l := b.GetNullColumns(); len(l) > 0 {
		m.oldLists = append(m.oldLists, oldList{func() string { return fmt.Sprint(l) }, fmt.Sprint(l)})
	}
	if a := b.Args(); len(a) > 0 {
		m.olds = append(m.olds, oldArgs{a, fmt.Sprint(a...)})
	}
	for p := uint32(0); p < 66; p++ {
		want := p < 64 && m.pos&(1<<p) != 0
		if b.IsSet(p) != want {
			fail(fmt.Sprint("set ", p), b.IsSet(p), want)
		}
		var ev int32
		var eok bool
		for _, e := range m.enums {
			if e.pos == p {
				ev, eok = e.v, true
			}
		}
		if v, ok := b.GetEnum(p); v != ev || ok != eok {
			fail(fmt.Sprint("enum ", p), fmt.Sprint(v, ok), fmt.Sprint(ev, eok))
		}
	}
	if !(len(b.GetFlags()) == 0 && len(m.flags) == 0) && !reflect.DeepEqual(b.GetFlags(), m.flags) {
		fail("flags", b.GetFlags(), m.flags)
	}
	if !(len(b.GetNullColumns()) == 0 && len(m.nulls) == 0) && !reflect.DeepEqual(b.GetNullColumns(), m.nulls) {
		fail("null columns", b.GetNullColumns(), m.nulls)
	}
	if l, o := b.Page(); l != m.limit || o != m.offset {
		fail("page", fmt.Sprint(l, o), fmt.Sprint(m.limit, m.offset))
	}
	if l, cur := b.Cursor(); l != m.limit || cur != m.cursor {
		fail("cursor", fmt.Sprint(l, cur), fmt.Sprint(m.limit, m.cursor))
	}
	if xdb.GetQueryParams(b) != xdb.QueryParams(b) {
		rt.Fatalf("query parameters are not found")
	}
}

func mustPanic(rt *rapid.T, want bool, log []string, f func()) bool {
	p := func() (p any) {
		defer func() { p = recover() }()
		f()
		return nil
	}()
	if (p != nil) != want {
		rt.Fatalf("panic %v, expected %v\n%s", p, want, strings.Join(log, "; "))
	}
	return p == nil
}

var colNames = []string{"a", "b", "c", "ab", "bc", "abc", "id", "name", "created_at"}

func paramsStep(rt *rapid.T, b *xdb.QueryParamsBuilder, m *pmodel, log *[]string) {
	op := rapid.SampledFrom([]string{"Set", "Set", "Set", "Enum", "Enum", "Burst", "Flags", "Nulls", "Args", "Page", "Cursor", "Reset", "Name"}).Draw(rt, "op")
	pos := uint32(rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(60, 66), rapid.IntRange(0, 63)).Draw(rt, "pos"))
	*log = append(*log, fmt.Sprint(op, pos))
	switch op {
	case "Set":
		v := rapid.SampledFrom([]any{0, 1, 7, "", "x", nil, false, 0.0, []byte{}, xdb.ID{}, xdb.NewID(7)}).Draw(rt, "v")
		if mustPanic(rt, pos > 63 || m.paged, *log, func() { b.Set(pos, v) }) {
			m.pos |= 1 << pos
			m.args = append(m.args, v)
		}
	case "Enum":
		for _, e := range m.enums {
			if e.pos == pos {
				return // set once
			}
		}
		v := rapid.SampledFrom([]int32{0, 1, 2, 16, 255, -1, 1 << 30}).Draw(rt, "v")
		if mustPanic(rt, pos > 63 || m.paged, *log, func() { b.SetEnum(pos, v) }) {
			m.pos |= 1 << pos
			m.enums = append(m.enums, enumSet{pos, v})
		}
	case "Burst":
		// rarely, as it is slow
		if rapid.IntRange(0, 7).Draw(rt, "burst") != 3 || m.paged {
			return
		}
		for p := range uint32(64) {
			switch rapid.IntRange(0, 2).Draw(rt, "kind") {
			case 0:
				b.Set(p, p)
				m.args = append(m.args, p)
				m.pos |= 1 << p
			case 1:
				if !slices.ContainsFunc(m.enums, func(e enumSet) bool { return e.pos == p }) {
					b.SetEnum(p, int32(p)+1)
					m.enums = append(m.enums, enumSet{p, int32(p) + 1})
					m.pos |= 1 << p
				}
			}
		}
	case "Flags":
		var f []int32
		n := rapid.IntRange(0, 3).Draw(rt, "n")
		if rapid.IntRange(0, 15).Draw(rt, "many") == 7 {
			n = rapid.IntRange(4, 80).Draw(rt, "n")
		}
		for range n {
			f = append(f, rapid.SampledFrom([]int32{0, 1, 17, -1, 0x11}).Draw(rt, "f"))
		}
		b.SetFlags(f...)
		m.flags = f
	case "Nulls":
		perm := rapid.Permutation(colNames).Draw(rt, "perm")
		cols := perm[:rapid.IntRange(0, 4).Draw(rt, "n")]
		cp := append([]string(nil), cols...)
		b.SetNullColums(cols)
		m.nulls = cp
	case "Args":
		list := []any{0, 1, 2, "x", nil, ""}
		if rapid.IntRange(0, 15).Draw(rt, "many") == 7 {
			for i := range rapid.IntRange(10, 300).Draw(rt, "more") {
				list = append(list, i)
			}
		}
		n := rapid.IntRange(0, len(list)).Draw(rt, "n")
		if mustPanic(rt, m.paged, *log, func() { b.AddArgs(list[:n]...) }) {
			m.args = append(m.args, list[:n]...)
			// neither the list nor what lies behind it is written later
			m.olds = append(m.olds, oldArgs{list, fmt.Sprint(list...)})
		}
	case "Page":
		l := uint32(rapid.SampledFrom([]int{0, 1, 10, 500}).Draw(rt, "limit"))
		o := uint32(rapid.SampledFrom([]int{0, 1, 10}).Draw(rt, "offset"))
		if mustPanic(rt, m.paged, *log, func() { b.SetPage(l, o) }) {
			if l == 0 {
				l = xdb.DefaultPageSize
			}
			m.limit, m.offset, m.paged = l, o, true
			m.args = append(m.args, l, o)
		}
	case "Cursor":
		l := uint32(rapid.SampledFrom([]int{0, 1, 10}).Draw(rt, "limit"))
		cur := rapid.SampledFrom([]any{0, 1, 2, "", "x", xdb.ID{}, xdb.NewID(3), false}).Draw(rt, "cursor")
		if mustPanic(rt, pos > 63 || m.paged, *log, func() { b.SetCursor(l, pos, cur) }) {
			if l == 0 {
				l = xdb.DefaultPageSize
			}
			m.limit, m.cursor, m.paged = l, cur, true
			m.pos |= 1 << pos
			m.args = append(m.args, cur, l)
		}
	case "Reset":
		b.Reset()
		m.reset()
	case "Name":
		_ = b.Name()
	}
}

// nulls whose concatenation is equal have the same name
const nullFinding = "C14-null-columns"

func TestC14_Params(t *testing.T) {
	vh.Run(t, 3000, 40000, "two to four parameter sets, each with up to 12 random calls (set, enum, flags, null columns, arguments, page, cursor, reset, reading the name); everything is read back after every call, lists given and returned before are watched, and the names are compared with the shapes, and with a fresh set that gets the same shape; non-trivial: at least 4 calls",
		func(rt *rapid.T, c *vh.Case) {
			type set struct {
				b *xdb.QueryParamsBuilder
				m *pmodel
			}
			var sets []set
			var log []string
			for range rapid.IntRange(2, 4).Draw(rt, "sets") {
				n := rapid.SampledFrom([]string{"List", "List", "Get_x0", "", "List_x1"}).Draw(rt, "queryName")
				s := set{xdb.NewQueryParams(n), &pmodel{name: n}}
				log = append(log, "new "+n)
				for range rapid.IntRange(0, 12).Draw(rt, "calls") {
					paramsStep(rt, s.b, s.m, &log)
					s.m.check(rt, s.b, log)
				}
				sets = append(sets, s)
			}
			for i, s := range sets {
				n := s.b.Name()
				if again := s.b.Name(); again != n {
					rt.Fatalf("the name changes from %q to %q", n, again)
				}
				s.m.check(rt, s.b, log)
				// the same shape, made in one go
				f := xdb.NewQueryParams(s.m.name)
				perm := rapid.Permutation(s.m.nulls).Draw(rt, "nullsPerm")
				f.SetNullColums(perm)
				f.SetFlags(s.m.flags...)
				em := map[uint32]bool{}
				for _, e := range s.m.enums {
					em[e.pos] = true
					f.SetEnum(e.pos, e.v)
				}
				for p := uint32(0); p < 64; p++ {
					if s.m.pos&(1<<p) != 0 && !em[p] {
						f.Set(p, "other")
					}
				}
				switch {
				case s.m.cursor != nil:
					// the position of the cursor is set already
					var p uint32
					for p = 0; p < 64 && s.m.pos&(1<<p) == 0; p++ {
					}
					f.SetCursor(3, p, "after")
				case s.m.offset > 0:
					f.SetPage(7, 3)
				case s.m.limit > 0:
					f.SetPage(7, 0)
				}
				if f.Name() != n {
					rt.Fatalf("the name %q differs from %q of the same shape\n%s\nshape %s", n, f.Name(), strings.Join(log, "; "), s.m.shape(true))
				}
				for _, o := range sets[:i] {
					same := o.b.Name() == n
					if want := o.m.shape(true) == s.m.shape(true); same != want {
						if same && o.m.shape(false) == s.m.shape(false) {
							vh.Known(nullFinding, "sets of null columns with the same concatenation, such as (ab, c) and (a, bc), have the same name")
							continue
						}
						rt.Fatalf("name %q for\n%s\nand name %q for\n%s", n, s.m.shape(true), o.b.Name(), o.m.shape(true))
					}
				}
			}
			c.NonTrivial(len(log) > 5, strings.Join(log, ";"))
		})
	// the listed finding, always looked at
	one := xdb.NewQueryParams("q").SetNullColums([]string{"ab", "c"}).Name()
	two := xdb.NewQueryParams("q").SetNullColums([]string{"a", "bc"}).Name()
	if one == two {
		vh.Known(nullFinding, "sets of null columns with the same concatenation, such as (ab, c) and (a, bc), have the same name")
	}
}

type holder struct{ p xdb.QueryParams }

func (h holder) QueryParams() xdb.QueryParams { return h.p }

func TestC14_Names(t *testing.T) {
	vh.Run(t, 2000, 30000, "pairs of parameter sets which differ in one detail: one position, enum value, flag, null column, kind of paging, the order of flags, or the same digits split into other flags or enums; the names differ; a pair that differs in values only has equal names; non-trivial: always",
		func(rt *rapid.T, c *vh.Case) {
			type spec struct {
				pos   uint64
				enum  []enumSet
				flags []int32
				nulls []string
				page  int
				first bool
				val   int
			}
			bigger := rapid.IntRange(0, 15).Draw(rt, "bigger") == 7
			draw := func() spec {
				enums, flags, nulls := 2, 3, 3
				if bigger {
					enums, flags, nulls = 40, 20, 12
				}
				s := spec{pos: rapid.Uint64().Draw(rt, "pos"), page: rapid.IntRange(0, 2).Draw(rt, "page"), first: rapid.Bool().Draw(rt, "first")}
				s.enum = append(s.enum, enumSet{uint32(rapid.IntRange(0, 63).Draw(rt, "epos")), rapid.Int32().Draw(rt, "ev")})
				for range rapid.IntRange(0, enums).Draw(rt, "nenums") {
					e := enumSet{uint32(rapid.IntRange(0, 63).Draw(rt, "epos")), rapid.Int32().Draw(rt, "ev")}
					if !slices.ContainsFunc(s.enum, func(o enumSet) bool { return o.pos == e.pos }) {
						s.enum = append(s.enum, e)
					}
				}
				for range rapid.IntRange(0, flags).Draw(rt, "nflags") {
					s.flags = append(s.flags, rapid.Int32().Draw(rt, "flag"))
				}
				for i := range rapid.IntRange(0, nulls).Draw(rt, "nnulls") {
					s.nulls = append(s.nulls, fmt.Sprintf("col%d%s", i, rapid.StringMatching(`[a-z]{1,4}`).Draw(rt, "null")))
				}
				return s
			}
			build := func(s spec) *xdb.QueryParamsBuilder {
				b := xdb.NewQueryParams("q")
				for _, e := range s.enum {
					b.SetEnum(e.pos, e.v)
				}
				for p := uint32(0); p < 64; p++ {
					if s.pos&(1<<p) != 0 {
						b.Set(p, s.val)
					}
				}
				b.SetFlags(s.flags...)
				b.SetNullColums(append([]string(nil), s.nulls...))
				switch s.page {
				case 1:
					offset := uint32(1 + s.val)
					if s.first {
						offset = 0
					}
					b.SetPage(uint32(10+s.val), offset)
				case 2:
					// the position is there in any case
					b.SetCursor(uint32(10+s.val), s.enum[0].pos, fmt.Sprint("c", s.val))
				}
				return b
			}
			a := draw()
			z := a
			z.flags = append([]int32(nil), a.flags...)
			z.nulls = append([]string(nil), a.nulls...)
			z.enum = append([]enumSet(nil), a.enum...)
			kind := rapid.SampledFrom([]string{"value", "position", "enum value", "flag", "flag count", "null", "page", "flags regrouped", "flags swapped", "enums regrouped", "enums swapped", "enum as flag"}).Draw(rt, "kind")
			// digits split into numbers at two different places
			split := func(n, base int) (x, y []int64) {
				digits := rapid.SliceOfN(rapid.IntRange(1, 9), n, n).Draw(rt, "digits")
				cut := func(at []int) (l []int64) {
					v := int64(0)
					for i, d := range digits {
						if slices.Contains(at, i) {
							l = append(l, v)
							v = 0
						}
						v = v*int64(base) + int64(d)
					}
					return append(l, v)
				}
				all := make([]int, n-1)
				for i := range all {
					all[i] = i + 1
				}
				for _, l := range []*[]int64{&x, &y} {
					k := rapid.IntRange(0, min(3, n-1)).Draw(rt, "cuts")
					*l = cut(rapid.Permutation(all).Draw(rt, "at")[:k])
				}
				return x, y
			}
			switch kind {
			case "flags regrouped":
				a.flags, z.flags = nil, nil
				x, y := split(rapid.IntRange(2, 7).Draw(rt, "n"), 16)
				if slices.Equal(x, y) {
					return
				}
				for _, v := range x {
					a.flags = append(a.flags, int32(v))
				}
				for _, v := range y {
					z.flags = append(z.flags, int32(v))
				}
			case "flags swapped":
				if len(z.flags) < 2 || z.flags[0] == z.flags[1] {
					return
				}
				z.flags[0], z.flags[1] = z.flags[1], z.flags[0]
			case "enums regrouped":
				// the same digits as positions and values of two enums
				d := rapid.SliceOfN(rapid.IntRange(1, 6), 6, 6).Draw(rt, "digits")
				n := func(i, j int) (v int) {
					for ; i < j; i++ {
						v = v*10 + d[i]
					}
					return v
				}
				var l [2][3]int
				for i := range l {
					l[i][0] = rapid.IntRange(1, 2).Draw(rt, "pos")
					l[i][1] = rapid.IntRange(3, 4).Draw(rt, "value")
					l[i][2] = 5
				}
				es := func(k [3]int) []enumSet {
					h := func(i, j int) int32 {
						v, _ := strconv.ParseInt(strconv.Itoa(n(i, j)), 16, 32)
						return int32(v)
					}
					return []enumSet{{uint32(n(0, k[0]) % 64), h(k[0], k[1])}, {uint32(n(k[1], k[2]) % 64), h(k[2], 6)}}
				}
				a.enum, z.enum = es(l[0]), es(l[1])
				if slices.Equal(a.enum, z.enum) || a.enum[0].pos == a.enum[1].pos || z.enum[0].pos == z.enum[1].pos {
					return
				}
				// the positions are set in both
				for _, e := range append(slices.Clone(a.enum), z.enum...) {
					a.pos |= 1 << e.pos
				}
				z.pos = a.pos
			case "enums swapped":
				// two positions with each other's values, in any order
				if len(a.enum) < 2 || a.enum[0].v == a.enum[1].v {
					return
				}
				z.enum[0].v, z.enum[1].v = a.enum[1].v, a.enum[0].v
				if rapid.Bool().Draw(rt, "order") {
					z.enum[0], z.enum[1] = z.enum[1], z.enum[0]
				}
				if rapid.Bool().Draw(rt, "order") {
					a.enum[0], a.enum[1] = a.enum[1], a.enum[0]
				}
			case "enum as flag":
				e := enumSet{uint32(rapid.IntRange(0, 63).Draw(rt, "epos2")), rapid.Int32Range(0, 20).Draw(rt, "ev2")}
				if slices.ContainsFunc(a.enum, func(o enumSet) bool { return o.pos == e.pos }) {
					return
				}
				a.pos |= 1 << e.pos
				z.pos = a.pos
				a.enum = append(slices.Clone(a.enum), e)
				z.flags = append([]int32{e.v}, z.flags...)
			case "value":
				z.val = 5
				sort.Sort(sort.Reverse(sort.StringSlice(z.nulls)))
			case "position":
				p := uint32(rapid.IntRange(0, 63).Draw(rt, "bit"))
				if slices.ContainsFunc(a.enum, func(e enumSet) bool { return e.pos == p }) {
					return
				}
				z.pos ^= 1 << p
			case "enum value":
				z.enum[rapid.IntRange(0, len(z.enum)-1).Draw(rt, "which")].v ^= int32(1) << rapid.IntRange(0, 31).Draw(rt, "bit")
			case "flag":
				if len(z.flags) == 0 {
					return
				}
				z.flags[rapid.IntRange(0, len(z.flags)-1).Draw(rt, "i")] ^= 1 << rapid.IntRange(0, 30).Draw(rt, "bit")
			case "flag count":
				z.flags = append(z.flags, 0)
			case "null":
				z.nulls = append(z.nulls, "x")
			case "page":
				z.page = (z.page + 1 + rapid.IntRange(0, 1).Draw(rt, "other")) % 3
			}
			x, y := build(a), build(z)
			if (x.Name() == y.Name()) != (kind == "value") {
				rt.Fatalf("%s: names %q and %q\n%+v\n%+v", kind, x.Name(), y.Name(), a, z)
			}
			if xdb.GetQueryParams("none", 1, holder{x}, y) != xdb.QueryParams(x) {
				rt.Fatalf("the first holder of query parameters is not found")
			}
			mustPanic(rt, true, nil, func() { xdb.GetQueryParams("none", 1) })
			c.Class(kind)
			c.NonTrivial(true, fmt.Sprintf("%s %+v", kind, a))
		})
}
