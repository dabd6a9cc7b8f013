package gen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"

	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/schema"
	"pgregory.net/rapid"
)

// The generated packages are built into a program, which reports what the
// code does: which field each column is read into, what descriptions say.

const driverSource = `package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"

	"github.com/effective-security/xdb"
	xdbschema "github.com/effective-security/xdb/schema"
	"github.com/effective-security/xdb/xsql"
)

type Model struct {
	Name     string
	Fields   []string // names
	Types    []string
	Tags     []string // struct tags
	Scanned  []int    // index of the field of each scanned target, -1 if it is no field
	Problem  string
	HasCache bool
}
type Result struct {
	Name, Elem, Info, Problem string
}
type Info struct {
	Var  string
	Info xdbschema.TableInfo
	FQN  string
	Dialect string
}
type Def struct {
	Var, Info string
	Columns   []xdbschema.Column
	Fields    []string
}
type Map struct {
	Var  string
	Keys map[string]string
}
type Report struct {
	Models   []Model
	Results  []Result
	Infos    []Info
	Defs     []Def
	Maps     []Map
	Dialects map[string]string
}

type row struct {
	dest []any
	err  error
}

func (r *row) Scan(dest ...any) error { r.dest = dest; return r.err }
func (r *row) Err() error             { return r.err }

var errRow = errors.New("scan failed")

func model(name string, p any) (m Model) {
	m.Name = name
	s := p.(xdb.RowScanner)
	v := reflect.ValueOf(p).Elem()
	addrs := map[uintptr]int{}
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		m.Fields = append(m.Fields, f.Name)
		m.Types = append(m.Types, f.Type.String())
		m.Tags = append(m.Tags, string(f.Tag))
		addrs[v.Field(i).Addr().Pointer()] = len(m.Fields) - 1
	}
	r := &row{}
	if err := s.ScanRow(r); err != nil {
		m.Problem = fmt.Sprint("ScanRow: ", err)
	}
	for _, d := range r.dest {
		dv := reflect.ValueOf(d)
		n := -1
		if dv.Kind() == reflect.Pointer {
			if i, ok := addrs[dv.Pointer()]; ok && dv.Type().Elem().String() == m.Types[i] {
				n = i
			}
		}
		m.Scanned = append(m.Scanned, n)
	}
	r.err = errRow
	if err := s.ScanRow(r); !errors.Is(err, errRow) {
		m.Problem = fmt.Sprint("ScanRow of a failing row: ", err)
	}
	if c := reflect.ValueOf(p).MethodByName("Cached"); c.IsValid() {
		m.HasCache = true
		a := c.Call(nil)[0]
		_ = c.Call(nil)
		a.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(any(1)))
		b := c.Call(nil)[0]
		if b.Len() != 1 {
			m.Problem = "cached properties are lost"
		}
	}
	return m
}

func result[T any, P xdb.RowPointer[T]](name, elem string, mk func() any, infos map[*xdbschema.TableInfo]string) (r Result) {
	r.Name, r.Elem = name, elem
	bad := func(f string, a ...any) { r.Problem = fmt.Sprintf(f, a...) }
	h, ok := mk().(xdbschema.HasTableInfo)
	if !ok {
		bad("no GetTableInfo")
		return
	}
	r.Info = infos[h.GetTableInfo()]
	a, ok := mk().(xdb.Result[T, P])
	b, ok2 := mk().(xdb.ResultWithCursor[T, P])
	if !ok || !ok2 {
		bad("can not be used as result")
		return
	}
	field := func(x any, f string) any { return reflect.ValueOf(x).Elem().FieldByName(f).Interface() }
	rows := []P{new(T), new(T), new(T)}
	a.SetResult(rows, true, 7)
	if reflect.ValueOf(field(a, "Rows")).Len() != 3 || field(a, "HasNextPage") != true || field(a, "NextOffset") != uint32(7) {
		bad("SetResult: %+v", a)
	}
	for i := range rows {
		if reflect.ValueOf(field(a, "Rows")).Index(i).Pointer() != reflect.ValueOf(rows[i]).Pointer() {
			bad("SetResult changes row %d", i)
		}
	}
	a.SetResult(rows[:1], false, 0)
	if reflect.ValueOf(field(a, "Rows")).Len() != 1 || field(a, "HasNextPage") != false || field(a, "NextOffset") != uint32(0) {
		bad("SetResult: %+v", a)
	}
	var last P
	cur := func(p P) string { last = p; return "cur" }
	b.SetResultWithCursor(rows, true, cur)
	if reflect.ValueOf(field(b, "Rows")).Len() != 3 || field(b, "HasNextPage") != true || field(b, "Cursor") != "cur" || last != rows[2] {
		bad("SetResultWithCursor: %+v", b)
	}
	b.SetResultWithCursor(rows[1:2], true, cur)
	if r := reflect.ValueOf(field(b, "Rows")); r.Len() != 1 || r.Index(0).Pointer() != reflect.ValueOf(rows[1]).Pointer() || field(b, "HasNextPage") != true || last != rows[1] {
		bad("SetResultWithCursor of the next page: %+v", b)
	}
	for _, n := range []int{0, 2} {
		b = mk().(xdb.ResultWithCursor[T, P])
		b.SetResultWithCursor(rows[:n], false, cur)
		if reflect.ValueOf(field(b, "Rows")).Len() != n || field(b, "HasNextPage") != false || field(b, "Cursor") != "" {
			bad("SetResultWithCursor of the last page: %+v", b)
		}
	}
	return
}

func dialect(d xsql.SQLDialect) string {
	switch d {
	case xsql.Postgres:
		return "postgres"
	case xsql.SQLServer:
		return "sqlserver"
	case xsql.NoDialect:
		return "other"
	}
	return fmt.Sprint(d)
}

func info(name string, i *xdbschema.TableInfo) Info {
	return Info{Var: name, Info: *i, FQN: i.SchemaName, Dialect: dialect(i.Dialect)}
}

func def(name string, p any, infos map[*xdbschema.TableInfo]string) (d Def) {
	d.Var = name
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		switch f := v.Field(i).Interface().(type) {
		case *xdbschema.TableInfo:
			d.Info = infos[f]
		case xdbschema.Column:
			d.Columns = append(d.Columns, f)
			d.Fields = append(d.Fields, v.Type().Field(i).Name)
		}
	}
	return
}

func tables(name string, m map[string]*xdbschema.TableInfo, infos map[*xdbschema.TableInfo]string) Map {
	r := Map{Var: name, Keys: map[string]string{}}
	for k, i := range m {
		r.Keys[k] = infos[i]
	}
	return r
}

var reports = map[string]*Report{}

func main() {
	_ = json.NewEncoder(os.Stdout).Encode(reports)
}
`

type model struct {
	Name     string
	Fields   []string
	Types    []string
	Tags     []string
	Scanned  []int
	Problem  string
	HasCache bool
}
type result struct{ Name, Elem, Info, Problem string }
type info struct {
	Var          string
	Info         schema.TableInfo
	FQN, Dialect string
}
type def struct {
	Var, Info string
	Columns   []schema.Column
	Fields    []string
}
type report struct {
	Models  []model
	Results []result
	Infos   []info
	Defs    []def
	Maps    []struct {
		Var  string
		Keys map[string]string
	}
	Dialects map[string]string
}

const genBase = "github.com/effective-security/xdb/internal/verif/zgen"

// register writes the part of the driver about one case
func register(g *generated, key string) string {
	var b strings.Builder
	name := strings.ReplaceAll(key, "/", "_")
	fmt.Fprintf(&b, "package main\n\nimport (\n\tm %q\n\ts %q\n\txdbschema %q\n)\n\nvar _ = m.%s\nvar _ = s.%s\n\n", g.modelPath, g.schemaPath, "github.com/effective-security/xdb/schema",
		anExported(g.modelPkg), anExported(g.schemaPkg))
	fmt.Fprintf(&b, "func init() {\n\tr := &Report{Dialects: map[string]string{}}\n\treports[%q] = r\n\tinfos := map[*xdbschema.TableInfo]string{}\n", name)
	var infos, rest strings.Builder
	for q, pkg := range map[string]*types.Package{"m": g.modelPkg, "s": g.schemaPkg} {
		for _, n := range pkg.Scope().Names() {
			o := pkg.Scope().Lookup(n)
			if !o.Exported() {
				continue
			}
			switch o := o.(type) {
			case *types.Var:
				switch {
				case o.Type().String() == "github.com/effective-security/xdb/schema.TableInfo":
					fmt.Fprintf(&infos, "\tinfos[&%s.%s] = %q\n\tr.Infos = append(r.Infos, info(%q, &%s.%s))\n", q, n, n, n, q, n)
				case strings.HasPrefix(o.Type().String(), "map["):
					fmt.Fprintf(&rest, "\tr.Maps = append(r.Maps, tables(%q, %s.%s, infos))\n", n, q, n)
				case n == "Dialect":
					fmt.Fprintf(&rest, "\tr.Dialects[%q] = dialect(%s.%s)\n", q, q, n)
				default:
					fmt.Fprintf(&rest, "\tr.Defs = append(r.Defs, def(%q, &%s.%s, infos))\n", n, q, n)
				}
			case *types.TypeName:
				ms := types.NewMethodSet(types.NewPointer(o.Type()))
				if ms.Lookup(pkg, "ScanRow") != nil {
					fmt.Fprintf(&rest, "\tr.Models = append(r.Models, model(%q, new(%s.%s)))\n", n, q, n)
				}
				if m := ms.Lookup(pkg, "SetResult"); m != nil {
					// the rows it takes
					elem := m.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem().(*types.Pointer).Elem().(*types.Named).Obj().Name()
					fmt.Fprintf(&rest, "\tr.Results = append(r.Results, result[%s.%s](%q, %q, func() any { return new(%s.%s) }, infos))\n", q, elem, n, elem, q, n)
				}
			}
		}
	}
	b.WriteString(infos.String())
	b.WriteString(rest.String())
	b.WriteString("\t_ = infos\n}\n")
	return b.String()
}

func anExported(p *types.Package) string {
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		if _, ok := o.(*types.Var); ok {
			return n
		}
		if _, ok := o.(*types.TypeName); ok {
			return n + "{}"
		}
	}
	return "none"
}

// build compiles the packages and the driver, and runs it
func build(t interface{ Fatalf(string, ...any) }, dir string, gg map[string]*generated) map[string]*report {
	repo := os.Getenv("VH_REPO")
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(os.Getenv("VH_OVERLAY"))
	if err == nil {
		err = json.Unmarshal(b, &ov)
	}
	if err != nil {
		vh.Harness(t, "overlay: %v", err)
	}
	n := 0
	put := func(pkg, file string, src []byte) {
		n++
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", n))
		if err := os.WriteFile(f, src, 0o644); err != nil {
			vh.Harness(t, "%v", err)
		}
		ov.Replace[filepath.Join(repo, strings.TrimPrefix(pkg, "github.com/effective-security/xdb/"), file)] = f
	}
	put(genBase+"/drv", "main.go", []byte(driverSource))
	names := make([]string, 0, len(gg))
	for k := range gg {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		g := gg[k]
		// a file name must not end like _test.go or _windows.go
		i := 0
		for _, ff := range []map[string][]byte{g.model, g.schema} {
			path := g.modelPath
			if i > 0 {
				path = g.schemaPath
			}
			i++
			j := 0
			for _, src := range ff {
				j++
				put(path, fmt.Sprintf("x%d.go", j), src)
			}
		}
		put(genBase+"/drv", "reg_"+k+"z.go", []byte(register(g, k)))
	}
	of := filepath.Join(dir, "overlay.json")
	b, _ = json.Marshal(ov)
	if err := os.WriteFile(of, b, 0o644); err != nil {
		vh.Harness(t, "%v", err)
	}
	bin := filepath.Join(dir, "driver")
	cmd := exec.Command("go", "build", "-overlay", of, "-modfile", os.Getenv("VH_MODFILE"), "-ldflags=-s -w", "-o", bin, "./internal/verif/zgen/drv")
	cmd.Dir = repo
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("the generated code does not build: %v\n%s", err, out)
	}
	cmd = exec.Command(bin)
	cmd.Dir = dir
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		t.Fatalf("the generated code crashes: %v\n%s", err, stderr.String())
	}
	res := map[string]*report{}
	if err := json.Unmarshal(stdout.Bytes(), &res); err != nil {
		vh.Harness(t, "report: %v", err)
	}
	return res
}

// verify compares what the code does with the tables it was generated from
func (p *program) verify(g *generated, r *report) error {
	if r == nil {
		return fmt.Errorf("no report")
	}
	if len(r.Models) != len(p.tabs) || len(r.Results) != len(p.tabs) || len(r.Infos) != len(p.tabs) || len(r.Defs) != len(p.tabs) {
		return fmt.Errorf("%d models, %d results, %d table infos and %d definitions for %d tables", len(r.Models), len(r.Results), len(r.Infos), len(r.Defs), len(p.tabs))
	}
	if len(r.Maps) != 1 {
		return fmt.Errorf("%d maps of tables", len(r.Maps))
	}
	for q, d := range r.Dialects {
		if d != p.d.provider {
			return fmt.Errorf("dialect of %s is %s", q, d)
		}
	}
	if r.Dialects["m"] == "" || r.Dialects["s"] == "" {
		return fmt.Errorf("no dialect: %v", r.Dialects)
	}
	names := map[string]int{}
	for _, t := range p.tabs {
		names[t.Name]++
	}
	mapped := map[string]bool{}
	for _, v := range r.Maps[0].Keys {
		mapped[v] = true
	}
	if len(mapped) != len(p.tabs) || len(r.Maps[0].Keys) != len(p.tabs) {
		return fmt.Errorf("the map of tables has %v", r.Maps[0].Keys)
	}
	for _, t := range p.tabs {
		i := slices.IndexFunc(r.Infos, func(i info) bool { return i.Info.Schema == t.Schema && i.Info.Name == t.Name })
		if i < 0 {
			return fmt.Errorf("no table info of %q", t.SchemaName)
		}
		in := r.Infos[i]
		want := schema.TableInfo{Schema: t.Schema, Name: t.Name, PrimaryKey: t.PrimaryKeyName(), Columns: t.Columns.Names(), Indexes: t.Indexes.Names()}
		have := in.Info
		norm := func(x *schema.TableInfo) string {
			return fmt.Sprintf("%q %q %q %q %q", x.Schema, x.Name, x.PrimaryKey, x.Columns, x.Indexes)
		}
		if norm(&have) != norm(&want) || in.FQN != t.SchemaName || in.Dialect != p.d.provider {
			return fmt.Errorf("info of %q: %s %q %q, want %s", t.SchemaName, norm(&have), in.FQN, in.Dialect, norm(&want))
		}
		if k := r.Maps[0].Keys[t.Name]; names[t.Name] == 1 && k != in.Var {
			return fmt.Errorf("the map of tables has %q for %q", k, t.Name)
		}

		// the model of the table
		i = slices.IndexFunc(r.Results, func(x result) bool { return x.Info == in.Var })
		if i < 0 {
			return fmt.Errorf("no result of %q: %+v", t.SchemaName, r.Results)
		}
		res := r.Results[i]
		if res.Problem != "" {
			return fmt.Errorf("%s: %s", res.Name, res.Problem)
		}
		i = slices.IndexFunc(r.Models, func(x model) bool { return x.Name == res.Elem })
		if i < 0 {
			return fmt.Errorf("no model of %q", t.SchemaName)
		}
		m := r.Models[i]
		if m.Problem != "" {
			return fmt.Errorf("%s: %s", m.Name, m.Problem)
		}
		if len(m.Fields) != len(t.Columns) || len(m.Scanned) != len(t.Columns) {
			return fmt.Errorf("%s has fields %q and reads %v, for %d columns", m.Name, m.Fields, m.Scanned, len(t.Columns))
		}
		for j, c := range t.Columns {
			n := m.Scanned[j]
			if n < 0 {
				return fmt.Errorf("%s reads column %q into no field", m.Name, c.Name)
			}
			tag := reflect.StructTag(m.Tags[n])
			if tag.Get("db") != reflect.StructTag(c.Tag()).Get("db") || !strings.HasPrefix(tag.Get("db"), c.Name+",") {
				return fmt.Errorf("%s reads column %q into the field %s tagged %q", m.Name, c.Name, m.Fields[n], m.Tags[n])
			}
			if tag.Get("json") != ",omitempty" {
				return fmt.Errorf("%s.%s tagged %q", m.Name, m.Fields[n], m.Tags[n])
			}
			if p.typeOverride(c) == "" && m.Types[n] == "uint64" {
				return fmt.Errorf("%s.%s of %s null %v is the %s of counts", m.Name, m.Fields[n], c.Type, c.Nullable, m.Types[n])
			}
			if w := p.typeOverride(c); w != "" && !sameType(w, m.Types[n]) {
				return fmt.Errorf("%s.%s is %s, the definition says %s", m.Name, m.Fields[n], m.Types[n], w)
			}
			if p.def != nil {
				if w := p.def.Fields[c.SchemaName]; w != "" && m.Fields[n] != w {
					return fmt.Errorf("%s.%s of column %q, the definition says %s", m.Name, m.Fields[n], c.SchemaName, w)
				}
			}
		}
		if p.def != nil {
			if w := p.def.Tables[t.SchemaName]; w != "" && m.Name != w {
				return fmt.Errorf("%s of table %q, the definition says %s", m.Name, t.SchemaName, w)
			}
		}
		if w := p.def != nil && slices.Contains(p.def.WithCache, t.SchemaName); w != m.HasCache {
			return fmt.Errorf("%s of %q: cached properties %v, want %v", m.Name, t.SchemaName, m.HasCache, w)
		}

		// the definition of the table
		i = slices.IndexFunc(r.Defs, func(x def) bool { return x.Info == in.Var })
		if i < 0 {
			return fmt.Errorf("no definition of %q", t.SchemaName)
		}
		d := r.Defs[i]
		if len(d.Columns) != len(t.Columns) {
			return fmt.Errorf("%s defines %d columns of %d", d.Var, len(d.Columns), len(t.Columns))
		}
		for j, c := range t.Columns {
			w := schema.Column{Name: c.Name, Type: c.Type, UdtType: c.UdtType, Nullable: c.Nullable, MaxLength: c.MaxLength, Position: c.Position}
			if k := slices.IndexFunc(d.Columns, func(x schema.Column) bool { return reflect.DeepEqual(x, w) }); k < 0 {
				return fmt.Errorf("%s defines %+v, not %+v", d.Var, d.Columns, w)
			} else if d.Fields[k] != m.Fields[m.Scanned[j]] {
				return fmt.Errorf("column %q is %s in %s, but %s in %s", c.Name, d.Fields[k], d.Var, m.Fields[m.Scanned[j]], m.Name)
			}
		}
	}
	return nil
}

func sameType(def, have string) bool {
	switch def {
	case "[]byte":
		return have == "[]uint8"
	case "json.RawMessage":
		// an alias in later versions of Go
		return have == "json.RawMessage" || have == "jsontext.Value"
	}
	return def == have
}

func TestC30_Behaves(t *testing.T) {
	const batch = 24
	vh.Run(t, 5, 60, fmt.Sprintf("batches of up to %d sets of tables and flags; the generated packages are built into one program, which reports by reflection what they do; non-trivial: code of at least one table was built and run", batch),
		func(rt *rapid.T, c *vh.Case) {
			dir := newDir(rt)
			defer os.RemoveAll(dir)
			progs := map[string]*program{}
			gg := map[string]*generated{}
			var keys []string
			var desc strings.Builder
			for i := range rapid.IntRange(1, batch).Draw(rt, "batch") + batch/2 {
				sub := filepath.Join(dir, fmt.Sprint("p", i))
				if err := os.Mkdir(sub, 0o755); err != nil {
					vh.Harness(rt, "%v", err)
				}
				p := drawProgram(rt, sub, 5)
				key := fmt.Sprintf("c%d", i)
				g, why, err := p.run(rt, genBase+"/"+key)
				if err != nil {
					rt.Fatalf("%v\n%v", err, p)
				}
				if why != "" {
					c.Class("program: " + why)
					continue
				}
				c.Class("program: generated")
				c.ClassIf(p.def != nil, "program: types definition")
				c.ClassIf(p.d.schemas > 1, "program: several schemas")
				progs[key], gg[key] = p, g
				keys = append(keys, key)
				fmt.Fprintf(&desc, "%v\n", p)
			}
			if len(gg) == 0 {
				return
			}
			bd := filepath.Join(dir, "build")
			if err := os.Mkdir(bd, 0o755); err != nil {
				vh.Harness(rt, "%v", err)
			}
			rr := build(rt, bd, gg)
			for _, k := range keys {
				if err := progs[k].verify(gg[k], rr[k]); err != nil {
					rt.Fatalf("%v\n%v\n%s%s", err, progs[k], show(gg[k].model), show(gg[k].schema))
				}
			}
			c.NonTrivial(true, desc.String())
		})
}
