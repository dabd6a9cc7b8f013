package gen

import (
	"bytes"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/schema"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// override is the types definition file
type override struct {
	Tables      map[string]string `yaml:"tables,omitempty"`
	Fields      map[string]string `yaml:"fields,omitempty"`
	Types       map[string]string `yaml:"types,omitempty"`
	WithCache   []string          `yaml:"with_cached_props,omitempty"`
	DropColumns []string          `yaml:"drop_columns,omitempty"`
}

// program is one generated case
type program struct {
	d    *described
	o    *options
	def  *override
	dir  string
	tabs schema.Tables // expected, dropped columns removed
}

func (p *program) String() string {
	s := p.d.String()
	s += fmt.Sprintf(" | db=%q useSchema=%v suffix=%q pkgs=%q,%q views=%v imports=%q", p.o.DB, p.o.UseSchema, p.o.StructSuffix, p.o.PkgModel, p.o.PkgSchema, len(p.o.View) > 0, p.o.Imports)
	if p.def != nil {
		s += fmt.Sprintf(" | %+v", *p.def)
	}
	return s
}

// drawProgram draws tables and flags; the files go below dir
func drawProgram(t *rapid.T, dir string, maxTables int) *program {
	p := &program{d: drawDescribed(t, maxTables), dir: dir}
	d := p.d
	p.o = &options{
		DB:        rapid.SampledFrom([]string{"testdb", "my_db", "Sales", "db-1", "1st", "a.b", "_db"}).Draw(t, "db"),
		UseSchema: rapid.Bool().Draw(t, "useSchema"),
		Provider:  d.provider,
		Tables:    d.tables,
		OutModel:  filepath.Join(dir, rapid.SampledFrom([]string{"model", "db/model"}).Draw(t, "modelDir")),
		OutSchema: filepath.Join(dir, rapid.SampledFrom([]string{"schema", "db/schema", "dbschema"}).Draw(t, "schemaDir")),
	}
	o := p.o
	if rapid.IntRange(0, 3).Draw(t, "pkg") == 0 {
		o.PkgModel = "mymodel"
	}
	if rapid.IntRange(0, 3).Draw(t, "pkg") == 0 {
		o.PkgSchema = "myschema"
	}
	if rapid.IntRange(0, 2).Draw(t, "withViews") > 0 {
		o.View = []string{"v"}
		o.Views = d.views
	}
	if rapid.IntRange(0, 3).Draw(t, "suffixed") == 0 {
		o.StructSuffix = rapid.SampledFrom([]string{"Model", "row", "db_row", "data-model", "row2", "Ä", "X"}).Draw(t, "suffix")
	}
	imports := map[string]bool{}
	if rapid.IntRange(0, 2).Draw(t, "imports?") == 0 {
		for range rapid.IntRange(1, 3).Draw(t, "imports") {
			switch rapid.IntRange(0, 4).Draw(t, "import") {
			case 0:
				o.Imports, imports["*big.Int"] = append(o.Imports, "math/big"), true
			case 1:
				o.Imports, imports["url.Values"] = append(o.Imports, "net/url"), true
			case 2:
				o.Imports = append(o.Imports, "github.com/lib/pq")
			default:
				o.Imports, imports["netip.Addr"] = append(o.Imports, "net/netip"), true
			}
		}
	}
	tabs := d.all(len(o.View) > 0)
	drop := map[string]bool{}
	if rapid.IntRange(0, 3).Draw(t, "def") == 0 && len(tabs) > 0 {
		p.def = &override{Tables: map[string]string{}, Fields: map[string]string{}, Types: map[string]string{}}
		for i := range rapid.IntRange(0, 2).Draw(t, "renames") {
			x := rapid.SampledFrom(tabs).Draw(t, "renamed")
			p.def.Tables[x.SchemaName] = fmt.Sprintf("Renamed%d", i)
		}
		for range rapid.IntRange(0, 2).Draw(t, "cached") {
			p.def.WithCache = append(p.def.WithCache, rapid.SampledFrom(tabs).Draw(t, "cachedTable").SchemaName)
		}
		if rapid.Bool().Draw(t, "counts") {
			p.def.Types["_count"] = rapid.SampledFrom([]string{"uint64", "xdb.Int32"}).Draw(t, "countType")
		}
		for i := range rapid.IntRange(0, 6).Draw(t, "columnDefs") {
			x := rapid.SampledFrom(tabs).Draw(t, "defTable")
			if len(x.Columns) == 0 {
				continue
			}
			c := rapid.SampledFrom(x.Columns).Draw(t, "defColumn")
			switch rapid.IntRange(0, 3).Draw(t, "defKind") {
			case 0:
				p.def.Fields[c.SchemaName] = fmt.Sprintf("Field%dX", i)
			case 1:
				names := []string{"json.RawMessage", "xdb.NULLString", "*string", "[]byte", "time.Time"}
				for _, n := range []string{"*big.Int", "netip.Addr", "url.Values"} {
					if imports[n] {
						names = append(names, n, n, n)
					}
				}
				p.def.Types[c.SchemaName] = rapid.SampledFrom(names).Draw(t, "defType")
			case 2:
				p.def.Types[c.Name] = rapid.SampledFrom([]string{"json.RawMessage", "xdb.Metadata"}).Draw(t, "defType")
			default:
				p.def.DropColumns = append(p.def.DropColumns, c.Name)
				drop[c.Name] = true
			}
		}
	}
	for _, x := range tabs {
		y := *x
		y.Columns = nil
		for _, c := range x.Columns {
			if !drop[c.Name] {
				y.Columns = append(y.Columns, c)
			}
		}
		p.tabs = append(p.tabs, &y)
	}
	return p
}

// typeOverride is the type of the column in the types definition
func (p *program) typeOverride(c *schema.Column) string {
	if p.def == nil {
		return ""
	}
	// a definition by the name of the column comes first
	if s := p.def.Types[c.Name]; s != "" {
		return s
	}
	if s := p.def.Types[c.SchemaName]; s != "" {
		return s
	}
	// the counts are one type for all
	if c.UdtType == "int4" && !c.Nullable && strings.HasSuffix(c.Name, "_count") {
		return p.def.Types["_count"]
	}
	return ""
}

func (p *program) hasUnknown() bool {
	for _, t := range p.tabs {
		for _, c := range t.Columns {
			if c.Type == "geometry" && p.typeOverride(c) == "" {
				return true
			}
		}
	}
	return false
}

// run generates the files. It is an error if it fails for names which can not
// collide, if a failure leaves something behind, or if what is written does not compile.
func (p *program) run(t *rapid.T, base string) (*generated, string, error) {
	if p.def != nil {
		b, err := yaml.Marshal(p.def)
		if err == nil {
			p.o.TypesDef = filepath.Join(p.dir, "types.yaml")
			err = os.WriteFile(p.o.TypesDef, b, 0o644)
		}
		if err != nil {
			vh.Harness(t, "%v", err)
		}
	}
	before := snapshot(p.dir)
	res := generate(t, p.o, p.dir)
	after := snapshot(p.dir)
	if res.Err != "" {
		if !sameSnapshot(before, after) {
			return nil, res.Err, fmt.Errorf("failed with %q but has written files", res.Err)
		}
		if p.hasUnknown() {
			return nil, "unknown type", nil
		}
		if p.d.clean && cleanSucceed(p.tabs, p.o, p.def) || mustSucceed(p.tabs, p.o) {
			return nil, res.Err, fmt.Errorf("failed: %s", res.Err)
		}
		return nil, "collision", nil
	}
	if p.hasUnknown() {
		return nil, "", fmt.Errorf("no error for an unknown type")
	}
	if len(res.Out) > 0 {
		return nil, "", fmt.Errorf("wrote files, and also printed %q", res.Out)
	}
	g, err := compile(t, p.o, base)
	if err != nil {
		return nil, "", err
	}
	if len(p.tabs) == 0 {
		return nil, "no tables", nil
	}
	if g.modelPkg == nil || g.schemaPkg == nil {
		return nil, "", fmt.Errorf("no files for %d tables: %v", len(p.tabs), keys(after))
	}
	// there is one description per table, and not more
	infos := 0
	for _, n := range g.schemaPkg.Scope().Names() {
		if v, ok := g.schemaPkg.Scope().Lookup(n).(*types.Var); ok && v.Type().String() == "github.com/effective-security/xdb/schema.TableInfo" {
			infos++
		}
	}
	if infos != len(p.tabs) {
		return nil, "", fmt.Errorf("descriptions of %d tables for %d", infos, len(p.tabs))
	}
	if p.o.PkgModel != "" && g.modelPkg.Name() != p.o.PkgModel || p.o.PkgSchema != "" && g.schemaPkg.Name() != p.o.PkgSchema {
		return nil, "", fmt.Errorf("packages %s and %s", g.modelPkg.Name(), g.schemaPkg.Name())
	}
	if p.o.PkgModel == "" && g.modelPkg.Name() != filepath.Base(p.o.OutModel) || p.o.PkgSchema == "" && g.schemaPkg.Name() != filepath.Base(p.o.OutSchema) {
		return nil, "", fmt.Errorf("packages %s and %s in %s and %s", g.modelPkg.Name(), g.schemaPkg.Name(), p.o.OutModel, p.o.OutSchema)
	}
	return g, "", nil
}

func keys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func newDir(t interface{ Fatalf(string, ...any) }) string {
	dir, err := os.MkdirTemp("", "gen")
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	return dir
}

func (p *program) classes(c *vh.Case, why string) {
	c.ClassIf(why != "", why)
	c.ClassIf(why == "", "generated")
	c.ClassIf(p.d.schemas > 1, "several schemas")
	c.ClassIf(p.def != nil, "types definition")
	c.ClassIf(!p.d.clean, "arbitrary names")
	c.ClassIf(len(p.o.Views) > 0, "views")
	c.NonTrivial(why == "" && len(p.tabs) > 0, p.String())
}

func TestC30_Compiles(t *testing.T) {
	vh.Run(t, 900, 12000, "described tables (1-3 schemas, 0-6 tables, 0-7 columns of all types, ordinary or arbitrary names) and flags of the generator; the written packages are type-checked with the real libraries; non-trivial: code was generated for at least one table",
		func(rt *rapid.T, c *vh.Case) {
			dir := newDir(rt)
			defer os.RemoveAll(dir)
			p := drawProgram(rt, dir, 6)
			// what a run before has left
			stale := rapid.IntRange(0, 3).Draw(rt, "stale") == 0
			if stale && p.d.schemas <= 1 {
				for d, f := range map[string]string{p.o.OutModel: "model.gen.go", p.o.OutSchema: "schema.gen.go"} {
					if os.MkdirAll(d, 0o777) != nil || os.WriteFile(filepath.Join(d, f), bytes.Repeat([]byte("old content\n"), 3000), 0o666) != nil {
						vh.Harness(rt, "stale files")
					}
				}
				if len(p.tabs) == 0 {
					stale = false
					os.RemoveAll(p.o.OutModel)
					os.RemoveAll(p.o.OutSchema)
				}
			} else {
				stale = false
			}
			_, why, err := p.run(rt, "xdbgen")
			if err != nil {
				rt.Fatalf("%v\n%v", err, p)
			}
			p.classes(c, why)
			c.ClassIf(stale, "earlier files")
			if why != "" {
				return
			}
			first := snapshot(dir)

			// again, and to the standard output
			if rapid.IntRange(0, 3).Draw(rt, "again") == 0 {
				c.Class("again and printed")
				if res := generate(rt, p.o, dir); res.Err != "" {
					rt.Fatalf("generating again: %s\n%v", res.Err, p)
				}
				if !sameSnapshot(first, snapshot(dir)) {
					rt.Fatalf("generating again gives other files\n%v", p)
				}
				o := *p.o
				o.PkgModel, o.PkgSchema = orElse(o.PkgModel, filepath.Base(o.OutModel)), orElse(o.PkgSchema, filepath.Base(o.OutSchema))
				o.OutModel, o.OutSchema = "", ""
				res := generate(rt, &o, dir)
				if res.Err != "" || !sameSnapshot(first, snapshot(dir)) {
					rt.Fatalf("printing: %q, or it changed files\n%v", res.Err, p)
				}
				rest := string(res.Out)
				for f, s := range first {
					if strings.HasSuffix(f, ".gen.go") {
						if !strings.Contains(rest, s) {
							rt.Fatalf("%s is not printed\n%v", f, p)
						}
						rest = strings.Replace(rest, s, "", 1)
					}
				}
				if strings.TrimSpace(rest) != "" {
					rt.Fatalf("printed more than the files have: %q\n%v", rest, p)
				}
				if p.o.PkgModel == "" && p.o.PkgSchema == "" {
					// no name at all
					o := o
					o.PkgModel, o.PkgSchema = "", ""
					res := generate(rt, &o, dir)
					n := 0
					for f := range first {
						if strings.HasSuffix(f, ".gen.go") {
							n++
						}
					}
					if res.Err == "" && strings.Count(string(res.Out), "\npackage model\n") != n || strings.Contains(res.Err, "format") {
						rt.Fatalf("printing without names of packages: %q\n%s\n%v", res.Err, res.Out, p)
					}
				}
				o.FailOut = true
				if res := generate(rt, &o, dir); res.Err == "" {
					rt.Fatalf("no error when the output can not be written\n%v", p)
				}
			}
		})
}

func orElse(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// Model and description can not be in one package: both declare the name of
// the table.
func TestC30_OnePackage(t *testing.T) {
	vh.One(t, "one table, model and schema in one folder", func(c *vh.Case) {
		dir := newDir(t)
		defer os.RemoveAll(dir)
		tab := &schema.Table{Schema: "public", Name: "users", SchemaName: "public.users", Columns: schema.Columns{{Name: "id", Type: "bigint", UdtType: "int8", Position: 1, SchemaName: "public.users.id"}}}
		o := &options{DB: "db", Provider: "postgres", Tables: schema.Tables{tab}, OutModel: filepath.Join(dir, "db"), OutSchema: filepath.Join(dir, "db")}
		res := generate(t, o, dir)
		ff, err := goFiles(o.OutModel)
		if err != nil {
			vh.Harness(t, "%v", err)
		}
		if res.Err != "" {
			if len(ff) > 0 {
				t.Fatalf("failed with %s, but has written files", res.Err)
			}
			return
		}
		for n, src := range ff {
			if ff[n], err = goimports(src, nil, true); err != nil {
				t.Fatal(err)
			}
		}
		if len(ff) != 2 {
			t.Fatalf("%d files", len(ff))
		}
		if _, err := newCompiler(t).check("xdbgen/one", ff); err != nil {
			vh.Known("C30-one-package", "model and schema generated into one package do not compile: "+err.Error())
		}
		c.NonTrivial(true, "one package")
	})
}
