package gen

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/effective-security/xdb/internal/cli"
	genschema "github.com/effective-security/xdb/internal/cli/schema"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/schema"
)

func TestMain(m *testing.M) {
	if f := os.Getenv("VH_GEN_CHILD"); f != "" {
		child(f)
		return
	}
	vh.Main(m)
}

// options are the flags of the command
type options struct {
	DB                             string
	Schema, Table, View, Imports   []string
	Dependencies, UseSchema        bool
	OutModel, OutSchema            string
	PkgModel, PkgSchema            string
	StructSuffix, TypesDef         string
	Provider                       string
	Tables, Views                  schema.Tables
	FailTables, FailViews, FailOut bool
}

type outcome struct {
	Err   string
	Out   []byte
	Calls []string
}

// provider describes the tables it is given, and records the calls.
type provider struct {
	o     *options
	calls []string
}

var errProvider = errors.New("listing failed")

func (p *provider) Name() string { return p.o.Provider }
func (p *provider) ListTables(_ context.Context, schemas, tables []string, deps bool) (schema.Tables, error) {
	p.calls = append(p.calls, fmt.Sprintf("tables %q %q %v", schemas, tables, deps))
	if p.o.FailTables {
		return nil, errProvider
	}
	return p.o.Tables, nil
}
func (p *provider) ListViews(_ context.Context, schemas, tables []string) (schema.Tables, error) {
	p.calls = append(p.calls, fmt.Sprintf("views %q %q", schemas, tables))
	if p.o.FailViews {
		return nil, errProvider
	}
	return p.o.Views, nil
}
func (p *provider) ListForeignKeys(context.Context, []string, []string) (schema.ForeignKeys, error) {
	p.calls = append(p.calls, "keys")
	return nil, nil
}

type failing struct{}

func (failing) Write([]byte) (int, error) { return 0, io.ErrClosedPipe }

// here runs the command in this process
func here(o *options) (res outcome) {
	p := &provider{o: o}
	var buf bytes.Buffer
	c := &cli.Cli{}
	c.WithSchemaProvider(p)
	c.WithWriter(&buf)
	if o.FailOut {
		c.WithWriter(failing{})
	}
	cmd := genschema.GenerateCmd{
		DB: o.DB, Schema: o.Schema, Table: o.Table, View: o.View, Dependencies: o.Dependencies,
		OutModel: o.OutModel, OutSchema: o.OutSchema, PkgModel: o.PkgModel, PkgSchema: o.PkgSchema,
		StructSuffix: o.StructSuffix, Imports: o.Imports, UseSchema: o.UseSchema, TypesDef: o.TypesDef,
	}
	if err := cmd.Run(c); err != nil {
		res.Err = "error: " + err.Error()
	}
	res.Out, res.Calls = buf.Bytes(), p.calls
	return res
}

// generate runs the command: like xdbcli, in a process of its own when it
// reads a types definition, which is kept in globals.
func generate(t interface{ Fatalf(string, ...any) }, o *options, dir string) outcome {
	if o.TypesDef == "" {
		return here(o)
	}
	in, out := filepath.Join(dir, "in.gob"), filepath.Join(dir, "in.gob.out")
	f, err := os.Create(in)
	if err == nil {
		err = gob.NewEncoder(f).Encode(o)
	}
	if err != nil {
		vh.Harness(t, "child: %v", err)
	}
	f.Close()
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VH_GEN_CHILD="+in)
	cmd.Dir = dir
	if b, err := cmd.CombinedOutput(); err != nil {
		if strings.Contains(string(b), "HARNESS") {
			vh.Harness(t, "child: %v %s", err, b)
		}
		t.Fatalf("the generator crashed: %v\n%s", err, b)
	}
	var res outcome
	b, err := os.ReadFile(out)
	if err == nil {
		err = json.Unmarshal(b, &res)
	}
	if err != nil {
		vh.Harness(t, "child: %v", err)
	}
	os.Remove(in)
	os.Remove(out)
	return res
}

func child(in string) {
	var o options
	f, err := os.Open(in)
	if err == nil {
		err = gob.NewDecoder(f).Decode(&o)
	}
	if err != nil {
		fmt.Println("HARNESS", err)
		os.Exit(9)
	}
	b, err := json.Marshal(here(&o))
	if err == nil {
		err = os.WriteFile(in+".out", b, 0o644)
	}
	if err != nil {
		fmt.Println("HARNESS", err)
		os.Exit(9)
	}
}

// The imports goimports adds, by name.
var knownImports = map[string]string{
	"xdb":       "github.com/effective-security/xdb",
	"xdbschema": "github.com/effective-security/xdb/schema",
	"xsql":      "github.com/effective-security/xdb/xsql",
	"values":    "github.com/effective-security/x/values",
	"errors":    "github.com/cockroachdb/errors",
	"pq":        "github.com/lib/pq",
	"json":      "encoding/json",
	"time":      "time",
}

// otherImports are only there if the flags say so.
var otherImports = map[string]string{
	"netip": "net/netip",
	"big":   "math/big",
	"url":   "net/url",
}

// goimports drops unused imports and adds missing ones, as the documented
// goimports -w does. The generator itself imports pq for PostgreSQL.
func goimports(src []byte, own map[string]string, hasPQ bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Obj == nil {
				used[x.Name] = true
			}
		}
		return true
	})
	var specs []string
	have := map[string]bool{}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := path[strings.LastIndex(path, "/")+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		if !used[name] || have[name] {
			continue
		}
		have[name] = true
		specs = append(specs, name+" "+strconv.Quote(path))
	}
	for name := range used {
		if have[name] {
			continue
		}
		if p := own[name]; p != "" {
			specs = append(specs, name+" "+strconv.Quote(p))
		} else if p := knownImports[name]; p != "" && (name != "pq" || !hasPQ) {
			specs = append(specs, name+" "+strconv.Quote(p))
		}
	}
	sort.Strings(specs)
	// the import declarations are replaced
	out := append([]byte{}, src[:fset.Position(f.Name.End()).Offset]...)
	out = append(out, "\n\nimport (\n"+strings.Join(specs, "\n")+"\n)\n"...)
	end := fset.Position(f.Name.End()).Offset
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			end = fset.Position(g.End()).Offset
		}
	}
	return append(out, src[end:]...), nil
}

// goFiles are the generated files of a folder
func goFiles(dir string) (map[string][]byte, error) {
	res := map[string][]byte{}
	ff, err := os.ReadDir(dir)
	if errors.Is(err, os.ErrNotExist) {
		return res, nil
	}
	for _, f := range ff {
		// those go build does not see
		// (it refuses names which start with an other character)
		if c := f.Name()[0]; c < '0' || c > '9' && c < 'A' || c > 'Z' && c < 'a' || c > 'z' && c < 0x80 || !strings.HasSuffix(f.Name(), ".go") || strings.HasSuffix(f.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, f.Name()))
		if err != nil {
			return nil, err
		}
		res[f.Name()] = b
	}
	return res, err
}

var (
	exportOnce sync.Once
	exports    map[string]string
	exportErr  error
)

// the compiled packages which generated code uses
func loadExports() (map[string]string, error) {
	exportOnce.Do(func() {
		args := []string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", "-overlay", os.Getenv("VH_OVERLAY"), "-modfile", os.Getenv("VH_MODFILE")}
		for _, m := range []map[string]string{knownImports, otherImports} {
			for _, p := range m {
				args = append(args, p)
			}
		}
		cmd := exec.Command("go", args...)
		cmd.Dir = os.Getenv("VH_REPO")
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		out, err := cmd.Output()
		if err != nil {
			exportErr = fmt.Errorf("go list: %v %s", err, stderr.String())
			return
		}
		exports = map[string]string{}
		for _, l := range strings.Split(string(out), "\n") {
			if p, f, ok := strings.Cut(l, "\t"); ok && f != "" {
				exports[p] = f
			}
		}
	})
	return exports, exportErr
}

// compiler type-checks generated packages
type compiler struct {
	fset *token.FileSet
	base types.Importer
	own  map[string]*types.Package
}

var sharedCompiler *compiler

func newCompiler(t interface{ Fatalf(string, ...any) }) *compiler {
	if sharedCompiler == nil {
		ex, err := loadExports()
		if err != nil {
			vh.Harness(t, "%v", err)
		}
		fset := token.NewFileSet()
		sharedCompiler = &compiler{fset: fset, base: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			f, ok := ex[path]
			if !ok {
				return nil, fmt.Errorf("no package %s", path)
			}
			return os.Open(f)
		})}
	}
	sharedCompiler.own = map[string]*types.Package{}
	return sharedCompiler
}

func (c *compiler) Import(path string) (*types.Package, error) {
	if p := c.own[path]; p != nil {
		return p, nil
	}
	return c.base.Import(path)
}

// check compiles the files as one package
func (c *compiler) check(path string, files map[string][]byte) (*types.Package, error) {
	var parsed []*ast.File
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, err := parser.ParseFile(c.fset, n, files[n], 0)
		if err != nil {
			return nil, err
		}
		parsed = append(parsed, f)
	}
	cfg := types.Config{Importer: c}
	p, err := cfg.Check(path, c.fset, parsed, nil)
	if err == nil {
		c.own[path] = p
	}
	return p, err
}

// generated is the generated code of one case, ready to be compiled
type generated struct {
	o                     *options
	modelPath, schemaPath string
	model, schema         map[string][]byte // files after goimports
	modelPkg, schemaPkg   *types.Package
}

// compile type-checks what the command has written
func compile(t interface{ Fatalf(string, ...any) }, o *options, base string) (*generated, error) {
	g := &generated{o: o, modelPath: base + "/model", schemaPath: base + "/schema"}
	var err error
	load := func(dir string, own map[string]string) map[string][]byte {
		ff, e := goFiles(dir)
		if e != nil {
			vh.Harness(t, "%v", e)
		}
		for n, src := range ff {
			b, e := goimports(src, own, o.Provider == "postgres")
			if e != nil && err == nil {
				err = fmt.Errorf("%s does not parse: %w\n%s", n, e, src)
			}
			ff[n] = b
		}
		return ff
	}
	g.schema = load(o.OutSchema, nil)
	if err != nil {
		return g, err
	}
	c := newCompiler(t)
	own := map[string]string{}
	if len(g.schema) > 0 {
		if g.schemaPkg, err = c.check(g.schemaPath, g.schema); err != nil {
			return g, fmt.Errorf("the schema does not compile: %w\n%s", err, show(g.schema))
		}
		own[g.schemaPkg.Name()] = g.schemaPath
	}
	g.model = load(o.OutModel, own)
	if err != nil {
		return g, err
	}
	if len(g.model) > 0 {
		if g.modelPkg, err = c.check(g.modelPath, g.model); err != nil {
			return g, fmt.Errorf("the model does not compile: %w\n%s", err, show(g.model))
		}
	}
	return g, nil
}

func show(ff map[string][]byte) string {
	var b strings.Builder
	for n, src := range ff {
		fmt.Fprintf(&b, "--- %s\n%s\n", n, src)
	}
	s := b.String()
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

// snapshot is the content of a folder with its sub-folders
func snapshot(dir string) map[string]string {
	res := map[string]string{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if i.IsDir() {
			res[rel] = "dir"
			return nil
		}
		b, _ := os.ReadFile(p)
		res[rel] = string(b)
		return nil
	})
	return res
}

func sameSnapshot(a, b map[string]string) bool { return reflect.DeepEqual(a, b) }
