package sch

import (
	"bytes"
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/alecthomas/kong"
	"github.com/effective-security/x/ctl"
	"github.com/effective-security/xdb/internal/cli"
	genschema "github.com/effective-security/xdb/internal/cli/schema"
	"github.com/effective-security/xdb/internal/verif/fakedb"
	"github.com/effective-security/xdb/internal/verif/fakepg"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/pkg/print"
	"github.com/effective-security/xdb/schema"
	"pgregory.net/rapid"
)

// command is a command line by its meaning.
type command struct {
	name                 string // columns, tables, views, foreign-keys, generate
	db                   string
	schemas, list, views []string // list: tables, or the views of "views"
	deps, withViews      bool
	format               string

	outModel, outSchema, pkgModel, pkgSchema, suffix, typesDef string
	imports                                                    []string
	useSchema                                                  bool
}

func drawList(t *rapid.T, label string, pool []string) []string {
	if rapid.IntRange(0, 2).Draw(t, "no "+label) == 0 {
		return nil
	}
	var res []string
	for range rapid.IntRange(1, 3).Draw(t, label+"s") {
		res = append(res, rapid.SampledFrom(pool).Draw(t, label))
	}
	if rapid.IntRange(0, 15).Draw(t, "many") == 7 {
		for i := range rapid.IntRange(5, 120).Draw(t, "more") {
			res = append(res, fmt.Sprint("name_", i))
		}
	}
	return res
}

func drawCommand(t *rapid.T, dir string, schemas, names []string) *command {
	c := &command{
		name:   rapid.SampledFrom([]string{"columns", "tables", "views", "foreign-keys", "generate"}).Draw(t, "command"),
		db:     rapid.SampledFrom([]string{"testdb", "my db", "d'b", "Sales", "a/b", "x?y=1"}).Draw(t, "db"),
		format: rapid.SampledFrom([]string{"", "", "json", "yaml", "table"}).Draw(t, "format"),
	}
	c.schemas = drawList(t, "schema", schemas)
	c.list = drawList(t, "table", names)
	if c.name == "columns" || c.name == "generate" {
		c.deps = rapid.Bool().Draw(t, "dependencies")
	}
	if c.name == "columns" || c.name == "tables" {
		c.withViews = rapid.Bool().Draw(t, "with views")
	}
	if c.name != "generate" {
		return c
	}
	c.views = drawList(t, "view", names)
	if rapid.IntRange(0, 2).Draw(t, "model") > 0 {
		c.outModel = filepath.Join(dir, rapid.SampledFrom([]string{"model", "a/b/model", "db"}).Draw(t, "model folder"))
	}
	if rapid.IntRange(0, 2).Draw(t, "schema") > 0 {
		c.outSchema = filepath.Join(dir, rapid.SampledFrom([]string{"schema", "a/b/schema", "dbschema"}).Draw(t, "schema folder"))
	}
	if rapid.Bool().Draw(t, "pkg model") {
		c.pkgModel = "mymodel"
	}
	if rapid.Bool().Draw(t, "pkg schema") {
		c.pkgSchema = "myschema"
	}
	if rapid.IntRange(0, 2).Draw(t, "suffixed") == 0 {
		c.suffix = "Row"
	}
	if rapid.IntRange(0, 2).Draw(t, "imports") == 0 {
		c.imports = []string{"example.com/one", "example.com/two"}[:rapid.IntRange(1, 2).Draw(t, "n")]
	}
	c.useSchema = rapid.Bool().Draw(t, "use schema")
	return c
}

// args writes the command line, with the flags in any order and in any of their forms.
func (c *command) args(t *rapid.T) []string {
	var flags [][]string
	str := func(name, v string) {
		if v == "" {
			return
		}
		if rapid.Bool().Draw(t, "form") && !strings.Contains(","+v, ",-") {
			flags = append(flags, []string{"--" + name, v})
		} else {
			flags = append(flags, []string{"--" + name + "=" + v})
		}
	}
	esc := func(s string) string { return strings.ReplaceAll(s, ",", `\,`) }
	list := func(name string, vv []string) {
		var e []string
		for _, v := range vv {
			e = append(e, esc(v))
		}
		if len(e) > 1 && rapid.Bool().Draw(t, "repeat") {
			// repeated flags keep their order
			var f []string
			for _, v := range e {
				f = append(f, "--"+name+"="+v)
			}
			flags = append(flags, f)
			return
		}
		str(name, strings.Join(e, ","))
	}
	flag := func(name string, on bool) {
		switch {
		case on:
			flags = append(flags, []string{rapid.SampledFrom([]string{"--" + name, "--" + name + "=true"}).Draw(t, "on")})
		case rapid.IntRange(0, 5).Draw(t, "off") == 0:
			flags = append(flags, []string{"--" + name + "=false"})
		}
	}
	str("db", c.db)
	list("schema", c.schemas)
	if c.name == "views" {
		list("view", c.list)
	} else {
		list("table", c.list)
	}
	if c.name == "columns" || c.name == "generate" {
		flag("dependencies", c.deps)
	}
	if c.name == "columns" || c.name == "tables" {
		flag("views", c.withViews)
	}
	if c.name == "generate" {
		list("view", c.views)
		str("out-model", c.outModel)
		str("out-schema", c.outSchema)
		str("pkg-model", c.pkgModel)
		str("pkg-schema", c.pkgSchema)
		str("struct-suffix", c.suffix)
		str("types-def", c.typesDef)
		list("imports", c.imports)
		flag("use-schema", c.useSchema)
	}
	var own, global []string
	for _, f := range rapid.Permutation(flags).Draw(t, "flags") {
		own = append(own, f...)
	}
	if c.format != "" {
		global = []string{"--o=" + c.format}
	}
	res := []string{"schema", c.name}
	switch rapid.IntRange(0, 2).Draw(t, "global") {
	case 0:
		return append(append(append([]string{}, global...), res...), own...)
	case 1:
		return append(append(res, global...), own...)
	}
	return append(append(res, own...), global...)
}

// calls are the listings the command needs, as sorted text.
func (c *command) calls() []string {
	var res []string
	tables := func(deps bool) { res = append(res, fmt.Sprintf("tables %q %q %v", c.schemas, c.list, deps)) }
	switch c.name {
	case "columns":
		tables(c.deps)
	case "tables":
		tables(true)
	case "views":
		res = append(res, fmt.Sprintf("views %q %q", c.schemas, c.list))
	case "foreign-keys":
		res = append(res, fmt.Sprintf("keys %q %q", c.schemas, c.list))
	case "generate":
		tables(c.deps)
		if len(c.views) > 0 {
			res = append(res, fmt.Sprintf("views %q %q", c.schemas, c.views))
		}
	}
	if c.withViews {
		res = append(res, fmt.Sprintf("views %q %q", c.schemas, c.list))
	}
	sort.Strings(res)
	return res
}

// output is what the command prints for what the provider lists.
func (c *command) output(tables, views schema.Tables, keys schema.ForeignKeys) (string, error) {
	var buf bytes.Buffer
	switch c.name {
	case "columns":
		if err := print.Object(&buf, c.format, tables); err != nil {
			return "", err
		}
		if c.withViews && len(views) > 0 {
			if err := print.Object(&buf, c.format, views); err != nil {
				return "", err
			}
		}
	case "tables", "views":
		all := views
		if c.name == "tables" {
			all = slices.Clone(tables)
			if c.withViews {
				all = append(all, views...)
			}
		}
		if c.format == "json" || c.format == "yaml" {
			err := print.Object(&buf, c.format, all)
			return buf.String(), err
		}
		for _, t := range all {
			buf.WriteString(t.Schema + "." + t.Name + "\n")
		}
	case "foreign-keys":
		err := print.Object(&buf, c.format, keys)
		return buf.String(), err
	}
	return buf.String(), nil
}

// files are the generated files below a folder.
func files(dir string) map[string]string {
	res := map[string]string{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			res[rel] = string(b)
		}
		return nil
	})
	return res
}

// lister is a provider that records its calls.
type lister struct {
	kind          string
	tables, views schema.Tables
	keys          schema.ForeignKeys
	fail          string
	calls         []string
}

func (l *lister) Name() string { return l.kind }
func (l *lister) call(kind, args string) error {
	l.calls = append(l.calls, kind+" "+args)
	if l.fail == kind {
		return errFault
	}
	return nil
}
func (l *lister) ListTables(_ context.Context, schemas, tables []string, deps bool) (schema.Tables, error) {
	if err := l.call("tables", fmt.Sprintf("%q %q %v", schemas, tables, deps)); err != nil {
		return nil, err
	}
	return slices.Clone(l.tables), nil
}
func (l *lister) ListViews(_ context.Context, schemas, tables []string) (schema.Tables, error) {
	if err := l.call("views", fmt.Sprintf("%q %q", schemas, tables)); err != nil {
		return nil, err
	}
	return slices.Clone(l.views), nil
}
func (l *lister) ListForeignKeys(_ context.Context, schemas, tables []string) (schema.ForeignKeys, error) {
	if err := l.call("keys", fmt.Sprintf("%q %q", schemas, tables)); err != nil {
		return nil, err
	}
	return slices.Clone(l.keys), nil
}

// application is the command line application, as in the main package.
type application struct {
	cli.Cli
	Schema genschema.Cmd `cmd:""`
}

type exited int

// run parses and runs a command line.
func (l *lister) run(args []string, w interface{ Write([]byte) (int, error) }) (err error) {
	app := &application{}
	app.WithSchemaProvider(l)
	app.WithWriter(w)
	var out bytes.Buffer
	app.WithErrWriter(&out)
	defer app.Close()
	defer func() {
		if r := recover(); r != nil {
			code, ok := r.(exited)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("exit %d", code)
		}
	}()
	p, err := kong.New(app, kong.Name("xdbcli"), kong.Writers(&out, &out), kong.Exit(func(c int) { panic(exited(c)) }),
		ctl.BoolPtrMapper, kong.Vars{"version": "v"})
	if err != nil {
		return err
	}
	ctx, err := p.Parse(args)
	if err != nil {
		return err
	}
	return ctx.Run(&app.Cli)
}

var cliSchemas = []string{"public", "app", "o'neil", "my schema", "a.b", "日本", "A,b", "-x", "dbo"}
var cliNames = []string{"users", "org_members", "Order", "x' OR '1'='1", "a,b", ",", "a.b", "-t", "日本", "=", "50%", "count"}

// plainTables are tables for which code can be generated, most of the time.
func plainTables(t *rapid.T, kind string, views bool) schema.Tables {
	var res schema.Tables
	names := rapid.Permutation([]string{"users", "org_members", "order", "item", "vw_item", "audit_log"}).Draw(t, "names")
	for _, n := range names[:rapid.IntRange(0, 4).Draw(t, "tables")] {
		s := rapid.SampledFrom([]string{"public", "app", "dbo"}).Draw(t, "schema")
		if views {
			n = "view_" + n
		}
		tb := &schema.Table{Schema: s, Name: n, SchemaName: s + "." + n, IsView: views, Type: "BASE TABLE"}
		for i, cn := range rapid.Permutation([]string{"id", "name", "org_id", "created_at", "meta"}).Draw(t, "columns")[:rapid.IntRange(1, 5).Draw(t, "n")] {
			ty := rapid.SampledFrom(pgTypes).Draw(t, "type")
			if kind == "sqlserver" {
				x := rapid.SampledFrom(msTypes).Draw(t, "type")
				ty = [2]string{x, x}
			}
			tb.Columns = append(tb.Columns, &schema.Column{Name: cn, Type: ty[0], UdtType: ty[1], Position: uint32(i + 1), SchemaName: tb.SchemaName + "." + cn, Nullable: rapid.Bool().Draw(t, "null")})
		}
		res = append(res, tb)
	}
	return res
}

func TestC36_Commands(t *testing.T) {
	t.Setenv("XDB_DATASOURCE", "nosuch://")
	vh.Run(t, 4000, 60000, "a random command with random flags (lists with commas, quotes and leading dashes; repeated or joined; flags in any order and form; the global format flag at any place) run with a recording provider which lists random tables, views and foreign keys; it asks the provider for exactly what the flags say, prints exactly this in the format (as by the printing of C34), or writes exactly the files the generator writes with these options and nothing to the output unless there is no folder; with a failing listing, a failing writer, a folder below a file or a missing types definition it ends with that error and leaves no file; non-trivial: it prints or writes something",
		func(rt *rapid.T, c *vh.Case) {
			dir, err := os.MkdirTemp("", "cli")
			if err != nil {
				vh.Harness(rt, "%v", err)
			}
			defer os.RemoveAll(dir)
			out := filepath.Join(dir, "out")
			cmd := drawCommand(rt, out, cliSchemas, cliNames)
			l := &lister{kind: rapid.SampledFrom([]string{"postgres", "sqlserver"}).Draw(rt, "kind")}
			if cmd.name == "generate" {
				l.tables, l.views = plainTables(rt, l.kind, false), plainTables(rt, l.kind, true)
			} else {
				l.tables, l.views = slice(rt, "tables", 3, drawTable), slice(rt, "views", 3, drawTable)
				l.keys = slice(rt, "keys", 3, drawFK)
			}
			if rapid.IntRange(0, 4).Draw(rt, "fails") == 0 {
				l.fail = rapid.SampledFrom([]string{"tables", "views", "keys"}).Draw(rt, "failure")
			}
			fails := l.fail != "" && slices.ContainsFunc(cmd.calls(), func(s string) bool { return strings.HasPrefix(s, l.fail+" ") })
			args := cmd.args(rt)
			desc := fmt.Sprintf("%q", args)
			var buf bytes.Buffer
			err = l.run(args, &buf)
			got := slices.Clone(l.calls)
			sort.Strings(got)
			if fails {
				if !errors.Is(err, errFault) {
					rt.Fatalf("%s ends with %v when the listing of %s fails", desc, err, l.fail)
				}
				if ff := files(dir); len(ff) > 0 {
					rt.Fatalf("%s fails and writes %v", desc, ff)
				}
				for _, g := range got {
					if !slices.Contains(cmd.calls(), g) {
						rt.Fatalf("%s asks for %s", desc, g)
					}
				}
				c.Class("failing listing")
				c.NonTrivial(true, desc+l.fail)
				return
			}
			if !slices.Equal(got, cmd.calls()) {
				rt.Fatalf("%s asks for %q, want %q: %v", desc, got, cmd.calls(), err)
			}
			if cmd.name != "generate" {
				want, werr := cmd.output(l.tables, l.views, l.keys)
				if err != nil || werr != nil {
					rt.Fatalf("%s: %v, %v", desc, err, werr)
				}
				if buf.String() != want {
					rt.Fatalf("%s prints\n%s\nwant\n%s", desc, buf.String(), want)
				}
				if ff := files(dir); len(ff) > 0 {
					rt.Fatalf("%s writes %v", desc, ff)
				}
				if len(want) > 0 {
					w := &limited{n: rapid.IntRange(0, len(want)-1).Draw(rt, "fails after"), once: rapid.Bool().Draw(rt, "fails once")}
					if err := l.run(args, w); !errors.Is(err, errFault) {
						rt.Fatalf("%s ends with %v when the writer fails after %d of %d bytes", desc, err, w.n, len(want))
					}
					if !w.once && !strings.HasPrefix(want, w.String()) {
						rt.Fatalf("%s writes other bytes to a writer that fails", desc)
					}
				}
				c.Class(cmd.name + " as " + cmd.format)
				c.NonTrivial(len(want) > 0, desc+want)
				c.Sample("%s\n%s", desc, want)
				return
			}
			// the same by the options, elsewhere
			alt := filepath.Join(dir, "alt")
			reloc := func(s string) string {
				if s == "" {
					return ""
				}
				return filepath.Join(alt, strings.TrimPrefix(s, out))
			}
			var direct bytes.Buffer
			cc := &cli.Cli{}
			cc.WithSchemaProvider(l)
			cc.WithWriter(&direct)
			derr := (&genschema.GenerateCmd{DB: cmd.db, Schema: cmd.schemas, Table: cmd.list, View: cmd.views, Dependencies: cmd.deps,
				OutModel: reloc(cmd.outModel), OutSchema: reloc(cmd.outSchema), PkgModel: cmd.pkgModel, PkgSchema: cmd.pkgSchema,
				StructSuffix: cmd.suffix, Imports: cmd.imports, UseSchema: cmd.useSchema}).Run(cc)
			if (err == nil) != (derr == nil) {
				rt.Fatalf("%s: %v, and with the same options: %v", desc, err, derr)
			}
			a, b := files(out), files(alt)
			if !reflect.DeepEqual(a, b) || buf.String() != direct.String() {
				rt.Fatalf("%s writes %v\n%s\nand with the same options %v\n%s", desc, a, buf.String(), b, direct.String())
			}
			if err != nil {
				if len(a) > 0 || buf.Len() > 0 {
					rt.Fatalf("%s fails with %v, and writes %v\n%s", desc, err, a, buf.String())
				}
				c.Class("generator refuses")
				return
			}
			all := len(l.tables)
			if len(cmd.views) > 0 {
				all += len(l.views)
			}
			if all > 0 {
				if (cmd.outModel == "" || cmd.outSchema == "") != (buf.Len() > 0) {
					rt.Fatalf("%s prints %d bytes", desc, buf.Len())
				}
				for f := range a {
					d := filepath.Join(out, filepath.Dir(f))
					if d != cmd.outModel && d != cmd.outSchema {
						rt.Fatalf("%s writes %s", desc, f)
					}
				}
				for _, d := range []string{cmd.outModel, cmd.outSchema} {
					if d == "" {
						continue
					}
					rel, _ := filepath.Rel(out, d)
					if !slices.ContainsFunc(sortedKeys(a), func(f string) bool { return filepath.Dir(f) == rel }) {
						rt.Fatalf("%s writes nothing to %s", desc, d)
					}
				}
			}
			// what can not be written
			if all > 0 {
				_ = os.RemoveAll(out)
				switch how := rapid.IntRange(0, 2).Draw(rt, "obstacle"); {
				case how == 0 && (cmd.outModel != "" || cmd.outSchema != ""):
					if err := os.WriteFile(out, []byte("x"), 0o600); err != nil {
						vh.Harness(rt, "%v", err)
					}
					if err := l.run(args, &bytes.Buffer{}); err == nil {
						rt.Fatalf("%s ends well with a folder which can not be made", desc)
					}
					c.Class("folder below a file")
				case how == 1 && buf.Len() > 0:
					w := &limited{n: rapid.IntRange(0, buf.Len()-1).Draw(rt, "fails after"), once: rapid.Bool().Draw(rt, "fails once")}
					if err := l.run(args, w); !errors.Is(err, errFault) {
						rt.Fatalf("%s ends with %v when the writer fails", desc, err)
					}
					c.Class("failing writer")
				case how == 2:
					missing := append(slices.Clone(args), "--types-def="+filepath.Join(dir, "nosuch.yaml"))
					if err := l.run(missing, &bytes.Buffer{}); err == nil {
						rt.Fatalf("%q ends well", missing)
					}
					if ff := files(out); len(ff) > 0 {
						rt.Fatalf("%q writes %v", missing, ff)
					}
					c.Class("missing types definition")
				}
			}
			c.Class("generate")
			c.ClassIf(len(a) > 0, "files")
			c.NonTrivial(all > 0, desc)
		})
}

func sortedKeys(m map[string]string) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

func TestC36_Wrong(t *testing.T) {
	vh.Run(t, 1500, 20000, "a correct command line with one mistake: no database, an unknown flag, a flag of another command, an unknown or no command, an extra argument, a flag without value or which is no boolean, no data source; it ends with an error, asks the provider nothing and writes nothing; non-trivial: all",
		func(rt *rapid.T, c *vh.Case) {
			_ = os.Setenv("XDB_DATASOURCE", "nosuch://")
			defer os.Unsetenv("XDB_DATASOURCE")
			dir, err := os.MkdirTemp("", "cli")
			if err != nil {
				vh.Harness(rt, "%v", err)
			}
			defer os.RemoveAll(dir)
			cmd := drawCommand(rt, dir, cliSchemas, cliNames)
			kind := rapid.SampledFrom([]string{"no db", "unknown flag", "other flag", "unknown command", "no command", "argument", "no value", "no boolean", "no source"}).Draw(rt, "mistake")
			if kind == "no db" {
				cmd.db = ""
			}
			args := cmd.args(rt)
			switch kind {
			case "unknown flag":
				i := rapid.IntRange(0, len(args)).Draw(rt, "at")
				args = slices.Insert(args, i, "--nosuch")
			case "other flag":
				other := map[string][]string{
					"columns": {"--view=x", "--out-model=x", "--use-schema"}, "tables": {"--view=x", "--dependencies", "--out-schema=x"},
					"views": {"--table=x", "--views", "--dependencies"}, "foreign-keys": {"--view=x", "--views", "--dependencies"}, "generate": {"--views=true", "--view-s=x"}}
				args = append(args, rapid.SampledFrom(other[cmd.name]).Draw(rt, "flag"))
			case "unknown command":
				i := slices.Index(args, cmd.name)
				args[i] = rapid.SampledFrom([]string{"nosuch", "column", "schema", "TABLES"}).Draw(rt, "name")
			case "no command":
				args = rapid.SampledFrom([][]string{{"schema"}, {}, {"schema", "--db=x"}}).Draw(rt, "args")
			case "argument":
				args = append(args, "extra")
			case "no value":
				args = append(args, "--schema")
			case "no boolean":
				switch cmd.name {
				case "columns", "generate":
					args = append(args, "--dependencies=maybe")
				default:
					args = append(args, "--debug=maybe")
				}
			case "no source":
				_ = os.Unsetenv("XDB_DATASOURCE")
			}
			l := &lister{kind: "postgres", tables: plainTables(rt, "postgres", false)}
			var buf bytes.Buffer
			if err := l.run(args, &buf); err == nil {
				rt.Fatalf("%q (%s) ends well:\n%s", args, kind, buf.String())
			}
			if len(l.calls) > 0 || len(files(dir)) > 0 || buf.Len() > 0 {
				rt.Fatalf("%q (%s) asks %q, writes %v and prints\n%s", args, kind, l.calls, files(dir), buf.String())
			}
			c.Class(kind)
			c.NonTrivial(true, fmt.Sprintf("%q", args))
		})
}

// ---- the program ----

var (
	binOnce sync.Once
	binary  string
	binErr  error
)

func program(t *testing.T) string {
	binOnce.Do(func() {
		binary = filepath.Join(os.TempDir(), "xdbcli.bin")
		cmd := exec.Command("go", "build", "-overlay", os.Getenv("VH_OVERLAY"), "-modfile", os.Getenv("VH_MODFILE"), "-o", binary, "./cmd/xdbcli")
		cmd.Dir = os.Getenv("VH_REPO")
		if b, err := cmd.CombinedOutput(); err != nil {
			binErr = fmt.Errorf("%v %s", err, b)
		}
	})
	if binErr != nil {
		vh.Harness(t, "build: %v", binErr)
	}
	return binary
}

// pgRows turns an answer into rows as the server sends them.
func pgRows(res *fakedb.Result) *fakepg.Rows {
	rs := &fakepg.Rows{Cols: res.Cols}
	for _, row := range res.Rows {
		var vals []*string
		for _, v := range row {
			if v == nil {
				vals = append(vals, nil)
				continue
			}
			s := fmt.Sprint(v)
			switch x := v.(type) {
			case []byte:
				s = string(x)
			case bool:
				s = map[bool]string{true: "t", false: "f"}[x]
			}
			vals = append(vals, &s)
		}
		rs.Vals = append(rs.Vals, vals)
	}
	return rs
}

func TestC36_Program(t *testing.T) {
	bin := program(t)
	var mu sync.Mutex
	var s *server
	queries, failAt, how := 0, -1, 0
	srv, err := fakepg.Start()
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	defer srv.Close()
	srv.Query = func(q string, args []*string, describe bool) (*fakepg.Rows, error) {
		mu.Lock()
		defer mu.Unlock()
		var vals []driver.NamedValue
		for i, a := range args {
			v := driver.NamedValue{Ordinal: i + 1}
			if a != nil {
				v.Value = *a
			}
			vals = append(vals, v)
		}
		lq := strings.ToLower(q)
		if !strings.Contains(lq, "select") || strings.Contains(lq, "from") == false {
			return &fakepg.Rows{Cols: []string{"x"}}, nil
		}
		res, err := s.answer(q, vals)
		if err != nil {
			return nil, err
		}
		rs := pgRows(res)
		if describe {
			rs.Vals = nil
			return rs, nil
		}
		queries++
		// a connection that breaks once may be repaired
		if queries-1 == failAt || failAt >= 0 && how == 2 && queries > failAt {
			switch how {
			case 0:
				return nil, errFault
			case 1:
				rs.Vals, rs.Fail = rs.Vals[:len(rs.Vals)/2], true
			default:
				rs.Vals, rs.Break = rs.Vals[:len(rs.Vals)/2], true
			}
		}
		return rs, nil
	}
	other, err := fakepg.Start()
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	defer other.Close()
	other.Refuse = func(fakepg.Login) bool { return true }
	refuse := false
	srv.Refuse = func(fakepg.Login) bool { mu.Lock(); defer mu.Unlock(); return refuse }

	vh.Run(t, 250, 4000, "the built program with a random command against a server on the loopback network that answers its catalog queries from a random catalog (as for C27), with the data source by flag, by environment or in a file, and another server in the environment that must not be asked; it logs in with the user, password and database given, prints exactly the listing of the catalog for its filters, or writes files equal to those of the generator, ends with 0 and ends its connection in order; with a refused login, a failing query or a broken result it ends with another code, a message and no file; non-trivial: the listing has something, or a fault was hit",
		func(rt *rapid.T, c *vh.Case) {
			dir, err := os.MkdirTemp("", "cli")
			if err != nil {
				vh.Harness(rt, "%v", err)
			}
			defer os.RemoveAll(dir)
			out := filepath.Join(dir, "out")
			x := &server{catalog: drawCatalog(rt, false, rapid.Bool().Draw(rt, "dense")), kind: "postgres"}
			x.load(rt)
			defer x.catalog.close()
			ss, tt := []string{"nosuch"}, []string{"nosuch"}
			for _, r := range x.rels {
				ss, tt = append(ss, r.schema, strings.ToUpper(r.schema)), append(tt, r.name, strings.ToLower(r.name))
			}
			cmd := drawCommand(rt, out, ss, tt)
			// what the provider lists without the program
			x.fake = &fakedb.DB{Handler: x.answer}
			x.conn = x.fake.Open()
			defer x.conn.Close()
			p := schema.NewProvider(x.conn, "postgres")
			l := &lister{kind: "postgres"}
			deps := cmd.deps || cmd.name == "tables"
			if l.tables, err = p.ListTables(bg, cmd.schemas, cmd.list, deps); err != nil {
				rt.Fatalf("listing: %v", err)
			}
			vl := cmd.list
			if cmd.name == "generate" {
				vl = cmd.views
			}
			if l.views, err = p.ListViews(bg, cmd.schemas, vl); err != nil {
				rt.Fatalf("listing: %v", err)
			}
			if l.keys, err = p.ListForeignKeys(bg, cmd.schemas, cmd.list); err != nil {
				rt.Fatalf("listing: %v", err)
			}
			args := cmd.args(rt)
			desc := fmt.Sprintf("%q", args)

			host, port := srv.Addr()
			u := &url.URL{Scheme: "postgres", Host: host + ":" + port, RawQuery: "sslmode=disable",
				User: url.UserPassword(rapid.SampledFrom([]string{"me", "a b", "o'x"}).Draw(rt, "user"), rapid.SampledFrom([]string{"secret", "p@ss:w/rd?", "it's"}).Draw(rt, "password"))}
			ohost, oport := other.Addr()
			wrong := fmt.Sprintf("postgres://x:y@%s:%s?sslmode=disable", ohost, oport)
			env := slices.DeleteFunc(os.Environ(), func(s string) bool { return strings.HasPrefix(s, "XDB_") || strings.HasPrefix(s, "PG") })
			source := u.String()
			if rapid.IntRange(0, 2).Draw(rt, "file") == 0 {
				f := filepath.Join(dir, "source.txt")
				if err := os.WriteFile(f, []byte(source+"\n"), 0o600); err != nil {
					vh.Harness(rt, "%v", err)
				}
				source = "file://" + f
				defer os.Remove(f)
			}
			if rapid.Bool().Draw(rt, "by flag") {
				args = append([]string{"--sql-source=" + source}, args...)
				if rapid.Bool().Draw(rt, "other") {
					env = append(env, "XDB_DATASOURCE="+wrong)
				}
			} else {
				env = append(env, "XDB_DATASOURCE="+source)
			}

			mu.Lock()
			s, queries, failAt, refuse = x, 0, -1, false
			mu.Unlock()
			_ = srv.Logins()
			total, ended := srv.Total(), srv.Ended()
			run := func() (string, string, error) {
				k := exec.Command(bin, args...)
				k.Env = env
				k.Dir = dir
				var so, se bytes.Buffer
				k.Stdout, k.Stderr = &so, &se
				err := k.Run()
				var ee *exec.ExitError
				if err != nil && !errors.As(err, &ee) {
					vh.Harness(rt, "%v", err)
				}
				return so.String(), se.String(), err
			}
			stdout, stderr, err := run()
			if !srv.WaitClosed(20 * time.Second) {
				rt.Fatalf("%s left its connection open", desc)
			}
			if o := other.Logins(); len(o) > 0 {
				rt.Fatalf("%s logged in elsewhere: %+v", desc, o)
			}
			pw, _ := u.User.Password()
			for _, lg := range srv.Logins() {
				if lg.Params["user"] != u.User.Username() || lg.Password != pw || lg.Params["database"] != cmd.db {
					rt.Fatalf("%s logs in with %+v, want %v and the database %q", desc, lg, u, cmd.db)
				}
			}
			fs := files(out)
			some := false
			if cmd.name == "generate" {
				var direct bytes.Buffer
				alt := filepath.Join(dir, "alt")
				reloc := func(s string) string {
					if s == "" {
						return ""
					}
					return filepath.Join(alt, strings.TrimPrefix(s, out))
				}
				cc := &cli.Cli{}
				cc.WithSchemaProvider(l)
				cc.WithWriter(&direct)
				derr := (&genschema.GenerateCmd{DB: cmd.db, Schema: cmd.schemas, Table: cmd.list, View: cmd.views, Dependencies: cmd.deps,
					OutModel: reloc(cmd.outModel), OutSchema: reloc(cmd.outSchema), PkgModel: cmd.pkgModel, PkgSchema: cmd.pkgSchema,
					StructSuffix: cmd.suffix, Imports: cmd.imports, UseSchema: cmd.useSchema}).Run(cc)
				if (err == nil) != (derr == nil) {
					rt.Fatalf("%s: %v %s, and with the same options: %v", desc, err, stderr, derr)
				}
				if b := files(alt); !reflect.DeepEqual(fs, b) || stdout != direct.String() {
					rt.Fatalf("%s writes %v\n%s\nand with the same options %v\n%s", desc, fs, stdout, b, direct.String())
				}
				if err != nil && (len(fs) > 0 || stdout != "" || stderr == "") {
					rt.Fatalf("%s fails with %v and writes %v %q %q", desc, err, fs, stdout, stderr)
				}
				some = len(fs) > 0 || stdout != ""
				c.ClassIf(err != nil, "generator refuses")
			} else {
				want, werr := cmd.output(l.tables, l.views, l.keys)
				if werr != nil {
					rt.Fatalf("%v", werr)
				}
				if err != nil || stdout != want || len(fs) > 0 {
					rt.Fatalf("%s: %v %s\nprints\n%s\nwant\n%s\nfiles %v", desc, err, stderr, stdout, want, fs)
				}
				some = len(l.tables) > 0 && cmd.name != "views" && cmd.name != "foreign-keys" || len(l.views) > 0 && cmd.name == "views" || len(l.keys) > 0 && cmd.name == "foreign-keys"
			}
			if err == nil && srv.Total()-total != srv.Ended()-ended {
				rt.Fatalf("%s made %d connections and ended %d of them", desc, srv.Total()-total, srv.Ended()-ended)
			}
			c.Class(cmd.name)
			mu.Lock()
			n := queries
			mu.Unlock()

			if cmd.name == "generate" && err == nil && len(l.tables) > 0 && rapid.Bool().Draw(rt, "definition") {
				def := filepath.Join(dir, "types.yaml")
				if err := os.WriteFile(def, []byte(fmt.Sprintf("tables:\n  %q: RenamedByDef\n", l.tables[0].SchemaName)), 0o600); err != nil {
					vh.Harness(rt, "%v", err)
				}
				old := args
				args = append(slices.Clone(args), "--types-def="+def)
				o, e, err := run()
				args = old
				all := o
				for _, f := range files(out) {
					all += f
				}
				if err != nil || !strings.Contains(all, "type RenamedByDef struct") && (o != "" || len(files(out)) > 0) {
					rt.Fatalf("%s with the table %q renamed by a types definition: %v %s\n%s", desc, l.tables[0].SchemaName, err, e, all)
				}
				_ = srv.Logins()
				c.Class("types definition")
			}

			// the same with a fault
			_ = os.RemoveAll(out)
			kind := rapid.IntRange(0, 3).Draw(rt, "fault")
			at := -1
			if n == 0 {
				kind = 3
			} else if kind < 3 {
				at = rapid.IntRange(0, n-1).Draw(rt, "at")
			}
			mu.Lock()
			queries, refuse, failAt, how = 0, kind == 3, at, kind
			mu.Unlock()
			stdout, stderr, err = run()
			_ = srv.Logins()
			if err == nil || stderr == "" {
				rt.Fatalf("%s ends with %v and the message %q, with a refused login (%v) or a fault of kind %d at query %d of %d; it prints\n%s", desc, err, stderr, kind == 3, kind, at, n, stdout)
			}
			if fs := files(out); len(fs) > 0 {
				rt.Fatalf("%s fails and writes %v", desc, fs)
			}
			if cmd.name == "generate" && stdout != "" {
				rt.Fatalf("%s fails and prints %s", desc, stdout)
			}
			c.Class([]string{"failing query", "failing result", "broken connection", "refused login"}[kind])
			c.NonTrivial(some, desc+x.String())
		})
}
