package mig

import (
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/migrate"
	"github.com/lib/pq"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// failOf is the error of a step which fails: the text after FAIL: is the message.
func failOf(q string) error {
	i := strings.Index(q, "FAIL:")
	if i < 0 {
		return nil
	}
	msg := strings.TrimSpace(q[i+5:])
	if strings.HasPrefix(msg, "pq:") {
		return &pq.Error{Message: msg[3:], Position: "1", Code: "42601"}
	}
	return errors.New(msg)
}

// source is a directory of migrations.
type source struct {
	dir      string
	versions []int
	up, down map[int]string
}

var dirNames = []string{"m", "my migrations", "a#b", "a?b=c", "50%", "%41", "a%20b", "v1.0", "x:y", "-m", "a&b", "日本", "a'b", `q"q`, "a+b", "a;b", "[m]", `b\s`, "~"}

func body(t *rapid.T, what string, fails bool) string {
	s := rapid.SampledFrom([]string{"CREATE TABLE t_%s (id int);", "-- comment\nALTER TABLE x ADD c_%s int;\n", "UPDATE t SET s = 'no change %s';", "/* %s */ SELECT 1; SELECT 2"}).Draw(t, "body")
	s = fmt.Sprintf(s, what)
	if fails {
		s += "\n-- FAIL: " + rapid.SampledFrom([]string{"syntax error", "no change", "pq:no change allowed here", "file does not exist", "pq:relation exists", "dirty"}).Draw(t, "message")
	}
	return s
}

// versionGen: numbers, days, times, and the limits of the integers in between.
var versionGen = rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(20240101, 20240110), rapid.IntRange(20240101120000, 20240101120010),
	rapid.SampledFrom([]int{math.MaxInt16 + 1, math.MaxUint16, math.MaxUint16 + 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxUint32 + 3}))

func drawSource(t *rapid.T, root string) *source {
	s := &source{up: map[int]string{}, down: map[int]string{}}
	s.dir = filepath.Join(root, rapid.SampledFrom(dirNames).Draw(t, "dir"))
	if rapid.IntRange(0, 3).Draw(t, "nested") == 0 {
		s.dir = filepath.Join(s.dir, rapid.SampledFrom(dirNames).Draw(t, "sub"))
	}
	if err := os.MkdirAll(s.dir, 0o755); err != nil {
		vh.Harness(t, "%v", err)
	}
	vs := rapid.SliceOfNDistinct(versionGen, 0, 6, rapid.ID[int]).Draw(t, "versions")
	sort.Ints(vs)
	s.versions = vs
	for _, v := range vs {
		kind := rapid.IntRange(0, 9).Draw(t, "files")
		name := fmt.Sprintf(rapid.SampledFrom([]string{"%d_init", "%04d_add x", "%d_", "%03d_a.b", "%d_no change"}).Draw(t, "file"), v)
		if kind != 0 {
			s.up[v] = body(t, fmt.Sprintf("u%d", v), rapid.IntRange(0, 7).Draw(t, "upfails") == 0)
			s.write(t, name+".up.sql", s.up[v])
		}
		if kind == 0 || kind > 3 {
			s.down[v] = body(t, fmt.Sprintf("d%d", v), rapid.IntRange(0, 7).Draw(t, "downfails") == 0)
			s.write(t, name+".down.sql", s.down[v])
		}
	}
	// files which are no migrations
	for _, f := range []string{"README.md", "1.sql", "x_1.up.sql", "2_.sql"} {
		if rapid.IntRange(0, 4).Draw(t, "other") == 0 {
			s.write(t, f, "not a migration")
		}
	}
	return s
}

func (s *source) write(t *rapid.T, name, text string) {
	if err := os.WriteFile(filepath.Join(s.dir, name), []byte(text), 0o644); err != nil {
		vh.Harness(t, "%v", err)
	}
}

// state of the database in the model; version -1: none.
type state struct {
	version int
	dirty   bool
}

// plan is what a call does: the steps it runs, the state after it, and if it fails.
type plan struct {
	steps   []string
	targets []int // the version every step leads to
	end     state
	fails   bool
}

// migrateModel is the reference: what the documentation of migrations says.
func (s *source) plan(st state, force, version int) plan {
	p := plan{end: st}
	if force > 0 {
		st = state{force, false}
		p.end = st
	}
	bad := func() plan { p.fails = true; return p }
	if st.dirty {
		return bad()
	}
	has := func(v int) bool { return slices.Contains(s.versions, v) }
	if st.version >= 0 && !has(st.version) {
		return bad()
	}
	run := func(text string, ok bool, target int) bool {
		p.end = state{target, true}
		if ok {
			p.steps = append(p.steps, text)
			p.targets = append(p.targets, target)
			if failOf(text) != nil {
				p.fails = true
				return false
			}
		}
		p.end = state{target, false}
		return true
	}
	if version <= 0 {
		if len(s.versions) == 0 {
			return bad() // nothing to migrate to
		}
		version = s.versions[len(s.versions)-1]
	} else if !has(version) {
		return bad()
	}
	if version >= st.version {
		for _, v := range s.versions {
			if v > st.version && v <= version {
				text, ok := s.up[v]
				if !run(text, ok, v) {
					return p
				}
			}
		}
		return p
	}
	for i := len(s.versions) - 1; i >= 0; i-- {
		v := s.versions[i]
		if v <= st.version && v > version {
			text, ok := s.down[v]
			if !run(text, ok, s.versions[i-1]) {
				return p
			}
		}
	}
	return p
}

func (s *server) state() state {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.rows) == 0 {
		return state{-1, false}
	}
	return state{int(s.rows[0].version), s.rows[0].dirty}
}

func (s *server) texts(from int) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var res []string
	for _, a := range s.applied[from:] {
		res = append(res, a.text)
	}
	return res
}

func (s *server) held() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.locks)
}

func drawProvider(t *rapid.T) string {
	return rapid.SampledFrom([]string{"postgres", "postgres", "pgsql", "sqlserver"}).Draw(t, "provider")
}

// drawDir is one of the ways to name the directory.
func drawDir(t *rapid.T, dir string) string {
	wd, err := os.Getwd()
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	rel, err := filepath.Rel(wd, dir)
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	return rapid.SampledFrom([]string{dir, rel, "./" + rel, dir + "/", "../" + filepath.Base(wd) + "/" + rel}).Draw(t, "path")
}

func tempRoot(t *rapid.T) string {
	// in the working directory, which is scratch: so that relative names are short
	root, err := os.MkdirTemp(".", "mig")
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	root, err = filepath.Abs(root)
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	return root
}

type call struct{ force, version int }

func (s *source) drawCall(t *rapid.T, st state) call {
	var c call
	pick := func() int {
		if len(s.versions) > 0 && rapid.IntRange(0, 5).Draw(t, "known") > 0 {
			return rapid.SampledFrom(s.versions).Draw(t, "version")
		}
		return max(1, rapid.OneOf(rapid.IntRange(1, 14), versionGen).Draw(t, "any"))
	}
	if rapid.IntRange(0, 3).Draw(t, "forced") == 0 || st.dirty && rapid.Bool().Draw(t, "repair") {
		c.force = pick()
	}
	if rapid.Bool().Draw(t, "to") {
		c.version = pick()
	}
	return c
}

// checkSteps: the version table knew of every step before it ran, under the lock.
func checkSteps(t *rapid.T, srv *server, from int, p plan) {
	srv.mu.Lock()
	defer srv.mu.Unlock()
	for i, a := range srv.applied[from:] {
		if !a.locked {
			t.Fatalf("step %q ran without the lock", a.text)
		}
		if i < len(p.targets) && !slices.Equal(a.seen, []verRow{{int64(p.targets[i]), true}}) {
			t.Fatalf("step %q ran under the version %v, want %d and dirty", a.text, a.seen, p.targets[i])
		}
	}
}

// TestC32_History: calls one after the other, compared with the model.
func TestC32_History(t *testing.T) {
	vh.Run(t, 700, 12000,
		"random directories of up to 6 migrations (missing directions, failing steps, names with any characters) and histories of up to 7 calls with and without versions, against a model of version, state and steps; non-trivial: at least one step ran and one call changed nothing or failed",
		func(t *rapid.T, c *vh.Case) {
			root := tempRoot(t)
			defer os.RemoveAll(root)
			src := drawSource(t, root)
			provider := drawProvider(t)
			srv := newServer(provider == "sqlserver")
			db := srv.Open()
			defer db.Close()
			st := state{-1, false}
			ran, quiet := 0, 0
			n := rapid.IntRange(1, 7).Draw(t, "calls")
			for i := 0; i < n; i++ {
				cl := src.drawCall(t, st)
				p := src.plan(st, cl.force, cl.version)
				from := len(srv.applied)
				dir := drawDir(t, src.dir)
				err := migrate.Migrate(provider, "db", dir, cl.force, cl.version, db)
				what := fmt.Sprintf("%s: Migrate(%q, force %d, to %d) of versions %v in state %v", provider, dir, cl.force, cl.version, src.versions, st)
				if got := srv.texts(from); !slices.Equal(got, p.steps) {
					t.Fatalf("%s ran\n%q\nwant\n%q (error %v)", what, got, p.steps, err)
				}
				if (err != nil) != p.fails {
					t.Fatalf("%s returned %v, want error: %v", what, err, p.fails)
				}
				if p.fails && len(p.steps) > 0 {
					if f := failOf(p.steps[len(p.steps)-1]); f != nil {
						msg := f.Error()
						if pe, ok := f.(*pq.Error); ok {
							msg = pe.Message
						}
						if !strings.Contains(err.Error(), msg) {
							t.Fatalf("%s: the error %q does not say %q", what, err, msg)
						}
					}
				}
				if got := srv.state(); got != p.end {
					t.Fatalf("%s: state %v after the call, want %v (error %v)", what, got, p.end, err)
				}
				if h := srv.held(); h != 0 {
					t.Fatalf("%s: %d locks are held after the call", what, h)
				}
				checkSteps(t, srv, from, p)
				if provider != "sqlserver" {
					if use := db.Stats().InUse; use != 0 {
						t.Fatalf("%s: %d connections are in use after the call", what, use)
					}
				}
				c.ClassIf(p.fails, "call fails")
				c.ClassIf(p.fails && len(p.steps) > 0 && failOf(p.steps[len(p.steps)-1]) != nil, "step fails")
				c.ClassIf(!p.fails && len(p.steps) == 0, "no change")
				c.ClassIf(p.end.version < st.version && !p.fails && cl.force == 0, "down")
				c.ClassIf(cl.force > 0, "forced")
				c.ClassIf(st.dirty, "called in dirty state")
				ran += len(p.steps)
				if p.fails || len(p.steps) == 0 {
					quiet++
				}
				st = p.end
			}
			c.Class(provider)
			c.NonTrivial(ran > 0 && quiet > 0, fmt.Sprint(provider, src.versions, src.up, src.down, filepath.Base(src.dir), n, srv.texts(0)))
		})
}

// TestC32_Faults: a fault at any event of a call. What fails is reported, the
// version table tells the truth, and the database can be repaired.
func TestC32_Faults(t *testing.T) {
	vh.Run(t, 700, 12000,
		"a random directory and call, an error injected at one of the events of the call (connect, ping, queries, lock, unlock, begin, truncate, insert, commit, step); non-trivial: the fault was hit",
		func(t *rapid.T, c *vh.Case) {
			root := tempRoot(t)
			defer os.RemoveAll(root)
			src := drawSource(t, root)
			provider := drawProvider(t)
			srv := newServer(provider == "sqlserver")
			db := srv.Open()
			defer db.Close()
			st := state{-1, false}
			if rapid.Bool().Draw(t, "before") && len(src.versions) > 0 {
				cl := call{version: rapid.SampledFrom(src.versions).Draw(t, "start")}
				p := src.plan(st, 0, cl.version)
				_ = migrate.Migrate(provider, "db", src.dir, 0, cl.version, db)
				st = p.end
			}
			cl := src.drawCall(t, st)
			p := src.plan(st, cl.force, cl.version)
			from := len(srv.applied)
			at := rapid.IntRange(0, 14+6*len(p.targets)).Draw(t, "at")
			msg := rapid.SampledFrom([]string{"connection reset", "no change", "file does not exist", "EOF"}).Draw(t, "message")
			fault := errors.New(msg)
			var hit string
			srv.mu.Lock()
			srv.events = 0
			srv.fault = func(e string, n int) error {
				if n == at {
					hit = e
					return fault
				}
				return nil
			}
			srv.mu.Unlock()
			err := migrate.Migrate(provider, "db", src.dir, cl.force, cl.version, db)
			srv.fault = nil
			what := fmt.Sprintf("%s: Migrate(force %d, to %d) of versions %v in state %v, %q fails with %q", provider, cl.force, cl.version, src.versions, st, hit, msg)
			if (err != nil) != (p.fails || hit != "") {
				t.Fatalf("%s: error %v", what, err)
			}
			got := srv.texts(from)
			if len(got) > len(p.steps) || !slices.Equal(got, p.steps[:len(got)]) {
				t.Fatalf("%s: ran %q, want the first of %q", what, got, p.steps)
			}
			if hit == "" && !slices.Equal(got, p.steps) {
				t.Fatalf("%s: ran %q, want %q", what, got, p.steps)
			}
			checkSteps(t, srv, from, p)
			if len(got) > 0 {
				// the state is that of the last step, or of a later one
				now := srv.state()
				last := p.targets[len(got)-1]
				start := st.version
				if cl.force > 0 {
					start = cl.force
				}
				if p.end.version > start && (now.version < last || now.version > p.end.version) ||
					p.end.version < start && (now.version > last || now.version < p.end.version) {
					t.Fatalf("%s: state %v after the steps to %v", what, now, p.targets[:len(got)])
				}
			}
			if hit != "unlock" {
				if h := srv.held(); h != 0 {
					t.Fatalf("%s: %d locks are held after the call", what, h)
				}
			}
			if provider != "sqlserver" {
				if use := db.Stats().InUse; use != 0 {
					t.Fatalf("%s: %d connections are in use after the call", what, use)
				}
			}
			srv.releaseAll()
			// repair
			if len(src.versions) > 0 {
				v := rapid.SampledFrom(src.versions).Draw(t, "repair")
				if v > 0 {
					if err := migrate.Migrate(provider, "db", src.dir, v, v, db); err != nil {
						t.Fatalf("%s: repair with version %d: %v", what, v, err)
					}
					if now := srv.state(); now != (state{v, false}) {
						t.Fatalf("%s: state %v after repair with version %d", what, now, v)
					}
				}
			}
			c.ClassIf(hit != "", "fault at "+hit)
			c.NonTrivial(hit != "", fmt.Sprint(provider, src.versions, st, cl, at, hit, msg))
			c.Sample("%s", what)
		})
}

// TestC32_Concurrent: several processes migrate the same database at once.
func TestC32_Concurrent(t *testing.T) {
	vh.Run(t, 60, 1200,
		"two to four concurrent calls on one database, through one or more handles, steps that take a moment; every step runs once; non-trivial: at least two steps",
		func(t *rapid.T, c *vh.Case) {
			root := tempRoot(t)
			defer os.RemoveAll(root)
			src := drawSource(t, root)
			for len(src.versions) == 0 {
				src = drawSource(t, root)
			}
			provider := drawProvider(t)
			srv := newServer(provider == "sqlserver")
			pause := time.Duration(rapid.IntRange(0, 300).Draw(t, "pause")) * time.Microsecond
			srv.during = func() {
				runtime.Gosched()
				time.Sleep(pause)
			}
			n := rapid.IntRange(2, 4).Draw(t, "callers")
			one := rapid.Bool().Draw(t, "one handle")
			version := 0
			if rapid.Bool().Draw(t, "to") {
				version = rapid.SampledFrom(src.versions).Draw(t, "version")
			}
			p := src.plan(state{-1, false}, 0, version)
			shared := srv.Open()
			defer shared.Close()
			var wg sync.WaitGroup
			errs := make([]error, n)
			for i := range n {
				db := shared
				if !one {
					db = srv.Open()
					defer db.Close()
				}
				wg.Go(func() {
					errs[i] = migrate.Migrate(provider, "db", src.dir, 0, version, db)
				})
			}
			wg.Wait()
			what := fmt.Sprintf("%s: %d calls of Migrate(to %d) of versions %v: %v", provider, n, version, src.versions, errs)
			if got := srv.texts(0); !slices.Equal(got, p.steps) {
				t.Fatalf("%s ran\n%q\nwant\n%q", what, got, p.steps)
			}
			checkSteps(t, srv, 0, p)
			if got := srv.state(); got != p.end {
				t.Fatalf("%s: state %v, want %v", what, got, p.end)
			}
			for _, err := range errs {
				if (err != nil) != p.fails {
					t.Fatalf("%s: want error: %v", what, p.fails)
				}
			}
			if srv.held() != 0 {
				t.Fatalf("%s: locks are held", what)
			}
			c.Class(provider)
			c.NonTrivial(len(p.steps) > 1, fmt.Sprint(provider, src.versions, n, one, version, p.steps))
		})
}

// TestC32_Refused: calls which can do nothing.
func TestC32_Refused(t *testing.T) {
	vh.Run(t, 300, 3000,
		"no directory, a missing one, a file, duplicate versions, unreadable migrations and other providers; non-trivial: all",
		func(t *rapid.T, c *vh.Case) {
			root := tempRoot(t)
			defer os.RemoveAll(root)
			src := drawSource(t, root)
			provider := drawProvider(t)
			srv := newServer(provider == "sqlserver")
			db := srv.Open()
			defer db.Close()
			dir := src.dir
			kind := rapid.SampledFrom([]string{"none", "missing", "file", "duplicate", "unreadable", "provider"}).Draw(t, "kind")
			wantErr := true
			switch kind {
			case "none":
				dir, wantErr = "", false
			case "missing":
				dir = filepath.Join(dir, rapid.SampledFrom(dirNames).Draw(t, "missing"))
			case "file":
				src.write(t, "file", "x")
				dir = filepath.Join(dir, "file")
			case "duplicate":
				v := rapid.IntRange(1, 9).Draw(t, "version")
				d := rapid.SampledFrom([]string{"up", "down"}).Draw(t, "direction")
				src.write(t, fmt.Sprintf("%d_first.%s.sql", v, d), "SELECT 1")
				src.write(t, fmt.Sprintf("%d_second.%s.sql", v, d), "SELECT 2")
			case "unreadable":
				// the first migration is a link to nowhere, its version is used
				root2 := filepath.Join(root, "unreadable")
				if err := os.Mkdir(root2, 0o755); err != nil {
					vh.Harness(t, "%v", err)
				}
				if err := os.Symlink("loop.up.sql", filepath.Join(root2, "1_loop.up.sql")); err != nil {
					vh.Harness(t, "%v", err)
				}
				if err := os.Symlink("1_loop.up.sql", filepath.Join(root2, "loop.up.sql")); err != nil {
					vh.Harness(t, "%v", err)
				}
				dir = root2
			case "provider":
				provider = rapid.SampledFrom([]string{"", "mssql", "mysql", "Postgres", "sqlite3", "postgres ", "sql"}).Draw(t, "other")
			}
			err := migrate.Migrate(provider, "db", dir, 0, 0, db)
			if (err != nil) != wantErr {
				t.Fatalf("%s: Migrate(%q, %q) returned %v", kind, provider, dir, err)
			}
			if len(srv.texts(0)) != 0 || srv.held() != 0 {
				t.Fatalf("%s: Migrate(%q, %q) ran %q", kind, provider, dir, srv.texts(0))
			}
			c.Class(kind)
			c.NonTrivial(true, fmt.Sprint(kind, provider, strings.TrimPrefix(dir, root), len(src.versions)))
		})
}

// TestC32_Connection: the connection is returned.
func TestC32_Connection(t *testing.T) {
	for _, provider := range []string{"postgres", "pgsql", "sqlserver"} {
		vh.One(t, "one migration for each provider, no connection is in use afterwards", func(c *vh.Case) {
			dir := t.TempDir()
			if err := os.WriteFile(filepath.Join(dir, "1_a.up.sql"), []byte("SELECT 1"), 0o644); err != nil {
				vh.Harness(t, "%v", err)
			}
			srv := newServer(provider == "sqlserver")
			db := srv.Open()
			defer db.Close()
			if err := migrate.Migrate(provider, "db", dir, 0, 0, db); err != nil {
				t.Fatal(err)
			}
			if use := db.Stats().InUse; use != 0 {
				if provider == "sqlserver" && use == 1 {
					vh.Known("C32-sqlserver-connection", "Migrate of a SQL Server database keeps one connection of the pool in use")
				} else {
					t.Fatalf("%s: %d connections are in use after Migrate", provider, use)
				}
			}
			c.NonTrivial(true, provider)
		})
	}
}
