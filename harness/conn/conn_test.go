package conn

import (
	"database/sql"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/fakepg"
	"github.com/effective-security/xdb/internal/verif/vh"
	_ "github.com/lib/pq"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PG") || strings.HasPrefix(e, "XDB_") {
			os.Unsetenv(e[:strings.Index(e, "=")])
		}
	}
	vh.Main(m)
}

// encode percent-encodes all but plain characters, in one of the valid ways.
func encode(t *rapid.T, s string, query bool) string {
	style := rapid.IntRange(0, 2).Draw(t, "style")
	var sb strings.Builder
	for _, b := range []byte(s) {
		plain := b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || strings.IndexByte("-._~", b) >= 0
		switch {
		case plain && style != 2:
			sb.WriteByte(b)
		case query && b == ' ' && style == 1:
			sb.WriteByte('+')
		case style == 1:
			fmt.Fprintf(&sb, "%%%02x", b)
		default:
			fmt.Fprintf(&sb, "%%%02X", b)
		}
	}
	return sb.String()
}

const special = "ab1 '\"\\=&?/#%+;:@,$!*()[]{}<>|^`~é日\t-_.\n"

var nameGen = rapid.Custom(func(t *rapid.T) string {
	if rapid.IntRange(0, 63).Draw(t, "long") == 5 {
		// tokens and hashes used as passwords or names
		return rapid.StringOfN(rapid.RuneFrom([]rune(special)), 33, 260, -1).Draw(t, "longname")
	}
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		return rapid.StringMatching(`[a-z][a-z0-9_]{0,8}`).Draw(t, "plain")
	case 1:
		return rapid.SampledFrom([]string{"my db", "a&b", "x=y", "a?b", "a#b", "50%", "a+b", "o'brien", `a"b`, `c:\d`, "host=x", "a;b", "a/b", "Ünï", "%20", "a dbname=b", "'"}).Draw(t, "known")
	}
	return rapid.StringOfN(rapid.RuneFrom([]rune(special)), 1, 8, -1).Draw(t, "special")
})

type param struct{ k, v string }

// wrap passes the connection string in one of the ways; clean must be called after.
func wrap(rt *rapid.T, c *vh.Case, ds, dir string) (arg string, clean func()) {
	clean = func() {}
	q := func(s string) string {
		switch rapid.IntRange(0, 4).Draw(rt, "quoted") {
		case 0:
			c.Class("quoted")
			return `"` + s + `"`
		case 1:
			return " " + s + "\n"
		}
		return s
	}
	switch rapid.IntRange(0, 5).Draw(rt, "reference") {
	case 0:
		c.Class("file")
		fn := filepath.Join(dir, "ds")
		text := q(ds)
		if rapid.Bool().Draw(rt, "newline") {
			text += "\n"
		}
		if err := os.WriteFile(fn, []byte(text), 0o600); err != nil {
			vh.Harness(rt, "%v", err)
		}
		return "file://" + fn, func() { os.Remove(fn) }
	case 1:
		c.Class("env")
		if err := os.Setenv("VH_DS", q(ds)); err != nil {
			return ds, clean
		}
		return "env://VH_DS", func() { os.Unsetenv("VH_DS") }
	}
	return q(ds), clean
}

func TestC26_Parse(t *testing.T) {
	dir := t.TempDir()
	vh.Run(t, 6000, 200000, "connection strings made of arbitrary components (user, password, host names and addresses, parameters with any characters, database as dbname, database or path), percent-encoded in different ways, given directly, quoted, with white space, by environment variable or file: every component comes back; non-trivial: some component needs escapes or the string is not given directly",
		func(rt *rapid.T, c *vh.Case) {
			driver := rapid.SampledFrom([]string{"postgres", "sqlserver", "postgres", "mysql", "sqlite3", "pgx"}).Draw(rt, "driver")
			host := rapid.SampledFrom([]string{"localhost", "127.0.0.1", "db.example.com", "[::1]", "a-b.c", "h", "DB-Server", "Db.Example.COM", "xn--bcher-kva.de", "db.", "h_1"}).Draw(rt, "host")
			if rapid.Bool().Draw(rt, "port") {
				host += fmt.Sprintf(":%d", rapid.IntRange(1, 65535).Draw(rt, "portnum"))
			}
			esc := false
			note := func(s string) string {
				esc = esc || strings.ContainsAny(s, special[3:])
				return s
			}
			ds := driver + "://"
			var user, pwd string
			if rapid.IntRange(0, 3).Draw(rt, "user?") > 0 {
				user = note(nameGen.Draw(rt, "user"))
				ds += encode(rt, user, false)
				if rapid.IntRange(0, 3).Draw(rt, "pwd?") > 0 {
					pwd = note(nameGen.Draw(rt, "pwd"))
					if rapid.IntRange(0, 31).Draw(rt, "token") == 5 {
						pwd = note(strings.Repeat(pwd, rapid.IntRange(2, 400).Draw(rt, "times")))
					}
					ds += ":" + encode(rt, pwd, false)
				}
				ds += "@"
			}
			ds += host
			db := ""
			var ps []param
			switch rapid.IntRange(0, 4).Draw(rt, "database") {
			case 0:
				db = note(nameGen.Draw(rt, "dbname"))
				ps = append(ps, param{"dbname", db})
			case 1:
				db = note(nameGen.Draw(rt, "dbname"))
				ps = append(ps, param{"database", db})
			case 2:
				if driver == "postgres" {
					db = note(nameGen.Draw(rt, "dbname"))
					ds += "/" + encode(rt, db, false)
					c.Class("path")
				} else if driver == "sqlserver" {
					// the instance of the server, which is not a database
					ds += "/" + encode(rt, note(nameGen.Draw(rt, "instance")), false)
					c.Class("instance")
				}
			case 3:
				db = note(nameGen.Draw(rt, "dbname"))
				ps = append(ps, param{"database", note(nameGen.Draw(rt, "other"))}, param{"dbname", db})
			}
			n := rapid.IntRange(0, 4).Draw(rt, "params")
			if rapid.IntRange(0, 31).Draw(rt, "many") == 5 {
				n = rapid.IntRange(15, 140).Draw(rt, "manyparams")
				c.Class("many parameters")
			}
			for i := range n {
				ps = append(ps, param{fmt.Sprintf("%s%03d", note(nameGen.Draw(rt, "key")), i), note(rapid.OneOf(nameGen, rapid.Just("")).Draw(rt, "value"))})
			}
			want := map[string]string{}
			sep := "?"
			for _, p := range ps {
				ds += sep + encode(rt, p.k, true) + "=" + encode(rt, p.v, true)
				want[p.k] = p.v
				sep = "&"
			}
			arg, clean := wrap(rt, c, ds, dir)
			defer clean()
			s, err := xdb.ParseConnectionString(arg)
			if err != nil {
				rt.Fatalf("%q: %v", ds, err)
			}
			exp := &xdb.Source{Source: ds, Driver: driver, Host: host, User: user, Password: pwd, Database: db, Params: want}
			if !reflect.DeepEqual(s, exp) {
				rt.Fatalf("%q as %q:\n%+v, expected\n%+v", ds, arg, *s, *exp)
			}
			c.ClassIf(esc, "escapes")
			c.NonTrivial(esc || arg != ds, arg+ds)
		})
}

func TestC26_Any(t *testing.T) {
	vh.Run(t, 6000, 200000, "arbitrary texts, and connection strings changed in one to three places: an error, or a source which has the text and reads the same again; non-trivial: accepted",
		func(rt *rapid.T, c *vh.Case) {
			s := []byte("postgres://u1:p2@127.0.0.1:55432?sslmode=disable&dbname=testdb")
			if rapid.Bool().Draw(rt, "any") {
				s = []byte(rapid.OneOf(rapid.String(), nameGen).Draw(rt, "text"))
			}
			for range rapid.IntRange(1, 3).Draw(rt, "changes") {
				if len(s) == 0 {
					break
				}
				i := rapid.IntRange(0, len(s)-1).Draw(rt, "at")
				if rapid.Bool().Draw(rt, "replace") {
					s[i] = rapid.SampledFrom([]byte(" :/?#@&=%\\\"'[]\x00;+")).Draw(rt, "char")
				} else {
					s = append(s[:i:i], s[i+1:]...)
				}
			}
			text := string(s)
			if strings.Contains(text, "://") && (strings.HasPrefix(text, "file") || strings.HasPrefix(text, "env") || strings.HasPrefix(text, "secret")) {
				return
			}
			a, err := xdb.ParseConnectionString(text)
			if err != nil {
				if a != nil {
					rt.Fatalf("%q: %+v and %v", text, a, err)
				}
				return
			}
			if t := strings.TrimSpace(strings.Trim(strings.TrimSpace(text), `"`)); a.Source != t && a.Source != strings.TrimSpace(strings.Trim(text, `"`)) {
				rt.Fatalf("%q: source %q", text, a.Source)
			}
			if !strings.HasPrefix(a.Source+":", a.Driver) && !strings.EqualFold(a.Source[:len(a.Driver)], a.Driver) {
				rt.Fatalf("%q: driver %q", text, a.Driver)
			}
			b, err := xdb.ParseConnectionString(a.Source)
			if err != nil || b.Host != a.Host || b.Password != a.Password || b.Database != a.Database {
				rt.Fatalf("%q: %+v again %+v, %v", text, a, b, err)
			}
			c.NonTrivial(true, text)
		})
}

// openers counts the goroutines of open database handles.
func openers() int {
	buf := make([]byte, 1<<20)
	return strings.Count(string(buf[:runtime.Stack(buf, true)]), "database/sql.(*DB).connectionOpener(")
}

func noOpeners(base int) bool {
	return fakepg.Wait(5*time.Second, func() bool { return openers() <= base })
}

func kv(k, v string) string {
	return k + "='" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(v) + "' "
}

type target struct {
	ds       string
	user     string
	pwd      string
	db       string // in the string
	params   []param
	hostForm string
}

func genPG(rt *rapid.T, c *vh.Case, host, port string) *target {
	x := &target{user: nameGen.Draw(rt, "user"), pwd: nameGen.Draw(rt, "pwd")}
	ds := rapid.SampledFrom([]string{"postgres://", "postgres://", "postgres://"}).Draw(rt, "scheme")
	ds += encode(rt, x.user, false) + ":" + encode(rt, x.pwd, false) + "@"
	q := []param{}
	if rapid.IntRange(0, 5).Draw(rt, "hostform") == 0 {
		c.Class("host parameter")
		q = append(q, param{"host", host}, param{"port", port})
		ds += "/"
	} else {
		ds += host + ":" + port
		switch rapid.IntRange(0, 3).Draw(rt, "path") {
		case 0:
			ds += "/"
		case 1:
			x.db = nameGen.Draw(rt, "pathdb")
			ds += "/" + encode(rt, x.db, false)
			c.Class("database in the path")
		}
	}
	noParams := rapid.IntRange(0, 5).Draw(rt, "noparams") == 0
	if noParams && len(q) == 0 {
		c.Class("no parameters")
		os.Setenv("PGSSLMODE", "disable")
		defer func() { x.hostForm = "env" }()
	} else {
		q = append(q, param{"sslmode", "disable"})
		if x.db == "" {
			switch rapid.IntRange(0, 4).Draw(rt, "dbparam") {
			case 0:
				x.db = nameGen.Draw(rt, "dbp")
				q = append(q, param{"dbname", x.db})
				c.Class("dbname in the string")
			case 1:
				x.db = nameGen.Draw(rt, "dbp")
				q = append(q, param{"database", x.db})
				c.Class("database in the string")
			}
		}
		for _, k := range []string{"application_name", "search_path", "statement_timeout", "connect_timeout", "client_encoding", "fallback_application_name"} {
			if rapid.IntRange(0, 3).Draw(rt, k) > 0 {
				continue
			}
			v := nameGen.Draw(rt, "v")
			switch k {
			case "client_encoding":
				v = "UTF8"
			case "connect_timeout":
				v = "20"
			}
			q = append(q, param{k, v})
		}
		if rapid.IntRange(0, 15).Draw(rt, "many") == 5 {
			c.Class("many parameters")
			for i := range rapid.IntRange(8, 70).Draw(rt, "settings") {
				q = append(q, param{fmt.Sprintf("app.setting%d", i), nameGen.Draw(rt, "v")})
			}
		}
		q = rapid.Permutation(q).Draw(rt, "order")
	}
	x.params = q
	sep := "?"
	for _, p := range q {
		ds += sep + encode(rt, p.k, true) + "=" + encode(rt, p.v, true)
		sep = "&"
	}
	x.ds = ds
	return x
}

func TestC26_Postgres(t *testing.T) {
	dir := t.TempDir()
	srv, err := fakepg.Start()
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	defer srv.Close()
	host, port := srv.Addr()
	vh.Run(t, 400, 12000, "connection strings for a server on the loopback network (user, password, database in the path, as dbname or database, host as parameter, further parameters; any characters) opened with or without a database name: what the server is told is what the driver tells it for the same components in key-value form, with the requested database; the returned connection string says the same again; closing ends the connection; non-trivial: a database name is given",
		func(rt *rapid.T, c *vh.Case) {
			defer os.Unsetenv("PGSSLMODE")
			x := genPG(rt, c, host, port)
			db := ""
			if rapid.IntRange(0, 3).Draw(rt, "database?") > 0 {
				db = nameGen.Draw(rt, "database")
			}
			// the same in key-value form
			ref := kv("user", x.user) + kv("password", x.pwd) + kv("host", host) + kv("port", port)
			wantDB := x.db
			if db != "" {
				wantDB = db
			}
			if wantDB != "" {
				ref += kv("dbname", wantDB)
			}
			for _, p := range x.params {
				if p.k != "dbname" && p.k != "database" && p.k != "host" && p.k != "port" {
					ref += kv(p.k, p.v)
				}
			}
			srv.Logins()
			rdb, err := sql.Open("postgres", ref)
			if err == nil {
				err = rdb.Ping()
			}
			if err != nil {
				vh.Harness(rt, "reference %q: %v", ref, err)
			}
			rdb.Close()
			want := srv.Logins()
			arg, clean := wrap(rt, c, x.ds, dir)
			defer clean()
			d, driver, connstr, err := xdb.Open(arg, db)
			if err != nil {
				rt.Fatalf("open %q with %q: %v", x.ds, db, err)
			}
			defer d.Close()
			got := srv.Logins()
			if driver != "postgres" || !reflect.DeepEqual(got, want) {
				rt.Fatalf("open %q with %q as %s: the server is told\n%+v, expected\n%+v", x.ds, db, driver, got, want)
			}
			// the string that is returned
			rdb, err = sql.Open(driver, connstr)
			if err == nil {
				err = rdb.Ping()
			}
			if err != nil {
				rt.Fatalf("open %q with %q: the returned %q does not work: %v", x.ds, db, connstr, err)
			}
			rdb.Close()
			if again := srv.Logins(); !reflect.DeepEqual(again, want) {
				rt.Fatalf("open %q with %q: the returned %q tells the server\n%+v, expected\n%+v", x.ds, db, connstr, again, want)
			}
			if err := d.Close(); err != nil {
				rt.Fatalf("close: %v", err)
			}
			if !srv.WaitClosed(10 * time.Second) {
				rt.Fatalf("open %q with %q: %d connections are open after the close", x.ds, db, srv.Open())
			}
			c.NonTrivial(db != "", x.ds+" "+db)
			c.Sample("%s database %q => user %q database %q", x.ds, db, want[0].Params["user"], want[0].Params["database"])
		})
}

func TestC26_SQLServer(t *testing.T) {
	dir := t.TempDir()
	srv, err := fakepg.StartTDS()
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	defer srv.Close()
	host, port := srv.Addr()
	vh.Run(t, 300, 8000, "the same for SQL Server: user and password in the authority or as parameters, database, application and workstation names with any characters; non-trivial: a database name is given",
		func(rt *rapid.T, c *vh.Case) {
			// a backslash separates a domain, for another kind of login
			user, pwd := strings.ReplaceAll(nameGen.Draw(rt, "user"), `\`, "/"), nameGen.Draw(rt, "pwd")
			ds := "sqlserver://"
			q := []param{{"encrypt", "disable"}}
			if rapid.Bool().Draw(rt, "authority") {
				ds += encode(rt, user, false) + ":" + encode(rt, pwd, false) + "@"
			} else {
				q = append(q, param{"user id", user}, param{"password", pwd})
			}
			ds += host + ":" + port
			want := fakepg.Login{Password: pwd, Params: map[string]string{"user": user, "server": host, "database": "", "app name": "go-mssqldb", "workstation id": "ws"}}
			if rapid.IntRange(0, 2).Draw(rt, "instance?") == 0 {
				v := nameGen.Draw(rt, "instance")
				want.Params["server"] = host + `\` + v
				ds += "/" + encode(rt, v, false)
				c.Class("instance")
			}
			if rapid.Bool().Draw(rt, "db?") {
				k := rapid.SampledFrom([]string{"database", "Database"}).Draw(rt, "key")
				v := nameGen.Draw(rt, "db")
				want.Params["database"] = v
				q = append(q, param{k, v})
				c.Class("database in the string")
			}
			if rapid.Bool().Draw(rt, "app?") {
				v := nameGen.Draw(rt, "app")
				want.Params["app name"] = v
				q = append(q, param{"app name", v})
			}
			v := nameGen.Draw(rt, "ws")
			want.Params["workstation id"] = v
			q = append(q, param{"workstation id", v})
			q = rapid.Permutation(q).Draw(rt, "order")
			sep := "?"
			for _, p := range q {
				k := encode(rt, p.k, true)
				if rapid.Bool().Draw(rt, "raw") {
					k = p.k // spaces are used unescaped
				}
				ds += sep + k + "=" + encode(rt, p.v, true)
				sep = "&"
			}
			db := ""
			if rapid.IntRange(0, 3).Draw(rt, "database?") > 0 {
				db = nameGen.Draw(rt, "database")
				want.Params["database"] = db
			}
			srv.Logins()
			arg, clean := wrap(rt, c, ds, dir)
			defer clean()
			d, driver, connstr, err := xdb.Open(arg, db)
			if err != nil {
				rt.Fatalf("open %q with %q: %v", ds, db, err)
			}
			defer d.Close()
			check := func(got []fakepg.Login, what string) {
				if len(got) != 1 || !reflect.DeepEqual(got[0], want) {
					rt.Fatalf("open %q with %q: %s: the server is told\n%+v, expected\n%+v", ds, db, what, got, want)
				}
			}
			check(srv.Logins(), "open")
			rdb, err := sql.Open(driver, connstr)
			if err == nil {
				err = rdb.Ping()
			}
			if err != nil || driver != "sqlserver" {
				rt.Fatalf("open %q with %q: the returned %s %q does not work: %v", ds, db, driver, connstr, err)
			}
			rdb.Close()
			check(srv.Logins(), "returned string "+connstr)
			d.Close()
			if !srv.WaitClosed(10 * time.Second) {
				rt.Fatalf("%d connections are open after the close", srv.Open())
			}
			c.NonTrivial(db != "", ds+" "+db)
		})
}

func TestC26_Fails(t *testing.T) {
	srv, err := fakepg.Start()
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	defer srv.Close()
	host, port := srv.Addr()
	// a port nobody listens to
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	closed := ln.Addr().String()
	ln.Close()
	dir := t.TempDir()
	good := fmt.Sprintf("postgres://u:p@%s:%s?sslmode=disable", host, port)
	vh.Run(t, 300, 6000, "connections that can not be made (refused login, nobody listens, unknown driver, key-value form, missing file or variable, failing ping, impossible parameter), and providers whose migration fails: an error, no handle, no connection or goroutine left; in between good ones, which work, name their database and free everything on close; non-trivial: a failure",
		func(rt *rapid.T, c *vh.Case) {
			base := openers()
			srv.Refuse = func(l fakepg.Login) bool { return l.Password == "wrong" }
			kind := rapid.IntRange(0, 12).Draw(rt, "kind")
			ds, db := good, rapid.SampledFrom([]string{"", "testdb", "a b"}).Draw(rt, "database")
			srv.FailQuery = nil
			var cfg *xdb.MigrationConfig
			fails := true
			switch kind {
			case 0:
				ds = strings.Replace(good, ":p@", ":wrong@", 1)
				c.Class("refused")
			case 1:
				ds = fmt.Sprintf("postgres://u:p@%s?sslmode=disable&connect_timeout=2", closed)
				c.Class("nobody listens")
			case 2:
				ds = strings.Replace(good, "postgres", rapid.SampledFrom([]string{"mysql", "pgx", "sqlserverx", "Http", "x"}).Draw(rt, "driver"), 1)
				c.Class("driver")
			case 3:
				ds = fmt.Sprintf("host=%s port=%s user=u password=p sslmode=disable", host, port)
				c.Class("key-value")
			case 4:
				ds = rapid.SampledFrom([]string{"file://" + dir + "/missing", "env://VH_MISSING", "secret://x", "", "::", "%"}).Draw(rt, "reference")
				c.Class("reference")
			case 5:
				srv.FailQuery = func(string) bool { return true }
				c.Class("ping")
			case 6:
				ds = strings.Replace(good, "disable", "nonsense", 1)
				c.Class("parameter")
			case 7:
				ds = strings.Replace(good, "disable", "require", 1)
				c.Class("ssl")
			case 8:
				cfg = &xdb.MigrationConfig{Source: dir + "/missing"}
				c.Class("migration source")
			case 9:
				cfg = &xdb.MigrationConfig{Source: dir}
				c.Class("migration")
			default:
				fails = false
				if rapid.Bool().Draw(rt, "config") {
					cfg = &xdb.MigrationConfig{}
				}
			}
			if cfg == nil && rapid.Bool().Draw(rt, "open") {
				d, _, _, err := xdb.Open(ds, db)
				if fails != (err != nil) || fails != (d == nil) {
					rt.Fatalf("open %q with %q: %v, %v", ds, db, d, err)
				}
				if d != nil {
					d.Close()
				}
			} else {
				p, err := xdb.NewProvider(ds, db, nil, cfg)
				if fails != (err != nil) || fails != (p == nil) {
					rt.Fatalf("provider for %q with %q: %v, %v", ds, db, p, err)
				}
				if p != nil {
					s, err := xdb.ParseConnectionString(p.ConnectionString())
					if err != nil || s.Database != db || s.User != "u" || s.Password != "p" || s.Host != host+":"+port || p.Name() != "postgres" || p.DB() == nil {
						rt.Fatalf("provider for %q with %q: %s, %+v, %v", ds, db, p.Name(), s, err)
					}
					if err := p.Close(); err != nil {
						rt.Fatalf("close: %v", err)
					}
				}
			}
			if !srv.WaitClosed(10 * time.Second) {
				rt.Fatalf("%q with %q: %d connections are left open", ds, db, srv.Open())
			}
			if !noOpeners(base) {
				rt.Fatalf("%q with %q: a database handle is left open", ds, db)
			}
			c.NonTrivial(fails, fmt.Sprint(kind, ds, db))
		})
}
