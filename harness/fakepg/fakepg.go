// Package fakepg is a server on the loopback network that speaks enough of
// the PostgreSQL protocol for connecting, LISTEN and notifications, and one
// that speaks enough of TDS for connecting to a SQL Server.
package fakepg

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"maps"
	"net"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf16"
	"unicode/utf8"
)

// Rows is a result set, in the text format. A nil value is NULL.
type Rows struct {
	Cols []string
	OIDs []uint32
	Vals [][]*string
	// Break ends the connection after the rows, Fail ends them with an error
	Break, Fail bool
}

// Login is what a client said when it connected.
type Login struct {
	Params   map[string]string
	Password string
	SSL      bool
}

// Server is a fake database server.
type Server struct {
	// Refuse makes logins fail.
	Refuse func(l Login) bool
	// FailQuery makes a query fail.
	FailQuery func(q string) bool
	// NoPassword leaves out the question for the password.
	NoPassword bool
	// OnListen is called before LISTEN is answered.
	OnListen func(channel string)
	// Early returns the payloads of notifications which are sent with the answer to LISTEN.
	Early func(channel string) []string
	// Query answers queries; with describe set only the columns count, the
	// arguments are not known yet.
	Query func(q string, args []*string, describe bool) (*Rows, error)

	ln     net.Listener
	mu     sync.Mutex
	logins []Login
	conns  map[*Conn]bool
	open   int
	total  int
	ended  int
	done   bool
	wg     sync.WaitGroup
}

// Conn is a connection of a client.
type Conn struct {
	s         *Server
	c         net.Conn
	wmu       sync.Mutex
	Listening map[string]bool
	log       []string
	prepared  map[string]string
	bound     string
	args      []*string
}

// Start starts a PostgreSQL server.
func Start() (*Server, error) { return start((*Server).servePG) }

// StartTDS starts a SQL Server.
func StartTDS() (*Server, error) { return start((*Server).serveTDS) }

func start(serve func(s *Server, c *Conn) error) (*Server, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &Server{ln: ln, conns: map[*Conn]bool{}}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			nc, err := ln.Accept()
			if err != nil {
				return
			}
			c := &Conn{s: s, c: nc, Listening: map[string]bool{}}
			s.mu.Lock()
			if s.done {
				s.mu.Unlock()
				nc.Close()
				return
			}
			s.conns[c] = true
			s.open++
			s.total++
			s.wg.Add(1)
			s.mu.Unlock()
			go func() {
				defer s.wg.Done()
				_ = serve(s, c)
				nc.Close()
				s.mu.Lock()
				delete(s.conns, c)
				s.open--
				s.mu.Unlock()
			}()
		}
	}()
	return s, nil
}

// Addr returns host and port.
func (s *Server) Addr() (host, port string) {
	h, p, _ := net.SplitHostPort(s.ln.Addr().String())
	return h, p
}

// Close ends the server.
func (s *Server) Close() {
	s.mu.Lock()
	s.done = true
	cs := slices.Collect(maps.Keys(s.conns))
	s.mu.Unlock()
	s.ln.Close()
	for _, c := range cs {
		c.c.Close()
	}
	s.wg.Wait()
}

// Drop closes all the connections.
func (s *Server) Drop() {
	s.mu.Lock()
	cs := slices.Collect(maps.Keys(s.conns))
	s.mu.Unlock()
	for _, c := range cs {
		c.c.Close()
	}
}

// Logins returns the logins so far and forgets them.
func (s *Server) Logins() []Login {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.logins
	s.logins = nil
	return l
}

// Open returns how many connections are open.
func (s *Server) Open() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.open
}

// Total returns how many connections were made.
func (s *Server) Total() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.total
}

// Ended returns how many connections the client has ended in order.
func (s *Server) Ended() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.ended
}

// WaitClosed waits until no connection is open.
func (s *Server) WaitClosed(limit time.Duration) bool {
	return Wait(limit, func() bool { return s.Open() == 0 })
}

// Wait waits for a condition.
func Wait(limit time.Duration, cond func() bool) bool {
	end := time.Now().Add(limit)
	for d := 20 * time.Microsecond; ; d = min(2*d, 5*time.Millisecond) {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(d)
	}
}

func (s *Server) login(l Login) bool {
	s.mu.Lock()
	s.logins = append(s.logins, l)
	s.mu.Unlock()
	return s.Refuse == nil || !s.Refuse(l)
}

// Channels returns the channels some connection listens to, with the number of connections.
func (s *Server) Channels() map[string]int {
	s.mu.Lock()
	defer s.mu.Unlock()
	res := map[string]int{}
	for c := range s.conns {
		for ch := range c.Listening {
			res[ch]++
		}
	}
	return res
}

// Notify sends a notification to the connections which listen to the channel,
// and returns how many.
func (s *Server) Notify(channel, payload string) int {
	s.mu.Lock()
	var cs []*Conn
	for c := range s.conns {
		if c.Listening[channel] {
			cs = append(cs, c)
		}
	}
	s.mu.Unlock()
	n := 0
	for _, c := range cs {
		if c.notify(channel, payload) == nil {
			n++
		}
	}
	return n
}

func (c *Conn) notify(channel, payload string) error {
	body := binary.BigEndian.AppendUint32(nil, 4711)
	body = append(append(append(body, channel...), 0), payload...)
	return c.write('A', append(body, 0))
}

func (c *Conn) write(kind byte, body []byte) error {
	m := append([]byte{kind}, 0, 0, 0, 0)
	binary.BigEndian.PutUint32(m[1:], uint32(len(body)+4))
	c.wmu.Lock()
	defer c.wmu.Unlock()
	_, err := c.c.Write(append(m, body...))
	return err
}

func (c *Conn) fail(code, msg string) error {
	b := []byte("SFATAL\x00C" + code + "\x00M" + msg + "\x00\x00")
	return c.write('E', b)
}

var listenRe = regexp.MustCompile(`^\s*(LISTEN|UNLISTEN) (.*?);?\s*$`)

func unquote(s string) string {
	if len(s) >= 2 && s[0] == '"' {
		return strings.ReplaceAll(s[1:len(s)-1], `""`, `"`)
	}
	return strings.ToLower(s)
}

// cut is what the server makes of a long identifier.
func cut(s string) string {
	for len(s) > 63 {
		_, n := utf8.DecodeLastRuneInString(s)
		s = s[:len(s)-n]
	}
	return s
}

func (s *Server) servePG(c *Conn) error {
	r := bufio.NewReader(c.c)
	var l Login
	for {
		var h [8]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return err
		}
		n, code := binary.BigEndian.Uint32(h[:]), binary.BigEndian.Uint32(h[4:])
		if n < 8 || n > 1<<20 {
			return fmt.Errorf("bad length")
		}
		body := make([]byte, n-8)
		if _, err := io.ReadFull(r, body); err != nil {
			return err
		}
		if code == 80877103 || code == 80877104 {
			l.SSL = true
			if _, err := c.c.Write([]byte("N")); err != nil {
				return err
			}
			continue
		}
		if code == 80877102 { // cancel
			return nil
		}
		l.Params = map[string]string{}
		parts := strings.Split(string(body), "\x00")
		for i := 0; i+1 < len(parts) && parts[i] != ""; i += 2 {
			l.Params[parts[i]] = parts[i+1]
		}
		break
	}
	if !s.NoPassword {
		if err := c.write('R', []byte{0, 0, 0, 3}); err != nil {
			return err
		}
		kind, body, err := readMsg(r)
		if err != nil {
			return err
		}
		if kind != 'p' {
			return fmt.Errorf("expected a password")
		}
		l.Password = strings.TrimSuffix(string(body), "\x00")
	}
	if !s.login(l) {
		return c.fail("28P01", "password authentication failed")
	}
	if err := c.write('R', []byte{0, 0, 0, 0}); err != nil {
		return err
	}
	for k, v := range map[string]string{"server_version": "16.0", "client_encoding": "UTF8", "TimeZone": "UTC", "integer_datetimes": "on", "standard_conforming_strings": "on"} {
		if err := c.write('S', []byte(k+"\x00"+v+"\x00")); err != nil {
			return err
		}
	}
	if err := c.write('K', []byte{0, 0, 0, 1, 0, 0, 0, 2}); err != nil {
		return err
	}
	for {
		if err := c.write('Z', []byte{'I'}); err != nil {
			return err
		}
		kind, body, err := readMsg(r)
		if err != nil {
			return err
		}
		switch kind {
		case 'X':
			s.mu.Lock()
			s.ended++
			s.mu.Unlock()
			return nil
		case 'Q':
			q := strings.TrimSuffix(string(body), "\x00")
			if s.FailQuery != nil && s.FailQuery(q) {
				b := []byte("SERROR\x00C42601\x00Minjected fault\x00\x00")
				if err := c.write('E', b); err != nil {
					return err
				}
				continue
			}
			if m := listenRe.FindStringSubmatch(q); m != nil {
				ch := cut(unquote(m[2]))
				if m[1] == "LISTEN" && s.OnListen != nil {
					s.OnListen(ch)
				}
				s.mu.Lock()
				switch {
				case m[1] == "LISTEN":
					c.Listening[ch] = true
				case m[2] == "*":
					c.Listening = map[string]bool{}
				default:
					delete(c.Listening, ch)
				}
				s.mu.Unlock()
				if err := c.write('C', []byte(m[1]+"\x00")); err != nil {
					return err
				}
				if m[1] == "LISTEN" && s.Early != nil {
					for _, p := range s.Early(ch) {
						if err := c.notify(ch, p); err != nil {
							return err
						}
					}
				}
				continue
			}
			if strings.Trim(q, "; ") == "" {
				err = c.write('I', nil)
			} else if s.Query != nil {
				var rs *Rows
				if rs, err = s.Query(q, nil, false); err != nil {
					err = c.queryError(err)
				} else {
					if err = c.columns(rs); err == nil {
						err = c.rows(rs)
					}
				}
			} else {
				err = c.write('C', []byte("SELECT 0\x00"))
			}
			if err != nil {
				return err
			}
		case 'P', 'B', 'D', 'E', 'C', 'S', 'H':
			if s.Query == nil {
				if err := c.fail("0A000", "not supported"); err != nil {
					return err
				}
				continue
			}
			if err := c.extended(r, kind, body); err != nil {
				return err
			}
		default:
			if err := c.fail("0A000", "not supported"); err != nil {
				return err
			}
		}
	}
}

// extended runs messages of the extended query protocol up to a Sync.
func (c *Conn) extended(r *bufio.Reader, kind byte, body []byte) error {
	failed := false
	bad := func(err error) error {
		failed = true
		return c.queryError(err)
	}
	for {
		var err error
		if !failed || kind == 'S' {
			switch kind {
			case 'P':
				name, rest, _ := strings.Cut(string(body), "\x00")
				q, _, _ := strings.Cut(rest, "\x00")
				if c.prepared == nil {
					c.prepared = map[string]string{}
				}
				if c.s.FailQuery != nil && c.s.FailQuery(q) {
					err = bad(fmt.Errorf("injected fault"))
					break
				}
				c.prepared[name] = q
				err = c.write('1', nil)
			case 'D':
				name := strings.TrimSuffix(string(body[1:]), "\x00")
				if body[0] == 'P' {
					rs, e := c.s.Query(c.bound, c.args, false)
					if e != nil {
						err = bad(e)
						break
					}
					err = c.columns(rs)
					break
				}
				q := c.prepared[name]
				n := 0
				for _, m := range paramRe.FindAllStringSubmatch(q, -1) {
					i, _ := strconv.Atoi(m[1])
					n = max(n, i)
				}
				b := binary.BigEndian.AppendUint16(nil, uint16(n))
				for range n {
					b = binary.BigEndian.AppendUint32(b, 25)
				}
				if err = c.write('t', b); err != nil {
					break
				}
				rs, e := c.s.Query(q, make([]*string, n), true)
				if e != nil {
					err = bad(e)
					break
				}
				err = c.columns(rs)
			case 'B':
				_, rest, _ := bytes.Cut(body, []byte{0})
				name, rest, _ := bytes.Cut(rest, []byte{0})
				c.bound, c.args = c.prepared[string(name)], nil
				u16 := func() int {
					v := int(binary.BigEndian.Uint16(rest))
					rest = rest[2:]
					return v
				}
				rest = rest[2*u16():]
				for range u16() {
					l := int32(binary.BigEndian.Uint32(rest))
					rest = rest[4:]
					if l < 0 {
						c.args = append(c.args, nil)
						continue
					}
					v := string(rest[:l])
					c.args = append(c.args, &v)
					rest = rest[l:]
				}
				err = c.write('2', nil)
			case 'E':
				rs, e := c.s.Query(c.bound, c.args, false)
				if e != nil {
					err = bad(e)
					break
				}
				err = c.rows(rs)
			case 'C':
				err = c.write('3', nil)
			case 'S':
				return nil
			case 'X':
				return io.EOF
			}
		}
		if err != nil {
			return err
		}
		if kind, body, err = readMsg(r); err != nil {
			return err
		}
	}
}

var paramRe = regexp.MustCompile(`\$(\d+)`)

func (c *Conn) queryError(err error) error {
	return c.write('E', []byte("SERROR\x00CXX000\x00M"+err.Error()+"\x00\x00"))
}

func (c *Conn) columns(rs *Rows) error {
	b := binary.BigEndian.AppendUint16(nil, uint16(len(rs.Cols)))
	for i, n := range rs.Cols {
		b = append(append(b, n...), 0)
		b = binary.BigEndian.AppendUint32(b, 0)
		b = binary.BigEndian.AppendUint16(b, 0)
		oid := uint32(25)
		if i < len(rs.OIDs) {
			oid = rs.OIDs[i]
		}
		b = binary.BigEndian.AppendUint32(b, oid)
		b = binary.BigEndian.AppendUint16(b, 0xFFFF)
		b = binary.BigEndian.AppendUint32(b, 0xFFFFFFFF)
		b = binary.BigEndian.AppendUint16(b, 0)
	}
	return c.write('T', b)
}

func (c *Conn) rows(rs *Rows) error {
	for _, row := range rs.Vals {
		b := binary.BigEndian.AppendUint16(nil, uint16(len(row)))
		for _, v := range row {
			if v == nil {
				b = binary.BigEndian.AppendUint32(b, 0xFFFFFFFF)
				continue
			}
			b = binary.BigEndian.AppendUint32(b, uint32(len(*v)))
			b = append(b, *v...)
		}
		if err := c.write('D', b); err != nil {
			return err
		}
	}
	if rs.Break {
		return io.ErrClosedPipe
	}
	if rs.Fail {
		return c.queryError(fmt.Errorf("injected fault"))
	}
	return c.write('C', []byte(fmt.Sprintf("SELECT %d\x00", len(rs.Vals))))
}

func readMsg(r *bufio.Reader) (byte, []byte, error) {
	var h [5]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return 0, nil, err
	}
	n := binary.BigEndian.Uint32(h[1:])
	if n < 4 || n > 1<<20 {
		return 0, nil, fmt.Errorf("bad length")
	}
	body := make([]byte, n-4)
	_, err := io.ReadFull(r, body)
	return h[0], body, err
}

// ---- TDS ----

func readTDS(r *bufio.Reader) (kind byte, body []byte, err error) {
	for {
		var h [8]byte
		if _, err = io.ReadFull(r, h[:]); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint16(h[2:]))
		if n < 8 {
			return 0, nil, fmt.Errorf("bad length")
		}
		b := make([]byte, n-8)
		if _, err = io.ReadFull(r, b); err != nil {
			return
		}
		kind = h[0]
		body = append(body, b...)
		if h[1]&1 != 0 {
			return
		}
	}
}

func (c *Conn) writeTDS(body []byte) error {
	h := []byte{4, 1, 0, 0, 0, 0, 1, 0}
	binary.BigEndian.PutUint16(h[2:], uint16(len(body)+8))
	_, err := c.c.Write(append(h, body...))
	return err
}

func ucs2(b []byte) string {
	u := make([]uint16, len(b)/2)
	for i := range u {
		u[i] = binary.LittleEndian.Uint16(b[2*i:])
	}
	return string(utf16.Decode(u))
}

func toUCS2(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = binary.LittleEndian.AppendUint16(b, u)
	}
	return b
}

var doneToken = []byte{0xFD, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}

func (s *Server) serveTDS(c *Conn) error {
	r := bufio.NewReader(c.c)
	for {
		kind, body, err := readTDS(r)
		if err != nil {
			return err
		}
		switch kind {
		case 0x12:
			// version, encryption not supported
			resp := []byte{0, 0, 11, 0, 6, 1, 0, 17, 0, 1, 0xFF, 16, 0, 0, 0, 0, 0, 2}
			if err := c.writeTDS(resp); err != nil {
				return err
			}
		case 0x10:
			l := Login{Params: map[string]string{}}
			field := func(at int, secret bool) string {
				if at+4 > len(body) {
					return ""
				}
				off, n := int(binary.LittleEndian.Uint16(body[at:])), int(binary.LittleEndian.Uint16(body[at+2:]))
				if off+2*n > len(body) {
					return ""
				}
				b := slices.Clone(body[off : off+2*n])
				if secret {
					for i := range b {
						b[i] ^= 0xA5
						b[i] = b[i]<<4 | b[i]>>4
					}
				}
				return ucs2(b)
			}
			l.Params["workstation id"] = field(36, false)
			l.Params["user"] = field(40, false)
			l.Password = field(44, true)
			l.Params["app name"] = field(48, false)
			l.Params["server"] = field(52, false)
			l.Params["database"] = field(68, false)
			if !s.login(l) {
				msg := toUCS2("Login failed")
				b := []byte{0, 0x48, 0, 0, 1, 14, byte(len(msg) / 2), 0}
				b = append(b, msg...)
				b = append(b, 0, 0, 0, 0, 0, 0)
				tok := append([]byte{0xAA, byte(len(b) - 1), 0}, b[1:]...)
				_ = c.writeTDS(append(tok, 0xFD, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0))
				return nil
			}
			name := toUCS2("fake")
			ack := append([]byte{1, 0x74, 0, 0, 4, byte(len(name) / 2)}, name...)
			ack = append(ack, 16, 0, 0, 0)
			tok := append([]byte{0xAD, byte(len(ack)), 0}, ack...)
			if err := c.writeTDS(append(tok, doneToken...)); err != nil {
				return err
			}
		default:
			if err := c.writeTDS(doneToken); err != nil {
				return err
			}
		}
	}
}
