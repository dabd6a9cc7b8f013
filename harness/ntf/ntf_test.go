package ntf

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/effective-security/x/values"
	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/fakepg"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/pkg/flake"
	"github.com/effective-security/xdb/pkg/notifier"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PG") || strings.HasPrefix(e, "XDB_") {
			os.Unsetenv(e[:strings.Index(e, "=")])
		}
	}
	vh.Main(m)
}

// what waits longer than this is taken as never coming; all of it is local
// and takes milliseconds.
const limit = 20 * time.Second

// sub is a listen and what its callback got.
type sub struct {
	l      *lsnr
	topic  string
	cancel context.CancelFunc
	want   []string // payloads sent while listening, in order

	wrong    *atomic.Bool // a callback of the case got what it should not get
	mu       sync.Mutex
	got      []notifier.Notification
	gate     chan struct{} // if set, the callback waits for it
	entered  chan struct{}
	slow     time.Duration
	canceled bool
	last     int // calls of the callback when the listener was closed, if it was held
}

func (s *sub) callback(n *notifier.Notification) {
	if n.Channel != s.topic {
		s.wrong.Store(true)
	}
	s.mu.Lock()
	s.got = append(s.got, *n)
	gate, entered := s.gate, s.entered
	slow := s.slow
	s.mu.Unlock()
	if gate != nil {
		select {
		case entered <- struct{}{}:
		default:
		}
		<-gate
	}
	if slow > 0 {
		time.Sleep(slow)
	}
}

func (s *sub) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.got)
}

type lsnr struct {
	n      notifier.Listener
	subs   map[string]*sub // active ones
	closed bool
	// channels whose listen ended with notifications on their way
	dirty map[string]bool
}

// notifierGoroutines is how many goroutines run code of the package.
func notifierGoroutines() int {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	c := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "/xdb/pkg/notifier.") {
			c++
		}
	}
	return c
}

var topics = []string{"a", "jobs", "Jobs", "my topic", `q"x`, "héé", "a.b", "x;y", "*", "job", strings.Repeat("long", 15), strings.Repeat("x", 63), strings.Repeat("é", 31)}

// full is the name the caller gives to a topic: the server cuts names to 63 bytes.
func full(topic string) string {
	switch len(topic) {
	case 62:
		return topic + "éé"
	case 63:
		return topic + "yz"
	}
	return topic
}

var payloadGen = rapid.Custom(func(t *rapid.T) string {
	switch rapid.IntRange(0, 6).Draw(t, "kind") {
	case 0:
		return rapid.SampledFrom([]string{"", "{}", "[]", "null", "0", "true", `"s"`, "[1,2]", "{", `{"a":1}x`, " {} ", "[{}]", `{"a":}`, `{"a":1,"a":2}`}).Draw(t, "fixed")
	case 1:
		return rapid.StringOfN(rapid.RuneFrom([]rune("ab{}[]\":,\\ é日\n1")), 0, 12, -1).Draw(t, "text")
	}
	if rapid.IntRange(0, 15).Draw(t, "long") == 5 {
		// the server takes less than 8000 bytes
		text := strings.Repeat(rapid.SampledFrom([]string{"x", "é", " ", "\\n", `\u00e9`}).Draw(t, "unit"), 7900)[:rapid.IntRange(200, 7900).Draw(t, "length")]
		text = strings.ToValidUTF8(strings.TrimRight(text, "\\u0e9"), "")
		return `{"text":"` + text + `"}`
	}
	m := rapid.MapOfN(rapid.StringN(0, 4, -1), rapid.OneOf(
		rapid.Map(rapid.IntRange(-1e9, 1e9), func(i int) any { return i }),
		rapid.Map(rapid.StringN(0, 6, -1), func(s string) any { return s }),
		rapid.Map(rapid.Bool(), func(b bool) any { return b }),
		rapid.Just(any(nil)),
		rapid.Just(any([]any{1, "x"})),
		rapid.Just(any(map[string]any{"n": 1.5})),
	), 0, 4).Draw(t, "map")
	b, err := json.Marshal(m)
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	if rapid.IntRange(0, 4).Draw(t, "spaces") == 0 {
		space := rapid.StringOfN(rapid.SampledFrom([]rune{' ', '\t', '\n', '\r'}), 0, 3, -1)
		return space.Draw(t, "before") + string(b) + space.Draw(t, "after")
	}
	return string(b)
})

// decoded is the oracle for the payload: the JSON object, or nothing.
func decoded(s string) map[string]any {
	var m map[string]any
	if json.Unmarshal([]byte(s), &m) != nil {
		return nil
	}
	return m
}

func samePayload(got values.MapAny, want map[string]any) bool {
	if len(got) == 0 && len(want) == 0 {
		return true
	}
	return reflect.DeepEqual(map[string]any(got), want)
}

type world struct {
	t       *rapid.T
	srv     *fakepg.Server
	prov    xdb.Provider
	ls      []*lsnr
	ended   []*sub
	seq     int
	refused map[string]bool
	rmu     sync.Mutex
	log     []string
	wrong   atomic.Bool
	// down makes the server refuse logins, accepted counts the others
	down     atomic.Bool
	accepted atomic.Int64
	// early is how many notifications come with the answer to LISTEN
	early     atomic.Int64
	earlyName func(topic string, j int) string
	// barriers counts the calls of barrier
	barriers int
}

// wait waits for a condition, or for a callback to be called wrongly. It gives up when no callback was called for the time limit.
func (w *world) wait(cond func() bool) bool {
	calls := func() int {
		n := 0
		for _, l := range w.ls {
			for _, s := range l.subs {
				n += s.count()
			}
		}
		return n
	}
	last, since := calls(), time.Now()
	for !fakepg.Wait(time.Second, func() bool { return w.wrong.Load() || cond() }) {
		if n := calls(); n != last {
			last, since = n, time.Now()
		} else if time.Since(since) > limit {
			return false
		}
	}
	return !w.wrong.Load()
}

func (w *world) note(format string, args ...any) { w.log = append(w.log, fmt.Sprintf(format, args...)) }

func (w *world) fail(format string, args ...any) {
	w.t.Helper()
	w.t.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(format, args...), strings.Join(w.log, "\n"))
}

// newWorld starts a server, a provider and listeners.
func newWorld(t *rapid.T, listeners int) *world {
	w := &world{t: t, refused: map[string]bool{}}
	srv, err := fakepg.Start()
	if err != nil {
		vh.Harness(t, "%v", err)
	}
	w.srv = srv
	srv.Refuse = func(fakepg.Login) bool {
		if w.down.Load() {
			return true
		}
		w.accepted.Add(1)
		return false
	}
	srv.FailQuery = func(q string) bool {
		w.rmu.Lock()
		defer w.rmu.Unlock()
		for ch := range w.refused {
			if strings.HasPrefix(q, "LISTEN ") && strings.Contains(q, strings.ReplaceAll(ch, `"`, `""`)) {
				return true
			}
		}
		return false
	}
	srv.Early = func(ch string) []string {
		var res []string
		for j := range int(w.early.Load()) {
			res = append(res, w.earlyName(ch, j))
		}
		return res
	}
	h, p := srv.Addr()
	dbName := rapid.SampledFrom([]string{"", "orders", "my db"}).Draw(t, "db")
	w.prov, err = xdb.NewProvider(fmt.Sprintf("postgres://u:secret@%s:%s/main?sslmode=disable", h, p), dbName, flake.DefaultIDGenerator, nil)
	if err != nil {
		srv.Close()
		t.Fatalf("NewProvider: %v", err)
	}
	logins := srv.Logins()
	for range listeners {
		minI := rapid.SampledFrom([]time.Duration{0, time.Millisecond}).Draw(t, "min")
		w.ls = append(w.ls, &lsnr{n: notifier.NewListener(w.prov, minI, 50*time.Millisecond), subs: map[string]*sub{}, dirty: map[string]bool{}})
	}
	var ll []fakepg.Login
	if !fakepg.Wait(limit, func() bool { ll = append(ll, srv.Logins()...); return len(ll) >= listeners }) {
		w.end()
		t.Fatalf("%d listeners made %d connections", listeners, len(ll))
	}
	for _, l := range ll {
		if l.Params["database"] != logins[0].Params["database"] || l.Params["user"] != "u" || l.Password != "secret" {
			w.end()
			t.Fatalf("the listener connects with %v, the provider with %v", l, logins[0])
		}
	}
	return w
}

// end frees everything, it is safe to call twice.
func (w *world) end() {
	for _, l := range w.ls {
		for _, s := range l.subs {
			s.open()
			s.cancel()
		}
		if !l.closed {
			l.closed = true
			_ = l.n.Close()
		}
	}
	for _, s := range w.ended {
		s.open()
		s.cancel()
	}
	_ = w.prov.Close()
	w.srv.Close()
}

// open lets a blocked callback go on.
func (s *sub) open() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.gate != nil {
		close(s.gate)
		s.gate = nil
	}
}

// block makes the callback wait from now on.
func (s *sub) block() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.gate = make(chan struct{})
	s.entered = make(chan struct{}, 1)
}

func (w *world) listen(l *lsnr, topic string, slow time.Duration) {
	if l.dirty[topic] && !l.closed {
		w.barrier(l)
		delete(l.dirty, topic)
	}
	ctx, cancel := context.WithCancel(context.Background())
	s := &sub{l: l, topic: topic, cancel: cancel, slow: slow, wrong: &w.wrong}
	old := l.subs[topic]
	w.rmu.Lock()
	refuse := w.refused[topic]
	w.rmu.Unlock()
	var err error
	// the end of an earlier listen is not awaited by anyone
	deadline := time.Now().Add(limit)
	for {
		err = w.within("Listen", func() error { return l.n.Listen(ctx, full(topic), s.callback) })
		if err == nil || old != nil || refuse || l.closed || time.Now().After(deadline) {
			break
		}
		time.Sleep(200 * time.Microsecond)
	}
	w.note("listen %q: %v", topic, err)
	wantErr := old != nil || refuse || l.closed
	if (err != nil) != wantErr {
		cancel()
		w.fail("Listen(%q) returned %v, already listening: %v, refused by the server: %v, closed: %v", topic, err, old != nil, refuse, l.closed)
	}
	if err != nil {
		cancel()
		return
	}
	l.subs[topic] = s
}

// barrier waits until the listener has read all that was sent to it: what was
// sent before an earlier listen of a channel ended may be read after it, and
// belongs to the channel. The notifications of a connection come in order.
func (w *world) barrier(l *lsnr) {
	w.barriers++
	topic := fmt.Sprintf("~~%d~~", w.barriers) // contains no topic: see FailQuery
	ctx, cancel := context.WithCancel(context.Background())
	s := &sub{l: l, topic: topic, cancel: cancel, wrong: &w.wrong}
	w.ended = append(w.ended, s)
	deadline := time.Now().Add(limit)
	for {
		err := w.within("Listen", func() error { return l.n.Listen(ctx, topic, s.callback) })
		if err == nil {
			break
		}
		if time.Now().After(deadline) {
			w.fail("Listen(%q) returned %v", topic, err)
		}
		time.Sleep(200 * time.Microsecond)
	}
	w.srv.Notify(topic, `{"n":1}`)
	if !w.wait(func() bool { return s.count() > 0 }) {
		w.fail("no notification reaches the callback of %q", topic)
	}
	cancel()
	if !fakepg.Wait(limit, func() bool { return w.srv.Channels()[topic] == 0 }) {
		w.fail("the server still has a listener for %q after the context was cancelled", topic)
	}
}

// within runs f, which must return in time.
func (w *world) within(what string, f func() error) error {
	done := make(chan error, 1)
	go func() { done <- f() }()
	select {
	case err := <-done:
		return err
	case <-time.After(limit):
		w.fail("%s does not return", what)
		return nil
	}
}

func (w *world) notify(topic, payload string, probe bool) {
	n := 0
	for _, l := range w.ls {
		if s := l.subs[topic]; s != nil {
			n++
			if !probe {
				s.want = append(s.want, payload)
			}
		}
	}
	if got := w.srv.Notify(topic, payload); got < n && !probe {
		w.fail("%d connections listen to %q, want %d", got, topic, n)
	}
}

// settle waits until every notification sent was delivered.
func (w *world) settle() {
	for _, l := range w.ls {
		for _, s := range l.subs {
			w.wait(func() bool { return s.count() >= len(s.want) })
			w.check(s, true)
		}
	}
}

// check compares what the callback got with what was sent; all: nothing is missing.
func (w *world) check(s *sub, all bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var raw []string
	for _, n := range s.got {
		if n.Channel != s.topic {
			w.fail("the callback of %q got a notification of %q", s.topic, n.Channel)
		}
		if !samePayload(n.Payload, decoded(n.RawPayload)) {
			w.fail("the payload %q was decoded to %v, want %v", n.RawPayload, n.Payload, decoded(n.RawPayload))
		}
		raw = append(raw, n.RawPayload)
	}
	if len(raw) > len(s.want) || !slices.Equal(raw, s.want[:len(raw)]) || all && len(raw) != len(s.want) {
		w.fail("the callback of %q got %d notifications\n%q\nsent were %d\n%q", s.topic, len(raw), raw, len(s.want), s.want)
	}
}

// cancelSub ends a listen. If hard, notifications are still queued, and none
// of them may be delivered.
func (w *world) cancelSub(s *sub, hard bool) {
	w.note("cancel %q, pending notifications: %v", s.topic, hard)
	if !hard {
		w.wait(func() bool { return s.count() >= len(s.want) })
		w.check(s, true)
		s.cancel()
	} else {
		w.wait(func() bool { return s.count() >= len(s.want) })
		w.check(s, true)
		s.block()
		for range rapid.IntRange(2, 90).Draw(w.t, "pending") {
			w.notify(s.topic, `{"pending":1}`, false)
		}
		select {
		case <-s.entered:
		case <-time.After(limit):
			w.fail("no notification reaches the callback of %q", s.topic)
		}
		time.Sleep(time.Duration(rapid.IntRange(0, 500).Draw(w.t, "pause")) * time.Microsecond)
		s.cancel()
		n := s.count()
		s.open()
		defer func() {
			if now := s.count(); now != n {
				w.fail("%d notifications of %q were delivered after the context was cancelled", now-n, s.topic)
			}
		}()
	}
	delete(s.l.subs, s.topic)
	if hard {
		s.l.dirty[s.topic] = true
	}
	w.ended = append(w.ended, s)
	want := 0
	for _, l := range w.ls {
		if l.subs[s.topic] != nil {
			want++
		}
	}
	if !fakepg.Wait(limit, func() bool { return w.srv.Channels()[s.topic] <= want }) {
		w.fail("the server still has a listener for %q after the context was cancelled", s.topic)
	}
}

// drop breaks all the connections, and waits until the listens work again.
func (w *world) drop() { w.outage(0) }

// outage is a drop after which the server refuses connections for a while.
func (w *world) outage(d time.Duration) {
	w.settle()
	// one callback is busy, and what the listener has read already waits for it
	var held *sub
	if subs := w.active(); len(subs) > 0 && rapid.Bool().Draw(w.t, "held") {
		held = rapid.SampledFrom(subs).Draw(w.t, "which")
		n := rapid.SampledFrom([]int{2, 50, 2, 50, 2, 50, 1600, 2, 50, 2, 50, 2, 50, 12000}).Draw(w.t, "waiting")
		if held.slow > 0 {
			n = min(n, 1600)
		}
		w.hold(held, n)
	}
	w.note("connections are lost, notifications wait for a callback: %v", held != nil)
	w.accepted.Store(0)
	w.down.Store(d > 0)
	w.srv.Drop()
	if d > 0 {
		time.Sleep(d)
		w.down.Store(false)
	}
	open := 0
	for _, l := range w.ls {
		if !l.closed {
			open++
		}
	}
	if !fakepg.Wait(limit, func() bool { return int(w.accepted.Load()) >= open }) {
		w.fail("%d of %d listeners connect again after the connection was lost", w.accepted.Load(), open)
	}
	if held != nil {
		w.barrier(held.l)
		held.open()
		w.settle()
	}
	for i := 0; ; i++ {
		missing := 0
		for _, l := range w.ls {
			for _, s := range l.subs {
				if s.count() <= len(s.want) {
					missing++
				}
			}
		}
		if missing == 0 {
			break
		}
		if i > 2000 {
			w.fail("%d listens do not work again after the connection was lost", missing)
		}
		for _, topic := range topics {
			w.notify(topic, "probe", true)
		}
		time.Sleep(5 * time.Millisecond)
	}
	// what was sent meanwhile may be lost; a last one ends it
	for _, topic := range topics {
		w.notify(topic, "end of probes", true)
	}
	for _, l := range w.ls {
		for _, s := range l.subs {
			if !fakepg.Wait(limit, func() bool {
				s.mu.Lock()
				defer s.mu.Unlock()
				return s.got[len(s.got)-1].RawPayload == "end of probes"
			}) {
				w.fail("the listen of %q does not work after the connection was lost", s.topic)
			}
			s.mu.Lock()
			probes := s.got[len(s.want):]
			for _, n := range probes[:len(probes)-1] {
				if n.RawPayload != "probe" || n.Channel != s.topic {
					s.mu.Unlock()
					w.fail("the callback of %q got %v after the connection was lost", s.topic, n)
				}
			}
			s.got = s.got[:len(s.want)]
			s.mu.Unlock()
		}
	}
}

// active are the listens which go on, in order.
func (w *world) active() []*sub {
	var res []*sub
	for _, l := range w.ls {
		for _, topic := range topics {
			if s := l.subs[topic]; s != nil {
				res = append(res, s)
			}
		}
	}
	return res
}

// hold makes the callback wait with the first of n notifications; the listener has read all of them.
func (w *world) hold(s *sub, n int) {
	w.wait(func() bool { return s.count() >= len(s.want) })
	s.block()
	for range n {
		w.seq++
		w.notify(s.topic, fmt.Sprintf(`{"seq":%d}`, w.seq), false)
	}
	select {
	case <-s.entered:
	case <-time.After(limit):
		w.fail("no notification reaches the callback of %q", s.topic)
	}
	w.barrier(s.l)
}

func (w *world) closeListener(l *lsnr, pending bool) {
	var held *sub
	if pending {
		subs := slices.DeleteFunc(w.active(), func(s *sub) bool { return s.l != l })
		if len(subs) > 0 && rapid.Bool().Draw(w.t, "held") {
			held = rapid.SampledFrom(subs).Draw(w.t, "which")
			w.hold(held, rapid.SampledFrom([]int{2, 50}).Draw(w.t, "waiting"))
		}
	}
	if !pending {
		for _, s := range l.subs {
			w.wait(func() bool { return s.count() >= len(s.want) })
			w.check(s, true)
		}
	}
	w.note("close, pending notifications: %v", pending)
	err := w.within("Close", l.n.Close)
	if err != nil {
		w.fail("Close returned %v", err)
	}
	l.closed = true
	if held != nil {
		held.last = held.count()
		held.open()
	}
	for _, s := range l.subs {
		w.check(s, false)
		w.ended = append(w.ended, s)
	}
	l.subs = map[string]*sub{}
}

// TestC33_History: listens, notifications, cancels, lost connections and closes.
func TestC33_History(t *testing.T) {
	vh.Run(t, 150, 2500,
		"one or two listeners on a server of the harness, up to 14 operations: listen (also twice, or refused by the server), notifications with any payload in bursts of up to 2500 over several channels, cancel with and without pending notifications, connection loss and close, also while notifications wait for a busy callback; non-trivial: two channels at once got notifications",
		func(t *rapid.T, c *vh.Case) {
			base := notifierGoroutines()
			w := newWorld(t, rapid.IntRange(1, 2).Draw(t, "listeners"))
			defer w.end()
			use := rapid.Permutation(topics).Draw(t, "topics")[:rapid.IntRange(2, 4).Draw(t, "ntopics")]
			both := false
			n := rapid.IntRange(4, 14).Draw(t, "ops")
			for range n {
				l := w.ls[rapid.IntRange(0, len(w.ls)-1).Draw(t, "listener")]
				topic := rapid.SampledFrom(use).Draw(t, "topic")
				op := rapid.IntRange(0, 11).Draw(t, "op")
				s := l.subs[topic]
				switch {
				case op <= 3:
					if op == 0 && s == nil {
						w.rmu.Lock()
						w.refused[topic] = true
						w.rmu.Unlock()
						w.listen(l, topic, 0)
						w.rmu.Lock()
						delete(w.refused, topic)
						w.rmu.Unlock()
						c.Class("refused")
						break
					}
					c.ClassIf(s != nil, "listen twice")
					w.listen(l, topic, time.Duration(rapid.SampledFrom([]int{0, 0, 50, 300}).Draw(t, "slow"))*time.Microsecond)
				case op <= 7:
					k := rapid.SampledFrom([]int{1, 3, 10, 120, 1, 3, 10, 30, 120, 1, 3, 10, 60, 120, 120, 1, 3, 2500}).Draw(t, "burst")
					w.note("%d notifications", k)
					p := rapid.SliceOfN(payloadGen, min(k, 4), min(k, 4)).Draw(t, "payloads")
					start := rapid.IntRange(0, len(use)-1).Draw(t, "first")
					for i := range k {
						w.seq++
						pl := p[i%len(p)]
						if i >= len(p) {
							pl = fmt.Sprintf(`{"seq":%d}`, w.seq)
						}
						w.notify(use[(start+i)%len(use)], pl, false)
					}
					for _, l := range w.ls {
						both = both || len(l.subs) > 1 && k > 1
					}
					if rapid.Bool().Draw(t, "settle") {
						w.settle()
					}
				case op <= 9:
					if s != nil {
						hard := rapid.Bool().Draw(t, "hard")
						c.ClassIf(hard, "cancel with pending notifications")
						c.Class("cancel")
						w.cancelSub(s, hard)
					}
				case op == 10:
					if !l.closed {
						w.drop()
						c.Class("connection lost")
					}
				default:
					if !l.closed {
						w.closeListener(l, rapid.Bool().Draw(t, "pending"))
						c.Class("closed early")
					} else {
						_ = w.within("Close", l.n.Close)
					}
				}
				runtime.Gosched()
			}
			w.settle()
			for _, s := range w.ended {
				w.check2(s)
			}
			for _, l := range w.ls {
				if !l.closed {
					w.closeListener(l, false)
				}
			}
			// the callbacks have returned, the contexts are not all cancelled
			if !fakepg.Wait(limit, func() bool { return notifierGoroutines() <= base }) {
				w.fail("%d goroutines of the listener run after Close", notifierGoroutines()-base)
			}
			for _, s := range w.ended {
				if n := s.count(); s.last > 0 && n > s.last {
					w.fail("%d notifications of %q were delivered after the listener was closed", n-s.last, s.topic)
				}
			}
			if err := w.prov.Close(); err != nil {
				w.fail("Close of the provider: %v", err)
			}
			if !w.srv.WaitClosed(limit) {
				w.fail("%d connections are open after Close", w.srv.Open())
			}
			c.NonTrivial(both, strings.Join(w.log, ";"))
		})
}

// check2: an ended listen got nothing which it should not have.
func (w *world) check2(s *sub) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, n := range s.got {
		if n.Channel != s.topic {
			w.fail("the callback of %q got a notification of %q", s.topic, n.Channel)
		}
	}
}

// TestC33_Concurrent: listens and notifications at the same time.
func TestC33_Concurrent(t *testing.T) {
	vh.Run(t, 60, 1000,
		"several goroutines listen to their channels on one listener while each channel is sent notifications from the moment the server has the listen, in half of the cases some with the answer to it; every channel gets its own, in order; non-trivial: all",
		func(t *rapid.T, c *vh.Case) {
			w := newWorld(t, 1)
			defer w.end()
			l := w.ls[0]
			use := rapid.Permutation(topics).Draw(t, "topics")[:rapid.IntRange(2, 6).Draw(t, "ntopics")]
			per := rapid.IntRange(1, 60).Draw(t, "each")
			slow := time.Duration(rapid.SampledFrom([]int{0, 20, 200}).Draw(t, "slow")) * time.Microsecond
			early := 0
			if rapid.Bool().Draw(t, "early?") {
				early = rapid.SampledFrom([]int{1, 2, 10, 90, 300}).Draw(t, "early")
				// connected: what comes while the listener is connecting may be lost
				w.barrier(l)
				c.Class("notifications before Listen returns")
			}
			name := func(topic string, j int) string { return fmt.Sprintf(`{"t":%q,"n":%d}`, topic, j) }
			w.earlyName = func(topic string, j int) string { return name(topic, -1-j) }
			w.early.Store(int64(early))
			var wg sync.WaitGroup
			subs := make([]*sub, len(use))
			errs := make([]error, len(use))
			for i, topic := range use {
				ctx, cancel := context.WithCancel(context.Background())
				subs[i] = &sub{l: l, topic: topic, cancel: cancel, slow: slow, wrong: &w.wrong}
				for j := range early {
					subs[i].want = append(subs[i].want, name(topic, -1-j))
				}
				w.ended = append(w.ended, subs[i])
				wg.Go(func() {
					errs[i] = l.n.Listen(ctx, full(topic), subs[i].callback)
					if errs[i] != nil {
						return
					}
					for j := range per {
						pl := name(topic, j)
						subs[i].want = append(subs[i].want, pl)
						w.srv.Notify(topic, pl)
						if j%8 == 0 {
							runtime.Gosched()
						}
					}
				})
			}
			if w.within("Listen", func() error { wg.Wait(); return nil }); slices.ContainsFunc(errs, func(e error) bool { return e != nil }) {
				w.fail("Listen: %v", errs)
			}
			for _, s := range subs {
				w.wait(func() bool { return s.count() >= len(s.want) })
				w.check(s, true)
			}
			c.NonTrivial(true, fmt.Sprint(use, per, slow, early))
		})
}

// Nothing happens for more than the minute after which the listener checks
// its connection. These have processes of their own.
func TestC33_Quiet(t *testing.T)       { quiet(t, "no") }
func TestC33_QuietBefore(t *testing.T) { quiet(t, "before") }
func TestC33_QuietDown(t *testing.T)   { quiet(t, "meanwhile") }
func TestC33_QuietAfter(t *testing.T)  { quiet(t, "after") }

func quiet(t *testing.T, lost string) {
	vh.Run(t, 1, 1, "connection lost: "+lost+"; three listeners, each listens to 2 to 4 channels, 62 s without a notification on most of them, then notifications on all, cancel and close; non-trivial: all",
		func(t *rapid.T, c *vh.Case) {
			base := notifierGoroutines()
			w := newWorld(t, 3)
			defer w.end()
			busy := rapid.SampledFrom(topics).Draw(t, "busy")
			for _, l := range w.ls {
				for _, topic := range rapid.Permutation(topics).Draw(t, "topics")[:rapid.IntRange(2, 4).Draw(t, "ntopics")] {
					w.listen(l, topic, 0)
				}
			}
			if lost == "before" {
				w.drop()
			}
			for i := range 62 {
				if lost == "meanwhile" && i == 56 {
					w.outage(6 * time.Second)
					break
				}
				time.Sleep(time.Second)
				w.notify(busy, fmt.Sprintf(`{"second":%d}`, i), false)
			}
			for i := range 2 {
				if i == 1 && lost == "after" {
					w.drop()
				}
				for i, topic := range topics {
					w.notify(topic, fmt.Sprintf(`{"after":%d}`, i), false)
				}
				w.settle()
			}
			for i, l := range w.ls {
				if i == 0 {
					for _, s := range l.subs {
						w.cancelSub(s, false)
						break
					}
				}
				w.closeListener(l, false)
			}
			if !fakepg.Wait(limit, func() bool { return notifierGoroutines() <= base }) {
				w.fail("%d goroutines of the listener run after Close", notifierGoroutines()-base)
			}
			c.Class("connection lost: " + lost)
			c.NonTrivial(true, fmt.Sprint(lost, busy))
		})
}
