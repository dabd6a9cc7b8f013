package fl

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/verif/fakedb"
	"github.com/effective-security/xdb/internal/verif/vh"
	"github.com/effective-security/xdb/pkg/flake"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// clock is a wall clock which can be set; it goes on with the time of the bubble.
type clock struct {
	off   time.Duration
	fixed bool
	at    time.Time
	reads int
}

func (c *clock) now() time.Time {
	c.reads++
	if c.fixed {
		return c.at
	}
	return time.Now().Add(c.off)
}

func (c *clock) freeze()   { c.at, c.fixed = c.now(), true }
func (c *clock) unfreeze() { c.off, c.fixed = c.at.Sub(time.Now()), false }
func (c *clock) jump(d time.Duration) {
	c.off += d
	c.at = c.at.Add(d)
}

func newGen(start time.Time, machine uint16) flake.IDGenerator {
	return flake.NewIDGenerator(flake.Settings{
		StartTime: start,
		MachineID: func() (uint16, error) { return machine, nil },
	})
}

func panics(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// drawJump is a step of the wall clock.
func drawJump(rt *rapid.T) time.Duration {
	unit := rapid.SampledFrom([]time.Duration{time.Microsecond, time.Millisecond, time.Millisecond, time.Second, time.Hour, 24 * time.Hour}).Draw(rt, "unit")
	n := rapid.Int64Range(-400, 400).Draw(rt, "n")
	return time.Duration(n) * unit
}

type gen struct {
	g       flake.IDGenerator
	machine uint16
	start   time.Time
	last    uint64
	lastT   int64
	first   uint64
	// prov and tx are a provider which uses the generator, and a transaction of it, or nil
	prov, tx xdb.Provider
}

// next asks the generator, or the provider or its transaction.
func (g *gen) next(rt *rapid.T) func() uint64 {
	if g.prov == nil {
		return g.g.NextID
	}
	switch rapid.IntRange(0, 2).Draw(rt, "by") {
	case 0:
		return g.g.NextID
	case 1:
		return func() uint64 { return g.prov.NextID().UInt64() }
	}
	return func() uint64 { return g.tx.NextID().UInt64() }
}

func (g *gen) close() {
	if g.prov != nil {
		_ = g.tx.Close()
		_ = g.prov.Close()
	}
}

const ms = int64(time.Millisecond)

// histories: one clock, a few generators, no concurrency; every id is checked.
func history(rt *rapid.T, c *vh.Case, check func(g *gen, id uint64, before, after time.Time, monotone bool)) {
	cl := &clock{}
	old := flake.NowFunc
	defer func() { flake.NowFunc = old }()
	flake.NowFunc = cl.now
	// the bubble starts in 2000
	cl.off = time.Duration(rapid.Int64Range(0, int64(60*365*24*time.Hour)).Draw(rt, "epoch"))
	var gens []*gen
	provs := 0
	seen := map[uint64]int{}
	for i := range rapid.IntRange(1, 3).Draw(rt, "generators") {
		back := time.Duration(rapid.OneOf(
			rapid.Int64Range(0, 5*ms),
			rapid.Int64Range(0, int64(8*365*24*time.Hour)),
			rapid.Int64Range(0, int64(69*365*24*time.Hour)),
		).Draw(rt, "age"))
		now := cl.now()
		if lim := now.Sub(time.Unix(0, 0)); back > lim {
			back = lim
		}
		m := uint16(rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 65535)).Draw(rt, "machine"))
		for _, o := range gens {
			if o.machine == m {
				m++
			}
		}
		for _, o := range gens {
			if o.machine == m {
				m++
			}
		}
		start := now.Add(-back)
		g := &gen{g: newGen(start, m), machine: m, start: start}
		g.last = flake.FirstID(g.g)
		g.lastT = flake.IDTime(g.g, g.last).UnixMilli()
		seen[g.last] = i
		g.first = g.last
		if rapid.IntRange(0, 2).Draw(rt, "provider") == 0 {
			prov, err := xdb.New("postgres", (&fakedb.DB{}).Open(), g.g)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			g.prov = prov
			if g.tx, err = prov.BeginTx(context.Background(), nil); err != nil {
				rt.Fatalf("%v", err)
			}
			defer g.close()
			provs++
		}
		gens = append(gens, g)
	}
	monotone := true
	back, wraps, total := 0, 0, 0
	var log []string
	for range rapid.IntRange(1, 12).Draw(rt, "steps") {
		switch rapid.IntRange(0, 9).Draw(rt, "op") {
		case 0:
			d := drawJump(rt)
			if provs > 0 {
				// a provider pings every minute
				d %= 10 * time.Minute
			}
			if d < 0 {
				monotone = false
				back++
			}
			cl.jump(d)
			log = append(log, fmt.Sprint("jump ", d))
		case 1:
			if cl.fixed {
				cl.unfreeze()
			} else {
				cl.freeze()
				monotone = false
			}
			log = append(log, "freeze/unfreeze")
		case 2:
			d := time.Duration(rapid.IntRange(0, 5000).Draw(rt, "us")) * time.Microsecond
			time.Sleep(d)
			log = append(log, fmt.Sprint("sleep ", d))
		default:
			g := gens[rapid.IntRange(0, len(gens)-1).Draw(rt, "which")]
			n := rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(60, 300)).Draw(rt, "ids")
			next := g.next(rt)
			for range n {
				before := cl.now()
				id := next()
				after := cl.now()
				if o, ok := seen[id]; ok {
					rt.Fatalf("id %d is returned twice (%d)\n%s", id, o, strings.Join(log, "; "))
				}
				seen[id] = 1
				if id <= g.last {
					rt.Fatalf("id %d after %d\n%s", id, g.last, strings.Join(log, "; "))
				}
				check(g, id, before, after, monotone)
				if flake.FirstID(g.g) != g.first || flake.LastID(g.g) != id {
					rt.Fatalf("the first and last ids are %d and %d, not %d and %d", flake.FirstID(g.g), flake.LastID(g.g), g.first, id)
				}
				if g.prov != nil {
					want := flake.IDTime(g.g, id)
					if a, b := g.prov.IDTime(id), g.tx.IDTime(id); !a.Equal(want) || !b.Equal(want) {
						rt.Fatalf("the time of %d is %s, by the provider %s, by the transaction %s", id, want, a, b)
					}
				}
				g.last = id
				g.lastT = flake.IDTime(g.g, id).UnixMilli()
			}
			if n >= 65 {
				wraps++
			}
			total += n
			log = append(log, fmt.Sprintf("%d ids", n))
		}
	}
	c.ClassIf(back > 0, "clock steps back")
	c.ClassIf(wraps > 0, "sequence wraps")
	c.ClassIf(back > 0 && wraps > 0, "clock steps back and sequence wraps")
	c.ClassIf(len(gens) > 1, "several generators")
	c.ClassIf(provs > 0, "by a provider and its transaction")
	c.NonTrivial(total > 64, strings.Join(log, ";")+gens[0].start.String())
}

func TestC01_Histories(t *testing.T) {
	vh.Run(t, 1500, 20000, "histories of up to 12 steps of: jump the clock, freeze it, let it run, ask one of up to 3 generators for up to 300 ids, in virtual time; non-trivial: more than 64 ids",
		func(rt *rapid.T, c *vh.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				history(rt, c, func(*gen, uint64, time.Time, time.Time, bool) {})
			})
		})
}

// Real goroutines and a clock which jitters; it yields at random inside of the generator.
func TestC01_Concurrent(t *testing.T) {
	vh.Run(t, 60, 1500, "2 to 16 goroutines ask one or two generators for 100 to 400 ids each, while the clock jumps up to 3 ms back and forth and yields the processor in the middle of a step; every goroutine's ids increase, an id asked for after another one was returned is greater, and no two are equal; non-trivial: more than two goroutines",
		func(rt *rapid.T, c *vh.Case) {
			old := flake.NowFunc
			defer func() { flake.NowFunc = old }()
			jitter := rapid.SampledFrom([]int64{0, int64(100 * time.Microsecond), 3 * ms}).Draw(rt, "jitter")
			yield := rapid.IntRange(0, 4).Draw(rt, "yield")
			frozen := rapid.IntRange(0, 3).Draw(rt, "frozen") == 0
			var t0 atomic.Int64
			var n atomic.Int64
			flake.NowFunc = func() time.Time {
				k := n.Add(1)
				for range yield {
					runtime.Gosched()
				}
				if frozen && k%100 < 50 {
					// stands still for 50 readings
					t0.CompareAndSwap(0, time.Now().UnixNano())
					return time.Unix(0, t0.Load())
				}
				t0.Store(0)
				if jitter == 0 {
					return time.Now()
				}
				return time.Now().Add(time.Duration(rand.Int64N(2*jitter) - jitter))
			}
			ng := rapid.IntRange(1, 2).Draw(rt, "generators")
			var gens []flake.IDGenerator
			for i := range ng {
				gens = append(gens, newGen(time.Now().Add(-time.Hour), uint16(i)))
			}
			workers := rapid.IntRange(2, 16).Draw(rt, "goroutines")
			per := rapid.IntRange(100, 400).Draw(rt, "ids")
			res := make([][]uint64, workers)
			var maxSeen [2]atomic.Uint64
			var bad atomic.Pointer[string]
			var wg sync.WaitGroup
			for w := range workers {
				wg.Add(1)
				go func() {
					defer wg.Done()
					gi := w % ng
					for range per {
						low := maxSeen[gi].Load()
						id := gens[gi].NextID()
						if id <= low {
							s := fmt.Sprintf("id %d was asked for after %d was returned", id, low)
							bad.Store(&s)
							return
						}
						for {
							m := maxSeen[gi].Load()
							if m >= id || maxSeen[gi].CompareAndSwap(m, id) {
								break
							}
						}
						res[w] = append(res[w], id)
					}
				}()
			}
			wg.Wait()
			if s := bad.Load(); s != nil {
				rt.Fatalf("%s", *s)
			}
			all := map[uint64]bool{}
			for w, ids := range res {
				for i, id := range ids {
					if i > 0 && id <= ids[i-1] {
						rt.Fatalf("goroutine %d: id %d after %d", w, id, ids[i-1])
					}
					if all[id] {
						rt.Fatalf("id %d is returned twice", id)
					}
					all[id] = true
				}
			}
			c.ClassIf(jitter > 0, "jitter")
			c.ClassIf(frozen, "frozen clock")
			c.NonTrivial(workers > 2, fmt.Sprintf("%d goroutines x %d ids, %d generators, jitter %dns, frozen %v, yield %d", workers, per, ng, jitter, frozen, yield))
		})
}

func TestC02_Layout(t *testing.T) {
	vh.Run(t, 1500, 20000, "the histories of C01 with generated start times, machine ids and clocks; every id is taken apart and compared with the clock read before and after; non-trivial: more than 64 ids",
		func(rt *rapid.T, c *vh.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				history(rt, c, func(g *gen, id uint64, before, after time.Time, monotone bool) {
					checkParts(rt, g, id)
					got := flake.IDTime(g.g, id)
					low := before.UnixMilli()
					if got.UnixMilli() < low {
						rt.Fatalf("id time %s is before the clock %s", got, before)
					}
					// not later than the clock, unless the generator is ahead of the clock already
					if hi := max(after.UnixMilli(), g.lastT+1); got.UnixMilli() > hi {
						rt.Fatalf("id time %s is after the clock %s", got, after)
					}
					if low > g.lastT && got.UnixMilli() != low {
						rt.Fatalf("id time %s, clock %s", got, before)
					}
					// a clock which never steps back nor stops: no id of the future
					if monotone && got.UnixMilli() > after.UnixMilli() {
						rt.Fatalf("id time %s is ahead of the clock %s", got, after)
					}
				})
			})
		})
}

func checkParts(rt *rapid.T, g *gen, id uint64) {
	p := flake.Decompose(id)
	if id > flake.MaxValue || p["msb"] != 0 {
		rt.Fatalf("id %d is out of range", id)
	}
	if p["id"] != id || p["machine_id"] != uint64(g.machine) {
		rt.Fatalf("parts of id %d: %v, machine id %d", id, p, g.machine)
	}
	if p["sequence"] > uint64(flake.MaskSequence16) {
		rt.Fatalf("sequence of id %d: %v", id, p)
	}
	back := p["time"]<<(flake.BitLenSequence+flake.BitLenMachineID) | p["sequence"]<<flake.BitLenMachineID | p["machine_id"]
	if back != id {
		rt.Fatalf("parts of id %d do not make it: %v", id, p)
	}
	if want := g.start.UnixMilli() + int64(p["time"]); flake.IDTime(g.g, id).UnixMilli() != want {
		rt.Fatalf("time of id %d: %s, expected %s", id, flake.IDTime(g.g, id), time.UnixMilli(want))
	}
	if flake.LastID(g.g) != id {
		rt.Fatalf("last id %d, expected %d", flake.LastID(g.g), id)
	}
}

// The end of the representable time.
func TestC02_Limit(t *testing.T) {
	vh.Run(t, 400, 4000, "generators started close to the end of the 41-bit time, which then run over it by the clock or by the sequence; every id before the end is valid, and at the end it panics, each time; non-trivial: the limit is reached",
		func(rt *rapid.T, c *vh.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				cl := &clock{off: 40 * 365 * 24 * time.Hour}
				old := flake.NowFunc
				defer func() { flake.NowFunc = old }()
				flake.NowFunc = cl.now
				left := rapid.Int64Range(1, 20).Draw(rt, "left")
				start := cl.now().Truncate(time.Millisecond).Add(-time.Duration((1<<flake.BitLenTime)-left) * time.Millisecond)
				g := &gen{g: newGen(start, 7), machine: 7, start: start}
				g.last = flake.FirstID(g.g)
				hit := false
				for range rapid.IntRange(1, 40).Draw(rt, "steps") {
					switch rapid.IntRange(0, 2).Draw(rt, "op") {
					case 0:
						cl.jump(time.Duration(rapid.IntRange(-3, 8).Draw(rt, "ms")) * time.Millisecond)
					case 1:
						if cl.fixed {
							cl.unfreeze()
						} else {
							cl.freeze()
						}
					}
					for range rapid.IntRange(1, 200).Draw(rt, "ids") {
						over := cl.now().UnixMilli()-start.UnixMilli() >= 1<<flake.BitLenTime
						var id uint64
						p := panics(func() { id = g.g.NextID() })
						if p != nil {
							if !over && uint64(flake.IDTime(g.g, g.last).UnixMilli()-start.UnixMilli()) < 1<<flake.BitLenTime-1 && !hit {
								rt.Fatalf("panic before the end of the time: %v", p)
							}
							hit = true
							continue
						}
						if over || hit {
							rt.Fatalf("id %d after the end of the time", id)
						}
						if id <= g.last {
							rt.Fatalf("id %d after %d", id, g.last)
						}
						g.last = id
						checkParts(rt, g, id)
					}
				}
				c.NonTrivial(hit, fmt.Sprint(left, cl.reads))
			})
		})
}

// Settings: which are accepted, and that the checks see the machine id.
func TestC02_Settings(t *testing.T) {
	vh.Run(t, 1500, 15000, "generated settings: start in the past, now or in the future, machine id given, failing or rejected; the generator is made exactly if all is fine; non-trivial: always",
		func(rt *rapid.T, c *vh.Case) {
			rapid.SyncTest(rt, func(rt *rapid.T) {
				cl := &clock{off: 30 * 365 * 24 * time.Hour}
				old := flake.NowFunc
				defer func() { flake.NowFunc = old }()
				flake.NowFunc = cl.now
				off := time.Duration(rapid.OneOf(
					rapid.SampledFrom([]int64{0, 1, -1, ms, -ms}),
					rapid.Int64Range(-60*365*24*int64(time.Hour), 60*365*24*int64(time.Hour)),
				).Draw(rt, "start"))
				m := uint16(rapid.IntRange(0, 65535).Draw(rt, "machine"))
				kind := rapid.SampledFrom([]string{"ok", "ok", "error", "rejected", "checked", "zero"}).Draw(rt, "kind")
				st := flake.Settings{StartTime: cl.now().Add(off), MachineID: func() (uint16, error) { return m, nil }}
				want := off <= 0
				var saw []uint16
				switch kind {
				case "error":
					st.MachineID = func() (uint16, error) { return m, errors.New("none") }
					want = false
				case "rejected":
					st.CheckMachineID = func(v uint16) bool { saw = append(saw, v); return false }
					want = false
				case "checked":
					st.CheckMachineID = func(v uint16) bool { saw = append(saw, v); return v == m }
				case "zero":
					st.StartTime = time.Time{}
					want = true
				}
				var g flake.IDGenerator
				p := panics(func() { g = flake.NewIDGenerator(st) })
				if (p == nil) != want {
					rt.Fatalf("%s, start %s after now: panic %v", kind, off, p)
				}
				if off <= 0 && (kind == "rejected" || kind == "checked") && (len(saw) != 1 || saw[0] != m) {
					rt.Fatalf("the check saw %v, machine id %d", saw, m)
				}
				if p == nil {
					start := st.StartTime
					if kind == "zero" {
						start = flake.DefaultStartTime
					}
					x := &gen{g: g, machine: m, start: start}
					id := g.NextID()
					checkParts(rt, x, id)
					if f := flake.FirstID(g); f == 0 || f >= id {
						rt.Fatalf("first id %d, next id %d", f, id)
					}
				}
				c.Class(kind)
				c.ClassIf(off > 0, "start in the future")
				c.NonTrivial(true, fmt.Sprint(kind, off, m))
			})
		})
}

// Decomposing any number, and the time of ids of other generators.
func TestC02_Decompose(t *testing.T) {
	vh.Run(t, 3000, 40000, "arbitrary 63-bit ids: the parts make the id; the time of the id grows with it; the provider agrees; non-trivial: all parts are set",
		func(rt *rapid.T, c *vh.Case) {
			id := rapid.Uint64Range(0, flake.MaxValue).Draw(rt, "id")
			p := flake.Decompose(id)
			if p["time"]<<22|p["sequence"]<<16|p["machine_id"] != id || p["msb"] != 0 || p["machine_id"] > 65535 || p["sequence"] > 63 {
				rt.Fatalf("parts of %d: %v", id, p)
			}
			want := flake.DefaultStartTime.UnixMilli() + int64(id>>22)
			if got := flake.IDTime(flake.DefaultIDGenerator, id); got.UnixMilli() != want || got.Location() != time.UTC {
				rt.Fatalf("time of %d: %s, expected %s", id, got, time.UnixMilli(want))
			}
			if f, l := flake.FirstID(other{}), flake.LastID(other{}); f != 0 || l != 0 {
				rt.Fatalf("another kind of generator has first id %d and last id %d", f, l)
			}
			// without a start time ids count from the epoch of Unix
			if got := flake.IDTime(other{}, id); got.UnixNano()/flake.FlakeTimeUnit != int64(id>>22) {
				rt.Fatalf("another kind of generator: the time of %d is %s", id, got)
			}
			pr := provider
			if got := pr.IDTime(id); got.UnixMilli() != want {
				rt.Fatalf("provider's time of %d: %s", id, got)
			}
			c.NonTrivial(p["sequence"] != 0 && p["machine_id"] != 0 && p["time"] != 0, fmt.Sprint(id))
		})
	prev := uint64(0)
	for range 300 {
		id := provider.NextID()
		if !id.Valid() || id.UInt64() <= prev || flake.LastID(flake.DefaultIDGenerator) != id.UInt64() {
			t.Fatalf("provider: id %v after %d", id, prev)
		}
		prev = id.UInt64()
	}
}

var provider = func() *xdb.SQLProvider {
	p, err := xdb.New("none", sql.OpenDB(noDB{}), nil)
	if err != nil {
		panic(err)
	}
	return p
}()

// other is a generator of another kind.
type other struct{}

func (other) NextID() uint64 { return 1 }

// noDB is a database which can not be reached.
type noDB struct{}

func (noDB) Connect(context.Context) (driver.Conn, error) { return nil, errors.New("no database") }
func (noDB) Driver() driver.Driver                        { return nil }
