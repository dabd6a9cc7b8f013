// Package vh is the common part of the harness: it runs a generated check,
// and counts what was generated.
package vh

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const maxSamples = 4

type stat struct {
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`

	keys map[uint64]bool
}

type known struct {
	ID   string `json:"id"`
	What string `json:"what"`
}

var (
	mu     sync.Mutex
	stats  = map[string]*stat{}
	knowns []known
)

// Thorough reports if the thorough tier is running.
func Thorough() bool { return os.Getenv("VH_TIER") == "thorough" }

// Seed is VERIF_SEED.
func Seed() int {
	n, _ := strconv.Atoi(os.Getenv("VH_SEED"))
	return n
}

// N selects a number by tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Case describes one generated case.
type Case struct {
	st         *stat
	classes    []string
	nontrivial bool
	key        string
	sample     string
}

// Class counts the case in a class.
func (c *Case) Class(name string) { c.classes = append(c.classes, name) }

// ClassIf counts the case in a class, if cond.
func (c *Case) ClassIf(cond bool, name string) {
	if cond {
		c.Class(name)
	}
}

// NonTrivial marks the case as non-trivial; key identifies it.
func (c *Case) NonTrivial(cond bool, key string) {
	if cond {
		c.nontrivial = true
		c.key = key
	}
}

// Sample describes the case.
func (c *Case) Sample(format string, args ...any) {
	if len(c.st.Samples) < maxSamples {
		c.sample = fmt.Sprintf(format, args...)
	}
}

func getStat(name, rule string) *stat {
	mu.Lock()
	defer mu.Unlock()
	s := stats[name]
	if s == nil {
		s = &stat{Rule: rule, Classes: map[string]int{}, keys: map[uint64]bool{}}
		stats[name] = s
	}
	return s
}

func (c *Case) done() {
	mu.Lock()
	defer mu.Unlock()
	s := c.st
	s.Evaluations++
	for _, cl := range c.classes {
		s.Classes[cl]++
	}
	if c.nontrivial {
		s.Nontrivial++
		h := fnv.New64a()
		_, _ = h.Write([]byte(c.key))
		k := h.Sum64()
		if !s.keys[k] {
			s.keys[k] = true
			s.Distinct++
			if c.sample == "" {
				c.sample = c.key
			}
			if len(s.Samples) < maxSamples && (len(s.Samples) == 0 || s.Distinct%17 == 0) {
				if len(c.sample) > 1500 {
					c.sample = c.sample[:1500] + "..."
				}
				s.Samples = append(s.Samples, c.sample)
			}
		}
	}
}

// Run runs a generated check: quick or thorough number of cases.
// rule says how cases are made and what makes one non-trivial.
func Run(t *testing.T, quick, thorough int, rule string, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	st := getStat(t.Name(), rule)
	n := float64(N(quick, thorough)) * scale()
	if err := flag.Set("rapid.checks", strconv.Itoa(max(1, int(n)))); err != nil {
		Harness(t, "rapid.checks: %v", err)
	}
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{st: st}
		caseStart.Store(time.Now().UnixNano())
		defer caseStart.Store(0)
		prop(rt, c)
		c.done()
	})
}

// scale multiplies the number of cases.
func scale() float64 {
	f, err := strconv.ParseFloat(os.Getenv("VH_SCALE"), 64)
	if err != nil || f <= 0 {
		return 1
	}
	return f
}

// One counts a single case of an enumeration (no generator involved).
func One(t *testing.T, rule string, f func(c *Case)) {
	t.Helper()
	c := &Case{st: getStat(t.Name(), rule)}
	f(c)
	c.done()
}

// Known reports that the listed finding id still fails.
func Known(id, what string) {
	mu.Lock()
	defer mu.Unlock()
	for _, k := range knowns {
		if k.ID == id {
			return
		}
	}
	knowns = append(knowns, known{id, what})
}

// Harness reports that the check itself is broken: no verdict.
func Harness(t interface{ Fatalf(string, ...any) }, format string, args ...any) {
	fmt.Printf("HARNESS-ERROR: "+format+"\n", args...)
	t.Fatalf("HARNESS-ERROR: "+format, args...)
}

// caseStart is when the current case began, or 0.
var caseStart atomic.Int64

// a case takes milliseconds; one that does not end in this time hangs
const hangLimit = 150 * time.Second

func watchdog() {
	for {
		time.Sleep(time.Second)
		s := caseStart.Load()
		if s != 0 && time.Since(time.Unix(0, s)) > hangLimit {
			buf := make([]byte, 1<<20)
			fmt.Printf("CASE-HANG: a case did not end in %s\n%s\n", hangLimit, buf[:runtime.Stack(buf, true)])
			os.Exit(3)
		}
	}
}

// Main is called from TestMain.
func Main(m *testing.M) {
	go watchdog()
	code := m.Run()
	Dump()
	os.Exit(code)
}

// Dump writes the statistics.
func Dump() {
	mu.Lock()
	defer mu.Unlock()
	out := os.Getenv("VH_OUT")
	if out == "" {
		return
	}
	b, err := json.Marshal(map[string]any{"props": stats, "known": knowns, "finished": true})
	if err == nil {
		err = os.WriteFile(out, b, 0o644)
	}
	// the hashes of the distinct cases, for the union with other processes
	var keys []byte
	for name, s := range stats {
		keys = binary.LittleEndian.AppendUint64(keys, uint64(len(name)))
		keys = append(keys, name...)
		keys = binary.LittleEndian.AppendUint64(keys, uint64(len(s.keys)))
		for k := range s.keys {
			keys = binary.LittleEndian.AppendUint64(keys, k)
		}
	}
	if err == nil {
		err = os.WriteFile(out+".keys", keys, 0o644)
	}
	if err != nil {
		fmt.Println("HARNESS-ERROR: stats:", err)
	}
}
