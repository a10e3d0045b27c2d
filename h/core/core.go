// Package core runs the cases of a check in a watched child process, collects what
// the monitors observed, and turns failures into verdicts.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// Check is one property's check.
type Check struct {
	ID          string
	Level       string // evidence level
	Rule        string // how cases are made and which count as non-trivial
	Assumptions []string
	Quick       int // number of cases
	Thorough    int
	Workers     int    // default 8
	AS          uint64 // address-space limit of the child, 0 = default
	Race        bool   // built with the race detector
	// Need lists counters that must be positive, else the run decided nothing.
	Need []string
	Init func(g *Run)
	// Setup runs once before all cases, monitored like a case.
	Setup func(t *T)
	Case  func(t *T)
	// Fixed are cases run before the generated ones, in the parent order.
	Fixed []func(t *T)
	Post  func(g *Run)
}

var checks = map[string]*Check{}

func Register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

func Get(id string) *Check { return checks[id] }

func IDs() []string {
	var out []string
	for k := range checks {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Violation is one observed violation.
type Violation struct {
	Property string            `json:"property"`
	Case     int               `json:"case"`
	Seed     uint64            `json:"seed"`
	Key      string            `json:"key"`
	Message  string            `json:"message"`
	Data     map[string]string `json:"data,omitempty"`
	Replay   string            `json:"replay_cmd"`
}

// Run is the state shared by all cases of a child.
type Run struct {
	Check  *Check
	Seed   uint64
	Tier   string
	Single bool   // replaying one case
	Tmp    string // scratch directory, removed afterwards
	Any    any    // check-specific state made by Init

	mu       sync.Mutex
	counts   map[string]int64
	samples  []string
	distinct [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	viol  []Violation
	known map[string]string
	evals atomic.Int64
	stop  atomic.Bool
}

// T is one case.
type T struct {
	*Run
	R    *rand.Rand
	Idx  int
	data map[string]string
	loc  map[string]int64
}

func caseRand(seed uint64, id string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", id, idx)
	return rand.New(rand.NewPCG(seed, h.Sum64()))
}

// Hash is a 64-bit FNV-1a over the parts.
func Hash(parts ...[]byte) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write(p)
		h.Write([]byte{0xff, 0})
	}
	return h.Sum64()
}

// Attach records data to be written to the replay file if the case fails.
func (t *T) Attach(name string, b []byte) {
	if t.data == nil {
		t.data = map[string]string{}
	}
	if len(b) > 4096 {
		t.data[name] = fmt.Sprintf("%x... (%d bytes)", b[:4096], len(b))
	} else {
		t.data[name] = fmt.Sprintf("%x", b)
	}
}

func (t *T) AttachStr(name, s string) {
	if t.data == nil {
		t.data = map[string]string{}
	}
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	t.data[name] = s
}

// Failf records a violation. The key identifies the kind of failure.
func (t *T) Failf(key, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 6000 {
		msg = msg[:6000] + "..."
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	n := 0
	for _, v := range t.viol {
		if v.Key == key {
			n++
		}
	}
	if n >= 3 || len(t.viol) >= 40 {
		if len(t.viol) >= 40 {
			t.stop.Store(true)
		}
		return
	}
	d := map[string]string{}
	for k, v := range t.data {
		d[k] = v
	}
	t.viol = append(t.viol, Violation{Property: t.Check.ID, Case: t.Idx, Seed: t.Seed, Key: key, Message: msg, Data: d,
		Replay: fmt.Sprintf("VERIF_SEED=%d /verif/check.sh %s %s -case %d", t.Seed, t.Check.ID, t.Tier, t.Idx)})
}

// Known records that a listed genuine defect was seen.
func (t *T) Known(id, what string) {
	t.mu.Lock()
	t.known[id] = what
	t.mu.Unlock()
}

// Trace prints an input when a single case is replayed, so that a crash shows what caused it.
func (t *T) Trace(what string, b []byte) {
	if t.Single {
		if len(b) > 2048 {
			b = b[:2048]
		}
		fmt.Fprintf(os.Stderr, "input: %s %x\n", what, b)
	}
}

// Count adds to a measured counter.
func (t *T) Count(name string, n int) { t.loc[name] += int64(n) }

// Max raises a measured maximum.
func (t *T) Max(name string, n int64) {
	name = "max:" + name
	if n > t.loc[name] {
		t.loc[name] = n
	}
}

// Distinct records the fingerprint of a non-trivial case.
func (t *T) Distinct(parts ...[]byte) {
	h := Hash(parts...)
	s := &t.distinct[h&63]
	s.Lock()
	if s.m == nil {
		s.m = map[uint64]struct{}{}
	}
	s.m[h] = struct{}{}
	s.Unlock()
}

// Eval counts an additional evaluated execution of this case.
func (t *T) Eval(n int) { t.evals.Add(int64(n)) }

// Sample offers a written-out case for the evidence.
func (t *T) Sample(format string, a ...any) {
	t.mu.Lock()
	if len(t.samples) < 6 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		t.samples = append(t.samples, s)
	}
	t.mu.Unlock()
}

// Abort stops a case without a verdict (used by budgeted readers through panic).
type Abort struct{ Key, Msg string }

func (g *Run) runCase(idx int, f func(t *T)) {
	t := &T{Run: g, R: caseRand(g.Seed, g.Check.ID, idx), Idx: idx, loc: map[string]int64{}}
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			a, aborted := e.(Abort)
			switch {
			case aborted:
				t.Failf(a.Key, "%s", a.Msg)
			case strings.Contains(st, "github.com/abema/go-mp4"):
				t.Failf(panicKey(st), "panic: %v\n%s", e, trimStack(st))
			case unusable(e):
				t.Failf("unusable result", "a result cannot be judged (nil, too short or of another type): %v\n%s", e, trimStack(st))
			default:
				fmt.Fprintf(os.Stderr, "harness panic in case %d: %v\n%s\n", idx, e, st)
				os.Exit(98)
			}
		}
		g.evals.Add(1)
		g.mu.Lock()
		for k, v := range t.loc {
			if strings.HasPrefix(k, "max:") {
				if v > g.counts[k] {
					g.counts[k] = v
				}
			} else {
				g.counts[k] += v
			}
		}
		g.mu.Unlock()
	}()
	f(t)
}

// unusable tells whether a panic comes from reading a value that is not there: the monitors read
// results without asking at each step, and a result that cannot be read is not the right one.
func unusable(e any) bool {
	switch e.(type) {
	case runtime.Error, *reflect.ValueError:
		return true
	}
	return false
}

// Guard runs f and reports a panic of the library as a violation; it returns whether f panicked.
func (t *T) Guard(what string, f func()) (panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			panicked = true
			if a, ok := e.(Abort); ok {
				t.Failf(a.Key, "%s: %s", what, a.Msg)
				return
			}
			st := string(debug.Stack())
			if !strings.Contains(st, "github.com/abema/go-mp4") {
				panic(e)
			}
			t.Failf(panicKey(st), "%s: panic: %v\n%s", what, e, trimStack(st))
		}
	}()
	f()
	return false
}

func panicKey(st string) string {
	lines := strings.Split(st, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
		}
		if seen && strings.HasPrefix(l, "github.com/abema/go-mp4") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return "panic:" + l
		}
	}
	return "panic"
}

func trimStack(st string) string {
	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}
	if len(st) > 2500 {
		st = st[:2500]
	}
	return st
}

// Report is what a child tells its parent.
type Report struct {
	Evals      int64
	Distinct   int64
	Counts     map[string]int64
	Samples    []string
	Violations []Violation
	Known      map[string]string
}

func (g *Run) report() Report {
	r := Report{Evals: g.evals.Load(), Counts: g.counts, Samples: g.samples, Violations: g.viol, Known: g.known}
	for i := range g.distinct {
		r.Distinct += int64(len(g.distinct[i].m))
	}
	return r
}

func (r Report) write(path string) error {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

// FirstDiff shows where two texts differ.
func FirstDiff(was, is string) string {
	i := 0
	for i < len(was) && i < len(is) && was[i] == is[i] {
		i++
	}
	lo := max(0, i-60)
	cut := func(s string) string { return s[min(lo, len(s)):min(len(s), i+80)] }
	return fmt.Sprintf("...%s, was ...%s", cut(is), cut(was))
}
