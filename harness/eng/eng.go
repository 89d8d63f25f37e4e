// Package eng is a stateless explorer: a scenario body asks it for every
// nondeterministic decision (inputs, orders, environment answers, thread
// switches) and the explorer runs the body once for every sequence of
// decisions within the scenario's bounds, depth first.
package eng

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	rt "verifrt"
)

// Scenario is one closed driver.
type Scenario struct {
	Name  string
	Bound int // deviations allowed per execution (choices made with Dev)
	Shard int // number of leading choices that decide which worker owns an execution
	Note  string
	Body  func(t *T)
}

// Prop is one property and the scenarios that decide it.
type Prop struct {
	ID          string
	Rule        string
	Assumptions []string
	Scenarios   func(thorough bool) []Scenario
}

type point struct {
	c, n int
	dev  bool
}

// T is one execution.
type T struct {
	w      *worker
	sc     *Scenario
	prefix []point
	pts    []point
	shard  int
	desc   func() string
	ops    int64
	share  float64
	states []uint64
	failed *Failure
}

type Failure struct {
	Scenario string `json:"scenario"`
	Sig      string `json:"sig"`
	Msg      string `json:"msg"`
	Desc     string `json:"desc"`
	Choices  []int  `json:"choices"`
	Count    int    `json:"count"`
	Runs     string `json:"reruns,omitempty"`
}

type sentinel int

const (
	sSkip sentinel = iota
	sNotMine
	sFailed
	sDiverged
	sRewrap
)

func (t *T) choose(n int, dev bool) int {
	if n <= 0 {
		panic(sSkip)
	}
	if n == 1 {
		return 0
	}
	i := len(t.pts)
	if i == t.shard && t.w.total > 1 && !t.mine() {
		panic(sNotMine)
	}
	c := 0
	if i < len(t.prefix) {
		p := t.prefix[i]
		if p.n != n && p.n != -1 || p.c >= n {
			panic(sDiverged)
		}
		c = p.c
	}
	t.pts = append(t.pts, point{c, n, dev})
	t.w.record(c)
	if i+1 == t.shard && t.w.total > 1 && !t.mine() {
		panic(sNotMine)
	}
	return c
}

// Choose picks one of n alternatives; all n are explored.
func (t *T) Choose(n int) int { return t.choose(n, false) }

// Dev picks one of n alternatives, 0 being the default; every other choice
// costs one deviation.
func (t *T) Dev(n int) int { return t.choose(n, true) }

// Skip abandons an execution that does not meet the scenario's precondition.
func (t *T) Skip() { panic(sSkip) }

// Op counts n transitions (operations of the code under test performed).
func (t *T) Op(n int) { t.ops += int64(n) }

// State records a state reached or outcome observed.
func (t *T) State(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, t.sc.Name)
	for _, p := range parts {
		fmt.Fprintf(h, "|%v", p)
	}
	t.states = append(t.states, h.Sum64())
}

// StateHash records a state by a ready-made hash.
func (t *T) StateHash(h uint64) { t.states = append(t.states, h) }

// Describe sets how this execution is written out.
func (t *T) Describe(f func() string) { t.desc = f }

// Fail ends the execution as a violation. sig names what failed (for the
// known-findings file); empty means the description of the execution.
func (t *T) Fail(sig, format string, args ...interface{}) {
	f := &Failure{Scenario: t.sc.Name, Sig: sig, Msg: fmt.Sprintf(format, args...)}
	if t.desc != nil {
		f.Desc = clip(t.desc(), 4000)
	}
	if f.Sig == "" {
		f.Sig = clip(f.Desc, 300)
	}
	t.failed = f
	panic(sFailed)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Outcome of a call of the code under test.
type Outcome struct {
	Panicked bool
	Hang     bool
	Val      interface{}
	Steps    int64
}

func (o Outcome) OK() bool { return !o.Panicked }

func (o Outcome) String() string {
	switch {
	case o.Hang:
		return "does not terminate (step budget exhausted)"
	case o.Panicked:
		return "panics: " + clip(fmt.Sprint(o.Val), 200)
	}
	return "returns"
}

// Call runs f with a step budget and reports how it ended.
func (t *T) Call(budget int64, f func()) (o Outcome) {
	t.ops++
	rt.Steps, rt.Budget = 0, budget
	defer func() {
		o.Steps = rt.Steps
		if share := float64(rt.Steps) / float64(budget); share > t.share {
			t.share = share
		}
		rt.Budget = 1 << 62
		if r := recover(); r != nil {
			if s, ok := r.(sentinel); ok {
				panic(s)
			}
			o.Panicked, o.Val = true, r
			if _, ok := r.(rt.Hang); ok {
				o.Hang = true
			}
		}
	}()
	f()
	return
}

// Must is Call for calls that have to return normally.
func (t *T) Must(what string, budget int64, f func()) {
	if o := t.Call(budget, f); !o.OK() {
		t.Fail("", "%s %s", what, o)
	}
}

func (t *T) mine() bool {
	n := t.shard
	if len(t.pts) < n {
		n = len(t.pts)
	}
	h := uint64(1469598103934665603)
	for _, p := range t.pts[:n] {
		h = (h ^ uint64(p.c+1)) * 1099511628211
		h ^= h >> 29
	}
	return int(h%uint64(t.w.total)) == t.w.index
}

type Stats struct {
	Scenario     string     `json:"scenario"`
	Bound        int        `json:"deviation_bound"`
	Executions   int64      `json:"executions"`
	Skipped      int64      `json:"skipped_by_precondition"`
	Ops          int64      `json:"operations"`
	ChoicePoints int64      `json:"choice_points"`
	MaxDepth     int        `json:"max_choice_depth"`
	States       int64      `json:"distinct_states"`
	Seconds      float64    `json:"core_seconds"`
	Share        float64    `json:"max_share_of_step_budget"`
	Capped       string     `json:"capped,omitempty"`
	Failures     []*Failure `json:"failures,omitempty"`
	Samples      []string   `json:"samples,omitempty"`
	stateSet     map[uint64]struct{}
}

type worker struct {
	index, total int
	mm           []byte
	mmN          int
	deadline     time.Time
	known        map[string]bool
}

func (w *worker) record(c int) {
	if w.mm == nil {
		return
	}
	if w.mmN+2 <= len(w.mm)-8 {
		binary.LittleEndian.PutUint16(w.mm[8+w.mmN:], uint16(c))
		w.mmN += 2
		binary.LittleEndian.PutUint32(w.mm[4:], uint32(w.mmN/2))
	}
}

// runOne executes the body once, following prefix.
func (w *worker) runOne(sc *Scenario, prefix []point) (t *T, s sentinel, other interface{}, stack string) {
	t = &T{w: w, sc: sc, prefix: prefix, shard: sc.Shard}
	if t.shard == 0 {
		t.shard = 2
	}
	if t.shard == 0 {
		t.shard = 2
	}
	w.mmN = 0
	if w.mm != nil {
		binary.LittleEndian.PutUint32(w.mm[4:], 0)
	}
	rt.Sched, rt.MapChoice, rt.Budget = nil, nil, 1<<62
	s = -1
	func() {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(sentinel); ok {
					s = x
					return
				}
				s, other, stack = sFailed, r, string(debug.Stack())
			}
		}()
		sc.Body(t)
	}()
	rt.Sched, rt.MapChoice, rt.Budget = nil, nil, 1<<62
	if s == sFailed && t.failed == nil {
		f := &Failure{Scenario: sc.Name, Msg: fmt.Sprintf("panic outside a guarded call: %v\n%s", other, clip(stack, 3000))}
		if t.desc != nil {
			f.Desc = clip(t.desc(), 4000)
		}
		f.Sig = clip(f.Desc, 300)
		t.failed = f
	}
	return
}

const maxFail = 12

func (w *worker) explore(sc *Scenario) *Stats {
	st := &Stats{Scenario: sc.Name, Bound: sc.Bound, stateSet: map[uint64]struct{}{}}
	begun := time.Now()
	defer func() { st.Seconds = time.Since(begun).Seconds() }()
	bySig := map[string]*Failure{}
	unknown := 0
	var prefix []point
	for it := 0; ; it++ {
		if it&63 == 0 && !w.deadline.IsZero() && time.Now().After(w.deadline) {
			st.Capped = "wall-clock budget of the worker reached"
			break
		}
		t, s, _, _ := w.runOne(sc, prefix)
		if s == sDiverged {
			st.Capped = "diverged while replaying a prefix (nondeterminism not owned by the harness)"
			break
		}
		counted := s != sNotMine && (w.total == 1 || len(t.pts) > t.shard || t.mine())
		if counted {
			if s == sSkip {
				st.Skipped++
			} else {
				st.Executions++
				st.Ops += t.ops
				if s != sFailed && t.share > st.Share {
					st.Share = t.share
				}
				st.ChoicePoints += int64(len(t.pts))
				if len(t.pts) > st.MaxDepth {
					st.MaxDepth = len(t.pts)
				}
				if len(st.stateSet) < 4000000 {
					for _, h := range t.states {
						st.stateSet[h] = struct{}{}
					}
				}
				if t.desc != nil && s != sFailed && (st.Executions == 1 || st.Executions == 97 || st.Executions == 1009) {
					st.Samples = append(st.Samples, clip(t.desc(), 500))
				}
				if s == sFailed {
					f := t.failed
					for _, p := range t.pts {
						f.Choices = append(f.Choices, p.c)
					}
					if old := bySig[f.Sig]; old != nil {
						old.Count++
					} else {
						f.Count = 1
						bySig[f.Sig] = f
						st.Failures = append(st.Failures, f)
						if !w.known[f.Scenario+"\x00"+f.Sig] {
							unknown++
						}
					}
					if unknown >= maxFail {
						st.Capped = "stopped after the first violations"
						break
					}
				}
			}
		}
		// next prefix
		i := len(t.pts) - 1
		for ; i >= 0; i-- {
			p := t.pts[i]
			if p.c+1 >= p.n {
				continue
			}
			if p.dev && p.c == 0 {
				used := 0
				for _, q := range t.pts[:i] {
					if q.dev && q.c > 0 {
						used++
					}
				}
				if used+1 > sc.Bound {
					continue
				}
			}
			break
		}
		if i < 0 {
			break
		}
		prefix = append(append([]point{}, t.pts[:i]...), point{t.pts[i].c + 1, t.pts[i].n, t.pts[i].dev})
	}
	st.States = int64(len(st.stateSet))
	return st
}

// WorkerMain explores every scenario of p for shard index of total.
func WorkerMain(p *Prop, thorough bool, index, total int, limit time.Duration, outFile, mmFile string, known map[string]bool) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMaxStack(1 << 30)
	quiet()
	w := &worker{index: index, total: total, known: known}
	if limit > 0 {
		w.deadline = time.Now().Add(limit)
	}
	if mmFile != "" {
		f, err := os.OpenFile(mmFile, os.O_RDWR|os.O_CREATE, 0o600)
		if err == nil {
			f.Truncate(1 << 16)
			w.mm, _ = syscall.Mmap(int(f.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			f.Close()
		}
	}
	var all []*Stats
	for i, sc := range p.Scenarios(thorough) {
		sc := sc
		if w.mm != nil {
			binary.LittleEndian.PutUint32(w.mm, uint32(i))
		}
		st := w.explore(&sc)
		all = append(all, st)
		var buf []byte
		for h := range st.stateSet {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
		os.WriteFile(fmt.Sprintf("%s.states.%d", outFile, i), buf, 0o600)
		st.stateSet = nil
	}
	b, _ := json.Marshal(all)
	if err := os.WriteFile(outFile+".tmp", b, 0o600); err != nil {
		os.Exit(3)
	}
	os.Rename(outFile+".tmp", outFile)
	runExits()
}

// ReplayOne runs one recorded execution; it returns the failure, if any.
func ReplayOne(p *Prop, thorough bool, scenario string, choices []int) (*Failure, bool) {
	debug.SetMaxStack(1 << 30)
	for _, tier := range []bool{thorough, !thorough} {
		for _, sc := range p.Scenarios(tier) {
			if sc.Name != scenario {
				continue
			}
			sc := sc
			w := &worker{total: 1}
			var prefix []point
			for _, c := range choices {
				prefix = append(prefix, point{c: c, n: -1})
			}
			t, s, _, _ := w.runOne(&sc, prefix)
			if s == sFailed {
				for _, p := range t.pts {
					t.failed.Choices = append(t.failed.Choices, p.c)
				}
				return t.failed, true
			}
			return nil, true
		}
	}
	return nil, false
}

var exits []func()

// AtExit registers f to run when the worker ends.
func AtExit(f func()) { exits = append(exits, f) }

func runExits() {
	for _, f := range exits {
		f()
	}
	exits = nil
}

var realStdout = os.Stdout

func quiet() {
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}

var capFile *os.File

// Capture runs f and returns what it wrote to standard output.
func Capture(f func()) string {
	if capFile == nil {
		var err error
		capFile, err = os.CreateTemp("/dev/shm", "verifcap")
		if err != nil {
			capFile, err = os.CreateTemp("", "verifcap")
		}
		if err != nil {
			panic(err)
		}
		os.Remove(capFile.Name())
	}
	capFile.Truncate(0)
	capFile.Seek(0, io.SeekStart)
	old := os.Stdout
	os.Stdout = capFile
	defer func() { os.Stdout = old }()
	f()
	n, _ := capFile.Seek(0, io.SeekCurrent)
	b := make([]byte, n)
	capFile.ReadAt(b, 0)
	return string(b)
}

// CaptureText is Capture for an f that may panic: what was written so far is
// available through the returned function.
func LastCaptured() string {
	n, _ := capFile.Seek(0, io.SeekCurrent)
	b := make([]byte, n)
	capFile.ReadAt(b, 0)
	return string(b)
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = strings.Join
