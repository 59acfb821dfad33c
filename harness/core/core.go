// Package core drives the monitors: it derives every case from
// (property, tier, seed, index), runs cases in worker processes, survives and
// attributes crashes of the code under test, and writes the evidence.
package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Check is one monitor.
type Check struct {
	ID string
	// N is the number of case indices per tier.
	Quick, Thorough int
	// Setup runs once per worker process.
	Setup func(w *Worker) error
	// Run executes one case.
	Run func(c *C)
	// Rule says how cases are made and what makes one non-trivial.
	Rule string
	// MinDistinct is the smallest number of distinct non-trivial cases a run
	// must observe; below it the run is an error, never a pass.
	MinDistinct int
	// MinTags must all have been observed at least once.
	MinTags []string
	// Assumptions is copied to the evidence.
	Assumptions []string
	// Workers limits the number of worker processes (0: one per core).
	Workers int
	// Env is added to the environment of the workers.
	Env []string
	// Post inspects the files the workers left behind (race reports).
	Post func(s *Summary)
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { registry[c.ID] = c }

// Lookup finds a check.
func Lookup(id string) *Check { return registry[id] }

// IDs lists all registered checks.
func IDs() []string {
	var s []string
	for k := range registry {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// Violation is a broken property with everything needed to see it again.
type Violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     int64  `json:"seed"`
	Index    int    `json:"index"`
	What     string `json:"what"`
	Detail   string `json:"detail"`
}

// Worker is the per-process state.
type Worker struct {
	Check   *Check
	Tier    string
	Seed    int64
	Scratch string
	// State is for the check.
	State any

	journal    *os.File
	Violations []Violation
	Evals      int64
	distinct   map[uint64]struct{}
	Samples    []string
	Tags       map[string]int64
	Known      map[string]int64
	listed     map[string]bool
}

// C is one running case.
type C struct {
	*Worker
	Index int
	R     *rand.Rand
	Fails int
}

// Thorough tells the tier.
func (w *Worker) IsThorough() bool { return w.Tier == "thorough" }

// Eval counts executions.
func (c *C) Eval(n int) { c.Evals += int64(n) }

// Distinct records a distinct non-trivial observation.
func (c *C) Distinct(key string) {
	h := fnv.New64a()
	_, _ = h.Write([]byte(key))
	c.distinct[h.Sum64()] = struct{}{}
}

// Tag counts a feature that was really exercised.
func (c *C) Tag(t string) { c.Tags[t]++ }

// Sample keeps a few written out cases.
func (c *C) Sample(format string, a ...any) {
	if len(c.Samples) < 4 && (len(c.Samples) == 0 || c.Index%7 == 0) {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.Samples = append(c.Samples, strings.ToValidUTF8(s, "?"))
	}
}

// Fail records a violation.
func (c *C) Fail(what, format string, a ...any) {
	c.Fails++
	d := fmt.Sprintf(format, a...)
	if len(d) > 20000 {
		d = d[:20000] + "..."
	}
	c.Violations = append(c.Violations, Violation{
		Property: c.Check.ID, Tier: c.Tier, Seed: c.Seed, Index: c.Index,
		What: what, Detail: d,
	})
}

// KnownFinding counts an observation of a finding that is listed in
// KNOWN_FINDINGS.txt; one that is not listed is a violation.
func (c *C) KnownFinding(what, format string, a ...any) {
	if c.listed == nil {
		c.listed = map[string]bool{}
		b, _ := os.ReadFile(os.Getenv("MQVERIF_FINDINGS"))
		for _, l := range strings.Split(string(b), "\n") {
			if l, ok := strings.CutPrefix(strings.TrimSpace(l), "finding: property="+c.Check.ID+" "); ok {
				c.listed[l] = true
			}
		}
	}
	if !c.listed[what] {
		c.Fail(what, format, a...)
		return
	}
	c.Known[what]++
}

// Guard runs f and turns a panic into a violation.
func (c *C) Guard(what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			c.Fail("panic", "%s\npanic: %v\n%s", what, r, trimStack(debug.Stack()))
			ok = false
		}
	}()
	f()
	return true
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Rand makes the generator of a case.
func Rand(id, tier string, seed int64, index int) *rand.Rand {
	h := fnv.New64a()
	_, _ = fmt.Fprintf(h, "%s/%d", id, seed)
	return rand.New(rand.NewPCG(h.Sum64(), uint64(index)*0x9E3779B97F4A7C15+1))
}

func newWorker(ch *Check, tier string, seed int64, scratch string) *Worker {
	return &Worker{
		Check: ch, Tier: tier, Seed: seed, Scratch: scratch,
		distinct: map[uint64]struct{}{},
		Tags:     map[string]int64{},
		Known:    map[string]int64{},
	}
}

func (w *Worker) runCase(i int) {
	if w.journal != nil {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(i))
		_, _ = w.journal.WriteAt(b[:], 0)
	}
	c := &C{Worker: w, Index: i, R: Rand(w.Check.ID, w.Tier, w.Seed, i)}
	c.Guard("case", func() { w.Check.Run(c) })
}

type workerResult struct {
	Violations []Violation
	Evals      int64
	Samples    []string
	Tags       map[string]int64
	Known      map[string]int64
	Cases      int
	Slowest    time.Duration
	SlowIndex  int
}

// maxViolations ends a run early; the verdict is already known then.
const maxViolations = 5

// softLimit ends a run on a machine too slow for all the cases; the evidence
// tells how many there were.
const softLimit = 600 * time.Second

// RunWorker is the main function of a worker process.
func RunWorker(ch *Check, tier string, seed int64, n, part, parts, only int, scratch, out string) error {
	debug.SetMaxStack(1 << 30)
	w := newWorker(ch, tier, seed, scratch)
	j, err := os.OpenFile(out+".journal", os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		return err
	}
	w.journal = j
	if ch.Setup != nil {
		if err := ch.Setup(w); err != nil {
			return fmt.Errorf("setup: %w", err)
		}
	}
	cases, start := 0, time.Now()
	var slowest time.Duration
	slowIndex := -1
	run := func(i int) {
		at := time.Now()
		w.runCase(i)
		cases++
		if d := time.Since(at); d > slowest {
			slowest, slowIndex = d, i
		}
	}
	if only >= 0 {
		run(only)
	} else {
		for i := part; i < n; i += parts {
			run(i)
			if len(w.Violations) >= maxViolations || time.Since(start) > softLimit {
				break
			}
		}
	}
	hf, err := os.Create(out + ".hashes")
	if err != nil {
		return err
	}
	buf := make([]byte, 0, 8*len(w.distinct))
	for h := range w.distinct {
		buf = binary.LittleEndian.AppendUint64(buf, h)
	}
	if _, err := hf.Write(buf); err != nil {
		return err
	}
	if err := hf.Close(); err != nil {
		return err
	}
	b, err := json.Marshal(workerResult{w.Violations, w.Evals, w.Samples, w.Tags, w.Known, cases, slowest, slowIndex})
	if err != nil {
		return err
	}
	return os.WriteFile(out, b, 0o644)
}
