package core

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	// cpuLimit is the CPU time one case may burn before it counts as hanging.
	// Cases take micro- to milliseconds.
	cpuLimit = 60 * time.Second
	// wallLimit is the time a case may sit idle, as in a deadlock.
	wallLimit = 150 * time.Second
	// rssLimit is the memory one worker may hold.
	rssLimit = 6 << 30
)

// Summary is what the supervisor knows after a run.
type Summary struct {
	Check      *Check
	Tier       string
	Seed       int64
	Scratch    string
	Violations []Violation
	Evals      int64
	Cases      int
	Planned    int
	Distinct   int
	Samples    []string
	Tags       map[string]int64
	Known      map[string]int64
	Errors     []string
	Slowest    time.Duration
	SlowIndex  int
}

// Fail adds a violation found after the workers ended.
func (s *Summary) Fail(what, detail string) {
	s.Violations = append(s.Violations, Violation{
		Property: s.Check.ID, Tier: s.Tier, Seed: s.Seed, Index: -1, What: what, Detail: detail,
	})
}

type ending struct {
	finished bool   // result file written
	reason   string // "exit", "cpu", "rss"
	index    int    // last journalled case
	stderr   string
	fatal    bool // the runtime ended the process inside the code under test
}

// runProc runs one worker process and watches it.
func runProc(ch *Check, args []string, out string) ending {
	self, err := os.Executable()
	if err != nil {
		return ending{reason: err.Error()}
	}
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), ch.Env...)
	cmd.Dir = filepath.Dir(out)
	ef, _ := os.Create(out + ".stderr")
	cmd.Stdout = ef
	cmd.Stderr = ef
	_ = os.Remove(out)
	if err := cmd.Start(); err != nil {
		return ending{reason: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	e := ending{reason: "exit", index: -1}
	readIndex := func() int {
		b, err := os.ReadFile(out + ".journal")
		if err != nil || len(b) < 8 {
			return -1
		}
		return int(binary.LittleEndian.Uint64(b))
	}
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	lastIndex, cpuAt, wallAt := -2, time.Duration(0), time.Now()
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			cpu, rss := procUsage(cmd.Process.Pid)
			if i := readIndex(); i != lastIndex {
				lastIndex, cpuAt, wallAt = i, cpu, time.Now()
			} else if cpu-cpuAt > cpuLimit || time.Since(wallAt) > wallLimit && cpu-cpuAt < time.Second {
				e.reason = "cpu"
				if cpu-cpuAt < time.Second {
					e.reason = "idle"
				}
				// the stacks tell where it stays
				_ = cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(20 * time.Second):
					_ = cmd.Process.Kill()
					<-done
				}
				break loop
			}
			if rss > rssLimit {
				e.reason = "rss"
				_ = cmd.Process.Kill()
				<-done
				break loop
			}
		}
	}
	_ = ef.Close()
	e.index = readIndex()
	if b, err := os.ReadFile(out + ".stderr"); err == nil {
		e.fatal = (e.reason == "cpu" || e.reason == "idle" || bytes.Contains(b, []byte("fatal error:"))) && bytes.Contains(b, []byte("/go-miniquery/"))
		if len(b) > 6000 {
			b = b[:6000]
		}
		e.stderr = string(b)
	}
	if _, err := os.Stat(out); err == nil {
		e.finished = true
	}
	return e
}

func procUsage(pid int) (cpu time.Duration, rss int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		s = s[i+1:]
	}
	f := strings.Fields(s)
	if len(f) > 21 {
		u, _ := strconv.ParseInt(f[11], 10, 64)
		k, _ := strconv.ParseInt(f[12], 10, 64)
		p, _ := strconv.ParseInt(f[21], 10, 64)
		cpu = time.Duration(u+k) * (time.Second / 100)
		rss = p * int64(os.Getpagesize())
	}
	return
}

// Main is the entry point of every harness binary.
func Main() {
	args := os.Args[1:]
	get := func(name, def string) string {
		for i := 0; i+1 < len(args); i++ {
			if args[i] == name {
				return args[i+1]
			}
		}
		return def
	}
	num := func(name string, def int) int {
		v, err := strconv.Atoi(get(name, strconv.Itoa(def)))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		return v
	}
	ch := Lookup(get("-check", ""))
	if ch == nil {
		fmt.Fprintln(os.Stderr, "unknown check; have", IDs())
		os.Exit(3)
	}
	tier := get("-tier", "quick")
	seed := int64(num("-seed", 1))
	n := ch.Quick
	if tier == "thorough" {
		n = ch.Thorough
	}
	n = num("-n", n)
	if out := get("-out", ""); out != "" { // worker
		err := RunWorker(ch, tier, seed, n, num("-part", 0), num("-parts", 1), num("-only", -1), get("-scratch", ""), out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		return
	}
	if v, err := filepath.Abs(get("-verif", ".")); err == nil {
		_ = os.Setenv("MQVERIF_FINDINGS", filepath.Join(v, "KNOWN_FINDINGS.txt"))
	}
	os.Exit(supervise(ch, tier, seed, n, get("-verif", "."), get("-replay", ""), num("-only", -1)))
}

func supervise(ch *Check, tier string, seed int64, n int, verif, replay string, only int) int {
	start := time.Now()
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		tier, seed, only = v.Tier, v.Seed, v.Index
		fmt.Printf("replaying %s case %d (%s, seed %d)\n", ch.ID, only, tier, seed)
	}
	scratch, err := os.MkdirTemp("", "mqcheck-"+ch.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer func() { _ = os.RemoveAll(scratch) }()

	s := &Summary{Check: ch, Tier: tier, Seed: seed, Scratch: scratch, Planned: n, Tags: map[string]int64{}, Known: map[string]int64{}}
	workers := runtime.NumCPU()
	if ch.Workers > 0 && ch.Workers < workers {
		workers = ch.Workers
	}
	if workers > n {
		workers = n
	}
	if only >= 0 {
		workers = 1
	}
	base := []string{"-check", ch.ID, "-tier", tier, "-seed", strconv.FormatInt(seed, 10), "-n", strconv.Itoa(n), "-scratch", scratch}
	var wg sync.WaitGroup
	ends := make([]ending, workers)
	outs := make([]string, workers)
	for k := range ends {
		outs[k] = filepath.Join(scratch, fmt.Sprintf("w%d.json", k))
		wg.Add(1)
		go func() {
			defer wg.Done()
			a := append(append([]string{}, base...), "-part", strconv.Itoa(k), "-parts", strconv.Itoa(workers), "-only", strconv.Itoa(only), "-out", outs[k])
			ends[k] = runProc(ch, a, outs[k])
		}()
	}
	wg.Wait()
	distinct := map[uint64]struct{}{}
	for k, e := range ends {
		if !e.finished {
			continue
		}
		b, err := os.ReadFile(outs[k])
		var r workerResult
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			s.Errors = append(s.Errors, err.Error())
			continue
		}
		s.Violations = append(s.Violations, r.Violations...)
		s.Evals += r.Evals
		s.Cases += r.Cases
		if r.Slowest > s.Slowest {
			s.Slowest, s.SlowIndex = r.Slowest, r.SlowIndex
		}
		if len(s.Samples) < 8 {
			s.Samples = append(s.Samples, r.Samples...)
		}
		for t, c := range r.Tags {
			s.Tags[t] += c
		}
		for t, c := range r.Known {
			s.Known[t] += c
		}
		hb, err := os.ReadFile(outs[k] + ".hashes")
		if err != nil {
			s.Errors = append(s.Errors, err.Error())
		}
		for ; len(hb) >= 8; hb = hb[8:] {
			distinct[binary.LittleEndian.Uint64(hb)] = struct{}{}
		}
	}
	for _, e := range ends {
		// one confirmed violation is enough, confirming takes time
		if !e.finished && len(s.Violations) == 0 {
			s.crashed(ch, base, e)
		}
	}
	s.Distinct = len(distinct)
	if ch.Post != nil {
		ch.Post(s)
	}
	return s.report(verif, time.Since(start), replay == "" && only < 0)
}

var endings = map[string]string{"exit": "process died", "cpu": "no end within the CPU limit", "idle": "no end and no progress", "rss": "memory limit exceeded"}

// crashed confirms that a case kills its process and reports it then.
func (s *Summary) crashed(ch *Check, base []string, e ending) {
	desc := fmt.Sprintf("worker ended without result (%s) at case %d:\n%s", e.reason, e.index, e.stderr)
	if e.index < 0 {
		s.Errors = append(s.Errors, desc)
		return
	}
	out := filepath.Join(s.Scratch, fmt.Sprintf("alone%d.json", e.index))
	a := append(append([]string{}, base...), "-only", strconv.Itoa(e.index), "-out", out)
	e2 := runProc(ch, a, out)
	if e2.finished && e.fatal {
		// depends on the schedule or on earlier cases, but happened
		s.Violations = append(s.Violations, Violation{
			Property: ch.ID, Tier: s.Tier, Seed: s.Seed, Index: e.index, What: endings[e.reason], Detail: e.stderr,
		})
		return
	}
	if e2.finished {
		s.Errors = append(s.Errors, "not reproduced alone: "+desc)
		return
	}
	s.Violations = append(s.Violations, Violation{
		Property: ch.ID, Tier: s.Tier, Seed: s.Seed, Index: e.index,
		What: endings[e2.reason], Detail: e2.stderr,
	})
}

func (s *Summary) report(verif string, wall time.Duration, full bool) int {
	ch := s.Check
	if full && len(s.Violations) == 0 && len(s.Errors) == 0 {
		if s.Distinct < ch.MinDistinct {
			s.Errors = append(s.Errors, fmt.Sprintf("only %d distinct cases observed, need %d", s.Distinct, ch.MinDistinct))
		}
		for _, t := range ch.MinTags {
			if s.Tags[t] == 0 {
				s.Errors = append(s.Errors, fmt.Sprintf("feature %q was never exercised", t))
			}
		}
	}
	fmt.Printf("%s: %d cases, %d evaluations, %d distinct, %.1fs\n", ch.ID, s.Cases, s.Evals, s.Distinct, wall.Seconds())
	if full {
		samples := s.Samples
		if samples == nil {
			samples = []string{}
		}
		ev := map[string]any{
			"property": ch.ID, "tier": s.Tier, "seed": s.Seed, "level": "exploration",
			"coverage": map[string]any{
				"evaluations": s.Evals, "distinct_nontrivial": s.Distinct, "rule": ch.Rule, "samples": samples,
				"cases": s.Cases, "cases_planned": s.Planned, "features": s.Tags, "known_finding_observations": s.Known,
				"slowest_case": map[string]any{"index": s.SlowIndex, "seconds": s.Slowest.Seconds()},
			},
			"assumptions": ch.Assumptions,
			"wall_s":      wall.Seconds(),
			"violations":  len(s.Violations),
		}
		if ch.Assumptions == nil {
			ev["assumptions"] = []string{}
		}
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
			err = os.WriteFile(filepath.Join(verif, "evidence", ch.ID+".json"), append(b, '\n'), 0o644)
		}
		if err != nil {
			s.Errors = append(s.Errors, err.Error())
		}
	}
	for k, c := range s.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (observed %d times)\n", ch.ID, k, c)
	}
	for i, v := range s.Violations {
		if i == maxViolations {
			break
		}
		p := filepath.Join(verif, "evidence", "replay", fmt.Sprintf("%s-%d.json", ch.ID, i))
		if full {
			_ = os.MkdirAll(filepath.Dir(p), 0o755)
			b, _ := json.MarshalIndent(v, "", " ")
			_ = os.WriteFile(p, append(b, '\n'), 0o644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n  %s\n", ch.ID, p, v.What, strings.ReplaceAll(strings.ToValidUTF8(v.Detail, "?"), "\n", "\n  "))
	}
	if len(s.Violations) > 0 {
		return 1
	}
	for _, e := range s.Errors {
		fmt.Printf("ERROR %s: %s\n", ch.ID, e)
	}
	if len(s.Errors) > 0 {
		return 3
	}
	return 0
}
