package state

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"mqverif/core"
	"mqverif/gen"
)

func init() {
	core.Register(&core.Check{
		ID: "C10", Quick: 2_000, Thorough: 20_000,
		Setup: setupC10, Run: runC10,
		Rule:        "a round of 8 to 24 goroutines, each running 15 random operations over a shared pool of 3 to 8 queries, their trees, scopes and lists, shared sessions and schemas, in a process built with the race detector, with random yields and changing GOMAXPROCS; the first round of a process starts with nothing warmed up; afterwards every operation runs alone and must give the answer every goroutine got; a race report is a violation; distinct by operation and number of goroutines that ran it at the same time",
		MinDistinct: 20_000,
		MinTags:     []string{"parse", "print", "walk", "join", "normalize", "gorm", "gorm list", "ent sql", "ent predicate", "ent list", "overlap", "same operation at the same time", "cold start"},
		Env:         []string{"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path=race"},
	})
}

type racer struct {
	*env
	print string
	log   string
	seen  int64
	cold  bool
}

func setupC10(w *core.Worker) error {
	// the race detector is initialised before main, so its reports go to the
	// working directory of the worker
	e, err := newEnv()
	if err != nil {
		return err
	}
	l, _ := filepath.Abs(fmt.Sprintf("race.%d", os.Getpid()))
	w.State = &racer{env: e, log: l, cold: true}
	if !raceEnabled {
		return fmt.Errorf("built without the race detector")
	}
	return nil
}

// report returns new race reports.
func (k *racer) report() string {
	b, err := os.ReadFile(k.log)
	if err != nil || int64(len(b)) <= k.seen {
		return ""
	}
	s := string(b[k.seen:])
	k.seen = int64(len(b))
	return s
}

func runC10(c *core.C) {
	k := c.State.(*racer)
	r := c.R
	procs := gen.Pick(r, []int{1, 2, 4, 8})
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
	n := 8 + r.IntN(17)
	var p *pool
	queries := 3 + r.IntN(6)
	parsed := queries / 2
	if k.cold {
		parsed = 0
	}
	if !c.Guard("making the pool", func() { p = newPool(r, k.env, queries, parsed, false) }) {
		return
	}
	type done struct {
		op
		answer string
	}
	var (
		wg      sync.WaitGroup
		start   = make(chan struct{})
		results = make([][]done, n)
		panics  atomic.Value
		running atomic.Int64
		overlap atomic.Int64
	)
	// a few operations come first in all goroutines
	var hot []op
	for i := 0; i < 3; i++ {
		hot = append(hot, p.pick(r))
	}
	for g := 0; g < n; g++ {
		gr := rand.New(rand.NewPCG(r.Uint64(), uint64(g)))
		ops := append([]op{}, hot...)
		for i := 0; i < 12; i++ {
			ops = append(ops, p.pick(gr))
		}
		if gr.IntN(2) == 0 {
			gr.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					buf := make([]byte, 6000)
					panics.CompareAndSwap(nil, fmt.Sprintf("%v\n%s", x, buf[:runtime.Stack(buf, false)]))
				}
			}()
			<-start
			for _, o := range ops {
				if gr.IntN(4) == 0 {
					runtime.Gosched()
				}
				if running.Add(1) > 1 {
					overlap.Add(1)
				}
				a := o.run()
				running.Add(-1)
				results[g] = append(results[g], done{o, a})
			}
		}()
	}
	close(start)
	wg.Wait()
	if s := k.report(); s != "" {
		if strings.Contains(s, "DATA RACE") {
			if i := strings.Index(s, "\n==================\n"); i > 0 && len(s) > 6000 {
				s = s[:i]
			}
			c.Fail("data race", "%s", s)
			return
		}
	}
	if x := panics.Load(); x != nil {
		c.Fail("panic with many goroutines", "%v", x)
		return
	}
	alone := map[string]string{}
	count := map[string]int{}
	for g, l := range results {
		for _, d := range l {
			c.Eval(1)
			want, ok := alone[d.name]
			if !ok {
				if !c.Guard(d.name, func() { want = d.run() }) {
					return
				}
				alone[d.name] = want
			}
			count[d.name]++
			if d.answer != want {
				c.Fail("other answer than alone", "%s\ngoroutine %d of %d\nthere %s\nalone %s", d.name, g, n, d.answer, want)
				return
			}
			c.Tag(d.kind)
		}
	}
	if err := p.intact(); err != nil {
		c.Fail("shared value changed", "%v", err)
		return
	}
	f := k.fingerprint()
	if k.print == "" {
		k.print = f
	}
	if f != k.print {
		c.Fail("shared session or schema changed", "from %s\nto   %s", k.print, f)
		return
	}
	for name, m := range count {
		c.Distinct(fmt.Sprint(name, m))
		if m > 1 {
			c.Tag("same operation at the same time")
		}
	}
	if overlap.Load() > 0 {
		c.Tag("overlap")
	}
	if k.cold {
		c.Tag("cold start")
		k.cold = false
	}
	c.Sample("%d goroutines on %d processors, %d operations, %d started while another ran", n, procs, 15*n, overlap.Load())
}
