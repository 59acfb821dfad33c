package state

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"unsafe"

	"github.com/wenerme/go-miniquery/miniquery"

	"mqverif/core"
	"mqverif/gen"
)

func init() {
	core.Register(&core.Check{
		ID: "C09", Quick: 12_000, Thorough: 200_000,
		Setup: setup, Run: runC09,
		Rule:        "a history of 80 random operations (parse, print, walk, join, gorm scopes on shared sessions of seven models (two of one name, two of one table) under two naming strategies, ent SQL in three dialects over two schemas, ent predicates, lists, overwriting trees of one's own) over a shared pool of 8 queries, some of them easily mistaken for each other, their trees, scopes and lists, in a process that keeps running histories; every answer must equal the first answer to the same operation in this history, in all earlier ones for the fixed queries, and the one given again at the end in other order; two answers of each history must equal those of a fresh process that runs this one operation only; trees, lists, sessions and schemas must stay as they were; trees of separate calls must share no memory; distinct by operation",
		MinDistinct: 20_000,
		MinTags:     []string{"parse", "print", "walk", "join", "normalize", "gorm", "gorm list", "ent sql", "ent predicate", "ent list", "scribble", "repeated", "repeated later", "refused", "separate trees", "fresh process"},
	})
}

type keeper struct {
	*env
	print string
	first map[string]string // answers of earlier histories
}

func setup(w *core.Worker) error {
	e, err := newEnv()
	if err != nil {
		return err
	}
	w.State = &keeper{e, e.fingerprint(), map[string]string{}}
	return nil
}

const poolSize, poolTrees = 8, 6

// fresh asks a new process for the answer to one operation of a history.
func fresh(s1, s2 uint64, n int) (string, error) {
	exe, err := os.Executable()
	if err != nil {
		return "", err
	}
	cmd := exec.Command(exe, "fresh", fmt.Sprint(s1), fmt.Sprint(s2), fmt.Sprint(n))
	var out, diag bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &diag
	if err := cmd.Run(); err != nil {
		return "", fmt.Errorf("%w: %.2000s", err, diag.String())
	}
	return out.String(), nil
}

// Fresh answers one operation and nothing else.
func Fresh(args []string) {
	var v [3]uint64
	for i := range v {
		n, err := strconv.ParseUint(args[i], 10, 64)
		if err != nil {
			panic(err)
		}
		v[i] = n
	}
	e, err := newEnv()
	if err != nil {
		panic(err)
	}
	picks := rand.New(rand.NewPCG(v[0], v[1]))
	p := newPool(picks, e, poolSize, poolTrees, true)
	for ; v[2] > 0; v[2]-- {
		p.pick(picks)
	}
	fmt.Print(p.pick(picks).run())
}

func runC09(c *core.C) {
	k := c.State.(*keeper)
	r := c.R
	var p *pool
	s1, s2 := r.Uint64(), r.Uint64()
	picks := rand.New(rand.NewPCG(s1, s2))
	if !c.Guard("making the pool", func() { p = newPool(picks, k.env, poolSize, poolTrees, false) }) {
		return
	}
	first := map[string]string{}
	var log []string
	var ops []op
	fail := func(what, name, was, is string) {
		c.Fail(what, "%s\nfirst %s\nnow   %s\nhistory %q", name, was, is, log)
	}
	do := func(o op) bool {
		var a string
		if !c.Guard(o.name, func() { a = o.run() }) {
			return false
		}
		c.Eval(1)
		log = append(log, o.name)
		c.Tag(o.kind)
		c.Distinct(o.name)
		if len(a) > 6 && a[:6] == "error:" {
			c.Tag("refused")
		}
		if was, ok := first[o.name]; ok {
			c.Tag("repeated")
			if was != a {
				fail("other answer", o.name, was, a)
				return false
			}
		} else if was, ok := k.first[o.name]; ok {
			c.Tag("repeated later")
			if was != a {
				fail("other answer than in an earlier history", o.name, was, a)
				return false
			}
		}
		first[o.name] = a
		return true
	}
	for i := 0; i < 80; i++ {
		if r.IntN(8) == 0 {
			// a tree of its own, used, then overwritten
			it := gen.Pick(r, p.items)
			c.Guard("overwriting a tree of "+it.q, func() {
				if n, err := miniquery.Parse(it.q); err == nil {
					if r.IntN(2) == 0 {
						_ = miniquery.Build(n)
					}
					scribble(n)
					log = append(log, fmt.Sprintf("overwrite %q", it.q))
					c.Tag("scribble")
				}
			})
			continue
		}
		o := p.pick(picks)
		ops = append(ops, o)
		if !do(o) {
			return
		}
	}
	// what a process says that has done nothing else
	for i := 0; i < 2; i++ {
		j := r.IntN(len(ops))
		want, err := fresh(s1, s2, j)
		if err != nil {
			if strings.Contains(err.Error(), "go-miniquery/") {
				c.Fail("fails in a fresh process", "%s\n%v", ops[j].name, err)
				return
			}
			c.Tag("fresh process lost")
			continue
		}
		c.Tag("fresh process")
		if got := first[ops[j].name]; got != want {
			fail("other answer than in a fresh process", ops[j].name, want, got)
			return
		}
	}
	// the same again in other order
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for _, o := range ops[:20] {
		if !do(o) {
			return
		}
	}
	if err := p.intact(); err != nil {
		c.Fail("shared value changed", "%v\nhistory %q", err, log)
		return
	}
	if f := k.fingerprint(); f != k.print {
		c.Fail("shared session or schema changed", "from %s\nto   %s\nhistory %q", k.print, f, log)
		return
	}
	// separate trees
	it := gen.Pick(r, p.items)
	if it.tree != nil {
		n, err := miniquery.Parse(it.q)
		if err != nil {
			c.Fail("other answer", "query %q: %v", it.q, err)
			return
		}
		a, b := map[unsafe.Pointer]string{}, map[unsafe.Pointer]string{}
		parts(n, a)
		for _, x := range p.items {
			parts(x.tree, b)
		}
		for q, what := range a {
			if _, ok := b[q]; ok {
				c.Fail("trees share memory", "%s in the tree of %q", what, it.q)
				return
			}
		}
		c.Tag("separate trees")
	}
	if len(k.first) < 200_000 {
		for n, a := range first {
			k.first[n] = a
		}
	}
	if c.Index < 200 {
		c.Sample("%q", log[:3])
	}
}
