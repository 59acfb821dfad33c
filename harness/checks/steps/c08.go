package steps

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/schema/field"
	"gorm.io/gorm"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/utils/tests"

	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/gormq"
	"github.com/wenerme/go-miniquery/miniquery"

	"mqverif/core"
	"mqverif/gen"
)

func init() {
	core.Register(&core.Check{
		ID: "C08", Quick: 4_000, Thorough: 40_000,
		Setup: setup, Run: run,
		Rule:        "a family of texts (head, n openers, middle, n closers, tail), fixed or put together at random from nesting and repeating constructs, complete, cut off or broken at the end; steps of parse, print, walk, join (of two and of n members) and of the three translations are counted by the compiler's execution counters for n = 1..14 and then doubling; allocated bytes likewise; every text is new to the process; growth must stay below the third power; distinct by family and operation",
		MinDistinct: 3_000,
		MinTags:     []string{"parse accepted", "parse refused", "parse", "print", "walk", "join", "join many", "gorm", "gorm many", "ent sql", "ent predicate", "nested", "repeated", "cut", "broken", "long"},
	})
}

type Row struct {
	ID int
	A  int
	B  string
	S  *Row `gorm:"foreignKey:A"`
}

type world struct {
	db   *gorm.DB
	node *sqlgraph.Node
}

func setup(w *core.Worker) error {
	db, err := gorm.Open(tests.DummyDialector{}, &gorm.Config{DryRun: true, Logger: logger.Discard})
	if err != nil {
		return err
	}
	g := &sqlgraph.Schema{Nodes: []*sqlgraph.Node{{
		NodeSpec: sqlgraph.NodeSpec{Table: "rows", ID: &sqlgraph.FieldSpec{Column: "id", Type: field.TypeInt}},
		Type:     "Row", Fields: map[string]*sqlgraph.FieldSpec{"a": {Column: "a"}, "b": {Column: "b"}},
	}}}
	g.MustAddE("s", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2O, Inverse: true, Table: "rows", Columns: []string{"a"}}, "Row", "Row")
	g.MustAddE("m", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2M, Table: "row_rows", Columns: []string{"row_id", "other_id"}}, "Row", "Row")
	w.State = &world{db, g.Nodes[0]}
	if err := reset(); err != nil {
		return err
	}
	// the counters must count
	_, _ = miniquery.Parse("a = 1")
	n, err := steps()
	if err == nil && n < 20 {
		err = fmt.Errorf("only %d steps for a query", n)
	}
	return err
}

// family is a shape of text that grows.
type family struct {
	head, open, mid, shut, tail string
	kind                        string
}

func (f family) text(n int) string {
	return f.head + strings.Repeat(f.open, n) + f.mid + strings.Repeat(f.shut, n) + f.tail
}

// pairs are constructs that contain others.
var pairs = [][2]string{
	{"(", ")"}, {"( ", " )"}, {"not (", ")"}, {"not(", ")"}, {"a and (", ")"}, {"a or (", ")"}, {"(", ") and a"}, {"(", ") or a = 1"}, {"a = (", ")"}, {"(", ") = a"}, {"a like (", ")"},
	{"(", ") like a"}, {"(", ") is null"}, {"(", ") isnull"}, {"(", ") is not true"}, {"(", ") in [1]"}, {"(", ") not in (1)"}, {"(", ") between 1 and 2"}, {"(", ") not between [1, 2]"},
	{"f(", ")"}, {"f(a, ", ")"}, {"f(", ", a)"}, {"f(", ",)"}, {"date(", ")"}, {"has_edge(s, ", ")"}, {"has_edge(m, a = 1 and ", ")"}, {"a = 1 and not (", ")"}, {"f((", "))"}, {"f (", ")"},
	{"(a) = (", ")"}, {"a > 1 and (b = 'x' or ", ")"}, {"a in (", ")"}, {"a in [", "]"}, {"a not in (", ")"}, {"[", "]"}, {"a between (", ") and 1"}, {"a between [", ", 1]"}, {"not not (", ")"},
	{"/* ", " */"}, {"a.", ""}, {"(a and b) or (", ")"}, {"not a = (", ")"}, {"f(f(a), ", ")"}, {"f(1, ", ", 2)"}, {"(\n", "\n)"}, {"( --x\n", ")"},
}

// units are constructs that repeat.
var units = []string{
	" and a", " or a", " and a = 1", " && a", " || a", " and not a", " or not a = 1", " = a", " > 1", " like 'x'", " eq 1", " gte a", " not like a", " is null", " isnull", " in [1]", " in (1)", " not in [1]",
	" between 1 and 2", " not between 1 and 2", " between [1,2]", ", 1", ", a", ",", ".a", "->a", "a", "1", "_", " ", "\n", "\t", "\r\n", "--\n", "// x\n", "--", "'", "\"", "''", "'a'", "not ", "not", "!", "(", ")", "[", "]", "()", "(1)", "f()",
	"f(a) ", "\\", "é", "0", "-", "/", " and", " or", " not", " in", " is", " between", " and a between 1 and 2", " or a in [1,2]", " and f(a)", " and S.b = 1", " or a.b.c", " and (a)", " and 'x' = 'y'", "and a ", "or 1 ", "not a ", "= ", "<", ">", "a in ", "a in (", "is ", "is not ",
}

var mids = []string{"a", "a = 1", "1", "'x'", "true", "null", "", "a in [1]", "a is null", "a between 1 and 2", "f(a)", "S.b", "a and b = 'x'", "a.b.c", "not a", "[1]", "(1)", "*", "a b", "a >", "a in", "a =", " ", "--", "'"}

var heads = []string{"", "", "", "a", "a = 1", "a in [1", "a in (1", "f(a", "(", "not ", "'", "\"", "--", "a.", "a between 1 and 2", " ", "a in [", "f("}

var tails = []string{"", "", "", "]", ")", "*", "'", "\"", " a", " and", "\n", " = 1", ",)", ",]", "..", " or b", " is null", "\x00"}

// fixed families: every construct alone, complete, cut and broken.
var fixed []family

func init() {
	for _, p := range pairs {
		for _, m := range []string{"a", "a = 1", "1"} {
			fixed = append(fixed, family{"", p[0], m, p[1], "", "nested"})
		}
		fixed = append(fixed, family{"", p[0], "a = 1", "", "", "cut"}, family{"", p[0], "", "", "", "cut"}, family{"", p[0], "a = 1", p[1], " *", "broken"}, family{"", p[0], "a = *", p[1], "", "broken"})
	}
	for _, u := range units {
		for _, h := range []string{"a", "", "a = 1", "a in [1", "f(1"} {
			t := map[string]string{"a in [1": "]", "f(1": ")"}[h]
			fixed = append(fixed, family{h, u, "", "", t, "repeated"}, family{h, u, "", "", t + " *", "broken"})
		}
	}
}

func random(r *rand.Rand) family {
	f := family{head: gen.Pick(r, heads), mid: gen.Pick(r, mids), tail: gen.Pick(r, tails)}
	f.kind = "nested"
	if r.IntN(3) == 0 {
		f.kind = "repeated"
		for i := 1 + r.IntN(3); i > 0; i-- {
			f.open += gen.Pick(r, units)
		}
		if r.IntN(2) == 0 {
			f.shut = gen.Pick(r, units)
		}
		return f
	}
	for i := 1 + r.IntN(3); i > 0; i-- {
		p := gen.Pick(r, pairs)
		f.open += p[0]
		f.shut = p[1] + f.shut
		if r.IntN(6) == 0 {
			u := gen.Pick(r, units)
			if r.IntN(2) == 0 {
				f.open += u
			} else {
				f.shut = u + f.shut
			}
		}
	}
	switch r.IntN(5) {
	case 0:
		f.shut, f.kind = "", "cut"
	case 1:
		f.tail += " *"
		f.kind = "broken"
	}
	return f
}

var texts uint

// fresh makes blanks that no text had before, so that nothing kept from
// earlier texts makes one text cheap and the next one dear.
func fresh() string {
	texts++
	b := make([]byte, 24)
	for i := range b {
		b[i] = " \t"[texts>>i&1]
	}
	return string(b)
}

type operation struct {
	name string
	// prep makes what is needed before counting; nil: not applicable
	prep func(w *world, q string, f family, n int) (func() error, error)
}

var operations = []operation{
	{"parse", func(w *world, q string, _ family, _ int) (func() error, error) {
		return func() error { _, err := miniquery.Parse(q); return err }, nil
	}},
	{"print", func(w *world, q string, _ family, _ int) (func() error, error) {
		n, err := miniquery.Parse(q)
		return func() error {
			_ = miniquery.Build(n)
			_ = n.String()
			return nil
		}, err
	}},
	{"walk", func(w *world, q string, _ family, _ int) (func() error, error) {
		n, err := miniquery.Parse(q)
		return func() error {
			v := miniquery.Visitor{}
			v.Init()
			return v.Visit(context.Background(), n)
		}, err
	}},
	{"join many", func(w *world, _ string, f family, n int) (func() error, error) {
		_, err := miniquery.Parse(f.text(1))
		list := make([]string, n)
		for i := range list {
			list[i] = f.text(i % 2)
		}
		list[0] = fresh() + list[0]
		return func() error { _, err := miniquery.Parse(miniquery.Join(list)); return err }, err
	}},
	{"gorm many", func(w *world, _ string, f family, n int) (func() error, error) {
		_, err := miniquery.Parse(f.text(1))
		list := make([]string, n)
		for i := range list {
			list[i] = f.text(1)
		}
		list[0] = fresh() + list[0]
		return func() error {
			var l []Row
			return w.db.Session(&gorm.Session{NewDB: true}).Model(&Row{}).Scopes(gormq.MiniQuery{Query: list}.Scope).Find(&l).Error
		}, err
	}},
	{"join", func(w *world, q string, _ family, _ int) (func() error, error) {
		return func() error { _, err := miniquery.Parse(miniquery.Join([]string{q, "a = 1", q})); return err }, nil
	}},
	{"gorm", func(w *world, q string, _ family, _ int) (func() error, error) {
		_, err := miniquery.Parse(fresh() + q)
		return func() error {
			var l []Row
			return w.db.Session(&gorm.Session{NewDB: true}).Model(&Row{}).Scopes(gormq.ApplyMiniQuery(q)).Find(&l).Error
		}, err
	}},
	{"ent sql", func(w *world, q string, _ family, _ int) (func() error, error) {
		_, err := miniquery.Parse(fresh() + q)
		return func() error {
			sel := sql.Dialect(dialect.Postgres).Select("id").From(sql.Table("rows"))
			sel.Where(sql.P(func(b *sql.Builder) { b.Join(&entmq.MiniQLToEntSQLBuilder{QueryString: q, Node: w.node}) }))
			sel.Query()
			return sel.Err()
		}, err
	}},
	{"ent predicate", func(w *world, q string, _ family, _ int) (func() error, error) {
		_, err := miniquery.Parse(fresh() + q)
		return func() error { _, err := entmq.BuildEntQL(q); return err }, err
	}},
}

type cost struct{ steps, bytes uint64 }

func measure(f func() error) (cost, error, error) {
	var a, b runtime.MemStats
	if err := reset(); err != nil {
		return cost{}, nil, err
	}
	runtime.ReadMemStats(&a)
	err := f()
	runtime.ReadMemStats(&b)
	n, e := steps()
	return cost{n, b.TotalAlloc - a.TotalAlloc}, err, e
}

func run(c *core.C) {
	w := c.State.(*world)
	var f family
	if c.Index < len(fixed) {
		f = fixed[c.Index]
	} else {
		f = random(c.R)
	}
	limit := 256
	if c.IsThorough() {
		limit = 1024
	}
	for _, op := range operations {
		var costs = map[int]cost{}
		var err error
		at := func(n int) (cost, bool) {
			q := fresh() + f.text(n)
			do, skip := op.prep(w, q, f, n)
			if skip != nil {
				return cost{}, false
			}
			c.Eval(1)
			var k cost
			var e error
			if !c.Guard(fmt.Sprintf("%s of %q", op.name, q), func() { k, err, e = measure(do) }) {
				return cost{}, false
			}
			if e != nil {
				panic(e)
			}
			costs[n] = k
			return k, true
		}
		// judge compares n with half of it
		judge := func(n int, by float64) bool {
			a, b := costs[n/2], costs[n]
			const base = 400 // fixed part, steps
			if float64(b.steps) > by*float64(a.steps+base) {
				c.Fail("steps grow too fast", "%s of texts like %q: %d steps for n=%d, %d for n=%d", op.name, f.text(3), a.steps, n/2, b.steps, n)
				return false
			}
			if float64(b.bytes) > by*float64(a.bytes+200_000) {
				c.Fail("memory grows too fast", "%s of texts like %q: %d bytes for n=%d, %d for n=%d", op.name, f.text(3), a.bytes, n/2, b.bytes, n)
				return false
			}
			return true
		}
		ok := true
		for n := 1; n <= 14 && ok; n++ {
			if _, ok = at(n); !ok {
				break
			}
			if n%2 == 0 && n >= 8 {
				ok = judge(n, 8)
			}
		}
		if c.Fails > 0 {
			return
		}
		if !ok {
			continue
		}
		for n := 16; n <= limit && ok; n *= 2 {
			if _, ok = at(n); !ok {
				break
			}
			by := 8.0
			if n >= 64 {
				by = 4.8
			}
			ok = judge(n, by)
		}
		if c.Fails > 0 {
			return
		}
		if !ok {
			continue
		}
		c.Tag(op.name)
		if op.name == "parse" {
			c.Tag(map[bool]string{true: "parse accepted", false: "parse refused"}[err == nil])
		}
		c.Tag(f.kind)
		if len(f.text(limit)) > 2000 {
			c.Tag("long")
		}
		c.Distinct(fmt.Sprintf("%s %q", op.name, f))
		c.Sample("%s of %q: %d steps at n=%d, %d at n=%d", op.name, f.text(2), costs[limit/2].steps, limit/2, costs[limit].steps, limit)
	}
}
