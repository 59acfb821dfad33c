package entdb

import (
	"fmt"
	"strings"

	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/entql"

	"github.com/wenerme/go-miniquery/entmq"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/oracle"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C21", Quick: 1_000_000, Thorough: 8_000_000,
		Setup: setup, Run: runC21,
		Rule:        "half: random supported query (any names, literals and grouping), the structure of the predicate is compared with the generated tree; half: random typed condition with columns on the left, the predicate is evaluated against the schema graph in a select statement and its rows are compared with an independently written statement; non-trivial: more than one node, or neither none nor all rows; distinct by tree",
		MinDistinct: 30_000,
		MinTags:     append([]string{"structure", "rows", "some rows", "bare operand", "null", "list", "double not", "chain", "Build", "BuildEntQL", "ApplyEntQL"}, opTags...),
		Assumptions: []string{"SQLite decides comparisons of mixed types", "ent evaluates only predicates with a column on the left"},
	})
}

// show writes a predicate with its grouping; nested and/or of one kind are one
// list, as their grouping carries no meaning.
func show(e entql.Expr) (string, error) {
	list := func(op entql.Op, xs []entql.Expr) (string, error) {
		var out []string
		for _, x := range xs {
			if err := flat(op, x, &out); err != nil {
				return "", err
			}
		}
		return "(" + strings.Join(out, map[entql.Op]string{entql.OpAnd: " and ", entql.OpOr: " or "}[op]) + ")", nil
	}
	switch e := e.(type) {
	case nil:
		return "", fmt.Errorf("missing operand")
	case *entql.Field:
		return "field:" + e.Name, nil
	case *entql.Value:
		return showValue(e.V)
	case *entql.UnaryExpr:
		if e.Op != entql.OpNot {
			return "", fmt.Errorf("unary %v", e.Op)
		}
		x, err := show(e.X)
		return "not " + x, err
	case *entql.NaryExpr:
		if e.Op != entql.OpAnd && e.Op != entql.OpOr {
			return "", fmt.Errorf("list of %v", e.Op)
		}
		return list(e.Op, e.Xs)
	case *entql.BinaryExpr:
		if e.Op == entql.OpAnd || e.Op == entql.OpOr {
			return list(e.Op, []entql.Expr{e.X, e.Y})
		}
		op, ok := map[entql.Op]string{
			entql.OpEQ: "eq", entql.OpNEQ: "neq", entql.OpGT: "gt", entql.OpGTE: "gte", entql.OpLT: "lt", entql.OpLTE: "lte", entql.OpIn: "in", entql.OpNotIn: "not in",
		}[e.Op]
		if !ok {
			return "", fmt.Errorf("operator %v", e.Op)
		}
		x, err := show(e.X)
		if err != nil {
			return "", err
		}
		y, err := show(e.Y)
		return "(" + x + " " + op + " " + y + ")", err
	}
	return "", fmt.Errorf("unexpected %T", e)
}

func flat(op entql.Op, e entql.Expr, out *[]string) error {
	switch x := e.(type) {
	case *entql.BinaryExpr:
		if x.Op == op {
			if err := flat(op, x.X, out); err != nil {
				return err
			}
			return flat(op, x.Y, out)
		}
	case *entql.NaryExpr:
		if x.Op == op {
			for _, k := range x.Xs {
				if err := flat(op, k, out); err != nil {
					return err
				}
			}
			return nil
		}
	}
	s, err := show(e)
	*out = append(*out, s)
	return err
}

func showValue(v any) (string, error) {
	switch v := v.(type) {
	case nil:
		return "null", nil
	case int:
		return fmt.Sprintf("int:%d", v), nil
	case int64:
		return fmt.Sprintf("int:%d", v), nil
	case bool:
		return fmt.Sprintf("bool:%v", v), nil
	case string:
		return fmt.Sprintf("text:%q", v), nil
	case []any:
		var out []string
		for _, x := range v {
			s, err := showValue(x)
			if err != nil {
				return "", err
			}
			out = append(out, s)
		}
		return "[" + strings.Join(out, ",") + "]", nil
	}
	return "", fmt.Errorf("value of type %T", v)
}

// Readings of not between.
const (
	readOr = iota
	readNot
	readConj // the known finding
)

// read writes the tree of a query in the same notation.
func read(n *ref.N, mode int) string {
	flatten := func(op string, kids ...*ref.N) string {
		var out []string
		var add func(k *ref.N)
		add = func(k *ref.N) {
			for k.K == ref.Paren {
				k = k.Kids[0]
			}
			if k.K == ref.Between && k.Op == "not between" && mode != readNot {
				k = between(k, mode)
			} else if k.K == ref.Between && k.Op == "between" {
				k = between(k, mode)
			}
			if k.K == ref.Logic && k.Op == op {
				for _, x := range k.Kids {
					add(x)
				}
				return
			}
			out = append(out, read(k, mode))
		}
		for _, k := range kids {
			add(k)
		}
		return "(" + strings.Join(out, " "+op+" ") + ")"
	}
	switch n.K {
	case ref.Paren:
		return read(n.Kids[0], mode)
	case ref.Ident:
		return "field:" + n.Name
	case ref.Int:
		s, _ := showValue(n.I)
		return s
	case ref.Str:
		s, _ := showValue(n.S)
		return s
	case ref.Bool:
		s, _ := showValue(n.B)
		return s
	case ref.Null:
		return "null"
	case ref.Arr:
		var out []string
		for _, k := range n.Kids {
			out = append(out, read(k, mode))
		}
		return "[" + strings.Join(out, ",") + "]"
	case ref.Not:
		return "not " + read(n.Kids[0], mode)
	case ref.Logic:
		return flatten(n.Op, n.Kids...)
	case ref.Cmp:
		return "(" + read(n.Kids[0], mode) + " " + n.Op + " " + read(n.Kids[1], mode) + ")"
	case ref.Between:
		return read(between(n, mode), mode)
	}
	panic("harness: no predicate for " + ref.Dump(n))
}

// between writes a range as comparisons.
func between(n *ref.N, mode int) *ref.N {
	pair := func(op, a, b string) *ref.N {
		return &ref.N{K: ref.Logic, Op: op, Kids: []*ref.N{
			{K: ref.Cmp, Op: a, Kids: []*ref.N{n.Kids[0], n.Kids[1]}},
			{K: ref.Cmp, Op: b, Kids: []*ref.N{n.Kids[0], n.Kids[2]}},
		}}
	}
	switch {
	case n.Op == "between":
		return pair("and", "gte", "lte")
	case mode == readNot:
		return &ref.N{K: ref.Not, Kids: []*ref.N{pair("and", "gte", "lte")}}
	case mode == readConj:
		return pair("and", "lt", "gt")
	}
	return pair("or", "lt", "gt")
}

// isPredicate tells if a tree yields true or false by itself.
func isPredicate(n *ref.N) bool {
	for n.K == ref.Paren {
		n = n.Kids[0]
	}
	return n.K == ref.Not || n.K == ref.Logic || n.K == ref.Cmp || n.K == ref.Between
}

// supported tells if ent has a predicate for the tree.
func supported(n *ref.N) bool {
	return isPredicate(n) && !n.Any(func(m *ref.N) bool {
		switch m.K {
		case ref.Fn, ref.Pred, ref.Path:
			return true
		case ref.Cmp:
			return m.Op == "like" || m.Op == "not like"
		case ref.Not:
			return !isPredicate(m.Kids[0])
		}
		return false
	})
}

type target struct{ got []entql.P }

func (t *target) Where(p entql.P) { t.got = append(t.got, p) }

// buildP builds the predicate in one of the ways there are.
func buildP(c *core.C, way, q string) (p entql.P, err error) {
	switch way {
	case "Build":
		return (&entmq.MiniQLToEntQLBuilder{Query: q}).Build()
	case "BuildEntQL":
		return entmq.BuildEntQL(q)
	}
	t := &target{}
	err = entmq.ApplyEntQL(t, []string{q})
	if len(t.got) > 0 {
		p = t.got[0]
	}
	if len(t.got) > 1 {
		c.Fail("several predicates", "query %q: %v", q, t.got)
	}
	return
}

var waysP = []string{"Build", "BuildEntQL", "ApplyEntQL"}

// checkShape compares a predicate with the tree.
func checkShape(c *core.C, q string, cond *ref.N, p entql.P) bool {
	var got string
	var err error
	if !c.Guard("reading the predicate of "+q, func() { _ = p.String(); got, err = show(p) }) {
		return false
	}
	if err != nil {
		c.Fail("malformed predicate", "query %q: %v in %v", q, err, p)
		return false
	}
	want := read(cond, readOr)
	if got == want || got == read(cond, readNot) {
		return true
	}
	if hasNotBetween(cond) && got == read(cond, readConj) {
		if c.Check.ID == "C21" {
			c.KnownFinding(knownNotBetween, "query %q\ngot  %s\nwant %s", q, got, want)
		}
		return true
	}
	c.Fail("other predicate", "query %q\ngot  %s\nwant %s", q, got, want)
	return false
}

func runC21(c *core.C) {
	w := c.State.(*world)
	r := c.R
	rows := r.IntN(2) == 0
	t := gen.Pick(r, tables)
	ty := t.typed(r, 1+r.IntN(12), 0)
	ty.Date, ty.IsNull, ty.Like, ty.Bare, ty.LeftOnly = false, false, false, !rows, rows
	if rows {
		ty.Cols = nil
		for _, k := range t.cols {
			ty.Cols = append(ty.Cols, gen.Col{Names: []string{k.name}, Class: k.class})
		}
	}
	var cond *ref.N
	for i := 0; ; i++ {
		cond = ty.Expr()
		if rows && r.IntN(25) == 0 {
			cond = ty.Empty(cond)
			c.Tag("empty list")
		}
		if !rows && r.IntN(2) == 0 {
			cond = gen.New(r, 2+r.IntN(10)).Expr()
		}
		if supported(cond) {
			break
		}
		if i > 200 {
			c.Tag("skipped")
			return
		}
	}
	q, ok := text(r, cond)
	if !ok {
		c.Tag("skipped")
		return
	}
	way := gen.Pick(r, waysP)
	c.Eval(1)
	var p entql.P
	var err error
	if !c.Guard("query "+q, func() { p, err = buildP(c, way, q) }) {
		return
	}
	if err != nil || p == nil {
		c.Fail("query fails", "query %q: predicate %v error %v", q, p, err)
		return
	}
	if !checkShape(c, q, cond, p) {
		return
	}
	tagTree(c, cond)
	c.Tag(way)
	cond.Walk(func(m *ref.N) {
		switch m.K {
		case ref.Null:
			c.Tag("null")
		case ref.Arr:
			c.Tag("list")
		case ref.Logic:
			for _, k := range m.Kids {
				if !isPredicate(k) {
					c.Tag("bare operand")
				}
			}
		case ref.Cmp:
			if m.Kids[0].K == ref.Cmp {
				c.Tag("chain")
			}
		case ref.Not:
			if isPredicate(m.Kids[0]) && (m.Kids[0].K == ref.Not || m.Kids[0].K == ref.Paren && m.Kids[0].Kids[0].K == ref.Not) {
				c.Tag("double not")
			}
		}
	})
	if !rows {
		c.Tag("structure")
		if cond.Size() > 3 {
			c.Distinct(ref.Dump(cond))
		}
		return
	}
	c.Tag("rows")
	var got []int
	var stmt string
	if !c.Guard("evaluating "+q, func() {
		sel := sqlite().Select(t.id).From(sql.Table(t.name))
		if err = w.graph.EvalP(t.typ, p, sel); err != nil {
			return
		}
		var args []any
		stmt, args = sel.OrderBy(t.id).Query()
		if err = sel.Err(); err == nil {
			got, err = w.ids(stmt, args...)
		}
	}) {
		return
	}
	if oracle.Limit(err) {
		c.Tag("database limit")
		return
	}
	if err != nil {
		c.Fail("predicate fails", "query %q: %v\n%s", q, err, stmt)
		return
	}
	want, alt := w.expected(t, cond, func(s string) string { return s }, anyLeft)
	if !same(got, want) {
		if alt == nil || !same(got, alt) {
			c.Fail("wrong rows", "query %q on %s\n%s\ngot  %v\nwant %v", q, t.name, stmt, got, want)
			return
		}
		c.KnownFinding(knownNotBetween, "query %q on %s\n%s\ngot  %v\nwant %v", q, t.name, stmt, got, want)
	}
	if len(want) > 0 && len(want) < t.rows {
		c.Tag("some rows")
		c.Distinct(ref.Dump(cond))
		c.Sample("%s %q: %d rows", t.name, q, len(want))
	}
}
