package entdb

import (
	"fmt"
	"math/rand/v2"

	"entgo.io/ent/dialect/sql"

	"github.com/wenerme/go-miniquery/entmq"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/oracle"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C17", Quick: 600_000, Thorough: 4_000_000,
		Setup: setup, Run: runC17,
		Rule:        "random typed condition over the columns of a table, joined into ent select, update and delete statements alone, before, after or between other predicates, negated or as an alternative, with casting on or off, by joining or by writing to the given builder; rows compared with an independently written statement on the same 60 rows, one of which gets values of the query; non-trivial: neither none nor all rows qualify; distinct by tree",
		MinDistinct: 15_000,
		MinTags:     append([]string{"some rows", "condition as operand", "alone", "before", "after", "both", "negated", "alternative", "select", "update", "delete", "join", "into", "casting", "no casting", "date", "op like", "op not like", "op is null", "op is not null"}, opTags...),
		Assumptions: []string{"SQLite decides comparisons of mixed types", "empty lists only where they are not negated"},
	})
	core.Register(&core.Check{
		ID: "C18", Quick: 300_000, Thorough: 3_000_000,
		Setup: setup, Run: runC18,
		Rule:        "random typed condition over one of four tables with edge conditions up to three levels over every edge kind, direction and self edges, sharing column names; rows compared with a statement of correlated EXISTS; non-trivial: has an edge and neither none nor all rows qualify; distinct by tree",
		MinDistinct: 5_000,
		MinTags: append([]string{"some rows", "condition as operand", "depth 1", "depth 2", "depth 3", "no condition", "users", "pets", "cards", "groups", "into", "join", "casting", "no casting", "negated edge", "or with edge",
			"users.pets", "users.card", "users.groups", "users.friends", "users.followers", "users.following", "users.manager", "users.reports", "users.spouse", "users.best_pets", "users.lineManager", "users.Card2", "select", "update", "delete", "pets.owner", "cards.owner", "groups.users", "groups.animals", "pets.home", "op is null"}, opTags...),
		Assumptions: []string{"SQLite decides comparisons of mixed types"},
	})
}

// companion is another predicate of the statement and its meaning.
func companion(r *rand.Rand, t *table, alias string) (*sql.Predicate, string) {
	v, s := gen.Pick(r, gen.Ints()), gen.Pick(r, gen.Texts())
	switch r.IntN(6) {
	case 0:
		return sql.GT("qty", v), fmt.Sprintf("(%s.qty > %d)", alias, v)
	case 1:
		return sql.Or(sql.EQ("name", s), sql.LT(t.id, 30)), fmt.Sprintf("(%s.name = %s OR %s.%s < 30)", alias, oracle.Quote(s), alias, t.id)
	case 2:
		return sql.Not(sql.EQ("qty", v)), fmt.Sprintf("(NOT (%s.qty = %d))", alias, v)
	case 3:
		return sql.In("qty", 1, 2, 3, v), fmt.Sprintf("(%s.qty IN (1,2,3,%d))", alias, v)
	case 4:
		return sql.And(sql.GTE(t.id, 3), sql.NotNull("name")), fmt.Sprintf("(%s.%s >= 3 AND %s.name IS NOT NULL)", alias, t.id, alias)
	}
	return sql.NEQ("name", s), fmt.Sprintf("(%s.name <> %s)", alias, oracle.Quote(s))
}

// run executes a statement with the filter in it and returns ids, or a number
// of rows for update and delete.
func (w *world) run(r *rand.Rand, c *core.C, t *table, q string, and *func(string) string) (ids []int, count bool, desc string, err error) {
	mb := &entmq.MiniQLToEntSQLBuilder{QueryString: q, Node: w.nodes[t], Graph: w.graph, DisableTypeCasting: r.IntN(2) == 0}
	into := r.IntN(3) == 0
	p := predicate(mb, into)
	var before, after *sql.Predicate
	var bs, as string
	kind := gen.Pick(r, []string{"alone", "before", "after", "both", "negated", "alternative"})
	switch kind {
	case "alone":
		*and = func(s string) string { return s }
	case "before":
		after, as = companion(r, t, "o")
		*and = func(s string) string { return "(" + s + " AND " + as + ")" }
	case "after":
		before, bs = companion(r, t, "o")
		*and = func(s string) string { return "(" + s + " AND " + bs + ")" }
	case "both":
		before, bs = companion(r, t, "o")
		after, as = companion(r, t, "o")
		*and = func(s string) string { return "(" + s + " AND " + as + " AND " + bs + ")" }
	case "negated":
		p = sql.Not(p)
		*and = func(s string) string { return "(NOT " + s + ")" }
	case "alternative":
		var x *sql.Predicate
		x, bs = companion(r, t, "o")
		if r.IntN(2) == 0 {
			p = sql.Or(p, x)
		} else {
			p = sql.Or(x, p)
		}
		*and = func(s string) string { return "(" + s + " OR " + bs + ")" }
	}
	stmt := gen.Pick(r, []string{"select", "select", "select", "update", "delete"})
	var text string
	var args []any
	switch stmt {
	case "select":
		sel := sqlite().Select(t.id).From(sql.Table(t.name))
		for _, x := range []*sql.Predicate{before, p, after} {
			if x != nil {
				sel.Where(x)
			}
		}
		sel.OrderBy(t.id)
		text, args = sel.Query()
		err = sel.Err()
	case "update":
		u := sqlite().Update(t.name).Set("mark", 1)
		for _, x := range []*sql.Predicate{before, p, after} {
			if x != nil {
				u.Where(x)
			}
		}
		text, args = u.Query()
		err = u.Err()
	case "delete":
		u := sqlite().Delete(t.name)
		for _, x := range []*sql.Predicate{before, p, after} {
			if x != nil {
				u.Where(x)
			}
		}
		text, args = u.Query()
	}
	if err == nil {
		err = mb.Err()
	}
	c.Tag(kind)
	c.Tag(stmt)
	c.Tag(map[bool]string{true: "into", false: "join"}[into])
	c.Tag(map[bool]string{true: "no casting", false: "casting"}[mb.DisableTypeCasting])
	desc = fmt.Sprintf("%s, filter %s\nstatement %s %v", stmt, kind, text, args)
	if err != nil {
		return
	}
	if stmt == "select" {
		ids, err = w.ids(text, args...)
		return
	}
	tx, err := w.raw.Begin()
	if err != nil {
		panic(err)
	}
	defer func() { _ = tx.Rollback() }()
	res, err := tx.Exec(text, args...)
	if err != nil {
		return
	}
	n, _ := res.RowsAffected()
	return []int{int(n)}, true, desc, nil
}

// compare runs one query and compares the rows.
func compare(c *core.C, w *world, t *table, cond *ref.N, q string) (want []int, ok bool) {
	r := c.R
	c.Eval(1)
	var got []int
	var count bool
	var desc string
	var err error
	var and func(string) string
	if !c.Guard("query "+q, func() { got, count, desc, err = w.run(r, c, t, q, &and) }) {
		return nil, false
	}
	if oracle.Limit(err) {
		c.Tag("database limit")
		return nil, false
	}
	if err != nil {
		c.Fail("query fails", "query %q: %v\n%s", q, err, desc)
		return nil, false
	}
	want, alt := w.expected(t, cond, and, simpleLeft)
	eq := func(l []int) bool {
		if count {
			return got[0] == len(l)
		}
		return same(got, l)
	}
	if !eq(want) {
		if alt == nil || !eq(alt) {
			c.Fail("wrong rows", "query %q on %s\n%s\ntree %s\ngot  %v\nwant %v", q, t.name, desc, ref.Dump(cond), got, want)
			return nil, false
		}
		c.KnownFinding(knownNotBetween, "query %q on %s\n%s\ngot  %v\nwant %v", q, t.name, desc, got, want)
	}
	return want, true
}

func runC17(c *core.C) {
	w := c.State.(*world)
	ty := users.typed(c.R, 3+c.R.IntN(12), 0)
	cond := ty.Expr()
	if c.R.IntN(25) == 0 {
		cond = ty.Empty(cond)
		c.Tag("empty list")
	}
	w.special(c.R, cond)
	q, ok := text(c.R, cond)
	if !ok {
		c.Tag("skipped")
		return
	}
	want, ok := compare(c, w, users, cond, q)
	if !ok {
		return
	}
	tagTree(c, cond)
	if len(want) > 0 && len(want) < users.rows {
		c.Tag("some rows")
		c.Distinct(ref.Dump(cond))
		c.Sample("%q: %d rows", q, len(want))
	}
}

func edgeDepth(n *ref.N) int {
	d := 0
	for _, k := range n.Kids {
		if x := edgeDepth(k); x > d {
			d = x
		}
	}
	if n.K == ref.Fn && n.Name == "has_edge" {
		d++
	}
	return d
}

// tagEdges names the edges used.
func tagEdges(c *core.C, t *table, n *ref.N) {
	if n.K == ref.Fn && n.Name == "has_edge" {
		e := t.edge(n.Kids[0].Name)
		c.Tag(t.name + "." + e.name)
		if len(n.Kids) == 1 {
			c.Tag("no condition")
		} else {
			tagEdges(c, e.to, n.Kids[1])
		}
		return
	}
	for _, k := range n.Kids {
		tagEdges(c, t, k)
		if k.K == ref.Fn && k.Name == "has_edge" {
			switch {
			case n.K == ref.Not:
				c.Tag("negated edge")
			case n.K == ref.Logic && n.Op == "or":
				c.Tag("or with edge")
			}
		}
	}
}

func runC18(c *core.C) {
	w := c.State.(*world)
	r := c.R
	t := gen.Pick(r, []*table{users, users, users, pets, cards, groups})
	cond := t.typed(r, 1+r.IntN(8), 1+r.IntN(3)).Expr()
	d := edgeDepth(cond)
	for i := 0; d == 0; i++ {
		if i == 10 {
			return
		}
		cond = t.typed(r, 1+r.IntN(8), 1+r.IntN(3)).Expr()
		d = edgeDepth(cond)
	}
	w.special(r, cond)
	q, ok := text(r, cond)
	if !ok {
		c.Tag("skipped")
		return
	}
	want, ok := compare(c, w, t, cond, q)
	if !ok {
		return
	}
	tagTree(c, cond)
	tagEdges(c, t, cond)
	c.Tag(t.name)
	c.Tag(fmt.Sprintf("depth %d", d))
	if len(want) > 0 && len(want) < t.rows {
		c.Tag("some rows")
		c.Distinct(ref.Dump(cond))
		c.Sample("%s %q: %d rows", t.name, q, len(want))
	}
}
