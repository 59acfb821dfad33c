package entdb

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"

	"github.com/wenerme/go-miniquery/entmq"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C20", Quick: 1_000_000, Thorough: 8_000_000,
		Setup: setup, Run: runC20,
		Rule:        "a random supported condition over one of four tables with edges gets one unsupported construct at a random place, also inside edge conditions, or has no schema, or text broken so that the grammar rejects it; built alone, joined into a builder, a predicate or a select statement, or written to a given builder; the builder and the statement must carry an error and, unless written to the given builder, no text or argument may appear; distinct by query and context",
		MinDistinct: 50_000,
		MinTags: []string{"syntax", "function", "path", "is true or false", "edge without parameters", "unknown edge", "edge of other table", "edge name is no name", "edge with three parameters",
			"edge condition is no condition", "no schema", "edge without edges", "date parameters", "inside edge 1", "inside edge 2", "inside edge 3", "top", "deep", "alone", "builder", "selector", "into", "negated", "alternative"},
	})
}

func ident(s string) *ref.N { return &ref.N{K: ref.Ident, Name: s} }

func literal(r *rand.Rand) *ref.N {
	return gen.Pick(r, []*ref.N{{K: ref.Int, I: 1}, {K: ref.Str, S: "a"}, {K: ref.Bool, B: true}, {K: ref.Null}, {K: ref.Str, S: "name"}}).Clone()
}

func edgeFn(name string, more ...*ref.N) *ref.N {
	return &ref.N{K: ref.Fn, Name: "has_edge", Kids: append([]*ref.N{ident(name)}, more...)}
}

func simple(r *rand.Rand) *ref.N {
	return gen.Pick(r, []*ref.N{
		{K: ref.Cmp, Op: "eq", Kids: []*ref.N{ident("name"), {K: ref.Str, S: "a"}}},
		{K: ref.Cmp, Op: "gt", Kids: []*ref.N{ident("id"), {K: ref.Int, I: 3}}},
		{K: ref.Pred, Op: "is null", Kids: []*ref.N{ident("qty")}},
		{K: ref.Paren, Kids: []*ref.N{ident("active")}},
	}).Clone()
}

// spot is a place in a tree where something may be put.
type spot struct {
	n     *ref.N
	t     *table // table the place speaks about
	edges int
	depth int
}

func spots(n *ref.N, s spot, out *[]spot) {
	s.n = n
	switch {
	case n.K == ref.Arr:
		return
	case n.K == ref.Fn && n.Name == "has_edge":
		*out = append(*out, s)
		if len(n.Kids) > 1 {
			s.t, s.edges = s.t.edge(n.Kids[0].Name).to, s.edges+1
			spots(n.Kids[1], s, out)
		}
		return
	}
	*out = append(*out, s)
	s.depth++
	for _, k := range n.Kids {
		spots(k, s, out)
	}
}

// fault puts something unsupported into the tree. t is the table of the place.
func fault(r *rand.Rand, t *table) (kind string, n *ref.N) {
	e := gen.Pick(r, t.edges)
	switch r.IntN(10) {
	case 0:
		n = &ref.N{K: ref.Fn, Name: gen.Pick(r, []string{"now", "lower", "count", "sleep", "dates", "dat", "has_edges", "hasEdge", "has_edg", "Date", "DATE", "HAS_EDGE", "x", "datetime", "exists", "coalesce", "raw"})}
		for i := r.IntN(3); i > 0; i-- {
			n.Kids = append(n.Kids, gen.Pick(r, []*ref.N{ident("qty"), ident("name"), literal(r), ident(e.name)}))
		}
		return "function", n
	case 1:
		l := []string{gen.Pick(r, []string{"a", "users", "owner", "name", e.name}), gen.Pick(r, []string{"name", "id", "x"})}
		if r.IntN(3) == 0 {
			l = append(l, "name")
		}
		return "path", &ref.N{K: ref.Path, Names: l}
	case 2:
		n = gen.Pick(r, []*ref.N{ident("active"), ident("name"), {K: ref.Paren, Kids: []*ref.N{simple(r)}}})
		return "is true or false", &ref.N{K: ref.Paren, Kids: []*ref.N{{K: ref.Pred, Op: gen.Pick(r, []string{"is true", "is false", "is not true", "is not false"}), Kids: []*ref.N{n}}}}
	case 3:
		return "edge without parameters", &ref.N{K: ref.Fn, Name: "has_edge"}
	case 4:
		n = edgeFn(gen.Pick(r, []string{"nope", "name", "Pets", "pet", "PETS", "users", "pets_", "id", "Owner", "owners", "user_groups"}))
		if t.edge(n.Kids[0].Name) != nil {
			n.Kids[0].Name = "nope"
		}
		if r.IntN(2) == 0 {
			n.Kids = append(n.Kids, simple(r))
		}
		return "unknown edge", n
	case 5:
		// an edge another table has
		for {
			o := gen.Pick(r, tables)
			x := gen.Pick(r, o.edges)
			if t.edge(x.name) == nil {
				n = edgeFn(x.name)
				if r.IntN(2) == 0 {
					n.Kids = append(n.Kids, simple(r))
				}
				return "edge of other table", n
			}
		}
	case 6:
		n = edgeFn("")
		n.Kids[0] = gen.Pick(r, []*ref.N{literal(r), simple(r), {K: ref.Path, Names: []string{e.name, "name"}}, {K: ref.Paren, Kids: []*ref.N{ident(e.name)}}, {K: ref.Str, S: e.name}, {K: ref.Fn, Name: e.name}, {K: ref.Fn, Name: e.name, Kids: []*ref.N{ident("name")}}, edgeFn(e.name)})
		if r.IntN(2) == 0 {
			n.Kids = append(n.Kids, simple(r))
		}
		return "edge name is no name", n
	case 7:
		n = edgeFn(e.name, simple(r), simple(r))
		if r.IntN(3) == 0 {
			n.Kids = append(n.Kids, literal(r))
		}
		return "edge with three parameters", n
	case 8:
		return "edge condition is no condition", edgeFn(e.name, gen.Pick(r, []*ref.N{literal(r), ident("name"), ident("id"), {K: ref.Path, Names: []string{"a", "b"}}}))
	}
	n = &ref.N{K: ref.Fn, Name: "date"}
	for i := gen.Pick(r, []int{0, 2, 3}); i > 0; i-- {
		n.Kids = append(n.Kids, gen.Pick(r, []*ref.N{ident("sold_at"), literal(r)}).Clone())
	}
	return "date parameters", n
}

var brokenTexts = []string{
	"", " ", "qty = 1) or (1 = 1", "1=1)", "(1=1", ") or (", "qty = 1 or", "or 1=1", "') or 1=1 --", ")", "(", "'", "qty = 'a", "qty = 1; drop table items", "qty == ", "not", "qty in (1", "qty between 1 and",
	"date(qty", "has_edge(pets", "has_edge(pets, )", "qty = 1 and", "&& 1=1", "qty->x = 1", "a b", "has_edge(pets, qty = )", "99999999999999999999 = qty",
}

func runC20(c *core.C) {
	w := c.State.(*world)
	r := c.R
	t := gen.Pick(r, tables)
	cond := t.typed(r, 1+r.IntN(8), r.IntN(4)).Expr()
	node := w.nodes[t]
	var q, kind string
	ok := false
	var at spot
	switch k := r.IntN(12); {
	case k < 2:
		kind = "syntax"
		if q, ok = text(r, cond); ok {
			ok = false
			for i := 0; i < 20 && !ok; i++ {
				s := gen.Mutate(r, q)
				if r.IntN(4) == 0 {
					s = gen.Pick(r, brokenTexts)
				}
				if _, err := ref.Parse(s); err == ref.ErrReject {
					q, ok = s, true
				}
			}
		}
	case k == 2:
		if edgeDepth(cond) == 0 {
			c.Tag("skipped")
			return
		}
		kind, node = "no schema", nil
		if r.IntN(3) == 0 {
			kind, node = "edge without edges", &sqlgraph.Node{NodeSpec: w.nodes[t].NodeSpec, Type: t.typ, Fields: w.nodes[t].Fields}
		}
		q, ok = text(r, cond)
	default:
		var l []spot
		spots(cond, spot{t: t}, &l)
		at = gen.Pick(r, l)
		for i := 0; i < 3 && at.edges < 2; i++ {
			at = gen.Pick(r, l)
		}
		var n *ref.N
		kind, n = fault(r, at.t)
		*at.n = *n
		q, ok = text(r, cond)
	}
	if !ok {
		c.Tag("skipped")
		return
	}
	ctx := gen.Pick(r, []string{"alone", "builder", "selector", "into", "negated", "alternative"})
	d := gen.Pick(r, []string{dialect.Postgres, dialect.MySQL, dialect.SQLite})
	mb := &entmq.MiniQLToEntSQLBuilder{QueryString: q, Node: node, DisableTypeCasting: r.IntN(2) == 0}
	if r.IntN(2) == 0 {
		mb.Graph = w.graph
	}
	c.Eval(1)
	var txt string
	var args []any
	var err error // of the statement
	want := ""
	what := fmt.Sprintf("%s: %q, %s, %s", kind, q, d, ctx)
	if !c.Guard(what, func() {
		sel := sql.Dialect(d).Select("id").From(sql.Table(t.name))
		switch ctx {
		case "alone":
			mb.SetDialect(d)
			txt, args = mb.Query()
			err = mb.Err()
		case "builder":
			sb := &sql.Builder{}
			sb.SetDialect(d)
			sb.WriteString("<").Join(mb).WriteString(">")
			txt, args = sb.Query()
			err = sb.Err()
			want = "<>"
		case "into":
			sb := &sql.Builder{}
			sb.SetDialect(d)
			mb.SQLBuilder = sb
			s, l := mb.Query()
			// the text is in the given builder, and of no use
			if s != "" || len(l) > 0 {
				txt, args = s, l
			}
			err = mb.Err()
		case "selector":
			sel.Where(sql.GT("id", 0)).Where(predicate(mb, r.IntN(2) == 0)).Where(sql.LT("id", 9))
			sel.Query()
			err = sel.Err()
		case "negated":
			// ent drops errors inside parentheses of its own
			sel.Where(sql.Not(predicate(mb, false)))
			_, args = sel.Query()
			err = mb.Err()
		case "alternative":
			sel.Where(sql.Or(sql.GT("id", 0), predicate(mb, false)))
			sel.Query()
			err = sel.Err()
		}
	}) {
		return
	}
	switch {
	case mb.Err() == nil:
		c.Fail("no error", "%s", what)
		return
	case err == nil:
		c.Fail("error does not reach the statement", "%s: %v", what, mb.Err())
		return
	case strings.TrimSpace(err.Error()) == "":
		c.Fail("empty error", "%s", what)
		return
	case txt != want || len(args) > 0:
		c.Fail("text in spite of an error", "%s: %v\n%s %v", what, err, txt, args)
		return
	}
	c.Tag(kind)
	c.Tag(ctx)
	if at.n != nil {
		switch {
		case at.edges > 0:
			c.Tag(fmt.Sprintf("inside edge %d", at.edges))
		case at.depth == 0:
			c.Tag("top")
		case at.depth > 2:
			c.Tag("deep")
		}
	}
	c.Distinct(ctx + " " + q)
	c.Sample("%s: %v", what, err)
}
