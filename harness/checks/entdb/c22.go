package entdb

import (
	"fmt"

	"entgo.io/ent/entql"

	"github.com/wenerme/go-miniquery/entmq"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C22", Quick: 500_000, Thorough: 5_000_000,
		Setup: setup, Run: runC22,
		Rule:        "a random supported query gets one construct without a counterpart at a random place, or is broken so that the grammar rejects it; building it in each way must give an error and no predicate; lists of supported, empty and refused queries are applied to a recording target, which must receive the predicates of the queries before the first refused one, in order; distinct by query or list",
		MinDistinct: 50_000,
		MinTags: []string{"syntax", "function", "path", "predicate", "like", "value at top", "value under not", "top", "deep", "Build", "BuildEntQL", "ApplyEntQL",
			"list", "list refused", "list refused first", "list refused last", "list repeats", "list with empty", "list of nothing"},
	})
}

// refuse makes the tree one ent has no predicate for.
func refuse(c *core.C, cond *ref.N) (kind string) {
	r := c.R
	leaf := func() *ref.N {
		return gen.Pick(r, []*ref.N{ident("qty"), ident("name"), literal(r), {K: ref.Paren, Kids: []*ref.N{ident("id")}}, {K: ref.Paren, Kids: []*ref.N{literal(r)}}})
	}
	k := r.IntN(7)
	if k == 0 {
		*cond = *leaf()
		return "value at top"
	}
	var l []spot
	spots(cond, spot{t: users}, &l)
	at := gen.Pick(r, l)
	var n *ref.N
	switch k {
	case 1:
		kind = "value under not"
		n = &ref.N{K: ref.Not, Kids: []*ref.N{leaf()}}
		if r.IntN(2) == 0 {
			n = &ref.N{K: ref.Paren, Kids: []*ref.N{n}}
		}
	case 2, 3:
		kind = "function"
		n = &ref.N{K: ref.Fn, Name: gen.Pick(r, []string{"date", "has_edge", "now", "lower", "count", "x", "has_prefix", "contains", "func_selector", "not_", "has"})}
		for i := r.IntN(3); i > 0; i-- {
			n.Kids = append(n.Kids, gen.Pick(r, []*ref.N{leaf(), simple(r)}))
		}
	case 4:
		kind = "path"
		n = &ref.N{K: ref.Path, Names: []string{gen.Pick(r, []string{"a", "owner", "pets"}), "name"}}
		if r.IntN(3) == 0 {
			n.Names = append(n.Names, "x")
		}
	case 5:
		kind = "predicate"
		n = &ref.N{K: ref.Paren, Kids: []*ref.N{{K: ref.Pred, Op: gen.Pick(r, []string{"is null", "is not null", "is true", "is false", "is not true", "is not false"}), Kids: []*ref.N{leaf()}}}}
		if r.IntN(2) == 0 {
			n = n.Kids[0]
		}
	case 6:
		kind = "like"
		n = &ref.N{K: ref.Paren, Kids: []*ref.N{{K: ref.Cmp, Op: gen.Pick(r, []string{"like", "not like"}), Kids: []*ref.N{leaf(), leaf()}}}}
		if r.IntN(2) == 0 {
			n = n.Kids[0]
		}
	}
	*at.n = *n
	switch {
	case at.depth == 0:
		c.Tag("top")
	case at.depth > 2:
		c.Tag("deep")
	}
	return kind
}

// supportedQuery makes a query ent has a predicate for.
func supportedQuery(c *core.C, budget int) (string, *ref.N) {
	for {
		ty := users.typed(c.R, budget, 0)
		ty.Date, ty.IsNull, ty.Like = false, false, false
		cond := ty.Expr()
		if c.R.IntN(3) == 0 {
			cond = gen.New(c.R, budget).Expr()
		}
		if !supported(cond) {
			continue
		}
		if q, ok := text(c.R, cond); ok {
			return q, cond
		}
	}
}

// refusedQuery makes a query that must be refused.
func refusedQuery(c *core.C, budget int) (kind, q string, ok bool) {
	r := c.R
	q, cond := supportedQuery(c, budget)
	if r.IntN(5) == 0 {
		for i := 0; i < 20; i++ {
			s := gen.Mutate(r, q)
			if r.IntN(4) == 0 {
				s = gen.Pick(r, brokenTexts)
			}
			if _, err := ref.Parse(s); err == ref.ErrReject && s != "" {
				return "syntax", s, true
			}
		}
		return "", "", false
	}
	kind = refuse(c, cond)
	q, ok = text(r, cond)
	return
}

func runC22(c *core.C) {
	if c.R.IntN(3) == 0 {
		runList(c)
		return
	}
	kind, q, ok := refusedQuery(c, 1+c.R.IntN(12))
	if !ok {
		c.Tag("skipped")
		return
	}
	way := gen.Pick(c.R, waysP)
	c.Eval(1)
	var p entql.P
	var err error
	what := fmt.Sprintf("%s: query %q with %s", kind, q, way)
	if !c.Guard(what, func() { p, err = buildP(c, way, q) }) {
		return
	}
	switch {
	case err == nil:
		c.Fail("no error", "%s: %v", what, p)
		return
	case p != nil:
		c.Fail("predicate in spite of an error", "%s: %v, error %v", what, p, err)
		return
	}
	c.Tag(kind)
	c.Tag(way)
	c.Distinct(q)
	c.Sample("%s: %v", what, err)
}

func runList(c *core.C) {
	r := c.R
	var list []string
	var want []*ref.N
	var texts []string
	refused, empty := -1, 0
	k := r.IntN(6)
	if r.IntN(15) == 0 {
		k = gen.Size(r, 6, 200)
	}
	refuse := 6
	if k > 5 {
		refuse = 4 * k
	}
	for i := k; i > 0; i-- {
		if refused < 0 && len(want) > 0 && r.IntN(6) == 0 {
			// the same once more, at once or later
			j := r.IntN(len(want))
			if r.IntN(2) == 0 {
				j = len(want) - 1
			}
			list, texts, want = append(list, texts[j]), append(texts, texts[j]), append(want, want[j])
			c.Tag("list repeats")
			continue
		}
		switch r.IntN(refuse) {
		case 0:
			list = append(list, "")
			empty++
			continue
		case 1:
			if _, q, ok := refusedQuery(c, 1+r.IntN(5)); ok {
				if refused < 0 {
					refused = len(list)
				}
				list = append(list, q)
			}
			continue
		}
		q, n := supportedQuery(c, 1+r.IntN(5))
		list = append(list, q)
		if refused < 0 {
			want = append(want, n)
			texts = append(texts, q)
		}
	}
	given := append([]string{}, list...)
	c.Eval(1)
	t := &target{}
	var err error
	what := fmt.Sprintf("list %q", list)
	if !c.Guard(what, func() { err = entmq.ApplyEntQL(t, list) }) {
		return
	}
	if (err != nil) != (refused >= 0) {
		c.Fail("refusal of the list", "%s: error %v, refused member %d", what, err, refused)
		return
	}
	if len(t.got) != len(want) {
		c.Fail("number of predicates", "%s: received %d of %d: %v", what, len(t.got), len(want), t.got)
		return
	}
	for i, p := range t.got {
		if p == nil {
			c.Fail("no predicate", "%s: member %d", what, i)
			return
		}
		if !checkShape(c, texts[i], want[i], p) {
			return
		}
	}
	for i := range list {
		if list[i] != given[i] {
			c.Fail("list changed", "%s: %q", what, given)
			return
		}
	}
	c.Tag("list")
	if refused >= 0 {
		c.Tag("list refused")
		if len(list) > 1 && refused == 0 {
			c.Tag("list refused first")
		}
		if len(list) > 1 && refused == len(list)-1 {
			c.Tag("list refused last")
		}
	}
	if empty > 0 {
		c.Tag("list with empty")
	}
	if len(list) == 0 {
		c.Tag("list of nothing")
	}
	c.Distinct(what)
}
