package lang

import (
	"fmt"
	"math/rand/v2"

	"github.com/wenerme/go-miniquery/miniquery"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C23", Quick: 300_000, Thorough: 3_000_000,
		Run:         runC23,
		Rule:        "a random tree and another that differs in one detail (literal, operator, name, order, group, negation, one part more or less), both parsed; their descriptions must be equal exactly when the trees are, every node must be classified by its kind; distinct by pair of trees that differ",
		MinDistinct: 60_000,
		MinTags:     append([]string{"equal", "literal", "operator", "name", "swapped", "group", "negation", "part", "long"}, allTags...),
		Assumptions: []string{"string literals begin with a letter that no number, boolean or null begins with, so that the description shows the type"},
	})
}

// plain makes the literals such that their text shows their type.
func plain(r *rand.Rand, n *ref.N) {
	n.Walk(func(m *ref.N) {
		if m.K == ref.Str {
			b := []byte("s")
			for i := r.IntN(4); i > 0; i-- {
				b = append(b, "abXY019_"[r.IntN(8)])
			}
			m.S = string(b)
		}
	})
}

// alter changes a tree in one detail.
func alter(r *rand.Rand, n *ref.N) string {
	var all []*ref.N
	n.Walk(func(m *ref.N) { all = append(all, m) })
	for i := 0; i < 30; i++ {
		m := gen.Pick(r, all)
		old := ref.Dump(n)
		kind := ""
		switch r.IntN(7) {
		case 0:
			switch m.K {
			case ref.Int:
				m.I ^= 1 << r.IntN(40)
			case ref.Bool:
				m.B = !m.B
			case ref.Str:
				m.S += "x"
			case ref.Null:
				*m = ref.N{K: ref.Int}
			}
			kind = "literal"
		case 1:
			switch m.K {
			case ref.Logic:
				m.Op = gen.Pick(r, []string{"and", "or"})
			case ref.Cmp:
				if m.Kids[1].K == ref.Arr && (m.Op == "in" || m.Op == "not in") {
					m.Op = gen.Pick(r, []string{"in", "not in"})
				} else {
					m.Op = gen.Pick(r, []string{"gte", "gt", "eq", "neq", "lt", "lte", "like", "not like"})
				}
			case ref.Between:
				m.Op = gen.Pick(r, []string{"between", "not between"})
			case ref.Pred:
				m.Op = gen.Pick(r, []string{"is null", "is not null", "is true", "is not true", "is false", "is not false"})
			}
			kind = "operator"
		case 2:
			switch m.K {
			case ref.Ident, ref.Fn:
				m.Name = gen.Pick(r, []string{"a", "b", m.Name + "x", m.Name + "1"})
			case ref.Path:
				m.Names[r.IntN(len(m.Names))] = gen.Pick(r, []string{"a", "b", "xyz"})
			}
			kind = "name"
		case 3:
			if len(m.Kids) > 1 {
				i, j := r.IntN(len(m.Kids)), r.IntN(len(m.Kids))
				m.Kids[i], m.Kids[j] = m.Kids[j], m.Kids[i]
			}
			kind = "swapped"
		case 4:
			if m.K == ref.Paren {
				*m = *m.Kids[0]
			} else {
				k := *m
				*m = ref.N{K: ref.Paren, Kids: []*ref.N{&k}}
			}
			kind = "group"
		case 5:
			if m.K == ref.Not {
				*m = *m.Kids[0]
			} else {
				k := *m
				*m = ref.N{K: ref.Not, Kids: []*ref.N{&k}}
			}
			kind = "negation"
		case 6:
			switch {
			case m.K == ref.Arr || m.K == ref.Fn:
				if len(m.Kids) > 0 && r.IntN(2) == 0 {
					i := r.IntN(len(m.Kids))
					m.Kids = append(m.Kids[:i:i], m.Kids[i+1:]...)
				} else {
					m.Kids = append(m.Kids, &ref.N{K: ref.Int, I: r.IntN(3)})
				}
			case m.K == ref.Path:
				m.Names = append(m.Names, "z")
			case len(m.Kids) > 0 && m.K != ref.Between:
				*m = *m.Kids[r.IntN(len(m.Kids))]
			}
			kind = "part"
		}
		if ref.Dump(n) != old {
			return kind
		}
	}
	return ""
}

func runC23(c *core.C) {
	r := c.R
	_, t := validText(r, 3+r.IntN(25), gen.Style{})
	a := t.Clone()
	plain(r, a)
	b := a.Clone()
	kind := "equal"
	if r.IntN(8) > 0 {
		if kind = alter(r, b); kind == "" {
			return
		}
	}
	da, ok := describe(c, a)
	if !ok {
		return
	}
	db, ok := describe(c, b)
	if !ok {
		return
	}
	same := ref.Equal(a, b)
	if same != (da == db) {
		c.Fail("descriptions and trees disagree", "trees %s\nand   %s\nare described as %s\nand              %s", ref.Dump(a), ref.Dump(b), da, db)
	}
	c.Tag(kind)
	tagTree(c, a)
	if len(da) > 4000 {
		c.Tag("long")
	}
	if !same {
		c.Distinct(ref.Dump(a) + "\x00" + ref.Dump(b))
	}
	c.Sample("%s: %s ~ %s", kind, da, db)
}

// describe parses a text of the tree and returns the description of the result.
func describe(c *core.C, t *ref.N) (d string, ok bool) {
	s := gen.Render(t, anyStyle(c.R))
	if n, err := ref.Parse(s); err != nil || !ref.Equal(n, t) {
		c.Tag("skipped")
		return "", false
	}
	node, tree, err, ok := observe(c, s)
	if !ok || err != nil || !ref.Equal(tree, t) {
		return "", false // other properties
	}
	ok = c.Guard("describe "+quote(s), func() {
		classify(c, s, node)
		d = node.String()
		if e := fmt.Sprint(node); e != d {
			c.Fail("two descriptions of one tree", "text %s\n%s\n%s", quote(s), d, e)
		}
	})
	return d, ok
}

// classify asks every node what it is.
func classify(c *core.C, s string, n *miniquery.Node) {
	value := n.Type == miniquery.ValueNodeType
	leaf := value || n.Type == miniquery.IdentifierNodeType || n.Type == miniquery.ReferenceNodeType || n.Type == miniquery.OperationNodeType
	if n.IsValue() != value || n.IsExpression() == leaf {
		c.Fail("node classified wrongly", "text %s\nnode %s: value %v, expression %v", quote(s), n.Type, n.IsValue(), n.IsExpression())
	}
	for _, k := range parts(n) {
		classify(c, s, k)
	}
}
