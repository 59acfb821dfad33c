// Package lang holds the monitors of the query language itself.
package lang

import (
	"math/rand/v2"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/ref"
)

// observe parses text with the code under test and reads the answer strictly.
// ok is false when the answer itself was already a violation.
func observe(c *core.C, text string) (node *miniquery.Node, tree *ref.N, err error, ok bool) {
	c.Eval(1)
	if !c.Guard("parse "+quote(text), func() { node, err = miniquery.Parse(text) }) {
		return nil, nil, nil, false
	}
	if err != nil {
		return nil, nil, err, true
	}
	tree, rerr := ref.FromNode(node)
	if rerr != nil {
		c.Fail("malformed tree", "text %s\n%v", quote(text), rerr)
		return nil, nil, nil, false
	}
	return node, tree, nil, true
}

func quote(s string) string {
	if len(s) > 2000 {
		s = s[:1000] + "<...>" + s[len(s)-1000:]
	}
	b := new(strings.Builder)
	b.WriteByte('`')
	for i := 0; i < len(s); i++ {
		switch ch := s[i]; {
		case ch == '\n':
			b.WriteString(`\n`)
		case ch == '\r':
			b.WriteString(`\r`)
		case ch == '\t':
			b.WriteString(`\t`)
		case ch < 32 || ch == 127:
			const hex = "0123456789abcdef"
			b.WriteString(`\x` + string(hex[ch>>4]) + string(hex[ch&15]))
		default:
			b.WriteByte(ch)
		}
	}
	b.WriteByte('`')
	return b.String()
}

// validText makes a text together with the tree it must have. Texts the
// grammar reads differently are redrawn; the reference decides that.
func validText(r *rand.Rand, budget int, st gen.Style) (string, *ref.N) {
	for {
		t := gen.New(r, budget).Expr()
		s := gen.Render(t, st)
		n, err := ref.Parse(s)
		if err == nil && ref.Equal(n, t) {
			return s, t
		}
	}
}

func anyStyle(r *rand.Rand) gen.Style {
	switch r.IntN(4) {
	case 0:
		return gen.Style{}
	case 1:
		return gen.Style{R: r, Words: true}
	}
	return gen.Style{R: r, Words: true, Blanks: true}
}

func tagTree(c *core.C, n *ref.N) {
	n.Walk(func(m *ref.N) {
		switch m.K {
		case ref.Logic, ref.Cmp, ref.Between, ref.Pred:
			c.Tag("op " + m.Op)
		case ref.Fn:
			c.Tag("function")
		case ref.Path:
			c.Tag("path")
		case ref.Not:
			c.Tag("not")
		case ref.Paren:
			c.Tag("parentheses")
		case ref.Arr:
			c.Tag("list")
		}
	})
}

var allTags = []string{
	"op and", "op or", "op gte", "op gt", "op eq", "op neq", "op lt", "op lte", "op like", "op not like", "op in", "op not in",
	"op between", "op not between", "op is null", "op is not null", "op is true", "op is not true", "op is false", "op is not false",
	"function", "path", "not", "parentheses", "list",
}
