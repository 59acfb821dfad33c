package lang

import (
	"fmt"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C01", Quick: 500_000, Thorough: 6_000_000,
		Run:         runC01,
		Rule:        "texts drawn from: rendered random trees, mutations of them, token soup, random bytes, and nested or repeated shapes up to 64 kB (plus all prefixes of some); non-trivial: at least 3 bytes, counted by distinct text; the number of names, values and operators in an accepted tree must be that in the text",
		MinDistinct: 100_000,
		MinTags:     []string{"accepted", "rejected", "deep", "long", "bytes", "prefixes", "counted"},
		Assumptions: []string{"inputs up to 64 kB; the process stack limit is the Go default"},
	})
}

// Units for nested and repeated shapes: {prefix unit, core, suffix unit}.
var shapes = [][3]string{
	{"(", "1", ")"}, {"(", "a=1", ")"}, {"f(", "1", ")"}, {"f(a,", "b", ")"}, {"not (", "a", ")"}, {"(a = ", "1", ")"},
	{"a=1 and ", "b", ""}, {"a=1 or b=2 and ", "b", ""}, {"a or ", "1", ""}, {"", "a", " = 1"}, {"", "a", " in (1)"}, {"", "a", " is null"},
	{"not ", "a", ""}, {"[", "1", "]"}, {"a.", "b", ""}, {"a->", "b", ""}, {"(1,", "2", ")"}, {"--", "\na", ""}, {"-- x\n", "a", ""}, {" ", "a", " "}, {"(", "", ""}, {"f(", "", ""},
	{"'", "", ""}, {"a between 1 and ", "2", ""}, {"a between [", "1,2", "]"}, {"a in (", "1", ")"}, {"a = (b in [1,2] and ", "c", ")"}, {"a && ", "(", ""}, {"x", "=1", ""}, {"1", "", ""}, {"a=1 and (", "b", ")"},
}

func runC01(c *core.C) {
	r := c.R
	var text string
	deep := false
	switch k := r.IntN(1000); {
	case k < 300:
		text, _ = validText(r, 4+r.IntN(60), anyStyle(r))
	case k < 600:
		text, _ = validText(r, 4+r.IntN(40), anyStyle(r))
		text = gen.Mutate(r, text)
	case k < 800:
		text = gen.Soup(r)
	case k < 985:
		c.Tag("bytes")
		text = gen.Bytes(r, 80)
	case k < 995:
		s := shapes[r.IntN(len(shapes))]
		n := 1 + r.IntN(300)
		if r.IntN(4) == 0 {
			n = 1 + r.IntN(8000)
		}
		m := n
		if r.IntN(3) == 0 {
			m = r.IntN(n + 1)
		}
		if n*(len(s[0])+len(s[2])) > 65000 {
			n, m = 3000, 3000
		}
		text = strings.Repeat(s[0], n) + s[1] + strings.Repeat(s[2], m)
		deep = true
		c.Tag("deep")
	case k < 998:
		text = "a = '" + strings.Repeat(gen.Pick(r, []string{"x", "é", "--", "\n", "(", `"`, "🙂 "}), 1+r.IntN(20000)) + "'"
		c.Tag("long")
	default:
		s, _ := validText(r, 20, anyStyle(r))
		// all of them, or some when the text is long
		for i := 0; i <= len(s); i += 1 + r.IntN(1+len(s)/2000*12) {
			total(c, s[:i], false)
		}
		c.Tag("prefixes")
		return
	}
	total(c, text, deep)
}

func total(c *core.C, text string, deep bool) {
	var node *miniquery.Node
	var err error
	c.Eval(1)
	if !c.Guard("parse "+quote(text), func() { node, err = miniquery.Parse(text) }) {
		return
	}
	if len(text) >= 3 {
		c.Distinct(text)
	}
	if (node == nil) == (err == nil) {
		c.Fail("neither tree nor error, or both", "text %s\ntree %t error %v", quote(text), node != nil, err)
		return
	}
	if err != nil {
		c.Tag("rejected")
		c.Guard("error text for "+quote(text), func() {
			if err.Error() == "" {
				c.Fail("empty error", "text %s", quote(text))
			}
			_ = fmt.Sprintf("%v %+v %q", err, err, err)
		})
		c.Sample("rejected: %s", quote(text))
		return
	}
	c.Tag("accepted")
	c.Sample("accepted: %s", quote(text))
	_, tree, _, ok := observe(c, text)
	if !ok {
		return
	}
	c.Guard("print "+quote(text), func() {
		if miniquery.Build(node) == "" {
			c.Fail("empty text", "text %s", quote(text))
		}
	})
	if !deep {
		c.Guard("string of "+quote(text), func() {
			if s := node.String() + fmt.Sprint(node, *node); s == "" {
				c.Fail("empty string", "text %s", quote(text))
			}
		})
		c.Guard("accessors of "+quote(text), func() { accessors(node) })
	}
	if len(text) > 3000 {
		return
	}
	want, err := ref.Parse(text)
	if err != nil {
		return // whether the text should be accepted is another question
	}
	c.Tag("counted")
	if g, w := inventory(tree), inventory(want); g != w {
		c.Fail("parts of the text are missing or appear twice", "text %s\nin the tree %s\nin the text %s", quote(text), g, w)
	}
}

// inventory counts the names, values and operators of a tree.
func inventory(n *ref.N) string {
	m := map[string]int{}
	n.Walk(func(k *ref.N) {
		switch k.K {
		case ref.Paren, ref.Not, ref.Arr:
			m[fmt.Sprint(k.K)]++
		case ref.Ident, ref.Fn, ref.Int, ref.Str, ref.Bool, ref.Null:
			m["operand"]++
		case ref.Path:
			m["operand"] += len(k.Names)
		default:
			m["operator"]++
		}
	})
	return fmt.Sprint(m)
}

func accessors(n *miniquery.Node) {
	if n == nil {
		return
	}
	_ = n.Value()
	_ = n.IsValue()
	_ = n.IsExpression()
	accessors(n.Left)
	accessors(n.Op)
	accessors(n.Right)
	accessors(n.Expression)
	for _, k := range n.Params {
		accessors(k)
	}
	for _, k := range n.Array {
		accessors(k)
	}
}
