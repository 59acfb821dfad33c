package lang

import (
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C03", Quick: 1_000_000, Thorough: 5_000_000,
		Run:         runC03,
		Rule:        "a list of planted literals, lists and names placed in a random frame (comparison, list, range, argument, group), read back from the tree, or all literals and names of a random query; integers beyond the range must be refused; distinct by planted value and frame",
		MinDistinct: 100_000,
		MinTags:     []string{"string", "integer", "list", "name", "path", "boolean", "null", "overflow", "at limit", "leading zero", "both quotes", "whole query", "overflow in a query"},
		Assumptions: []string{"strings are valid UTF-8"},
	})
}

func runC03(c *core.C) {
	r := c.R
	g := gen.New(r, 3)
	switch r.IntN(12) {
	case 0:
		bigInts(c)
		return
	case 1:
		names(c)
		return
	case 2:
		bothQuotes(c)
		return
	case 3, 4:
		leaves(c)
		return
	}
	// planted values, each with its written form
	var want []any
	var written []string
	k := 1 + r.IntN(4)
	if r.IntN(50) == 0 {
		k = gen.Size(r, 20, 4000)
	}
	for i := 0; i < k; i++ {
		v, w := plant(c, g)
		want = append(want, v)
		written = append(written, w)
	}
	type frame struct {
		text string
		get  func(n *miniquery.Node) any
		want any
	}
	sep := gen.Pick(r, []string{",", ", ", " , ", ",\n"})
	list := strings.Join(written, sep)
	var f frame
	arr := func(n *miniquery.Node) any { return n.Right.Value() }
	switch r.IntN(7) {
	case 0:
		f = frame{"a in (" + list + ")", arr, want}
	case 1:
		f = frame{"a not in [" + list + "]", arr, want}
	case 2:
		f = frame{"a = [" + list + "]", arr, want}
	case 3:
		f = frame{"x != " + written[0], arr, want[0]}
	case 4:
		f = frame{written[0], func(n *miniquery.Node) any { return n.Value() }, want[0]}
	case 5:
		f = frame{"f(" + list + ")", func(n *miniquery.Node) any {
			var o []any
			for _, p := range n.Params {
				o = append(o, p.Value())
			}
			return o
		}, want}
	default:
		v2, w2 := plant(c, g)
		f = frame{"a between " + written[0] + " and " + w2, func(n *miniquery.Node) any {
			return []any{n.Params[0].Value(), n.Params[1].Value()}
		}, []any{want[0], v2}}
	}
	node, _, err, ok := observe(c, f.text)
	if !ok {
		return
	}
	if err != nil {
		c.Fail("rejects a literal", "text %s\nerror %v", quote(f.text), err)
		return
	}
	c.Guard("read "+quote(f.text), func() {
		if got := f.get(node); !reflect.DeepEqual(got, f.want) {
			c.Fail("literal changed", "text %s\ngot  %#v\nwant %#v", quote(f.text), got, f.want)
		}
	})
	c.Distinct(f.text)
	c.Sample("%s => %#v", quote(f.text), f.want)
	if k > 1 {
		c.Tag("list")
	}
}

func plant(c *core.C, g *gen.G) (any, string) {
	n := g.Literal()
	switch n.K {
	case ref.Int:
		c.Tag("integer")
		if n.I > 1<<62 {
			c.Tag("at limit")
		}
		return n.I, big.NewInt(int64(n.I)).String()
	case ref.Str:
		c.Tag("string")
		q := "'"
		if strings.Contains(n.S, "'") || !strings.Contains(n.S, `"`) && g.R.IntN(2) == 0 {
			q = `"`
		}
		return n.S, q + n.S + q
	case ref.Bool:
		c.Tag("boolean")
		if n.B {
			return true, gen.Pick(g.R, []string{"true", "TRUE"})
		}
		return false, gen.Pick(g.R, []string{"false", "FALSE"})
	}
	c.Tag("null")
	return nil, gen.Pick(g.R, []string{"null", "NULL"})
}

func bigInts(c *core.C) {
	r := c.R
	limit := new(big.Int).SetUint64(uint64(^uint(0) >> 1))
	v := new(big.Int)
	switch r.IntN(4) {
	case 0:
		v.Add(limit, big.NewInt(int64(r.IntN(5)-2)))
	case 1:
		v.Lsh(big.NewInt(1), uint(r.IntN(140)))
		v.Add(v, big.NewInt(int64(r.IntN(3)-1)))
	case 2:
		v.Exp(big.NewInt(10), big.NewInt(int64(r.IntN(40))), nil)
		v.Add(v, big.NewInt(int64(r.IntN(3)-1)))
	default:
		v.SetUint64(r.Uint64())
		v.Mul(v, big.NewInt(int64(1+r.IntN(1000))))
	}
	s := v.String()
	if v.Sign() < 0 {
		s = "0"
		v.SetInt64(0)
	}
	frame := gen.Pick(r, []string{"a = ?", "?", "a in (1, ?)", "f(?)", "a between 0 and ?", "a = 1 and b > ?", "not (? = 1)"})
	if r.IntN(6) == 0 {
		// no octal, no sign, no fraction, no exponent, no separators
		bad := gen.Pick(r, []string{"0" + s, "-" + s, "+" + s, s + ".5", "0x" + s, s + "_0", s + "e1", s + "L"})
		text := strings.Replace(frame, "?", bad, 1)
		if _, _, err, ok := observe(c, text); ok && err == nil {
			c.Fail("accepts a malformed number", "text %s", quote(text))
		}
		c.Tag("leading zero")
		return
	}
	text := strings.Replace(frame, "?", s, 1)
	node, tree, err, ok := observe(c, text)
	if !ok {
		return
	}
	_ = node
	fits := v.Cmp(limit) <= 0
	switch {
	case fits && err != nil:
		c.Fail("rejects an integer in range", "text %s\nerror %v", quote(text), err)
	case !fits && err == nil:
		c.Fail("accepts an integer out of range", "text %s\ngot %s", quote(text), ref.Dump(tree))
	case fits:
		found := tree.Any(func(n *ref.N) bool { return n.K == ref.Int && big.NewInt(int64(n.I)).Cmp(v) == 0 })
		if !found {
			c.Fail("integer changed", "text %s\ngot %s", quote(text), ref.Dump(tree))
		}
	default:
		c.Tag("overflow")
	}
	c.Distinct(text)
}

func names(c *core.C) {
	r := c.R
	g := gen.New(r, 3)
	k := 1 + r.IntN(4)
	if r.IntN(10) == 0 {
		k = 1 + r.IntN(15)
	}
	ns := make([]string, k)
	for i := range ns {
		ns[i] = g.Name()
		if i > 0 && r.IntN(4) == 0 {
			ns[i] = ns[r.IntN(i)]
		}
	}
	name := strings.Join(ns, ".")
	fn := g.Name()
	text := gen.Pick(r, []string{"? = 1", "?", "1 < ?", "(?) is null", "F(1, ?)", "not ?", "? in (1)", "? between 1 and 2"})
	text = strings.Replace(strings.Replace(text, "?", name, 1), "F(", fn+"(", 1)
	// a lone keyword can be read as an operator by the grammar; ask the reference
	want, werr := ref.Parse(text)
	if werr != nil {
		c.Tag("skipped")
		return
	}
	_, tree, err, ok := observe(c, text)
	if !ok {
		return
	}
	if err != nil {
		c.Fail("rejects a name", "text %s\nerror %v", quote(text), err)
		return
	}
	count := 0
	tree.Walk(func(n *ref.N) {
		switch {
		case n.K == ref.Ident && k == 1 && n.Name == name:
			count++
			c.Tag("name")
		case n.K == ref.Path && k > 1 && reflect.DeepEqual(n.Names, ns):
			count++
			c.Tag("path")
		}
	})
	wcount := 0
	want.Walk(func(n *ref.N) {
		if n.K == ref.Ident && k == 1 && n.Name == name || n.K == ref.Path && k > 1 && reflect.DeepEqual(n.Names, ns) {
			wcount++
		}
	})
	if count != wcount || count == 0 {
		c.Fail("name changed", "text %s\ngot %s\nwant %s", quote(text), ref.Dump(tree), ref.Dump(want))
	}
	c.Distinct(text)
}

// bothQuotes: there is no escape, so a quote always ends its literal.
func bothQuotes(c *core.C) {
	r := c.R
	g := gen.New(r, 3)
	strip := func(s, q string) string { return strings.ReplaceAll(s, q, "") }
	a, b := strip(g.Text(), "'"), strip(g.Text(), `"`)
	op := gen.Pick(r, []string{"=", "!=", " like ", " and ", " or ", "\n<>\n"})
	text := "'" + a + "'" + op + `"` + b + `"`
	node, _, err, ok := observe(c, text)
	if !ok {
		return
	}
	if err != nil {
		c.Fail("rejects string literals", "text %s\nerror %v", quote(text), err)
		return
	}
	c.Guard("read "+quote(text), func() {
		if node.Left.Value() != any(a) || node.Right.Value() != any(b) {
			c.Fail("literal changed", "text %s\ngot %q and %q", quote(text), node.Left.Value(), node.Right.Value())
		}
	})
	c.Tag("both quotes")
	c.Distinct(text)
	// an unterminated literal is never accepted
	for _, cut := range []string{"'" + a, `x = "` + b, "a in ('" + a + "', \"" + b} {
		if _, tree, err, ok := observe(c, cut); ok && err == nil {
			c.Fail("accepts an unterminated literal", "text %s\ngot %s", quote(cut), ref.Dump(tree))
		}
	}
}

// leaves compares all literals and names of a whole query with those it was
// written from. Some of its integers may be out of range.
func leaves(c *core.C) {
	r := c.R
	const mark = 870_123_456_789
	want := gen.New(r, 2+r.IntN(20)).Expr()
	over := 0
	if r.IntN(4) == 0 {
		var ints []*ref.N
		want.Walk(func(n *ref.N) {
			if n.K == ref.Int {
				ints = append(ints, n)
			}
		})
		for k := 1 + r.IntN(4); k > 0 && len(ints) > 0; k-- {
			gen.Pick(r, ints).I = mark
			over++
		}
	}
	text := gen.Render(want, gen.Style{R: r, Words: true, Blanks: r.IntN(2) == 0})
	if n, err := ref.Parse(text); err != nil || !ref.Equal(n, want) {
		c.Tag("skipped")
		return
	}
	if over > 0 {
		text = strings.ReplaceAll(text, strconv.Itoa(mark), gen.Pick(r, []string{"9223372036854775808", "18446744073709551616", "99999999999999999999999999", "10000000000000000000"}))
	}
	_, tree, err, ok := observe(c, text)
	switch {
	case !ok:
	case over > 0 && err == nil:
		c.Fail("accepts an integer out of range", "text %s\ngot %s", quote(text), ref.Dump(tree))
	case over > 0:
		c.Tag("overflow in a query")
	case err != nil:
		c.Fail("rejects a query", "text %s\nerror %v", quote(text), err)
	default:
		if g, w := leafList(tree), leafList(want); !reflect.DeepEqual(g, w) {
			c.Fail("literals or names changed", "text %s\ngot  %q\nwant %q", quote(text), g, w)
		}
		c.Tag("whole query")
	}
	c.Distinct(text)
}

func leafList(n *ref.N) []string {
	var l []string
	n.Walk(func(n *ref.N) {
		switch n.K {
		case ref.Int, ref.Str, ref.Bool, ref.Null, ref.Ident, ref.Path:
			l = append(l, ref.Dump(n))
		case ref.Arr:
			l = append(l, fmt.Sprintf("list of %d", len(n.Kids)))
		case ref.Fn:
			l = append(l, "function "+n.Name)
		}
	})
	return l
}
