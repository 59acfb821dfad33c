package lang

import (
	"sort"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C04", Quick: 600_000, Thorough: 4_000_000,
		Run:         runC04,
		Rule:        "two random renderings of one tree (blanks, line endings, comments, keyword case, synonyms, brackets, quotes), or one token sequence, valid or not, with two different fillings of its gaps, or one operator spelling given to the operator normalisation; distinct by pair of texts, the two texts differ",
		MinDistinct: 60_000,
		MinTags:     append([]string{"comment", "carriage return", "tokens accepted", "tokens rejected", "comment in operator", "operator alone"}, allTags...),
	})
}

var seqTokens = []string{
	"a", "b1", "notes", "x.y", "f(", "(", ")", "[", "]", ",", "0", "12", "'s'", `"t"`, "not", "and", "or", "&&", "||", "=", "==", "!=", "<>", ">", ">=", "<", "<=", "gt", "lte", "in", "like", "is", "null", "true", "between", "isnull", "notnull", "false",
}

// starters of sequences that are often valid
var seqFrames = [][]string{
	{"a", "is", "not", "null", "and", "b1", "=", "12"}, {"a", "not", "in", "(", "1", ",", "2", ")"}, {"a", "not", "like", "'s'"}, {"not", "a", "=", "0"},
	{"a", "not", "between", "0", "and", "12", "or", "b1"}, {"a", "between", "[", "0", ",", "12", "]"}, {"f(", "a", ",", "b1", "=", "0", ",", ")"}, {"(", "a", "=", "0", ")"},
	{"a", "is", "not", "true"}, {"a", "is", "false", "or", "not", "b1", "in", "[", "]"},
}

func runC04(c *core.C) {
	r := c.R
	if r.IntN(12) == 0 {
		operators(c)
		return
	}
	if r.IntN(3) == 0 {
		tokens(c)
		return
	}
	t := gen.New(r, 4+r.IntN(40)).Expr()
	a := gen.Render(t, gen.Style{R: r, Words: true, Blanks: r.IntN(4) != 0})
	b := gen.Render(t, gen.Style{R: r, Words: true, Blanks: true})
	if r.IntN(4) == 0 {
		a = gen.Render(t, gen.Style{})
	}
	if a == b {
		return
	}
	for _, s := range []string{a, b} {
		if n, err := ref.Parse(s); err != nil || !ref.Equal(n, t) {
			c.Tag("skipped")
			return
		}
	}
	_, ta, ea, ok := observe(c, a)
	if !ok {
		return
	}
	_, tb, eb, ok := observe(c, b)
	if !ok {
		return
	}
	pair(c, a, b, ta, tb, ea, eb)
	if ea == nil {
		tagTree(c, t)
	}
	if strings.Contains(b, "--") || strings.Contains(b, "//") {
		c.Tag("comment")
	}
	if strings.Contains(b, "\r") {
		c.Tag("carriage return")
	}
}

// canonical names of the operators and what may be written for them.
var canonical = map[string][]string{
	"gte": {">=", "gte"}, "gt": {">", "gt"}, "eq": {"=", "==", "eq", ":"}, "neq": {"!=", "<>", "neq"}, "lt": {"<", "lt"}, "lte": {"<=", "lte"}, "and": {"&&", "and", ","}, "or": {"||", "or"},
	"is null": {"isnull", "is null"}, "is not null": {"notnull", "is not null"}, "is true": {"is true"}, "is not true": {"is not true"}, "is false": {"is false"}, "is not false": {"is not false"},
	"in": {"in"}, "not in": {"not in"}, "like": {"like"}, "not like": {"not like"}, "between": {"between"}, "not between": {"not between"},
}

// operators asks for the canonical name of one operator directly.
func operators(c *core.C) {
	r := c.R
	var all []string
	for k := range canonical {
		all = append(all, k)
	}
	sort.Strings(all)
	want := gen.Pick(r, all)
	s := gen.Pick(r, canonical[want])
	if r.IntN(2) == 0 {
		b := []byte(s)
		for i := range b {
			if b[i] >= 'a' && b[i] <= 'z' && r.IntN(2) == 0 {
				b[i] -= 32
			}
		}
		s = string(b)
	}
	if words := strings.Split(s, " "); r.IntN(2) == 0 {
		s = ""
		for i, w := range words {
			if i > 0 || r.IntN(4) == 0 {
				s += gen.Blank(r)
			}
			s += w
		}
		if r.IntN(4) == 0 {
			s += gen.Blank(r)
		}
	}
	c.Eval(1)
	var got, again string
	if !c.Guard("normalise "+quote(s), func() { got = miniquery.NormalizeOperation(s); again = miniquery.NormalizeOperation(got) }) {
		return
	}
	if got != want {
		c.Fail("operator named differently", "operator %s\ngot  %q\nwant %q", quote(s), got, want)
	}
	if again != got {
		c.Fail("canonical name changes again", "operator %s gives %q, that gives %q", quote(s), got, again)
	}
	c.Tag("operator alone")
	c.Distinct(s)
}

func pair(c *core.C, a, b string, ta, tb *ref.N, ea, eb error) {
	c.Distinct(a + "\x00" + b)
	c.Sample("%s ~ %s", quote(a), quote(b))
	switch {
	case (ea == nil) != (eb == nil):
		c.Fail("variants differ in acceptance", "text %s: %v\ntext %s: %v", quote(a), ea, quote(b), eb)
	case ea == nil && !ref.Equal(ta, tb):
		c.Fail("variants differ in meaning", "text %s: %s\ntext %s: %s", quote(a), ref.Dump(ta), quote(b), ref.Dump(tb))
	}
}

func tokens(c *core.C) {
	r := c.R
	toks := append([]string{}, gen.Pick(r, seqFrames)...)
	switch r.IntN(3) {
	case 0:
		toks = toks[:0]
		for i := 1 + r.IntN(8); i > 0; i-- {
			toks = append(toks, gen.Pick(r, seqTokens))
		}
	case 1:
		toks[r.IntN(len(toks))] = gen.Pick(r, seqTokens)
	}
	fill := func(plain bool) string {
		var b strings.Builder
		for i, t := range toks {
			if i > 0 {
				if plain {
					b.WriteByte(' ')
				} else {
					b.WriteString(gen.Blank(r))
				}
			}
			b.WriteString(t)
		}
		return b.String()
	}
	a, b := fill(r.IntN(2) == 0), fill(false)
	_, ta, ea, ok := observe(c, a)
	if !ok {
		return
	}
	_, tb, eb, ok := observe(c, b)
	if !ok {
		return
	}
	pair(c, a, b, ta, tb, ea, eb)
	if ea == nil {
		c.Tag("tokens accepted")
		s := strings.Join(toks, " ")
		if strings.Contains(b, "--") && (strings.Contains(s, "not in") || strings.Contains(s, "is null") || strings.Contains(s, "is not")) {
			c.Tag("comment in operator")
		}
	} else {
		c.Tag("tokens rejected")
	}
}
