package lang

import (
	"strings"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C02", Quick: enumCases + 600_000, Thorough: enumCases + 5_000_000,
		Run:         runC02,
		Rule:        "all token sequences up to length 4 (sampled alphabet, spaced) and up to length 3 (glued), every word with every character or word next to it in several frames, everything one character away from 18 queries, then rendered random trees and mutations of them and token soup; non-trivial: distinct accepted trees with at least two nodes, or distinct rejected texts of at least two tokens",
		MinDistinct: 100_000,
		MinTags:     append([]string{"accepted", "rejected", "planted", "enumerated", "neighbours"}, allTags...),
		Assumptions: []string{"the reference grammar in harness/ref states the intended language"},
	})
}

var enumTokens = []string{
	"a", "b.c", "f(", "(", ")", "[", "]", ",", "1", "'x'", "not", "and", "or", "=", ">=", "in", "like", "is null", "between", "true", "->", "isnull", "--\n", "null",
}

const enumCases = 600

func runC02(c *core.C) {
	if c.Index < enumCases {
		enumerate(c)
		return
	}
	r := c.R
	var text string
	switch k := r.IntN(10); {
	case k < 4:
		var want *ref.N
		st := anyStyle(r)
		text, want = validText(r, 4+r.IntN(60), st)
		_, got, err, ok := observe(c, text)
		if !ok {
			return
		}
		c.Tag("planted")
		if err != nil {
			c.Fail("rejects a query of the language", "text %s\nerror %v\nwant %s", quote(text), err, ref.Dump(want))
			return
		}
		tagTree(c, want)
		compareTrees(c, text, got, want)
		return
	case k < 8:
		text, _ = validText(r, 4+r.IntN(30), anyStyle(r))
		text = gen.Mutate(r, text)
	case k < 9:
		text = gen.Soup(r)
	default:
		text = gen.Bytes(r, 24)
	}
	decide(c, text)
}

func compareTrees(c *core.C, text string, got, want *ref.N) {
	g, w := ref.Dump(got), ref.Dump(want)
	if g != w {
		c.Fail("wrong tree", "text %s\ngot  %s\nwant %s", quote(text), g, w)
		return
	}
	if want.Size() > 1 {
		c.Distinct(w)
		c.Sample("%s => %s", quote(text), w)
	}
}

func decide(c *core.C, text string) {
	want, werr := ref.Parse(text)
	if werr == ref.ErrBudget {
		c.Tag("skipped")
		return
	}
	if werr != nil && werr != ref.ErrReject {
		panic(werr)
	}
	_, got, err, ok := observe(c, text)
	if !ok {
		return
	}
	switch {
	case err != nil && werr != nil:
		c.Tag("rejected")
		if len(text) > 2 {
			c.Distinct("!" + text)
		}
	case err != nil:
		c.Fail("rejects a query of the language", "text %s\nerror %v\nwant %s", quote(text), err, ref.Dump(want))
	case werr != nil:
		c.Fail("accepts a text outside of the language", "text %s\ngot %s", quote(text), ref.Dump(got))
	default:
		c.Tag("accepted")
		tagTree(c, want)
		compareTrees(c, text, got, want)
	}
}

// enumerate covers the token sequences whose number is the case index modulo
// enumCases.
func enumerate(c *core.C) {
	k := len(enumTokens)
	id := 0
	var seq [4]int
	var walk func(depth, max int, sep string)
	walk = func(depth, max int, sep string) {
		if depth > 0 {
			id++
			if id%enumCases == c.Index {
				toks := make([]string, depth)
				for i := range toks {
					toks[i] = enumTokens[seq[i]]
				}
				decide(c, strings.Join(toks, sep))
				c.Tag("enumerated")
			}
		}
		if depth == max {
			return
		}
		for i := 0; i < k; i++ {
			seq[depth] = i
			walk(depth+1, max, sep)
		}
	}
	walk(0, 4, " ")
	walk(0, 3, "")
	try := func(text string) {
		id++
		if id%enumCases == c.Index {
			decide(c, text)
		}
	}
	for _, w := range enumWords {
		for _, v := range []string{w, strings.ToUpper(w), strings.ToUpper(w[:1]) + w[1:]} {
			for _, ch := range enumChars {
				for _, f := range enumFrames {
					try(strings.Replace(f, "?", v+ch, 1))
					try(strings.Replace(f, "?", ch+v, 1))
				}
			}
			for _, x := range enumWords {
				for _, f := range enumFrames {
					try(strings.Replace(f, "?", v+x, 1))
				}
			}
		}
	}
	// everything one character away
	for _, q := range enumQueries {
		for i := 0; i <= len(q); i++ {
			try(q[:i])
			try(q[i:])
			for _, ch := range enumChars {
				try(q[:i] + ch + q[i:])
				if i < len(q) {
					try(q[:i] + ch + q[i+1:])
				}
			}
			if i < len(q) {
				try(q[:i] + q[i+1:])
				try(q[:i] + q[i:i+1] + q[i:])
			}
			if i+1 < len(q) {
				try(q[:i] + q[i+1:i+2] + q[i:i+1] + q[i+2:])
			}
		}
	}
	c.Tag("neighbours")
}

var enumWords = strings.Fields("not and or in like gt gte lt lte eq neq between is isnull notnull null true false n a1 0 12 'x' >= <= <> == != > < = && || -- // [ ] ( ) -> . ,")

var enumFrames = []string{"?", "a ? 1", "a? 1", "a = ?", "? = 1", "not ?", "a in [?]", "f(?)", "a is ?", "a ?", "a is not ?", "a between 1 ? 2"}

var enumChars = func() (l []string) {
	for i := 32; i < 127; i++ {
		l = append(l, string(rune(i)))
	}
	return append(l, "\t", "\n", "\r", "\r\n", "\v", "\f", "\x00", "\x7f", "\u0085", "\u00a0", "\u00e9", "\u017f", "\u212a", "\u2028", "\ufeff", "\xff", "\uff11", "\U0001f600")
}()

var enumQueries = []string{
	"a=1 and b.c>'x' or not d<2", "a not in (1,'b',null,)", "a in [true, FALSE]", "x between 1 and 20", "x not between [1, 2]", "f(a, 1, g()) neq NULL",
	"a is not null", "a is true", "a isnull and b notnull", "a not\tlike \"%b\"", "(a || b) && c", "a --x\n= //y\r\n1", "not a.b.c lte 0 , 1", "a->b = 1", "f(a,) gt g([1])", "a is /**/ null", "null = true", "[]",
}
