package lang

import (
	"github.com/wenerme/go-miniquery/miniquery"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C05", Quick: 500_000, Thorough: 5_000_000,
		Run:         runC05,
		Rule:        "accepted queries (rendered random trees, accepted mutations, token soup); the printed text is parsed again and printed again; distinct by tree",
		MinDistinct: 60_000,
		MinTags:     append([]string{"planted", "mutated"}, allTags...),
	})
	core.Register(&core.Check{
		ID: "C06", Quick: 250_000, Thorough: 1_500_000,
		Run:         runC06,
		Rule:        "lists of 1 to 8 accepted queries in random layout with blank members mixed in; the joined text is parsed and its conjuncts compared with the members; distinct by list",
		MinDistinct: 30_000,
		MinTags:     append([]string{"single", "with blanks", "top level or", "many", "ends with comment"}, allTags...),
	})
}

func runC05(c *core.C) {
	r := c.R
	text, _ := validText(r, 4+r.IntN(60), anyStyle(r))
	tag := "planted"
	switch r.IntN(5) {
	case 0:
		text, tag = gen.Mutate(r, text), "mutated"
	case 1:
		text, tag = gen.Soup(r), "mutated"
	}
	n1, t1, err, ok := observe(c, text)
	if !ok || err != nil {
		return
	}
	var p1, p2 string
	if !c.Guard("print "+quote(text), func() { p1 = miniquery.Build(n1) }) {
		return
	}
	n2, t2, err, ok := observe(c, p1)
	if !ok {
		return
	}
	if err != nil {
		c.Fail("printed text is rejected", "text %s\nprinted %s\nerror %v", quote(text), quote(p1), err)
		return
	}
	if !ref.Equal(t1, t2) {
		c.Fail("printed text means something else", "text %s\nprinted %s\nwas %s\nnow %s", quote(text), quote(p1), ref.Dump(t1), ref.Dump(t2))
		return
	}
	if !c.Guard("print "+quote(p1), func() { p2 = miniquery.Build(n2) }) {
		return
	}
	if p1 != p2 {
		c.Fail("printing is not stable", "text %s\nfirst %s\nthen  %s", quote(text), quote(p1), quote(p2))
	}
	c.Tag(tag)
	tagTree(c, t1)
	c.Distinct(ref.Dump(t1))
	c.Sample("%s => %s", quote(text), quote(p1))
}

// strip removes groups; the tree already has the structure.
func strip(n *ref.N) *ref.N {
	for n.K == ref.Paren {
		n = n.Kids[0]
	}
	m := *n
	m.Kids = make([]*ref.N, len(n.Kids))
	for i, k := range n.Kids {
		m.Kids[i] = strip(k)
	}
	return &m
}

func conjuncts(n *ref.N) []*ref.N {
	if n.K == ref.Logic && n.Op == "and" {
		return append(conjuncts(n.Kids[0]), conjuncts(n.Kids[1])...)
	}
	return []*ref.N{n}
}

func runC06(c *core.C) {
	r := c.R
	k := 1 + r.IntN(8)
	if r.IntN(3) == 0 {
		k = 1 + r.IntN(3)
	}
	budget := 20
	if r.IntN(40) == 0 {
		k, budget = gen.Size(r, 9, 300), 2
		c.Tag("many")
	}
	list := make([]string, k)
	var want []string
	real, blanks := 0, 0
	var seen []*ref.N
	for i := range list {
		if k > 1 && r.IntN(5) == 0 && !(i == k-1 && real == 0) {
			list[i] = gen.Pick(r, []string{"", "", " ", "\t", "\n", "  \r\n "})
			blanks++
			continue
		}
		text, t := validText(r, 3+r.IntN(budget), anyStyle(r))
		if len(seen) > 0 && r.IntN(6) == 0 {
			v := gen.Vary(r, gen.Pick(r, seen))
			s := gen.Render(v, anyStyle(r))
			if n, err := ref.Parse(s); err == nil && ref.Equal(n, v) {
				text, t = s, v
			}
		}
		seen = append(seen, t)
		if r.IntN(8) == 0 {
			text += " -- " + gen.Pick(r, []string{"x)", "or 1=1", "'", ""}) + "\n"
			c.Tag("ends with comment")
		}
		list[i] = text
		real++
		if t.K == ref.Logic && t.Op == "or" {
			c.Tag("top level or")
		}
		tagTree(c, t)
		for _, x := range conjuncts(strip(t)) {
			want = append(want, ref.Dump(x))
		}
	}
	if real == 0 {
		return
	}
	if blanks > 0 {
		c.Tag("with blanks")
	}
	if k == 1 {
		c.Tag("single")
	}
	before := append([]string{}, list...)
	var joined string
	if !c.Guard("join", func() { joined = miniquery.Join(list) }) {
		return
	}
	for i := range list {
		if list[i] != before[i] {
			c.Fail("join changes its input", "member %d: %s became %s", i, quote(before[i]), quote(list[i]))
		}
	}
	_, tree, err, ok := observe(c, joined)
	if !ok {
		return
	}
	if err != nil {
		c.Fail("joined query is rejected", "members %q\njoined %s\nerror %v", list, quote(joined), err)
		return
	}
	var got []string
	for _, x := range conjuncts(strip(tree)) {
		got = append(got, ref.Dump(x))
	}
	same := len(got) == len(want)
	for i := 0; same && i < len(got); i++ {
		same = got[i] == want[i]
	}
	if !same {
		c.Fail("joined query is not the conjunction", "members %q\njoined %s\ngot  %q\nwant %q", list, quote(joined), got, want)
	}
	c.Distinct(joined)
	c.Sample("%q => %s", list, quote(joined))
}
