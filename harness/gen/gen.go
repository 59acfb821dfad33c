// Package gen makes queries: random trees, their texts in random layout, and
// hostile mutations of texts.
package gen

import (
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
	"unicode/utf8"

	"mqverif/ref"
)

// G generates untyped queries that use the whole grammar.
type G struct {
	R *rand.Rand
	// Budget bounds the number of nodes.
	Budget int
	big    big
	// what the query has already, to come back as it is or almost so
	seen  []*ref.N
	lits  []*ref.N
	names []string
}

// big is the one dimension in which a query is much larger than usual.
type big int

const (
	bigNone big = iota
	bigList
	bigChain
	bigNest
	bigText
	bigName
	bigPath
	bigParams
	bigs
)

// someBig chooses a dimension for one query in forty.
func someBig(r *rand.Rand) big {
	if r.IntN(40) != 0 {
		return bigNone
	}
	return 1 + big(r.IntN(int(bigs)-1))
}

// take reports whether this is the place where the query is to grow.
func (b *big) take(d big) bool {
	if *b != d {
		return false
	}
	*b = bigNone
	return true
}

// Size chooses from lo to hi, small ones more often.
func Size(r *rand.Rand, lo, hi int) int {
	return int(float64(lo) * math.Pow(float64(hi)/float64(lo), r.Float64()))
}

// New makes a generator.
func New(r *rand.Rand, budget int) *G { return &G{R: r, Budget: budget, big: someBig(r)} }

func (g *G) n(k int) int { return g.R.IntN(k) }

func (g *G) chance(p float64) bool { return g.R.Float64() < p }

// Pick chooses one element.
func Pick[T any](r *rand.Rand, s []T) T { return s[r.IntN(len(s))] }

// Names that look like or start with keywords are legal column names.
var trickyNames = []string{
	"notes", "notX", "not1", "nota", "nullable", "NULLs", "null_", "nullx", "trueX", "true1", "falsey", "TRUEs", "true_x", "false_", "FALSE0",
	"inbox", "ins", "order", "orders", "android", "and_", "ands", "likes", "liked", "likeX", "isnull", "iss", "between_", "betweenX", "gt_", "gte1", "lt2", "lte_", "eqx", "neqx",
	"in", "or", "and", "like", "is", "between", "gt", "lt", "eq", "neq", "gte", "lte", "True", "False", "Null", "nULL", "tRUE", "isnt", "notnull_", "notnullx",
	"NOTE", "Nothing", "date", "has_edge", "a", "b", "c", "A", "Z", "z9", "a_b", "a__", "createdAt", "ID", "x1y2", "select", "where", "null1", "TRUE_",
}

// Name makes an identifier.
func (g *G) Name() string {
	if len(g.names) > 0 && g.chance(0.15) {
		return Pick(g.R, g.names)
	}
	s := g.newName()
	if len(s) < 300 {
		g.names = append(g.names, s)
	}
	return s
}

func (g *G) newName() string {
	long := g.big.take(bigName)
	if !long && g.chance(0.5) {
		return Pick(g.R, trickyNames)
	}
	const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	const rest = first + "0123456789_"
	l := 1 + g.n(6)
	if g.chance(0.02) {
		l = 60 + g.n(200)
	}
	if long {
		l = Size(g.R, 60, 6000)
	}
	b := []byte{first[g.n(len(first))]}
	for len(b) < l {
		b = append(b, rest[g.n(len(rest))])
	}
	s := string(b)
	if strings.EqualFold(s, "not") || s == "true" || s == "false" || s == "null" || s == "TRUE" || s == "FALSE" || s == "NULL" {
		return "a"
	}
	return s
}

var hostile = []string{
	"", " ", "  ", "\t", "\n", "\r\n", "\r", "a", "wener", "%", "_", "%a%", "\\", "\\'", "\\n", "a\\", "?", "??", "$1", ":1", "@a", "@name", "`", "``", "[", "]", "(", ")", "((", "))",
	"--", "-- x", "// y", "/*", "*/", "/* x */", ";", "; drop table users", "1", "0", "null", "NULL", "true", "not", "and", " and ", " or ", " or 1=1", "in", "between",
	"\u00a0", "\u2028", "\u2029", "é", "日本語", "🙂", "\u0000", "\u0001", "\u00a0", "\u2028", "\ufeff", "\ufffd", "ß", "İ", "a b", "a=1", "a = 1 or b", "{}", "%s", "%d", "%!v", "\v", "\f", "x\ty", "x\r\ny", "x\ry", "x\ny",
}

// Text makes a string value that some quote can express.
func (g *G) Text() string {
	var s string
	if g.big.take(bigText) {
		var b strings.Builder
		for l := Size(g.R, 100, 100_000); b.Len() < l; {
			b.WriteString(Pick(g.R, hostile) + "x")
		}
		return b.String()
	}
	switch g.n(11) {
	case 10:
		s = g.formatted()
	case 0, 1, 2:
		s = Pick(g.R, hostile)
	case 3, 4:
		for i := g.n(4); i >= 0; i-- {
			s += Pick(g.R, hostile)
		}
	case 5, 6:
		for i := g.n(8); i > 0; i-- {
			s += string(rune(32 + g.n(95)))
		}
	case 7:
		for i := g.n(6); i > 0; i-- {
			r := rune(g.n(0x110000))
			if r >= 0xd800 && r < 0xe000 {
				r = 'x'
			}
			s += string(r)
		}
	case 8:
		s = strings.Repeat(Pick(g.R, hostile), g.n(40))
	case 9:
		q := "'"
		if g.chance(0.5) {
			q = `"`
		}
		for i := g.n(4); i >= 0; i-- {
			s += q + strings.Trim(Pick(g.R, hostile), `'"`)
		}
	}
	if strings.Contains(s, "'") && strings.Contains(s, `"`) {
		s = strings.ReplaceAll(s, `"`, "")
	}
	if !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, "")
	}
	return s
}

// Integer makes a value with many boundary cases.
func (g *G) Integer() int {
	switch g.n(8) {
	case 0, 1:
		return g.n(4)
	case 2, 3:
		return g.n(1000)
	case 4:
		v := 1
		for i := g.n(18); i > 0; i-- {
			v *= 10
		}
		return v + g.n(3) - 1
	case 5:
		return int(uint64(1)<<g.n(63)) - g.n(2)
	case 6:
		return int(^uint(0)>>1) - g.n(3)
	}
	return int(g.R.Uint64() >> 1 >> g.n(63))
}

// Literal makes a scalar value.
func (g *G) Literal() *ref.N {
	if len(g.lits) > 0 && g.chance(0.1) {
		return Vary(g.R, Pick(g.R, g.lits))
	}
	n := g.newLiteral()
	if len(n.S) < 300 {
		g.lits = append(g.lits, n)
	}
	return n
}

func (g *G) newLiteral() *ref.N {
	switch g.n(10) {
	case 0, 1, 2, 3:
		return &ref.N{K: ref.Int, I: g.Integer()}
	case 4, 5, 6, 7:
		return &ref.N{K: ref.Str, S: g.Text()}
	case 8:
		return &ref.N{K: ref.Bool, B: g.chance(0.5)}
	}
	return &ref.N{K: ref.Null}
}

// List makes a list of scalars.
func (g *G) List() *ref.N {
	n := &ref.N{K: ref.Arr}
	l := g.n(5)
	if g.chance(0.03) {
		l = g.n(60)
	}
	if g.big.take(bigList) {
		l = Size(g.R, 30, 3000)
	}
	for i := 0; i < l; i++ {
		n.Kids = append(n.Kids, g.Literal())
	}
	return n
}

// Value makes a literal or a list.
func (g *G) Value() *ref.N {
	if g.chance(0.12) {
		return g.List()
	}
	return g.Literal()
}

// Expr makes a whole expression.
func (g *G) Expr() *ref.N {
	g.Budget--
	k := 1
	for g.chance(0.45) && k < 6 && g.Budget > 2 {
		k++
	}
	if g.big.take(bigChain) {
		k, g.Budget = Size(g.R, 7, 500), 0
	}
	if g.big.take(bigNest) {
		d := Size(g.R, 6, 120)
		n := g.Expr()
		for ; d > 0; d-- {
			n = &ref.N{K: ref.Paren, Kids: []*ref.N{n}}
			switch g.n(8) {
			case 0:
				n = &ref.N{K: ref.Not, Kids: []*ref.N{n}}
			case 1:
				n = &ref.N{K: ref.Logic, Op: "or", Kids: []*ref.N{n, {K: ref.Ident, Name: g.Name()}}}
			case 2:
				n = &ref.N{K: ref.Logic, Op: "and", Kids: []*ref.N{{K: ref.Ident, Name: g.Name()}, n}}
			case 3:
				n = &ref.N{K: ref.Fn, Name: g.Name(), Kids: []*ref.N{n}}
			}
		}
		return n
	}
	ops := make([]string, 0, k)
	parts := []*ref.N{g.not()}
	for i := 1; i < k; i++ {
		o := "and"
		if g.chance(0.5) {
			o = "or"
		}
		ops = append(ops, o)
		if g.chance(0.1) {
			parts = append(parts, Vary(g.R, Pick(g.R, parts)))
			continue
		}
		parts = append(parts, g.not())
	}
	return Group(parts, ops)
}

// Vary returns the same tree or one that differs in a detail.
func Vary(r *rand.Rand, n *ref.N) *ref.N {
	n = n.Clone()
	if r.IntN(5) == 0 {
		return n
	}
	var spots []*ref.N
	n.Walk(func(m *ref.N) {
		switch {
		case m.K == ref.Int, m.K == ref.Str, m.K == ref.Bool, m.K == ref.Cmp && m.Op != "in" && m.Op != "not in", m.K == ref.Between, m.K == ref.Arr && len(m.Kids) > 1:
			spots = append(spots, m)
		}
	})
	if len(spots) == 0 {
		return n
	}
	m := Pick(r, spots)
	switch m.K {
	case ref.Int:
		if m.I < 1<<62 {
			m.I = Pick(r, []int{m.I + 1, m.I * 10, m.I ^ 1, m.I + 1<<32})
		}
		if m.I < 0 {
			m.I = 0
		}
	case ref.Str:
		m.S = Pick(r, []string{strings.ToUpper(m.S), strings.ToLower(m.S), m.S + " ", " " + m.S, m.S + m.S, strings.TrimSpace(m.S), strings.ReplaceAll(m.S, " ", "  "), ""})
	case ref.Bool:
		m.B = !m.B
	case ref.Cmp:
		m.Op = Pick(r, compareOps[:6])
	case ref.Between:
		m.Op = Pick(r, []string{"between", "not between"})
	case ref.Arr:
		m.Kids = m.Kids[:len(m.Kids)-1]
	}
	return n
}

// Group builds the tree of a flat chain: or over and, from the left.
func Group(parts []*ref.N, ops []string) *ref.N {
	// operator precedence with two explicit levels
	var out *ref.N
	i := 0
	for i < len(parts) {
		t := parts[i]
		for i < len(ops) && ops[i] == "and" {
			t = &ref.N{K: ref.Logic, Op: "and", Kids: []*ref.N{t, parts[i+1]}}
			i++
		}
		if out == nil {
			out = t
		} else {
			out = &ref.N{K: ref.Logic, Op: "or", Kids: []*ref.N{out, t}}
		}
		i++
	}
	return out
}

func (g *G) not() *ref.N {
	g.Budget--
	if g.chance(0.2) {
		return &ref.N{K: ref.Not, Kids: []*ref.N{g.compare()}}
	}
	return g.compare()
}

var compareOps = []string{"gte", "gt", "eq", "neq", "lt", "lte", "like", "not like"}

func (g *G) compare() *ref.N {
	g.Budget--
	n := g.inList()
	for i := 0; i < 3; i++ {
		p := 0.7
		if i > 0 {
			p = 0.1
		}
		if !g.chance(p) {
			break
		}
		n = &ref.N{K: ref.Cmp, Op: Pick(g.R, compareOps), Kids: []*ref.N{n, g.inList()}}
	}
	return n
}

func (g *G) inList() *ref.N {
	n := g.predicate()
	if g.chance(0.12) {
		o := "in"
		if g.chance(0.5) {
			o = "not in"
		}
		n = &ref.N{K: ref.Cmp, Op: o, Kids: []*ref.N{n, g.List()}}
	}
	return n
}

var predOps = []string{"is null", "is not null", "is true", "is not true", "is false", "is not false"}

func (g *G) predicate() *ref.N {
	n := g.between()
	if g.chance(0.1) {
		n = &ref.N{K: ref.Pred, Op: Pick(g.R, predOps), Kids: []*ref.N{n}}
	}
	return n
}

func (g *G) between() *ref.N {
	n := g.primary()
	if g.chance(0.1) {
		o := "between"
		if g.chance(0.5) {
			o = "not between"
		}
		n = &ref.N{K: ref.Between, Op: o, Kids: []*ref.N{n, g.Value(), g.Value()}}
	}
	return n
}

func (g *G) primary() *ref.N {
	if len(g.seen) > 0 && g.chance(0.06) {
		return Vary(g.R, Pick(g.R, g.seen))
	}
	n := g.newPrimary()
	if (n.K == ref.Paren || n.K == ref.Fn || n.K == ref.Path) && len(g.seen) < 20 && n.Size() < 12 {
		g.seen = append(g.seen, n)
	}
	return n
}

func (g *G) newPrimary() *ref.N {
	g.Budget--
	k := g.n(20)
	if g.Budget <= 0 {
		k = 6 + g.n(14)
	}
	params := g.n(4)
	path := 2
	for g.chance(0.2) {
		path++
	}
	if g.big.take(bigParams) {
		k, params, g.Budget = 5, Size(g.R, 4, 300), 0
	}
	if g.big.take(bigPath) {
		k, path = 12, Size(g.R, 4, 200)
	}
	switch {
	case k < 4:
		return &ref.N{K: ref.Paren, Kids: []*ref.N{g.Expr()}}
	case k < 6:
		n := &ref.N{K: ref.Fn, Name: g.Name()}
		for ; params > 0; params-- {
			if len(n.Kids) > 0 && g.chance(0.1) {
				n.Kids = append(n.Kids, Vary(g.R, Pick(g.R, n.Kids)))
				continue
			}
			n.Kids = append(n.Kids, g.Expr())
		}
		return n
	case k < 11:
		return g.Value()
	case k < 13:
		n := &ref.N{K: ref.Path}
		for ; path > 0; path-- {
			n.Names = append(n.Names, g.Name())
		}
		return n
	}
	return &ref.N{K: ref.Ident, Name: g.Name()}
}

// Itoa is strconv.Itoa.
func Itoa(i int) string { return strconv.Itoa(i) }
