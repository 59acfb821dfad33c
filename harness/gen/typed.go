package gen

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode/utf8"

	"mqverif/ref"
)

// Class of a column.
type Class byte

const (
	ClassInt  Class = 'i'
	ClassText Class = 't'
	ClassBool Class = 'b'
	ClassTime Class = 'd'
)

// Col is a column as a query may spell it.
type Col struct {
	Names []string
	Class Class
}

// Node makes the tree of the column.
func (c Col) Node() *ref.N {
	if len(c.Names) == 1 {
		return &ref.N{K: ref.Ident, Name: c.Names[0]}
	}
	return &ref.N{K: ref.Path, Names: append([]string{}, c.Names...)}
}

// Typed generates conditions over known columns.
type Typed struct {
	R      *rand.Rand
	Cols   []Col
	Budget int
	// what the target supports
	Date      bool // date(x)
	DateMulti bool // date(x, modifier)
	IsBool    bool // is true, is false
	IsNull    bool
	Like      bool
	Bare      bool // columns and literals as conditions
	LeftOnly  bool // comparisons have a column on the left and a literal or column on the right
	NullLit   bool // null as operand
	// Extra makes a further condition (edges); may return nil.
	Extra func(t *Typed) *ref.N
	// Small keeps the query small in every dimension.
	Small bool
	big   big
	begun bool
	flat  bool // in a long chain
}

var (
	intPool  = []int{0, 1, 2, 3, 4, 5, 7, 10, 11, 18, 99, 100, 1000, 2147483647, 2147483648, 4294967296, 9223372036854775807}
	textPool = []string{"", "a", "A", "b", "ab", "abc", "B", "wener", "Wener", "x y", "%", "_", "a%", "%b%", "a_", "_b", "it's", `say "hi"`, "NULL", "null", "1", "0", "10", "é", "日本", "a or 1=1", "') or 1=1 --", "--", "?", "$1", "@name", "a\nb", "\\", "%\\%", "true",
		"\r\n", "a\r\nb", "a\rb", "\t", "a\tb", " ", " a", "a ", "  ", "a\\nb", "\\'", "`", "a;b", "%s", "$", ":a", "ß", "İ", "ABC", "🙂", "\u2028", "\ufeff", "e\u0301", "\\\\", "a\\\\b", "''", "a''b",
		long + "1", long + "2", longer + "1", longer + "2"}
	long     = strings.Repeat("long ", 60)
	longer   = strings.Repeat("longer ", 700)
	timePool = []string{"2020-01-01 00:00:00", "2020-02-29 12:30:00", "2021-05-12 08:00:00", "2021-05-12 23:59:59", "2021-05-13 00:00:00", "1999-12-31 23:59:59", "2021-05-12", "2020-02-29", "2021", ""}
)

// Ints, Texts and Times are the values data and literals are drawn from.
func Ints() []int            { return intPool }
func Texts() []string        { return textPool }
func Stamps() []string       { return timePool[:6] }
func (t *Typed) n(k int) int { return t.R.IntN(k) }

func (t *Typed) col(cl Class) *ref.N {
	for i := 0; i < 8; i++ {
		c := Pick(t.R, t.Cols)
		if cl == 0 || c.Class == cl {
			return c.Node()
		}
	}
	return Pick(t.R, t.Cols).Node()
}

// Lit makes a literal that is likely to meet data of the class.
func (t *Typed) Lit(cl Class) *ref.N {
	if t.NullLit && t.n(15) == 0 {
		return &ref.N{K: ref.Null}
	}
	if cl == 0 || t.n(12) == 0 {
		cl = Pick(t.R, []Class{ClassInt, ClassText, ClassBool, ClassTime})
	}
	switch cl {
	case ClassInt:
		return &ref.N{K: ref.Int, I: Pick(t.R, intPool)}
	case ClassText:
		s := Pick(t.R, textPool)
		if t.n(8) == 0 {
			s += Pick(t.R, textPool)
			if !quotable(s) {
				s = "ab"
			}
		}
		return &ref.N{K: ref.Str, S: s}
	case ClassBool:
		return &ref.N{K: ref.Bool, B: t.n(2) == 0}
	}
	return &ref.N{K: ref.Str, S: Pick(t.R, timePool)}
}

func quotable(s string) bool {
	a, b := false, false
	for _, r := range s {
		a = a || r == '\''
		b = b || r == '"'
	}
	return !(a && b)
}

// Expr makes a condition with and/or at the top.
func (t *Typed) Expr() *ref.N {
	if !t.begun {
		t.begun = true
		if !t.Small {
			t.big = someBig(t.R)
		}
	}
	k := 1
	for t.n(100) < 50 && k < 6 && t.Budget > 2 {
		k++
	}
	if t.big.take(bigChain) {
		k, t.Budget, t.flat = Size(t.R, 7, 150), 0, true
	}
	if t.big.take(bigNest) {
		d := Size(t.R, 3, 24)
		n := t.Expr()
		for ; d > 0; d-- {
			n = &ref.N{K: ref.Paren, Kids: []*ref.N{n}}
			switch t.n(8) {
			case 0:
				n = &ref.N{K: ref.Not, Kids: []*ref.N{n}}
			case 1, 2:
				n = &ref.N{K: ref.Logic, Op: Pick(t.R, []string{"and", "or"}), Kids: []*ref.N{n, t.unit()}}
			}
		}
		return n
	}
	parts := []*ref.N{t.unit()}
	var ops []string
	for i := 1; i < k; i++ {
		ops = append(ops, Pick(t.R, []string{"and", "or"}))
		if t.n(8) == 0 {
			parts = append(parts, Vary(t.R, Pick(t.R, parts)))
			continue
		}
		parts = append(parts, t.unit())
	}
	return Group(parts, ops)
}

// Empty adds a search in a list without members, which no row passes, to a
// condition. It is not negated, so it makes no difference whether that is
// false or unknown.
func (t *Typed) Empty(n *ref.N) *ref.N {
	e := &ref.N{K: ref.Cmp, Op: "in", Kids: []*ref.N{t.col(0), {K: ref.Arr}}}
	p := &ref.N{K: ref.Paren, Kids: []*ref.N{n}}
	op := Pick(t.R, []string{"and", "or", "or"})
	switch t.n(5) {
	case 0:
		return e
	case 1:
		return &ref.N{K: ref.Paren, Kids: []*ref.N{e}}
	case 2:
		return &ref.N{K: ref.Logic, Op: op, Kids: []*ref.N{e, p}}
	case 3:
		in := &ref.N{K: ref.Logic, Op: "or", Kids: []*ref.N{e, t.cond()}}
		return &ref.N{K: ref.Logic, Op: "and", Kids: []*ref.N{p, {K: ref.Paren, Kids: []*ref.N{in}}}}
	}
	return &ref.N{K: ref.Logic, Op: op, Kids: []*ref.N{p, e}}
}

// unit is an operand of and/or.
func (t *Typed) unit() *ref.N {
	t.Budget--
	if t.n(5) == 0 {
		return &ref.N{K: ref.Not, Kids: []*ref.N{t.cond()}}
	}
	return t.cond()
}

// cond is a condition that not may stand before.
func (t *Typed) cond() *ref.N {
	t.Budget--
	if t.Extra != nil && t.n(3) == 0 && (!t.flat || t.n(8) == 0) {
		if n := t.Extra(t); n != nil {
			return n
		}
	}
	if t.Budget > 0 && t.n(6) == 0 {
		return &ref.N{K: ref.Paren, Kids: []*ref.N{t.Expr()}}
	}
	cl := Pick(t.R, []Class{ClassInt, ClassInt, ClassText, ClassText, ClassBool, ClassTime})
	long := t.big.take(bigList)
	for {
		k := t.n(12)
		if long {
			k = 5
		}
		switch k {
		case 0, 1, 2, 3, 4:
			ops := []string{"gte", "gt", "eq", "neq", "lt", "lte"}
			return &ref.N{K: ref.Cmp, Op: Pick(t.R, ops), Kids: []*ref.N{t.side(cl, cmpLeft), t.side(cl, cmpRight)}}
		case 5, 6:
			op := Pick(t.R, []string{"in", "not in"})
			l := &ref.N{K: ref.Arr}
			if long {
				// values no row has, then some that rows have
				for i := Size(t.R, 20, 2500); i > 0; i-- {
					v := &ref.N{K: ref.Int, I: 1000000 + i}
					if cl != ClassInt {
						v = &ref.N{K: ref.Str, S: fmt.Sprintf("none %d", i)}
					}
					l.Kids = append(l.Kids, v)
				}
			}
			for i := 1 + t.n(4); i > 0; i-- {
				l.Kids = append(l.Kids, t.Lit(cl))
			}
			return &ref.N{K: ref.Cmp, Op: op, Kids: []*ref.N{t.side(cl, inLeft), l}}
		case 7, 8:
			op := Pick(t.R, []string{"between", "not between"})
			return &ref.N{K: ref.Between, Op: op, Kids: []*ref.N{t.operand(cl, true), t.Lit(cl), t.Lit(cl)}}
		case 9:
			var ops []string
			if t.IsNull {
				ops = append(ops, "is null", "is not null", "is null", "is not null")
			}
			if t.IsBool {
				ops = append(ops, "is true", "is not true", "is false", "is not false")
			}
			if len(ops) > 0 {
				return &ref.N{K: ref.Pred, Op: Pick(t.R, ops), Kids: []*ref.N{t.side(0, predLeft)}}
			}
		case 10:
			if t.Like {
				op := Pick(t.R, []string{"like", "not like"})
				return &ref.N{K: ref.Cmp, Op: op, Kids: []*ref.N{t.side(ClassText, cmpLeft), t.side(ClassText, cmpRight)}}
			}
		case 11:
			if t.Bare {
				if t.n(3) == 0 {
					return t.Lit(cl)
				}
				return t.col(0)
			}
		}
	}
}

// Places of a condition where the grammar takes another one without
// parentheses, in the order in which they take more kinds.
const (
	predLeft = iota
	inLeft
	cmpRight
	cmpLeft
)

// Loose tells whether an operand of a comparison is another one without
// parentheses.
func Loose(n *ref.N) bool {
	if n.K != ref.Cmp && n.K != ref.Pred {
		return false
	}
	for _, k := range n.Kids {
		if k.K == ref.Cmp || k.K == ref.Pred || k.K == ref.Between {
			return true
		}
	}
	return false
}

// side is an operand that may be a condition without parentheses.
func (t *Typed) side(cl Class, place int) *ref.N {
	if t.LeftOnly || t.Budget <= 0 || t.n(16) != 0 {
		return t.operand(cl, place != cmpRight)
	}
	t.Budget--
	cl = Pick(t.R, []Class{ClassInt, ClassText, ClassTime})
	switch t.n(place + 1) {
	case 1:
		if t.IsNull {
			return &ref.N{K: ref.Pred, Op: Pick(t.R, []string{"is null", "is not null"}), Kids: []*ref.N{t.side(cl, predLeft)}}
		}
	case 2:
		l := &ref.N{K: ref.Arr, Kids: []*ref.N{t.Lit(cl), t.Lit(cl)}}
		return &ref.N{K: ref.Cmp, Op: Pick(t.R, []string{"in", "not in"}), Kids: []*ref.N{t.side(cl, inLeft), l}}
	case 3:
		op := Pick(t.R, []string{"gte", "gt", "eq", "neq", "lt", "lte"})
		return &ref.N{K: ref.Cmp, Op: op, Kids: []*ref.N{t.side(cl, cmpLeft), t.side(cl, cmpRight)}}
	}
	op := Pick(t.R, []string{"between", "not between"})
	return &ref.N{K: ref.Between, Op: op, Kids: []*ref.N{t.operand(cl, true), t.Lit(cl), t.Lit(cl)}}
}

func (t *Typed) operand(cl Class, left bool) *ref.N {
	if t.LeftOnly {
		n := t.Lit(cl)
		if left || t.n(4) == 0 {
			n = t.col(cl)
		}
		if t.n(10) == 0 {
			n = &ref.N{K: ref.Paren, Kids: []*ref.N{n}}
		}
		return n
	}
	k := t.n(20)
	if left && k >= 14 && k < 17 {
		k = 0
	}
	switch {
	case k < 3 && t.Date && cl == ClassTime:
		n := &ref.N{K: ref.Fn, Name: "date", Kids: []*ref.N{t.col(ClassTime)}}
		if t.n(3) == 0 {
			n.Kids[0] = t.Lit(ClassTime)
		}
		if t.DateMulti && t.n(3) == 0 {
			for i := 1 + t.n(2); i > 0; i-- {
				n.Kids = append(n.Kids, &ref.N{K: ref.Str, S: Pick(t.R, []string{"+1 day", "-1 month", "start of month", "+1 year"})})
			}
		}
		return n
	case k == 18 && t.Budget > 0:
		// a condition as operand
		if t.Bare && t.n(3) == 0 {
			n := t.col(0)
			for i := 1 + t.n(3); i > 0; i-- {
				n = &ref.N{K: ref.Paren, Kids: []*ref.N{{K: ref.Not, Kids: []*ref.N{n}}}}
			}
			return n
		}
		return &ref.N{K: ref.Paren, Kids: []*ref.N{t.Expr()}}
	case k == 19:
		in := t.col(cl)
		if t.n(2) == 0 {
			in = t.Lit(cl)
		}
		return &ref.N{K: ref.Paren, Kids: []*ref.N{in}}
	case left && k < 15, !left && k < 6:
		return t.col(cl)
	}
	return t.Lit(cl)
}

// Special makes values a row gets for one query only, and puts them, or
// values close to them, into some places of the query.
func Special(r *rand.Rand, n *ref.N) (string, int) {
	g := New(r, 3)
	s, i := strings.ReplaceAll(g.Text(), "\x00", ""), g.Integer()
	if len(s) > 10000 {
		s = "??"
	}
	if r.IntN(2) == 0 {
		return s, i
	}
	n.Walk(func(m *ref.N) {
		if m.K != ref.Str && m.K != ref.Int || r.IntN(3) != 0 {
			return
		}
		m.I, m.S = i, s
		if m.K == ref.Int {
			m.S = ""
			switch r.IntN(6) {
			case 0:
				m.I = max(i-1, 0)
			case 1:
				m.I = max(i+1, i)
			}
			return
		}
		m.I = 0
		switch r.IntN(10) {
		case 0:
			m.S += "x"
		case 1:
			_, k := utf8.DecodeLastRuneInString(s)
			m.S = s[:len(s)-k]
		case 2:
			m.S = strings.ToUpper(s)
		case 3:
			m.S = "%" + s
		case 4:
			m.S += "%"
		}
	})
	return s, i
}
