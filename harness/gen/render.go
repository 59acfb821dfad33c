package gen

import (
	"math/rand/v2"
	"strings"

	"mqverif/ref"
)

// Style decides everything about a text that must not matter.
type Style struct {
	// R drives random choices; nil renders plainly.
	R *rand.Rand
	// Blanks allows white space variation and comments.
	Blanks bool
	// Words allows keyword case, synonyms, bracket style, quote choice.
	Words bool
}

type piece struct {
	s   string
	gap int // 0 token, 1 optional gap, 2 mandatory gap
}

type renderer struct {
	st     Style
	pieces []piece
}

// Render writes a tree as text.
func Render(n *ref.N, st Style) string {
	r := &renderer{st: st}
	r.gap(1)
	r.expr(n)
	r.gap(1)
	return r.join()
}

func (r *renderer) tok(s string) { r.pieces = append(r.pieces, piece{s: s}) }
func (r *renderer) gap(k int)    { r.pieces = append(r.pieces, piece{gap: k}) }

func (r *renderer) words() bool { return r.st.R != nil && r.st.Words }

func (r *renderer) pick(s ...string) string {
	if !r.words() {
		return s[0]
	}
	return s[r.st.R.IntN(len(s))]
}

func (r *renderer) flip() bool { return r.words() && r.st.R.IntN(2) == 0 }

// anyCase varies letters of a case-insensitive keyword.
func (r *renderer) anyCase(s string) string {
	if !r.words() {
		return s
	}
	switch r.st.R.IntN(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i, c := range b {
			if r.st.R.IntN(2) == 0 && c >= 'a' && c <= 'z' {
				b[i] = c - 32
			}
		}
		return string(b)
	}
	return s
}

// kw writes a multi-word keyword whose words may have any case.
func (r *renderer) kw(words ...string) {
	for i, w := range words {
		if i > 0 {
			r.gap(2)
		}
		r.tok(r.anyCase(w))
	}
}

// lkw is kw for keywords that are lower case only.
func (r *renderer) lkw(words ...string) {
	for i, w := range words {
		if i > 0 {
			r.gap(2)
		}
		r.tok(w)
	}
}

func (r *renderer) expr(n *ref.N) {
	switch n.K {
	case ref.Logic:
		r.expr(n.Kids[0])
		r.gap(1)
		if n.Op == "and" {
			if s := r.pick("and", "&&"); s == "and" {
				r.kw("and")
			} else {
				r.tok(s)
			}
		} else {
			if s := r.pick("or", "||"); s == "or" {
				r.kw("or")
			} else {
				r.tok(s)
			}
		}
		r.gap(1)
		r.expr(n.Kids[1])
	case ref.Not:
		r.kw("not")
		r.gap(2)
		r.expr(n.Kids[0])
	case ref.Cmp:
		r.expr(n.Kids[0])
		r.gap(1)
		switch n.Op {
		case "in":
			r.kw("in")
			r.gap(1)
			r.list(n.Kids[1], r.flip())
			return
		case "not in":
			r.kw("not", "in")
			r.gap(1)
			r.list(n.Kids[1], r.flip())
			return
		case "like":
			r.kw("like")
		case "not like":
			r.kw("not", "like")
		default:
			syn := map[string][]string{
				"gte": {">=", "gte"}, "gt": {">", "gt"}, "lt": {"<", "lt"}, "lte": {"<=", "lte"},
				"eq": {"=", "==", "eq"}, "neq": {"!=", "<>", "neq"},
			}[n.Op]
			s := r.pick(syn...)
			if s[0] >= 'a' && s[0] <= 'z' {
				s = r.anyCase(s)
			}
			r.tok(s)
		}
		r.gap(1)
		r.expr(n.Kids[1])
	case ref.Pred:
		r.expr(n.Kids[0])
		r.gap(2)
		switch {
		case n.Op == "is null" && r.flip():
			r.tok("isnull")
		case n.Op == "is not null" && r.flip():
			r.tok("notnull")
		default:
			r.lkw(strings.Split(n.Op, " ")...)
		}
	case ref.Between:
		r.expr(n.Kids[0])
		r.gap(1)
		if n.Op == "not between" {
			r.kw("not")
			r.gap(2)
		}
		r.tok("between")
		r.gap(1)
		if r.words() && r.st.R.IntN(3) == 0 {
			r.tok("[")
			r.gap(1)
			r.expr(n.Kids[1])
			r.gap(1)
			r.tok(",")
			r.gap(1)
			r.expr(n.Kids[2])
			r.gap(1)
			r.tok("]")
		} else {
			r.expr(n.Kids[1])
			r.gap(1)
			r.kw("and")
			r.gap(1)
			r.expr(n.Kids[2])
		}
	case ref.Paren:
		r.tok("(")
		r.gap(1)
		r.expr(n.Kids[0])
		r.gap(1)
		r.tok(")")
	case ref.Fn:
		r.tok(n.Name + "(")
		r.items(n.Kids)
		r.tok(")")
	case ref.Ident:
		r.tok(n.Name)
	case ref.Path:
		r.tok(strings.Join(n.Names, "."))
	case ref.Arr:
		// round brackets around fewer than two values are a group, not a list
		r.list(n, len(n.Kids) > 1 && r.flip())
	case ref.Int:
		r.tok(Itoa(n.I))
	case ref.Bool:
		s := "false"
		if n.B {
			s = "true"
		}
		if r.flip() {
			s = strings.ToUpper(s)
		}
		r.tok(s)
	case ref.Null:
		r.tok(r.pick("null", "NULL"))
	case ref.Str:
		q := "'"
		if strings.Contains(n.S, "'") || !strings.Contains(n.S, `"`) && r.flip() {
			q = `"`
		}
		r.tok(q + n.S + q)
	}
}

func (r *renderer) list(n *ref.N, round bool) {
	if round {
		r.tok("(")
	} else {
		r.tok("[")
	}
	r.items(n.Kids)
	if round {
		r.tok(")")
	} else {
		r.tok("]")
	}
}

func (r *renderer) items(kids []*ref.N) {
	r.gap(1)
	for i, k := range kids {
		if i > 0 {
			r.gap(1)
			r.tok(",")
			r.gap(1)
		}
		r.expr(k)
	}
	if len(kids) > 0 {
		r.gap(1)
		if r.words() && r.st.R.IntN(4) == 0 {
			r.tok(",")
		}
	}
	r.gap(1)
}

func wordChar(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

var blankUnits = []string{" ", " ", " ", "  ", "\t", "\n", "\r\n", "\r", " \t ", "\n\n"}

var commentText = []string{"", " ", "x", " and ", " or 1=1", "'", `"`, "('", "--", "//", "not in", "é 日本", ")", "]", "]]", " is null ", "\t", ",", "-- // --", "not", "/* */", "in (1)"}

// Blank makes white space and comments.
func Blank(rd *rand.Rand) string {
	var b strings.Builder
	long := 1
	if rd.IntN(400) == 0 {
		long = Size(rd, 5, 1500)
	}
	for i := 1 + rd.IntN(3); i > 0; i-- {
		if rd.IntN(4) == 0 {
			b.WriteString(Pick(rd, []string{"--", "//"}))
			b.WriteString(strings.Repeat(Pick(rd, commentText), long))
			b.WriteString(Pick(rd, []string{"\n", "\r\n", "\r"}))
		} else {
			b.WriteString(strings.Repeat(Pick(rd, blankUnits), long))
		}
	}
	return b.String()
}

func (r *renderer) join() string {
	var b strings.Builder
	var last byte
	write := func(s string) {
		if s != "" {
			b.WriteString(s)
			last = s[len(s)-1]
		}
	}
	ps := r.pieces
	for i := 0; i < len(ps); i++ {
		p := ps[i]
		if p.gap == 0 {
			write(p.s)
			continue
		}
		// adjacent gaps merge
		kind := p.gap
		for i+1 < len(ps) && ps[i+1].gap != 0 {
			i++
			if ps[i].gap > kind {
				kind = ps[i].gap
			}
		}
		edge := b.Len() == 0 || i+1 == len(ps)
		must := kind == 2
		if !edge && wordChar(last) && ps[i+1].s != "" && wordChar(ps[i+1].s[0]) {
			must = true
		}
		if r.st.R == nil || !r.st.Blanks {
			if must || !edge && plainSpace(last, ps[i+1].s) {
				write(" ")
			}
			continue
		}
		if !must && r.st.R.IntN(3) == 0 {
			continue
		}
		if r.st.R.IntN(2) == 0 {
			if must || r.st.R.IntN(2) == 0 {
				write(" ")
			}
			continue
		}
		write(Blank(r.st.R))
	}
	return b.String()
}

func plainSpace(last byte, next string) bool {
	if next == "," || next == ")" || next == "]" || last == '(' || last == '[' {
		return false
	}
	return true
}
