package entdb

import (
	"database/sql/driver"
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"github.com/huandu/xstrings"

	"github.com/wenerme/go-miniquery/entmq"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/oracle"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C19", Quick: 600_000, Thorough: 4_000_000,
		Setup: setup, Run: runC19,
		Rule:        "random condition with hostile literals, with and without edges, built for three dialects or none, casting on or off, stand-alone, stand-alone with a numbering offset, inside a selector with earlier and later arguments, or written to a given builder; placeholders, numbering, arguments, casts, quoting and driver conversion are read from the text; the same tree with other literals of the same kinds must give the same text up to casts; distinct by tree, dialect and context",
		MinDistinct: 25_000,
		MinTags:     []string{"postgres", "mysql", "sqlite3", "alone", "offset", "selector", "into", "casting", "no casting", "wide cast", "edge", "null", "list", "hostile", "bool", "date"},
	})
}

type slot struct {
	mark string // "?" or "$n", "" for an inlined NULL
	cast string
}

var words = map[string]bool{}

func init() {
	for _, k := range strings.Fields("SELECT FROM WHERE AND OR NOT IN LIKE BETWEEN IS NULL TRUE FALSE JOIN LEFT ON AS DATE EXISTS") {
		words[k] = true
	}
}

var aliasName = regexp.MustCompile("(?i) AS [`\"]([a-z0-9_]+)[`\"]")

// scan reads the text: places for values, names, and nothing unexpected.
func scan(text, quote string, names map[string]bool) (slots []slot, stripped string, err error) {
	var out strings.Builder
	last, last2 := "", ""
	aliases := map[string]bool{}
	for _, m := range aliasName.FindAllStringSubmatch(text, -1) {
		aliases[m[1]] = true
	}
	for i := 0; i < len(text); {
		ch := text[i]
		switch {
		case ch == '`' || ch == '"':
			if string(ch) != quote {
				return nil, "", fmt.Errorf("wrong quote %q", ch)
			}
			j := strings.IndexByte(text[i+1:], ch)
			if j < 0 {
				return nil, "", fmt.Errorf("unterminated name")
			}
			if name := text[i+1 : i+1+j]; !names[name] && !aliases[name] {
				return nil, "", fmt.Errorf("unknown name %q", name)
			}
			out.WriteString(text[i : i+j+2])
			i += j + 2
			last2, last = last, "name"
		case ch == '?' || ch == '$':
			j := i + 1
			for ch == '$' && j < len(text) && text[j] >= '0' && text[j] <= '9' {
				j++
			}
			s := slot{mark: text[i:j]}
			out.WriteString(text[i:j])
			i = j
			if strings.HasPrefix(text[i:], "::") {
				j = i + 2
				for j < len(text) && (text[j]|32 >= 'a' && text[j]|32 <= 'z' || text[j] >= '0' && text[j] <= '9') {
					j++
				}
				s.cast = strings.ToLower(text[i+2 : j])
				if s.cast == "double" && strings.HasPrefix(text[j:], " precision") {
					j += len(" precision")
				}
				if s.cast == "" {
					return nil, "", fmt.Errorf("cast without type")
				}
				i = j
			}
			slots = append(slots, s)
			last2, last = last, "mark"
		case ch|32 >= 'a' && ch|32 <= 'z':
			j := i
			for j < len(text) && (text[j]|32 >= 'a' && text[j]|32 <= 'z' || text[j] == '_' || text[j] >= '0' && text[j] <= '9') {
				j++
			}
			w := strings.ToUpper(text[i:j])
			if !words[w] {
				return nil, "", fmt.Errorf("unquoted word %q", text[i:j])
			}
			if w == "NULL" && !(last == "IS" || last == "NOT" && last2 == "IS") {
				slots = append(slots, slot{})
			}
			out.WriteString(w)
			last2, last = last, w
			i = j
		case strings.IndexByte(" ().,=<>!*", ch) >= 0:
			out.WriteByte(ch)
			i++
			if ch != ' ' {
				last2, last = last, string(ch)
			}
		default:
			return nil, "", fmt.Errorf("unexpected %q at %d", ch, i)
		}
	}
	return slots, out.String(), nil
}

// value is a literal of a query.
type value struct {
	v    any
	list bool // inside a list
}

// literals lists the values of a query in order; where twice says so, the left
// side of a range counts two times, as the range is written as two comparisons.
func literals(n *ref.N, twice func(between *ref.N) bool) (out []value) {
	kids := n.Kids
	if n.K == ref.Between && twice(n) {
		kids = []*ref.N{n.Kids[0], n.Kids[1], n.Kids[0], n.Kids[2]}
	}
	for _, v := range oracle.Literals(&ref.N{K: n.K, I: n.I, B: n.B, S: n.S}) {
		out = append(out, value{v: v})
	}
	for _, k := range kids {
		for _, v := range literals(k, twice) {
			v.list = v.list || n.K == ref.Arr
			out = append(out, v)
		}
	}
	return out
}

// driverValue converts an argument as database/sql does.
func driverValue(a any) (driver.Value, error) {
	return driver.DefaultParameterConverter.ConvertValue(a)
}

// checkValues compares the places with the arguments and the literals.
func checkValues(slots []slot, args []any, want []value, pg, casting bool, first int) error {
	if len(slots) != len(want) {
		return fmt.Errorf("%d places for %d values", len(slots), len(want))
	}
	k := 0
	for i, s := range slots {
		if s.mark == "" {
			if want[i].v != nil {
				return fmt.Errorf("null in place of %#v", want[i].v)
			}
			continue
		}
		if k >= len(args) {
			return fmt.Errorf("%d arguments are too few", len(args))
		}
		mark := "?"
		if pg {
			mark = "$" + strconv.Itoa(first+k)
		}
		if s.mark != mark {
			return fmt.Errorf("placeholder %s instead of %s", s.mark, mark)
		}
		v, err := driverValue(args[k])
		if err != nil {
			return fmt.Errorf("argument %d: %w", k, err)
		}
		w, err := driverValue(want[i].v)
		if err != nil {
			return err
		}
		if !reflect.DeepEqual(v, w) {
			return fmt.Errorf("argument %d is %#v instead of %#v", k, v, w)
		}
		if pg && casting && s.cast == "" && !want[i].list {
			switch want[i].v.(type) {
			case int, bool:
				return fmt.Errorf("no cast for %#v", want[i].v)
			}
		}
		if s.cast != "" {
			if want[i].list {
				return fmt.Errorf("cast %q in a list", s.cast)
			}
			if !pg || !casting {
				return fmt.Errorf("cast %q is not expected", s.cast)
			}
			fits := false
			switch x := want[i].v.(type) {
			case int:
				fits = s.cast == "bigint" || s.cast == "int8" || s.cast == "numeric" || (s.cast == "int" || s.cast == "integer" || s.cast == "int4") && x == int(int32(x))
			case bool:
				fits = s.cast == "bool" || s.cast == "boolean"
			}
			if !fits {
				return fmt.Errorf("cast to %s does not fit %#v", s.cast, want[i])
			}
		}
		k++
	}
	if k != len(args) {
		return fmt.Errorf("%d arguments for %d placeholders", len(args), k)
	}
	return nil
}

func runC19(c *core.C) {
	w := c.State.(*world)
	r := c.R
	g := gen.New(r, 3)
	t := gen.Pick(r, tables)
	depth := 0
	if r.IntN(4) == 0 {
		depth = 1 + r.IntN(2)
	}
	a := t.typed(r, 1+r.IntN(10), depth).Expr()
	b := a.Clone()
	for _, n := range []*ref.N{a, b} {
		n.Walk(func(m *ref.N) {
			switch m.K {
			case ref.Int:
				m.I = g.Integer()
			case ref.Str:
				m.S = g.Text()
			case ref.Bool:
				m.B = r.IntN(2) == 0
			}
		})
	}
	names := map[string]bool{}
	if edgeDepth(a) > 0 {
		for _, x := range tables {
			names[x.name] = true
			for _, k := range x.cols {
				names[k.name] = true
			}
			for _, e := range x.edges {
				names[e.table] = true
				for _, k := range e.columns {
					names[k] = true
				}
			}
		}
		c.Tag("edge")
	} else {
		// any names are good as columns are not checked
		a.Walk(func(m *ref.N) {
			if m.K == ref.Ident && r.IntN(3) == 0 {
				m.Name = g.Name()
			}
		})
		var l []string
		a.Walk(func(m *ref.N) {
			if m.K == ref.Ident {
				l = append(l, m.Name)
				s := m.Name
				if strings.ToLower(s) != s {
					s = xstrings.ToSnakeCase(s)
				}
				names[s] = true
			}
		})
		i := 0
		b.Walk(func(m *ref.N) {
			if m.K == ref.Ident {
				m.Name = l[i]
				i++
			}
		})
	}
	qa, ok := text(r, a)
	qb, ok2 := text(r, b)
	if !ok || !ok2 {
		c.Tag("skipped")
		return
	}
	d := gen.Pick(r, []string{dialect.Postgres, dialect.MySQL, dialect.SQLite, ""})
	ctx := gen.Pick(r, []string{"alone", "offset", "selector", "into"})
	casting := r.IntN(2) == 0
	quote := "`"
	if d == dialect.Postgres {
		quote = `"`
	}
	before, after := r.IntN(3), r.IntN(3)
	offset := 1 + r.IntN(12)
	build := func(q string) (text string, args []any, err error) {
		mb := &entmq.MiniQLToEntSQLBuilder{QueryString: q, Node: w.nodes[t], Graph: w.graph, DisableTypeCasting: !casting}
		switch ctx {
		case "alone", "offset":
			mb.SetDialect(d)
			if ctx == "offset" {
				mb.SetTotal(offset)
			}
			text, args = mb.Query()
			return text, args, mb.Err()
		case "selector":
			sel := sql.Dialect(d).Select("id").From(sql.Table(t.name))
			for i := 0; i < before; i++ {
				sel.Where(sql.EQ("id", "before"))
			}
			sel.Where(predicate(mb, false))
			for i := 0; i < after; i++ {
				sel.Where(sql.EQ("id", "after"))
			}
			text, args = sel.Query()
			err = sel.Err()
		case "into":
			sb := &sql.Builder{}
			sb.SetDialect(d)
			for i := 0; i < before; i++ {
				sb.Ident("id").WriteOp(sql.OpEQ).Arg("before")
				sb.WriteString(" AND ")
			}
			mb.SQLBuilder = sb
			s, l := mb.Query()
			if s != "" || len(l) != 0 {
				return "", nil, fmt.Errorf("text %q %v beside the given builder", s, l)
			}
			for i := 0; i < after; i++ {
				sb.WriteString(" AND ")
				sb.Ident("id").WriteOp(sql.OpEQ).Arg("after")
			}
			text, args = sb.Query()
			err = sb.Err()
		}
		if err == nil {
			err = mb.Err()
		}
		return
	}
	names["id"], names[t.name] = names["id"] || ctx == "selector" || ctx == "into", names[t.name] || ctx == "selector"
	var stripped []string
	for _, x := range []struct {
		q string
		n *ref.N
	}{{qa, a}, {qb, b}} {
		c.Eval(1)
		var txt string
		var args []any
		var err error
		if !c.Guard(fmt.Sprintf("query %q for %s, %s", x.q, d, ctx), func() { txt, args, err = build(x.q) }) {
			return
		}
		if err != nil {
			c.Fail("query fails", "query %q for %s, %s: %v", x.q, d, ctx, err)
			return
		}
		slots, s, err := scan(txt, quote, names)
		if err == nil {
			first := 1
			if ctx == "offset" {
				first = offset + 1
			}
			surround := func(l []value) []value {
				if ctx != "selector" && ctx != "into" {
					return l
				}
				var out []value
				for i := 0; i < before; i++ {
					out = append(out, value{v: "before"})
				}
				out = append(out, l...)
				for i := 0; i < after; i++ {
					out = append(out, value{v: "after"})
				}
				return out
			}
			// ranges may be written in either way
			for k := 0; k < 9; k++ {
				twice := func(n *ref.N) bool {
					way := k % 3
					if n.Op != "between" {
						way = (k%3 + k/3) % 3
					}
					return way == 1 || way == 0 && simpleLeft(n.Kids[0])
				}
				e := checkValues(slots, args, surround(literals(x.n, twice)), d == dialect.Postgres, casting, first)
				if e == nil {
					err = nil
					break
				}
				if err == nil {
					err = e
				}
			}
		}
		if err != nil {
			c.Fail("text and arguments", "query %q for %s, %s, casting %v\n%v\ntext %s\narguments %#v", x.q, d, ctx, casting, err, txt, args)
			return
		}
		for _, sl := range slots {
			if sl.cast == "bigint" {
				c.Tag("wide cast")
			}
		}
		stripped = append(stripped, s)
	}
	if stripped[0] != stripped[1] {
		c.Fail("text depends on literals", "query %q\n%s\nquery %q\n%s", qa, stripped[0], qb, stripped[1])
		return
	}
	c.Tag(d)
	c.Tag(ctx)
	c.Tag(map[bool]string{true: "casting", false: "no casting"}[casting])
	a.Walk(func(m *ref.N) {
		switch m.K {
		case ref.Null:
			c.Tag("null")
		case ref.Arr:
			c.Tag("list")
		case ref.Bool:
			c.Tag("bool")
		case ref.Fn:
			c.Tag(m.Name)
		case ref.Str:
			if strings.ContainsAny(m.S, "'\"`;-?$@") {
				c.Tag("hostile")
			}
		}
	})
	c.Distinct(d + ctx + ref.Dump(a))
	c.Sample("%s %s %q", d, ctx, qa)
}
