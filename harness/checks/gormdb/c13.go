package gormdb

import (
	"fmt"
	"reflect"
	"strings"

	"gorm.io/gorm"
	"gorm.io/gorm/clause"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/utils/tests"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/oracle"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C13", Quick: 250_000, Thorough: 2_000_000,
		Setup: setupC13, Run: runC13,
		Rule:        "random condition over own and related columns with hostile literals; the same tree with other literals of the same kinds must give the same SQL text, bound values must be the literals in order, the text may only consist of known keywords, placeholders and quoted names of the model; rendered for two dialects and sent to a recording connection; distinct by pair of literal lists with at least one string",
		MinDistinct: 15_000,
		MinTags:     []string{"sqlite", "numbered", "sent", "hostile", "list", "path", "function", "update"},
	})
}

// numbered is a dialect with double quotes and numbered placeholders.
type numbered struct{ tests.DummyDialector }

func (numbered) Name() string { return "numbered" }

func (numbered) BindVarTo(w clause.Writer, s *gorm.Statement, v interface{}) {
	_, _ = w.WriteString(fmt.Sprintf("$%d", len(s.Vars)))
}

func (numbered) QuoteTo(w clause.Writer, s string) {
	for i, p := range strings.Split(s, ".") {
		if i > 0 {
			_ = w.WriteByte('.')
		}
		_, _ = w.WriteString(`"` + strings.ReplaceAll(p, `"`, `""`) + `"`)
	}
}

type worldC13 struct {
	*world
	num *gorm.DB
}

func setupC13(w *core.Worker) error {
	if err := setup(w); err != nil {
		return err
	}
	num, err := gorm.Open(numbered{}, &gorm.Config{DryRun: true, Logger: logger.Discard})
	if err != nil {
		return err
	}
	w.State = &worldC13{w.State.(*world), num}
	return nil
}

// refill replaces every literal by another one of the same kind.
func refill(g *gen.G, n *ref.N) {
	n.Walk(func(m *ref.N) {
		switch m.K {
		case ref.Int:
			m.I = g.Integer()
		case ref.Str:
			m.S = g.Text()
		case ref.Bool:
			m.B = g.R.IntN(2) == 0
		}
	})
}

// wide gives all integers one type; which one is bound makes no difference.
func wide(l []any) []any {
	out := make([]any, len(l))
	for i, v := range l {
		if n, ok := v.(int); ok {
			v = int64(n)
		}
		out[i] = v
	}
	return out
}

var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("SELECT FROM WHERE AND OR NOT IN LIKE BETWEEN IS NULL TRUE FALSE LEFT JOIN ON AS DATE UPDATE SET") {
		keywords[k] = true
	}
}

// scan checks the SQL text token by token and returns the placeholders.
func scan(sql string, names map[string]bool) (marks []string, err error) {
	for i := 0; i < len(sql); {
		ch := sql[i]
		switch {
		case ch == '`' || ch == '"':
			j := strings.IndexByte(sql[i+1:], ch)
			if j < 0 {
				return nil, fmt.Errorf("unterminated name in %s", sql)
			}
			name := sql[i+1 : i+1+j]
			if !names[name] {
				return nil, fmt.Errorf("unknown name %q", name)
			}
			i += j + 2
		case ch == '?':
			marks = append(marks, "?")
			i++
		case ch == '$':
			j := i + 1
			for j < len(sql) && sql[j] >= '0' && sql[j] <= '9' {
				j++
			}
			marks = append(marks, sql[i:j])
			i = j
		case ch|32 >= 'a' && ch|32 <= 'z':
			j := i
			for j < len(sql) && (sql[j]|32 >= 'a' && sql[j]|32 <= 'z' || sql[j] == '_' || sql[j] >= '0' && sql[j] <= '9') {
				j++
			}
			if !keywords[strings.ToUpper(sql[i:j])] {
				return nil, fmt.Errorf("unquoted word %q", sql[i:j])
			}
			i = j
		case strings.IndexByte(" \t\n().,=<>!*", ch) >= 0:
			i++
		default:
			return nil, fmt.Errorf("unexpected %q at %d", ch, i)
		}
	}
	return marks, nil
}

var petNames = func() map[string]bool {
	m := map[string]bool{"mark": true}
	cols := strings.Fields("id name qty active sold_at owner_id boss_id shop_id parent_id height size weight years company_id deleted_at pet_id vet_no vet_code keeper_id box_row box_col row col holder_id holder_type")
	for _, k := range append(strings.Fields("pets companies owners chips docs sticky_labels vets boxes"), cols...) {
		m[k] = true
	}
	for _, r := range petRelations {
		m[r.name] = true
		for _, k := range cols {
			m[r.name+"__"+k] = true
		}
	}
	return m
}()

func runC13(c *core.C) {
	w := c.State.(*worldC13)
	r := c.R
	g := gen.New(r, 3)
	t, _ := relational(r, petSpec, petRelations, 3+r.IntN(12))
	if r.IntN(2) == 0 {
		t = petSpec.typed(r, 3+r.IntN(12))
	}
	a := t.Expr()
	a.Walk(func(m *ref.N) {
		if m.K == ref.Cmp && (m.Op == "in" || m.Op == "not in") && r.IntN(8) == 0 {
			for i := r.IntN(30); i > 0; i-- {
				m.Kids[1].Kids = append(m.Kids[1].Kids, g.Literal())
			}
			c.Tag("list")
		}
	})
	b := a.Clone()
	refill(g, a)
	refill(g, b)
	qa, ok := text(r, a)
	if !ok {
		c.Tag("skipped")
		return
	}
	qb, ok := text(r, b)
	if !ok {
		c.Tag("skipped")
		return
	}
	update := r.IntN(6) == 0 && len(usedRelations(a)) == 0
	dry := func(db *gorm.DB, q string) (sql string, vars []any, err error) {
		db = db.Session(&gorm.Session{DryRun: true, NewDB: true}).Model(&Pet{}).Scopes(filter(r, c, q))
		var res *gorm.DB
		if update {
			res = db.UpdateColumn("qty", nil)
			c.Tag("update")
		} else {
			var l []Pet
			res = db.Find(&l)
		}
		return res.Statement.SQL.String(), res.Statement.Vars, res.Error
	}
	for _, d := range []struct {
		name string
		db   *gorm.DB
	}{{"sqlite", w.db}, {"numbered", w.num}} {
		c.Eval(2)
		var sa, sb string
		var va, vb []any
		var ea, eb error
		if !c.Guard("query "+qa, func() { sa, va, ea = dry(d.db, qa) }) || !c.Guard("query "+qb, func() { sb, vb, eb = dry(d.db, qb) }) {
			return
		}
		if ea != nil || eb != nil {
			c.Fail("query fails", "query %q: %v\nquery %q: %v", qa, ea, qb, eb)
			return
		}
		if sa != sb {
			c.Fail("text depends on literals", "query %q\n  %s\nquery %q\n  %s", qa, sa, qb, sb)
			return
		}
		for _, x := range []struct {
			q    string
			t    *ref.N
			vars []any
		}{{qa, a, va}, {qb, b, vb}} {
			want := oracle.Literals(x.t)
			if update {
				want = append([]any{nil}, want...)
			}
			if usedRelations(x.t)["Label"] {
				// gorm's join names the kind of the holder
				want = append([]any{"pets"}, want...)
			}
			if len(want) != len(x.vars) || len(want) > 0 && !reflect.DeepEqual(wide(want), wide(x.vars)) {
				c.Fail("bound values differ from the literals", "query %q\nsql %s\ngot  %#v\nwant %#v", x.q, sa, x.vars, want)
				return
			}
		}
		marks, err := scan(sa, petNames)
		if err == nil && len(marks) != len(va) {
			err = fmt.Errorf("%d placeholders for %d values", len(marks), len(va))
		}
		if err == nil && d.name == "numbered" {
			for i, m := range marks {
				if m != fmt.Sprintf("$%d", i+1) {
					err = fmt.Errorf("placeholder %d is %s", i+1, m)
				}
			}
		}
		if err != nil {
			c.Fail("unexpected SQL text", "query %q\nsql %s\n%v", qa, sa, err)
			return
		}
		c.Tag(d.name)
		if d.name == "sqlite" && !update && r.IntN(4) == 0 {
			w.rec.reset()
			var l []Pet
			c.Guard("send "+qa, func() { w.db.Model(&Pet{}).Scopes(filter(r, c, qa)).Find(&l) })
			if len(w.rec.stmts) != 1 || w.rec.stmts[0].sql != sa || len(va) != len(w.rec.stmts[0].args) || len(va) > 0 && !reflect.DeepEqual(w.rec.stmts[0].args, va) {
				c.Fail("another statement reaches the connection", "query %q\nexpected %s %#v\nsent %#v", qa, sa, va, w.rec.stmts)
				return
			}
			w.rec.reset()
			c.Tag("sent")
		}
	}
	tagTree(c, a)
	la := oracle.Literals(a)
	for _, v := range la {
		if s, ok := v.(string); ok && strings.ContainsAny(s, "'\"`;-?$@") {
			c.Tag("hostile")
			c.Distinct(fmt.Sprintf("%q %q", la, oracle.Literals(b)))
			c.Sample("%q binds %q", qa, la)
			break
		}
	}
}
