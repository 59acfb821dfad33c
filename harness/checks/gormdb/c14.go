package gormdb

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"

	"gorm.io/gorm"

	"github.com/wenerme/go-miniquery/gormq"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/oracle"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C14", Quick: 300_000, Thorough: 2_000_000,
		Setup: setup, Run: runC14,
		Rule:        "1 to 5 conditions in random order: plain gorm conditions, filters, query lists with blanks, filters in a group of conditions that may be negated or an alternative, on a model with or without soft delete (or with it switched off), or filters through relations among conditions on own columns; rows must be the intersection; or one list member or filter is malformed (unbalanced parentheses, comments, cut text) and an error without any statement is demanded; non-trivial: at least two conditions and neither none nor all rows qualify, or a malformed member; distinct by combination",
		MinDistinct: 8_000,
		MinTags:     []string{"soft delete", "plain", "filter", "list", "list with blanks", "long list", "malformed", "malformed in a long list", "relation", "relation later", "or inside", "empty filter", "count", "find", "update", "delete", "page", "unscoped", "subquery", "group", "negated", "alternative", "two", "distinct", "omit", "lock"},
	})
}

// condition is one thing applied to the gorm query, and its meaning.
type condition struct {
	apply func(*gorm.DB) *gorm.DB
	sql   string
	show  string
}

var hostileMembers = []string{
	"qty = 1) or (1 = 1", "qty = 1) or (qty = 1", "1=1)", "(1=1", ") or (", "qty = 1 -- ", "qty = 1 or", "or 1=1", "1=1 -- x", "') or 1=1 --", "qty = 1)) or ((1=1", "(qty=1) or 1=1)", ")",
	"(", "'", `"`, "qty = 'a", "qty = 1; drop table items", "qty = 1 /* x */", "qty == ", "not", "1=1) -- \n or (1=1", "qty in (1", "qty between 1 and", "date(qty", "qty = 1 and", "&& 1=1",
	"1=1 //", "qty = 1) // \n or (1=1", "qty->x = 1",
}

func plainCondition(r *rand.Rand, w *world, tbl string) condition {
	v := gen.Pick(r, gen.Ints())
	s := gen.Pick(r, gen.Texts())
	p := tbl + "."
	switch r.IntN(8) {
	case 0:
		return condition{func(db *gorm.DB) *gorm.DB { return db.Where(p+"qty > ?", v) }, fmt.Sprintf("(o.qty > %d)", v), "qty > v"}
	case 1:
		return condition{func(db *gorm.DB) *gorm.DB { return db.Where(p+"qty = ? OR "+p+"name = ?", v, s) }, fmt.Sprintf("(o.qty = %d OR o.name = %s)", v, oracle.Quote(s)), "qty = v OR name = s"}
	case 2:
		return condition{func(db *gorm.DB) *gorm.DB { return db.Not(p+"qty = ?", v) }, fmt.Sprintf("(NOT (o.qty = %d))", v), "Not qty = v"}
	case 3:
		return condition{func(db *gorm.DB) *gorm.DB { return db.Where(p+"qty < ? AND "+p+"qty IS NOT NULL", v) }, fmt.Sprintf("(o.qty < %d)", v), "qty < v AND not null"}
	case 4:
		return condition{func(db *gorm.DB) *gorm.DB { return db.Where(map[string]any{p + "active": true}) }, "(o.active = 1)", "map"}
	case 5:
		return condition{func(db *gorm.DB) *gorm.DB {
			n := db.Session(&gorm.Session{NewDB: true})
			return db.Where(n.Where(p+"qty = ?", v).Or(p+"qty > ?", 5))
		}, fmt.Sprintf("(o.qty = %d OR o.qty > 5)", v), "group"}
	case 6:
		return condition{func(db *gorm.DB) *gorm.DB { return db.Where(p+"name IN ?", []string{s, "a", "b", "wener"}) }, fmt.Sprintf("(o.name IN (%s,'a','b','wener'))", oracle.Quote(s)), "name IN"}
	}
	return condition{func(db *gorm.DB) *gorm.DB { return db.Where(p+"id BETWEEN ? AND ?", 5, 60) }, "(o.id BETWEEN 5 AND 60)", "id between"}
}

func member(r *rand.Rand, c *core.C, sp *spec, budget int, seen *[]*ref.N, plain bool) (q, sql string) {
	for {
		t := sp.typed(r, budget).Expr()
		if seen != nil {
			if len(*seen) > 0 && r.IntN(4) == 0 {
				t = gen.Vary(r, gen.Pick(r, *seen))
			}
			*seen = append(*seen, t)
		}
		s, ok := text(r, t)
		if plain {
			s = gen.Render(t, gen.Style{})
			n, err := ref.Parse(s)
			ok = err == nil && ref.Equal(n, t)
		}
		if !ok {
			continue
		}
		if t.K == ref.Logic && t.Op == "or" {
			c.Tag("or inside")
		}
		return s, sp.resolver("o").SQL(t)
	}
}

// group puts a filter into a group of conditions, which counts as one.
func group(r *rand.Rand, c *core.C, w *world, sp *spec, q, s string, f func(*gorm.DB) *gorm.DB) condition {
	how, scoped := gen.Pick(r, []string{"group", "negated", "alternative", "two", "distinct", "omit", "lock"}), r.IntN(2) == 0
	c.Tag(how)
	other := plainCondition(r, w, sp.table)
	for how == "two" && !strings.Contains("|qty > v|qty = v OR name = s|name IN|id between|", "|"+other.show+"|") {
		// gorm has its own idea of negating the others
		other = plainCondition(r, w, sp.table)
	}
	fresh := func() *gorm.DB { return w.db.Session(&gorm.Session{NewDB: true}) }
	in := func() *gorm.DB {
		db := fresh().Model(models[sp])
		if scoped {
			return db.Scopes(f)
		}
		return f(db)
	}
	show := fmt.Sprintf("%s filter %q", how, q)
	switch how {
	case "negated":
		return condition{func(db *gorm.DB) *gorm.DB { return db.Not(in()) }, "(NOT " + s + ")", show}
	case "alternative":
		show += " or " + other.show
		if scoped {
			return condition{func(db *gorm.DB) *gorm.DB { return db.Where(other.apply(fresh()).Or(in())) }, "(" + s + " OR " + other.sql + ")", show}
		}
		return condition{func(db *gorm.DB) *gorm.DB { return db.Where(fresh().Where(in()).Or(other.apply(fresh()))) }, "(" + s + " OR " + other.sql + ")", show}
	case "two":
		return condition{func(db *gorm.DB) *gorm.DB { return db.Not(other.apply(in())) }, "(NOT (" + s + " AND " + other.sql + "))", show + " and " + other.show}
	}
	return condition{func(db *gorm.DB) *gorm.DB { return db.Where(in()) }, s, show}
}

var models = map[*spec]any{itemSpec: &Item{}, docSpec: &Doc{}, petSpec: &Pet{}}

var slicesOf = map[*spec][]any{
	itemSpec: {&Item{}, &Item{}, Item{}, []Item{}, &[]*Item{}}, docSpec: {&Doc{}, &Doc{}, Doc{}, []Doc{}, &[]*Doc{}}, petSpec: {&Pet{}, &Pet{}, Pet{}, []Pet{}, &[]*Pet{}},
}

func filterCondition(r *rand.Rand, c *core.C, w *world, sp *spec, seen *[]*ref.N) condition {
	if r.IntN(3) == 0 {
		var list, sqls []string
		real := false
		k, budget := 1+r.IntN(4), 4
		plain := r.IntN(2) == 0
		if r.IntN(40) == 0 {
			k, budget = gen.Size(r, 5, 100), 2
			c.Tag("long list")
		}
		for i := 0; i < k; i++ {
			if k > 1 && r.IntN(5) == 0 && (real || i < k-1) {
				list = append(list, gen.Pick(r, []string{"", " ", "\n"}))
				c.Tag("list with blanks")
				continue
			}
			q, s := member(r, c, sp, 1+r.IntN(budget), seen, plain)
			if k > 5 && r.IntN(k) > 2 {
				// most hold for every row, so that the others show
				q = fmt.Sprintf(gen.Pick(r, []string{"id < 10%d", "not id = 10%d", "id != 10%d", "id between 1 and 10%d", "qty = 1 or id < 10%d", "(id lt 10%d)"}), 100+i)
				s = "1"
			}
			list = append(list, q)
			sqls = append(sqls, s)
			real = true
		}
		c.Tag("list")
		return condition{gormq.MiniQuery{Query: list}.Scope, "(" + strings.Join(sqls, " AND ") + ")", fmt.Sprintf("list %q", list)}
	}
	if r.IntN(20) == 0 {
		c.Tag("empty filter")
		if r.IntN(2) == 0 {
			return condition{gormq.MiniQuery{}.Scope, "1", "empty list"}
		}
		return condition{gormq.ApplyMiniQuery(""), "1", "empty filter"}
	}
	q, s := member(r, c, sp, 1+r.IntN(6), seen, r.IntN(2) == 0)
	c.Tag("filter")
	f := filter(r, c, q)
	if r.IntN(4) == 0 {
		return group(r, c, w, sp, q, s, f)
	}
	return condition{f, s, fmt.Sprintf("filter %q", q)}
}

func runC14(c *core.C) {
	w := c.State.(*world)
	r := c.R
	sp := gen.Pick(r, []*spec{itemSpec, docSpec})
	relational_ := r.IntN(5) == 0
	var conds []condition
	var seen []*ref.N
	k := 1 + r.IntN(5)
	if r.IntN(50) == 0 {
		k = gen.Size(r, 6, 20)
	}
	base, unscoped := "", false
	if relational_ {
		sp = petSpec
		c.Tag("relation")
		for i := 0; i < k; i++ {
			switch r.IntN(3) {
			case 0:
				conds = append(conds, plainCondition(r, w, "pets"))
			case 1:
				conds = append(conds, filterCondition(r, c, w, sp, &seen))
			default:
				t, res := relational(r, petSpec, petRelations, 1+r.IntN(6))
				n := t.Expr()
				q, ok := text(r, n)
				if !ok {
					return
				}
				if i > 0 && len(usedRelations(n)) > 0 {
					c.Tag("relation later")
				}
				conds = append(conds, condition{filter(r, c, q), res.SQL(n), fmt.Sprintf("filter %q", q)})
			}
		}
	} else {
		for i := 0; i < k; i++ {
			if r.IntN(3) == 0 {
				conds = append(conds, plainCondition(r, w, sp.table))
				c.Tag("plain")
			} else {
				conds = append(conds, filterCondition(r, c, w, sp, &seen))
			}
		}
		if sp == docSpec {
			base = "o.deleted_at IS NULL AND "
			c.Tag("soft delete")
			if r.IntN(4) == 0 {
				base, unscoped = "", true
				c.Tag("unscoped")
			}
		}
	}
	malformed := r.IntN(5) == 0
	if malformed {
		bad := gen.Pick(r, hostileMembers)
		if r.IntN(3) == 0 {
			q, _ := member(r, c, sp, 2, nil, false)
			bad = gen.Mutate(r, q)
		}
		if _, err := ref.Parse(bad); err != ref.ErrReject || strings.TrimSpace(bad) == "" {
			return
		}
		list := []string{bad}
		k := r.IntN(4)
		if r.IntN(10) == 0 {
			k = gen.Size(r, 4, 120)
			c.Tag("malformed in a long list")
		}
		for i := k; i > 0; i-- {
			q, _ := member(r, c, sp, 1+r.IntN(3), nil, false)
			p := r.IntN(len(list) + 1)
			list = append(list[:p], append([]string{q}, list[p:]...)...)
		}
		if r.IntN(4) == 0 {
			// two halves that only balance when put together
			list = append(list, gen.Pick(r, []string{"1=1", ")", "(1=1", "qty = 2) or (1=1", "' or '1'='1"}))
		}
		f := condition{gormq.MiniQuery{Query: list}.Scope, "", fmt.Sprintf("list %q", list)}
		if len(list) == 1 && r.IntN(2) == 0 {
			f = condition{gormq.ApplyMiniQuery(bad), "", fmt.Sprintf("filter %q", bad)}
		}
		p := r.IntN(len(conds) + 1)
		conds = append(conds[:p], append([]condition{f}, conds[p:]...)...)
		c.Tag("malformed")
	}
	var shows []string
	for _, x := range conds {
		shows = append(shows, x.show)
	}
	show := sp.table + ": " + strings.Join(shows, " | ")

	var want []int
	if !malformed {
		var sqls []string
		for _, x := range conds {
			sqls = append(sqls, x.sql)
		}
		var err error
		want, err = w.ids("SELECT o.id FROM " + sp.table + " o WHERE " + base + strings.Join(sqls, " AND ") + " ORDER BY o.id")
		if err != nil {
			panic(fmt.Errorf("oracle for %s: %w", show, err))
		}
	}
	w.rec.reset()
	c.Eval(1)
	var got []int
	var op string
	var gerr error
	if !c.Guard("query "+show, func() {
		model := models[sp]
		scopes, session := r.IntN(2) == 0, r.IntN(len(conds)*3)
		build := func(db *gorm.DB) *gorm.DB {
			db = dress(r, c, db.Model(model))
			if unscoped {
				db = db.Unscoped()
			}
			for i, x := range conds {
				if scopes {
					db = db.Scopes(x.apply)
				} else {
					db = x.apply(db)
				}
				if i == session {
					db = db.Session(&gorm.Session{})
				}
			}
			return db
		}
		db := w.db
		got = []int{}
		kind := r.IntN(7)
		if kind < 3 || kind == 5 {
			model = gen.Pick(r, slicesOf[sp])
		}
		if r.IntN(10) == 0 && kind < 3 {
			op = "distinct"
			gerr = build(db.Distinct().Group(sp.table+".id")).Order(sp.table+".id").Pluck(sp.table+".id", &got).Error
			return
		}
		if kind == 5 {
			op = "page"
			gerr = build(db.Limit(3).Offset(1).Order(sp.table+".id")).Pluck(sp.table+".id", &got).Error
			return
		}
		if kind == 6 && sp != petSpec {
			op = "delete"
			alive := "1 = 1"
			if sp == docSpec && !unscoped {
				alive = "deleted_at IS NULL"
			}
			gerr = db.Transaction(func(tx *gorm.DB) error {
				var before, after []int
				left := func(ids *[]int) error {
					return tx.Session(&gorm.Session{NewDB: true}).Table(sp.table).Where(alive).Order("id").Pluck("id", ids).Error
				}
				if !malformed {
					if err := left(&before); err != nil {
						return err
					}
				}
				if err := build(tx.Session(&gorm.Session{AllowGlobalUpdate: true})).Delete(model).Error; err != nil {
					return err
				}
				if err := left(&after); err != nil {
					return err
				}
				for _, i := range before {
					if !slices.Contains(after, i) {
						got = append(got, i)
					}
				}
				return errRollback
			})
			if gerr == errRollback {
				gerr = nil
			}
			return
		}
		if kind >= 3 && sp == petSpec {
			kind = 0
		}
		switch kind {
		case 0, 1:
			op = "find"
			gerr = build(db).Order(sp.table+".id").Pluck(sp.table+".id", &got).Error
		case 2:
			op = "count"
			var n int64
			gerr = build(db).Count(&n).Error
			got = []int{int(n)}
		case 3:
			op = "update"
			gerr = db.Transaction(func(tx *gorm.DB) error {
				if err := build(tx.Session(&gorm.Session{AllowGlobalUpdate: true})).Update("mark", 1).Error; err != nil {
					return err
				}
				if err := tx.Table(sp.table).Where("mark = 1").Order("id").Pluck("id", &got).Error; err != nil {
					return err
				}
				return errRollback
			})
			if gerr == errRollback {
				gerr = nil
			}
		case 4:
			op = "subquery"
			sub := build(db).Select("id")
			gerr = w.db.Session(&gorm.Session{NewDB: true}).Table(sp.table).Where("id IN (?)", sub).Order("id").Pluck("id", &got).Error
		}
	}) {
		return
	}
	c.Tag(op)
	if malformed {
		if op == "subquery" {
			// gorm drops errors of subqueries; what counts is the row set
			if gerr == nil && len(got) > 0 {
				c.Fail("a refused query in a subquery selects rows", "query %s\ngot %v\nstatement %v", show, got, w.lastStmt())
			}
			return
		}
		if gerr == nil {
			c.Fail("malformed member accepted", "%s via %s\nrows %v\nstatement %s", show, op, got, w.lastStmt())
		} else if len(w.rec.stmts) != 0 {
			c.Fail("statement sent for a malformed member", "%s via %s\nstatement %s", show, op, w.lastStmt())
		}
		c.Distinct(show)
		c.Sample("%s: error %v", show, gerr)
		return
	}
	if oracle.Limit(gerr) {
		c.Tag("database limit")
		return
	}
	if gerr != nil {
		c.Fail("query fails", "%s via %s\nerror %v\nstatement %s", show, op, gerr, w.lastStmt())
		return
	}
	if op == "page" {
		want = want[min(1, len(want)):min(4, len(want))]
	}
	count := op == "count"
	if count && got[0] != len(want) || !count && !sameInts(got, want) {
		c.Fail("not the intersection", "%s via %s\ngot  %v\nwant %v\nstatement %s", show, op, got, want, w.lastStmt())
		return
	}
	if len(conds) > 1 && len(want) > 0 && len(want) < 50 {
		c.Distinct(show)
		c.Sample("%s: %d rows", show, len(want))
	}
}
