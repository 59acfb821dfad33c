package gormdb

import (
	"context"
	"fmt"
	"math/rand/v2"

	"gorm.io/gorm"
	"gorm.io/gorm/clause"

	"github.com/wenerme/go-miniquery/gormq"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/oracle"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C11", Quick: 600_000, Thorough: 4_000_000,
		Setup: setup, Run: runC11,
		Rule:        "random typed condition over the columns of a model in random spelling and layout, applied through one of several gorm operations (find, count, pluck, rows, first, last, a page, batches, a subquery, an aliased table, a prepared statement, groups, maps, update, delete) with the model given as a value, pointer or slice, directly or as a scope; the rows are compared with those of an independently written, fully parenthesised statement on the same 70 rows, one of which gets values of the query; non-trivial: neither none nor all rows qualify; distinct by tree",
		MinDistinct: 8_000,
		MinTags:     append([]string{"some rows", "condition as operand", "no rows", "all rows", "find", "pluck", "count", "rows", "list scope", "wire", "update", "delete", "batches", "first", "last", "limit", "subquery", "aliased", "prepared", "scan", "group", "maps", "omit", "lock", "empty list"}, opTags...),
		Assumptions: []string{"SQLite decides comparisons of mixed types", "empty lists only where they are not negated"},
	})
}

var opTags = []string{
	"op and", "op or", "op gte", "op gt", "op eq", "op neq", "op lt", "op lte", "op like", "op not like", "op in", "op not in",
	"op between", "op not between", "op is null", "op is not null", "op is true", "op is not true", "op is false", "op is not false",
	"function", "not", "parentheses",
}

func tagTree(c *core.C, n *ref.N) {
	n.Walk(func(m *ref.N) {
		switch m.K {
		case ref.Logic, ref.Cmp, ref.Between, ref.Pred:
			c.Tag("op " + m.Op)
			if gen.Loose(m) {
				c.Tag("condition as operand")
			}
		case ref.Fn:
			c.Tag("function")
		case ref.Path:
			c.Tag("path")
		case ref.Not:
			c.Tag("not")
		case ref.Paren:
			c.Tag("parentheses")
		}
	})
}

func setup(w *core.Worker) error {
	wd, err := openWorld(nil)
	if err != nil {
		return err
	}
	w.State = wd
	return wd.seedRows(rand.New(rand.NewPCG(uint64(w.Seed), 77)))
}

// text renders a condition; texts the grammar reads differently are refused.
func text(r *rand.Rand, n *ref.N) (string, bool) {
	st := gen.Style{R: r, Words: true, Blanks: r.IntN(2) == 0}
	if r.IntN(3) == 0 {
		st = gen.Style{}
	}
	s := gen.Render(n, st)
	m, err := ref.Parse(s)
	return s, err == nil && ref.Equal(m, n)
}

func filter(r *rand.Rand, c *core.C, q string) func(*gorm.DB) *gorm.DB {
	switch r.IntN(3) {
	case 0:
		c.Tag("list scope")
		return gormq.MiniQuery{Query: []string{q}}.Scope
	case 1:
		c.Tag("wire")
		return func(db *gorm.DB) *gorm.DB { return gormq.WireMiniQuery(db, q) }
	}
	return gormq.ApplyMiniQuery(q)
}

// dress sets something that does not change which rows a query selects.
func dress(r *rand.Rand, c *core.C, db *gorm.DB) *gorm.DB {
	switch r.IntN(20) {
	case 0:
		return db.Session(&gorm.Session{QueryFields: true})
	case 1:
		return db.WithContext(context.Background())
	case 2:
		return db.Session(&gorm.Session{SkipHooks: true})
	case 3:
		c.Tag("omit")
		return db.Omit("nothing")
	case 4:
		c.Tag("lock")
		return db.Clauses(clause.Locking{Strength: "UPDATE"})
	case 5:
		return db.Set("some", "thing").InstanceSet("other", 1)
	}
	return db
}

func runC11(c *core.C) {
	w := c.State.(*world)
	r := c.R
	ty := itemSpec.typed(r, 3+r.IntN(14))
	cond := ty.Expr()
	if r.IntN(25) == 0 {
		cond = ty.Empty(cond)
		c.Tag("empty list")
	}
	w.special(r, cond, "items")
	q, ok := text(r, cond)
	if !ok {
		c.Tag("skipped")
		return
	}
	want, err := w.ids("SELECT o.id FROM items o WHERE " + itemSpec.resolver("o").SQL(cond) + " ORDER BY o.id")
	if err != nil {
		panic(fmt.Errorf("oracle for %q: %w", q, err))
	}
	c.Eval(1)
	var got []int
	var gerr error
	var op string
	f := filter(r, c, q)
	if !c.Guard("query "+q, func() { got, op, gerr = w.selectItems(r, c, f) }) {
		return
	}
	c.Tag(op)
	if oracle.Limit(gerr) {
		c.Tag("database limit")
		return
	}
	if gerr != nil {
		c.Fail("query fails", "query %q via %s\nerror %v", q, op, gerr)
		return
	}
	bad := false
	switch op {
	case "count", "update", "delete":
		bad = got[0] != len(want)
	case "last":
		bad = len(want) > 0 && (len(got) != 1 || got[0] != want[len(want)-1]) || len(want) == 0 && len(got) != 0
	case "limit":
		bad = !sameInts(got, want[min(2, len(want)):min(9, len(want))])
	case "first":
		bad = len(want) > 0 && (len(got) != 1 || got[0] != want[0]) || len(want) == 0 && len(got) != 0
	default:
		bad = !sameInts(got, want)
	}
	if bad {
		c.Fail("wrong rows", "query %q via %s\ntree %s\ngot  %v\nwant %v", q, op, ref.Dump(cond), got, want)
		return
	}
	tagTree(c, cond)
	switch len(want) {
	case 0:
		c.Tag("no rows")
	case 70:
		c.Tag("all rows")
	default:
		c.Tag("some rows")
		c.Distinct(ref.Dump(cond))
	}
	c.Sample("%q via %s: %d rows", q, op, len(want))
}

// selectItems applies a filter through a random operation. For count, update
// and delete the only element is the number of rows.
func (w *world) selectItems(r *rand.Rand, c *core.C, f func(*gorm.DB) *gorm.DB) (ids []int, op string, err error) {
	model := gen.Pick(r, []any{&Item{}, &Item{}, &Item{}, Item{}, []Item{}, &[]Item{}, &[]*Item{}})
	top := w.db
	switch r.IntN(10) {
	case 2:
		top = top.Session(&gorm.Session{NewDB: true})
	case 3:
		top = top.Unscoped()
	case 4:
		top = top.Table("items")
	}
	base := func() *gorm.DB { return dress(r, c, top.Model(model)).Scopes(f) }
	if r.IntN(3) == 0 {
		base = func() *gorm.DB { return f(dress(r, c, top.Model(model))) }
	}
	if r.IntN(6) == 0 {
		inner := base
		base = func() *gorm.DB { return inner().Session(&gorm.Session{}) }
	}
	ids = []int{}
	switch r.IntN(17) {
	case 12:
		var l []struct{ ID int }
		err = base().Select("id").Order("id").Scan(&l).Error
		for _, x := range l {
			ids = append(ids, x.ID)
		}
		return ids, "scan", err
	case 13:
		err = base().Select("max(id)").Group("id").Having("max(id) > ?", 0).Order("id").Scan(&ids).Error
		return ids, "group", err
	case 14:
		var l []map[string]any
		err = base().Distinct("id").Order("id").Find(&l).Error
		for _, x := range l {
			var i int
			_, _ = fmt.Sscan(fmt.Sprint(x["id"]), &i)
			ids = append(ids, i)
		}
		return ids, "maps", err
	case 7:
		var item Item
		err = base().Last(&item).Error
		if err == gorm.ErrRecordNotFound {
			return ids, "last", nil
		}
		return []int{int(item.ID)}, "last", err
	case 8:
		var items []Item
		err = base().Order("id").Limit(7).Offset(2).Find(&items).Error
		for _, i := range items {
			ids = append(ids, int(i.ID))
		}
		return ids, "limit", err
	case 9:
		err = w.db.Session(&gorm.Session{NewDB: true}).Table("items").Where("id IN (?)", base().Select("id")).Order("id").Pluck("id", &ids).Error
		return ids, "subquery", err
	case 10:
		top := w.db.Model(&Item{}).Table("items AS x1")
		if r.IntN(2) == 0 {
			top = w.db.Model(&Item{}).Table("(?) AS x1", w.db.Session(&gorm.Session{NewDB: true}).Table("items").Where("id > ?", 0))
		}
		err = f(top).Order("x1.id").Pluck("x1.id", &ids).Error
		return ids, "aliased", err
	case 11:
		err = w.db.Session(&gorm.Session{PrepareStmt: true}).Model(&Item{}).Scopes(f).Order("id").Pluck("id", &ids).Error
		return ids, "prepared", err
	case 0:
		var n int64
		err = base().Count(&n).Error
		return []int{int(n)}, "count", err
	case 1:
		err = base().Order("id").Pluck("id", &ids).Error
		return ids, "pluck", err
	case 2:
		rows, err := base().Select("id").Order("id").Rows()
		if err != nil {
			return nil, "rows", err
		}
		defer func() { _ = rows.Close() }()
		for rows.Next() {
			var i int
			if err := rows.Scan(&i); err != nil {
				return nil, "rows", err
			}
			ids = append(ids, i)
		}
		return ids, "rows", rows.Err()
	case 3:
		n := 0
		err = w.db.Transaction(func(tx *gorm.DB) error {
			res := tx.Model(&Item{}).Scopes(f).Update("mark", 1)
			if res.Error != nil {
				return res.Error
			}
			n = int(res.RowsAffected)
			return errRollback
		})
		if err == errRollback {
			err = nil
		}
		return []int{n}, "update", err
	case 4:
		n := 0
		err = w.db.Transaction(func(tx *gorm.DB) error {
			res := tx.Session(&gorm.Session{AllowGlobalUpdate: true}).Model(&Item{}).Scopes(f).Delete(&Item{})
			if res.Error != nil {
				return res.Error
			}
			n = int(res.RowsAffected)
			return errRollback
		})
		if err == errRollback {
			err = nil
		}
		return []int{n}, "delete", err
	case 5:
		var items []Item
		err = base().FindInBatches(&items, 25, func(tx *gorm.DB, batch int) error {
			for _, i := range items {
				ids = append(ids, int(i.ID))
			}
			return nil
		}).Error
		return ids, "batches", err
	case 6:
		var item Item
		err = base().First(&item).Error
		if err == gorm.ErrRecordNotFound {
			return ids, "first", nil
		}
		return []int{int(item.ID)}, "first", err
	}
	var items []Item
	err = base().Order("items.id").Find(&items).Error
	for _, i := range items {
		ids = append(ids, int(i.ID))
	}
	return ids, "find", err
}
