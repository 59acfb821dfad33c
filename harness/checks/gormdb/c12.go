package gormdb

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"gorm.io/gorm"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/oracle"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C12", Quick: 400_000, Thorough: 2_500_000,
		Setup: setup, Run: runC12,
		Rule:        "random typed condition mixing a model's own columns with relation.field of belongs-to, has-one, polymorphic, custom key, two column key, embedded and self relations that share column names and give other columns to fields of the same name; the table under its own name, an alias, a database name or as a subquery, with joins of the caller before or after; rows are compared (with duplicates) with a statement that reads the related record by correlated subquery; some cases put a to-many relation anywhere in the condition and demand an error without any statement; non-trivial: has a reference and neither none nor all rows qualify; distinct by tree",
		MinDistinct: 3_000,
		MinTags:     append([]string{"some rows", "condition as operand", "Owner", "Boss", "Shop", "Parent", "Chip", "Label", "Vet", "Box", "Keeper", "two relations", "own and related", "refused", "pre-joined", "company", "aliased", "subquery", "database name", "inner join", "own join", "aliased later", "transaction", "preload", "omit", "lock"}, opTags...),
		Assumptions: []string{"a soft deleted related record counts as absent, as gorm's joins define it", "has-one data has at most one related row"},
	})
}

type relation struct {
	name  string
	table string
	on    string // r is the related row, o the outer row
	cols  []specCol
}

var relCols = []specCol{
	{"id", "ID", gen.ClassInt}, {"name", "Name", gen.ClassText}, {"qty", "Qty", gen.ClassInt}, {"active", "Active", gen.ClassBool}, {"sold_at", "SoldAt", gen.ClassTime},
}

var ownerCols = append([]specCol{{"years", "Age", gen.ClassInt}, {"weight", "Size", gen.ClassInt}, {"height", "Weight", gen.ClassInt}, {"deleted_at", "DeletedAt", gen.ClassTime}}, relCols...)

var petRelations = []relation{
	{"Owner", "owners", "r.id = o.owner_id AND r.deleted_at IS NULL", ownerCols},
	{"Boss", "owners", "r.id = o.boss_id AND r.deleted_at IS NULL", ownerCols},
	{"Shop", "companies", "r.id = o.shop_id", relCols},
	{"Parent", "pets", "r.id = o.parent_id", append([]specCol{{"height", "Size", gen.ClassInt}, {"size", "Height", gen.ClassInt}}, relCols...)},
	{"Label", "sticky_labels", "r.holder_id = o.id AND r.holder_type = 'pets'", relCols},
	{"Vet", "vets", "r.vet_no = o.vet_code", append([]specCol{{"vet_no", "Code", gen.ClassInt}}, relCols...)},
	{"Keeper", "owners", "r.id = o.keeper_id AND r.deleted_at IS NULL", ownerCols},
	{"Box", "boxes", "r.`row` = o.box_row AND r.col = o.box_col", append([]specCol{{"row", "Row", gen.ClassInt}, {"col", "Col", gen.ClassInt}}, relCols[1:]...)},
	{"Chip", "chips", "r.pet_id = o.id", relCols},
}

var companyRelations = []relation{
	{"Parent", "companies", "r.id = o.parent_id", relCols},
}

var companySpec = &spec{table: "companies", cols: []specCol{
	{"id", "ID", gen.ClassInt}, {"name", "Name", gen.ClassText}, {"qty", "Qty", gen.ClassInt}, {"active", "Active", gen.ClassBool},
	{"sold_at", "SoldAt", gen.ClassTime}, {"parent_id", "ParentID", gen.ClassInt},
}}

// relational makes a generator over own and related columns.
func relational(r *rand.Rand, s *spec, rels []relation, budget int) (*gen.Typed, *oracle.Resolver) {
	t := s.typed(r, budget)
	k := 1 + r.IntN(2)
	if r.IntN(6) == 0 {
		k = 3 + r.IntN(6)
	}
	for i := 0; i < k; i++ {
		rel := gen.Pick(r, rels)
		for _, c := range rel.cols {
			t.Cols = append(t.Cols, gen.Col{Names: []string{rel.name, c.spell(r)}, Class: c.class}, gen.Col{Names: []string{rel.name, c.spell(r)}, Class: c.class})
		}
	}
	res := s.resolver("o")
	res.Path = func(names []string) string {
		for _, rel := range rels {
			if rel.name == names[0] {
				sp := &spec{cols: rel.cols}
				return fmt.Sprintf("(SELECT r.%s FROM %s r WHERE %s)", sp.resolve(names[1]), rel.table, rel.on)
			}
		}
		panic("harness: no relation " + names[0])
	}
	return t, res
}

func usedRelations(n *ref.N) map[string]bool {
	m := map[string]bool{}
	n.Walk(func(k *ref.N) {
		if k.K == ref.Path {
			m[k.Names[0]] = true
		}
	})
	return m
}

// plantAt replaces a random column in the tree.
func plantAt(r *rand.Rand, n *ref.N, with *ref.N) bool {
	var spots []*ref.N
	n.Walk(func(k *ref.N) {
		if k.K == ref.Ident || k.K == ref.Path {
			spots = append(spots, k)
		}
	})
	if len(spots) == 0 {
		return false
	}
	*gen.Pick(r, spots) = *with
	return true
}

func runC12(c *core.C) {
	w := c.State.(*world)
	r := c.R
	self := r.IntN(6) == 0
	sp, rels := petSpec, petRelations
	if self {
		sp, rels = companySpec, companyRelations
	}
	t, res := relational(r, sp, rels, 3+r.IntN(12))
	cond := t.Expr()
	if r.IntN(25) == 0 {
		cond = t.Empty(cond)
		c.Tag("empty list")
	}
	if !self && r.IntN(12) == 0 {
		refuse(c, w, cond)
		return
	}
	w.special(r, cond, "pets", "owners", "companies")
	q, ok := text(r, cond)
	if !ok {
		c.Tag("skipped")
		return
	}
	want, err := w.ids("SELECT o.id FROM " + sp.table + " o WHERE " + res.SQL(cond) + " ORDER BY o.id")
	if err != nil {
		panic(fmt.Errorf("oracle for %q: %w", q, err))
	}
	used := usedRelations(cond)
	inner := ""
	if r.IntN(12) == 0 {
		// the caller asks for rows with a related record
		rel := gen.Pick(r, rels)
		inner = rel.name
		c.Tag("inner join")
		want, err = w.ids("SELECT o.id FROM " + sp.table + " o WHERE " + res.SQL(cond) + " AND EXISTS (SELECT 1 FROM " + rel.table + " r WHERE " + rel.on + ") ORDER BY o.id")
		if err != nil {
			panic(fmt.Errorf("oracle for %q: %w", q, err))
		}
	}
	c.Eval(1)
	var got []int
	var gerr error
	op := ""
	if !c.Guard("query "+q, func() {
		var model any = &Pet{}
		if self {
			model = &Company{}
			c.Tag("company")
		}
		db := w.db
		if r.IntN(8) == 0 {
			db = db.Begin()
			defer db.Rollback()
			c.Tag("transaction")
		}
		db = dress(r, c, db.Model(model))
		kind := r.IntN(8)
		switch kind {
		case 5:
			db = db.Distinct()
		case 6:
			db = db.Preload(map[bool]string{true: "Parent", false: "Vet"}[self])
			c.Tag("preload")
		}
		if len(used) > 0 && r.IntN(5) == 0 {
			for _, rel := range rels {
				if rel.name != inner && (used[rel.name] && r.IntN(2) == 0 || r.IntN(8) == 0) {
					db = db.Joins(rel.name)
				}
			}
			c.Tag("pre-joined")
		}
		tab, late := sp.table, false
		switch r.IntN(8) {
		case 3:
			tab, late = "x3", true
			c.Tag("aliased later")
		case 0:
			tab = "x1"
			db = db.Table(sp.table + " AS x1")
			c.Tag("aliased")
		case 1:
			tab = "x2"
			db = db.Table("(?) AS x2", w.db.Session(&gorm.Session{NewDB: true}).Table(sp.table))
			c.Tag("subquery")
		case 2:
			tab = "main." + sp.table
			db = db.Table(tab)
			c.Tag("database name")
		}
		f := filter(r, c, q)
		later := func(db *gorm.DB) *gorm.DB {
			if inner != "" {
				return db.InnerJoins(inner)
			}
			return db
		}
		if r.IntN(8) == 0 {
			raw := "LEFT JOIN companies zz ON zz.id = " + tab + "." + map[bool]string{true: "parent_id", false: "shop_id"}[self]
			before := later
			later = func(db *gorm.DB) *gorm.DB { return before(db.Joins(raw)) }
			c.Tag("own join")
		}
		if r.IntN(2) == 0 || inner != "" {
			// the first join of a relation says which kind it is
			db = later(db)
			later = func(db *gorm.DB) *gorm.DB { return db }
		}
		if r.IntN(2) == 0 {
			db = later(f(db))
		} else {
			db = later(db.Scopes(f))
		}
		if late {
			db = db.Table(sp.table + " AS x3")
		}
		got = []int{}
		switch kind {
		case 5:
			op = "distinct"
			gerr = db.Order(tab+".id").Pluck(tab+".id", &got).Error
		case 2:
			op = "limit"
			gerr = db.Order(tab+".id").Limit(4).Offset(1).Pluck(tab+".id", &got).Error
		case 0:
			op = "count"
			var n int64
			gerr = db.Count(&n).Error
			got = []int{int(n)}
		case 1:
			op = "pluck"
			gerr = db.Order(tab+".id").Pluck(tab+".id", &got).Error
		default:
			op = "find"
			db = db.Order(tab + ".id")
			if self {
				var l []Company
				gerr = db.Find(&l).Error
				for _, x := range l {
					got = append(got, int(x.ID))
				}
			} else {
				var l []Pet
				gerr = db.Find(&l).Error
				for _, x := range l {
					got = append(got, int(x.ID))
				}
			}
		}
	}) {
		return
	}
	if oracle.Limit(gerr) {
		c.Tag("database limit")
		return
	}
	if gerr != nil {
		c.Fail("query fails", "query %q via %s\nerror %v\nstatement %v", q, op, gerr, w.lastStmt())
		return
	}
	if op == "limit" {
		want = want[min(1, len(want)):min(5, len(want))]
	}
	if op == "count" && got[0] != len(want) || op != "count" && !sameInts(got, want) {
		c.Fail("wrong rows", "query %q via %s\ntree %s\ngot  %v\nwant %v\nstatement %v", q, op, ref.Dump(cond), got, want, w.lastStmt())
		return
	}
	w.rec.reset()
	tagTree(c, cond)
	for k := range used {
		c.Tag(k)
	}
	if len(used) > 1 {
		c.Tag("two relations")
	}
	if len(used) > 0 && cond.Any(func(n *ref.N) bool { return n.K == ref.Ident }) {
		c.Tag("own and related")
	}
	if len(want) > 0 && len(want) < 50 {
		c.Tag("some rows")
		if len(used) > 0 {
			c.Distinct(ref.Dump(cond))
			c.Sample("%q via %s: %d rows", q, op, len(want))
		}
	}
}

func (w *world) lastStmt() string {
	if len(w.rec.stmts) == 0 {
		return "none"
	}
	s := w.rec.stmts[len(w.rec.stmts)-1]
	return fmt.Sprintf("%s %v", s.sql, s.args)
}

// refuse plants a reference through a relation with many records.
func refuse(c *core.C, w *world, cond *ref.N) {
	r := c.R
	bad := gen.Pick(r, []string{"Toys.name", "Toys.Qty", "Toys.id", "Friends.name", "Friends.Qty", "Friends.id"})
	if !plantAt(r, cond, &ref.N{K: ref.Path, Names: strings.Split(bad, ".")}) {
		return
	}
	q, ok := text(r, cond)
	if !ok {
		return
	}
	w.rec.reset()
	c.Eval(1)
	c.Guard("query "+q, func() {
		var l []Pet
		res := w.db.Model(&Pet{}).Scopes(filter(r, c, q)).Find(&l)
		if res.Error == nil || len(w.rec.stmts) != 0 {
			c.Fail("accepts a relation with many records", "query %q\nerror %v\nstatement %s", q, res.Error, w.lastStmt())
		}
	})
	c.Tag("refused")
	_ = gorm.ErrInvalidDB
}
