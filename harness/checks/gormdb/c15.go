package gormdb

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"gorm.io/gorm"

	"github.com/wenerme/go-miniquery/gormq"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/ref"
)

func init() {
	tags := []string{"no model", "syntax", "unknown column", "unknown function", "unknown relation", "unknown related field", "too many levels", "to-many", "relation as column", "field as relation", "group"}
	for _, op := range refusedOps {
		tags = append(tags, "via "+op.name)
	}
	core.Register(&core.Check{
		ID: "C15", Quick: 800_000, Thorough: 6_000_000,
		Setup: setup, Run: runC15,
		Rule:        "a random condition on a model with relations gets one fault at a random place (unknown column, function, relation, related field, too deep path, to-many relation, text broken so that the grammar rejects it) or lacks a model; it is applied alone, in a group of conditions or among valid filters through one of 17 gorm operations; an error must come back, the recording connection must see no statement and the tables must stay as they are; distinct by query and operation",
		MinDistinct: 40_000,
		MinTags:     tags,
	})
}

var refusedOps = []struct {
	name string
	run  func(w *world, db *gorm.DB) error
}{
	{"find", func(w *world, db *gorm.DB) error { var l []Pet; return db.Find(&l).Error }},
	{"find maps", func(w *world, db *gorm.DB) error { var l []map[string]any; return db.Find(&l).Error }},
	{"first", func(w *world, db *gorm.DB) error { var l Pet; return db.First(&l).Error }},
	{"take", func(w *world, db *gorm.DB) error { var l Pet; return db.Take(&l).Error }},
	{"last", func(w *world, db *gorm.DB) error { var l Pet; return db.Last(&l).Error }},
	{"count", func(w *world, db *gorm.DB) error { var n int64; return db.Count(&n).Error }},
	{"pluck", func(w *world, db *gorm.DB) error { var l []int; return db.Pluck("id", &l).Error }},
	{"scan", func(w *world, db *gorm.DB) error { var l []Pet; return db.Scan(&l).Error }},
	{"rows", func(w *world, db *gorm.DB) error {
		rows, err := db.Rows()
		if rows != nil {
			_ = rows.Close()
		}
		return err
	}},
	{"batches", func(w *world, db *gorm.DB) error {
		var l []Pet
		return db.FindInBatches(&l, 10, func(*gorm.DB, int) error { return nil }).Error
	}},
	{"update", func(w *world, db *gorm.DB) error { return db.Update("qty", 4711).Error }},
	{"update column", func(w *world, db *gorm.DB) error { return db.UpdateColumn("qty", 4711).Error }},
	{"updates", func(w *world, db *gorm.DB) error { return db.Updates(map[string]any{"qty": 4711}).Error }},
	{"delete", func(w *world, db *gorm.DB) error { return db.Delete(&Pet{}).Error }},
	{"first or create", func(w *world, db *gorm.DB) error { var l Pet; return db.FirstOrCreate(&l).Error }},
	{"first or init", func(w *world, db *gorm.DB) error { var l Pet; return db.FirstOrInit(&l).Error }},
	{"transaction", nil},
}

func path(s string) *ref.N { return &ref.N{K: ref.Path, Names: strings.Split(s, ".")} }

func ident(s string) *ref.N { return &ref.N{K: ref.Ident, Name: s} }

var (
	petFields   = strings.Fields("id name qty active sold_at SoldAt owner_id OwnerID boss_id BossID shop_id ShopID parent_id ParentID height size vet_code VetCode keeper_id KeeperID box_row BoxRow box_col BoxCol")
	ownerFields = strings.Fields("id name weight height years age size qty active sold_at SoldAt company_id CompanyID deleted_at DeletedAt")
	relNames    = strings.Fields("Owner Boss Shop Parent Chip Label Vet Toys Friends")
)

// almost puts a name close to an existing one in place of the fixed ones.
func almost(r *rand.Rand, kind string, n *ref.N) {
	unlike := func(names []string, fold bool) string {
		for {
			s := gen.Mangle(r, gen.Pick(r, names))
			ok := s != ""
			for _, k := range names {
				ok = ok && s != k && !(fold && strings.EqualFold(s, k))
			}
			if ok {
				return s
			}
		}
	}
	switch kind {
	case "unknown column":
		n.Name = unlike(append(petFields, relNames...), true)
	case "unknown function":
		n.Name = unlike([]string{"date"}, false)
	case "unknown relation":
		n.Names = []string{unlike(relNames, false), gen.Pick(r, petFields)}
	case "unknown related field":
		n.Names = []string{gen.Pick(r, []string{"Owner", "Boss"}), unlike(append(ownerFields, "Company"), true)}
	}
}

// fault makes a valid condition invalid and says what is wrong with it.
func fault(r *rand.Rand, cond *ref.N) (kind string, ok bool) {
	var n *ref.N
	switch r.IntN(9) {
	case 0, 1:
		kind = "unknown column"
		n = ident(gen.Pick(r, []string{"nope", "qtyy", "qt", "pets", "_id", "ids", "Names", "mark", "rowid", "oid", "x1", "deleted_at", "years", "sold_att", "owner__name", "Owner__name", "a", "nname", "zzz_9", "NULLS", "trues", "inner"}))
	case 2:
		kind = "unknown function"
		n = &ref.N{K: ref.Fn, Name: gen.Pick(r, []string{"now", "lower", "count", "load_extension", "sleep", "random", "dates", "dat", "coalesce", "length", "abs", "x", "datetime", "date_", "exists", "has_edge", "DATE", "Date", "dAte"})}
		for i := r.IntN(3); i > 0; i-- {
			n.Kids = append(n.Kids, gen.Pick(r, []*ref.N{ident("qty"), ident("name"), {K: ref.Int, I: 1}, {K: ref.Str, S: "a"}}))
		}
	case 3:
		kind = "unknown relation"
		n = path(gen.Pick(r, []string{"Nope.name", "Owners.name", "pets.name", "Company.name", "X.id", "Bos.qty", "companies.id", "DeletedAt.time", "owner.name", "OWNER.qty", "boss.id", "ownerID.name", "parent.name", "chip.name", "shop.qty", "Pet.name", "Pets.id", "owners.name", "Ownerr.name", "Owne.name", "shops.name", "toys.name", "friends.id"}))
	case 4:
		kind = "unknown related field"
		n = path(gen.Pick(r, []string{"Owner.nope", "Boss.mark", "Shop.years", "Parent.zz", "Chip.nam", "Owner.owner_id", "Owner.Namee", "Chip.years", "Shop.owner_id"}))
	case 5:
		kind = "too many levels"
		n = path(gen.Pick(r, []string{"Owner.Company.name", "Parent.Owner.name", "Parent.Parent.Parent.id", "Boss.Company.Parent.name", "Owner.Company.id", "Owner.name.x", "a.b.c.d.e"}))
	case 6:
		kind = "to-many"
		n = path(gen.Pick(r, []string{"Toys.name", "Friends.name", "Toys.id", "Friends.qty"}))
	case 7:
		kind = "relation as column"
		n = gen.Pick(r, []*ref.N{ident("Owner"), ident("Boss"), ident("Toys"), ident("Friends"), ident("owner"), ident("Chip"), path("Owner.Company"), path("Parent.Owner"), path("Parent.Toys"), path("Parent.chip")})
	case 8:
		kind = "field as relation"
		n = path(gen.Pick(r, []string{"Name.name", "qty.id", "ID.id", "OwnerID.name", "sold_at.year"}))
	}
	if r.IntN(2) == 0 {
		almost(r, kind, n)
	}
	return kind, plantAt(r, cond, n)
}

// grouped uses a filter in a group of conditions, plain, negated or as an
// alternative.
func grouped(r *rand.Rand, w *world, f func(*gorm.DB) *gorm.DB, bare bool) func(*gorm.DB) *gorm.DB {
	how, scoped := r.IntN(3), r.IntN(2) == 0
	return func(db *gorm.DB) *gorm.DB {
		fresh := w.db.Session(&gorm.Session{NewDB: true})
		in := fresh.Model(&Pet{})
		if bare {
			in = fresh.Table("pets")
		}
		if scoped {
			in = in.Scopes(f)
		} else {
			in = f(in)
		}
		switch how {
		case 0:
			return db.Not(in)
		case 1:
			return db.Where(fresh.Where("1 = 1").Or(in))
		}
		return db.Where(in)
	}
}

func runC15(c *core.C) {
	w := c.State.(*world)
	r := c.R
	t, _ := relational(r, petSpec, petRelations, 1+r.IntN(10))
	if r.IntN(2) == 0 {
		t = petSpec.typed(r, 1+r.IntN(10))
	}
	cond := t.Expr()
	var q, kind string
	ok := false
	switch r.IntN(8) {
	case 0:
		kind = "no model"
		q, ok = text(r, cond)
	case 1, 2:
		kind = "syntax"
		if q, ok = text(r, cond); ok {
			for i := 0; i < 20; i++ {
				s := gen.Mutate(r, q)
				if r.IntN(4) == 0 {
					s = gen.Pick(r, hostileMembers)
				}
				if _, err := ref.Parse(s); err == ref.ErrReject && strings.TrimSpace(s) != "" {
					q, ok = s, true
					break
				}
				ok = false
			}
		}
	default:
		if kind, ok = fault(r, cond); ok {
			q, ok = text(r, cond)
		}
	}
	if !ok {
		c.Tag("skipped")
		return
	}
	bad := filter(r, c, q)
	if r.IntN(5) == 0 {
		// as one of a list
		list := []string{q}
		k := 1 + r.IntN(2)
		if r.IntN(8) == 0 {
			k = gen.Size(r, 3, 150)
		}
		for i := k; i > 0; i-- {
			p := r.IntN(len(list) + 1)
			list = append(list[:p], append([]string{gen.Pick(r, []string{"1=1", "qty > 1", "", "Owner.name = 'a'", "name is null or 1 = 1"})}, list[p:]...)...)
		}
		bad = gormq.MiniQuery{Query: list}.Scope
	}
	if r.IntN(5) == 0 {
		bad = grouped(r, w, bad, kind == "no model")
		c.Tag("group")
	}
	scopes := []func(*gorm.DB) *gorm.DB{bad}
	if kind != "no model" {
		for i := r.IntN(3); i > 0; i-- {
			good := gormq.ApplyMiniQuery(gen.Pick(r, []string{"1=1", "qty > 1", "name like 'a%'", "Shop.qty > 1"}))
			p := r.IntN(len(scopes) + 1)
			scopes = append(scopes[:p], append([]func(*gorm.DB) *gorm.DB{good}, scopes[p:]...)...)
		}
	}
	op := gen.Pick(r, refusedOps)
	for kind == "no model" && !strings.Contains(",find maps,count,pluck,rows,update,update column,updates,", ","+op.name+",") {
		op = gen.Pick(r, refusedOps)
	}
	w.rec.reset()
	c.Eval(1)
	var err error
	if !c.Guard(fmt.Sprintf("%s query %q via %s", kind, q, op.name), func() {
		if op.run == nil {
			err = w.db.Transaction(func(tx *gorm.DB) error {
				db := tx.Model(&Pet{})
				for _, s := range scopes {
					db = s(db)
				}
				var l []Pet
				return db.Find(&l).Error
			})
			return
		}
		db := w.db.Session(&gorm.Session{AllowGlobalUpdate: true})
		if kind == "no model" {
			db = db.Table("pets")
		} else {
			db = db.Model(&Pet{})
		}
		if r.IntN(2) == 0 {
			db = db.Where("pets.qty > ?", -5)
		}
		if r.IntN(2) == 0 {
			db = db.Scopes(scopes...)
		} else {
			for _, s := range scopes {
				db = s(db)
			}
		}
		err = op.run(w, db)
	}) {
		return
	}
	switch {
	case len(w.rec.stmts) > 0:
		c.Fail("statement executed for a refused query", "%s: %q via %s\nerror %v\nstatement %s", kind, q, op.name, err, w.lastStmt())
	case err == nil:
		c.Fail("no error for a refused query", "%s: %q via %s", kind, q, op.name)
	case err == gorm.ErrRecordNotFound || err == gorm.ErrMissingWhereClause:
		c.Fail("error hides the refusal", "%s: %q via %s\nerror %v", kind, q, op.name, err)
	}
	if c.Index%50 == 0 {
		n, e := w.ids("SELECT count(*) FROM pets UNION ALL SELECT count(*) FROM pets WHERE qty = 4711")
		if e != nil || !sameInts(n, []int{50, 0}) {
			c.Fail("table changed", "count of rows and of touched rows %v %v", n, e)
		}
	}
	c.Tag(kind)
	c.Tag("via " + op.name)
	c.Distinct(op.name + " " + q)
	c.Sample("%s: %q via %s: %v", kind, q, op.name, err)
}
