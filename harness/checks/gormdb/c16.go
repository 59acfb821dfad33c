package gormdb

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"

	"gorm.io/gorm"
	"gorm.io/gorm/schema"

	"github.com/wenerme/go-miniquery/gormq"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/oracle"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C16", Quick: 24_000, Thorough: 200_000,
		Setup: setupC16, Run: runC16,
		Rule:        "a random model type with default, renamed, swapped, embedded, prefixed, ignored, permission limited and relation fields under one of five naming strategies; one row with another number in every column; every spelling of every name and near misses are queried with the number their column must have; refused names must give an error that mentions them; also through a relation to a model with awkward names; distinct by model and name",
		MinDistinct: 80_000,
		MinTags:     []string{"column", "field", "field case", "refused", "ignored", "relation", "embedded", "prefixed", "renamed", "swapped", "keyword-like", "related", "related refused", "strategy 0", "strategy 1", "strategy 2", "strategy 3", "strategy 4", "long name", "many fields"},
		Assumptions: []string{"names that two fields could claim equally are left out", "gorm's naming strategy defines the default column of a field"},
	})
}

// Odd is a related model with awkward names.
type Odd struct {
	ID     uint
	Alpha  *int64 `gorm:"column:Beta"`
	Beta   *int64 `gorm:"column:Alpha"`
	Order  *int64
	Select *int64 `gorm:"column:group"`
	Inner  *int64 `gorm:"column:is_in"`
	Secret *int64 `gorm:"-"`
	HTTPID *int64
}

// Host has relations to Odd.
type Host struct {
	ID     uint
	OddID  *uint
	Odd    *Odd
	TwinID *uint
	Twin   *Odd
	Alpha  *int64
}

var strategies = []schema.NamingStrategy{
	{}, {TablePrefix: "t_", SingularTable: true}, {NoLowerCase: true}, {NameReplacer: strings.NewReplacer("ID", "Key", "Name", "Label")}, {IdentifierMaxLength: 10},
}

func setupC16(w *core.Worker) error {
	var l []*world
	for _, s := range strategies {
		wd, err := openWorld(s)
		if err != nil {
			return err
		}
		if err := wd.db.AutoMigrate(&Odd{}, &Host{}); err != nil {
			return err
		}
		l = append(l, wd)
	}
	w.State = l
	return nil
}

// modelField is what the harness knows about a field.
type modelField struct {
	name, column string // column is empty for fields without one
	value        int
	kind         string
}

var fieldPool = strings.Fields("Name FullName URL UserID HTTPServer X A1 Order Select Group Not NotNull Notes In Inn Inner Is IsNull Isbn Between Betweens Like Likes And Android Or Origin True Truth False Null Nullable Date DateAt Key Type Eq Equal Lt Gt Gte Neq Value A B AB Ab ABC Table Index Where From Limit As By On Set")

var longName = strings.Repeat("Abcdefgh", 8)

func init() {
	for i := 1; i < 4; i++ {
		for _, e := range []string{"One", "Two"} {
			n := strings.Repeat(longName, i) + e
			fieldPool = append(fieldPool, n)
			columnPool = append(columnPool, "col_"+n)
		}
	}
}

var columnPool = []string{
	"c", "col", "full name", "a-b", "größe", "UPPER", "camelCase", "select", "from", "where", "not", "in", "and", "or", "is", "null", "true", "between", "like", "x1", "_u", "name2", "isx", "inn", "nota", "order", "group", "android", "c$d", "a?", "a@b", "x:y",
}

// swapCase changes letter case at random.
func swapCase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i, c := range b {
		if r.IntN(2) == 0 && (c|32 >= 'a' && c|32 <= 'z') {
			b[i] = c ^ 32
		}
	}
	return string(b)
}

var intType = reflect.TypeOf((*int64)(nil))

func randomModel(r *rand.Rand, c *core.C, ns schema.Namer) (reflect.Type, []modelField) {
	perm := r.Perm(len(fieldPool))
	next := func() string { s := fieldPool[perm[0]]; perm = perm[1:]; return s }
	used := map[string]bool{}
	claim := func(col string) bool {
		k := strings.ToLower(col)
		if used[k] || col == "" {
			return false
		}
		used[k] = true
		return true
	}
	var out []modelField
	var fields []reflect.StructField
	value := 1000
	add := func(to *[]reflect.StructField, prefix string) {
		name := next()
		f := reflect.StructField{Name: name, Type: intType}
		if r.IntN(6) == 0 {
			f.Type = reflect.TypeOf(int64(0))
		}
		mf := modelField{name: name, kind: "default"}
		col := ns.ColumnName("", name)
		switch r.IntN(8) {
		case 0, 1:
			col = gen.Pick(r, columnPool)
			mf.kind = "renamed"
		case 2:
			// the name of another field, perhaps in other letter case
			col = fieldPool[r.IntN(len(fieldPool))]
			if len(out) > 0 && r.IntN(2) == 0 {
				col = gen.Pick(r, out).name
			}
			if r.IntN(3) == 0 {
				col = swapCase(r, col)
			}
			mf.kind = "swapped"
		case 3:
			mf.kind = "ignored"
			f.Tag = `gorm:"-"`
			*to = append(*to, f)
			out = append(out, mf)
			return
		}
		opts := []string{}
		if mf.kind != "default" {
			opts = append(opts, "column:"+strings.ReplaceAll(col, ":", `\\:`))
		}
		if strings.ContainsAny(col, ":") {
			return
		}
		switch r.IntN(8) {
		case 0:
			opts = append(opts, "<-:false")
		case 1:
			opts = append(opts, "->:false;<-:create")
		case 2:
			opts = append(opts, "not null;index")
		}
		if !claim(prefix + col) {
			return
		}
		if len(opts) > 0 {
			f.Tag = reflect.StructTag(`gorm:"` + strings.Join(opts, ";") + `"`)
		}
		value++
		mf.column, mf.value = prefix+col, value
		*to = append(*to, f)
		out = append(out, mf)
		if prefix != "" {
			c.Tag("prefixed")
		}
	}
	k := 1 + r.IntN(8)
	if r.IntN(15) == 0 {
		k = 9 + r.IntN(40)
		c.Tag("many fields")
	}
	for ; k > 0; k-- {
		add(&fields, "")
	}
	if r.IntN(3) == 0 {
		prefix := gen.Pick(r, []string{"", "e_", "Pre", "not_"})
		var inner []reflect.StructField
		for i := 1 + r.IntN(4); i > 0; i-- {
			add(&inner, prefix)
		}
		if len(inner) > 0 {
			tag := `gorm:"embedded"`
			if prefix != "" {
				tag = `gorm:"embedded;embeddedPrefix:` + prefix + `"`
			}
			fields = append(fields, reflect.StructField{Name: "Emb", Type: reflect.StructOf(inner), Tag: reflect.StructTag(tag)})
			out = append(out, modelField{name: "Emb", kind: "embedding"})
			c.Tag("embedded")
		}
	}
	if r.IntN(4) == 0 && claim(ns.ColumnName("", "OddID")) {
		value++
		fields = append(fields, reflect.StructField{Name: "OddID", Type: reflect.TypeOf((*uint)(nil))}, reflect.StructField{Name: "Odd", Type: reflect.TypeOf((*Odd)(nil))})
		out = append(out, modelField{name: "OddID", column: ns.ColumnName("", "OddID"), value: value, kind: "default"}, modelField{name: "Odd", kind: "relation"})
	}
	return reflect.StructOf(fields), out
}

// lookup is the harness's own name resolution.
func lookup(fields []modelField, name string) (value int, how string, ok bool) {
	for _, f := range fields {
		if f.column != "" && f.column == name {
			return f.value, "column", true
		}
	}
	for _, f := range fields {
		if f.name == name {
			if f.column == "" {
				how = map[bool]string{true: f.kind, false: "refused"}[f.kind == "ignored" || f.kind == "relation"]
				// another field may still match by letter case only
				for _, o := range fields {
					if o.name != name && strings.EqualFold(o.name, name) {
						return 0, "", false
					}
				}
				return 0, how, true
			}
			return f.value, "field", true
		}
	}
	hits := 0
	how = "refused"
	for _, f := range fields {
		if strings.EqualFold(f.name, name) {
			if f.column == "" {
				continue
			}
			hits++
			value, how = f.value, "field case"
		}
	}
	return value, how, hits < 2
}

func expressible(name string) bool {
	n, err := ref.Parse(name + " = 1")
	return err == nil && n.K == ref.Cmp && n.Kids[0].K == ref.Ident && n.Kids[0].Name == name
}

var keywordLike = map[string]bool{}

func init() {
	for _, s := range strings.Fields("order select group not notnull in inn inner is isnull isbn between betweens like likes and android or origin true truth false null nullable date eq lt gt gte neq where from limit as by on set table index nota isx") {
		keywordLike[s] = true
	}
}

func runC16(c *core.C) {
	r := c.R
	k := r.IntN(len(strategies))
	w := c.State.([]*world)[k]
	if r.IntN(6) == 0 {
		relatedNames(c, w)
		return
	}
	typ, fields := randomModel(r, c, strategies[k])
	var defs, cols, vals []string
	for _, f := range fields {
		if f.column != "" {
			q := "`" + f.column + "`"
			defs = append(defs, q+" INTEGER")
			cols = append(cols, q)
			vals = append(vals, fmt.Sprint(f.value))
		}
		c.Tag(f.kind)
	}
	if len(cols) == 0 {
		return
	}
	must := func(q string) {
		if err := w.exec(q); err != nil {
			panic(err)
		}
	}
	must("CREATE TABLE probe (" + strings.Join(defs, ", ") + ")")
	defer must("DROP TABLE probe")
	must("INSERT INTO probe (" + strings.Join(cols, ", ") + ") VALUES (" + strings.Join(vals, ", ") + ")")
	c.Tag(fmt.Sprintf("strategy %d", k))

	names := map[string]bool{"zz": true, "Zz_9": true, "Emb": true, "emb": true}
	for _, f := range fields {
		for _, n := range []string{f.name, f.column, swapCase(r, f.name), swapCase(r, f.column), strings.ToLower(f.name), strings.ToUpper(f.name), strings.ToUpper(f.column), f.name + "s", f.column + "1", "x" + f.name, strings.ReplaceAll(f.column, "_", "")} {
			names[n] = true
		}
		for _, n := range []string{f.name, f.column, swapCase(r, f.name)} {
			names[gen.Mangle(r, n)] = true
			names[gen.Mangle(r, n)] = true
		}
		// names other rules would give
		for _, n := range []string{strategies[k].ColumnName("", f.name), schema.NamingStrategy{}.ColumnName("", f.name), strings.TrimPrefix(f.column, "e_"), strings.TrimPrefix(f.column, "Pre"), "Emb" + f.name, "emb_" + f.column, "e_" + f.name, "probe_" + f.column, f.name + f.name} {
			names[n] = true
		}
		if len(f.name) > 1 {
			names[f.name[:len(f.name)-1]] = true
			names[f.name[1:]] = true
		}
	}
	model := reflect.New(typ).Interface()
	for _, name := range oracle.SortedKeys(names) {
		if name == "" || !expressible(name) {
			continue
		}
		value, how, ok := lookup(fields, name)
		if !ok {
			c.Tag("ambiguous")
			continue
		}
		c.Eval(1)
		var n int64
		var err error
		q := fmt.Sprintf("%s = %d", name, value)
		if !c.Guard(fmt.Sprintf("model %v query %q", typ, q), func() {
			err = w.db.Unscoped().Model(model).Table("probe").Scopes(gormq.ApplyMiniQuery(q)).Count(&n).Error
		}) {
			return
		}
		if value == 0 {
			if err == nil {
				c.Fail("name accepted", "model %v\nquery %q", typ, q)
			} else if !strings.Contains(err.Error(), name) {
				c.Fail("error does not mention the name", "model %v\nquery %q\nerror %v", typ, q, err)
			}
		} else if err != nil {
			c.Fail("name refused", "model %v\nquery %q\nerror %v", typ, q, err)
		} else if n != 1 {
			c.Fail("another column is used", "model %v\nquery %q should use the column of %+v\nstatement %s", typ, q, fields, w.lastStmt())
		}
		if value == 0 {
			c.Tag("refused")
		}
		c.Tag(how)
		if len(name) > 64 {
			c.Tag("long name")
		}
		if keywordLike[strings.ToLower(name)] && value > 0 {
			c.Tag("keyword-like")
		}
		c.Distinct(fmt.Sprint(k, typ, name))
		c.Sample("%v: %s is %s", typ, name, how)
	}
	w.rec.reset()
}

var oddFields = []modelField{
	{name: "Alpha", column: "Beta", value: 2001}, {name: "Beta", column: "Alpha", value: 2002}, {name: "Order", column: "-", value: 2003},
	{name: "Select", column: "group", value: 2004}, {name: "Inner", column: "is_in", value: 2005}, {name: "Secret", kind: "ignored"}, {name: "HTTPID", column: "-", value: 2006}, {name: "ID", column: "-", value: 7},
}

func relatedNames(c *core.C, w *world) {
	r := c.R
	ns := w.db.NamingStrategy
	odd, host := ns.TableName("Odd"), ns.TableName("Host")
	fields := append([]modelField{}, oddFields...)
	cols, vals := []string{}, []string{}
	for i := range fields {
		f := &fields[i]
		if f.column == "-" {
			f.column = ns.ColumnName(odd, f.name)
		}
		if f.column != "" {
			cols = append(cols, "`"+f.column+"`")
			vals = append(vals, fmt.Sprint(f.value))
		}
	}
	for _, q := range []string{
		"DELETE FROM `" + odd + "`", "DELETE FROM `" + host + "`",
		"INSERT INTO `" + odd + "` (" + strings.Join(cols, ",") + ") VALUES (" + strings.Join(vals, ",") + ")",
		fmt.Sprintf("INSERT INTO `%s` (`%s`, `%s`, `%s`, `%s`) VALUES (1, 7, NULL, 2002)", host, ns.ColumnName(host, "ID"), ns.ColumnName(host, "OddID"), ns.ColumnName(host, "TwinID"), ns.ColumnName(host, "Alpha")),
	} {
		if err := w.exec(q); err != nil {
			panic(err)
		}
	}
	names := []string{"zz", "Secre", "OddID", "odd_id"}
	for _, f := range fields {
		names = append(names, f.name, swapCase(r, f.name), f.column, f.name+"x", strings.ToUpper(f.column), gen.Mangle(r, f.name), gen.Mangle(r, f.column), schema.NamingStrategy{}.ColumnName("", f.name))
	}
	for _, name := range names {
		if name == "" || !expressible(name) {
			continue
		}
		value, how, ok := lookup(fields, name)
		if !ok {
			continue
		}
		c.Eval(1)
		var n int64
		var err error
		q := fmt.Sprintf("Odd.%s = %d", name, value)
		if value > 0 && r.IntN(2) == 0 {
			q += " and Twin." + name + " is null"
		}
		if !c.Guard("query "+q, func() {
			err = w.db.Model(&Host{}).Scopes(gormq.ApplyMiniQuery(q)).Count(&n).Error
		}) {
			return
		}
		switch {
		case value == 0 && err == nil:
			c.Fail("name accepted", "query %q", q)
		case value == 0 && !strings.Contains(err.Error(), name):
			c.Fail("error does not mention the name", "query %q\nerror %v", q, err)
		case value > 0 && err != nil:
			c.Fail("name refused", "query %q\nerror %v\nstatement %s", q, err, w.lastStmt())
		case value > 0 && n != 1:
			c.Fail("another column is used", "query %q\nstatement %s", q, w.lastStmt())
		}
		if value == 0 {
			c.Tag("related refused")
		}
		c.Tag("related")
		c.Tag(how)
		c.Distinct(fmt.Sprint(ns, q))
	}
	w.rec.reset()
	_ = gorm.ErrInvalidDB
}
