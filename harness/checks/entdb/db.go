// Package entdb holds the monitors of the ent translations.
package entdb

import (
	stdsql "database/sql"
	"fmt"
	"math/rand/v2"
	"strings"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/schema/field"
	_ "github.com/glebarez/go-sqlite"

	"github.com/wenerme/go-miniquery/entmq"

	"mqverif/core"
	"mqverif/gen"
	"mqverif/oracle"
	"mqverif/ref"
)

// column is a column of a table and the ways a query may write it.
type column struct {
	name   string
	spells []string
	class  gen.Class
}

// edge is an edge of the schema and its meaning.
type edge struct {
	name    string
	to      *table
	rel     sqlgraph.Rel
	inverse bool
	bidi    bool
	table   string
	columns []string
	// exists with %s for the outer alias, %s for the neighbour alias
	from, on string
}

type table struct {
	name  string
	typ   string
	id    string // the column of the id
	cols  []column
	edges []*edge
	rows  int
}

var common = []column{
	{"name", []string{"name", "Name"}, gen.ClassText}, {"qty", []string{"qty", "Qty"}, gen.ClassInt},
	{"active", []string{"active", "Active"}, gen.ClassBool}, {"sold_at", []string{"sold_at", "soldAt", "SoldAt"}, gen.ClassTime},
}

var (
	users  = &table{name: "users", typ: "User", id: "id", rows: 60}
	pets   = &table{name: "pets", typ: "Pet", id: "pet_no", rows: 40}
	cards  = &table{name: "cards", typ: "Card", id: "id", rows: 30}
	groups = &table{name: "groups", typ: "Group", id: "gid", rows: 12}
	tables = []*table{users, pets, cards, groups}
)

func (t *table) with(extra ...column) []column {
	spells := map[string][]string{"id": {"id", "ID", "Id"}, "pet_no": {"pet_no", "petNo", "PetNo"}, "gid": {"gid", "Gid"}}
	return append(append([]column{{t.id, spells[t.id], gen.ClassInt}}, common...), extra...)
}

func init() {
	users.cols = users.with(
		column{"unit_price", []string{"unit_price", "unitPrice", "UnitPrice"}, gen.ClassInt},
		column{"due_at", []string{"due_at", "dueAt"}, gen.ClassTime},
		column{"note", []string{"note"}, gen.ClassText},
		column{"x1y2", []string{"x1y2"}, gen.ClassInt},
		column{"is__ok_", []string{"is__ok_"}, gen.ClassBool},
		column{"manager_id", []string{"manager_id", "managerId"}, gen.ClassInt},
	)
	pets.cols = pets.with(column{"owner_id", []string{"owner_id", "ownerId", "OwnerId"}, gen.ClassInt}, column{"home", []string{"home", "Home"}, gen.ClassInt})
	cards.cols = cards.with(column{"owner_id", []string{"owner_id", "ownerId"}, gen.ClassInt})
	groups.cols = groups.with()
	fk := func(n, o string) string { return "%[2]s." + n + " = %[1]s." + o }
	users.edges = []*edge{
		{name: "pets", to: pets, rel: sqlgraph.O2M, table: "pets", columns: []string{"owner_id"}, from: "pets %[2]s", on: fk("owner_id", "id")},
		{name: "card", to: cards, rel: sqlgraph.O2O, table: "cards", columns: []string{"owner_id"}, from: "cards %[2]s", on: fk("owner_id", "id")},
		{name: "groups", to: groups, rel: sqlgraph.M2M, table: "user_groups", columns: []string{"user_id", "group_id"},
			from: "user_groups j%[2]s, groups %[2]s", on: "j%[2]s.user_id = %[1]s.id AND j%[2]s.group_id = %[2]s.gid"},
		{name: "friends", to: users, rel: sqlgraph.M2M, bidi: true, table: "user_friends", columns: []string{"user_id", "friend_id"},
			from: "user_friends j%[2]s, users %[2]s", on: "j%[2]s.user_id = %[1]s.id AND j%[2]s.friend_id = %[2]s.id"},
		{name: "followers", to: users, rel: sqlgraph.M2M, inverse: true, table: "user_following", columns: []string{"user_id", "follower_id"},
			from: "user_following j%[2]s, users %[2]s", on: "j%[2]s.follower_id = %[1]s.id AND j%[2]s.user_id = %[2]s.id"},
		{name: "following", to: users, rel: sqlgraph.M2M, table: "user_following", columns: []string{"user_id", "follower_id"},
			from: "user_following j%[2]s, users %[2]s", on: "j%[2]s.user_id = %[1]s.id AND j%[2]s.follower_id = %[2]s.id"},
		{name: "manager", to: users, rel: sqlgraph.M2O, inverse: true, table: "users", columns: []string{"manager_id"}, from: "users %[2]s", on: fk("id", "manager_id")},
		{name: "reports", to: users, rel: sqlgraph.O2M, table: "users", columns: []string{"manager_id"}, from: "users %[2]s", on: fk("manager_id", "id")},
		{name: "best_pets", to: pets, rel: sqlgraph.O2M, table: "pets", columns: []string{"owner_id"}, from: "pets %[2]s", on: fk("owner_id", "id")},
		{name: "lineManager", to: users, rel: sqlgraph.M2O, inverse: true, table: "users", columns: []string{"manager_id"}, from: "users %[2]s", on: fk("id", "manager_id")},
		{name: "Card2", to: cards, rel: sqlgraph.O2O, table: "cards", columns: []string{"owner_id"}, from: "cards %[2]s", on: fk("owner_id", "id")},
		{name: "spouse", to: users, rel: sqlgraph.O2O, bidi: true, table: "users", columns: []string{"user_spouse"}, from: "users %[2]s", on: fk("user_spouse", "id")},
	}
	pets.edges = []*edge{
		{name: "owner", to: users, rel: sqlgraph.M2O, inverse: true, table: "pets", columns: []string{"owner_id"}, from: "users %[2]s", on: fk("id", "owner_id")},
		{name: "home", to: groups, rel: sqlgraph.M2O, inverse: true, table: "pets", columns: []string{"home"}, from: "groups %[2]s", on: fk("gid", "home")},
	}
	cards.edges = []*edge{
		{name: "owner", to: users, rel: sqlgraph.O2O, inverse: true, table: "cards", columns: []string{"owner_id"}, from: "users %[2]s", on: fk("id", "owner_id")},
	}
	groups.edges = []*edge{
		{name: "users", to: users, rel: sqlgraph.M2M, inverse: true, table: "user_groups", columns: []string{"user_id", "group_id"},
			from: "user_groups j%[2]s, users %[2]s", on: "j%[2]s.group_id = %[1]s.gid AND j%[2]s.user_id = %[2]s.id"},
		{name: "animals", to: pets, rel: sqlgraph.O2M, table: "pets", columns: []string{"home"}, from: "pets %[2]s", on: fk("home", "gid")},
	}
}

func (t *table) edge(name string) *edge {
	for _, e := range t.edges {
		if e.name == name {
			return e
		}
	}
	return nil
}

// graph builds the schema information ent generates.
func graph() (*sqlgraph.Schema, map[*table]*sqlgraph.Node) {
	g := &sqlgraph.Schema{}
	nodes := map[*table]*sqlgraph.Node{}
	for _, t := range tables {
		n := &sqlgraph.Node{
			NodeSpec: sqlgraph.NodeSpec{Table: t.name, ID: &sqlgraph.FieldSpec{Column: t.id, Type: field.TypeInt}},
			Type:     t.typ, Fields: map[string]*sqlgraph.FieldSpec{},
		}
		for _, c := range t.cols {
			if c.name != t.id {
				n.Fields[c.name] = &sqlgraph.FieldSpec{Column: c.name}
			}
		}
		g.Nodes = append(g.Nodes, n)
		nodes[t] = n
	}
	for _, t := range tables {
		for _, e := range t.edges {
			g.MustAddE(e.name, &sqlgraph.EdgeSpec{Rel: e.rel, Inverse: e.inverse, Bidi: e.bidi, Table: e.table, Columns: e.columns}, t.typ, e.to.typ)
		}
	}
	return g, nodes
}

// world is the database of one worker.
type world struct {
	raw   *stdsql.DB
	graph *sqlgraph.Schema
	nodes map[*table]*sqlgraph.Node
}

func setup(w *core.Worker) error {
	raw, err := stdsql.Open("sqlite", ":memory:")
	if err != nil {
		return err
	}
	raw.SetMaxOpenConns(1)
	wd := &world{raw: raw}
	wd.graph, wd.nodes = graph()
	w.State = wd
	r := rand.New(rand.NewPCG(uint64(w.Seed), 99))
	exec := func(q string) {
		if err == nil {
			if _, e := raw.Exec(q); e != nil {
				err = fmt.Errorf("%s: %w", q, e)
			}
		}
	}
	null := func(s string) string {
		if r.IntN(6) == 0 {
			return "NULL"
		}
		return s
	}
	for _, t := range tables {
		var defs []string
		for _, c := range t.cols {
			typ := map[gen.Class]string{gen.ClassInt: "integer", gen.ClassText: "text", gen.ClassBool: "bool", gen.ClassTime: "datetime"}[c.class]
			if c.name == t.id {
				typ = "integer primary key"
			}
			defs = append(defs, c.name+" "+typ)
		}
		defs = append(defs, "mark integer default 0")
		if t == users {
			defs = append(defs, "user_spouse integer")
		}
		exec("CREATE TABLE " + t.name + " (" + strings.Join(defs, ", ") + ")")
		for i := 1; i <= t.rows; i++ {
			var names, vals []string
			for _, c := range t.cols {
				v := ""
				switch {
				case c.name == t.id:
					v = fmt.Sprint(i)
				case c.name == "manager_id":
					v = null(fmt.Sprint(1 + r.IntN(20)))
				case c.name == "home":
					v = null(fmt.Sprint(1 + r.IntN(groups.rows)))
				case c.name == "owner_id" && t == cards:
					v = fmt.Sprint(i*2 - 1) // at most one per user
					if r.IntN(4) == 0 {
						v = "NULL"
					}
				case c.name == "owner_id":
					v = null(fmt.Sprint(1 + r.IntN(users.rows)))
				case c.class == gen.ClassInt:
					v = null(fmt.Sprint(gen.Pick(r, gen.Ints())))
				case c.class == gen.ClassText:
					v = null(oracle.Quote(gen.Pick(r, gen.Texts())))
				case c.class == gen.ClassBool:
					v = null(fmt.Sprint(r.IntN(2)))
				case c.class == gen.ClassTime:
					v = null(oracle.Quote(gen.Pick(r, gen.Stamps())))
				}
				names = append(names, c.name)
				vals = append(vals, v)
			}
			exec("INSERT INTO " + t.name + " (" + strings.Join(names, ",") + ") VALUES (" + strings.Join(vals, ",") + ")")
		}
	}
	// spouses in pairs
	for i := 1; i+1 <= users.rows; i += 2 {
		if r.IntN(2) == 0 {
			exec(fmt.Sprintf("UPDATE users SET user_spouse = %d WHERE id = %d", i+1, i))
			exec(fmt.Sprintf("UPDATE users SET user_spouse = %d WHERE id = %d", i, i+1))
		}
	}
	// tables of edges may have columns of the same names
	exec("CREATE TABLE user_groups (id integer primary key, user_id integer, group_id integer, name text, qty integer)")
	exec("CREATE TABLE user_friends (user_id integer, friend_id integer)")
	exec("CREATE TABLE user_following (user_id integer, follower_id integer, id integer default 3, active bool default 1, sold_at datetime)")
	for i := 0; i < 50; i++ {
		exec(fmt.Sprintf("INSERT INTO user_groups (user_id, group_id) VALUES (%d, %d)", 1+r.IntN(users.rows), 1+r.IntN(groups.rows)))
		exec(fmt.Sprintf("INSERT INTO user_following (user_id, follower_id) VALUES (%d, %d)", 1+r.IntN(users.rows), 1+r.IntN(users.rows)))
	}
	for i := 0; i < 30; i++ {
		a, b := 1+r.IntN(users.rows), 1+r.IntN(users.rows)
		exec(fmt.Sprintf("INSERT INTO user_friends VALUES (%d, %d), (%d, %d)", a, b, b, a))
	}
	return err
}

// special gives one row of two tables values of its own, some of which the
// condition has too.
func (w *world) special(r *rand.Rand, cond *ref.N) {
	s, i := gen.Special(r, cond)
	for _, t := range []*table{users, pets} {
		if _, err := w.raw.Exec("UPDATE "+t.name+" SET name = ?, qty = ? WHERE "+t.id+" = 7", s, i); err != nil {
			panic(err)
		}
	}
}

// ids runs a statement that yields ids.
func (w *world) ids(q string, args ...any) ([]int, error) {
	rows, err := w.raw.Query(q, args...)
	if err != nil {
		return nil, fmt.Errorf("%s: %w", q, err)
	}
	defer func() { _ = rows.Close() }()
	out := []int{}
	for rows.Next() {
		var i int
		if err := rows.Scan(&i); err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, rows.Err()
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// typed makes a generator over a table. depth is the number of edge levels.
func (t *table) typed(r *rand.Rand, budget, depth int) *gen.Typed {
	g := &gen.Typed{R: r, Budget: budget, Date: true, IsNull: true, Like: true, Bare: true, NullLit: true}
	for _, c := range t.cols {
		for i := 0; i < 2; i++ {
			g.Cols = append(g.Cols, gen.Col{Names: []string{gen.Pick(r, c.spells)}, Class: c.class})
		}
	}
	if depth > 0 {
		g.Extra = func(*gen.Typed) *ref.N {
			e := gen.Pick(r, t.edges)
			n := &ref.N{K: ref.Fn, Name: "has_edge", Kids: []*ref.N{{K: ref.Ident, Name: e.name}}}
			if r.IntN(5) > 0 {
				in := e.to.typed(r, 1+r.IntN(4), depth-1)
				c := in.Expr()
				for c.K == ref.Ident || c.K == ref.Int || c.K == ref.Str || c.K == ref.Bool || c.K == ref.Null {
					c = in.Expr()
				}
				n.Kids = append(n.Kids, c)
			}
			return n
		}
	}
	return g
}

func (t *table) resolve(name string) string {
	for _, c := range t.cols {
		for _, s := range c.spells {
			if s == name {
				return c.name
			}
		}
	}
	panic("harness: no column for " + name)
}

// resolver reads the query for rows of the table.
func (t *table) resolver(alias string, conj func(*ref.N) bool) *oracle.Resolver {
	return &oracle.Resolver{
		NotBetweenConj: conj,
		Ident:          func(n string) string { return alias + "." + t.resolve(n) },
		Fn: func(n *ref.N) (string, bool) {
			if n.Name != "has_edge" {
				return "", false
			}
			e := t.edge(n.Kids[0].Name)
			in := alias + "x"
			s := fmt.Sprintf("EXISTS (SELECT 1 FROM "+e.from+" WHERE "+e.on, alias, in)
			if len(n.Kids) > 1 {
				s += " AND " + e.to.resolver(in, conj).SQL(n.Kids[1])
			}
			return s + ")", true
		},
	}
}

// where the finding applies: ent SQL writes other left sides with NOT BETWEEN.
func simpleLeft(n *ref.N) bool { return n.K == ref.Ident || n.IsValue() }
func anyLeft(*ref.N) bool      { return true }

const knownNotBetween = "not between is translated to a < lo AND a > hi, which no row satisfies"

func hasNotBetween(n *ref.N) bool {
	return n.Any(func(m *ref.N) bool { return m.K == ref.Between && m.Op == "not between" })
}

// expected returns the rows a query describes; alt are those under the known
// finding, nil when it does not apply.
func (w *world) expected(t *table, cond *ref.N, and func(sql string) string, finding func(left *ref.N) bool) (want, alt []int) {
	run := func(conj func(*ref.N) bool) []int {
		q := "SELECT o." + t.id + " FROM " + t.name + " o WHERE " + and(t.resolver("o", conj).SQL(cond)) + " ORDER BY o." + t.id
		l, err := w.ids(q)
		if err != nil {
			panic(err)
		}
		return l
	}
	want = run(nil)
	if hasNotBetween(cond) {
		alt = run(finding)
	}
	return
}

func text(r *rand.Rand, n *ref.N) (string, bool) {
	st := gen.Style{R: r, Words: true, Blanks: r.IntN(2) == 0}
	if r.IntN(3) == 0 {
		st = gen.Style{}
	}
	s := gen.Render(n, st)
	m, err := ref.Parse(s)
	return s, err == nil && ref.Equal(m, n)
}

func tagTree(c *core.C, n *ref.N) {
	n.Walk(func(m *ref.N) {
		switch m.K {
		case ref.Logic, ref.Cmp, ref.Between, ref.Pred:
			c.Tag("op " + m.Op)
			if gen.Loose(m) {
				c.Tag("condition as operand")
			}
		case ref.Fn:
			c.Tag(m.Name)
		case ref.Not:
			c.Tag("not")
		case ref.Paren:
			c.Tag("parentheses")
		}
	})
}

var opTags = []string{
	"op and", "op or", "op gte", "op gt", "op eq", "op neq", "op lt", "op lte", "op in", "op not in", "op between", "op not between", "not", "parentheses",
}

// predicate wraps a builder the way it is used in ent.
func predicate(mb *entmq.MiniQLToEntSQLBuilder, into bool) *sql.Predicate {
	return sql.P(func(b *sql.Builder) {
		if into {
			mb.SQLBuilder = b
			mb.Query()
			if err := mb.Err(); err != nil {
				b.AddError(err)
			}
			return
		}
		b.Join(mb)
	})
}

func sqlite() *sql.DialectBuilder { return sql.Dialect(dialect.SQLite) }
