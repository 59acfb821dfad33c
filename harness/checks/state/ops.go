// Package state holds the monitors of reuse and concurrency.
package state

import (
	"context"
	"database/sql/driver"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/entql"
	"entgo.io/ent/schema/field"
	"gorm.io/gorm"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/schema"
	"gorm.io/gorm/utils/tests"

	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/gormq"
	"github.com/wenerme/go-miniquery/miniquery"

	"mqverif/gen"
	"mqverif/ref"
)

// Models with different columns for the same names.
type Company struct {
	ID   int
	Name string
	Qty  int
}

type Person struct {
	ID        int
	Name      string `gorm:"column:full_name"`
	Qty       int
	OwnerID   *int
	CompanyID *int
	Company   *Company
	Owner     *Person
}

type Article struct {
	ID     int
	Name   string
	Qty    int `gorm:"column:amount"`
	Active bool
	Title  string `gorm:"column:heading"`
	BossID *int
	Boss   *Person
}

func (Article) TableName() string { return "things" }

type Plain struct {
	ID     int
	Name   string
	Active bool
}

// Thing has the table of Article and other columns.
type Thing struct {
	ID   int
	Name string `gorm:"column:label"`
	Qty  int    `gorm:"column:weight"`
	Boss string
}

func (Thing) TableName() string { return "things" }

// two types of one name
func localA() any {
	type Person struct {
		ID     int
		Name   string `gorm:"column:nick"`
		Active bool   `gorm:"column:enabled"`
	}
	return &Person{}
}

func localB() any {
	type Person struct {
		ID     int
		Name   int
		Active bool
		Qty    int `gorm:"column:volume"`
	}
	return &Person{}
}

var models = []any{&Company{}, &Person{}, &Article{}, &Plain{}, &Thing{}, localA(), localB()}

// env is what operations share.
type env struct {
	db     *gorm.DB
	bases  []*gorm.DB // reusable sessions with a model
	graphs []*sqlgraph.Schema
	nodes  []*sqlgraph.Node
}

func newEnv() (*env, error) {
	db, err := gorm.Open(tests.DummyDialector{}, &gorm.Config{DryRun: true, Logger: logger.Discard})
	if err != nil {
		return nil, err
	}
	e := &env{db: db}
	other, err := gorm.Open(tests.DummyDialector{}, &gorm.Config{DryRun: true, Logger: logger.Discard, NamingStrategy: schema.NamingStrategy{TablePrefix: "t_", NoLowerCase: true}})
	if err != nil {
		return nil, err
	}
	for _, m := range models {
		e.bases = append(e.bases, db.Model(m).Where("1 = ?", 1).Session(&gorm.Session{}))
	}
	for _, m := range models {
		e.bases = append(e.bases, other.Model(m).Session(&gorm.Session{}))
	}
	e.bases = append(e.bases, db.Model(&Person{}).Table("people_2020").Session(&gorm.Session{}))
	g, err := newGraph("")
	if err != nil {
		return nil, err
	}
	h, err := newGraph("x_")
	if err != nil {
		return nil, err
	}
	e.graphs = []*sqlgraph.Schema{g, h}
	e.nodes = append(append(e.nodes, g.Nodes...), h.Nodes...)
	return e, nil
}

// newGraph makes a schema; two of them differ in columns only.
func newGraph(prefix string) (*sqlgraph.Schema, error) {
	g := &sqlgraph.Schema{}
	for _, t := range []string{"User", "Pet"} {
		n := &sqlgraph.Node{
			NodeSpec: sqlgraph.NodeSpec{Table: strings.ToLower(t) + "s", ID: &sqlgraph.FieldSpec{Column: prefix + "id", Type: field.TypeInt}},
			Type:     t, Fields: map[string]*sqlgraph.FieldSpec{"name": {Column: prefix + "name"}, "qty": {Column: "qty"}},
		}
		g.Nodes = append(g.Nodes, n)
	}
	g.MustAddE("pets", &sqlgraph.EdgeSpec{Rel: sqlgraph.O2M, Table: "pets", Columns: []string{prefix + "owner_id"}}, "User", "Pet")
	g.MustAddE("owner", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2O, Inverse: true, Table: "pets", Columns: []string{prefix + "owner_id"}}, "Pet", "User")
	g.MustAddE("friends", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2M, Table: "user_friends", Columns: []string{prefix + "user_id", prefix + "friend_id"}}, "User", "User")
	return g, nil
}

// fingerprint of the shared schema information.
func (e *env) fingerprint() string {
	var b strings.Builder
	for _, n := range e.nodes {
		fmt.Fprintf(&b, "%s %s %s %v;", n.Type, n.Table, n.Schema, *n.ID)
		for _, k := range keys(n.Fields) {
			fmt.Fprintf(&b, "%s=%v;", k, *n.Fields[k])
		}
		for _, k := range keys(n.Edges) {
			fmt.Fprintf(&b, "%s=%s %v;", k, n.Edges[k].To.Type, *n.Edges[k].Spec)
		}
	}
	fmt.Fprintf(&b, "root %v %v %v;", e.db.Error, e.db.Statement.Model, len(e.db.Statement.Clauses))
	for _, db := range e.bases {
		var l []map[string]any
		st := db.Find(&l).Statement
		fmt.Fprintf(&b, "%s %v %d;", st.SQL.String(), st.Vars, len(db.Statement.Clauses))
		fmt.Fprintf(&b, "%v;", db.Error)
	}
	return b.String()
}

func keys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// fixedQueries are always part of the pool.
var fixedQueries = []string{
	"name = 'a'", "qty > 1 and name like 'x%'", "not name is null or qty in [1,2,3]", "qty between 1 and 3", "qty not between [1, 3]", "Owner.name = 'b'", "Boss.qty > 2 or name = 'c'", "Company.name = 'z' and Owner.qty = 1",
	"has_edge(pets)", "has_edge(friends, name = 'q' or has_edge(pets, qty > 1))", "date(name) = '2020-01-01'", "(name = 'a' or name = 'b') and qty != 4", "active", "title = 'x' or active = true", "id = null", "name not like 'x' and qty not in (4, 5)",
	"name =", "qty = 1)", "nope = 1", "unknown(name) = 1", "has_edge(nope)", "Nope.name = 1", "a.b.c = 1", "", "not qty = 2147483648", "1 = 1", "true and false", "'a' = \"a\" -- c\n and 1=1", "not (qty = 1 and (name = '' or not name = 'it'))", "NOT qty gte 3 || qty lte 1 && name <> 'x'",
}

// item is a query of the pool with what is shared for it.
type item struct {
	q     string
	tree  *miniquery.Node // nil if refused
	lazy  bool            // the tree is made when an operation needs it
	scope func(*gorm.DB) *gorm.DB
	dump  string
}

// pool is shared by all operations of a history.
type pool struct {
	*env
	items []*item
	lists []*list
	walk  *miniquery.Visitor
}

type list struct {
	given  []string // with room behind
	all    []string
	before []string
	mq     gormq.MiniQuery
}

func rawDump(n *miniquery.Node) string {
	if n == nil {
		return "nil"
	}
	t, err := ref.FromNode(n)
	if err != nil {
		return "malformed: " + err.Error()
	}
	return ref.Dump(t)
}

// columns exist in every model.
var columns = []gen.Col{
	{Names: []string{"name"}, Class: gen.ClassText}, {Names: []string{"Name"}, Class: gen.ClassText}, {Names: []string{"id"}, Class: gen.ClassInt}, {Names: []string{"qty"}, Class: gen.ClassInt},
	{Names: []string{"Owner", "name"}, Class: gen.ClassText}, {Names: []string{"Boss", "qty"}, Class: gen.ClassInt}, {Names: []string{"active"}, Class: gen.ClassBool},
}

// sibling is a query that is easily taken for another one.
func sibling(r *rand.Rand, q string) string {
	b := []byte(q)
	letters := func(f func(byte) byte) string {
		for i, c := range b {
			if r.IntN(3) == 0 {
				b[i] = f(c)
			}
		}
		return string(b)
	}
	switch r.IntN(9) {
	case 0:
		return strings.ToUpper(q)
	case 1:
		return letters(func(c byte) byte {
			if c|32 >= 'a' && c|32 <= 'z' {
				return c ^ 32
			}
			return c
		})
	case 2:
		return letters(func(c byte) byte {
			if c >= '0' && c <= '9' {
				return '0' + (c-'0'+1)%10
			}
			return c
		})
	case 3:
		return strings.ReplaceAll(q, "'", "\"")
	case 4:
		return strings.ReplaceAll(q, "'", " '")
	case 5:
		return strings.ReplaceAll(q, " ", "")
	case 6:
		return gen.Pick(r, []string{" ", "\n", "  "}) + q + gen.Pick(r, []string{"", " ", "\n"})
	case 7:
		return strings.Replace(q, "'", "' ", 1)
	}
	return letters(func(c byte) byte {
		switch c {
		case 'a':
			return 'b'
		case 'x':
			return 'y'
		case '1':
			return '2'
		}
		return c
	})
}

func randomQuery(r *rand.Rand) string {
	switch r.IntN(10) {
	case 0, 1, 2:
		return gen.Pick(r, fixedQueries)
	case 3:
		return gen.Mutate(r, gen.Pick(r, fixedQueries))
	case 4, 5:
		n := gen.New(r, 2+r.IntN(8)).Expr()
		return gen.Render(n, gen.Style{R: r, Words: true, Blanks: r.IntN(2) == 0})
	}
	t := &gen.Typed{R: r, Cols: columns[:len(columns)-r.IntN(4)], Budget: 1 + r.IntN(8), Date: true, IsNull: true, Like: true, Bare: true, NullLit: true}
	if r.IntN(3) == 0 {
		t.Cols = columns[:4]
		t.Extra = func(*gen.Typed) *ref.N {
			n := &ref.N{K: ref.Fn, Name: "has_edge", Kids: []*ref.N{{K: ref.Ident, Name: gen.Pick(r, []string{"pets", "owner", "friends"})}}}
			if r.IntN(2) == 0 {
				n.Kids = append(n.Kids, &ref.N{K: ref.Cmp, Op: "eq", Kids: []*ref.N{{K: ref.Ident, Name: "name"}, {K: ref.Str, S: "x"}}})
			}
			return n
		}
	}
	return gen.Render(t.Expr(), gen.Style{R: r, Words: true, Blanks: r.IntN(3) == 0})
}

// newPool makes the shared things. parsed is the number of queries whose trees
// are made now, or if lazy on demand; nothing was done with the others before.
func newPool(r *rand.Rand, e *env, n, parsed int, lazy bool) *pool {
	p := &pool{env: e}
	for i := 0; i < n; i++ {
		q := randomQuery(r)
		if i > 0 && r.IntN(3) == 0 {
			q = sibling(r, gen.Pick(r, p.items).q)
		}
		it := &item{q: q, scope: gormq.ApplyMiniQuery(q)}
		if i < parsed {
			if it.lazy = lazy; !lazy {
				it.tree, _ = miniquery.Parse(q)
			}
		}
		it.dump = rawDump(it.tree)
		p.items = append(p.items, it)
	}
	for i := 0; i < 3; i++ {
		l := &list{}
		for k := r.IntN(5); k >= 0; k-- {
			q := gen.Pick(r, p.items).q
			if r.IntN(6) == 0 {
				q = ""
			}
			l.all = append(l.all, q)
		}
		n := len(l.all)
		l.all = append(l.all, "behind = 1", "behind = 2", "behind = 3")
		l.given = l.all[:n:len(l.all)]
		l.before = append([]string{}, l.all...)
		l.mq = gormq.MiniQuery{Query: l.given}
		p.lists = append(p.lists, l)
	}
	p.walk = &miniquery.Visitor{}
	type key = walkKey
	leaf := func(ctx context.Context, n *miniquery.Node) error {
		t := ctx.Value(key{}).(*[]string)
		*t = append(*t, string(n.Type)+" "+n.Name+n.Operation+strings.Join(n.Names, "."))
		return nil
	}
	p.walk.IdentifierNode, p.walk.OperationNode, p.walk.ReferenceNode = leaf, leaf, leaf
	p.walk.Init()
	return p
}

type walkKey struct{}

// op is an operation with an answer that depends on its name only.
type op struct {
	name string
	kind string
	run  func() string
}

func answer(text string, args []any, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return fmt.Sprintf("%s %#v", text, args)
}

func showArgs(l []any) []any {
	var out []any
	for _, a := range l {
		if v, ok := a.(driver.Valuer); ok {
			a, _ = v.Value()
		}
		out = append(out, a)
	}
	return out
}

func gormAnswer(db *gorm.DB) string {
	var l []map[string]any
	tx := db.Find(&l)
	return answer(tx.Statement.SQL.String(), tx.Statement.Vars, tx.Error)
}

type target struct{ got []string }

func (t *target) Where(p entql.P) { t.got = append(t.got, p.String()) }

// onTree makes an answer from the shared tree.
func (it *item) onTree(f func(*miniquery.Node) string) func() string {
	return func() string {
		if it.lazy {
			it.tree, _ = miniquery.Parse(it.q)
		}
		if it.tree == nil {
			return "no tree"
		}
		return f(it.tree)
	}
}

// pick makes a random operation over the pool.
func (p *pool) pick(r *rand.Rand) op {
	i := r.IntN(len(p.items))
	it := p.items[i]
	k := r.IntN(len(p.lists))
	l := p.lists[k]
	m := r.IntN(len(p.bases))
	switch r.IntN(18) {
	case 0, 1:
		return op{fmt.Sprintf("parse %q", it.q), "parse", func() string {
			n, err := miniquery.Parse(it.q)
			if err != nil {
				return "error: " + err.Error()
			}
			return rawDump(n)
		}}
	case 2:
		return op{fmt.Sprintf("build %d %q", i, it.q), "print", it.onTree(miniquery.Build)}
	case 3:
		return op{fmt.Sprintf("string %d %q", i, it.q), "print", it.onTree(func(n *miniquery.Node) string { return n.String() + fmt.Sprint(n.IsExpression(), n.IsValue()) })}
	case 4:
		return op{fmt.Sprintf("walk %d %q", i, it.q), "walk", it.onTree(func(n *miniquery.Node) string {
			var t []string
			err := p.walk.Visit(context.WithValue(context.Background(), walkKey{}, &t), n)
			return fmt.Sprintf("%q %v", t, err)
		})}
	case 5:
		return op{fmt.Sprintf("join %d %q", k, l.given), "join", func() string { return miniquery.Join(l.given) }}
	case 6:
		return op{fmt.Sprintf("normalize %q", it.q), "normalize", func() string {
			var out []string
			for _, w := range strings.Fields(it.q) {
				out = append(out, fmt.Sprint(miniquery.NormalizeOperation(w)))
			}
			return strings.Join(out, " ")
		}}
	case 7, 8:
		return op{fmt.Sprintf("gorm scope model %d %q", m, it.q), "gorm", func() string { return gormAnswer(p.bases[m].Scopes(it.scope)) }}
	case 9:
		return op{fmt.Sprintf("gorm wire model %d %q", m, it.q), "gorm", func() string { return gormAnswer(gormq.WireMiniQuery(p.bases[m], it.q)) }}
	case 10:
		j := r.IntN(len(p.items))
		return op{fmt.Sprintf("gorm two scopes model %d %q %q", m, it.q, p.items[j].q), "gorm", func() string {
			return gormAnswer(p.bases[m].Scopes(it.scope, p.items[j].scope))
		}}
	case 11:
		return op{fmt.Sprintf("gorm list model %d %q", m, l.given), "gorm list", func() string { return gormAnswer(p.bases[m].Scopes(l.mq.Scope)) }}
	case 12:
		m %= len(models)
		mod := models[m]
		return op{fmt.Sprintf("gorm new model %d %q", m, it.q), "gorm", func() string { return gormAnswer(p.db.Model(mod).Scopes(it.scope)) }}
	case 13, 14:
		d := gen.Pick(r, []string{dialect.Postgres, dialect.MySQL, dialect.SQLite})
		var n *sqlgraph.Node
		typ := ""
		g := r.IntN(2)
		if r.IntN(3) != 0 {
			n = p.graphs[g].Nodes[r.IntN(2)]
			typ = fmt.Sprint(n.Type, g)
		}
		cast := r.IntN(2) == 0
		return op{fmt.Sprintf("ent sql %s %s %v %q", d, typ, cast, it.q), "ent sql", func() string {
			sel := sql.Dialect(d).Select("id").From(sql.Table("users"))
			mb := &entmq.MiniQLToEntSQLBuilder{QueryString: it.q, Node: n, Graph: p.graphs[g], DisableTypeCasting: !cast}
			sel.Where(sql.GT("id", 7)).Where(sql.P(func(b *sql.Builder) { b.Join(mb) }))
			t, a := sel.Query()
			return answer(t, showArgs(a), sel.Err())
		}}
	case 15:
		return op{fmt.Sprintf("ent predicate %q", it.q), "ent predicate", func() string {
			x, err := entmq.BuildEntQL(it.q)
			if err != nil || x == nil {
				return fmt.Sprintf("error: %v", err)
			}
			return x.String()
		}}
	case 17:
		return op{fmt.Sprintf("gorm without model %q %q", it.q, l.given), "gorm", func() string {
			a := gormq.WireMiniQuery(p.db, it.q)
			b := l.mq.Scope(p.db)
			return fmt.Sprint(a.Error, b.Error)
		}}
	case 16:
		return op{fmt.Sprintf("ent list %q", l.given), "ent list", func() string {
			t := &target{}
			err := entmq.ApplyEntQL(t, l.given)
			return fmt.Sprintf("%q %v", t.got, err)
		}}
	}
	return p.pick(r)
}

// intact tells what of the shared things changed.
func (p *pool) intact() error {
	for _, it := range p.items {
		if d := rawDump(it.tree); d != it.dump {
			return fmt.Errorf("tree of %q changed\nfrom %s\nto   %s", it.q, it.dump, d)
		}
	}
	for _, l := range p.lists {
		if !reflect.DeepEqual(l.all, l.before) {
			return fmt.Errorf("list changed\nfrom %q\nto   %q", l.before, l.all)
		}
	}
	return nil
}

// parts lists the addresses of everything a tree could change.
func parts(n *miniquery.Node, out map[unsafe.Pointer]string) {
	if n == nil {
		return
	}
	out[unsafe.Pointer(n)] = string(n.Type)
	if cap(n.Array) > 0 {
		out[unsafe.Pointer(unsafe.SliceData(n.Array[:1:1]))] = "list"
	}
	if cap(n.Params) > 0 {
		out[unsafe.Pointer(unsafe.SliceData(n.Params[:1:1]))] = "parameters"
	}
	if cap(n.Names) > 0 {
		out[unsafe.Pointer(unsafe.SliceData(n.Names[:1:1]))] = "names"
	}
	for _, k := range n.Array {
		parts(k, out)
	}
	for _, k := range n.Params {
		parts(k, out)
	}
	parts(n.Expression, out)
	parts(n.Left, out)
	parts(n.Op, out)
	parts(n.Right, out)
}

// scribble overwrites everything in a tree of its own.
func scribble(n *miniquery.Node) {
	if n == nil {
		return
	}
	for _, l := range [][]*miniquery.Node{n.Array, n.Params} {
		for i := range l {
			scribble(l[i])
		}
		full := l[:cap(l)]
		for i := range full {
			full[i] = nil
		}
	}
	names := n.Names[:cap(n.Names)]
	for i := range names {
		names[i] = "scribbled"
	}
	scribble(n.Expression)
	scribble(n.Left)
	scribble(n.Op)
	scribble(n.Right)
	*n = miniquery.Node{Type: "scribbled", Name: "scribbled", Operation: "scribbled", Str: "scribbled", Int: -77, Bool: !n.Bool}
}
