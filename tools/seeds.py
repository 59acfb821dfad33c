"""The planted bugs: edits against /repo, and a program that shows the harm."""
HEAD = '''
package main

import (
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}
'''
def prog(imports, body):
    names = {
        "mq": '"github.com/wenerme/go-miniquery/miniquery"', "gormq": '"github.com/wenerme/go-miniquery/gormq"', "entmq": '"github.com/wenerme/go-miniquery/entmq"',
        "gorm": '"gorm.io/gorm"', "sqlite": '"github.com/glebarez/sqlite"', "dialect": '"entgo.io/ent/dialect"', "sql": '"entgo.io/ent/dialect/sql"',
        "sqlgraph": '"entgo.io/ent/dialect/sql/sqlgraph"', "entql": '"entgo.io/ent/entql"', "field": '"entgo.io/ent/schema/field"', "logger": '"gorm.io/gorm/logger"',
    }
    l = ["fmt", "os"] + imports
    out = "".join("\t%s\n" % names.get(i, (i if '"' in i else '"' + i) + '"') for i in l)
    return HEAD % out + body

GORM = '''
type Company struct {
	ID    int
	Title string `gorm:"column:label"`
	Qty   int
}

type Item struct {
	ID        int
	Title     string `gorm:"column:heading"`
	Qty       int    `gorm:"column:amount"`
	Active    *bool
	CompanyID *int
	Company   *Company
}

func open() *gorm.DB {
	db, err := gorm.Open(sqlite.Open("file::memory:"), &gorm.Config{Logger: logger.Discard})
	if err != nil {
		fail("%v", err)
	}
	if err := db.AutoMigrate(&Company{}, &Item{}); err != nil {
		fail("%v", err)
	}
	t, f, one := true, false, 1
	db.Create(&Company{ID: 1, Title: "acme", Qty: 5})
	db.Create(&[]Item{{ID: 1, Title: "a", Qty: 1, Active: &t, CompanyID: &one}, {ID: 2, Title: "b", Qty: 2, Active: &f}, {ID: 3, Title: "c", Qty: 3}})
	return db
}

func ids(db *gorm.DB) string {
	var l []int
	if err := db.Order("items.id").Pluck("items.id", &l).Error; err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprint(l)
}

func expect(what, got, want string) {
	if got != want {
		fail("%s: got %s, want %s", what, got, want)
	}
}
'''
GI = ["gorm", "sqlite", "logger", "gormq"]

SEEDS = []
def seed(id, property, edits, needs, what, demo, race=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, race=race))

seed("big-integers", "C03", [("miniquery/tree.go", '''	i, err := strconv.Atoi(s)
	t.AddError(err)
''', '''	f, err := strconv.ParseFloat(s, 64)
	t.AddError(err)
	i := int(f)
''')], "an integer beyond 2^53", "integers are read through a float and lose digits",
prog(["mq"], '''
func main() {
	for _, v := range []int{0, 7, 1 << 31, 1<<53 + 1, 9007199254740995} {
		n, err := miniquery.Parse(fmt.Sprint("a = ", v))
		if err != nil || n.Right.Int != v {
			fail("%d read as %v %v", v, n, err)
		}
	}
}
'''))

seed("overflow-in-call", "C01", [("miniquery/tree.go", '''	i, err := strconv.Atoi(s)
	t.AddError(err)
''', '''	i, err := strconv.Atoi(s)
	if err != nil {
		t.AddError(err)
		return
	}
''')], "integers too large for int on both sides of a comparison inside a call that is itself an operand", "the stack of the tree builder gets out of step and Parse panics",
prog(["mq"], '''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	const big = "99999999999999999999"
	for _, q := range []string{big, "a = " + big, "x = g(" + big + " = " + big + ")"} {
		if n, err := miniquery.Parse(q); err == nil {
			fail("%s accepted: %v", q, n)
		}
	}
}
'''))

seed("join-wrapped", "C06", [("miniquery/join.go", '''		sb.WriteString("(")
		sb.WriteString(v)
		sb.WriteString(")")
''', '''		if strings.HasPrefix(v, "(") && strings.HasSuffix(v, ")") {
			sb.WriteString(v)
		} else {
			sb.WriteString("(" + v + ")")
		}
''')], "a member that starts and ends with parentheses that do not belong together, such as (a) or (b)", "the member is joined without parentheses of its own and its or widens the conjunction",
prog(["mq"], '''
func main() {
	n, err := miniquery.Parse(miniquery.Join([]string{"x = 1", "(a = 1) or (b = 2)"}))
	if err != nil || n.Op.Operation != "and" {
		fail("not a conjunction: %v %v", n, err)
	}
}
'''))

seed("visitor-lost-error", "C07", [("miniquery/visitor.go", '''				for _, n := range node.Params {
					if err = v.Visit(ctx, n); err != nil {
						return
					}
				}
			}
			return
		}
	}
	if v.ValueNode''', '''				for _, n := range node.Params {
					err = v.Visit(ctx, n)
				}
			}
			return
		}
	}
	if v.ValueNode''')], "a handler that fails on the lower bound of a range", "the error is overwritten and the walk goes on",
prog(["context", "errors", "mq"], '''
func main() {
	n, err := miniquery.Parse("a between 1 and 2")
	if err != nil {
		fail("%v", err)
	}
	v := miniquery.Visitor{ValueNode: func(ctx context.Context, n *miniquery.Node) error {
		if n.Int == 1 {
			return errors.New("stop")
		}
		return nil
	}}
	v.Init()
	if v.Visit(context.Background(), n) == nil {
		fail("error lost")
	}
}
'''))

seed("operator-case", "C04", [("miniquery/tree.go", '''	s = strings.ToLower(s)
	s = regSpace''', '''	if strings.ToUpper(s) == s {
		s = strings.ToLower(s)
	}
	s = regSpace''')],
"an operator in mixed case such as Not In", "the operator is kept in mixed case, so the tree differs and the translations do not know it",
prog(["mq"], '''
func main() {
	a, err := miniquery.Parse("a not in [1]")
	for _, op := range []string{"NOT IN", "Not In", "not IN"} {
		b, err2 := miniquery.Parse("a " + op + " [1]")
		if err != nil || err2 != nil || a.Op.Operation != b.Op.Operation {
			fail("%v %v %v %v", a, b, err, err2)
		}
	}
}
'''))

seed("print-nested-parentheses", "C05", [("miniquery/node.go", '''		case ParenthesesExpressionType:
			buf.WriteRune('(')
			visit(node.Expression)
			buf.WriteRune(')')
''', '''		case ParenthesesExpressionType:
			if node.Expression.Type == NotExpressionType {
				visit(node.Expression)
			} else {
				buf.WriteRune('(')
				visit(node.Expression)
				buf.WriteRune(')')
			}
''')], "a negation in parentheses that is compared with something", "the parentheses are not printed, so the text reads differently",
prog(["mq"], '''
func main() {
	for _, q := range []string{"(a = 1)", "(not a) = b", "b = (not a)"} {
		n, err := miniquery.Parse(q)
		if err != nil {
			fail("%v", err)
		}
		m, err := miniquery.Parse(miniquery.Build(n))
		if err != nil || m.String() != n.String() {
			fail("%q printed as %q: %v", q, miniquery.Build(n), err)
		}
	}
}
'''))

seed("print-exponential", "C08", [("miniquery/node.go", '''			buf.WriteRune('(')
			visit(node.Expression)
			buf.WriteRune(')')
''', '''			buf.WriteRune('(')
			if Build(node.Expression) != "" {
				visit(node.Expression)
			}
			buf.WriteRune(')')
''')], "deeply nested parentheses", "every level is printed twice, so the work doubles with each level; 40 parentheses never end",
prog(["strings", "time", "mq"], '''
func main() {
	n, err := miniquery.Parse(strings.Repeat("(", 60) + "a" + strings.Repeat(")", 60))
	if err != nil {
		fail("%v", err)
	}
	done := make(chan bool)
	go func() { miniquery.Build(n); done <- true }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("no end")
	}
}
'''))

seed("parse-cache", "C09", [("miniquery/parse.go", '''func Parse(s string) (*Node, error) {
''', '''func Parse(s string) (*Node, error) {
	if n, ok := parsed.Load(s); ok {
		return n.(*Node), nil
	}
'''), ("miniquery/parse.go", '''	return p.Pop(), nil
''', '''	n, _ := parsed.LoadOrStore(s, p.Pop())
	return n.(*Node), nil
'''), ("miniquery/tree.go", '\t"strings"\n)\n', '\t"strings"\n\t"sync"\n)\n\nvar parsed sync.Map\n')],
"a caller that changes a tree it got, and the same query again", "trees are shared between calls",
prog(["mq"], '''
func main() {
	a, _ := miniquery.Parse("a = 1")
	a.Left.Name = "changed"
	b, _ := miniquery.Parse("a = 1")
	if b.Left.Name != "a" {
		fail("tree is shared")
	}
}
'''))

seed("operator-memo", "C10", [("miniquery/tree.go", '''	if v, ok := normalize[s]; ok {
		return v
	}
	return s
}
''', '''	v, ok := normalize[s]
	if !ok {
		v = s
		normalize[s] = v
	}
	return v
}
''')], "two goroutines that parse at the same time", "a package-level map is written without a lock",
prog(["sync", "mq"], '''
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, op := range []string{"like", "not like", "in", "not in", "and", "or", "between"} {
				miniquery.NormalizeOperation(op)
			}
		}()
	}
	wg.Wait()
}
'''), race=True)

seed("gorm-is-not-true", "C11", [("gormq/miniquery.go", '''	"or":  "or",
}''', '''	"or":  "or",

	"is not true":  "= false",
	"is not false": "= true",
}'''), ("gormq/miniquery.go", '''	"and": "and",
''', '''	"and": "and", // logic
''')], "is not true or is not false on rows where the column is null", "rows with null are left out",
prog(GI, GORM + '''
func main() {
	expect("is not true", ids(open().Model(&Item{}).Scopes(gormq.ApplyMiniQuery("active is not true"))), "[2 3]")
}
'''))

seed("gorm-related-column", "C12", [("gormq/miniquery.go", '''			if name, ok = getDBName(r.FieldSchema, fieldName); !ok {
''', '''			if name, ok = getDBName(schema, fieldName); !ok {
				name, ok = getDBName(r.FieldSchema, fieldName)
			}
			if !ok {
''')], "a related field whose name the filtered model also has, with another column", "the column of the wrong model is used",
prog(GI, GORM + '''
func main() {
	expect("Company.Title", ids(open().Model(&Item{}).Scopes(gormq.ApplyMiniQuery("Company.Title = 'acme'"))), "[1]")
}
'''))

seed("gorm-long-string", "C13", [("gormq/miniquery.go", '''		buf.WriteRune('?')
		addValue(node.Value())
''', '''		if s, ok := node.Value().(string); ok && len(s) > 255 {
			buf.WriteString("'" + s + "'")
		} else {
			buf.WriteRune('?')
			addValue(node.Value())
		}
''')], "a string of more than 255 bytes", "the string is written into the statement without escaping, and a quote in it ends it",
prog(["strings"] + GI, GORM + '''
func main() {
	q := `title = "` + strings.Repeat("x", 300) + `' or 1=1 -- "`
	expect("long text", ids(open().Model(&Item{}).Scopes(gormq.ApplyMiniQuery(q))), "[]")
}
'''))

seed("gorm-repeated-member", "C14", [("gormq/miniquery.go", '''	return WireMiniQuery(db, miniquery.Join(q.Query))
''', '''	// the same member twice adds nothing
	seen := map[string]bool{}
	var list []string
	for _, v := range q.Query {
		if k := strings.ToLower(v); !seen[k] {
			seen[k] = true
			list = append(list, v)
		}
	}
	return WireMiniQuery(db, miniquery.Join(list))
''')], "two members of a list that differ only in the letter case of a text", "the second one is dropped and more rows come back",
prog(GI, GORM + '''
func main() {
	db := open()
	expect("same", ids(db.Model(&Item{}).Scopes(gormq.MiniQuery{Query: []string{"title = 'a'", "qty < 9", "title = 'a'"}}.Scope)), "[1]")
	expect("other case", ids(db.Model(&Item{}).Scopes(gormq.MiniQuery{Query: []string{"title = 'a'", "qty < 9", "title = 'A'"}}.Scope)), "[]")
}
'''))

seed("gorm-long-path", "C15", [("gormq/miniquery.go", '''	if len(node.Names) != 2 {
''', '''	if len(node.Names) < 2 {
''')], "a path of three names whose first two are a relation and its column", "the rest of the path is ignored and a statement runs",
prog(GI, GORM + '''
func main() {
	var l []Item
	if open().Model(&Item{}).Scopes(gormq.ApplyMiniQuery("Company.Title.x = 1")).Find(&l).Error == nil {
		fail("path accepted")
	}
}
'''))

seed("gorm-fold-column", "C16", [("gormq/miniquery.go", '''	for _, f := range st.Fields {
''', '''	if f := st.LookUpField(strings.ToLower(name)); f != nil && f.DBName != "" {
		return f.DBName, true
	}
	for _, f := range st.Fields {
''' ), ("gormq/miniquery.go", '''	return name, false
}
''', '''	return "", false
}
''')], "a field whose name differs in case only from the column of another field", "the name is taken for the other field's column",
prog(GI, GORM + '''
type Odd struct {
	ID     int
	Amount int `gorm:"column:total"`
	Total  int `gorm:"column:sum_amount"`
}

func main() {
	db := open()
	if err := db.AutoMigrate(&Odd{}); err != nil {
		fail("%v", err)
	}
	db.Create(&Odd{ID: 1, Amount: 10, Total: 20})
	n := int64(0)
	if err := db.Model(&Odd{}).Scopes(gormq.ApplyMiniQuery("TOTAL = 20")).Count(&n).Error; err != nil || n != 1 {
		fail("%d %v", n, err)
	}
}
'''))

ENT = '''
func render(d string, node *sqlgraph.Node, q string) (string, []any, error) {
	t := sql.Table("items")
	s := sql.Dialect(d).Select("id").From(t)
	mb := &entmq.MiniQLToEntSQLBuilder{QueryString: q, Node: node}
	s.Where(sql.P(func(b *sql.Builder) { b.Join(mb) }))
	text, args := s.Query()
	err := s.Err()
	if err == nil {
		err = mb.Err()
	}
	return text, args, err
}

func fields() map[string]*sqlgraph.FieldSpec {
	m := map[string]*sqlgraph.FieldSpec{}
	for _, k := range []string{"a", "b", "c"} {
		m[k] = &sqlgraph.FieldSpec{Column: k, Type: field.TypeInt}
	}
	return m
}

// graph has items with friends (both ways) and a box
func graph() *sqlgraph.Schema {
	id := &sqlgraph.FieldSpec{Column: "id", Type: field.TypeInt}
	g := &sqlgraph.Schema{Nodes: []*sqlgraph.Node{
		{NodeSpec: sqlgraph.NodeSpec{Table: "items", Columns: []string{"id", "a", "b", "c"}, ID: id}, Type: "Item", Fields: fields()},
	}}
	g.MustAddE("owners", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2M, Table: "links", Columns: []string{"owner_id", "owned_id"}, Inverse: true}, "Item", "Item")
	g.MustAddE("owned", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2M, Table: "links", Columns: []string{"owner_id", "owned_id"}}, "Item", "Item")
	return g
}

type rec struct{ id, a, b int }

// run answers a query from a database with three items: 1 owns 2, 2 owns 3.
func run(q string) string {
	db, err := stdsql.Open("sqlite", ":memory:")
	if err != nil {
		fail("%v", err)
	}
	db.SetMaxOpenConns(1)
	for _, s := range []string{
		"create table items (id integer, a integer, b integer, c integer)", "create table links (owner_id integer, owned_id integer)",
		"insert into items values (1, 1, 1, null), (2, 2, 1, 2), (3, 3, 1, 3)", "insert into links values (1, 2), (2, 3)",
	} {
		if _, err := db.Exec(s); err != nil {
			fail("%v", err)
		}
	}
	text, args, err := render(dialect.SQLite, graph().Nodes[0], q)
	if err != nil {
		return "error " + err.Error()
	}
	rows, err := db.Query(text, args...)
	if err != nil {
		return "error " + err.Error() + " in " + text
	}
	out := []int{}
	for rows.Next() {
		var i int
		if err := rows.Scan(&i); err != nil {
			fail("%v", err)
		}
		out = append(out, i)
	}
	sort.Ints(out)
	return fmt.Sprint(out)
}

func expect(q, want string) {
	if got := run(q); got != want {
		fail("%s: got %s, want %s", q, got, want)
	}
}
'''
EI = ["sort", 'stdsql "database/sql', '_ "github.com/glebarez/go-sqlite', "dialect", "sql", "sqlgraph", "field", "entmq"]

seed("entsql-equals-null", "C17", [("entmq/entsql.go", '''		} else {
			s.WriteOp(op)
		}
''', '''		} else {
			if op == sql.OpEQ && node.Right.ValueType == miniquery.NullValueType {
				op = sql.OpIsNull
			}
			s.WriteOp(op)
		}
'''), ("entmq/entsql.go", '''		if err == nil {
			err = visitOperand(node.Right)
''', '''		if err == nil && op != sql.OpIsNull {
			err = visitOperand(node.Right)
''')], "a comparison with null", "= null is turned into is null, which finds rows",
prog(EI, ENT + '''
func main() {
	expect("c is null", "[1]")
	expect("c = null", "[]")
	expect("not (c = null)", "[]")
}
'''))

seed("entsql-inverse-edge", "C18", [("entmq/entsql.go", '''					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
				), func''', '''					sqlgraph.Edge(edge.Spec.Rel, false, edge.Spec.Table, edge.Spec.Columns...),
				), func''')], "a many-to-many edge followed backwards with a condition", "the edge is followed in the other direction",
prog(EI, ENT + '''
func main() {
	expect("has_edge(owned, a = 2)", "[1]")
	expect("has_edge(owners, a = 2)", "[3]")
	expect("has_edge(owners)", "[2 3]")
}
'''))

seed("entsql-list-nulls", "C19", [("entmq/entsql.go", '''			s.Args(node.Value().([]interface{})...)
''', '''			var args []interface{}
			for _, v := range node.Array {
				if v.Value() != nil {
					args = append(args, v.Value())
				}
			}
			s.Args(args...)
''')], "null in a list", "the null is left out, so not in finds rows",
prog(EI, ENT + '''
func main() {
	expect("a in [1, 2]", "[1 2]")
	expect("a not in [1, null]", "[]")
}
'''))

seed("entsql-extra-parameter", "C20", [("entmq/entsql.go", '''			case 2:
				if !params[1].IsE''', '''			case 2, 3:
				if !params[1].IsE''')], "an edge condition with a third parameter", "the third parameter is dropped without an error",
prog(EI, ENT + '''
func main() {
	expect("has_edge(owned, a = 2)", "[1]")
	if _, _, err := render(dialect.SQLite, graph().Nodes[0], "has_edge(owned, a = 2, b = 5)"); err == nil {
		fail("accepted")
	}
}
'''))

seed("entql-range-order", "C21", [("entmq/entql.go", '''			hig := mb.pop()
			low := mb.pop()
''', '''			hig, low := mb.pop(), mb.pop()
			if l, r := node.Params[0], node.Params[1]; l.ValueType == miniquery.IntValueType && r.ValueType == miniquery.IntValueType && l.Int > r.Int {
				low, hig = hig, low
			}
''')], "a range with the larger bound first", "the bounds are swapped, so an empty range finds rows",
prog(["entmq"], '''
func main() {
	p, err := entmq.BuildEntQL("a between 5 and 1")
	if err != nil || p.String() != "a >= 5 && a <= 1" {
		fail("%v %v", p, err)
	}
}
'''))

seed("entql-apply-rest", "C22", [("entmq/entql.go", '''			return errors.Wrapf(err, "failed to apply query: %q", v)
''', '''			failed = errors.Wrapf(err, "failed to apply query: %q", v)
			continue
'''), ("entmq/entql.go", '''	for _, v := range queries {
''', '''	var failed error
	for _, v := range queries {
'''), ("entmq/entql.go", '''	return nil
}

func BuildEntQL''', '''	return failed
}

func BuildEntQL''')], "a refused query that is not the last of a list", "the queries after it are applied all the same",
prog(["entql", "entmq"], '''
type target struct{ l []entql.P }

func (t *target) Where(p entql.P) { t.l = append(t.l, p) }

func main() {
	t := &target{}
	if err := entmq.ApplyEntQL(t, []string{"a = 1", "a = ", "b = 1"}); err == nil || len(t.l) != 1 {
		fail("%v %v", t.l, err)
	}
}
'''))

seed("compare-chain", "C02", [("miniquery/tree.go", '''	left := t.Pop()

	t.Push(&Node{
		Type:  CompareExpressionType,
		Left:  left,
		Op:    op,
		Right: right,
	})
''', '''	left := t.Pop()

	n := &Node{
		Type:  CompareExpressionType,
		Left:  left,
		Op:    op,
		Right: right,
	}
	if left != nil && left.Type == CompareExpressionType && right != nil && right.Type == ParenthesesExpressionType {
		n.Left = left.Right
		left.Right = n
		n = left
	}
	t.Push(n)
''')], "a chain of comparisons that ends in parentheses", "a = b = (c) is grouped from the right",
prog(["mq"], '''
func main() {
	for _, q := range []string{"a = b = c", "a = b = (c)"} {
		n, err := miniquery.Parse(q)
		if err != nil || n.Left.Type != miniquery.CompareExpressionType || n.Left.Left.Name != "a" || n.Left.Right.Name != "b" {
			fail("%s: %v %v", q, n, err)
		}
	}
}
'''))

seed("visitor-not-parentheses", "C07", [("miniquery/visitor.go", '''	case NotExpressionType:
		return v.NotExpression(ctx, n)
''', '''	case NotExpressionType:
		if n.Expression.Type == ParenthesesExpressionType {
			return v.NotExpression(ctx, &Node{Type: NotExpressionType, Expression: n.Expression.Expression})
		}
		return v.NotExpression(ctx, n)
'''), ("miniquery/visitor.go", '''	return errors.Errorf("invalid type %q", n.Type)
}''', '''	return errors.Errorf("invalid node type %q", n.Type)
}''')], "a negation of parentheses", "the parentheses are not visited and the handler does not get the node of the tree",
prog(["context", "mq"], '''
func main() {
	n, err := miniquery.Parse("not (a = 1)")
	if err != nil {
		fail("%v", err)
	}
	seen := 0
	v := miniquery.Visitor{ParenthesesExpression: func(ctx context.Context, n *miniquery.Node) error {
		seen++
		return nil
	}}
	v.Init()
	if err := v.Visit(context.Background(), n); err != nil || seen != 1 {
		fail("%d %v", seen, err)
	}
}
'''))

seed("join-many", "C06", [("miniquery/join.go", '''	for _, v := range s {
''', '''	if len(s) > 64 {
		s = s[:64] // enough for any form
	}
	for _, v := range s {
'''), ("miniquery/join.go", '''	sb := strings.Builder{}
''', '''	var sb strings.Builder
''')], "a list of more than 64 members", "the rest of the list is ignored",
prog(["strings", "mq"], '''
func main() {
	var l []string
	for i := 0; i < 100; i++ {
		l = append(l, fmt.Sprintf("a != %d", i))
	}
	if q := miniquery.Join(l); strings.Count(q, "!=") != 100 {
		fail("%s", q)
	}
}
'''))

seed("describe-name-case", "C23", [("miniquery/node.go", '''		buf.WriteString(strings.Join(n.Names, "."))
	case FunctionExpressionType:
		buf.WriteString(n.Name)
''', '''		buf.WriteString(strings.Join(n.Names, "."))
	case FunctionExpressionType:
		buf.WriteString(strings.ToLower(n.Name))
''')], "function names that differ only in letter case", "different calls get the same description",
prog(["mq"], '''
func main() {
	d := map[string]string{}
	for _, q := range []string{"date(a)", "Date(a)", "date(b)", "f(a, g(b))"} {
		n, err := miniquery.Parse(q)
		if err != nil {
			fail("%v", err)
		}
		if o, ok := d[n.String()]; ok {
			fail("%s and %s are both %s", o, q, n)
		}
		d[n.String()] = q
	}
}
'''))

seed("entsql-edge-id", "C18", [("entmq/entsql.go", '''				sqlgraph.HasNeighborsWith(builder, sqlgraph.NewStep(
					sqlgraph.From(tab.Table, tab.ID.Column),
					sqlgraph.To(edge.To.Table, edge.To.ID.Column),
''', '''				sqlgraph.HasNeighborsWith(builder, sqlgraph.NewStep(
					sqlgraph.From(tab.Table, tab.ID.Column),
					sqlgraph.To(edge.To.Table, tab.ID.Column),
''')], "an edge condition on a table whose id column has another name", "the statement names a column the table does not have",
prog(["strings", "dialect", "sql", "sqlgraph", "field", "entmq"], '''
func main() {
	g := &sqlgraph.Schema{Nodes: []*sqlgraph.Node{
		{NodeSpec: sqlgraph.NodeSpec{Table: "users", ID: &sqlgraph.FieldSpec{Column: "id", Type: field.TypeInt}}, Type: "User"},
		{NodeSpec: sqlgraph.NodeSpec{Table: "groups", ID: &sqlgraph.FieldSpec{Column: "gid", Type: field.TypeInt}}, Type: "Group"},
	}}
	g.MustAddE("groups", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2M, Table: "user_groups", Columns: []string{"user_id", "group_id"}}, "User", "Group")
	sel := sql.Dialect(dialect.SQLite).Select("id").From(sql.Table("users"))
	sel.Where(sql.P(func(b *sql.Builder) { b.Join(&entmq.MiniQLToEntSQLBuilder{QueryString: "has_edge(groups, name = 'a')", Node: g.Nodes[0]}) }))
	q, _ := sel.Query()
	if !strings.Contains(q, "`gid`") {
		fail("%s", q)
	}
}
'''))

seed("call-many-arguments", "C01", [("miniquery/tree.go", '''			Params: a.Array,
''', '''			Params: a.Array[:min(len(a.Array), 16)],
''')], "a call with more than 16 arguments", "the arguments after the sixteenth are missing from the tree",
prog(["strings", "mq"], '''
func main() {
	for _, k := range []int{1, 3, 16, 17, 40} {
		n, err := miniquery.Parse("f(" + strings.Repeat("a, ", k-1) + "a)")
		if err != nil || len(n.Params) != k {
			fail("%d arguments: %v %v", k, n, err)
		}
	}
}
'''))

seed("gorm-time-text", "C13", [("gormq/miniquery.go", '''		addValue(node.Value())
''', '''		if t, err := time.Parse("2006-01-02 15:04:05", node.Str); err == nil {
			addValue(t)
		} else {
			addValue(node.Value())
		}
'''), ("gormq/miniquery.go", '''	"strings"

''', '''	"strings"
	"time"

''')], "a string literal that is written like a time stamp", "a value other than the literal is bound",
prog(GI, GORM + '''
func main() {
	for _, s := range []string{"a", "2021", "2021-05-12", "2021-05-12 08:00:00"} {
		var l []Item
		tx := open().Session(&gorm.Session{DryRun: true}).Model(&Item{}).Scopes(gormq.ApplyMiniQuery("Title = '" + s + "'")).Find(&l)
		if tx.Error != nil {
			fail("%v", tx.Error)
		}
		expect(s, fmt.Sprintf("%#v", tx.Statement.Vars), fmt.Sprintf("%#v", []interface{}{s}))
	}
}
'''))

seed("gorm-trailing-underscore", "C16", [("gormq/miniquery.go", '''	if f, ok := st.FieldsByName[name]; ok {
''', '''	if f, ok := st.FieldsByName[strings.TrimRight(name, "_")]; ok {
''')], "the name of a field with an underscore after it", "the name is taken for the field instead of refused",
prog(GI, GORM + '''
func main() {
	db := open()
	expect("Qty", ids(db.Model(&Item{}).Scopes(gormq.ApplyMiniQuery("Qty = 2"))), "[2]")
	var l []Item
	if err := db.Model(&Item{}).Scopes(gormq.ApplyMiniQuery("Qty_ = 2")).Find(&l).Error; err == nil {
		fail("Qty_ accepted: %v", l)
	}
}
'''))

seed("describe-long-list", "C23", [("miniquery/node.go", '''		_, _ = fmt.Fprint(buf, n.Value())
''', '''		if len(n.Array) > 10 {
			_, _ = fmt.Fprint(buf, n.Array[0].Value(), " ... ", len(n.Array))
		} else {
			_, _ = fmt.Fprint(buf, n.Value())
		}
''')], "lists of more than ten members that differ after the first", "different queries get the same description",
prog(["mq"], '''
func main() {
	seen := map[string]string{}
	for _, q := range []string{"a in [1,2]", "a in [1,3]", "a in [1,2,3,4,5,6,7,8,9,10,11]", "a in [1,2,3,4,5,6,7,8,9,10,12]"} {
		n, err := miniquery.Parse(q)
		if err != nil {
			fail("%v", err)
		}
		if p, ok := seen[n.String()]; ok {
			fail("%s and %s are both %s", p, q, n)
		}
		seen[n.String()] = q
	}
}
'''))

seed("gorm-second-relation", "C12", [("gormq/miniquery.go", '''			if _, ok := joined[s]; !ok {
				db = db.Joins(s)
			}
''', '''			if len(joined) == 0 {
				db = db.Joins(s)
			}
''')], "conditions on two relations in one filter", "the second relation is not joined and the statement fails",
prog(GI, '''
type Company struct {
	ID    int
	Title string
}

type Item struct {
	ID       int
	SellerID *int
	Seller   *Company
	BuyerID  *int
	Buyer    *Company
}

func main() {
	db, err := gorm.Open(sqlite.Open("file::memory:"), &gorm.Config{Logger: logger.Discard})
	if err != nil {
		fail("%v", err)
	}
	if err := db.AutoMigrate(&Company{}, &Item{}); err != nil {
		fail("%v", err)
	}
	one, two := 1, 2
	db.Create(&[]Company{{ID: 1, Title: "a"}, {ID: 2, Title: "b"}})
	db.Create(&[]Item{{ID: 1, SellerID: &one, BuyerID: &two}, {ID: 2, SellerID: &one}, {ID: 3, SellerID: &two, BuyerID: &two}})
	for q, want := range map[string]string{"Seller.title = 'a'": "[1 2]", "Buyer.title = 'b'": "[1 3]", "Seller.title = 'a' and Buyer.title = 'b'": "[1]"} {
		var l []int
		if err := db.Model(&Item{}).Scopes(gormq.ApplyMiniQuery(q)).Order("items.id").Pluck("items.id", &l).Error; err != nil {
			fail("%s: %v", q, err)
		}
		if got := fmt.Sprint(l); got != want {
			fail("%s: got %s, want %s", q, got, want)
		}
	}
}
'''))
