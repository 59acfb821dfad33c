// Package gormdb holds the monitors of the gorm filter.
package gormdb

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"time"

	"github.com/glebarez/sqlite"
	"gorm.io/gorm"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/schema"

	"mqverif/gen"
	"mqverif/oracle"
	"mqverif/ref"
)

// Item is the plain model.
type Item struct {
	ID        uint
	Name      *string
	Remark    *string `gorm:"column:note"`
	Qty       *int64
	UnitPrice *int64
	Active    *bool
	SoldAt    *time.Time
	DueAt     *time.Time
	Mark      int
}

// Doc is like Item, with soft delete.
type Doc struct {
	ID        uint
	Name      *string
	Remark    *string `gorm:"column:note"`
	Qty       *int64
	UnitPrice *int64
	Active    *bool
	SoldAt    *time.Time
	DueAt     *time.Time
	Mark      int
	DeletedAt gorm.DeletedAt
}

// Company has a relation to itself.
type Company struct {
	ID       uint
	Name     *string
	Qty      *int64
	Active   *bool
	SoldAt   *time.Time
	ParentID *uint
	Parent   *Company
}

// Owner can be soft deleted. Fields of the same name as in Pet have other columns.
type Owner struct {
	ID        uint
	Name      *string
	Size      *int64 `gorm:"column:weight"`
	Weight    *int64 `gorm:"column:height"`
	Age       *int64 `gorm:"column:years"`
	Qty       *int64
	Active    *bool
	SoldAt    *time.Time
	CompanyID *uint
	Company   *Company
	DeletedAt gorm.DeletedAt
}

// Chip belongs to one pet.
type Chip struct {
	ID     uint
	Name   *string
	Qty    *int64
	Active *bool
	SoldAt *time.Time
	PetID  *uint
}

// Toy belongs to one pet, a pet has many.
type Toy struct {
	ID    uint
	Name  *string
	Qty   *int64
	PetID *uint
}

// Label belongs to a record of any kind.
type Label struct {
	ID         uint
	Name       *string
	Qty        *int64
	Active     *bool
	SoldAt     *time.Time
	HolderID   *uint
	HolderType string
}

// TableName is not the default one.
func (Label) TableName() string { return "sticky_labels" }

// Vet is referred to by a column that is not its key.
type Vet struct {
	ID     uint
	Code   *int64 `gorm:"column:vet_no"`
	Name   *string
	Qty    *int64
	Active *bool
	SoldAt *time.Time
}

// Box has a key of two columns.
type Box struct {
	Row    int64 `gorm:"primaryKey;autoIncrement:false"`
	Col    int64 `gorm:"primaryKey;autoIncrement:false"`
	Name   *string
	Qty    *int64
	Active *bool
	SoldAt *time.Time
}

// Kept brings a relation into the model that embeds it.
type Kept struct {
	KeeperID *uint
	Keeper   *Owner
}

// Pet has every kind of relation. Column names are shared with the relations.
type Pet struct {
	ID       uint
	Name     *string
	Qty      *int64
	Active   *bool
	SoldAt   *time.Time
	OwnerID  *uint
	Owner    *Owner
	BossID   *uint
	Boss     *Owner
	ShopID   *uint
	Shop     *Company
	ParentID *uint
	Parent   *Pet
	Chip     *Chip
	Size     *int64 `gorm:"column:height"`
	Height   *int64 `gorm:"column:size"`
	Label    *Label `gorm:"polymorphic:Holder"`
	VetCode  *int64
	Vet      *Vet `gorm:"foreignKey:VetCode;references:Code"`
	BoxRow   *int64
	BoxCol   *int64
	Box      Box `gorm:"foreignKey:BoxRow,BoxCol;references:Row,Col"`
	Kept
	Toys    []Toy
	Friends []Pet `gorm:"many2many:pet_friends"`
}

// stmt is one statement that reached the connection.
type stmt struct {
	sql  string
	args []any
}

// recorder sits between gorm and the database.
type recorder struct {
	db    *sql.DB
	stmts []stmt
	begun int
}

func (r *recorder) note(q string, args []any) {
	r.stmts = append(r.stmts, stmt{q, append([]any{}, args...)})
}

func (r *recorder) reset() { r.stmts, r.begun = nil, 0 }

func (r *recorder) PrepareContext(ctx context.Context, q string) (*sql.Stmt, error) {
	r.note("PREPARE "+q, nil)
	return r.db.PrepareContext(ctx, q)
}

func (r *recorder) ExecContext(ctx context.Context, q string, a ...any) (sql.Result, error) {
	r.note(q, a)
	return r.db.ExecContext(ctx, q, a...)
}

func (r *recorder) QueryContext(ctx context.Context, q string, a ...any) (*sql.Rows, error) {
	r.note(q, a)
	return r.db.QueryContext(ctx, q, a...)
}

func (r *recorder) QueryRowContext(ctx context.Context, q string, a ...any) *sql.Row {
	r.note(q, a)
	return r.db.QueryRowContext(ctx, q, a...)
}

func (r *recorder) BeginTx(ctx context.Context, o *sql.TxOptions) (gorm.ConnPool, error) {
	r.begun++
	tx, err := r.db.BeginTx(ctx, o)
	if err != nil {
		return nil, err
	}
	return &recTx{r, tx}, nil
}

func (r *recorder) GetDBConn() (*sql.DB, error) { return r.db, nil }

type recTx struct {
	r  *recorder
	tx *sql.Tx
}

func (t *recTx) PrepareContext(ctx context.Context, q string) (*sql.Stmt, error) {
	t.r.note("PREPARE "+q, nil)
	return t.tx.PrepareContext(ctx, q)
}

func (t *recTx) ExecContext(ctx context.Context, q string, a ...any) (sql.Result, error) {
	t.r.note(q, a)
	return t.tx.ExecContext(ctx, q, a...)
}

func (t *recTx) QueryContext(ctx context.Context, q string, a ...any) (*sql.Rows, error) {
	t.r.note(q, a)
	return t.tx.QueryContext(ctx, q, a...)
}

func (t *recTx) QueryRowContext(ctx context.Context, q string, a ...any) *sql.Row {
	t.r.note(q, a)
	return t.tx.QueryRowContext(ctx, q, a...)
}

func (t *recTx) Commit() error   { return t.tx.Commit() }
func (t *recTx) Rollback() error { return t.tx.Rollback() }

// world is the database of one worker.
type world struct {
	raw *sql.DB
	rec *recorder
	db  *gorm.DB
}

func openWorld(ns schema.Namer) (*world, error) {
	g, err := gorm.Open(sqlite.Open(":memory:"), &gorm.Config{Logger: logger.Discard})
	if err != nil {
		return nil, err
	}
	raw, err := g.DB()
	if err != nil {
		return nil, err
	}
	raw.SetMaxOpenConns(1)
	rec := &recorder{db: raw}
	db, err := gorm.Open(&sqlite.Dialector{Conn: rec}, &gorm.Config{
		Logger: logger.Discard, NamingStrategy: ns, DisableForeignKeyConstraintWhenMigrating: true,
	})
	if err != nil {
		return nil, err
	}
	return &world{raw: raw, rec: rec, db: db}, nil
}

func (w *world) exec(q string) error {
	if _, err := w.raw.Exec(q); err != nil {
		return fmt.Errorf("%s: %w", q, err)
	}
	return nil
}

// seedRows fills the tables.
func (w *world) seedRows(r *rand.Rand) error {
	if err := w.db.AutoMigrate(&Item{}, &Doc{}, &Company{}, &Owner{}, &Chip{}, &Toy{}, &Label{}, &Vet{}, &Box{}, &Pet{}); err != nil {
		return err
	}
	null := func(s string) string {
		if r.IntN(6) == 0 {
			return "NULL"
		}
		return s
	}
	num := func() string { return null(fmt.Sprint(gen.Pick(r, gen.Ints()))) }
	txt := func() string { return null(oracle.Quote(gen.Pick(r, gen.Texts()))) }
	flag := func() string { return null(fmt.Sprint(r.IntN(2))) }
	at := func() string { return null(oracle.Quote(gen.Pick(r, gen.Stamps()))) }
	id := func(n int) string { return null(fmt.Sprint(1 + r.IntN(n))) }
	for _, t := range []string{"items", "docs"} {
		for i := 1; i <= 70; i++ {
			extra, val := "", ""
			if t == "docs" {
				extra, val = ", deleted_at", ", "+map[bool]string{true: "'2021-01-01 00:00:00'", false: "NULL"}[r.IntN(4) == 0]
			}
			if err := w.exec(fmt.Sprintf("INSERT INTO %s (id, name, note, qty, unit_price, active, sold_at, due_at, mark%s) VALUES (%d,%s,%s,%s,%s,%s,%s,%s,0%s)",
				t, extra, i, txt(), txt(), num(), num(), flag(), at(), at(), val)); err != nil {
				return err
			}
		}
	}
	for i := 1; i <= 12; i++ {
		if err := w.exec(fmt.Sprintf("INSERT INTO companies (id, name, qty, active, sold_at, parent_id) VALUES (%d,%s,%s,%s,%s,%s)", i, txt(), num(), flag(), at(), id(13))); err != nil {
			return err
		}
	}
	for i := 1; i <= 16; i++ {
		del := "NULL"
		if r.IntN(4) == 0 {
			del = "'2021-01-01 00:00:00'"
		}
		if err := w.exec(fmt.Sprintf("INSERT INTO owners (id, name, years, weight, height, qty, active, sold_at, company_id, deleted_at) VALUES (%d,%s,%s,%s,%s,%s,%s,%s,%s,%s)", i, txt(), num(), num(), num(), num(), flag(), at(), id(13), del)); err != nil {
			return err
		}
	}
	for i := 1; i <= 8; i++ {
		if err := w.exec(fmt.Sprintf("INSERT INTO vets (id, vet_no, name, qty, active, sold_at) VALUES (%d,%d,%s,%s,%s,%s)", i, 9-i, txt(), num(), flag(), at())); err != nil {
			return err
		}
	}
	for i := 0; i < 16; i++ {
		if i == 6 {
			continue
		}
		if err := w.exec(fmt.Sprintf("INSERT INTO boxes (`row`, col, name, qty, active, sold_at) VALUES (%d,%d,%s,%s,%s,%s)", i/4, i%4, txt(), num(), flag(), at())); err != nil {
			return err
		}
	}
	for i := 1; i <= 50; i++ {
		if err := w.exec(fmt.Sprintf("INSERT INTO pets (id, name, qty, active, sold_at, owner_id, boss_id, shop_id, parent_id, height, size, vet_code, keeper_id, box_row, box_col) VALUES (%d,%s,%s,%s,%s,%s,%s,%s,%s,%s,%s,%s,%s,%s,%s)", i, txt(), num(), flag(), at(), id(18), id(18), id(13), id(55), num(), num(), id(9), id(18), id(3), id(3))); err != nil {
			return err
		}
		for _, holder := range []string{"pets", "owners", "pet"} {
			if r.IntN(3) != 0 {
				if err := w.exec(fmt.Sprintf("INSERT INTO sticky_labels (name, qty, active, sold_at, holder_id, holder_type) VALUES (%s,%s,%s,%s,%d,'%s')", txt(), num(), flag(), at(), i, holder)); err != nil {
					return err
				}
			}
		}
		if r.IntN(3) != 0 {
			if err := w.exec(fmt.Sprintf("INSERT INTO chips (id, name, qty, active, sold_at, pet_id) VALUES (%d,%s,%s,%s,%s,%d)", 100-i, txt(), num(), flag(), at(), i)); err != nil {
				return err
			}
		}
	}
	return nil
}

// special gives one row of each table values of its own, some of which the
// condition has too.
func (w *world) special(r *rand.Rand, cond *ref.N, tables ...string) {
	s, i := gen.Special(r, cond)
	for _, t := range tables {
		if _, err := w.raw.Exec("UPDATE "+t+" SET name = ?, qty = ? WHERE id = 7", s, i); err != nil {
			panic(err)
		}
	}
}

// ids runs an oracle statement.
func (w *world) ids(q string) ([]int, error) {
	rows, err := w.raw.Query(q)
	if err != nil {
		return nil, fmt.Errorf("%s: %w", q, err)
	}
	defer func() { _ = rows.Close() }()
	out := []int{}
	for rows.Next() {
		var i int
		if err := rows.Scan(&i); err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, rows.Err()
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// spec describes the columns of a model for the harness.
type spec struct {
	table string
	cols  []specCol
}

type specCol struct {
	column, field string
	class         gen.Class
}

var itemSpec = &spec{table: "items", cols: []specCol{
	{"id", "ID", gen.ClassInt}, {"name", "Name", gen.ClassText}, {"note", "Remark", gen.ClassText}, {"qty", "Qty", gen.ClassInt},
	{"unit_price", "UnitPrice", gen.ClassInt}, {"active", "Active", gen.ClassBool}, {"sold_at", "SoldAt", gen.ClassTime}, {"due_at", "DueAt", gen.ClassTime},
}}

var docSpec = &spec{table: "docs", cols: append([]specCol{{"deleted_at", "DeletedAt", gen.ClassTime}}, itemSpec.cols...)}

var petSpec = &spec{table: "pets", cols: []specCol{
	{"id", "ID", gen.ClassInt}, {"name", "Name", gen.ClassText}, {"qty", "Qty", gen.ClassInt}, {"active", "Active", gen.ClassBool},
	{"sold_at", "SoldAt", gen.ClassTime}, {"owner_id", "OwnerID", gen.ClassInt}, {"parent_id", "ParentID", gen.ClassInt},
	{"height", "Size", gen.ClassInt}, {"size", "Height", gen.ClassInt},
}}

// spell picks a way to write the column.
func (s specCol) spell(r *rand.Rand) string {
	switch r.IntN(4) {
	case 0, 1:
		return s.column
	case 2:
		return s.field
	}
	b := []byte(s.field)
	for i, c := range b {
		if r.IntN(2) == 0 && (c|32 >= 'a' && c|32 <= 'z') {
			b[i] = c ^ 32
		}
	}
	return string(b)
}

// resolve is the harness's own reading of a name.
func (s *spec) resolve(name string) string {
	for _, c := range s.cols {
		if c.column == name {
			return c.column
		}
	}
	for _, c := range s.cols {
		if c.field == name {
			return c.column
		}
	}
	for _, c := range s.cols {
		if strings.EqualFold(c.field, name) {
			return c.column
		}
	}
	panic("harness: no column for " + name)
}

func (s *spec) columns(r *rand.Rand) []gen.Col {
	var out []gen.Col
	for _, c := range s.cols {
		out = append(out, gen.Col{Names: []string{c.spell(r)}, Class: c.class}, gen.Col{Names: []string{c.spell(r)}, Class: c.class})
	}
	return out
}

// typed makes a generator for conditions on the model.
func (s *spec) typed(r *rand.Rand, budget int) *gen.Typed {
	return &gen.Typed{
		R: r, Cols: s.columns(r), Budget: budget,
		Date: true, DateMulti: true, IsBool: true, IsNull: true, Like: true, Bare: true, NullLit: true,
	}
}

func (s *spec) resolver(alias string) *oracle.Resolver {
	return &oracle.Resolver{Ident: func(n string) string { return alias + "." + s.resolve(n) }}
}

func sortedCopy(a []int) []int {
	b := append([]int{}, a...)
	sort.Ints(b)
	return b
}

var errRollback = errors.New("rollback")
