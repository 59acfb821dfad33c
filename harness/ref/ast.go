// Package ref is the reference for the query language: its own tree type, a
// direct interpreter of its own copy of the grammar, and a strict reading of
// the trees the code under test returns.
package ref

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"
)

// Kind of a reference node.
type Kind int

const (
	Int Kind = iota
	Bool
	Str
	Null
	Arr
	Ident
	Path
	Logic
	Cmp
	Not
	Paren
	Between
	Pred
	Fn
)

// N is a reference node. Kids are in source order.
type N struct {
	K     Kind
	Op    string
	Name  string
	Names []string
	I     int
	B     bool
	S     string
	Kids  []*N
}

// IsValue tells literals and lists.
func (n *N) IsValue() bool { return n.K <= Arr }

// Walk visits n and everything below in source order.
func (n *N) Walk(f func(*N)) {
	f(n)
	for _, k := range n.Kids {
		k.Walk(f)
	}
}

// Any tells whether a node below satisfies f.
func (n *N) Any(f func(*N) bool) bool {
	found := false
	n.Walk(func(m *N) {
		if f(m) {
			found = true
		}
	})
	return found
}

// Size counts nodes.
func (n *N) Size() int {
	c := 0
	n.Walk(func(*N) { c++ })
	return c
}

// Clone copies the tree.
func (n *N) Clone() *N {
	m := *n
	m.Kids = make([]*N, len(n.Kids))
	for i, k := range n.Kids {
		m.Kids[i] = k.Clone()
	}
	return &m
}

// Dump writes the canonical form.
func Dump(n *N) string {
	var b strings.Builder
	dump(&b, n)
	return b.String()
}

func dump(b *strings.Builder, n *N) {
	kids := func() {
		for _, k := range n.Kids {
			b.WriteByte(' ')
			dump(b, k)
		}
		b.WriteByte(')')
	}
	switch n.K {
	case Int:
		b.WriteString("i:" + strconv.Itoa(n.I))
	case Bool:
		b.WriteString("b:" + strconv.FormatBool(n.B))
	case Str:
		b.WriteString("s:" + strconv.Quote(n.S))
	case Null:
		b.WriteString("null")
	case Arr:
		b.WriteString("(list")
		kids()
	case Ident:
		b.WriteString("id:" + n.Name)
	case Path:
		b.WriteString("path:" + strings.Join(n.Names, "."))
	case Logic:
		b.WriteString("(logic <" + n.Op + ">")
		kids()
	case Cmp:
		b.WriteString("(cmp <" + n.Op + ">")
		kids()
	case Not:
		b.WriteString("(not")
		kids()
	case Paren:
		b.WriteString("(par")
		kids()
	case Between:
		b.WriteString("(between <" + n.Op + ">")
		kids()
	case Pred:
		b.WriteString("(pred <" + n.Op + ">")
		kids()
	case Fn:
		b.WriteString("(fn " + n.Name)
		kids()
	}
}

var (
	logicOps   = set("and", "or")
	compareOps = set("gte", "gt", "eq", "neq", "lt", "lte", "like", "not like", "in", "not in")
	betweenOps = set("between", "not between")
	predOps    = set("is null", "is not null", "is true", "is not true", "is false", "is not false")
)

func set(s ...string) map[string]bool {
	m := map[string]bool{}
	for _, v := range s {
		m[v] = true
	}
	return m
}

// FromNode reads a tree of the code under test. It fails when a node is of an
// unknown kind, lacks a part its kind requires, or is shared or cyclic.
func FromNode(n *miniquery.Node) (*N, error) {
	return fromNode(n, map[*miniquery.Node]bool{})
}

func fromNode(n *miniquery.Node, seen map[*miniquery.Node]bool) (*N, error) {
	if n == nil {
		return nil, fmt.Errorf("missing node")
	}
	if seen[n] {
		return nil, fmt.Errorf("shared %s node", n.Type)
	}
	seen[n] = true
	kids := func(r *N, ns ...*miniquery.Node) (*N, error) {
		for i, k := range ns {
			m, err := fromNode(k, seen)
			if err != nil {
				return nil, fmt.Errorf("%s part %d: %w", n.Type, i, err)
			}
			r.Kids = append(r.Kids, m)
		}
		return r, nil
	}
	op := func(allowed map[string]bool) (string, error) {
		o := n.Op
		if o == nil {
			return "", fmt.Errorf("%s without operation", n.Type)
		}
		if seen[o] {
			return "", fmt.Errorf("shared operation node")
		}
		seen[o] = true
		if o.Type != miniquery.OperationNodeType {
			return "", fmt.Errorf("%s with operation of type %q", n.Type, o.Type)
		}
		if !allowed[string(o.Operation)] {
			return "", fmt.Errorf("%s with operation %q", n.Type, o.Operation)
		}
		return string(o.Operation), nil
	}
	switch n.Type {
	case miniquery.ValueNodeType:
		switch n.ValueType {
		case miniquery.IntValueType:
			return &N{K: Int, I: n.Int}, nil
		case miniquery.BooleanValueType:
			return &N{K: Bool, B: n.Bool}, nil
		case miniquery.StringValueType:
			return &N{K: Str, S: n.Str}, nil
		case miniquery.NullValueType:
			return &N{K: Null}, nil
		case miniquery.ArrayValueType:
			r, err := kids(&N{K: Arr}, n.Array...)
			if err != nil {
				return nil, err
			}
			for _, k := range r.Kids {
				if !k.IsValue() {
					return nil, fmt.Errorf("list with an element that is no value")
				}
			}
			return r, nil
		}
		return nil, fmt.Errorf("value of type %q", n.ValueType)
	case miniquery.IdentifierNodeType:
		if n.Name == "" {
			return nil, fmt.Errorf("identifier without name")
		}
		return &N{K: Ident, Name: n.Name}, nil
	case miniquery.ReferenceNodeType:
		if len(n.Names) < 2 {
			return nil, fmt.Errorf("reference with %d names", len(n.Names))
		}
		for _, s := range n.Names {
			if s == "" {
				return nil, fmt.Errorf("reference with an empty name")
			}
		}
		return &N{K: Path, Names: append([]string{}, n.Names...)}, nil
	case miniquery.LogicExpressionType:
		o, err := op(logicOps)
		if err != nil {
			return nil, err
		}
		return kids(&N{K: Logic, Op: o}, n.Left, n.Right)
	case miniquery.CompareExpressionType:
		o, err := op(compareOps)
		if err != nil {
			return nil, err
		}
		return kids(&N{K: Cmp, Op: o}, n.Left, n.Right)
	case miniquery.NotExpressionType:
		return kids(&N{K: Not}, n.Expression)
	case miniquery.ParenthesesExpressionType:
		return kids(&N{K: Paren}, n.Expression)
	case miniquery.BetweenExpressionType:
		o, err := op(betweenOps)
		if err != nil {
			return nil, err
		}
		if len(n.Params) != 2 {
			return nil, fmt.Errorf("between with %d bounds", len(n.Params))
		}
		return kids(&N{K: Between, Op: o}, n.Left, n.Params[0], n.Params[1])
	case miniquery.PredicatesExpressionType:
		o, err := op(predOps)
		if err != nil {
			return nil, err
		}
		return kids(&N{K: Pred, Op: o}, n.Left)
	case miniquery.FunctionExpressionType:
		if n.Name == "" {
			return nil, fmt.Errorf("function without name")
		}
		return kids(&N{K: Fn, Name: n.Name}, n.Params...)
	}
	return nil, fmt.Errorf("node of type %q", n.Type)
}

// Equal compares canonical forms.
func Equal(a, b *N) bool { return Dump(a) == Dump(b) }
