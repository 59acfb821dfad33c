// Package oracle translates a query to SQL a second time, independently of the
// code under test: every operation in its own parentheses, literals inlined,
// names resolved by the harness.
package oracle

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"mqverif/ref"
)

// Resolver maps names of a query to SQL expressions.
type Resolver struct {
	Ident func(name string) string
	Path  func(names []string) string
	Fn    func(n *ref.N) (string, bool)
	// NotBetweenConj writes "not between" as the conjunction of the two outer
	// comparisons if it says so for the left side, the recorded finding about
	// the ent translations.
	NotBetweenConj func(left *ref.N) bool
}

// Quote writes a string literal.
func Quote(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

// Literal writes a scalar.
func Literal(n *ref.N) string {
	switch n.K {
	case ref.Int:
		return strconv.Itoa(n.I)
	case ref.Bool:
		if n.B {
			return "1"
		}
		return "0"
	case ref.Str:
		return Quote(n.S)
	case ref.Null:
		return "NULL"
	}
	panic(fmt.Sprintf("no literal: %s", ref.Dump(n)))
}

var cmp = map[string]string{"gte": ">=", "gt": ">", "lt": "<", "lte": "<=", "eq": "=", "neq": "<>", "like": "LIKE"}

// Limit tells whether the database cannot run a statement because of its
// size. How many parentheses a statement has is not part of any promise.
func Limit(err error) bool {
	return err != nil && (strings.Contains(err.Error(), "parser stack overflow") || strings.Contains(err.Error(), "Expression tree is too large"))
}

// SQL writes the condition.
func (r *Resolver) SQL(n *ref.N) string {
	kid := func(i int) string { return r.SQL(n.Kids[i]) }
	switch n.K {
	case ref.Int, ref.Bool, ref.Str, ref.Null:
		return Literal(n)
	case ref.Ident:
		return r.Ident(n.Name)
	case ref.Path:
		return r.Path(n.Names)
	case ref.Paren:
		return kid(0)
	case ref.Not:
		return "(NOT " + kid(0) + ")"
	case ref.Logic:
		// a chain of one operator in one pair, for the parser of SQLite
		first, rest := n, ""
		for first.K == ref.Logic && first.Op == n.Op {
			rest = " " + strings.ToUpper(n.Op) + " " + r.SQL(first.Kids[1]) + rest
			first = first.Kids[0]
		}
		return "(" + r.SQL(first) + rest + ")"
	case ref.Cmp:
		switch n.Op {
		case "in", "not in":
			var l []string
			for _, k := range n.Kids[1].Kids {
				l = append(l, Literal(k))
			}
			s := "(" + kid(0) + " IN (" + strings.Join(l, ",") + "))"
			if n.Op == "not in" {
				s = "(NOT " + s + ")"
			}
			return s
		case "not like":
			return "(NOT (" + kid(0) + " LIKE " + kid(1) + "))"
		}
		return "(" + kid(0) + " " + cmp[n.Op] + " " + kid(1) + ")"
	case ref.Between:
		x, lo, hi := kid(0), kid(1), kid(2)
		if n.Op == "between" {
			return "((" + x + " >= " + lo + ") AND (" + x + " <= " + hi + "))"
		}
		if r.NotBetweenConj != nil && r.NotBetweenConj(n.Kids[0]) {
			return "((" + x + " < " + lo + ") AND (" + x + " > " + hi + "))"
		}
		return "((" + x + " < " + lo + ") OR (" + x + " > " + hi + "))"
	case ref.Pred:
		return "(" + kid(0) + " " + strings.ToUpper(n.Op) + ")"
	case ref.Fn:
		if r.Fn != nil {
			if s, ok := r.Fn(n); ok {
				return s
			}
		}
		var a []string
		for i := range n.Kids {
			a = append(a, kid(i))
		}
		return n.Name + "(" + strings.Join(a, ", ") + ")"
	}
	panic("no SQL for " + ref.Dump(n))
}

// Literals lists the scalar values of a query in source order.
func Literals(n *ref.N) []any {
	var out []any
	n.Walk(func(m *ref.N) {
		switch m.K {
		case ref.Int:
			out = append(out, m.I)
		case ref.Bool:
			out = append(out, m.B)
		case ref.Str:
			out = append(out, m.S)
		case ref.Null:
			out = append(out, nil)
		}
	})
	return out
}

// SortedKeys lists the keys of a set in order.
func SortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
