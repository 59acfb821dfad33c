package ref

import (
	"errors"
	"fmt"
	"math/big"
	"strings"
)

// ErrBudget is returned when the reference gives up; such texts are skipped.
var ErrBudget = errors.New("reference budget exceeded")

// ErrReject is returned for texts outside of the language.
var ErrReject = errors.New("not in the language")

var maxInt = big.NewInt(int64(^uint(0) >> 1))

// Parse is the reference decision for a text.
func Parse(s string) (n *N, err error) {
	m := &matcher{in: []rune(s), limit: 20_000_000}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooMuch); ok {
				n, err = nil, ErrBudget
				return
			}
			panic(r)
		}
	}()
	if m.run(lang["Grammar"], 0) < 0 {
		return nil, ErrReject
	}
	return assemble(m)
}

// item is a stack element: a tree, or an operator.
type item struct {
	n  *N
	op string
}

func assemble(m *matcher) (*N, error) {
	var (
		stack []item
		marks []int
		text  string
	)
	pop := func() item {
		v := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		return v
	}
	push := func(n *N) { stack = append(stack, item{n: n}) }
	popMarked := func() []item {
		k := marks[len(marks)-1]
		marks = marks[:len(marks)-1]
		out := append([]item{}, stack[k:]...)
		stack = stack[:k]
		return out
	}
	for _, e := range m.events {
		switch e.action {
		case "":
			text = string(m.in[e.from:e.to])
		case "mark":
			marks = append(marks, len(stack))
		case "reject":
			return nil, ErrReject
		case "op":
			o, err := canonicalOp(text)
			if err != nil {
				return nil, err
			}
			stack = append(stack, item{op: o})
		case "logic":
			push(logicTree(popMarked()))
		case "not":
			push(&N{K: Not, Kids: []*N{pop().n}})
		case "par":
			push(&N{K: Paren, Kids: []*N{pop().n}})
		case "cmp":
			r, o, l := pop(), pop(), pop()
			push(&N{K: Cmp, Op: o.op, Kids: []*N{l.n, r.n}})
		case "pred":
			o, l := pop(), pop()
			push(&N{K: Pred, Op: o.op, Kids: []*N{l.n}})
		case "between":
			hi, lo, o, l := pop(), pop(), pop(), pop()
			push(&N{K: Between, Op: o.op, Kids: []*N{l.n, lo.n, hi.n}})
		case "list":
			n := &N{K: Arr}
			for _, it := range popMarked() {
				n.Kids = append(n.Kids, it.n)
			}
			push(n)
		case "fn":
			a, f := pop(), pop()
			push(&N{K: Fn, Name: f.n.Name, Kids: a.n.Kids})
		case "path":
			n := &N{K: Path}
			for _, it := range popMarked() {
				n.Names = append(n.Names, it.n.Name)
			}
			push(n)
		case "name":
			push(&N{K: Ident, Name: text})
		case "int":
			v, ok := new(big.Int).SetString(text, 10)
			if !ok {
				return nil, fmt.Errorf("bad integer %q", text)
			}
			if v.Cmp(maxInt) > 0 {
				return nil, ErrReject
			}
			push(&N{K: Int, I: int(v.Int64())})
		case "bool":
			push(&N{K: Bool, B: strings.ToLower(text) == "true"})
		case "null":
			push(&N{K: Null})
		case "str":
			push(&N{K: Str, S: text})
		default:
			panic("unknown action " + e.action)
		}
	}
	if len(stack) != 1 || len(marks) != 0 || stack[0].n == nil {
		panic(fmt.Sprintf("reference ended with %d trees and %d marks", len(stack), len(marks)))
	}
	return stack[0].n, nil
}

// logicTree groups operands: or over and, each from the left.
func logicTree(items []item) *N {
	var ors []*N
	cur := items[0].n
	for i := 1; i < len(items); i += 2 {
		if items[i].op == "or" {
			ors = append(ors, cur)
			cur = items[i+1].n
			continue
		}
		cur = &N{K: Logic, Op: "and", Kids: []*N{cur, items[i+1].n}}
	}
	ors = append(ors, cur)
	n := ors[0]
	for _, o := range ors[1:] {
		n = &N{K: Logic, Op: "or", Kids: []*N{n, o}}
	}
	return n
}

var symbolOps = map[string]string{
	">=": "gte", "<=": "lte", "<>": "neq", "==": "eq", "!=": "neq", ">": "gt", "<": "lt", "=": "eq",
	"&&": "and", "||": "or",
	"isnull": "is null", "notnull": "is not null",
}

// canonicalOp reduces the captured operator text to its words.
func canonicalOp(text string) (string, error) {
	var words []string
	cur := ""
	flush := func() {
		if cur != "" {
			words = append(words, strings.ToLower(cur))
			cur = ""
		}
	}
	r := []rune(text)
	for i := 0; i < len(r); i++ {
		if i+1 < len(r) && (r[i] == '-' && r[i+1] == '-' || r[i] == '/' && r[i+1] == '/') {
			flush()
			for i < len(r) && r[i] != '\n' && r[i] != '\r' {
				i++
			}
			continue
		}
		switch r[i] {
		case ' ', '\t', '\r', '\n':
			flush()
		default:
			cur += string(r[i])
		}
	}
	flush()
	o := strings.Join(words, " ")
	if v, ok := symbolOps[o]; ok {
		o = v
	}
	if !logicOps[o] && !compareOps[o] && !betweenOps[o] && !predOps[o] {
		return "", fmt.Errorf("reference: unknown operator %q", o)
	}
	return o, nil
}
