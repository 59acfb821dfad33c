package lang

import (
	"context"
	"errors"
	"fmt"

	"github.com/wenerme/go-miniquery/miniquery"

	"mqverif/core"
	"mqverif/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C07", Quick: 700_000, Thorough: 4_000_000,
		Run:         runC07,
		Rule:        "one random tree walked with: default handlers plus recording leaf handlers, a random subset of composite handlers that record and descend, one that records and does not descend, handlers that record and go on with the default one they replace, and a handler failing at a random position; the call sequence is compared with the harness's own walk; distinct by tree and handler set",
		MinDistinct: 30_000,
		MinTags:     append([]string{"failed walk", "cut subtree", "descending handler", "wrapped handler", "wrapped list", "cancelled"}, allTags...),
	})
}

type ctxKey struct{}

// parts lists the direct parts of a node in source order.
func parts(n *miniquery.Node) []*miniquery.Node {
	switch n.Type {
	case miniquery.LogicExpressionType, miniquery.CompareExpressionType:
		return []*miniquery.Node{n.Left, n.Op, n.Right}
	case miniquery.PredicatesExpressionType:
		return []*miniquery.Node{n.Left, n.Op}
	case miniquery.BetweenExpressionType:
		return append([]*miniquery.Node{n.Left, n.Op}, n.Params...)
	case miniquery.NotExpressionType, miniquery.ParenthesesExpressionType:
		return []*miniquery.Node{n.Expression}
	case miniquery.FunctionExpressionType:
		return n.Params
	case miniquery.ValueNodeType:
		if n.ValueType == miniquery.ArrayValueType {
			return n.Array
		}
	}
	return nil
}

var kinds = []miniquery.NodeType{
	miniquery.ValueNodeType, miniquery.OperationNodeType, miniquery.IdentifierNodeType, miniquery.ReferenceNodeType,
	miniquery.PredicatesExpressionType, miniquery.CompareExpressionType, miniquery.LogicExpressionType, miniquery.ParenthesesExpressionType,
	miniquery.NotExpressionType, miniquery.BetweenExpressionType, miniquery.FunctionExpressionType,
}

func setHandler(v *miniquery.Visitor, k miniquery.NodeType, f miniquery.VisitFunc) {
	switch k {
	case miniquery.ValueNodeType:
		v.ValueNode = f
	case miniquery.OperationNodeType:
		v.OperationNode = f
	case miniquery.IdentifierNodeType:
		v.IdentifierNode = f
	case miniquery.ReferenceNodeType:
		v.ReferenceNode = f
	case miniquery.PredicatesExpressionType:
		v.PredicatesExpression = f
	case miniquery.CompareExpressionType:
		v.BinaryExpression = f
	case miniquery.LogicExpressionType:
		v.LogicExpression = f
	case miniquery.ParenthesesExpressionType:
		v.ParenthesesExpression = f
	case miniquery.NotExpressionType:
		v.NotExpression = f
	case miniquery.BetweenExpressionType:
		v.BetweenExpression = f
	case miniquery.FunctionExpressionType:
		v.FunctionExpression = f
	}
}

func handler(v *miniquery.Visitor, k miniquery.NodeType) miniquery.VisitFunc {
	switch k {
	case miniquery.ValueNodeType:
		return v.ValueNode
	case miniquery.OperationNodeType:
		return v.OperationNode
	case miniquery.IdentifierNodeType:
		return v.IdentifierNode
	case miniquery.ReferenceNodeType:
		return v.ReferenceNode
	case miniquery.PredicatesExpressionType:
		return v.PredicatesExpression
	case miniquery.CompareExpressionType:
		return v.BinaryExpression
	case miniquery.LogicExpressionType:
		return v.LogicExpression
	case miniquery.ParenthesesExpressionType:
		return v.ParenthesesExpression
	case miniquery.NotExpressionType:
		return v.NotExpression
	case miniquery.BetweenExpressionType:
		return v.BetweenExpression
	case miniquery.FunctionExpressionType:
		return v.FunctionExpression
	}
	return nil
}

func runC07(c *core.C) {
	r := c.R
	text, want := validText(r, 4+r.IntN(50), anyStyle(r))
	node, _, err, ok := observe(c, text)
	if !ok || err != nil {
		return
	}
	// which handlers are overridden, and whether they descend
	mode := map[miniquery.NodeType]int{} // 1 descend, 2 cut, 3 record and leave the rest to the default handler
	set := ""
	defaults := &miniquery.Visitor{}
	wrap := r.IntN(3) == 0
	if wrap && !c.Guard("prepare a visitor", defaults.Init) {
		return
	}
	for _, k := range kinds {
		switch r.IntN(5) {
		case 0, 1:
			mode[k] = 1
			if wrap && handler(defaults, k) != nil {
				mode[k] = 3
				c.Tag("wrapped handler")
			} else {
				c.Tag("descending handler")
			}
		case 2:
			if r.IntN(3) == 0 {
				mode[k] = 2
			}
		}
		set += fmt.Sprint(mode[k])
	}
	if len(mode) == 0 {
		mode[miniquery.ValueNodeType] = 1
	}
	type call struct {
		kind miniquery.NodeType
		node *miniquery.Node
	}
	// the harness's own walk
	var expect []call
	var walk func(n *miniquery.Node)
	walk = func(n *miniquery.Node) {
		m := mode[n.Type]
		if m != 0 {
			expect = append(expect, call{n.Type, n})
		}
		if m == 2 {
			if len(parts(n)) > 0 {
				c.Tag("cut subtree")
			}
			return
		}
		if m == 3 && len(n.Array) > 1 {
			c.Tag("wrapped list")
		}
		for _, p := range parts(n) {
			walk(p)
		}
	}
	walk(node)

	failAt := -1
	if len(expect) > 0 && r.IntN(2) == 0 {
		failAt = r.IntN(len(expect))
	}
	boom := errors.New("boom")
	var got []call
	v := &miniquery.Visitor{}
	badCtx := false
	record := func(k miniquery.NodeType, m int, next miniquery.VisitFunc) {
		setHandler(v, k, func(ctx context.Context, n *miniquery.Node) error {
			if ctx.Value(ctxKey{}) != c {
				badCtx = true
			}
			got = append(got, call{k, n})
			if failAt == len(got)-1 {
				return boom
			}
			if m == 2 {
				return nil
			}
			if m == 3 {
				return next(ctx, n)
			}
			for _, p := range parts(n) {
				if err := v.Visit(ctx, p); err != nil {
					return err
				}
			}
			return nil
		})
	}
	for k, m := range mode {
		if m == 1 || m == 2 {
			record(k, m, nil)
		}
	}
	ctx := context.WithValue(context.Background(), ctxKey{}, c)
	if r.IntN(8) == 0 {
		// a walk may refuse to go on, but not end early as if it were complete
		var cancel context.CancelFunc
		ctx, cancel = context.WithCancel(ctx)
		cancel()
		c.Tag("cancelled")
	}
	var verr error
	c.Eval(1)
	if !c.Guard("walk "+quote(text), func() {
		v.Init()
		for k, m := range mode {
			if m == 3 {
				record(k, m, handler(v, k))
			}
		}
		verr = v.Visit(ctx, node)
	}) {
		return
	}
	if ctx.Err() != nil && errors.Is(verr, ctx.Err()) {
		return
	}
	if failAt >= 0 {
		expect = expect[:failAt+1]
		c.Tag("failed walk")
		if !errors.Is(verr, boom) {
			c.Fail("walk loses the error", "text %s\ngot error %v", quote(text), verr)
		}
	} else if verr != nil {
		c.Fail("walk fails", "text %s\nerror %v", quote(text), verr)
	}
	if badCtx {
		c.Fail("walk passes another context", "text %s", quote(text))
	}
	same := len(got) == len(expect)
	for i := 0; same && i < len(got); i++ {
		same = got[i] == expect[i]
	}
	if !same {
		show := func(s []call) (o []string) {
			for _, x := range s {
				o = append(o, fmt.Sprintf("%s:%s", x.kind, x.node.Type))
			}
			return
		}
		c.Fail("wrong visits", "text %s handlers %s failAt %d\ngot  %v\nwant %v", quote(text), set, failAt, show(got), show(expect))
	}
	tagTree(c, want)
	if len(expect) > 1 {
		c.Distinct(ref.Dump(want) + set)
	}
	c.Sample("%s: %d calls, handlers %s, failing at %d", quote(text), len(got), set, failAt)
}
