package expr

import (
	"github.com/viant/velty/ast"
	"github.com/viant/velty/internal/vspec"
)

// Tokens of every precedence, of the logical operators to the multiplicative ones
var vcTokens = []ast.Token{ast.OR, ast.AND, ast.LSS, ast.ADD, ast.MUL}
var vcTokens2 = []ast.Token{ast.OR, ast.AND, ast.EQ, ast.SUB, ast.QUO}

func vcLevel(t ast.Token) int {
	switch t {
	case ast.MUL, ast.QUO:
		return 5
	case ast.ADD, ast.SUB:
		return 4
	case ast.AND:
		return 2
	case ast.OR:
		return 1
	}
	return 3
}

// vcFlat appends the operands and operators of a grouped expression in order
func vcFlat(e ast.Expression, xs []ast.Expression, ts []ast.Token) ([]ast.Expression, []ast.Token) {
	if p, ok := e.(*Parentheses); ok {
		e = p.P
	}
	b, ok := e.(*Binary)
	if !ok {
		return append(xs, e), ts
	}
	xs, ts = vcFlat(b.X, xs, ts)
	ts = append(ts, b.Token)
	return vcFlat(b.Y, xs, ts)
}

func vcRoot(e ast.Expression) (ast.Token, *Binary) {
	if p, ok := e.(*Parentheses); ok {
		e = p.P
	}
	if b, ok := e.(*Binary); ok {
		return b.Token, b
	}
	return "", nil
}

// vcGrouped says that every operator binds what binds tighter, and what is on its left and binds as tight
func vcGrouped(e ast.Expression) bool {
	t, b := vcRoot(e)
	if b == nil {
		return true
	}
	if l, x := vcRoot(b.X); x != nil && vcLevel(l) < vcLevel(t) {
		return false
	}
	if r, y := vcRoot(b.Y); y != nil && vcLevel(r) <= vcLevel(t) {
		return false
	}
	return vcGrouped(b.X) && vcGrouped(b.Y)
}

func vcGroup(n int) {
	var xs []ast.Expression
	var ts []ast.Token
	for i := 0; i < n; i++ {
		xs = append(xs, &Literal{Value: string([]byte{'a' + byte(i)})})
		k := vspec.Pick(len(vcTokens))
		if i%2 == 0 {
			ts = append(ts, vcTokens[k])
		} else {
			ts = append(ts, vcTokens2[k])
		}
	}
	var e ast.Expression = &Literal{Value: "z"}
	xs = append(xs, e)
	for i := n - 1; i >= 0; i-- {
		e = BinaryExpression(xs[i], ts[i], e)
	}
	chain := e.(*Binary)
	g := chain.Group()
	gx, gt := vcFlat(g, nil, nil)
	vspec.Assert(len(gx) == len(xs) && len(gt) == len(ts), "no operand or operator is lost or added")
	for i := range xs {
		vspec.Assert(gx[i] == xs[i], "the operands keep their order")
	}
	for i := range ts {
		vspec.Assert(gt[i] == ts[i], "the operators keep their order")
	}
	vspec.Assert(vcGrouped(g), "grouped by precedence, to the left")
	// the chain itself is not changed
	cx, ct := vcFlat(chain, nil, nil)
	for i := range xs {
		vspec.Assert(cx[i] == xs[i], "the expression is not changed")
	}
	for i := range ts {
		vspec.Assert(ct[i] == ts[i], "the expression is not changed")
	}
}

// VC_C03_Group: chains of up to five operators of all precedences
func VC_C03_Group() { vcGroup(1 + vspec.Pick(5)) }
