package expr

import (
	"reflect"
	"unsafe"

	"github.com/viant/velty/ast"
	"github.com/viant/velty/est"
	"github.com/viant/velty/est/op"
	"github.com/viant/velty/internal/vspec"
)

// The contracts of Binary and Unary: whatever computes the operands (nothing but the values they denote is known),
// the computation gives the Go operator of those values in the place of the result and changes nothing else.

type vcCells struct {
	before int
	I      int
	F      float64
	S      string
	B      bool
	after  int
}

var vcTypes = map[string]reflect.Type{"I": reflect.TypeOf(0), "F": reflect.TypeOf(0.0), "S": reflect.TypeOf(""), "B": reflect.TypeOf(true)}

// vcAny is an operand of which nothing is known but its value
func vcAny(rType reflect.Type, ptr unsafe.Pointer) *op.Expression {
	return &op.Expression{Type: rType, New: func(control est.Control) (est.Compute, error) {
		return func(state *est.State) unsafe.Pointer { return ptr }, nil
	}}
}

func (c *vcCells) at(field string) unsafe.Pointer {
	switch field {
	case "I":
		return unsafe.Pointer(&c.I)
	case "F":
		return unsafe.Pointer(&c.F)
	case "S":
		return unsafe.Pointer(&c.S)
	}
	return unsafe.Pointer(&c.B)
}

func vcSame(a, b *vcCells) bool {
	return vspec.And(vspec.And(a.before == b.before, a.after == b.after), vspec.And(vspec.And(a.I == b.I, vspec.SameFloat(a.F, b.F)), vspec.And(a.S == b.S, a.B == b.B)))
}

func vcAnyBinary(token ast.Token, field, result string, check func(z, x, y *vcCells)) {
	var x, y, mem vcCells
	vspec.Fill(&x)
	vspec.Fill(&y)
	vspec.Fill(&mem)
	if token == ast.QUO {
		vspec.Assume(y.I != 0)
	}
	x0, y0, mem0 := x, y, mem
	z := op.NewSelector("z", "z", vcTypes[result], nil)
	aNew, err := Binary(token, vcAny(vcTypes[field], x.at(field)), vcAny(vcTypes[field], y.at(field)), &op.Expression{Selector: z, Type: vcTypes[result]})
	vspec.Assert(err == nil, "the operator is supported")
	compute, err := aNew(0)
	vspec.Assert(err == nil, "the operator is supported")
	st := &est.State{Mem: &mem, MemPtr: mem.at(result)}
	got := compute(st)
	var res vcCells
	switch result {
	case "I":
		res.I = *(*int)(got)
		mem0.I = mem.I
	case "F":
		res.F = *(*float64)(got)
		mem0.F = mem.F
	case "S":
		res.S = *(*string)(got)
		mem0.S = mem.S
	case "B":
		res.B = *(*bool)(got)
		mem0.B = mem.B
	}
	check(&res, &x0, &y0)
	vspec.Assert(vspec.And(vcSame(&x, &x0), vcSame(&y, &y0)), "the operands keep their values")
	vspec.Assert(vcSame(&mem, &mem0), "nothing but the result is written")
	vspec.Assert(len(st.Errors) == 0, "no error")
}

type vcOp struct {
	token         ast.Token
	field, result string
	check         func(z, x, y *vcCells)
}

// VC_C01_AnyOperands is the contract of the binary operators for arbitrary operands
func VC_C01_AnyOperands() {
	ops := []vcOp{
		{ast.ADD, "I", "I", func(z, x, y *vcCells) { vspec.Assert(z.I == x.I+y.I, "int +") }},
		{ast.SUB, "I", "I", func(z, x, y *vcCells) { vspec.Assert(z.I == x.I-y.I, "int -") }},
		{ast.MUL, "I", "I", func(z, x, y *vcCells) { vspec.Assert(z.I == x.I*y.I, "int *") }},
		{ast.QUO, "I", "I", func(z, x, y *vcCells) { vspec.Assert(z.I == x.I/y.I, "int /") }},
		{ast.EQ, "I", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.I == y.I), "int ==") }},
		{ast.NEQ, "I", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.I != y.I), "int !=") }},
		{ast.LSS, "I", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.I < y.I), "int <") }},
		{ast.LEQ, "I", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.I <= y.I), "int <=") }},
		{ast.GTR, "I", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.I > y.I), "int >") }},
		{ast.GTE, "I", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.I >= y.I), "int >=") }},
		{ast.ADD, "F", "F", func(z, x, y *vcCells) { vspec.Assert(vspec.SameFloat(z.F, x.F+y.F), "float +") }},
		{ast.SUB, "F", "F", func(z, x, y *vcCells) { vspec.Assert(vspec.SameFloat(z.F, x.F-y.F), "float -") }},
		{ast.MUL, "F", "F", func(z, x, y *vcCells) { vspec.Assert(vspec.SameFloat(z.F, x.F*y.F), "float *") }},
		{ast.QUO, "F", "F", func(z, x, y *vcCells) { vspec.Assert(vspec.SameFloat(z.F, x.F/y.F), "float /") }},
		{ast.EQ, "F", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.F == y.F), "float ==") }},
		{ast.NEQ, "F", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.F != y.F), "float !=") }},
		{ast.LSS, "F", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.F < y.F), "float <") }},
		{ast.LEQ, "F", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.F <= y.F), "float <=") }},
		{ast.GTR, "F", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.F > y.F), "float >") }},
		{ast.GTE, "F", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.F >= y.F), "float >=") }},
		{ast.ADD, "S", "S", func(z, x, y *vcCells) { vspec.Assert(z.S == x.S+y.S, "string +") }},
		{ast.EQ, "S", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.S == y.S), "string ==") }},
		{ast.NEQ, "S", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.S != y.S), "string !=") }},
		{ast.EQ, "B", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.B == y.B), "bool ==") }},
		{ast.NEQ, "B", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == (x.B != y.B), "bool !=") }},
		{ast.AND, "B", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == vspec.And(x.B, y.B), "bool &&") }},
		{ast.OR, "B", "B", func(z, x, y *vcCells) { vspec.Assert(z.B == vspec.Or(x.B, y.B), "bool ||") }},
	}
	o := ops[vspec.Pick(len(ops))]
	vcAnyBinary(o.token, o.field, o.result, o.check)
}

// VC_C01_AnyNot is the contract of ! for an arbitrary operand
func VC_C01_AnyNot() {
	var x, mem vcCells
	vspec.Fill(&x)
	vspec.Fill(&mem)
	x0, mem0 := x, mem
	z := op.NewSelector("z", "z", vcTypes["B"], nil)
	aNew, err := Unary(ast.NEG, vcAny(vcTypes["B"], x.at("B")), &op.Expression{Selector: z, Type: vcTypes["B"]})
	vspec.Assert(err == nil, "the operator is supported")
	compute, err := aNew(0)
	vspec.Assert(err == nil, "the operator is supported")
	got := compute(&est.State{Mem: &mem, MemPtr: mem.at("B")})
	vspec.Assert(*(*bool)(got) == !x0.B, "bool !")
	mem0.B = mem.B
	vspec.Assert(vcSame(&x, &x0), "the operand keeps its value")
	vspec.Assert(vcSame(&mem, &mem0), "nothing but the result is written")
}
