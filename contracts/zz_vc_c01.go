package velty

import (
	"github.com/viant/velty/internal/vspec"
)

// vcForm is a way to write an operand: the text, for a leaf value k (0 or 1)
var vcForms = []string{"$v#", "$r#.@", "$r#.N.@", "$r#.P.@", "$w#.@", "$w#.P.@", "$r#.L[1].@", "$r#.Q[1].@", "$r#.P.Get@()", "$id@($v#)"}

// vcOperand is the text of an operand: form with the operand number and the field for the type
func vcOperand(form string, n string, field string) string {
	res := ""
	for i := 0; i < len(form); i++ {
		switch form[i] {
		case '#':
			res += n
		case '@':
			res += field
		default:
			res += form[i : i+1]
		}
	}
	return res
}

func vcIdI(v int) int         { return v }
func vcIdF(v float64) float64 { return v }
func vcIdS(v string) string   { return v }
func vcIdB(v bool) bool       { return v }

// vcHolder is a variable with the leaf everywhere the forms look for it, and other values elsewhere
func vcHolder(l vcLeaf, other vcLeaf) *vcIn {
	p := l
	return &vcIn{I: l.I, F: l.F, S: l.S, B: l.B, N: l, P: &p, L: []vcLeaf{other, l, other}, Q: []*vcLeaf{&other, &p}}
}

func vcSameLeaf(a, b vcLeaf) bool {
	return vspec.And(a.I == b.I, vspec.And(vspec.SameFloat(a.F, b.F), vspec.And(a.S == b.S, a.B == b.B)))
}

// vcBinary checks one operator for pairs of operand forms
func vcBinary(field, target, op string, check func(o *vcOut, a, b *vcLeaf)) {
	n := len(vcForms)
	f0, f1 := vcForms[0], vcForms[0]
	switch op {
	case "-", "&&", "<": // all pairs of forms
		i := vspec.Pick(n * n)
		f0, f1 = vcForms[i/n], vcForms[i%n]
	default: // every form on either side of a variable, and with itself
		switch i := vspec.Pick(3 * n); i / n {
		case 0:
			f0 = vcForms[i%n]
		case 1:
			f1 = vcForms[i%n]
		case 2:
			f0, f1 = vcForms[i%n], vcForms[i%n]
		}
	}
	vcBinaryOf(vcOperand(f0, "0", field), op, vcOperand(f1, "1", field), field, target, check)
}

func vcLeafValue(l *vcLeaf, field string) interface{} {
	switch field {
	case "I":
		return l.I
	case "F":
		return l.F
	case "S":
		return l.S
	}
	return l.B
}

func vcPlanner() *Planner {
	p := New()
	vspec.Assert(p.RegisterFunction("idI", vcIdI) == nil, "registered")
	vspec.Assert(p.RegisterFunction("idF", vcIdF) == nil, "registered")
	vspec.Assert(p.RegisterFunction("idS", vcIdS) == nil, "registered")
	vspec.Assert(p.RegisterFunction("idB", vcIdB) == nil, "registered")
	return p
}

func vcBinaryOf(left, op, right string, field, target string, check func(o *vcOut, a, b *vcLeaf)) {
	var a, b, other vcLeaf
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&other)
	if op == "/" {
		vspec.Assume(b.I != 0)
	}
	var o vcOut
	r0, r1 := vcHolder(a, other), vcHolder(b, other)
	r := vcNewWith(vcPlanner(), "#set($o."+target+" = "+left+" "+op+" "+right+")", vcVar{"o", &o}, vcVar{"v0", vcLeafValue(&a, field)}, vcVar{"v1", vcLeafValue(&b, field)},
		vcVar{"r0", r0}, vcVar{"r1", r1}, vcVar{"w0", *r0}, vcVar{"w1", *r1})
	r.run()
	check(&o, &a, &b)
	vcKept(r, field, &a, &b, r0, r1)
}

// vcKept is that the operands keep their values
func vcKept(r *vcRun, field string, a, b *vcLeaf, r0, r1 *vcIn) {
	vspec.Assert(vspec.And(vcSameLeaf(r0.N, *a), vcSameLeaf(r1.N, *b)), "the operands keep their values")
	vspec.Assert(vspec.And(vcSameLeaf(*r0.P, *a), vcSameLeaf(*r1.P, *b)), "the operands keep their values")
	vspec.Assert(vspec.And(vcSameLeaf(r0.L[1], *a), vcSameLeaf(r1.L[1], *b)), "the operands keep their values")
	w0, w1 := (*vcIn)(r.addr("w0")), (*vcIn)(r.addr("w1"))
	vspec.Assert(vspec.And(vcSameLeaf(w0.N, *a), vcSameLeaf(w1.N, *b)), "the operands keep their values")
	switch field {
	case "I":
		vspec.Assert(vspec.And(*(*int)(r.addr("v0")) == a.I, *(*int)(r.addr("v1")) == b.I), "the operands keep their values")
		vspec.Assert(vspec.And(r0.I == a.I, r1.I == b.I), "the operands keep their values")
	case "F":
		vspec.Assert(vspec.And(vspec.SameFloat(*(*float64)(r.addr("v0")), a.F), vspec.SameFloat(*(*float64)(r.addr("v1")), b.F)), "the operands keep their values")
		vspec.Assert(vspec.And(vspec.SameFloat(r0.F, a.F), vspec.SameFloat(r1.F, b.F)), "the operands keep their values")
	case "S":
		vspec.Assert(vspec.And(*(*string)(r.addr("v0")) == a.S, *(*string)(r.addr("v1")) == b.S), "the operands keep their values")
		vspec.Assert(vspec.And(r0.S == a.S, r1.S == b.S), "the operands keep their values")
	case "B":
		vspec.Assert(vspec.And(*(*bool)(r.addr("v0")) == a.B, *(*bool)(r.addr("v1")) == b.B), "the operands keep their values")
		vspec.Assert(vspec.And(r0.B == a.B, r1.B == b.B), "the operands keep their values")
	}
}

func VC_C01_IntAdd() {
	vcBinary("I", "I", "+", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.I == a.I+b.I, "the result of +")
	})
}

func VC_C01_FloatAdd() {
	vcBinary("F", "F", "+", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(vspec.SameFloat(o.F, a.F+b.F), "the result of +")
	})
}

func VC_C01_IntSub() {
	vcBinary("I", "I", "-", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.I == a.I-b.I, "the result of -")
	})
}

func VC_C01_FloatSub() {
	vcBinary("F", "F", "-", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(vspec.SameFloat(o.F, a.F-b.F), "the result of -")
	})
}

func VC_C01_IntMul() {
	vcBinary("I", "I", "*", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.I == a.I*b.I, "the result of *")
	})
}

func VC_C01_FloatMul() {
	vcBinary("F", "F", "*", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(vspec.SameFloat(o.F, a.F*b.F), "the result of *")
	})
}

func VC_C01_IntDiv() {
	vcBinary("I", "I", "/", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.I == a.I/b.I, "the result of /")
	})
}

func VC_C01_FloatDiv() {
	vcBinary("F", "F", "/", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(vspec.SameFloat(o.F, a.F/b.F), "the result of /")
	})
}

func VC_C01_StringAdd() {
	vcBinary("S", "S", "+", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.S == a.S+b.S, "the result of +")
	})
}

func VC_C01_IntEq() {
	vcBinary("I", "B", "==", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.I == b.I), "the result of ==")
	})
}

func VC_C01_FloatEq() {
	vcBinary("F", "B", "==", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.F == b.F), "the result of ==")
	})
}

func VC_C01_StringEq() {
	vcBinary("S", "B", "==", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.S == b.S), "the result of ==")
	})
}

func VC_C01_BoolEq() {
	vcBinary("B", "B", "==", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.B == b.B), "the result of ==")
	})
}

func VC_C01_IntNe() {
	vcBinary("I", "B", "!=", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.I != b.I), "the result of !=")
	})
}

func VC_C01_FloatNe() {
	vcBinary("F", "B", "!=", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.F != b.F), "the result of !=")
	})
}

func VC_C01_StringNe() {
	vcBinary("S", "B", "!=", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.S != b.S), "the result of !=")
	})
}

func VC_C01_BoolNe() {
	vcBinary("B", "B", "!=", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.B != b.B), "the result of !=")
	})
}

func VC_C01_IntLt() {
	vcBinary("I", "B", "<", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.I < b.I), "the result of <")
	})
}

func VC_C01_FloatLt() {
	vcBinary("F", "B", "<", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.F < b.F), "the result of <")
	})
}

func VC_C01_IntLe() {
	vcBinary("I", "B", "<=", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.I <= b.I), "the result of <=")
	})
}

func VC_C01_FloatLe() {
	vcBinary("F", "B", "<=", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.F <= b.F), "the result of <=")
	})
}

func VC_C01_IntGt() {
	vcBinary("I", "B", ">", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.I > b.I), "the result of >")
	})
}

func VC_C01_FloatGt() {
	vcBinary("F", "B", ">", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.F > b.F), "the result of >")
	})
}

func VC_C01_IntGe() {
	vcBinary("I", "B", ">=", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.I >= b.I), "the result of >=")
	})
}

func VC_C01_FloatGe() {
	vcBinary("F", "B", ">=", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == (a.F >= b.F), "the result of >=")
	})
}

func VC_C01_BoolAnd() {
	vcBinary("B", "B", "&&", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == vspec.And(a.B, b.B), "the result of &&")
	})
}

func VC_C01_BoolOr() {
	vcBinary("B", "B", "||", func(o *vcOut, a, b *vcLeaf) {
		vspec.Assert(o.B == vspec.Or(a.B, b.B), "the result of ||")
	})
}

// vcWith evaluates an expression over a.@ in $v0, b.@ in $v1, for each field @
func vcWith(expr string, target string) (*vcOut, *vcLeaf, *vcLeaf) {
	var a, b vcLeaf
	vspec.Fill(&a)
	vspec.Fill(&b)
	var o vcOut
	vars := []vcVar{{"o", &o}, {"r0", &a}, {"r1", &b}, {"i0", a.I}, {"i1", b.I}, {"f0", a.F}, {"f1", b.F}, {"s0", a.S}, {"s1", b.S}, {"b0", a.B}, {"b1", b.B}}
	r := vcNewWith(vcPlanner(), "#set($o."+target+" = "+expr+")", vars...)
	a0, b0 := a, b
	r.run()
	vspec.Assert(vspec.And(vcSameLeaf(a, a0), vcSameLeaf(b, b0)), "the operands keep their values")
	vspec.Assert(vspec.And(*(*int)(r.addr("i0")) == a.I, *(*int)(r.addr("i1")) == b.I), "the operands keep their values")
	vspec.Assert(vspec.And(vspec.SameFloat(*(*float64)(r.addr("f0")), a.F), vspec.SameFloat(*(*float64)(r.addr("f1")), b.F)), "the operands keep their values")
	vspec.Assert(vspec.And(*(*string)(r.addr("s0")) == a.S, *(*string)(r.addr("s1")) == b.S), "the operands keep their values")
	vspec.Assert(vspec.And(*(*bool)(r.addr("b0")) == a.B, *(*bool)(r.addr("b1")) == b.B), "the operands keep their values")
	return &o, &a, &b
}

type vcCase struct {
	target, expr string
	holds        func(o *vcOut, a, b *vcLeaf) bool
}

func vcCases(cases []vcCase) {
	c := cases[vspec.Pick(len(cases))]
	o, a, b := vcWith(c.expr, c.target)
	vspec.Assert(c.holds(o, a, b), c.target+" = "+c.expr)
}

func VC_C01_Literals() {
	vcCases([]vcCase{
		{"I", `$i0 + 0`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I + 0) }},
		{"I", `0 + $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (0 + a.I) }},
		{"I", `$i0 + 1`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I + 1) }},
		{"I", `1 + $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (1 + a.I) }},
		{"I", `$i0 + 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I + 7) }},
		{"I", `7 + $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (7 + a.I) }},
		{"I", `$i0 + 9223372036854775807`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I + 9223372036854775807) }},
		{"I", `9223372036854775807 + $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (9223372036854775807 + a.I) }},
		{"I", `1 + 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (1 + 7) }},
		{"I", `$i0 - 0`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I - 0) }},
		{"I", `0 - $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (0 - a.I) }},
		{"I", `$i0 - 1`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I - 1) }},
		{"I", `1 - $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (1 - a.I) }},
		{"I", `$i0 - 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I - 7) }},
		{"I", `7 - $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (7 - a.I) }},
		{"I", `$i0 - 9223372036854775807`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I - 9223372036854775807) }},
		{"I", `9223372036854775807 - $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (9223372036854775807 - a.I) }},
		{"I", `1 - 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (1 - 7) }},
		{"I", `$i0 * 0`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I * 0) }},
		{"I", `0 * $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (0 * a.I) }},
		{"I", `$i0 * 1`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I * 1) }},
		{"I", `1 * $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (1 * a.I) }},
		{"I", `$i0 * 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I * 7) }},
		{"I", `7 * $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (7 * a.I) }},
		{"I", `$i0 * 9223372036854775807`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I * 9223372036854775807) }},
		{"I", `9223372036854775807 * $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (9223372036854775807 * a.I) }},
		{"I", `1 * 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (1 * 7) }},
		{"B", `$i0 == 0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I == 0) }},
		{"B", `0 == $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (0 == a.I) }},
		{"B", `$i0 == 1`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I == 1) }},
		{"B", `1 == $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1 == a.I) }},
		{"B", `$i0 == 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I == 7) }},
		{"B", `7 == $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (7 == a.I) }},
		{"B", `$i0 == 9223372036854775807`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I == 9223372036854775807) }},
		{"B", `9223372036854775807 == $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (9223372036854775807 == a.I) }},
		{"B", `1 == 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1 == 7) }},
		{"B", `$i0 != 0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I != 0) }},
		{"B", `0 != $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (0 != a.I) }},
		{"B", `$i0 != 1`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I != 1) }},
		{"B", `1 != $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1 != a.I) }},
		{"B", `$i0 != 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I != 7) }},
		{"B", `7 != $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (7 != a.I) }},
		{"B", `$i0 != 9223372036854775807`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I != 9223372036854775807) }},
		{"B", `9223372036854775807 != $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (9223372036854775807 != a.I) }},
		{"B", `1 != 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1 != 7) }},
		{"B", `$i0 < 0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I < 0) }},
		{"B", `0 < $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (0 < a.I) }},
		{"B", `$i0 < 1`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I < 1) }},
		{"B", `1 < $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1 < a.I) }},
		{"B", `$i0 < 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I < 7) }},
		{"B", `7 < $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (7 < a.I) }},
		{"B", `$i0 < 9223372036854775807`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I < 9223372036854775807) }},
		{"B", `9223372036854775807 < $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (9223372036854775807 < a.I) }},
		{"B", `1 < 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1 < 7) }},
		{"B", `$i0 <= 0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I <= 0) }},
		{"B", `0 <= $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (0 <= a.I) }},
		{"B", `$i0 <= 1`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I <= 1) }},
		{"B", `1 <= $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1 <= a.I) }},
		{"B", `$i0 <= 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I <= 7) }},
		{"B", `7 <= $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (7 <= a.I) }},
		{"B", `$i0 <= 9223372036854775807`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I <= 9223372036854775807) }},
		{"B", `9223372036854775807 <= $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (9223372036854775807 <= a.I) }},
		{"B", `1 <= 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1 <= 7) }},
		{"B", `$i0 > 0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I > 0) }},
		{"B", `0 > $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (0 > a.I) }},
		{"B", `$i0 > 1`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I > 1) }},
		{"B", `1 > $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1 > a.I) }},
		{"B", `$i0 > 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I > 7) }},
		{"B", `7 > $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (7 > a.I) }},
		{"B", `$i0 > 9223372036854775807`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I > 9223372036854775807) }},
		{"B", `9223372036854775807 > $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (9223372036854775807 > a.I) }},
		{"B", `1 > 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1 > 7) }},
		{"B", `$i0 >= 0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I >= 0) }},
		{"B", `0 >= $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (0 >= a.I) }},
		{"B", `$i0 >= 1`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I >= 1) }},
		{"B", `1 >= $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1 >= a.I) }},
		{"B", `$i0 >= 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I >= 7) }},
		{"B", `7 >= $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (7 >= a.I) }},
		{"B", `$i0 >= 9223372036854775807`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I >= 9223372036854775807) }},
		{"B", `9223372036854775807 >= $r0.I`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (9223372036854775807 >= a.I) }},
		{"B", `1 >= 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1 >= 7) }},
		{"F", `$f0 + 0.5`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, a.F+0.5) }},
		{"F", `0.5 + $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 0.5+a.F) }},
		{"F", `$f0 + 2.0`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, a.F+2.0) }},
		{"F", `2.0 + $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 2.0+a.F) }},
		{"F", `$f0 + 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, a.F+1234567.125) }},
		{"F", `1234567.125 + $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 1234567.125+a.F) }},
		{"F", `2.0 + 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 2.0+1234567.125) }},
		{"F", `$f0 - 0.5`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, a.F-0.5) }},
		{"F", `0.5 - $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 0.5-a.F) }},
		{"F", `$f0 - 2.0`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, a.F-2.0) }},
		{"F", `2.0 - $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 2.0-a.F) }},
		{"F", `$f0 - 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, a.F-1234567.125) }},
		{"F", `1234567.125 - $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 1234567.125-a.F) }},
		{"F", `2.0 - 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 2.0-1234567.125) }},
		{"F", `$f0 * 0.5`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, a.F*0.5) }},
		{"F", `0.5 * $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 0.5*a.F) }},
		{"F", `$f0 * 2.0`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, a.F*2.0) }},
		{"F", `2.0 * $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 2.0*a.F) }},
		{"F", `$f0 * 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, a.F*1234567.125) }},
		{"F", `1234567.125 * $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 1234567.125*a.F) }},
		{"F", `2.0 * 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 2.0*1234567.125) }},
		{"F", `$f0 / 0.5`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, a.F/0.5) }},
		{"F", `0.5 / $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 0.5/a.F) }},
		{"F", `$f0 / 2.0`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, a.F/2.0) }},
		{"F", `2.0 / $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 2.0/a.F) }},
		{"F", `$f0 / 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, a.F/1234567.125) }},
		{"F", `1234567.125 / $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 1234567.125/a.F) }},
		{"F", `2.0 / 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, 2.0/1234567.125) }},
		{"B", `$f0 == 0.5`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F == 0.5) }},
		{"B", `0.5 == $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (0.5 == a.F) }},
		{"B", `$f0 == 2.0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F == 2.0) }},
		{"B", `2.0 == $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (2.0 == a.F) }},
		{"B", `$f0 == 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F == 1234567.125) }},
		{"B", `1234567.125 == $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1234567.125 == a.F) }},
		{"B", `2.0 == 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (2.0 == 1234567.125) }},
		{"B", `$f0 != 0.5`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F != 0.5) }},
		{"B", `0.5 != $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (0.5 != a.F) }},
		{"B", `$f0 != 2.0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F != 2.0) }},
		{"B", `2.0 != $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (2.0 != a.F) }},
		{"B", `$f0 != 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F != 1234567.125) }},
		{"B", `1234567.125 != $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1234567.125 != a.F) }},
		{"B", `2.0 != 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (2.0 != 1234567.125) }},
		{"B", `$f0 < 0.5`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F < 0.5) }},
		{"B", `0.5 < $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (0.5 < a.F) }},
		{"B", `$f0 < 2.0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F < 2.0) }},
		{"B", `2.0 < $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (2.0 < a.F) }},
		{"B", `$f0 < 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F < 1234567.125) }},
		{"B", `1234567.125 < $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1234567.125 < a.F) }},
		{"B", `2.0 < 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (2.0 < 1234567.125) }},
		{"B", `$f0 <= 0.5`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F <= 0.5) }},
		{"B", `0.5 <= $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (0.5 <= a.F) }},
		{"B", `$f0 <= 2.0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F <= 2.0) }},
		{"B", `2.0 <= $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (2.0 <= a.F) }},
		{"B", `$f0 <= 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F <= 1234567.125) }},
		{"B", `1234567.125 <= $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1234567.125 <= a.F) }},
		{"B", `2.0 <= 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (2.0 <= 1234567.125) }},
		{"B", `$f0 > 0.5`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F > 0.5) }},
		{"B", `0.5 > $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (0.5 > a.F) }},
		{"B", `$f0 > 2.0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F > 2.0) }},
		{"B", `2.0 > $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (2.0 > a.F) }},
		{"B", `$f0 > 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F > 1234567.125) }},
		{"B", `1234567.125 > $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1234567.125 > a.F) }},
		{"B", `2.0 > 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (2.0 > 1234567.125) }},
		{"B", `$f0 >= 0.5`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F >= 0.5) }},
		{"B", `0.5 >= $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (0.5 >= a.F) }},
		{"B", `$f0 >= 2.0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F >= 2.0) }},
		{"B", `2.0 >= $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (2.0 >= a.F) }},
		{"B", `$f0 >= 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.F >= 1234567.125) }},
		{"B", `1234567.125 >= $r0.F`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (1234567.125 >= a.F) }},
		{"B", `2.0 >= 1234567.125`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (2.0 >= 1234567.125) }},
		{"S", `$s0 + ""`, func(o *vcOut, a, b *vcLeaf) bool { return o.S == (a.S + "") }},
		{"S", `"" + $r0.S`, func(o *vcOut, a, b *vcLeaf) bool { return o.S == ("" + a.S) }},
		{"S", `$s0 + "abc"`, func(o *vcOut, a, b *vcLeaf) bool { return o.S == (a.S + "abc") }},
		{"S", `"abc" + $r0.S`, func(o *vcOut, a, b *vcLeaf) bool { return o.S == ("abc" + a.S) }},
		{"S", `$s0 + "é b"`, func(o *vcOut, a, b *vcLeaf) bool { return o.S == (a.S + "é b") }},
		{"S", `"é b" + $r0.S`, func(o *vcOut, a, b *vcLeaf) bool { return o.S == ("é b" + a.S) }},
		{"S", `"abc" + "é b"`, func(o *vcOut, a, b *vcLeaf) bool { return o.S == ("abc" + "é b") }},
		{"B", `$s0 == ""`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.S == "") }},
		{"B", `"" == $r0.S`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ("" == a.S) }},
		{"B", `$s0 == "abc"`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.S == "abc") }},
		{"B", `"abc" == $r0.S`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ("abc" == a.S) }},
		{"B", `$s0 == "é b"`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.S == "é b") }},
		{"B", `"é b" == $r0.S`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ("é b" == a.S) }},
		{"B", `"abc" == "é b"`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ("abc" == "é b") }},
		{"B", `$s0 != ""`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.S != "") }},
		{"B", `"" != $r0.S`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ("" != a.S) }},
		{"B", `$s0 != "abc"`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.S != "abc") }},
		{"B", `"abc" != $r0.S`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ("abc" != a.S) }},
		{"B", `$s0 != "é b"`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.S != "é b") }},
		{"B", `"é b" != $r0.S`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ("é b" != a.S) }},
		{"B", `"abc" != "é b"`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ("abc" != "é b") }},
		{"B", `$b0 == true`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.B == true) }},
		{"B", `true == $r0.B`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (true == a.B) }},
		{"B", `$b0 == false`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.B == false) }},
		{"B", `false == $r0.B`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (false == a.B) }},
		{"B", `$b0 != true`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.B != true) }},
		{"B", `true != $r0.B`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (true != a.B) }},
		{"B", `$b0 != false`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.B != false) }},
		{"B", `false != $r0.B`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (false != a.B) }},
		{"B", `$b0 && true`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.And(a.B, true)) }},
		{"B", `true && $r0.B`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.And(true, a.B)) }},
		{"B", `$b0 && false`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.And(a.B, false)) }},
		{"B", `false && $r0.B`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.And(false, a.B)) }},
		{"B", `$b0 || true`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.Or(a.B, true)) }},
		{"B", `true || $r0.B`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.Or(true, a.B)) }},
		{"B", `$b0 || false`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.Or(a.B, false)) }},
		{"B", `false || $r0.B`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.Or(false, a.B)) }},
		{"I", `$i0 / 7`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I / 7) }},
		{"I", `$r0.I / 2`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I / 2) }},
	})
}

func VC_C01_Nested() {
	vcCases([]vcCase{
		{"I", `($i0 + $i1) + ($i0 * $i1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == ((a.I + b.I) + (a.I * b.I)) }},
		{"I", `$idI($i0 - $i1) + ($r1.I - $i0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == ((a.I - b.I) + (b.I - a.I)) }},
		{"I", `$i0 + ($i0 - ($i1 - ($i0 - $i1)))`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I + (a.I - (b.I - (a.I - b.I)))) }},
		{"I", `($i0 + $i1) - ($i0 * $i1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == ((a.I + b.I) - (a.I * b.I)) }},
		{"I", `$idI($i0 - $i1) - ($r1.I - $i0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == ((a.I - b.I) - (b.I - a.I)) }},
		{"I", `$i0 - ($i0 - ($i1 - ($i0 - $i1)))`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I - (a.I - (b.I - (a.I - b.I)))) }},
		{"I", `($i0 + $i1) * ($i0 * $i1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == ((a.I + b.I) * (a.I * b.I)) }},
		{"I", `$idI($i0 - $i1) * ($r1.I - $i0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == ((a.I - b.I) * (b.I - a.I)) }},
		{"I", `$i0 * ($i0 - ($i1 - ($i0 - $i1)))`, func(o *vcOut, a, b *vcLeaf) bool { return o.I == (a.I * (a.I - (b.I - (a.I - b.I)))) }},
		{"B", `($i0 + $i1) == ($i0 * $i1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.I + b.I) == (a.I * b.I)) }},
		{"B", `$idI($i0 - $i1) == ($r1.I - $i0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.I - b.I) == (b.I - a.I)) }},
		{"B", `$i0 == ($i0 - ($i1 - ($i0 - $i1)))`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I == (a.I - (b.I - (a.I - b.I)))) }},
		{"B", `($i0 + $i1) != ($i0 * $i1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.I + b.I) != (a.I * b.I)) }},
		{"B", `$idI($i0 - $i1) != ($r1.I - $i0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.I - b.I) != (b.I - a.I)) }},
		{"B", `$i0 != ($i0 - ($i1 - ($i0 - $i1)))`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I != (a.I - (b.I - (a.I - b.I)))) }},
		{"B", `($i0 + $i1) < ($i0 * $i1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.I + b.I) < (a.I * b.I)) }},
		{"B", `$idI($i0 - $i1) < ($r1.I - $i0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.I - b.I) < (b.I - a.I)) }},
		{"B", `$i0 < ($i0 - ($i1 - ($i0 - $i1)))`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I < (a.I - (b.I - (a.I - b.I)))) }},
		{"B", `($i0 + $i1) <= ($i0 * $i1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.I + b.I) <= (a.I * b.I)) }},
		{"B", `$idI($i0 - $i1) <= ($r1.I - $i0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.I - b.I) <= (b.I - a.I)) }},
		{"B", `$i0 <= ($i0 - ($i1 - ($i0 - $i1)))`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I <= (a.I - (b.I - (a.I - b.I)))) }},
		{"B", `($i0 + $i1) > ($i0 * $i1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.I + b.I) > (a.I * b.I)) }},
		{"B", `$idI($i0 - $i1) > ($r1.I - $i0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.I - b.I) > (b.I - a.I)) }},
		{"B", `$i0 > ($i0 - ($i1 - ($i0 - $i1)))`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I > (a.I - (b.I - (a.I - b.I)))) }},
		{"B", `($i0 + $i1) >= ($i0 * $i1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.I + b.I) >= (a.I * b.I)) }},
		{"B", `$idI($i0 - $i1) >= ($r1.I - $i0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.I - b.I) >= (b.I - a.I)) }},
		{"B", `$i0 >= ($i0 - ($i1 - ($i0 - $i1)))`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I >= (a.I - (b.I - (a.I - b.I)))) }},
		{"F", `($f0 + $f1) + ($f0 * $f1)`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, (a.F+b.F)+(a.F*b.F)) }},
		{"F", `$idF($f0 - $f1) + ($r1.F - $f0)`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, (a.F-b.F)+(b.F-a.F)) }},
		{"F", `($f0 + $f1) - ($f0 * $f1)`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, (a.F+b.F)-(a.F*b.F)) }},
		{"F", `$idF($f0 - $f1) - ($r1.F - $f0)`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, (a.F-b.F)-(b.F-a.F)) }},
		{"F", `($f0 + $f1) * ($f0 * $f1)`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, (a.F+b.F)*(a.F*b.F)) }},
		{"F", `$idF($f0 - $f1) * ($r1.F - $f0)`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, (a.F-b.F)*(b.F-a.F)) }},
		{"F", `($f0 + $f1) / ($f0 * $f1)`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, (a.F+b.F)/(a.F*b.F)) }},
		{"F", `$idF($f0 - $f1) / ($r1.F - $f0)`, func(o *vcOut, a, b *vcLeaf) bool { return vspec.SameFloat(o.F, (a.F-b.F)/(b.F-a.F)) }},
		{"B", `($f0 + $f1) == ($f0 * $f1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.F + b.F) == (a.F * b.F)) }},
		{"B", `$idF($f0 - $f1) == ($r1.F - $f0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.F - b.F) == (b.F - a.F)) }},
		{"B", `($f0 + $f1) != ($f0 * $f1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.F + b.F) != (a.F * b.F)) }},
		{"B", `$idF($f0 - $f1) != ($r1.F - $f0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.F - b.F) != (b.F - a.F)) }},
		{"B", `($f0 + $f1) < ($f0 * $f1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.F + b.F) < (a.F * b.F)) }},
		{"B", `$idF($f0 - $f1) < ($r1.F - $f0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.F - b.F) < (b.F - a.F)) }},
		{"B", `($f0 + $f1) <= ($f0 * $f1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.F + b.F) <= (a.F * b.F)) }},
		{"B", `$idF($f0 - $f1) <= ($r1.F - $f0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.F - b.F) <= (b.F - a.F)) }},
		{"B", `($f0 + $f1) > ($f0 * $f1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.F + b.F) > (a.F * b.F)) }},
		{"B", `$idF($f0 - $f1) > ($r1.F - $f0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.F - b.F) > (b.F - a.F)) }},
		{"B", `($f0 + $f1) >= ($f0 * $f1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.F + b.F) >= (a.F * b.F)) }},
		{"B", `$idF($f0 - $f1) >= ($r1.F - $f0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.F - b.F) >= (b.F - a.F)) }},
		{"S", `($s0 + $s1) + ($s1 + $s0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.S == ((a.S + b.S) + (b.S + a.S)) }},
		{"S", `$idS($s0 + "x") + $r1.S`, func(o *vcOut, a, b *vcLeaf) bool { return o.S == ((a.S + "x") + b.S) }},
		{"B", `($s0 + $s1) == ($s1 + $s0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.S + b.S) == (b.S + a.S)) }},
		{"B", `$idS($s0 + "x") == $r1.S`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.S + "x") == b.S) }},
		{"B", `($s0 + $s1) != ($s1 + $s0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.S + b.S) != (b.S + a.S)) }},
		{"B", `$idS($s0 + "x") != $r1.S`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.S + "x") != b.S) }},
		{"B", `($b0 && $b1) == ($b0 || $b1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.And(a.B, b.B) == vspec.Or(a.B, b.B)) }},
		{"B", `$idB($b0 == $b1) == ($r1.B && $b0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.B == b.B) == vspec.And(b.B, a.B)) }},
		{"B", `($i0 < $i1) == ($f0 < $f1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.I < b.I) == (a.F < b.F)) }},
		{"B", `($s0 == $s1) == !$b0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.S == b.S) == !a.B) }},
		{"B", `($b0 && $b1) != ($b0 || $b1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.And(a.B, b.B) != vspec.Or(a.B, b.B)) }},
		{"B", `$idB($b0 == $b1) != ($r1.B && $b0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.B == b.B) != vspec.And(b.B, a.B)) }},
		{"B", `($i0 < $i1) != ($f0 < $f1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.I < b.I) != (a.F < b.F)) }},
		{"B", `($s0 == $s1) != !$b0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == ((a.S == b.S) != !a.B) }},
		{"B", `($b0 && $b1) && ($b0 || $b1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.And(vspec.And(a.B, b.B), vspec.Or(a.B, b.B))) }},
		{"B", `$idB($b0 == $b1) && ($r1.B && $b0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.And((a.B == b.B), vspec.And(b.B, a.B))) }},
		{"B", `($i0 < $i1) && ($f0 < $f1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.And((a.I < b.I), (a.F < b.F))) }},
		{"B", `($s0 == $s1) && !$b0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.And((a.S == b.S), !a.B)) }},
		{"B", `($b0 && $b1) || ($b0 || $b1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.Or(vspec.And(a.B, b.B), vspec.Or(a.B, b.B))) }},
		{"B", `$idB($b0 == $b1) || ($r1.B && $b0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.Or((a.B == b.B), vspec.And(b.B, a.B))) }},
		{"B", `($i0 < $i1) || ($f0 < $f1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.Or((a.I < b.I), (a.F < b.F))) }},
		{"B", `($s0 == $s1) || !$b0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (vspec.Or((a.S == b.S), !a.B)) }},
		{"B", `!$b0`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (!a.B) }},
		{"B", `!$r0.B`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (!a.B) }},
		{"B", `!($b0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (!a.B) }},
		{"B", `!($b0 && $b1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (!vspec.And(a.B, b.B)) }},
		{"B", `!$idB($b0)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (!a.B) }},
		{"B", `!$r0.GetB()`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (!a.B) }},
		{"B", `!($i0 == $i1)`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (a.I != b.I) }},
		{"B", `!true`, func(o *vcOut, a, b *vcLeaf) bool { return o.B == (false) }},
	})
}
