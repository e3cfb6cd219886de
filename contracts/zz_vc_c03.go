package velty

import (
	"github.com/viant/velty/internal/vspec"
)

// vcVal is a value of the reference semantics; k is its type (0: the expression has no type)
type vcVal struct {
	k byte
	i int
	f float64
	s string
	b bool
}

var vcOps = []string{"+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "&&", "||"}

func vcPrec(op string) int {
	switch op {
	case "*", "/":
		return 5
	case "+", "-":
		return 4
	case "&&":
		return 2
	case "||":
		return 1
	}
	return 3
}

// vcTypeOf is the type of x op y, 0 if there is none
func vcTypeOf(op string, x, y byte) byte {
	if x != y || x == 0 {
		return 0
	}
	switch op {
	case "+":
		if x == 'b' {
			return 0
		}
		return x
	case "-", "*", "/":
		if x == 'b' || x == 's' {
			return 0
		}
		return x
	case "==", "!=":
		return 'b'
	case "&&", "||":
		if x != 'b' {
			return 0
		}
		return 'b'
	}
	if x == 'i' || x == 'f' {
		return 'b'
	}
	return 0
}

// vcApply is Go's operator
func vcApply(op string, x, y vcVal) vcVal {
	r := vcVal{k: vcTypeOf(op, x.k, y.k)}
	switch x.k {
	case 'i':
		switch op {
		case "+":
			r.i = x.i + y.i
		case "-":
			r.i = x.i - y.i
		case "*":
			r.i = x.i * y.i
		case "/":
			vspec.Assume(y.i != 0)
			r.i = x.i / y.i
		case "==":
			r.b = x.i == y.i
		case "!=":
			r.b = x.i != y.i
		case "<":
			r.b = x.i < y.i
		case "<=":
			r.b = x.i <= y.i
		case ">":
			r.b = x.i > y.i
		case ">=":
			r.b = x.i >= y.i
		}
	case 'f':
		switch op {
		case "+":
			r.f = x.f + y.f
		case "-":
			r.f = x.f - y.f
		case "*":
			r.f = x.f * y.f
		case "/":
			r.f = x.f / y.f
		case "==":
			r.b = x.f == y.f
		case "!=":
			r.b = x.f != y.f
		case "<":
			r.b = x.f < y.f
		case "<=":
			r.b = x.f <= y.f
		case ">":
			r.b = x.f > y.f
		case ">=":
			r.b = x.f >= y.f
		}
	case 's':
		switch op {
		case "+":
			r.s = x.s + y.s
		case "==":
			r.b = x.s == y.s
		case "!=":
			r.b = x.s != y.s
		}
	case 'b':
		switch op {
		case "==":
			r.b = x.b == y.b
		case "!=":
			r.b = x.b != y.b
		case "&&":
			r.b = vspec.And(x.b, y.b)
		case "||":
			r.b = vspec.Or(x.b, y.b)
		}
	}
	return r
}

// vcGroup evaluates operands joined by operators: tighter operators first, operators of one precedence left to right
func vcGroup(xs []vcVal, ops []string) vcVal {
	xs = append([]vcVal{}, xs...)
	ops = append([]string{}, ops...)
	for p := 5; p >= 1; p-- {
		for i := 0; i < len(ops); {
			if vcPrec(ops[i]) != p {
				i++
				continue
			}
			if vcTypeOf(ops[i], xs[i].k, xs[i+1].k) == 0 {
				return vcVal{}
			}
			xs[i] = vcApply(ops[i], xs[i], xs[i+1])
			xs = append(xs[:i+1], xs[i+2:]...)
			ops = append(ops[:i], ops[i+1:]...)
		}
	}
	return xs[0]
}

// vcGroupType is the type vcGroup gives
func vcGroupType(ks []byte, ops []string) byte {
	ks = append([]byte{}, ks...)
	ops = append([]string{}, ops...)
	for p := 5; p >= 1; p-- {
		for i := 0; i < len(ops); {
			if vcPrec(ops[i]) != p {
				i++
				continue
			}
			ks[i] = vcTypeOf(ops[i], ks[i], ks[i+1])
			if ks[i] == 0 {
				return 0
			}
			ks = append(ks[:i+1], ks[i+2:]...)
			ops = append(ops[:i], ops[i+1:]...)
		}
	}
	return ks[0]
}

var vcNames = []string{"a", "b", "c", "d", "e"}

// vcAtoms are operands of the given types with arbitrary values, and the variables that hold them
func vcAtoms(ks []byte) ([]vcVal, []vcVar) {
	var vals []vcVal
	var vars []vcVar
	for i, k := range ks {
		v := vcVal{k: k}
		x := vcVar{name: vcNames[i]}
		switch k {
		case 'i':
			vspec.Fill(&v.i)
			x.value = v.i
		case 'f':
			vspec.Fill(&v.f)
			x.value = v.f
		case 's':
			vspec.Fill(&v.s)
			x.value = v.s
		case 'b':
			vspec.Fill(&v.b)
			x.value = v.b
		}
		vals, vars = append(vals, v), append(vars, x)
	}
	return vals, vars
}

// vcMeans checks that the text of an expression has the value
func vcMeans(text string, want vcVal, vars []vcVar) {
	var o vcOut
	target := map[byte]string{'i': "I", 'f': "F", 's': "S", 'b': "B"}[want.k]
	r := vcNew("#set($o."+target+" = "+text+")", append([]vcVar{{"o", &o}}, vars...)...)
	r.run()
	switch want.k {
	case 'i':
		vspec.Assert(o.I == want.i, "grouped as in Go")
	case 'f':
		vspec.Assert(vspec.SameFloat(o.F, want.f), "grouped as in Go")
	case 's':
		vspec.Assert(o.S == want.s, "grouped as in Go")
	case 'b':
		vspec.Assert(o.B == want.b, "grouped as in Go")
	}
}

// vcSequence checks sequences of n operators that start with the given one, over operands of the given types
func vcSequence(first string, n int, kinds string) {
	ops := []string{first}
	for len(ops) < n {
		ops = append(ops, vcOps[vspec.Pick(len(vcOps))])
	}
	var ks []byte
	for len(ks) < n+1 {
		ks = append(ks, kinds[vspec.Pick(len(kinds))])
	}
	if vcGroupType(ks, ops) == 0 {
		return
	}
	vals, vars := vcAtoms(ks)
	text := "$a"
	for i, op := range ops {
		text += " " + op + " $" + vcNames[i+1]
	}
	vcMeans(text, vcGroup(vals, ops), vars)
}

func VC_C03_Pairs() { vcSequence(vcOps[vspec.Pick(len(vcOps))], 2, "ifsb") }

func vcPickKinds(n int, kinds string) []byte {
	var ks []byte
	for len(ks) < n {
		ks = append(ks, kinds[vspec.Pick(len(kinds))])
	}
	return ks
}

// VC_C03_Parentheses: parentheses group explicitly, also redundant ones
func VC_C03_Parentheses() {
	op0, op1 := vcOps[vspec.Pick(len(vcOps))], vcOps[vspec.Pick(len(vcOps))]
	ks := vcPickKinds(3, "ib")
	left := vspec.Pick(2) == 0
	var k byte
	if left {
		k = vcTypeOf(op1, vcTypeOf(op0, ks[0], ks[1]), ks[2])
	} else {
		k = vcTypeOf(op0, ks[0], vcTypeOf(op1, ks[1], ks[2]))
	}
	if k == 0 {
		return
	}
	v, vars := vcAtoms(ks)
	if left {
		vcMeans("($a "+op0+" $b) "+op1+" ($c)", vcApply(op1, vcApply(op0, v[0], v[1]), v[2]), vars)
	} else {
		vcMeans("(($a) "+op0+" ($b "+op1+" $c))", vcApply(op0, v[0], vcApply(op1, v[1], v[2])), vars)
	}
}

// VC_C03_Not: ! binds to the operand that follows
func VC_C03_Not() {
	op0, op1 := vcOps[vspec.Pick(len(vcOps))], vcOps[vspec.Pick(len(vcOps))]
	ks := vcPickKinds(3, "ib")
	not := func(v vcVal) vcVal { return vcVal{k: 'b', b: !v.b} }
	switch vspec.Pick(4) {
	case 0: // !$a op $b op $c
		if ks[0] != 'b' || vcGroupType(ks, []string{op0, op1}) == 0 {
			return
		}
		v, vars := vcAtoms(ks)
		v[0] = not(v[0])
		vcMeans("!$a "+op0+" $b "+op1+" $c", vcGroup(v, []string{op0, op1}), vars)
	case 1: // $a op !$b op $c
		if ks[1] != 'b' || vcGroupType(ks, []string{op0, op1}) == 0 {
			return
		}
		v, vars := vcAtoms(ks)
		v[1] = not(v[1])
		vcMeans("$a "+op0+" !$b "+op1+" $c", vcGroup(v, []string{op0, op1}), vars)
	case 2: // !($a op $b) op $c
		if vcTypeOf(op0, ks[0], ks[1]) != 'b' || vcTypeOf(op1, 'b', ks[2]) == 0 {
			return
		}
		v, vars := vcAtoms(ks)
		vcMeans("!($a "+op0+" $b) "+op1+" $c", vcApply(op1, not(vcApply(op0, v[0], v[1])), v[2]), vars)
	case 3: // $a op !($b op $c)
		if vcTypeOf(op1, ks[1], ks[2]) != 'b' || vcTypeOf(op0, ks[0], 'b') == 0 {
			return
		}
		v, vars := vcAtoms(ks)
		vcMeans("$a "+op0+" !($b "+op1+" $c)", vcApply(op0, v[0], not(vcApply(op1, v[1], v[2]))), vars)
	}
}

// VC_C03_Space: white space between tokens, or none, changes nothing
func VC_C03_Space() {
	op0, op1 := vcOps[vspec.Pick(len(vcOps))], vcOps[vspec.Pick(len(vcOps))]
	ks := vcPickKinds(3, "ib")
	if vcGroupType(ks, []string{op0, op1}) == 0 {
		return
	}
	v, vars := vcAtoms(ks)
	sp := []string{"", "  ", "\t", "\n", "\r\n "}
	s := sp[vspec.Pick(len(sp))]
	vcMeans(s+"$a"+s+op0+s+"$b"+s+op1+s+"$c"+s, vcGroup(v, []string{op0, op1}), vars)
}

// VC_C03_SpaceNot: white space around ! and parentheses, or none, changes nothing
func VC_C03_SpaceNot() {
	logic := []string{"&&", "||", "==", "!="}
	op0, op1 := logic[vspec.Pick(len(logic))], logic[vspec.Pick(len(logic))]
	v, vars := vcAtoms([]byte("bbb"))
	sp := []string{"", " ", "\r\n\t "}
	s := sp[vspec.Pick(len(sp))]
	not := func(v vcVal) vcVal { return vcVal{k: 'b', b: !v.b} }
	switch vspec.Pick(4) {
	case 0:
		vcMeans(s+"!"+s+"$a"+s+op0+s+"!"+s+"$b"+s+op1+s+"!"+s+"$c"+s, vcGroup([]vcVal{not(v[0]), not(v[1]), not(v[2])}, []string{op0, op1}), vars)
	case 1:
		vcMeans(s+"!"+s+"("+s+"$a"+s+op0+s+"$b"+s+")"+s+op1+s+"$c"+s, vcApply(op1, not(vcApply(op0, v[0], v[1])), v[2]), vars)
	case 2:
		vcMeans(s+"$a"+s+op0+s+"!"+s+"("+s+"!"+s+"$b"+s+op1+s+"("+s+"$c"+s+")"+s+")"+s, vcApply(op0, v[0], not(vcApply(op1, not(v[1]), v[2]))), vars)
	case 3:
		r := vcNew("#if("+s+"!"+s+"$a"+s+op0+s+"$b"+s+")T#else${e}F#end#if("+s+"!"+s+"("+s+"$a"+s+")"+s+")T#else${e}F#end", append([]vcVar{{"e", ""}}, vars...)...)
		r.run()
		want := ""
		for _, w := range []vcVal{vcApply(op0, not(v[0]), v[1]), not(v[0])} {
			if w.b {
				want += "T"
			} else {
				want += "F"
			}
		}
		vspec.Assert(r.out() == want, "the condition holds as in Go")
	}
}

// VC_C03_Places: an expression means the same in a condition, as an argument and as an index
func VC_C03_Places() {
	op0, op1 := vcOps[vspec.Pick(len(vcOps))], vcOps[vspec.Pick(len(vcOps))]
	ks := vcPickKinds(3, "ib")
	ops := []string{op0, op1}
	k := vcGroupType(ks, ops)
	if k == 0 {
		return
	}
	v, vars := vcAtoms(ks)
	text := "$a " + op0 + " $b " + op1 + " $c"
	want := vcGroup(v, ops)
	var o vcOut
	p := vcPlanner()
	vars = append([]vcVar{{"o", &o}, {"l", []int{10, 11, 12}}}, vars...)
	if k == 'b' {
		r := vcNewWith(p, "#if("+text+")#set($o.I = 1)#else#set($o.I = 2)#end#set($o.B = $idB("+text+"))", vars...)
		r.run()
		vspec.Assert(o.I == vspec.IteInt(want.b, 1, 2), "the condition holds as in Go")
		vspec.Assert(o.B == want.b, "the argument is as in Go")
		return
	}
	r := vcNewWith(p, "#set($o.I = $idI("+text+"))", vars...)
	r.run()
	vspec.Assert(o.I == want.i, "the argument is as in Go")
	vspec.Assume(vspec.And(want.i >= 0, want.i < 3))
	p = vcPlanner()
	r = vcNewWith(p, "#set($o.I = $l["+text+"])", vars...)
	r.run()
	vspec.Assert(o.I == want.i+10, "the index is as in Go")
}

func VC_C03_TripleAdd() { vcSequence("+", 3, "ib") }
func VC_C03_TripleSub() { vcSequence("-", 3, "ib") }
func VC_C03_TripleMul() { vcSequence("*", 3, "ib") }
func VC_C03_TripleDiv() { vcSequence("/", 3, "ib") }
func VC_C03_TripleEq()  { vcSequence("==", 3, "ib") }
func VC_C03_TripleNe()  { vcSequence("!=", 3, "ib") }
func VC_C03_TripleLt()  { vcSequence("<", 3, "ib") }
func VC_C03_TripleLe()  { vcSequence("<=", 3, "ib") }
func VC_C03_TripleGt()  { vcSequence(">", 3, "ib") }
func VC_C03_TripleGe()  { vcSequence(">=", 3, "ib") }
func VC_C03_TripleAnd() { vcSequence("&&", 3, "ib") }
func VC_C03_TripleOr()  { vcSequence("||", 3, "ib") }
