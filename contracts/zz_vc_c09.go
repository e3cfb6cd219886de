package velty

import (
	"strconv"

	"github.com/viant/velty/internal/vspec"
)

// vcConds answers conditions and writes down which were asked and which bodies ran
type vcConds struct {
	V      []bool
	asked  []int
	bodies []int
}

// Q is the k-th condition
func (c *vcConds) Q(k int) bool {
	c.asked = append(c.asked, k)
	return c.V[k]
}

// At is called by the k-th body
func (c *vcConds) At(k int) string {
	c.bodies = append(c.bodies, k)
	return "b" + strconv.Itoa(k)
}

// vcChain is a chain of n conditions
func vcChain(n int, els bool, cond func(k int) string) string {
	t := ""
	for k := 0; k < n; k++ {
		if k == 0 {
			t += "#if(" + cond(k) + ")"
		} else {
			t += "#elseif(" + cond(k) + ")"
		}
		t += "${c.At(" + strconv.Itoa(k) + ")}|"
	}
	if els {
		t += "#else${c.At(" + strconv.Itoa(n) + ")}|"
	}
	return t + "#end"
}

func vcChainHolds(c *vcConds, n int, els bool, out, pre, post string, asks bool) {
	hit := n
	for k := n - 1; k >= 0; k-- {
		if c.V[k] {
			hit = k
		}
	}
	asked := hit + 1
	if hit == n {
		asked = n
	}
	if asks {
		vspec.Assert(len(c.asked) == asked, "conditions are evaluated up to the first that holds")
		for k := 0; k < asked && k < len(c.asked); k++ {
			vspec.Assert(c.asked[k] == k, "conditions are evaluated in order")
		}
	}
	if hit == n && !els {
		vspec.Assert(len(c.bodies) == 0, "no body runs when no condition holds")
		vspec.Assert(out == pre+post, "nothing is rendered when no condition holds")
		return
	}
	vspec.Assert(len(c.bodies) == 1 && c.bodies[0] == hit, "the body of the first condition that holds runs, once, and no other")
	vspec.Assert(out == pre+"b"+strconv.Itoa(hit)+"|"+post, "only that body is rendered")
}

// Chains of one to six conditions, any truth values.
func VC_C09_Chain() {
	n := vspec.Pick(6) + 1
	els := vspec.Pick(2) == 1
	c := &vcConds{}
	for k := 0; k < n; k++ {
		c.V = append(c.V, vspec.Bool())
	}
	r := vcNew("<"+vcChain(n, els, func(k int) string { return "$c.Q(" + strconv.Itoa(k) + ")" })+">", vcVar{"c", c})
	r.run()
	vcChainHolds(c, n, els, r.out(), "<", ">", true)
}

// Conditions given as variables, comparisons, negations and connections.
func VC_C09_Conditions() {
	n := 3
	els := vspec.Pick(2) == 1
	x, y, z := vspec.Int(), vspec.Bool(), vspec.String()
	forms := []string{"$y", "!$y", "$x > 3", "$x == 3", "($y)", "$y && $x < 9", "$y || $x < 9", "!($x < 9)", "$z == \"a\"", "$x > 1 && $x < 5"}
	vals := []bool{y, !y, x > 3, x == 3, y, y && x < 9, y || x < 9, !(x < 9), z == "a", x > 1 && x < 5}
	first := vspec.Pick(len(forms))
	c := &vcConds{}
	var cs []string
	for k := 0; k < n; k++ {
		cs = append(cs, forms[(first+k)%len(forms)])
		c.V = append(c.V, vals[(first+k)%len(forms)])
	}
	r := vcNew("<"+vcChain(n, els, func(k int) string { return cs[k] })+">", vcVar{"c", c}, vcVar{"x", x}, vcVar{"y", y}, vcVar{"z", z})
	r.run()
	vcChainHolds(c, n, els, r.out(), "<", ">", false)
}

// A chain inside each kind of body.
func VC_C09_Nested() {
	n := 2
	els := vspec.Pick(2) == 1
	c := &vcConds{}
	for k := 0; k < n; k++ {
		c.V = append(c.V, vspec.Bool())
	}
	in := vcChain(n, els, func(k int) string { return "$c.Q(" + strconv.Itoa(k) + ")" })
	forms := []string{"#if($t)<%>#end", "#if(!$t)no#else<%>#end", "#if(!$t)no#elseif($t)<%>#else no#end", "#foreach($e in $l)<%>#end", "#for($i=0;$i<1;$i++)<%>#end", "#evaluate($txt)"}
	f := vspec.Pick(len(forms))
	tmpl := ""
	for _, b := range forms[f] {
		if b == '%' {
			tmpl += in
		} else {
			tmpl += string(b)
		}
	}
	r := vcNew(tmpl, vcVar{"c", c}, vcVar{"t", true}, vcVar{"l", []int{1}}, vcVar{"i", 0}, vcVar{"txt", "<" + in + ">"})
	r.run()
	vcChainHolds(c, n, els, r.out(), "<", ">", true)
}

// vcHoldsAs compiles and runs a condition in every role of a chain
func vcHoldsAs(cond string, want bool, vars ...vcVar) {
	r := vcNew("#if("+cond+")T#else~F#end#if(false)X#elseif("+cond+")T#end#if("+cond+")Y#elseif(true)N#end", vars...)
	r.run()
	if want {
		vspec.Assert(r.out() == "TTY", "a non-empty value holds")
	} else {
		vspec.Assert(r.out() == "~FN", "an empty value does not hold")
	}
}

var vcTruthNames = []string{"I", "I8", "I16", "I32", "I64", "U", "U8", "U16", "U32", "U64", "F", "F32", "S", "B", "PI", "PF", "PS", "PB", "PSt", "L", "LS"}

// vcTruth is whether the value holds
func vcTruth(a *vcAll, name string) bool {
	switch name {
	case "I":
		return a.I != 0
	case "I8":
		return a.I8 != 0
	case "I16":
		return a.I16 != 0
	case "I32":
		return a.I32 != 0
	case "I64":
		return a.I64 != 0
	case "U":
		return a.U != 0
	case "U8":
		return a.U8 != 0
	case "U16":
		return a.U16 != 0
	case "U32":
		return a.U32 != 0
	case "U64":
		return a.U64 != 0
	case "F":
		return a.F != 0
	case "F32":
		return a.F32 != 0
	case "S":
		return a.S != ""
	case "B":
		return a.B
	case "PI":
		return a.PI != nil && *a.PI != 0
	case "PF":
		return a.PF != nil && *a.PF != 0
	case "PS":
		return a.PS != nil && *a.PS != ""
	case "PB":
		return a.PB != nil && *a.PB
	case "PSt":
		return a.PSt != nil
	case "L":
		return len(a.L) > 0
	}
	return len(a.LS) > 0
}

func vcTruthValue(a *vcAll, name string) interface{} {
	switch name {
	case "I":
		return a.I
	case "I8":
		return a.I8
	case "I16":
		return a.I16
	case "I32":
		return a.I32
	case "I64":
		return a.I64
	case "U":
		return a.U
	case "U8":
		return a.U8
	case "U16":
		return a.U16
	case "U32":
		return a.U32
	case "U64":
		return a.U64
	case "F":
		return a.F
	case "F32":
		return a.F32
	case "S":
		return a.S
	case "B":
		return a.B
	case "PI":
		return a.PI
	case "PF":
		return a.PF
	case "PS":
		return a.PS
	case "PB":
		return a.PB
	case "PSt":
		return a.PSt
	case "L":
		return a.L
	}
	return a.LS
}

func vcTruthAll() vcAll {
	a := vcMakeAll()
	if vspec.Pick(2) == 1 {
		a.PI, a.PF, a.PS, a.PB, a.PSt, a.L, a.LS = nil, nil, nil, nil, nil, nil, nil
	}
	return a
}

// A condition that is not boolean holds when the value is not empty: a variable.
func VC_C09_TruthVariable() {
	n := vcTruthNames[vspec.Pick(len(vcTruthNames))]
	a := vcTruthAll()
	cond := []string{"$v", "($v)"}[vspec.Pick(2)]
	vcHoldsAs(cond, vcTruth(&a, n), vcVar{"x", int8(-1)}, vcVar{"v", vcTruthValue(&a, n)}, vcVar{"y", int8(-1)})
}

// The same for a field, reached directly and through pointers; behind a nil pointer nothing holds.
func VC_C09_TruthField() {
	n := vcTruthNames[vspec.Pick(len(vcTruthNames))]
	a := vcTruthAll()
	h := vcHold{Pad: -1, A: a, P: &a, End: -1}
	switch vspec.Pick(6) {
	case 0:
		vcHoldsAs("$h.A."+n, vcTruth(&a, n), vcVar{"h", h})
	case 1:
		vcHoldsAs("$h.P."+n, vcTruth(&a, n), vcVar{"h", h})
	case 2:
		vcHoldsAs("$h.A."+n, vcTruth(&a, n), vcVar{"h", &h})
	case 3:
		vcHoldsAs("$h.P."+n, vcTruth(&a, n), vcVar{"h", &h})
	case 4:
		h.P = nil
		vcHoldsAs("$h.P."+n, false, vcVar{"h", &h})
	case 5:
		var none *vcHold
		vcHoldsAs("$h.A."+n, false, vcVar{"h", none})
	}
}
