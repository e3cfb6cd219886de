package velty

import (
	"errors"

	"github.com/viant/velty/est"
	"github.com/viant/velty/internal/vspec"
)

// Executions are isolated: the plan is read-only, states do not interfere (C19).

// vcLog19 notes what the templates hand to it
type vcLog19 struct {
	ints   []int
	strs   []string
	bools  []bool
	floats []float64
}

func (l *vcLog19) I(v int) string     { l.ints = append(l.ints, v); return "i" }
func (l *vcLog19) S(v string) string  { l.strs = append(l.strs, v); return "s" }
func (l *vcLog19) B(v bool) string    { l.bools = append(l.bools, v); return "b" }
func (l *vcLog19) F(v float64) string { l.floats = append(l.floats, v); return "f" }

// E fails when it is told to
func (l *vcLog19) E(fail bool, v int) (int, error) {
	if fail {
		return 0, errors.New("e")
	}
	return v, nil
}

// N makes a leaf
func (l *vcLog19) N(v int) *vcLeaf { return &vcLeaf{I: v} }

func (l *vcLog19) same(o *vcLog19) {
	vspec.Assert(len(l.ints) == len(o.ints) && len(l.strs) == len(o.strs) && len(l.bools) == len(o.bools) && len(l.floats) == len(o.floats), "the same calls are made")
	for i := range l.ints {
		vspec.Assert(l.ints[i] == o.ints[i], "the same int is passed")
	}
	for i := range l.strs {
		vspec.Assert(l.strs[i] == o.strs[i], "the same string is passed")
	}
	for i := range l.bools {
		vspec.Assert(l.bools[i] == o.bools[i], "the same bool is passed")
	}
	for i := range l.floats {
		vspec.Assert(vspec.SameFloat(l.floats[i], o.floats[i]), "the same float is passed")
	}
}

// vcTexts19 write whatever a template can write: variables, fields, items of loops, results kept between
// operations, and literals and default values used as operands
var vcTexts19 = []string{
	// text and references
	"plain",
	"a${s}b c",
	"$undefined $s",
	"${n.S}$z.S",
	"$l.I($i)$l.S($s)$l.B($b)$l.F($f)",
	"$l.I($n.I) and $l.S($n.S)$l.B($n.B)$l.F($n.F)",
	"$l.I($p.I)$l.S($p.GetS())",
	// nothing behind the pointer
	"$l.I($z.I)$l.S($z.S)$l.B($z.B)$l.F($z.F)",
	"$l.I($z.I)#set($z.I = $i)$l.I($z.I)",
	"#set($z.S = $s)$z.S$l.S($in.P.S)",
	"#set($in.P.I = $i)$l.I($in.P.I)",
	"#set($in.P.S = \"lit\")#set($in.P.F = 1.5)#set($in.P.B = true)$l.S($in.P.S)$l.F($in.P.F)$l.B($in.P.B)",
	"#set($z.I = $z.I + 1)$l.I($z.I)",
	"#set($v = $z)$l.I($v.I)#set($v.I = 4)$l.I($v.I)",
	// literals become variables and change
	"#set($v = 5)#set($v = $v + $i)$l.I($v)",
	"#set($v = \"lit\")#set($v = $v + $s)$l.S($v)",
	"#set($v = true)$l.B($v)#set($v = $b)$l.B($v)",
	"#set($v = 1.5)#set($v = $v + $f)$l.F($v)",
	"#set($i = 0)#set($i = $i + 1)$l.I($i)#if($b)#set($i = 0)#end$l.I($i)",
	"#set($s = \"\")#set($s = $s + \"x\")$s$l.S($s)",
	"#set($b = true)#set($b = false)$l.B($b)",
	"#set($i++)$l.I($i)",
	// expressions
	"#set($v = ($i + $j) * 2)$l.I($v)",
	"#set($v = $i)#set($v = $v)#set($i = 4)$l.I($v)",
	"$l.B($i < $j)$l.B($s == \"a\")$l.B($b && $i > 0)$l.B(!$b)",
	"#set($b = !$b)$l.B($b)",
	"#set($v = $i > $j)$l.B($v)",
	// blocks
	"#if($b)${s}#else$l.I($i)#end",
	"#if($i > $j)gt#elseif($i == $j)eq#elselt#end",
	"#if($b)#set($y = $i)#end$l.I($y)",
	"#if(!$z.B)n#end#if($in.P.B)p#end",
	"#foreach($x in $q)$l.I($x)#end$l.I($x)",
	"#foreach($x in $q)#set($x = $x + 1)#set($y = $x)#end$l.I($y)",
	"#foreach($x in $in.L)$l.I($x.I)#set($y = $x.S)$l.S($y)#end",
	"#foreach($x in $in.Q)$l.I($x.I)#end",
	"#foreach($x in [1...3])#set($x = $x + $i)$l.I($x)#end",
	"#for($k = 0; $k < 2; $k++)$l.I($k)#set($y = $k)#end$l.I($y)",
	"#for($k = $i; $k < 0; $k++)#set($k = 5)#end$l.I($k)",
	// slices, maps, calls
	"$l.I($q[0])$l.I($q[$one])",
	"#set($v = $q[1])#set($v = $v + 1)$l.I($v)$l.I($q[1])",
	"$l.I($in.L[0].I)$l.S($in.Q[0].S)",
	"$l.I($m[\"a\"])$l.I($m[$s])",
	"#set($v = $m[$s])#set($v = $v + 1)$l.I($v)",
	"$l.I($l.E(false, $i))",
	"$l.I($l.E($b, $i))after",
	"#set($v = $l.E($b, $i))$l.I($v)",
	"#set($v = $l.N($i))$l.I($v.I)#set($v.I = 3)$l.I($v.I)",
	"$l.I($fn($i, 3))#set($v = $fn(2, $j))$l.I($v)",
	"$strings.ToUpper($s)$l.B($types.IsInt($i))",
	"$l.I($u.I)$l.S($u.S)#set($u = $n)$l.I($u.I)",
}

type vcEnv19 struct {
	s    string
	i, j int
	b    bool
	f    float64
	n, p vcLeaf
	q    [2]int
}

func vcEnvOf19() vcEnv19 {
	return vcEnv19{vspec.String(), vspec.Int(), vspec.Int(), vspec.Bool(), vspec.Float64(),
		vcLeaf{I: vspec.Int(), F: vspec.Float64(), S: vspec.String(), B: vspec.Bool()}, vcLeaf{I: vspec.Int(), S: vspec.String()},
		[2]int{vspec.Int(), vspec.Int()}}
}

// vars of the environment; no two of them share anything
func (e vcEnv19) vars(l *vcLog19) []vcVar {
	p := e.p
	in := &vcIn{I: e.i, S: e.s, L: []vcLeaf{e.n}, Q: []*vcLeaf{{I: e.p.I, S: e.p.S}}}
	return []vcVar{{"s", e.s}, {"i", e.i}, {"j", e.j}, {"b", e.b}, {"f", e.f}, {"n", e.n}, {"u", vcLeaf{}}, {"p", &p}, {"z", (*vcLeaf)(nil)},
		{"q", []int{e.q[0], e.q[1]}}, {"m", map[string]int{"a": e.i, "": e.j}}, {"one", 1}, {"in", in}, {"l", l}}
}

func vcPlanner19(opts ...Option) *Planner {
	p := New(opts...)
	err := p.RegisterFunction("fn", func(a, b int) int { return a + b })
	vspec.Assert(err == nil, "the function is registered")
	return p
}

// An execution writes nothing but its state, and what it makes.
func vcFrame19(from, to int, opts ...Option) {
	text := vcTexts19[from+vspec.Pick(to-from)]
	r := vcNewWith(vcPlanner19(opts...), text, vcEnvOf19().vars(&vcLog19{})...)
	other := r.newSt()
	vspec.Freeze("the plan is not changed", r.exec, r.p, r.newSt, r.st.StateType)
	vspec.Freeze("shared values are not changed", est.ZeroIntPtr, est.ZeroFloatPtr, est.EmptyStringPtr, est.TrueValuePtr, est.FalseValuePtr)
	vspec.Freeze("other states are not changed", other)
	vspec.FreezeOthers("nothing but the state is changed", r.st)
	_ = r.exec.Exec(r.st)
	_ = r.exec.Exec(r.st)
	vspec.Thaw()
	vspec.Cover("executed")
}

func VC_C19_Frame0() { vcFrame19(0, len(vcTexts19)) }

// Where the execution stops at the first error, too.
func VC_C19_FramePanic() { vcFrame19(0, len(vcTexts19), PanicOnError(true)) }

func VC_C19_FrameEscape() { vcFrame19(0, 4, EscapeHTML(true)) }

// vcStart19 makes a state with values and its log
func vcStart19(r *vcRun, e vcEnv19) (*est.State, *vcLog19) {
	l := &vcLog19{}
	r.fresh(e.vars(l)...)
	return r.st, l
}

// Each state gets what it gets alone, whatever other states do before, in between and afterwards; and equal states get
// the same.
func vcAlone19(from, to int) {
	text := vcTexts19[from+vspec.Pick(to-from)]
	e, o := vcEnvOf19(), vcEnvOf19()
	alone := &vcLog19{}
	a := vcNewWith(vcPlanner19(), text, e.vars(alone)...)
	errA := a.exec.Exec(a.st)
	r := vcNewWith(vcPlanner19(), text, o.vars(&vcLog19{})...)
	st, l := vcStart19(r, e)
	other, _ := vcStart19(r, o)
	_ = r.exec.Exec(other)
	errB := r.exec.Exec(st)
	vspec.Assert((errA == nil) == (errB == nil), "it fails exactly when it fails alone")
	vspec.Assert(len(a.st.Errors) == len(st.Errors), "the errors are those it has alone")
	out := st.Buffer.String()
	vcSame(out, "the output is that of the state alone", a.out())
	l.same(alone)
	_ = r.exec.Exec(other)
	vcSame(st.Buffer.String(), "the output stays", out)
	eq, m := vcStart19(r, e)
	_ = r.exec.Exec(eq)
	vcSame(eq.Buffer.String(), "equal states give the same output", out)
	m.same(alone)
}

func VC_C19_Alone0()  { vcAlone19(0, 1) }
func VC_C19_Alone1()  { vcAlone19(1, 2) }
func VC_C19_Alone2()  { vcAlone19(2, 3) }
func VC_C19_Alone3()  { vcAlone19(3, 4) }
func VC_C19_Alone4()  { vcAlone19(4, 9) }
func VC_C19_Alone5()  { vcAlone19(9, 10) }
func VC_C19_Alone6()  { vcAlone19(10, 19) }
func VC_C19_Alone7()  { vcAlone19(19, 20) }
func VC_C19_Alone8()  { vcAlone19(20, 27) }
func VC_C19_Alone9()  { vcAlone19(27, 28) }
func VC_C19_Alone10() { vcAlone19(28, 35) }
func VC_C19_Alone11() { vcAlone19(35, 44) }
func VC_C19_Alone12() { vcAlone19(44, 50) }
