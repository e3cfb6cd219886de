package velty

import (
	"errors"

	"github.com/viant/velty/est"
	"github.com/viant/velty/internal/vspec"
)

// The text of #evaluate renders as it does when compiled alone (C16).

// vcLog16 notes what the templates hand to it
type vcLog16 struct {
	ints  []int
	strs  []string
	bools []bool
}

func (l *vcLog16) I(v int) string    { l.ints = append(l.ints, v); return "i" }
func (l *vcLog16) S(v string) string { l.strs = append(l.strs, v); return "s" }
func (l *vcLog16) B(v bool) string   { l.bools = append(l.bools, v); return "b" }

func (l *vcLog16) same(o *vcLog16) {
	vspec.Assert(len(l.ints) == len(o.ints) && len(l.strs) == len(o.strs) && len(l.bools) == len(o.bools), "the same calls are made")
	for i := range l.ints {
		vspec.Assert(l.ints[i] == o.ints[i], "the same int is passed")
	}
	for i := range l.strs {
		vspec.Assert(l.strs[i] == o.strs[i], "the same string is passed")
	}
	for i := range l.bools {
		vspec.Assert(l.bools[i] == o.bools[i], "the same bool is passed")
	}
}

// vcTexts16 are templates of every kind of statement and expression
var vcTexts16 = []string{
	"",
	"plain",
	"$s",
	"a${s}b$s c",
	"$l.I($i)",
	"$l.S($s)$l.B($b)",
	"$l.I($n.I) and $l.S($n.S)",
	"$l.I($p.I)$l.S($p.GetS())",
	"#set($i = $i + 1)$l.I($i)",
	"#set($s = $s + \"x\")$s",
	"#set($new = $i)$l.I($new)",
	"#set($n.I = 5)$l.I($n.I)",
	"#if($b)${s}#else$l.I($i)#end",
	"#if($i > $j)gt#elseif($i == $j)eq#elselt#end",
	"#foreach($x in $q)$l.I($x)#end",
	"#for($k = 0; $k < 2; $k++)$l.I($k)#end",
	"$l.I($q[0])$l.I($q[$one])",
	"$l.B($i < $j)",
	"#set($z = ($i + $j) * 2)$l.I($z)",
	"## comment\nx",
	"#[[ $s #if ]]#",
	"$undefined $s",
	"#evaluate($inner)$s",
	"$strings.ToUpper($s)$l.B($types.IsInt($i))",
	"$f($i)",
}

// vcEnv16 is a set of variables with arbitrary values; the log is not part of it
type vcEnv16 struct {
	s, inner string
	i, j     int
	b        bool
	n, p     vcLeaf
	q        []int
}

func vcEnvOf16() vcEnv16 {
	return vcEnv16{vspec.String(), "($l.S($s))", vspec.Int(), vspec.Int(), vspec.Bool(),
		vcLeaf{I: vspec.Int(), S: vspec.String()}, vcLeaf{I: vspec.Int(), S: vspec.String()},
		[]int{vspec.Int(), vspec.Int()}}
}

// vars of the environment, with copies of what pointers lead to
func (e vcEnv16) vars(l *vcLog16) []vcVar {
	p := e.p
	return []vcVar{{"s", e.s}, {"inner", e.inner}, {"i", e.i}, {"j", e.j}, {"b", e.b}, {"n", e.n}, {"p", &p}, {"q", append([]int{}, e.q...)}, {"one", 1}, {"l", l}}
}

func vcPlanner16(opts ...Option) *Planner {
	p := New(opts...)
	err := p.RegisterFunction("f", func(i int) string { return "f" })
	vspec.Assert(err == nil, "the function is registered")
	return p
}

// vcAlone16 renders a text compiled alone
func vcAlone16(text string, e vcEnv16) (string, *vcLog16) {
	l := &vcLog16{}
	r := vcNewWith(vcPlanner16(), text, e.vars(l)...)
	r.run()
	return r.out(), l
}

// vcSize16 is one of the cache sizes
func vcSize16() Option { return CacheSize([]int{0, 1, 2, 100}[vspec.Pick(4)]) }

// A text renders as when compiled alone, at its place, the first time and again.
func vcAloneOut16(from, to int) {
	text := vcTexts16[from+vspec.Pick(to-from)]
	e := vcEnvOf16()
	out, _ := vcAlone16(text, e)
	m := &vcLog16{}
	size := CacheSize(2)
	if vspec.Pick(2) == 0 {
		size = 0
	}
	r := vcNewWith(vcPlanner16(size), "A${i2}#evaluate($t)B#evaluate($t)C", append(e.vars(m), vcVar{"t", text}, vcVar{"i2", "-"})...)
	r.run()
	vcSame(r.out(), "the output is that of the text", "A-", out, "B", out, "C")
}

func VC_C16_AloneOut0() { vcAloneOut16(0, 4) }
func VC_C16_AloneOut1() { vcAloneOut16(4, 14) }
func VC_C16_AloneOut2() { vcAloneOut16(14, 22) }
func VC_C16_AloneOut3() { vcAloneOut16(22, 25) }

// A text makes the calls it makes when compiled alone, each time.
func VC_C16_AloneCalls() {
	text := vcTexts16[4+vspec.Pick(21)]
	e := vcEnvOf16()
	_, l := vcAlone16(text, e)
	m := &vcLog16{}
	r := vcNewWith(vcPlanner16(vcSize16()), "#evaluate($t)#evaluate($t)", append(e.vars(m), vcVar{"t", text})...)
	r.run()
	two := &vcLog16{append(append([]int{}, l.ints...), l.ints...), append(append([]string{}, l.strs...), l.strs...), append(append([]bool{}, l.bools...), l.bools...)}
	m.same(two)
}

// What was evaluated before, by which state and with which values, does not matter.
func VC_C16_History() {
	size := vcSize16()
	texts := []string{"$l.S($s)", "#set($i = $i + $j)$l.I($i)", "#set($s = $n.S)$l.S($s)", "$l.I($j)$l.B($b)"}
	p := vcPlanner16(size)
	r := vcNewWith(p, "#evaluate($t)", append(vcEnvOf16().vars(&vcLog16{}), vcVar{"t", ""})...)
	round := func(text string) {
		e, m := vcEnvOf16(), &vcLog16{}
		r.fresh(append(e.vars(m), vcVar{"t", text})...)
		r.run()
		_, l := vcAlone16(text, e)
		m.same(l)
	}
	for n := 0; n < 3; n++ {
		if vspec.Pick(2) == 0 {
			round(texts[n])
		}
	}
	if vspec.Pick(2) == 0 {
		round(texts[0])
	}
	round(texts[vspec.Pick(4)])
}

// The assignments of the text do not reach the enclosing template.
func VC_C16_NoLeak() {
	e := vcEnvOf16()
	m := &vcLog16{}
	text := []string{"#set($i = 7)", "#set($s = \"x\")", "#set($b = true)", "#set($n.I = 7)", "#foreach($j in $q)#end", "#for($j = 5; $j < 6; $j++)#end", "#set($new = 4)#set($i = $new)", "#set($q = $q2)"}[vspec.Pick(8)]
	r := vcNewWith(vcPlanner16(vcSize16()), "#evaluate($t)", vcVar{"i", e.i}, vcVar{"j", e.j}, vcVar{"s", e.s}, vcVar{"b", e.b}, vcVar{"n", e.n}, vcVar{"q", append([]int{}, e.q...)}, vcVar{"t", text}, vcVar{"q2", []int{1, 2}})
	vspec.Freeze("the variables are not changed", r.st.Mem)
	r.run()
	vspec.Thaw()
	vspec.Assert(*(*int)(r.addr("i")) == e.i && *(*int)(r.addr("j")) == e.j && *(*bool)(r.addr("b")) == e.b, "the variables are not changed")
	l := m
	r = vcNewWith(vcPlanner16(vcSize16()), "#evaluate($t)$l.I($i)$l.I($j)$l.I($n.I)$l.S($s)$l.B($b)$l.I($q[0])", append(e.vars(l), vcVar{"t", text}, vcVar{"q2", []int{1, 2}})...)
	r.run()
	want := &vcLog16{[]int{e.i, e.j, e.n.I, e.q[0]}, []string{e.s}, []bool{e.b}}
	m.same(want)
}

// The current values are used: what the enclosing template assigned before, and variables it made.
func VC_C16_Current() {
	e := vcEnvOf16()
	m := &vcLog16{}
	tmpl, text, want := "", "", &vcLog16{}
	switch vspec.Pick(7) {
	case 0:
		tmpl, text = "#set($i = $j)#evaluate($t)", "$l.I($i)"
		want.ints = []int{e.j}
	case 1:
		tmpl, text = "#set($v = $j)#evaluate($t)", "$l.I($v)"
		want.ints = []int{e.j}
	case 2:
		tmpl, text = "#foreach($x in $q)#evaluate($t)#end", "$l.I($x)"
		want.ints = e.q
	case 3:
		tmpl, text = "#for($k = 0; $k < 3; $k++)#evaluate($t)#end", "$l.I($k)"
		want.ints = []int{0, 1, 2}
	case 4:
		tmpl, text = "#evaluate($t)#set($i = $j)#evaluate($t)", "$l.I($i)"
		want.ints = []int{e.i, e.j}
	case 5:
		tmpl, text = "#if($b)#set($s = $n.S)#evaluate($t)#else#evaluate($t)#end", "$l.S($s)"
		want.strs = []string{e.s}
		if e.b {
			want.strs = []string{e.n.S}
		}
	case 6:
		tmpl, text = "#set($p.I = $j)#evaluate($t)", "$l.I($p.I)"
		want.ints = []int{e.j}
	}
	r := vcNewWith(vcPlanner16(vcSize16()), tmpl, append(e.vars(m), vcVar{"t", text})...)
	r.run()
	m.same(want)
}

// The same text in scopes with other variables of the same names.
func VC_C16_Scopes() {
	size := vcSize16()
	text := "$l.S($s)#set($v = $s)$l.S($v)"
	e, m := vcEnvOf16(), &vcLog16{}
	a := vcNewWith(vcPlanner16(size), "#foreach($s in $w)#evaluate($t)#end#evaluate($t)", vcVar{"w", []string{e.s, e.n.S}}, vcVar{"t", text}, vcVar{"s", "q"}, vcVar{"l", m})
	a.run()
	last := m.strs[4]
	vspec.Assert(m.strs[0] == e.s && m.strs[1] == e.s && m.strs[2] == e.n.S && m.strs[3] == e.n.S && m.strs[5] == last && last == e.n.S, "the item is used")
	m2 := &vcLog16{}
	b := vcNewWith(vcPlanner16(size), "#evaluate($t)", vcVar{"pad", true}, vcVar{"l", m2}, vcVar{"t", text}, vcVar{"i", 0}, vcVar{"s", e.p.S})
	b.run()
	vspec.Assert(len(m2.strs) == 2 && m2.strs[0] == e.p.S && m2.strs[1] == e.p.S, "the variable of the other planner is used")
}

// Texts held by other operands than a variable.
func VC_C16_Operand() {
	s := vspec.String()
	text := "[$s]"
	in := &vcIn{S: text, P: &vcLeaf{S: text}}
	in.N.S = text
	tmpl := []string{"#evaluate($in.S)", "#evaluate($in.P.S)", "#evaluate($in.N.S)", "#evaluate($in.P.GetS())", "#evaluate($list[1])", "#evaluate($m[\"k\"])", "#set($u = $t)#evaluate($u)"}[vspec.Pick(7)]
	r := vcNew(tmpl, vcVar{"s", s}, vcVar{"t", text}, vcVar{"in", in}, vcVar{"list", []string{"", text}}, vcVar{"m", map[string]string{"k": text}})
	r.run()
	vcSame(r.out(), "the text is rendered", "[", s, "]")
}

// Errors of the text are errors of the execution.
func VC_C16_Errors() {
	n := 0
	fail := vspec.Bool()
	p := New(vcSize16())
	err := p.RegisterFunction("g", func(s string) (string, error) {
		n++
		if fail {
			return "", errors.New("g")
		}
		return s, nil
	})
	vspec.Assert(err == nil, "the function is registered")
	s := vspec.String()
	r := vcNewWith(p, "a#evaluate($t)b", vcVar{"t", "$g($s)"}, vcVar{"s", s})
	err = r.exec.Exec(r.st)
	vspec.Assert((err != nil) == fail, "the error is reported")
	vspec.Assert(n == 1, "the function is called once")
	if !fail {
		vcSame(r.out(), "the output", "a", s, "b")
	}
}

// A variable added to the planner after the state was made is not in the state.
func VC_C16_Later() {
	s := vspec.String()
	p := New(vcSize16())
	r := vcNewWith(p, "#evaluate($t)", vcVar{"s", s}, vcVar{"t", "[$s]"})
	if vspec.Pick(2) == 0 {
		err := p.DefineVariable("later", vcLeaf{})
		vspec.Assert(err == nil, "a variable is added")
	} else {
		_, _, err := p.Compile([]byte("#set($later = $s)"))
		vspec.Assert(err == nil, "another template is compiled")
	}
	r.run()
	vcSame(r.out(), "the text is rendered", "[", s, "]")
	var st *est.State = r.newSt()
	vspec.Assert(st.SetValue("s", s) == nil && st.SetValue("t", "$s") == nil, "the value is stored")
	vspec.Assert(r.exec.Exec(st) == nil, "no error")
	vcSame(st.Buffer.String(), "the text is rendered", s)
}
