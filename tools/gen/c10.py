"""contracts of C10: loops"""
K = [  # name, type, how two values are compared (a, b)
    ('Int', 'int', 'a == b'), ('Int8', 'int8', 'a == b'), ('Int16', 'int16', 'a == b'), ('Int32', 'int32', 'a == b'), ('Int64', 'int64', 'a == b'),
    ('Uint', 'uint', 'a == b'), ('Uint8', 'uint8', 'a == b'), ('Uint16', 'uint16', 'a == b'), ('Uint32', 'uint32', 'a == b'), ('Uint64', 'uint64', 'a == b'),
    ('Float64', 'float64', 'vspec.SameFloat(a, b)'), ('Float32', 'float32', 'vspec.Or(a == b, vspec.And(a != a, b != b))'), ('Bool', 'bool', 'a == b'),
    ('String', 'string', 'a == b'), ('Struct', 'vcPair', 'vspec.And(a.X == b.X, vspec.And(a.Y == b.Y, a.Z == b.Z))'),
    ('Odd', 'vcOdd', 'vspec.And(a.A == b.A, vspec.And(a.B == b.B, a.C == b.C))'),
]
P = [('PtrInt', '*int', 'a == b', 'i := vspec.Int(); return &i'), ('PtrStruct', '*vcPair', 'a == b', 'return &vcPair{X: vspec.Int()}'),
     ('Slice', '[]int', 'len(a) == len(b) && vcSameHead(unsafe.Pointer(&a), unsafe.Pointer(&b))', 'var x []int; vspec.Fill(&x); return x'),
     ('Map', 'map[string]int', 'reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()', 'return map[string]int{"k": vspec.Int()}'),
     ('Any', 'interface{}', 'a == b', 'i := vspec.Int(); if vspec.Pick(2) == 0 { return i }; return &i')]
o = ['''// Code generated by tools/gen/c10.py; DO NOT EDIT.

package velty

import (
	"errors"
	"reflect"
	"unsafe"

	"github.com/viant/velty/internal/vspec"
)

var _ = reflect.TypeOf

// vcPass runs a function with every pass
type vcPass struct {
	f func()
}

// Next is called in the body
func (p *vcPass) Next() int {
	p.f()
	return 0
}

// vcOdd has a size that is no multiple of a word
type vcOdd struct {
	A int8
	B int16
	C int8
}

// vcSameString compares the place and the length
func vcSameString(a, b string) bool {
	x, y := (*vcStrHead)(unsafe.Pointer(&a)), (*vcStrHead)(unsafe.Pointer(&b))
	return vspec.And(x.p == y.p, x.n == y.n)
}

type vcStrHead struct {
	p unsafe.Pointer
	n int
}

// vcReach is how the slice is reached
func vcReach(k int) (pre, ref, post string) {
	switch k {
	case 0:
		return "", "$v", ""
	case 1:
		return "", "$h.X", ""
	case 2:
		return "", "$g.X", ""
	case 3:
		return "", "$g.P.X", ""
	case 4:
		return "", "$h.P.X", ""
	case 5:
		return "#foreach($in in $o)", "$in", "#end"
	}
	return "", "$g.Get()", ""
}

func vcForEach(k int) string {
	pre, ref, post := vcReach(k)
	return pre + "#foreach($x in " + ref + ")#set($z = $s.Next())#end" + post
}
''']
for n, t, c in K:
    o.append('''
type vcHold%(n)s struct {
	Pad int8
	X   []%(t)s
	P   *vcHold%(n)s
	End int8
}

func (h *vcHold%(n)s) Get() []%(t)s { return h.X }

func vcEach%(n)s(l []%(t)s) {
	h := vcHold%(n)s{Pad: -1, X: l, End: -1}
	h.P = &vcHold%(n)s{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]%(t)s{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", %(zero)s})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*%(t)s)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(%(c)s, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of %(t)s of any length.
func VC_C10_Each%(n)s() {
	var l []%(t)s
	vspec.Fill(&l)
	vcEach%(n)s(l)
}
''' % dict(n=n, t=t, c=c, zero='*new(%s)' % t))
for n, t, c, mk in P:
    o.append('''
type vcHold%(n)s struct {
	Pad int8
	X   []%(t)s
	P   *vcHold%(n)s
	End int8
}

func (h *vcHold%(n)s) Get() []%(t)s { return h.X }

func vcMake%(n)s() %(t)s { %(mk)s }

// Slices of %(t)s of up to four elements, nil ones among them.
func VC_C10_Each%(n)s() {
	ln := vspec.Pick(5)
	var l []%(t)s
	for i := 0; i < ln; i++ {
		if i == 2 {
			l = append(l, nil)
			continue
		}
		l = append(l, vcMake%(n)s())
	}
	h := vcHold%(n)s{Pad: -1, X: l, End: -1}
	h.P = &vcHold%(n)s{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]%(t)s{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", %(zero)s})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*%(t)s)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(%(c)s, "the item is the element of the pass")
		n++
	}
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}
''' % dict(n=n, t=t, c=c, mk=mk, zero='vcIface{}' if n == 'Any' else '*new(%s)' % t))
o.append('''
// Loops inside loops: the inner loop starts anew at every pass.
func VC_C10_NestedFor() {
	a, b := vspec.Pick(4), vspec.Pick(4)
	i, j := 0, 0
	n := 0
	s := &vcPass{}
	r := vcNew("#for($i = 0; $i < $a; $i++)#for($j = $i; $j < $b; $j += 1)#set($z = $s.Next())#end#end", vcVar{"s", s}, vcVar{"z", 0}, vcVar{"a", a}, vcVar{"b", b}, vcVar{"i", 7}, vcVar{"j", 7})
	var is, js []int
	for i = 0; i < a; i++ {
		for j = i; j < b; j++ {
			is, js = append(is, i), append(js, j)
		}
	}
	pi, pj := (*int)(r.addr("i")), (*int)(r.addr("j"))
	s.f = func() {
		vspec.Assert(n < len(is), "no more passes than in Go")
		vspec.Assert(*pi == is[n] && *pj == js[n], "the variables are those of the pass")
		n++
	}
	r.run()
	vspec.Assert(n == len(is), "no fewer passes than in Go")
}

// A slice of any length inside another loop.
func VC_C10_NestedEach() {
	var l []int
	vspec.Fill(&l)
	k := vspec.Pick(3)
	n := 0
	s := &vcPass{}
	begins := 0
	s, q := &vcPass{}, &vcPass{}
	r := vcNew("#foreach($y in $o)#set($z = $q.Next())#foreach($x in $l)#set($z = $s.Next())#end|#end", vcVar{"s", s}, vcVar{"q", q}, vcVar{"z", 0}, vcVar{"l", l}, vcVar{"o", make([]string, k)})
	at := (*int)(r.addr("x"))
	q.f = func() {
		vspec.Assert(begins == 0 || n == len(l), "the inner loop has run in full at every pass")
		n = 0
		begins++
	}
	s.f = func() {
		vspec.Assert(n < len(l), "no more passes than elements")
		vspec.Assert(*at == l[n], "the item is the element of the pass")
		n++
	}
	r.run()
	vspec.Assert(k == 0 || n == len(l), "the inner loop runs in full at the last pass")
	vspec.Assert(begins == k && r.out() == "||"[:k], "the outer loop runs once for each element")
}

// What the passes render follows in order.
func VC_C10_Render() {
	n := vspec.Pick(4)
	l := make([]string, n)
	parts := []string{"<"}
	for i := 0; i < n; i++ {
		vspec.Fill(&l[i])
		parts = append(parts, "(", l[i], ")")
	}
	size, total := vspec.IntBetween(0, 1<<20), 2
	for i := 0; i < n; i++ {
		total += 2 + len(l[i])
	}
	vspec.Assume(total < size) // growing is C05
	p := New(BufferSize(size))
	forms := []string{"<#foreach($x in $l)(${x})#end>", "<#for($i = 0; $i < $n; $i++)(${l[$i]})#end>"}
	r := vcNewWith(p, forms[vspec.Pick(2)], vcVar{"l", l}, vcVar{"n", n}, vcVar{"i", 9})
	r.run()
	vcSame(r.out(), "the bodies' outputs", append(parts, ">")...)
}

// Ranges count up or down.
func VC_C10_Range() {
	cases := []string{"[0...0]", "[1...4]", "[4...1]", "[0...3]", "[7...9]", "[9...7]"}
	want := [][]int{{}, {1, 2, 3}, {4, 3, 2}, {0, 1, 2}, {7, 8}, {9, 8}}
	k := vspec.Pick(len(cases))
	n := 0
	s := &vcPass{}
	r := vcNew("#foreach($x in "+cases[k]+")#set($z = $s.Next())#end", vcVar{"s", s}, vcVar{"z", 0})
	at := (*int)(r.addr("x"))
	s.f = func() {
		vspec.Assert(n < len(want[k]), "no more passes than elements")
		vspec.Assert(*at == want[k][n], "the item is the element of the pass")
		n++
	}
	r.run()
	vspec.Assert(n == len(want[k]), "one pass for each element")
}
''')
open('/verif/contracts/zz_vc_c10.go', 'w').write(''.join(o))
o.append('''
// A #for loop with arbitrary bounds and steps: the variable takes the values it takes in Go.
func vcForLoop(post string, cond string, step func(i, c int) int, holds func(i, b int) bool) {
	a, b, c := vspec.Int(), vspec.Int(), vspec.Int()
	exp := a
	s := &vcPass{}
	r := vcNew("#for($i = $a; $i "+cond+" $b; "+post+")#set($z = $s.Next())#end", vcVar{"s", s}, vcVar{"z", 0}, vcVar{"a", a}, vcVar{"b", b}, vcVar{"c", c}, vcVar{"n1", int8(11)}, vcVar{"i", 0}, vcVar{"n2", int8(22)})
	at := (*int)(r.addr("i"))
	passes := 0
	vspec.Unroll(3)
	s.f = func() {
		if !vspec.Symbolic() {
			passes++
			vspec.Assume(passes < 1000)
		}
		vspec.Assert(*at == exp, "the variable has the value it has in Go")
		vspec.Assert(holds(exp, b), "the condition holds at every pass")
		exp = step(exp, c)
	}
	r.run()
	vspec.Assert(*at == exp, "the variable ends with the value it ends with in Go")
	vspec.Assert(!holds(exp, b), "the loop ends when the condition does not hold")
	vspec.Assert(*(*int8)(r.addr("n1")) == 11 && *(*int8)(r.addr("n2")) == 22 && *(*int)(r.addr("a")) == a && *(*int)(r.addr("b")) == b && *(*int)(r.addr("c")) == c, "no other variable changes")
}

func vcLess(i, b int) bool { return i < b }

func vcDiv(i, c int) int {
	vspec.Assume(c != 0)
	return i / c
}
''')
for n, post, cond, step, holds in [
        ('Inc', '$i++', '<', 'i + 1', 'i < b'), ('Dec', '$i--', '>', 'i - 1', 'i > b'), ('Add', '$i += $c', '<', 'i + c', 'i < b'),
        ('Sub', '$i -= $c', '>=', 'i - c', 'i >= b'), ('Mul', '$i *= $c', '<=', 'i * c', 'i <= b'), ('Div', '$i /= $c', '!=', 'vcDiv(i, c)', 'i != b')]:
    o.append('''
func VC_C10_For%s() {
	vcForLoop("%s", "%s", func(i, c int) int { return %s }, func(i, b int) bool { return %s })
}
''' % (n, post, cond, step, holds))
o.append('''
// vcTry fails when it is told to
type vcTry struct {
	fail  bool
	err   error
	begin func()
	end   func()
}

// Try is called in the body
func (t *vcTry) Try() (int, error) {
	t.begin()
	if t.fail {
		return 0, t.err
	}
	return 1, nil
}

// End is called at the end of the body
func (t *vcTry) End() int {
	t.end()
	return 0
}

// Passes whose calls fail are passes like any other when errors are collected: the loops go on.
func VC_C10_Failing() {
	n := vspec.Pick(4)
	fail := make([]bool, n)
	for i := range fail {
		fail[i] = vspec.Bool()
	}
	begins, ends := 0, 0
	t := &vcTry{err: errors.New("failure")}
	t.begin = func() {
		vspec.Assert(begins < n, "no more passes than elements")
		t.fail = fail[begins]
		begins++
	}
	t.end = func() { ends++ }
	forms := []string{"#foreach($x in $l)%%#end", "#for($i = 0; $i < $n; $i++)%%#end", "#foreach($x in $ps)%%#end", "#foreach($x in $ss)%%#end", "#foreach($x in [0...3])%%#end", "#for($i = $n; $i > 0; $i -= 1)%%#end",
		"#foreach($y in $one)#foreach($x in $l)%%#end#end", "#for($j = 0; $j < 1; $j++)#foreach($x in $l)%%#end#end", "#foreach($y in $one)#for($i = 0; $i < $n; $i++)%%#end#end", "#if($n >= 0)#foreach($x in $l)%%#end#end"}
	bodies := []string{"#set($z = $t.Try())#set($z = $t.End())", "#if($t.Try() > 0)#end#set($z = $t.End())", "$t.Try()$t.End()", "#set($z = $t.Try() + $t.End())"}
	f := vspec.Pick(len(forms))
	if f == 4 {
		n, fail = 3, []bool{vspec.Bool(), vspec.Bool(), vspec.Bool()}
	}
	body := bodies[vspec.Pick(len(bodies))]
	tmpl := ""
	for _, b := range forms[f] {
		if b == '%%' {
			tmpl += body
		} else {
			tmpl += string(b)
		}
	}
	r := vcNew(tmpl+"#set($z = $t.End())", vcVar{"t", t}, vcVar{"z", 0}, vcVar{"n", n}, vcVar{"i", 0}, vcVar{"j", 0}, vcVar{"l", make([]int, n)}, vcVar{"ps", make([]*vcPair, n)}, vcVar{"ss", make([]string, n)}, vcVar{"one", []int{1}})
	for k := 0; k < 2; k++ {
		begins, ends = 0, 0
		any := false
		for i := range fail {
			any = any || fail[i]
		}
		err := r.exec.Exec(r.st)
		vspec.Assert((err != nil) == any, "it fails exactly when a pass fails")
		vspec.Assert(begins == n, "all passes are run")
		vspec.Assert(ends == n+1, "every pass is run in full, and what follows the loop too")
		if any {
			break
		}
	}
}
'''.replace('%%', '%'))
o.append('''
type vcSwap struct {
	L, M []int
	P    *vcSwap
}

// Swap replaces the slice
func (h *vcSwap) Swap() int { h.L = h.M; return 0 }

// A body that replaces the slice, or the place it is read from, changes nothing about the passes.
func VC_C10_Replaced() {
	var l, m []int
	vspec.Fill(&l)
	vspec.Fill(&m)
	h := vcSwap{L: l, M: m}
	g := &vcSwap{L: l, M: m}
	g.P = &vcSwap{L: l, M: m}
	n := 0
	s := &vcPass{}
	forms := [][2]string{{"$l", "#set($l = $m)"}, {"$h.L", "#set($h.L = $m)"}, {"$g.L", "#set($g.L = $m)"}, {"$g.L", "#set($z = $g.Swap())"}, {"$g.P.L", "#set($g.P.L = $m)"}, {"$g.P.L", "#set($z = $g.P.Swap())"}, {"$g.P.L", "#set($g = $o)"}, {"$l", "#set($m = $l)#set($l = $g.M)"}}
	f := forms[vspec.Pick(len(forms))]
	body := f[1] + "#set($z = $s.Next())"
	if vspec.Pick(2) == 1 {
		body = "#set($z = $s.Next())" + f[1]
	}
	r := vcNew("#foreach($x in "+f[0]+")"+body+"#end", vcVar{"l", l}, vcVar{"m", m}, vcVar{"h", h}, vcVar{"g", g}, vcVar{"o", &vcSwap{P: &vcSwap{L: m}, L: m, M: m}}, vcVar{"s", s}, vcVar{"z", 0})
	at := (*int)(r.addr("x"))
	s.f = func() {
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}
''')
open('/verif/contracts/zz_vc_c10.go', 'w').write(''.join(o))
