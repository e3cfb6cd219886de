"""contracts of C14: calls"""
SAME = {'float64': 'vspec.SameFloat(%s, %s)', 'float32': 'vspec.Or(%s == %s, false)'}
def same(t, a, b):
    if t == 'float64':
        return 'vspec.SameFloat(%s, %s)' % (a, b)
    if t.startswith('[]'):
        return 'vcSameHead(unsafe.Pointer(&%s), unsafe.Pointer(&%s))' % (a, b)
    if t == 'vcPair':
        return 'vspec.And(%s.X == %s.X, vspec.And(%s.Y == %s.Y, %s.Z == %s.Z))' % (a, b, a, b, a, b)
    return '%s == %s' % (a, b)
FAST = ['string,string:bool', 'string,string:string', 'string:string', 'string,string:int', 'string:int', 'string:bool', 'string,string,int:int', 'string,string,string:bool', 'string,string:[]string',
        'string,string,int:bool', 'string,int:string', 'string,int,int:string', '[]int,int:bool', '[]bool,bool:bool', '[]float64,float64:bool', '[]uint8,uint8:bool', '[]string,string:bool',
        '[]int,[]int:bool', '[]bool,[]bool:bool', '[]float64,[]float64:bool', '[]uint8,[]uint8:bool', '[]string,[]string:bool', '[]int,int:int', '[]bool,int:bool', '[]float64,int:float64', '[]uint8,int:uint8', '[]string,int:string',
        '[]int:bool', '[]bool:bool', '[]float64:bool', '[]uint8:bool', '[]string:bool', '[]int:int', '[]bool:int', '[]float64:int', '[]string:int', 'int:string', 'bool:string', 'float64:string']
REFL = [':int', ':string', 'int:int', 'int,int:int', 'int,string:string', 'float64,bool,string:float64', 'int8,*vcPair,[]string,uint8:bool', 'int,int,int,int,int:int', 'string,string,string,string,string,string:string',
        'int,string,float64,bool,int64,uint8,string:vcPair', 'bool,bool,int,int,string,string,float64,float64:*vcPair', 'string,string,string:string', 'uint64,int16,int32:[]int', 'vcPair,int:vcPair', '*vcPair:*vcPair', 'int,[]int,int,[]int:[]int', 'int,int,int:bool', 'int,int,int,int:string']
T = sorted({t for s in FAST + REFL for t in (s.replace(':', ',').split(',')) if t})
def nm(t):
    return t.replace('[]', 'L').replace('*', 'P').capitalize() if not t.startswith('*') and not t.startswith('[]') else ('L' if t[0] == '[' else 'P') + t.lstrip('[]*').capitalize()
o = ['''// Code generated by tools/gen/c14.py; DO NOT EDIT.

package velty

import (
	"errors"
	"reflect"
	"strconv"
	"unsafe"

	"github.com/viant/velty/internal/vspec"
)

var _ = reflect.TypeOf

// vcGot14 gets the result of a call
type vcGot14 struct {
	n int
	f func(p unsafe.Pointer)
}

func (g *vcGot14) got(p unsafe.Pointer) int {
	g.n++
	g.f(p)
	return 0
}
''']
for t in T:
    o.append('\n// To%s takes a %s\nfunc (g *vcGot14) To%s(v %s) int { return g.got(unsafe.Pointer(&v)) }\n' % (nm(t), t, nm(t), t))
def fill(v, t):
    if t == '*vcPair':
        return '\t%s := &vcPair{X: vspec.Int()}\n' % v
    return '\tvar %s %s\n\tvspec.Fill(&%s)\n' % (v, t, v)
def contract(name, doc, sig, ns):
    args, res = sig.split(':')
    args = [a for a in args.split(',') if a]
    s = '\n// %s\nfunc VC_C14_%s() {\n' % (doc, name)
    for i, t in enumerate(args):
        s += fill('a%d' % i, t)
    s += fill('want', res)
    s += '\tcalls, others := 0, 0\n'
    s += '\tf := func(%s) %s {\n\t\tcalls++\n' % (', '.join('x%d %s' % (i, t) for i, t in enumerate(args)), res)
    for i, t in enumerate(args):
        s += '\t\tvspec.Assert(%s, "argument %d is the value of its expression")\n' % (same(t, 'x%d' % i, 'a%d' % i), i)
    s += '\t\treturn want\n\t}\n'
    s += '\tg := &vcGot14{f: func(p unsafe.Pointer) {\n\t\tr := *(*%s)(p)\n\t\tvspec.Assert(calls == 1, "the call is made before its result is used")\n\t\tvspec.Assert(%s, "the call denotes the result")\n\t}}\n' % (res, same(res, 'r', 'want'))
    s += '\tother := func(%s) %s { others++; return want }\n' % (', '.join('x%d %s' % (i, t) for i, t in enumerate(args)), res)
    s += '\tp := New()\n\tvspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")\n'
    if args:
        s += '\th := struct {\n\t\tPad int8\n%s\t}{1%s}\n' % (''.join('\t\tA%d %s\n' % (i, t) for i, t in enumerate(args)), ''.join(', a%d' % i for i in range(len(args))))
        s += '\targs := []string{"%s", "%s", "%s", "%s"}[vspec.Pick(4)]\n' % (','.join('$a%d' % i for i in range(len(args))), ', '.join('$h.A%d' % i for i in range(len(args))), ', '.join('$g.A%d' % i for i in range(len(args))),
                                                                     ', '.join(('$a%d', '$g.A%d')[i % 2] % i for i in range(len(args))))
        vs = ', vcVar{"h", h}, vcVar{"g", &h}' + ''.join(', vcVar{"a%d", a%d}' % (i, i) for i in range(len(args)))
    else:
        s += '\targs := ""\n'
        vs = ''
    s += '\tr := vcNewWith(p, "#set($z = $s.To%s($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}%s)\n' % (nm(res), vs)
    s += '\tfor k := 1; k < 3; k++ {\n\t\tcalls, g.n = 0, 0\n\t\tr.run()\n\t\tvspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")\n\t\tvspec.Assert(g.n == 1, "the result is used once")\n\t}\n}\n'
    o.append(s)
for k, sig in enumerate(FAST):
    contract('Fast%d' % k, 'A function (%s) %s.' % tuple(sig.split(':')), sig, False)
for k, sig in enumerate(REFL):
    contract('Func%d' % k, 'A function (%s) %s.' % tuple(sig.split(':')), sig, False)
# methods: value and pointer receivers, namespaces
METH = [('M0', []), ('M1', ['int']), ('M2', ['string', 'int']), ('M3', ['float64', 'bool', 'string']), ('M4', ['int', 'int', 'int', 'int']), ('M5', ['int', 'string', 'int', 'string', 'int']), ('M6', ['int'] * 6), ('M7', ['string', 'int', 'bool', 'string', 'int', 'bool', 'float64'])]
o.append('''
// vcLog14 is what a receiver expects
type vcLog14 struct {
	Tag   int
	calls int
	check func(m int, tag int, args []unsafe.Pointer)
	back  func() int
}

// VcVal14 has methods on the value
type VcVal14 struct {
	Pad int8
	Tag int
	Log *vcLog14
}

// VcPtr14 has methods on the pointer
type VcPtr14 struct {
	Pad int8
	Tag int
	Log *vcLog14
}

// VcIf14 has methods
type VcIf14 interface {
''')
def params(a):
    return ', '.join('x%d %s' % (i, t) for i, t in enumerate(a))
for n, a in METH:
    o.append('\t%s(%s) int\n' % (n, params(a)))
o.append('}\n')
for recv in ('v VcVal14', 'v *VcPtr14'):
    for i, (n, a) in enumerate(METH):
        o.append('\n// %s is a method\nfunc (%s) %s(%s) int { return v.Log.got(%d, v.Tag%s) }\n' % (n, recv, n, params(a), i, ''.join(', unsafe.Pointer(&x%d)' % k for k in range(len(a)))))
o.append('''
func (l *vcLog14) got(m int, tag int, args ...unsafe.Pointer) int {
	l.calls++
	l.check(m, tag, args)
	return l.back()
}

func vcSame14(k byte, p, q unsafe.Pointer) bool {
	switch k {
	case 'i':
		x, y := *(*int)(p), *(*int)(q)
		return x == y
	case 's':
		x, y := *(*string)(p), *(*string)(q)
		return x == y
	case 'b':
		x, y := *(*bool)(p), *(*bool)(q)
		return x == y
	}
	x, y := *(*float64)(p), *(*float64)(q)
	return vspec.SameFloat(x, y)
}

// Methods with up to seven arguments, on every form of receiver.
func VC_C14_Methods() {
	kinds := []string{%s}
	m := vspec.Pick(len(kinds))
	tag := vspec.Int()
	log := &vcLog14{}
	want := vspec.Int()
	log.back = func() int { return want }
	var given []unsafe.Pointer
	var vars []vcVar
	text := ""
	for k := 0; k < len(kinds[m]); k++ {
		name := "a" + string(rune('0'+k))
		if k > 0 {
			text += ","
		}
		text += "$" + name
		switch kinds[m][k] {
		case 'i':
			x := vspec.Int()
			given, vars = append(given, unsafe.Pointer(&x)), append(vars, vcVar{name, x})
		case 's':
			x := vspec.String()
			given, vars = append(given, unsafe.Pointer(&x)), append(vars, vcVar{name, x})
		case 'b':
			x := vspec.Bool()
			given, vars = append(given, unsafe.Pointer(&x)), append(vars, vcVar{name, x})
		case 'f':
			x := vspec.Float64()
			given, vars = append(given, unsafe.Pointer(&x)), append(vars, vcVar{name, x})
		}
	}
	log.check = func(n int, t int, args []unsafe.Pointer) {
		vspec.Assert(n == m, "the named method is called")
		vspec.Assert(t == tag, "the method gets its receiver")
		vspec.Assert(len(args) == len(given), "the method gets all arguments")
		for k := range args {
			vspec.Assert(vcSame14(kinds[m][k], args[k], given[k]), "an argument is the value of its expression")
		}
	}
	others := 0
	bad := &vcLog14{check: func(n int, t int, args []unsafe.Pointer) { others++ }, back: func() int { return 0 }}
	v, w := VcVal14{1, tag, log}, VcPtr14{1, tag, log}
	xv, xw := VcVal14{1, tag, bad}, VcPtr14{1, tag, bad}
	p := New()
	ref := ""
	switch vspec.Pick(15) {
	case 0:
		ref, vars = "$r", append(vars, vcVar{"r", v})
	case 1:
		ref, vars = "$r", append(vars, vcVar{"r", &v})
	case 2:
		ref, vars = "$r", append(vars, vcVar{"r", &w})
	case 3:
		ref, vars = "$h.R", append(vars, vcVar{"h", struct {
			P int8
			X VcVal14
			R VcVal14
		}{1, xv, v}})
	case 4:
		ref, vars = "$h.R", append(vars, vcVar{"h", &struct {
			P int8
			X *VcPtr14
			R *VcPtr14
		}{1, &xw, &w}})
	case 5:
		ref, vars = "$r[1]", append(vars, vcVar{"r", []VcVal14{xv, v, xv}})
	case 6:
		ref, vars = "$r[1]", append(vars, vcVar{"r", []*VcPtr14{&xw, &w, &xw}})
	case 7:
		vspec.Assert(p.RegisterFuncNs("ns", v) == nil && p.RegisterFuncNs("nt", xv) == nil, "a namespace is registered")
		ref = "$ns"
	case 8:
		vspec.Assert(p.RegisterFuncNs("ns", &w) == nil && p.RegisterFuncNs("nt", &xw) == nil, "a namespace is registered")
		ref = "$ns"
	case 9:
		ref, vars = "$h.Of($h.K)", append(vars, vcVar{"h", &vcMake14{K: 2, v: []VcVal14{xv, xv, v}}})
	case 10:
		ref, vars = "$h.Ptr(1)", append(vars, vcVar{"h", &vcMake14{p: []*VcPtr14{&xw, &w}}})
	case 11:
		ref, vars = "$r", append(vars, vcVar{"r", []VcIf14{v}})
		ref = "$r[0]"
	case 12:
		ref, vars = "$h.R", append(vars, vcVar{"h", &struct {
			P int8
			R VcIf14
		}{1, &w}})
	case 13:
		ref, vars = "$r[\\"k\\"]", append(vars, vcVar{"r", map[string]*VcPtr14{"k": &w, "l": &xw}})
	case 14:
		ref, vars = "$h.R", append(vars, vcVar{"h", struct {
			P int8
			R *VcVal14
		}{1, &v}})
	}
	g := &vcGot14{f: func(p unsafe.Pointer) { vspec.Assert(*(*int)(p) == want, "the call denotes the result") }}
	r := vcNewWith(p, "#set($z = $s.ToInt("+ref+".M"+string(rune('0'+m))+"("+text+")))", append(vars, vcVar{"s", g}, vcVar{"z", 0})...)
	for k := 0; k < 2; k++ {
		log.calls, g.n = 0, 0
		r.run()
		vspec.Assert(log.calls == 1 && others == 0, "the method is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

type vcMake14 struct {
	K int
	v []VcVal14
	p []*VcPtr14
}

// Of gives a receiver
func (m *vcMake14) Of(k int) VcVal14 { return m.v[k] }

// Ptr gives a receiver
func (m *vcMake14) Ptr(k int) *VcPtr14 { return m.p[k] }

// vcCount counts calls and fails
type vcCount struct {
	log  []int
	next int
	err  error
	V    int
}

// F is called
func (c *vcCount) F(k int) int { c.log = append(c.log, k); return c.V + k }

// S is called
func (c *vcCount) S(k int) string { c.log = append(c.log, k); return "s" }

// B is called
func (c *vcCount) B(k int) bool { c.log = append(c.log, k); return c.V > 0 }

// L is called
func (c *vcCount) L(k int) []int { c.log = append(c.log, k); return []int{1, 2} }

// Sum is called
func (c *vcCount) Sum(a, b, d int) int { c.log = append(c.log, 100); return a + b + d }

// Self is called
func (c *vcCount) Self(k int) *vcCount { c.log = append(c.log, k); return c }

// Calls wherever an expression can be are made once, in source order.
func VC_C14_Once() {
	c := &vcCount{V: vspec.Int()}
	cases := []struct {
		text string
		log  []int
	}{
		{"$c.F(1)", []int{1}},
		{"${c.F(1)}", []int{1}},
		{"$c.F(1)$c.F(2)$c.S(3)", []int{1, 2, 3}},
		{"#set($x = $c.F(1))", []int{1}},
		{"#set($x = $c.F(1) + $c.F(2))", []int{1, 2}},
		{"#set($x = $c.F(1) - $c.F(2) * $c.F(3))", nil},
		{"#if($c.B(1))#end", []int{1}},
		{"#if($c.F(1) > $c.F(2))a#else b#end", []int{1, 2}},
		{"#if($c.F(1) == 5)a#end", []int{1}},
		{"#set($x = $c.Sum($c.F(1), $c.F(2), $c.F(3)))", []int{1, 2, 3, 100}},
		{"#set($x = $c.F($c.F($c.F(1))))", nil},
		{"#foreach($i in $c.L(1))#end", []int{1}},
		{"#foreach($i in $c.L(1))#set($x = $c.F(2))#end", []int{1, 2, 2}},
		{"#set($x = $c.Self(1).F(2))", []int{1, 2}},
		{"#set($x = $c.Self(1).Self(2).Self(3).F(4))", []int{1, 2, 3, 4}},
		{"#set($x = $c.Self(1).V)", []int{1}},
		{"#set($x = $c.Self(1).Self(2).V)", []int{1, 2}},
		{"$c.Self(1).V", []int{1}},
		{"#set($x = $c.L(1)[1])", []int{1}},
		{"#set($y = $c.S(1) + $c.S(2))", []int{1, 2}},
		{"#set($x = $c.Self(1).L(2)[0])", []int{1, 2}},
		{"#for($i = 0; $i < $c.Two(); $i++)#set($x = $c.F(1))#end", []int{7, 1, 7, 1, 7}},
	}
	k := vspec.Pick(len(cases))
	if k < 3 || k == 17 {
		c.V = 5
	}
	r := vcNew(cases[k].text, vcVar{"c", c}, vcVar{"x", 0}, vcVar{"y", ""})
	r.run()
	if k == 5 {
		vspec.Assert(len(c.log) == 3 && c.log[0]+c.log[1]+c.log[2] == 6 && c.log[0]*c.log[1]*c.log[2] == 6, "each call is made once")
		return
	}
	if k == 10 {
		vspec.Assert(len(c.log) == 3, "each call is made once")
		vspec.Assert(vspec.And(c.log[0] == 1, vspec.And(c.log[1] == c.V+1, c.log[2] == c.V+c.V+1)), "the inner call is made first, and its result is the argument")
		return
	}
	vspec.Assert(len(c.log) == len(cases[k].log), "each call is made once")
	for i := 0; i < len(c.log) && i < len(cases[k].log); i++ {
		vspec.Assert(c.log[i] == cases[k].log[i], "calls are made in source order")
	}
}

// Two is called
func (c *vcCount) Two() int { c.log = append(c.log, 7); return 2 }

// vcFail14 fails when told to
type vcFail14 struct {
	fail []bool
	errs []error
	log  []int
}

func (f *vcFail14) one(k int) error {
	f.log = append(f.log, k)
	if f.fail[k] {
		return f.errs[k]
	}
	return nil
}

// I fails or not
func (f *vcFail14) I(k int) (int, error) { return k, f.one(k) }

// S fails or not
func (f *vcFail14) S(k int) (string, error) { return "s", f.one(k) }

// B fails or not
func (f *vcFail14) B(k int) (bool, error) { return true, f.one(k) }

// L fails or not
func (f *vcFail14) L(k int) ([]int, error) { return []int{1}, f.one(k) }

// P fails or not
func (f *vcFail14) P(k int) (*vcPair, error) { return &vcPair{X: 3}, f.one(k) }

// A fails or not
func (f *vcFail14) A(k int, more ...int) (int, error) { return k, f.one(k) }

// T takes
func (f *vcFail14) T(v int) int { return v }

// A failing call anywhere is reported.
func VC_C14_Errors() {
	f := &vcFail14{errs: []error{errors.New("e0"), errors.New("e1"), errors.New("e2")}}
	some := false
	for k := 0; k < 3; k++ {
		b := vspec.Bool()
		f.fail = append(f.fail, b)
	}
	texts := []struct {
		text string
		n    int
	}{
		{"$f.I(0)", 1},
		{"$f.S(0)", 1},
		{"#set($x = $f.I(0))", 1},
		{"#set($y = $f.S(0))", 1},
		{"#if($f.B(0))a#end", 1},
		{"#foreach($i in $f.L(0))#end", 1},
		{"#set($x = $f.P(0).X)", 1},
		{"#set($x = $f.T($f.I(0)))", 1},
		{"#set($x = $f.I(0) + $f.I(1))", 2},
		{"$f.I(0)$f.S(1)$f.I(2)", 3},
		{"#set($x = $f.A(0))", 1},
		{"#set($x = $f.A(0, 1, 2, 3, 4, 5))", 1},
		{"$fn(0)", 1},
		{"#set($x = $fn(0) + 1)", 1},
		{"#foreach($i in $two)$f.I(0)#end", 1},
		{"${ns.I(0)}", 1},
	}
	k := vspec.Pick(len(texts))
	p := New()
	vspec.Assert(p.RegisterFunction("fn", func(k int) (int, error) { return f.I(k) }) == nil, "a function is registered")
	vspec.Assert(p.RegisterFuncNs("ns", f) == nil, "a namespace is registered")
	r := vcNewWith(p, texts[k].text, vcVar{"f", f}, vcVar{"x", 0}, vcVar{"y", ""}, vcVar{"two", []int{1, 2}})
	err := r.exec.Exec(r.st)
	var first error
	for k := len(f.log) - 1; k >= 0; k-- {
		if f.fail[f.log[k]] {
			some, first = true, f.errs[f.log[k]]
		}
	}
	vspec.Assert(len(f.log) >= 1, "the call is made")
	vspec.Assert((err != nil) == some, "an error is reported exactly when a call fails")
	if some {
		vspec.Assert(errors.Is(err, first), "the reported error is what the call returned")
	}
}

// VcVariadic14 has a variadic method
type VcVariadic14 struct{ f func(s string, l []int) int }

// V is variadic
func (v *VcVariadic14) V(s string, l ...int) int { return v.f(s, l) }

// Any takes everything
func (v *VcVariadic14) Any(l ...interface{}) int { return v.g(l) }

func (v *VcVariadic14) g(l []interface{}) int {
	n := make([]int, 0, 8)
	for _, x := range l {
		n = append(n, x.(int))
	}
	return v.f("", n)
}

// Variadic functions and methods with up to seven arguments.
func VC_C14_Variadic() {
	n := vspec.Pick(8)
	s := vspec.String()
	var l []int
	text := ""
	vars := []vcVar{{"s", s}, {"z", 0}}
	for k := 0; k < n; k++ {
		name := "a" + string(rune('0'+k))
		x := vspec.Int()
		l, vars = append(l, x), append(vars, vcVar{name, x})
		text += ",$" + name
	}
	calls := 0
	form := vspec.Pick(3)
	got := func(q string, m []int) int {
		calls++
		if form < 2 {
			vspec.Assert(q == s, "the first argument is passed")
		}
		vspec.Assert(len(m) == len(l), "all arguments are passed")
		for k := 0; k < len(m) && k < len(l); k++ {
			vspec.Assert(m[k] == l[k], "the arguments are passed in order")
		}
		return 0
	}
	v := &VcVariadic14{got}
	p := New()
	vspec.Assert(p.RegisterFunction("fn", func(s string, l ...int) int { return got(s, l) }) == nil, "a function is registered")
	t := ""
	switch form {
	case 0:
		t = "$v.V($s" + text + ")"
	case 1:
		t = "$fn($s" + text + ")"
	case 2:
		if text != "" {
			text = text[1:]
		}
		t = "$v.Any(" + text + ")"
	}
	r := vcNewWith(p, "#set($z = "+t+")", append(vars, vcVar{"v", v})...)
	r.run()
	vspec.Assert(calls == 1, "the function is called once")
}

// Literal arguments.
func VC_C14_Literals() {
	calls := 0
	ints := func(a, b, c int) int {
		calls++
		vspec.Assert(a == 1 && b == -23 && c == 0, "literal numbers are passed")
		return 0
	}
	strs := func(a, b, c string) int {
		calls++
		vspec.Assert(a == "x" && b == "" && c == "a, (b)", "literal strings are passed")
		return 0
	}
	mix := func(a int, b string, c float64, d bool) int {
		calls++
		vspec.Assert(a == 7 && b == "7" && c == 1.5 && d, "literals are passed in order")
		return 0
	}
	i := vspec.Int()
	exprs := func(a, b, c int) int {
		calls++
		vspec.Assert(vspec.And(a == i+1, vspec.And(b == i*2, c == 3-i)), "expressions are passed in order")
		return 0
	}
	p := New()
	vspec.Assert(p.RegisterFunction("ints", ints) == nil && p.RegisterFunction("strs", strs) == nil && p.RegisterFunction("mix", mix) == nil && p.RegisterFunction("exprs", exprs) == nil, "functions are registered")
	t := []string{"$ints(1,-23,0)", "$ints( 1 , -23 , 0 )", "$strs(\\"x\\",\\"\\",\\"a, (b)\\")", "$mix(7, \\"7\\", 1.5, true)", "$exprs($i + 1, $i * 2, 3 - $i)", "$exprs(($i+1),($i*2),(3-$i))"}[vspec.Pick(6)]
	r := vcNewWith(p, "#set($z = "+t+")", vcVar{"z", 0}, vcVar{"i", i})
	r.run()
	vspec.Assert(calls == 1, "the function is called once")
}

// VcSmall14 returns small values
type VcSmall14 struct{ v []int }

func (s *VcSmall14) I8() int8     { return int8(s.v[0]) }
func (s *VcSmall14) U8() uint8    { return uint8(s.v[0]) }
func (s *VcSmall14) I16() int16   { return int16(s.v[0]) }
func (s *VcSmall14) U16() uint16  { return uint16(s.v[0]) }
func (s *VcSmall14) I32() int32   { return int32(s.v[0]) }
func (s *VcSmall14) U32() uint32  { return uint32(s.v[0]) }
func (s *VcSmall14) B() bool      { return s.v[0] > 0 }
func (s *VcSmall14) F() float32   { return 1.5 }
func (s *VcSmall14) O() vcOdd14   { return vcOdd14{1, 2} }
func (s *VcSmall14) Is8(x int8) int     { return s.is(x == int8(s.v[0])) }
func (s *VcSmall14) IsU8(x uint8) int   { return s.is(x == uint8(s.v[0])) }
func (s *VcSmall14) Is16(x int16) int   { return s.is(x == int16(s.v[0])) }
func (s *VcSmall14) IsU16(x uint16) int { return s.is(x == uint16(s.v[0])) }
func (s *VcSmall14) Is32(x int32) int   { return s.is(x == int32(s.v[0])) }
func (s *VcSmall14) IsU32(x uint32) int { return s.is(x == uint32(s.v[0])) }
func (s *VcSmall14) IsB(x bool) int     { return s.is(x == (s.v[0] > 0)) }
func (s *VcSmall14) IsF(x float32) int  { return s.is(x == 1.5) }
func (s *VcSmall14) IsO(x vcOdd14) int  { return s.is(x == vcOdd14{1, 2}) }
func (s *VcSmall14) is(ok bool) int {
	vspec.Assert(ok, "a small result is passed on")
	return 0
}

type vcOdd14 struct {
	A int16
	B int8
}

// Results of small types, next to variables made by the template.
func VC_C14_SmallResults() {
	v := vspec.Int()
	call := [][2]string{{"I8", "Is8"}, {"U8", "IsU8"}, {"I16", "Is16"}, {"U16", "IsU16"}, {"I32", "Is32"}, {"U32", "IsU32"}, {"B", "IsB"}, {"F", "IsF"}, {"O", "IsO"}}[vspec.Pick(9)]
	s := &VcSmall14{[]int{v}}
	x := vspec.Bool()
	out := &vcOut{}
	text := "#foreach($i in $l)#if($i == 2)#set($z = $s." + call[1] + "($s." + call[0] + "()))#end#if($i == 1)#set($x = $t)#end#set($o.B = $x)#end"
	r := vcNew(text, vcVar{"s", s}, vcVar{"l", []int{1, 2}}, vcVar{"z", 0}, vcVar{"t", x}, vcVar{"o", out})
	r.run()
	vspec.Assert(out.B == x, "no other variable changes")
}

type vcGetA struct{ X int }

func (a vcGetA) Get() int { return a.X }

type vcGetB struct{ P, Q int }

func (a vcGetB) Get() int { return a.Q }

func vcLocal1(x int) interface{} {
	type T struct{ vcGetA }
	return T{vcGetA{x}}
}

func vcLocal2(x int) interface{} {
	type T struct{ vcGetB }
	return T{vcGetB{-1, x}}
}

// Types that are named alike have their own methods.
func VC_C14_SameName() {
	a, b := vspec.Int(), vspec.Int()
	r := vcNew([]string{"#set($x = $a.Get())#set($y = $b.Get())", "#set($y = $b.Get())#set($x = $a.Get())"}[vspec.Pick(2)], vcVar{"a", vcLocal1(a)}, vcVar{"b", vcLocal2(b)}, vcVar{"x", 0}, vcVar{"y", 0})
	r.run()
	x, y := *(*int)(r.addr("x")), *(*int)(r.addr("y"))
	vspec.Assert(x == a, "the method of the first type is called")
	vspec.Assert(y == b, "the method of the second type is called")
}

// vcKind14 is a function of a kind
type vcKind14 struct {
	kinds []reflect.Kind
	f     interface{}
}

func (k vcKind14) Kind() []reflect.Kind { return k.kinds }
func (k vcKind14) Handler() interface{} { return k.f }

type vcInts14 []int

// Functions of kinds and types.
func VC_C14_KindFunc() {
	i, j := vspec.Int(), vspec.Int()
	calls := 0
	k := vcKind14{[]reflect.Kind{reflect.Slice}, func(l vcInts14, a int) int {
		calls++
		vspec.Assert(vspec.And(len(l) == 2, vspec.And(l[0] == i, l[1] == j)), "the receiver is passed")
		vspec.Assert(a == j, "the argument is passed")
		return a
	}}
	p := New()
	vspec.Assert(p.RegisterFunctionKind("Fn", k) == nil, "a function of a kind is registered")
	r := vcNewWith(p, "#set($x = $l.Fn($j))", vcVar{"l", vcInts14{i, j}}, vcVar{"j", j}, vcVar{"x", 0})
	r.run()
	vspec.Assert(calls == 1, "the function is called once")
	x := *(*int)(r.addr("x"))
	vspec.Assert(x == j, "the call denotes the result")
}
''' % ', '.join('"%s"' % ''.join(t[0] for t in a) for n, a in METH))
o.append("""
// vcNest14 writes its calls down
type vcNest14 struct {
	calls [][]unsafe.Pointer
	back  []int
	text  []string
}

func (c *vcNest14) got(args ...unsafe.Pointer) int {
	c.calls = append(c.calls, args)
	return c.back[len(c.calls)-1]
}

func (c *vcNest14) gotS(args ...unsafe.Pointer) string {
	c.calls = append(c.calls, args)
	return c.text[len(c.calls)-1]
}
""")
for n in range(1, 8):
    o.append('\n// I%d takes integers\nfunc (c *vcNest14) I%d(%s int) int { return c.got(%s) }\n' % (n, n, ', '.join('x%d' % i for i in range(n)), ', '.join('unsafe.Pointer(&x%d)' % i for i in range(n))))
for n in range(1, 7):
    o.append('\n// S%d takes strings\nfunc (c *vcNest14) S%d(%s string) string { return c.gotS(%s) }\n' % (n, n, ', '.join('x%d' % i for i in range(n)), ', '.join('unsafe.Pointer(&x%d)' % i for i in range(n))))
o.append("""
// vcNested14 has calls of one function inside its own arguments
func vcNested14(kind byte, n int) {
	c := &vcNest14{}
	var vals []unsafe.Pointer
	vars := []vcVar{{"c", c}}
	for i := 0; i < 3*n; i++ {
		name := "v" + strconv.Itoa(i)
		if kind == 'i' {
			v := vspec.Int()
			vals, vars = append(vals, unsafe.Pointer(&v)), append(vars, vcVar{name, v})
		} else {
			v := vspec.String()
			vals, vars = append(vals, unsafe.Pointer(&v)), append(vars, vcVar{name, v})
		}
	}
	for i := 0; i < 3; i++ {
		c.back, c.text = append(c.back, vspec.Int()), append(c.text, vspec.String())
	}
	p := New()
	name := "I" + strconv.Itoa(n)
	if kind == 's' {
		name = "S" + strconv.Itoa(n)
	}
	fns := map[string]interface{}{%s}
	var err error
	switch vspec.Pick(3) {
	case 0:
		err = p.RegisterFunction("fn", fns[name])
		name = "$fn"
	case 1:
		err = p.RegisterFuncNs("ns", c)
		name = "$ns." + name
	case 2:
		name = "$c." + name
	}
	vspec.Assert(err == nil, "the function is registered")
	at, also := vspec.Pick(n), vspec.Pick(n)
	var want [][]unsafe.Pointer
	calls, next := 0, 0
	call := func() (string, []unsafe.Pointer) {
		text := name + "("
		var args []unsafe.Pointer
		for i := 0; i < n; i++ {
			if i > 0 {
				text += ", "
			}
			text += "$v" + strconv.Itoa(next)
			args = append(args, vals[next])
			next++
		}
		return text + ")", args
	}
	result := func(k int) unsafe.Pointer {
		if kind == 'i' {
			return unsafe.Pointer(&c.back[k])
		}
		return unsafe.Pointer(&c.text[k])
	}
	text := name + "("
	var outer []unsafe.Pointer
	for i := 0; i < n; i++ {
		if i > 0 {
			text += ", "
		}
		if i != at && i != also {
			text += "$v" + strconv.Itoa(2*n+i)
			outer = append(outer, vals[2*n+i])
			continue
		}
		in, args := call()
		text += in
		want = append(want, args)
		outer = append(outer, result(calls))
		calls++
	}
	want = append(want, outer)
	zero := interface{}(0)
	if kind == 's' {
		zero = ""
	}
	r := vcNewWith(p, "#set($z = "+text+"))", append(vars, vcVar{"z", zero})...)
	for k := 0; k < 2; k++ {
		c.calls = nil
		r.run()
		vspec.Assert(len(c.calls) == len(want), "each call is made once")
		for i := range want {
			vspec.Assert(len(c.calls[i]) == n, "a call gets all arguments")
			for j := range want[i] {
				vspec.Assert(vcSame14(kind, c.calls[i][j], want[i][j]), "an argument is the value of its expression")
			}
		}
		vspec.Assert(vcSame14(kind, r.addr("z"), result(calls)), "the call denotes the result")
	}
}

// Calls inside the arguments of the same function.
func VC_C14_NestedInts() { vcNested14('i', vspec.Pick(4)+1) }
func VC_C14_Nested5()    { vcNested14('i', 5) }
func VC_C14_Nested6()    { vcNested14('i', 6) }
func VC_C14_Nested7()    { vcNested14('i', 7) }

// Calls inside the arguments of the same function of strings.
func VC_C14_NestedStrings() { vcNested14('s', vspec.Pick(6)+1) }
""" % ', '.join('"%s%d": c.%s%d' % (k, n, k, n) for k, m in (('I', 7), ('S', 6)) for n in range(1, m + 1)))
open('/verif/contracts/zz_vc_c14.go', 'w').write(''.join(o))
