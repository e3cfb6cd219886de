package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	suites["C03"] = Suite{"every well-typed operator sequence of length 2-3 over int/float/bool/string operands (plus sampled length 4-6 and sampled nested expressions with parentheses, ! and random white space), against a reference parser, in #set, #if, call-argument and index position",
		func(c *Ctx) { c03(c) }}
}

var c03ops = []string{"+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "&&", "||"}

// climb groups the operands by precedence, left to right
func climb(ops []string, xs []exp, sp func() string) exp {
	xs = append([]exp{}, xs...)
	ops = append([]string{}, ops...)
	for p := 5; p >= 1; p-- {
		for i := 0; i < len(ops); {
			if opPrec(ops[i]) == p {
				xs[i] = eBin{ops[i], xs[i], xs[i+1], sp()}
				xs = append(xs[:i+1], xs[i+2:]...)
				ops = append(ops[:i], ops[i+1:]...)
				continue
			}
			i++
		}
	}
	return xs[0]
}

// typeOf gives the type of an expression, 0 when ill-typed
func typeOf(x exp) byte {
	switch v := x.(type) {
	case eBin:
		l, r := typeOf(v.l), typeOf(v.r)
		if l == 0 || l != r {
			return 0
		}
		switch v.op {
		case "+":
			if l == 'b' {
				return 0
			}
			return l
		case "-", "*", "/":
			if l == 'b' || l == 's' {
				return 0
			}
			return l
		case "==", "!=":
			return 'b'
		case "&&", "||":
			if l == 'b' {
				return 'b'
			}
			return 0
		}
		if l == 'i' || l == 'f' {
			return 'b'
		}
		return 0
	case eNot:
		if typeOf(v.x) == 'b' {
			return 'b'
		}
		return 0
	case ePar:
		return typeOf(v.x)
	case eLit:
		switch v.v.(type) {
		case int:
			return 'i'
		case float64:
			return 'f'
		case string:
			return 's'
		}
		return 'b'
	case eVar:
		switch v.name[0] {
		case 'a', 'b', 'c', 'd':
			return 'i'
		case 'f', 'g':
			return 'f'
		case 's', 't':
			return 's'
		}
		return 'b'
	}
	return 0
}

var c03vars = func(k int) []Var {
	r := rand.New(rand.NewSource(int64(k)))
	var vs []Var
	for _, n := range []string{"a", "b", "c", "d"} {
		vs = append(vs, Var{Name: n, Val: r.Intn(11) - 4})
	}
	vs = append(vs, Var{Name: "f", Val: float64(r.Intn(9)-3) / 2}, Var{Name: "g", Val: float64(r.Intn(9)-3) / 2}, Var{Name: "s", Val: strs[r.Intn(5)]}, Var{Name: "t", Val: strs[r.Intn(5)]},
		Var{Name: "q", Val: r.Intn(2) == 0}, Var{Name: "p", Val: r.Intn(2) == 0}, Var{Name: "r", Val: r.Intn(2) == 0}, Var{Name: "is", Val: []int{10, 11, 12, 13, 14, 15, 16, 17, 18, 19}})
	return vs
}

func checkExpr(text string, x exp, typ byte, worlds []int) string {
	tpl := "#set($res=" + text + ")$res"
	if typ == 'b' {
		tpl += "#if(" + text + ")T#end#if(!(" + text + "))F#end"
	}
	tpl += "|${fn." + map[byte]string{'i': "Int", 'f': "Float", 's': "Str", 'b': "Bool"}[typ] + "(" + text + ")}"
	pr, err := compile(nil, c03vars(0), tpl, regNS)
	if err != nil {
		return "compile " + tpl + ": " + err.Error()
	}
	ran := false
	for _, w := range worlds {
		vars := c03vars(w)
		e := newEnv(vars)
		var want interface{}
		ok := func() (ok bool) {
			defer func() { ok = recover() == nil }()
			want = x.eval(e)
			return true
		}()
		if !ok {
			continue
		}
		ran = true
		out, s, err := pr.run(vars)
		if err != nil {
			return tpl + ": " + err.Error()
		}
		got, _ := value(s, "res")
		if !same(got, want) {
			return mismatch(fmt.Sprintf("%s in world %d", tpl, w), got, want)
		}
		wo := render(want)
		if typ == 'b' {
			if want.(bool) {
				wo += "T"
			} else {
				wo += "F"
			}
		}
		wo += "|" + render(want)
		if out != wo {
			return mismatch(fmt.Sprintf("output of %s in world %d", tpl, w), out, wo)
		}
		if typ == 'i' {
			if i := want.(int); i >= 0 && i < 10 {
				p2, err := compile(nil, c03vars(0), "${is["+text+"]}", regNS)
				if err != nil {
					return "compile index " + text + ": " + err.Error()
				}
				o2, _, err := p2.run(vars)
				if err != nil {
					return err.Error()
				}
				if o2 != render(10+i) {
					return mismatch("$is["+text+"]", o2, render(10+i))
				}
			}
		}
	}
	if !ran {
		return skip
	}
	return ""
}

func c03(c *Ctx) {
	opnds := map[byte][]exp{
		'i': {eVar{"a"}, eVar{"b"}, eVar{"c"}, eVar{"d"}, eLit{7}, eVar{"a"}, eVar{"b"}},
		'f': {eVar{"f"}, eVar{"g"}, eLit{1.5}, eVar{"f"}, eVar{"g"}, eLit{0.5}, eVar{"f"}},
		's': {eVar{"s"}, eVar{"t"}, eLit{"a"}, eVar{"s"}, eVar{"t"}, eLit{"b"}, eVar{"s"}},
		'b': {eVar{"q"}, eVar{"p"}, eVar{"r"}, eLit{true}, eVar{"p"}, eLit{false}, eVar{"q"}},
	}
	one := func(ops []string, types string, seps []string) {
		xs := make([]exp, len(types))
		for i := range xs {
			xs[i] = opnds[types[i]][i]
		}
		x := climb(ops, xs, func() string { return " " })
		typ := typeOf(x)
		if typ == 0 {
			return
		}
		text := xs[0].str()
		for i, op := range ops {
			text += seps[i%len(seps)] + op + seps[(i+1)%len(seps)] + xs[i+1].str()
		}
		c.Case(func() string { return text }, func() string { return checkExpr(text, x, typ, []int{1, 2, 3, 4, 5}) })
	}
	ts := "ifsb"
	var types func(n int, pre string, f func(string))
	types = func(n int, pre string, f func(string)) {
		if n == 0 {
			f(pre)
			return
		}
		for i := range ts {
			types(n-1, pre+ts[i:i+1], f)
		}
	}
	sp := []string{" "}
	for _, a := range c03ops {
		types(2, "", func(t string) {
			one([]string{a}, t, sp)
			one([]string{a}, t, []string{""})
			one([]string{a}, t, []string{"\n", "\t"})
		})
		for _, b := range c03ops {
			types(3, "", func(t string) {
				one([]string{a, b}, t, sp)
				one([]string{a, b}, t, []string{"", " "})
			})
			for _, d := range c03ops {
				ops := []string{a, b, d}
				types(4, "", func(t string) {
					// keep one in three in the quick tier by a fixed rule
					if c.Thorough || (len(a)+2*len(b)+3*len(d)+int(t[0])+int(t[1])*3+int(t[2])*5)%2 == 0 {
						one(ops, t, sp)
					}
				})
			}
		}
	}
	c.Rand("longer", c.N(1500, 40000), func(r *rand.Rand) (string, func() string) {
		n := 4 + r.Intn(3)
		for {
			ops := make([]string, n)
			xs := make([]exp, n+1)
			t := ts[r.Intn(4)]
			for i := range xs {
				if r.Intn(3) == 0 {
					t = ts[r.Intn(4)]
				}
				xs[i] = opnds[t][r.Intn(7)]
			}
			for i := range ops {
				ops[i] = c03ops[r.Intn(len(c03ops))]
			}
			x := climb(ops, xs, func() string { return " " })
			typ := typeOf(x)
			if typ == 0 {
				continue
			}
			text := xs[0].str()
			for i, op := range ops {
				text += strings.Repeat(" ", r.Intn(3)) + op + strings.Repeat(" ", r.Intn(3)) + xs[i+1].str()
			}
			return text, func() string { return checkExpr(text, x, typ, []int{1, 2, 3, 4}) }
		}
	})
	c.Rand("nested", c.N(3000, 60000), func(r *rand.Rand) (string, func() string) {
		g := &gen{r: r, spaces: true, ro: map[string]bool{}, vars: []scopeVar{{"a", 'i'}, {"b", 'i'}, {"c", 'i'}, {"f", 'f'}, {"g", 'f'}, {"s", 's'}, {"t", 's'}, {"q", 'b'}, {"p", 'b'}, {"r", 'b'}}}
		typ := ts[r.Intn(4)]
		var x exp
		for {
			x = g.exprNoPath(typ, 4)
			if _, ok := x.(eBin); ok {
				break
			}
		}
		for i := r.Intn(3); i > 0; i-- {
			x = wrapSomewhere(r, x)
		}
		text := x.str()
		return text, func() string { return checkExpr(text, x, typ, []int{1, 2, 3, 4}) }
	})
}

// wrapSomewhere adds redundant parentheses
func wrapSomewhere(r *rand.Rand, x exp) exp {
	if b, ok := x.(eBin); ok && r.Intn(3) > 0 {
		if r.Intn(2) == 0 {
			b.l = wrapSomewhere(r, b.l)
		} else {
			b.r = wrapSomewhere(r, b.r)
		}
		return b
	}
	return ePar{x}
}

func (g *gen) exprNoPath(typ byte, d int) exp {
	return noPath(g, g.expr(typ, d))
}

func noPath(g *gen, x exp) exp {
	switch v := x.(type) {
	case eBin:
		v.l, v.r = noPath(g, v.l), noPath(g, v.r)
		return v
	case eNot:
		v.x = noPath(g, v.x)
		return v
	case ePath:
		switch v.src[len(v.src)-1] {
		case 'I':
			return eVar{"a"}
		case 'F':
			return eVar{"f"}
		case 'S':
			return eVar{"s"}
		}
		return eVar{"q"}
	}
	return x
}
