package main

import (
	"fmt"
	"html"
	"math/rand"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
)

// The reference language: an AST, its template text and its meaning.

type node interface {
	text(b *strings.Builder)
	exec(e *env)
}

type env struct {
	vars   map[string]interface{}
	out    strings.Builder
	escape bool
	steps  int
	calls  []string
}

type tooLong struct{}

func (e *env) tick() {
	e.steps++
	if e.steps > 4000 {
		panic(tooLong{})
	}
}

type exp interface {
	eval(e *env) interface{}
	str() string
	prec() int
}

type eLit struct{ v interface{} }

func (x eLit) eval(*env) interface{} { return x.v }
func (x eLit) str() string           { s, _ := literal(x.v); return s }
func (x eLit) prec() int             { return 9 }

type eVar struct{ name string }

func (x eVar) eval(e *env) interface{} { return e.vars[x.name] }
func (x eVar) str() string             { return "$" + x.name }
func (x eVar) prec() int               { return 9 }

// ePath is a reference with a Go meaning
type ePath struct {
	src string
	get func(e *env) interface{}
}

func (x ePath) eval(e *env) interface{} { return x.get(e) }
func (x ePath) str() string             { return x.src }
func (x ePath) prec() int               { return 9 }

type eNot struct{ x exp }

func (x eNot) eval(e *env) interface{} { return !x.x.eval(e).(bool) }
func (x eNot) str() string {
	if x.x.prec() < 9 {
		return "!(" + x.x.str() + ")"
	}
	return "!" + x.x.str()
}
func (x eNot) prec() int { return 8 }

type ePar struct{ x exp }

func (x ePar) eval(e *env) interface{} { return x.x.eval(e) }
func (x ePar) str() string             { return "(" + x.x.str() + ")" }
func (x ePar) prec() int               { return 9 }

type eBin struct {
	op   string
	l, r exp
	sp   string
}

func opPrec(op string) int {
	switch op {
	case "*", "/":
		return 5
	case "+", "-":
		return 4
	case "&&":
		return 2
	case "||":
		return 1
	}
	return 3
}

func (x eBin) prec() int { return opPrec(x.op) }
func (x eBin) eval(e *env) interface{} {
	l := x.l.eval(e)
	r := x.r.eval(e)
	v, ok := binary(x.op, l, r)
	if !ok {
		panic(outOfDomain{})
	}
	if s, isStr := v.(string); isStr && len(s) > 3000 {
		panic(outOfDomain{})
	}
	return v
}

type outOfDomain struct{}

func (x eBin) str() string {
	l, r := x.l.str(), x.r.str()
	if x.l.prec() < x.prec() {
		l = "(" + l + ")"
	}
	if x.r.prec() <= x.prec() {
		r = "(" + r + ")"
	}
	return l + x.sp + x.op + x.sp + r
}

// statements

type sText struct{ s string }

func (s sText) text(b *strings.Builder) { b.WriteString(s.s) }
func (s sText) exec(e *env)             { e.tick(); e.out.WriteString(s.s) }

type sEmit struct{ name string }

func (s sEmit) text(b *strings.Builder) { b.WriteString("${" + s.name + "}") }
func (s sEmit) exec(e *env)             { e.tick(); e.emit(e.vars[s.name]) }

type sEmitExp struct{ x ePath }

func (s sEmitExp) text(b *strings.Builder) { b.WriteString("${" + s.x.src[1:] + "}") }
func (s sEmitExp) exec(e *env)             { e.tick(); e.emit(s.x.eval(e)) }

func (e *env) emit(v interface{}) {
	r := render(v)
	if _, ok := v.(string); ok && e.escape {
		r = html.EscapeString(r)
	}
	e.out.WriteString(r)
}

type sSet struct {
	name string
	x    exp
	sp   string
}

func (s sSet) text(b *strings.Builder) {
	b.WriteString("#set($" + s.name + s.sp + "=" + s.sp + s.x.str() + ")")
}
func (s sSet) exec(e *env) { e.tick(); e.vars[s.name] = s.x.eval(e) }

// sSetField assigns a field of h
type sSetField struct {
	path string
	x    exp
	set  func(e *env, v interface{})
}

func (s sSetField) text(b *strings.Builder) {
	b.WriteString("#set($" + s.path + " = " + s.x.str() + ")")
}
func (s sSetField) exec(e *env) { e.tick(); s.set(e, s.x.eval(e)) }

type sIf struct {
	conds  []exp
	bodies [][]node
	els    []node
	hasEls bool
}

func textAll(b *strings.Builder, ns []node) {
	for _, n := range ns {
		n.text(b)
	}
}

func execAll(e *env, ns []node) {
	for _, n := range ns {
		n.exec(e)
	}
}

func (s sIf) text(b *strings.Builder) {
	for i, c := range s.conds {
		if i == 0 {
			b.WriteString("#if(")
		} else {
			b.WriteString("#elseif(")
		}
		b.WriteString(c.str() + ")")
		textAll(b, s.bodies[i])
	}
	if s.hasEls {
		b.WriteString("#else")
		textAll(b, s.els)
	}
	b.WriteString("#end")
}

func truth(v interface{}) bool {
	switch x := v.(type) {
	case bool:
		return x
	case int:
		return x != 0
	case float64:
		return x != 0
	case string:
		return x != ""
	}
	panic("truth")
}

func (s sIf) exec(e *env) {
	e.tick()
	for i, c := range s.conds {
		if truth(c.eval(e)) {
			execAll(e, s.bodies[i])
			return
		}
	}
	execAll(e, s.els)
}

type sFor struct {
	v     string
	init  exp
	cond  exp
	post  string
	step  exp
	body  []node
	brief bool
}

func (s sFor) text(b *strings.Builder) {
	post := "$" + s.v + s.post
	if s.step != nil {
		post = "$" + s.v + " " + s.post + " " + s.step.str()
	}
	b.WriteString("#for($" + s.v + " = " + s.init.str() + "; " + s.cond.str() + "; " + post + ")")
	textAll(b, s.body)
	b.WriteString("#end")
}

func (s sFor) exec(e *env) {
	e.vars[s.v] = s.init.eval(e)
	for s.cond.eval(e).(bool) {
		e.tick()
		execAll(e, s.body)
		i := e.vars[s.v]
		switch s.post {
		case "++":
			e.vars[s.v] = i.(int) + 1
		case "--":
			e.vars[s.v] = i.(int) - 1
		default:
			r, ok := binary(s.post[:1], i, s.step.eval(e))
			if !ok {
				panic(outOfDomain{})
			}
			e.vars[s.v] = r
		}
	}
}

type sForeach struct {
	item string
	src  string
	get  func(e *env) []interface{}
	body []node
}

func (s sForeach) text(b *strings.Builder) {
	b.WriteString("#foreach($" + s.item + " in " + s.src + ")")
	textAll(b, s.body)
	b.WriteString("#end")
}

func (s sForeach) exec(e *env) {
	e.tick()
	for _, v := range s.get(e) {
		e.tick()
		e.vars[s.item] = v
		execAll(e, s.body)
	}
}

type sComment struct{ s string }

func (s sComment) text(b *strings.Builder) { b.WriteString("##" + s.s + "\n") }
func (s sComment) exec(e *env)             { e.tick() }

// generator

type scopeVar struct {
	name string
	typ  byte
}

type gen struct {
	r      *rand.Rand
	vars   []scopeVar // variables that templates may read
	ro     map[string]bool
	n      int
	depth  int
	noNew  bool
	spaces bool
}

var baseVars = []Var{
	{Name: "a", Val: 0}, {Name: "b", Val: 0}, {Name: "f", Val: 0.0}, {Name: "g", Val: 0.0}, {Name: "s", Val: ""}, {Name: "t", Val: ""},
	{Name: "q", Val: false}, {Name: "p", Val: false}, {Name: "h", Val: Holder{}}, {Name: "hp", Val: &Holder{}},
	{Name: "is", Val: []int(nil)}, {Name: "ss", Val: []string(nil)}, {Name: "ls", Val: []Inner(nil)}, {Name: "lp", Val: []*Inner(nil)},
}

var baseScope = []scopeVar{{"a", 'i'}, {"b", 'i'}, {"f", 'f'}, {"g", 'f'}, {"s", 's'}, {"t", 's'}, {"q", 'b'}, {"p", 'b'}}

// world makes the initial values; every call with the same seed gives equal but unshared values
func world(seed int64) []Var {
	r := rand.New(rand.NewSource(seed))
	vs := make([]Var, len(baseVars))
	copy(vs, baseVars)
	mk := func() Holder {
		in := Inner{I: r.Intn(9) - 4, F: float64(r.Intn(9)) / 2, S: strs[r.Intn(6)], B: r.Intn(2) == 0}
		h := Holder{I: r.Intn(7), F: float64(r.Intn(5)) / 2, S: strs[r.Intn(6)], B: r.Intn(2) == 0, V: in, P: nil, embP: &embP{1, 2, "x", true}}
		h.P = &Holder{I: r.Intn(7), F: 1.5, S: "<p&>", V: Inner{I: 3, S: "in"}}
		return h
	}
	for i := range vs {
		switch vs[i].Name {
		case "a", "b":
			vs[i].Val = r.Intn(9) - 3
		case "f", "g":
			vs[i].Val = float64(r.Intn(17)-6) / 4
		case "s", "t":
			vs[i].Val = []string{"", "x", "<b>", "a&b", "\"q\"", "yz", "é"}[r.Intn(7)]
		case "q", "p":
			vs[i].Val = r.Intn(2) == 0
		case "h":
			vs[i].Val = mk()
		case "hp":
			h := mk()
			vs[i].Val = &h
		case "is":
			var s []int
			for k := r.Intn(5); k > 0; k-- {
				s = append(s, r.Intn(20)-5)
			}
			vs[i].Val = s
		case "ss":
			var s []string
			for k := r.Intn(5); k > 0; k-- {
				s = append(s, []string{"", "m", "<i>", "n"}[r.Intn(4)])
			}
			vs[i].Val = s
		case "ls":
			var s []Inner
			for k := r.Intn(5); k > 0; k-- {
				s = append(s, Inner{I: r.Intn(9), S: strs[r.Intn(6)], F: 0.5, B: r.Intn(2) == 0})
			}
			vs[i].Val = s
		case "lp":
			var s []*Inner
			for k := r.Intn(5); k > 0; k-- {
				s = append(s, &Inner{I: r.Intn(9), S: strs[r.Intn(6)], F: 0.5, B: r.Intn(2) == 0})
			}
			vs[i].Val = s
		}
	}
	return vs
}

func newEnv(vars []Var) *env {
	e := &env{vars: map[string]interface{}{}}
	for _, v := range vars {
		if h, ok := v.Val.(Holder); ok {
			e.vars[v.Name] = &h
			continue
		}
		e.vars[v.Name] = v.Val
	}
	return e
}

func newGen(r *rand.Rand) *gen {
	return &gen{r: r, vars: append([]scopeVar{}, baseScope...), ro: map[string]bool{}, depth: 3}
}

// only generates statements until one is accepted; what the rejected ones declared is forgotten
func (g *gen) only(depth int, ok func(node) bool) node {
	for {
		vars, ro, n := append([]scopeVar{}, g.vars...), map[string]bool{}, g.n
		for k, v := range g.ro {
			ro[k] = v
		}
		if x := g.stmt(depth); ok(x) {
			return x
		}
		g.vars, g.ro, g.n = vars, ro, n
	}
}

func (g *gen) pick(typ byte) (string, bool) {
	var c []string
	for _, v := range g.vars {
		if v.typ == typ {
			c = append(c, v.name)
		}
	}
	if len(c) == 0 {
		return "", false
	}
	return c[g.r.Intn(len(c))], true
}

func (g *gen) sp() string {
	if !g.spaces {
		return " "
	}
	return []string{"", " ", "  ", "\t", "\n"}[g.r.Intn(5)]
}

func fieldPath(name string, typ byte) []ePath {
	h := func(e *env) *Holder { return e.vars[name].(*Holder) }
	switch typ {
	case 'i':
		return []ePath{
			{"$" + name + ".I", func(e *env) interface{} { return h(e).I }},
			{"$" + name + ".V.I", func(e *env) interface{} { return h(e).V.I }},
			{"$" + name + ".P.I", func(e *env) interface{} { return h(e).P.I }},
			{"$" + name + ".P.V.I", func(e *env) interface{} { return h(e).P.V.I }},
		}
	case 'f':
		return []ePath{{"$" + name + ".F", func(e *env) interface{} { return h(e).F }}, {"$" + name + ".V.F", func(e *env) interface{} { return h(e).V.F }}}
	case 's':
		return []ePath{{"$" + name + ".S", func(e *env) interface{} { return h(e).S }}, {"$" + name + ".P.S", func(e *env) interface{} { return h(e).P.S }}}
	}
	return []ePath{{"$" + name + ".B", func(e *env) interface{} { return h(e).B }}, {"$" + name + ".V.B", func(e *env) interface{} { return h(e).V.B }}}
}

func (g *gen) path(typ byte) ePath {
	ps := fieldPath([]string{"h", "hp"}[g.r.Intn(2)], typ)
	return ps[g.r.Intn(len(ps))]
}

func (g *gen) leaf(typ byte) exp {
	switch k := g.r.Intn(10); {
	case k < 5:
		if v, ok := g.pick(typ); ok {
			return eVar{v}
		}
	case k < 7:
		return g.path(typ)
	}
	switch typ {
	case 'i':
		return eLit{g.r.Intn(12)}
	case 'f':
		return eLit{float64(g.r.Intn(12)) / 4}
	case 's':
		return eLit{[]string{"", "k", "v w", "<u>", "a,b", "1"}[g.r.Intn(6)]}
	}
	return eLit{g.r.Intn(2) == 0}
}

func (g *gen) expr(typ byte, d int) exp {
	if d <= 0 || g.r.Intn(4) == 0 {
		return g.leaf(typ)
	}
	switch typ {
	case 'i', 'f':
		op := []string{"+", "-", "*", "+", "-", "/"}[g.r.Intn(6)]
		if typ == 'i' && op == "/" {
			return eBin{op, g.expr(typ, d-1), eLit{1 + g.r.Intn(4)}, g.sp()}
		}
		return eBin{op, g.expr(typ, d-1), g.expr(typ, d-1), g.sp()}
	case 's':
		return eBin{"+", g.expr(typ, d-1), g.expr(typ, d-1), g.sp()}
	}
	switch g.r.Intn(6) {
	case 0, 1:
		op := []string{"&&", "||"}[g.r.Intn(2)]
		return eBin{op, g.expr('b', d-1), g.expr('b', d-1), g.sp()}
	case 2:
		return eNot{g.expr('b', d-1)}
	case 3:
		op := []string{"==", "!="}[g.r.Intn(2)]
		t := "sb"[g.r.Intn(2)]
		return eBin{op, g.expr(t, d-1), g.expr(t, d-1), g.sp()}
	}
	op := []string{"==", "!=", "<", "<=", ">", ">="}[g.r.Intn(6)]
	t := "if"[g.r.Intn(2)]
	return eBin{op, g.expr(t, d-1), g.expr(t, d-1), g.sp()}
}

func (g *gen) newName() string {
	g.n++
	return "v" + strconv.Itoa(g.n)
}

var texts = []string{" ", "x", "\n", "-", "a b", "<&>", "é", "; ", "#", "$", "$1", "{}", "()", "'\"", "日", "\t", "##"}

func (g *gen) block(d, n int) []node {
	k := g.r.Intn(n + 1)
	var ns []node
	for i := 0; i < k; i++ {
		ns = append(ns, g.stmt(d))
	}
	return ns
}

func (g *gen) stmt(d int) node {
	k := g.r.Intn(20)
	if d <= 0 && k >= 12 {
		k = g.r.Intn(12)
	}
	switch {
	case k < 3:
		return sText{"[" + strings.Repeat(string(rune('a'+g.r.Intn(26))), 1+g.r.Intn(3)) + "]"}
	case k < 6:
		return sEmit{g.vars[g.r.Intn(len(g.vars))].name}
	case k < 7:
		return sEmitExp{g.path("ifsb"[g.r.Intn(4)])}
	case k < 11:
		typ := "ifsb"[g.r.Intn(4)]
		x := g.expr(typ, 3)
		name, ok := g.pick(typ)
		if !ok || g.ro[name] || g.r.Intn(3) == 0 {
			if g.noNew {
				return sText{"[n]"}
			}
			name = g.newName()
			g.vars = append(g.vars, scopeVar{name, typ})
		}
		return sSet{name, x, " "}
	case k < 12:
		h := []string{"h", "hp"}[g.r.Intn(2)]
		switch g.r.Intn(4) {
		case 0:
			return sSetField{h + ".I", g.expr('i', 2), func(e *env, v interface{}) { e.vars[h].(*Holder).I = v.(int) }}
		case 1:
			return sSetField{h + ".V.S", g.expr('s', 2), func(e *env, v interface{}) { e.vars[h].(*Holder).V.S = v.(string) }}
		case 2:
			return sSetField{h + ".P.F", g.expr('f', 2), func(e *env, v interface{}) { e.vars[h].(*Holder).P.F = v.(float64) }}
		}
		return sSetField{h + ".P.V.B", g.expr('b', 2), func(e *env, v interface{}) { e.vars[h].(*Holder).P.V.B = v.(bool) }}
	case k < 16:
		s := sIf{}
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			typ := "bbbbis"[g.r.Intn(6)]
			if typ == 'b' {
				s.conds = append(s.conds, g.expr('b', 2))
			} else {
				s.conds = append(s.conds, g.condLeaf(typ))
			}
			s.bodies = append(s.bodies, g.block(d-1, 3))
		}
		if g.r.Intn(2) == 0 {
			s.hasEls = true
			s.els = g.block(d-1, 3)
		}
		return s
	case k < 18:
		return g.forLoop(d)
	default:
		return g.foreach(d)
	}
}

func (g *gen) condLeaf(typ byte) exp {
	if g.r.Intn(2) == 0 {
		if v, ok := g.pick(typ); ok {
			return eVar{v}
		}
	}
	return g.path(typ)
}

func (g *gen) forLoop(d int) node {
	if g.noNew {
		return sText{"[f]"}
	}
	name := g.newName()
	s := sFor{v: name}
	g.ro[name] = true
	lim := g.r.Intn(5)
	switch g.r.Intn(5) {
	case 0:
		s.init, s.cond, s.post = eLit{lim}, eBin{">", eVar{name}, eLit{0}, " "}, "--"
	case 1:
		s.init, s.cond, s.post, s.step = eLit{0}, eBin{"<", eVar{name}, eLit{2 * lim}, " "}, "+=", eLit{1 + g.r.Intn(3)}
	case 2:
		s.init, s.cond, s.post, s.step = eLit{3 * lim}, eBin{">=", eVar{name}, eLit{1}, " "}, "-=", eLit{1 + g.r.Intn(3)}
	case 3:
		s.init, s.cond, s.post, s.step = eLit{1}, eBin{"<=", eVar{name}, eLit{10 * lim}, " "}, "*=", eLit{2 + g.r.Intn(3)}
	default:
		s.init, s.cond, s.post = eLit{g.r.Intn(2)}, eBin{"<", eVar{name}, eLit{lim}, " "}, "++"
	}
	g.vars = append(g.vars, scopeVar{name, 'i'})
	s.body = g.block(d-1, 3)
	return s
}

func (g *gen) foreach(d int) node {
	if g.noNew {
		return sText{"[f]"}
	}
	name := g.newName()
	s := sForeach{item: name}
	g.ro[name] = true
	switch g.r.Intn(3) {
	case 0:
		s.src = "$is"
		s.get = func(e *env) []interface{} { return box(e.vars["is"]) }
		g.vars = append(g.vars, scopeVar{name, 'i'})
		s.body = g.block(d-1, 3)
	case 1:
		s.src = "$ss"
		s.get = func(e *env) []interface{} { return box(e.vars["ss"]) }
		g.vars = append(g.vars, scopeVar{name, 's'})
		s.body = g.block(d-1, 3)
	case 2:
		ptr := g.r.Intn(2) == 0
		s.src = "$ls"
		s.get = func(e *env) []interface{} { return box(e.vars["ls"]) }
		in := func(e *env) Inner { return e.vars[name].(Inner) }
		if ptr {
			s.src = "$lp"
			s.get = func(e *env) []interface{} { return box(e.vars["lp"]) }
			in = func(e *env) Inner { return *(e.vars[name].(*Inner)) }
		}
		s.body = append(g.block(d-1, 2),
			sEmitExp{ePath{"$" + name + ".I", func(e *env) interface{} { return in(e).I }}},
			sEmitExp{ePath{"$" + name + ".S", func(e *env) interface{} { return in(e).S }}})
		if g.r.Intn(2) == 0 {
			s.body = append(s.body, sIf{conds: []exp{ePath{"$" + name + ".B", func(e *env) interface{} { return in(e).B }}}, bodies: [][]node{g.block(d-1, 2)}})
		}
	}
	return s
}

func src(ns []node) string {
	var b strings.Builder
	textAll(&b, ns)
	return b.String()
}

// refRun gives the reference outcome; ok is false when the program is outside of the domain (too long, division by zero)
func refRun(ns []node, vars []Var, escape bool, g *gen) (e *env, ok bool) {
	e = newEnv(vars)
	e.escape = escape
	for _, v := range g.vars {
		if _, has := e.vars[v.name]; !has {
			e.vars[v.name] = zeroOf(v.typ)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case tooLong, outOfDomain:
				ok = false
			default:
				panic(r)
			}
		}
	}()
	execAll(e, ns)
	return e, true
}

func zeroOf(t byte) interface{} {
	switch t {
	case 'i':
		return 0
	case 'f':
		return 0.0
	case 's':
		return ""
	}
	return false
}

// compareEnv compares the variables of a state with the reference
func compareEnv(e *env, s *est.State, vars []Var, g *gen) string {
	for _, v := range g.vars {
		got, ok := value(s, v.name)
		if !ok {
			return "variable " + v.name + " is missing"
		}
		if !same(got, e.vars[v.name]) {
			return mismatch("variable "+v.name, got, e.vars[v.name])
		}
	}
	for _, v := range vars {
		switch v.Name {
		case "h":
			got, _ := value(s, "h")
			h := got.(Holder)
			if !sameHolder(&h, e.vars["h"].(*Holder)) {
				return mismatch("h", h, *e.vars["h"].(*Holder))
			}
		case "hp":
			got, _ := value(s, "hp")
			if !sameHolder(got.(*Holder), e.vars["hp"].(*Holder)) {
				return mismatch("hp", *got.(*Holder), *e.vars["hp"].(*Holder))
			}
		case "is", "ss", "ls", "lp":
			got, _ := value(s, v.Name)
			if fmt.Sprintf("%#v", deep(got)) != fmt.Sprintf("%#v", deep(e.vars[v.Name])) {
				return mismatch(v.Name, got, e.vars[v.Name])
			}
		}
	}
	return ""
}

func deep(v interface{}) interface{} {
	if l, ok := v.([]*Inner); ok {
		var r []Inner
		for _, x := range l {
			r = append(r, *x)
		}
		return r
	}
	return v
}

func sameHolder(a, b *Holder) bool {
	if a == nil || b == nil {
		return a == b
	}
	x, y := *a, *b
	if !sameHolder(x.P, y.P) {
		return false
	}
	if (x.embP == nil) != (y.embP == nil) || (x.embP != nil && *x.embP != *y.embP) {
		return false
	}
	x.P, y.P, x.embP, y.embP = nil, nil, nil, nil
	return fmt.Sprintf("%#v", x) == fmt.Sprintf("%#v", y)
}

// runProgram executes a generated program and compares it with the reference
func runProgram(ns []node, g *gen, seeds []int64, opts ...velty.Option) string {
	escape := false
	for _, o := range opts {
		if x, ok := o.(velty.EscapeHTML); ok {
			escape = bool(x)
		}
	}
	tpl := src(ns)
	var pr *Prog
	ran := false
	for _, seed := range seeds {
		ref, ok := refRun(ns, world(seed), escape, g)
		if !ok {
			continue
		}
		if pr == nil {
			var err error
			if pr, err = compile(opts, world(seed), tpl, regNS); err != nil {
				return "compile " + tpl + ": " + err.Error()
			}
		}
		ran = true
		vars := world(seed)
		out, s, err := pr.run(vars)
		if err != nil {
			return tpl + ": " + err.Error()
		}
		if out != ref.out.String() {
			return fmt.Sprintf("world %d\n", seed) + mismatch(tpl, out, ref.out.String())
		}
		if m := compareEnv(ref, s, vars, g); m != "" {
			return fmt.Sprintf("world %d after %s: %s", seed, tpl, m)
		}
	}
	if !ran {
		return skip
	}
	return ""
}
