package main

import (
	"fmt"
	"html"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"github.com/viant/velty/utils"
)

func init() {
	suites["C04"] = Suite{"every (target shape x scalar kind x source shape) with boundary values and frame comparison of all other variables, plus sampled programs of assignments", c04}
	suites["C05"] = Suite{"append sequences: all sequences of length 1-3 over 11 append operations x 10 capacities, plus sampled long sequences with resets", c05}
	suites["C06"] = Suite{"escape on/off x dynamic value shape x text, with literal template text and #evaluate", c06}
	suites["C07"] = Suite{"boundary integers (powers of two and ten and neighbours), sampled 64-bit integers, with canary bytes around the destination", c07}
	suites["C08"] = Suite{"blocks of 0..40 statements at every nesting position (template, if, elseif, else, foreach, for, evaluate), plus sampled programs", c08}
	suites["C09"] = Suite{"chains of 1..7 branches with every truth assignment, with and without #else; every condition kind and value; sampled nested chains", c09}
	suites["C10"] = Suite{"slices of 0..40 elements of 14 element kinds reached 6 ways; #for bounds, steps and nesting; sampled programs", c10}
}

type scal struct {
	I   int
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U   uint
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64
	F   float64
	F32 float32
	S   string
	B   bool
	PI  *int
	PF  *float64
	PS  *string
	PB  *bool
	St  Inner
	PSt *Inner
	L   []int
	LS  []string
	M   map[string]int
	T   time.Time
	Any interface{}
}

type scalHolder struct {
	Pad uint8
	A   scal
	P   *scal
	Z   uint8
}

var scalNames = []string{"I", "I8", "I16", "I32", "I64", "U", "U8", "U16", "U32", "U64", "F", "F32", "S", "B", "PI", "PF", "PS", "PB", "St", "PSt", "L", "LS", "M", "T", "Any"}

func fill(r *rand.Rand) scal {
	i, f, s, b := r.Intn(100), float64(r.Intn(100))/8, strs[r.Intn(len(strs))], r.Intn(2) == 0
	x := scal{I: int(r.Uint64()), I8: int8(r.Uint32()), I16: int16(r.Uint32()), I32: int32(r.Uint32()), I64: int64(r.Uint64()), U: uint(r.Uint64()), U8: uint8(r.Uint32()), U16: uint16(r.Uint32()), U32: r.Uint32(), U64: r.Uint64(),
		F: float64(r.Intn(1000)) / 16, F32: float32(r.Intn(1000)) / 16, S: strs[r.Intn(len(strs))], B: r.Intn(2) == 0, PI: &i, PF: &f, PS: &s, PB: &b,
		St: Inner{I: r.Intn(99), F: 2.5, S: "st" + strconv.Itoa(r.Intn(9)), B: true}, PSt: &Inner{I: r.Intn(99), S: "p"}, L: []int{r.Intn(9), 2}, LS: []string{"x", strs[r.Intn(5)]},
		M: map[string]int{"k": r.Intn(9)}, T: time.Unix(int64(r.Intn(1e9)), 0).UTC(), Any: r.Intn(50)}
	if r.Intn(6) == 0 {
		x.PI, x.PF, x.PS, x.PB, x.PSt, x.L, x.M = nil, nil, nil, nil, nil, nil, nil
	}
	return x
}

// snap makes a value independent picture of a scal
func snap(x *scal) string {
	if x == nil {
		return "nil"
	}
	var b strings.Builder
	rv := reflect.ValueOf(x).Elem()
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Field(i)
		b.WriteString(rv.Type().Field(i).Name + "=" + snapValue(f.Interface()) + ";")
	}
	return b.String()
}

func snapValue(v interface{}) string {
	f := reflect.ValueOf(v)
	if f.IsValid() && f.Kind() == reflect.Ptr && !f.IsNil() {
		return fmt.Sprintf("&%#v", f.Elem().Interface())
	}
	if t, ok := v.(time.Time); ok {
		return t.Format(time.RFC3339)
	}
	return fmt.Sprintf("%#v", v)
}

func scalVars(seed int64) []Var {
	r := rand.New(rand.NewSource(seed))
	x, y := fill(r), fill(r)
	z := fill(r)
	w := fill(r)
	vs := []Var{{Name: "h", Val: scalHolder{Pad: 9, A: x, P: &y, Z: 7}}, {Name: "p", Val: &scalHolder{Pad: 8, A: z, P: &w, Z: 6}}, {Name: "np", Val: scalHolder{}}}
	src := fill(r)
	dst := fill(r)
	rs, rd := reflect.ValueOf(src), reflect.ValueOf(dst)
	for i, n := range scalNames {
		vs = append(vs, Var{Name: "s" + n, Val: rs.Field(i).Interface(), Type: rs.Type().Field(i).Type}, Var{Name: "d" + n, Val: rd.Field(i).Interface(), Type: rs.Type().Field(i).Type})
	}
	return vs
}

// picture renders all variables of the state, one line each
func picture(get func(name string) interface{}) map[string]string {
	m := map[string]string{}
	for _, v := range scalVars(0) {
		x := get(v.Name)
		switch h := x.(type) {
		case scalHolder:
			m[v.Name] = fmt.Sprint(h.Pad, h.Z)
			pictureScal(m, v.Name+".A.", &h.A)
			pictureScal(m, v.Name+".P.", h.P)
		case *scalHolder:
			m[v.Name] = fmt.Sprint(h.Pad, h.Z)
			pictureScal(m, v.Name+".A.", &h.A)
			pictureScal(m, v.Name+".P.", h.P)
		default:
			m[v.Name] = snapValue(x)
		}
	}
	return m
}

func pictureScal(m map[string]string, pre string, x *scal) {
	if x == nil {
		m[pre] = "nil"
		return
	}
	rv := reflect.ValueOf(x).Elem()
	for i := 0; i < rv.NumField(); i++ {
		m[pre+rv.Type().Field(i).Name] = snapValue(rv.Field(i).Interface())
	}
}

// lookup resolves a path in the given variables
func lookupPath(vars []Var, path string) interface{} {
	parts := strings.Split(path, ".")
	var v interface{}
	for _, x := range vars {
		if x.Name == parts[0] {
			v = x.Val
		}
	}
	for _, p := range parts[1:] {
		rv := reflect.ValueOf(v)
		if rv.Kind() == reflect.Ptr {
			rv = rv.Elem()
		}
		v = rv.FieldByName(p).Interface()
	}
	return v
}

func c04(c *Ctx) {
	targets := []string{"d%s", "h.A.%s", "h.P.%s", "p.A.%s", "p.P.%s"}
	sources := []string{"s%s", "h.A.%s", "h.P.%s", "p.A.%s", "p.P.%s"}
	for _, n := range scalNames {
		for _, tt := range targets {
			for _, st := range sources {
				for k := 0; k < c.N(2, 8); k++ {
					if n == "Any" && (tt != "d%s" || st != "s%s") {
						continue
					}
					t, s := fmt.Sprintf(tt, n), fmt.Sprintf(st, n)
					seed := int64(k + 1)
					c.Case(func() string { return fmt.Sprintf("#set($%s = $%s) seed %d", t, s, seed) }, func() string {
						vars := scalVars(seed)
						want := picture(func(n string) interface{} { return lookupPath(vars, n) })
						if want[s] == "(*int)(nil)" || strings.HasSuffix(want[s], "(nil)") {
							// a nil source leaves or clears the target, both are accepted by the statement
							return skip
						}
						want[t] = want[s]
						pr, err := compile(nil, scalVars(0), "#set($"+t+" = $"+s+")")
						if err != nil {
							return "compile: " + err.Error()
						}
						_, state, err := pr.run(vars)
						if err != nil {
							return err.Error()
						}
						got := picture(func(n string) interface{} { v, _ := value(state, n); return v })
						for k, w := range want {
							if got[k] != w {
								return mismatch("after #set($"+t+" = $"+s+") "+k, got[k], w)
							}
						}
						return ""
					})
				}
			}
		}
	}
	// a new variable takes the type and value
	for _, n := range scalNames {
		for _, st := range sources {
			s := fmt.Sprintf(st, n)
			if n == "Any" && st != "s%s" {
				continue
			}
			c.Case(func() string { return "#set($fresh = $" + s + ")" }, func() string {
				vars := scalVars(3)
				want := picture(func(n string) interface{} { return lookupPath(vars, n) })
				if strings.HasSuffix(want[s], "(nil)") {
					return skip
				}
				pr, err := compile(nil, scalVars(0), "#set($fresh = $"+s+")")
				if err != nil {
					return "compile: " + err.Error()
				}
				_, state, err := pr.run(vars)
				if err != nil {
					return err.Error()
				}
				got := picture(func(n string) interface{} { v, _ := value(state, n); return v })
				for k, w := range want {
					if got[k] != w {
						return mismatch("frame "+k, got[k], w)
					}
				}
				f, ok := value(state, "fresh")
				if !ok || snapValue(f) != want[s] {
					return mismatch("fresh", snapValue(f), want[s])
				}
				return ""
			})
		}
	}
	// expressions, conversions and literals into scalar targets
	conv := []struct {
		t, e string
		want func(vs []Var) interface{}
	}{
		{"F", "$sI", func(vs []Var) interface{} { return float64(lookupPath(vs, "sI").(int)) }},
		{"F", "3", func(vs []Var) interface{} { return 3.0 }},
		{"F", "2.5", func(vs []Var) interface{} { return 2.5 }},
		{"F", "$sI + $dI", func(vs []Var) interface{} { return float64(lookupPath(vs, "sI").(int) + lookupPath(vs, "dI").(int)) }},
		{"F", "$sF * 2.0", func(vs []Var) interface{} { return lookupPath(vs, "sF").(float64) * 2 }},
		{"I", "$sI - 1", func(vs []Var) interface{} { return lookupPath(vs, "sI").(int) - 1 }},
		{"I", "12345678901", func(vs []Var) interface{} { return 12345678901 }},
		{"S", "\"lit\"", func(vs []Var) interface{} { return "lit" }},
		{"S", "$sS + \"x\"", func(vs []Var) interface{} { return lookupPath(vs, "sS").(string) + "x" }},
		{"B", "$sI == $dI", func(vs []Var) interface{} { return lookupPath(vs, "sI") == lookupPath(vs, "dI") }},
		{"B", "!$sB", func(vs []Var) interface{} { return !lookupPath(vs, "sB").(bool) }},
		{"B", "true", func(vs []Var) interface{} { return true }},
		{"I", "7", func(vs []Var) interface{} { return 7 }},
	}
	for _, cv := range conv {
		for _, tt := range targets {
			cv, t := cv, fmt.Sprintf(tt, cv.t)
			for k := 0; k < c.N(2, 10); k++ {
				seed := int64(k + 5)
				c.Case(func() string { return fmt.Sprintf("#set($%s = %s) seed %d", t, cv.e, seed) }, func() string {
					vars := scalVars(seed)
					want := picture(func(n string) interface{} { return lookupPath(vars, n) })
					want[t] = snapValue(cv.want(vars))
					pr, err := compile(nil, scalVars(0), "#set($"+t+" = "+cv.e+")")
					if err != nil {
						return "compile: " + err.Error()
					}
					for pass := 0; pass < 2; pass++ { // the plan is not changed by an execution
						v2 := scalVars(seed)
						_, state, err := pr.run(v2)
						if err != nil {
							return err.Error()
						}
						got := picture(func(n string) interface{} { v, _ := value(state, n); return v })
						for k, w := range want {
							if got[k] != w {
								return mismatch(fmt.Sprintf("pass %d after #set($%s = %s) %s", pass, t, cv.e, k), got[k], w)
							}
						}
					}
					return ""
				})
			}
		}
	}
	// a nil target changes nothing observable, neither now nor in other executions
	for _, n := range []string{"I", "F", "S", "B", "I32", "U8", "St", "L", "T", "F32"} {
		n := n
		c.Case(func() string { return "nil target np.P." + n }, func() string {
			tpl := "$np.P." + n + "|#set($np.P." + n + " = $s" + n + ")$np.P." + n + "|$np.A." + n + "|$h.A." + n
			pr, err := compile(nil, scalVars(0), tpl)
			if err != nil {
				return "compile: " + err.Error()
			}
			probe, err := compile(nil, scalVars(0), "$np.P."+n+"|$np.P."+n)
			if err != nil {
				return "compile: " + err.Error()
			}
			first := ""
			for i := 0; i < 3; i++ {
				vars := scalVars(2)
				want := picture(func(n string) interface{} { return lookupPath(vars, n) })
				before, _, _ := probe.run(scalVars(2))
				out, st, err := pr.run(vars)
				if err != nil {
					return err.Error()
				}
				got := picture(func(n string) interface{} { v, _ := value(st, n); return v })
				for k, w := range want {
					if got[k] != w {
						return mismatch("frame "+k, got[k], w)
					}
				}
				after, _, _ := probe.run(scalVars(2))
				if before != after {
					return mismatch("another execution after the assignment", after, before)
				}
				if i == 0 {
					first = out
					parts := strings.Split(out, "|")
					if len(parts) >= 2 && parts[0] != parts[1] {
						return mismatch("nil path after assignment", parts[1], parts[0])
					}
				} else if out != first {
					return mismatch("repeated execution", out, first)
				}
			}
			return ""
		})
	}
	c.Rand("assignments", c.N(1500, 20000), func(r *rand.Rand) (string, func() string) {
		g := newGen(r)
		var ns []node
		for k := 3 + r.Intn(8); k > 0; k-- {
			for {
				n := g.stmt(0)
				switch n.(type) {
				case sSet, sSetField, sEmit, sEmitExp:
				default:
					continue
				}
				ns = append(ns, n)
				break
			}
		}
		seeds := []int64{r.Int63(), r.Int63()}
		return fmt.Sprint(src(ns), seeds), func() string { return runProgram(ns, g, seeds) }
	})
}

type bufOp struct {
	name string
	do   func(b *est.Buffer) string
}

func bufOps() []bufOp {
	str := func(s string) bufOp {
		return bufOp{fmt.Sprintf("S%d", len(s)), func(b *est.Buffer) string { b.AppendString(s); return s }}
	}
	raw := func(s string) bufOp {
		return bufOp{fmt.Sprintf("W%d", len(s)), func(b *est.Buffer) string { b.AppendStringWithoutEscaping(s); return s }}
	}
	num := func(i int) bufOp {
		return bufOp{fmt.Sprintf("I%d", i), func(b *est.Buffer) string { b.AppendInt(i); return strconv.Itoa(i) }}
	}
	return []bufOp{str(""), str("a"), str("hello"), raw(strings.Repeat("xyz", 30)), raw("q"), num(0), num(-123456789), num(math.MinInt64),
		{"byte", func(b *est.Buffer) string { b.AppendByte('!'); return "!" }},
		{"bool", func(b *est.Buffer) string { b.AppendBool(true); return "true" }},
		{"float", func(b *est.Buffer) string { b.AppendFloat(1.25); return "1.25" }}}
}

var bufSizes = []int{0, 1, 2, 5, 16, 64, 65, 66, 128, 1024}

func c05(c *Ctx) {
	ops := bufOps()
	run := func(size int, seq []bufOp, resets int) string {
		b := est.NewBuffer(size, false)
		for round := 0; round <= resets; round++ {
			want := ""
			for i, o := range seq {
				want += o.do(b)
				if b.String() != want || string(b.Bytes()) != want {
					return mismatch(fmt.Sprintf("size %d round %d after op %d (%s)", size, round, i, o.name), b.String(), want)
				}
			}
			b.Reset()
			if b.String() != "" || len(b.Bytes()) != 0 {
				return mismatch("after reset", b.String(), "")
			}
		}
		return ""
	}
	names := func(seq []bufOp) string {
		r := ""
		for _, o := range seq {
			r += o.name + " "
		}
		return r
	}
	var rec func(seq []bufOp, n int)
	rec = func(seq []bufOp, n int) {
		if len(seq) > 0 {
			s := append([]bufOp{}, seq...)
			for _, size := range bufSizes {
				size := size
				c.Case(func() string { return fmt.Sprint(size, " ", names(s)) }, func() string { return run(size, s, 1) })
			}
		}
		if n == 0 {
			return
		}
		for _, o := range ops {
			rec(append(seq, o), n-1)
		}
	}
	rec(nil, c.N(3, 4))
	c.Rand("long", c.N(3000, 60000), func(r *rand.Rand) (string, func() string) {
		size := r.Intn(200)
		n := 1 + r.Intn(60)
		key := fmt.Sprint(size, " ")
		var seq []bufOp
		for i := 0; i < n; i++ {
			switch r.Intn(6) {
			case 0:
				s := strings.Repeat(string(rune('a'+r.Intn(26))), r.Intn(300))
				esc := r.Intn(2) == 0
				seq = append(seq, bufOp{fmt.Sprintf("S%d", len(s)), func(b *est.Buffer) string {
					if esc {
						b.AppendString(s)
					} else {
						b.AppendStringWithoutEscaping(s)
					}
					return s
				}})
			case 1:
				v := int(r.Uint64()) >> uint(r.Intn(64))
				seq = append(seq, bufOp{fmt.Sprintf("I%d", v), func(b *est.Buffer) string { b.AppendInt(v); return strconv.Itoa(v) }})
			case 2:
				v := math.Float64frombits(r.Uint64())
				if r.Intn(2) == 0 {
					v = float64(r.Intn(100000)) / 64
				}
				seq = append(seq, bufOp{fmt.Sprintf("F%v", v), func(b *est.Buffer) string { b.AppendFloat(v); return strconv.FormatFloat(v, 'f', -1, 64) }})
			case 3:
				v := byte(r.Intn(256))
				seq = append(seq, bufOp{fmt.Sprintf("b%d", v), func(b *est.Buffer) string { b.AppendByte(v); return string([]byte{v}) }})
			case 4:
				v := r.Intn(2) == 0
				seq = append(seq, bufOp{fmt.Sprint(v), func(b *est.Buffer) string { b.AppendBool(v); return strconv.FormatBool(v) }})
			default:
				seq = append(seq, ops[r.Intn(len(ops))])
			}
		}
		resets := r.Intn(3)
		return key + names(seq), func() string { return run(size, seq, resets) }
	})
}

type strHolder struct {
	S   string
	P   *strHolder
	PS  *string
	L   []string
	LS  []strHolder
	M   map[string]string
	Any interface{}
	T   time.Time
}

type namedStr string

func (h strHolder) Str() string   { return h.S }
func (h *strHolder) PStr() string { return h.S }

// C6 functions
type escNS struct{}

// Echo returns its argument
func (escNS) Echo(s string) string { return s }

// Iface returns its argument
func (escNS) Iface(s string) interface{} { return s }

// Pair concatenates
func (escNS) Pair(a string, n int) string { return a + strconv.Itoa(n) }

// List makes a list
func (escNS) List(a string) []string { return []string{a, a + "<"} }

func c06(c *Ctx) {
	dyn := []string{"<b>", "a&b", "\"q\"", "it's", "&lt;", "plain", "", "<", ">", "日<本>", "a\x00<", "<script>alert('x')</script>", "&&", "\n<\t>"}
	exprs := []struct {
		e    string
		want func(s string) string
		arr  bool
	}{
		{"$s", nil, false}, {"${s}", nil, false}, {"$h.S", nil, false}, {"$hp.S", nil, false}, {"$h.P.S", nil, false}, {"$hp.P.S", nil, false}, {"$l[0]", nil, false}, {"$h.L[0]", nil, false}, {"$h.LS[0].S", nil, false},
		{"$m[$k]", nil, false}, {"$any", nil, false}, {"$h.Any", nil, false}, {"$fn.Echo($s)", nil, false}, {"$fn.Iface($s)", nil, false}, {"$hp.PStr()", nil, false}, {"$h.Str()", nil, false},
		{"$fn.Echo($fn.Echo($s))", nil, false}, {"$fn.Pair($s, 3)", func(s string) string { return s + "3" }, false}, {"$strings.TrimSpace($s)", strings.TrimSpace, false},
		{"$l", func(s string) string { return fmt.Sprintf("%s", jsonOf([]string{s, "z"})) }, true}, {"$m", func(s string) string { return jsonOf(map[string]string{"k": s}) }, true},
		{"$ps", func(s string) string { return jsonOf(&s) }, true}, {"$named", nil, false},
		{"#set($n1 = $s)$n1", nil, false}, {"#set($n1 = $s + \"<\")$n1", func(s string) string { return s + "<" }, false}, {"#foreach($x in $l1)$x#end", nil, false}, {"#foreach($x in $fn.List($s))$x#end", func(s string) string { return s + s + "<" }, false},
		{"#if($s == $s)$s#end", nil, false},
	}
	lits := []string{"<i>&\"'", "plain", "#[[<x>&]]#", "é<"}
	for _, esc := range []bool{false, true} {
		for _, e := range exprs {
			for _, d := range dyn {
				for _, l := range lits {
					for _, ev := range []bool{false, true} {
						esc, e, d, l, ev := esc, e, d, l, ev
						if ev && strings.Contains(l, "#[[") {
							continue
						}
						c.Case(func() string { return fmt.Sprintf("escape=%v evaluate=%v %s with %q literal %q", esc, ev, e.e, d, l) }, func() string {
							d2 := d
							vars := []Var{{Name: "s", Val: d}, {Name: "h", Val: strHolder{S: d, P: &strHolder{S: d}, L: []string{d}, LS: []strHolder{{S: d}}, Any: d}}, {Name: "hp", Val: &strHolder{S: d, P: &strHolder{S: d}}},
								{Name: "l", Val: []string{d, "z"}}, {Name: "l1", Val: []string{d}}, {Name: "m", Val: map[string]string{"k": d}}, {Name: "k", Val: "k"}, {Name: "any", Val: d, Type: reflect.TypeOf((*interface{})(nil)).Elem()}, {Name: "ps", Val: &d2}, {Name: "named", Val: namedStr(d)}}
							tpl := l + " " + e.e + " " + l
							if ev {
								vars = append(vars, Var{Name: "tpl", Val: tpl})
								tpl = "<o>#evaluate($tpl)</o>"
							}
							pr, err := compile([]velty.Option{velty.EscapeHTML(esc)}, vars, tpl, func(p *velty.Planner) error { return p.RegisterFuncNs("fn", escNS{}) })
							if err != nil {
								return "compile: " + err.Error()
							}
							out, _, err := pr.run(vars)
							if err != nil {
								return err.Error()
							}
							w := d
							if e.want != nil {
								w = e.want(d)
							}
							if esc {
								w = html.EscapeString(w)
							}
							lit := l
							if strings.HasPrefix(l, "#[[") {
								lit = l[3 : len(l)-3]
							}
							want := lit + " " + w + " " + lit
							if ev {
								want = "<o>" + want + "</o>"
							}
							if out != want {
								return mismatch(tpl, out, want)
							}
							return ""
						})
					}
				}
			}
		}
	}
	c.Rand("programs", c.N(800, 10000), func(r *rand.Rand) (string, func() string) {
		g := newGen(r)
		var ns []node
		for k := 2 + r.Intn(5); k > 0; k-- {
			ns = append(ns, g.stmt(2))
		}
		seeds := []int64{r.Int63()}
		return fmt.Sprint(src(ns), seeds), func() string {
			if m := runProgram(ns, g, seeds, velty.EscapeHTML(true)); m != "" {
				return m
			}
			return runProgram(ns, g, seeds, velty.EscapeHTML(false))
		}
	})
}

func c07(c *Ctx) {
	var vs []int64
	add := func(v int64) {
		for d := int64(-2); d <= 2; d++ {
			vs = append(vs, v+d, -(v + d))
		}
	}
	p := int64(1)
	for i := 0; i < 19; i++ {
		add(p)
		add(p * 9)
		p *= 10
	}
	for i := uint(0); i < 63; i++ {
		add(1 << i)
	}
	for i := int64(-1100); i <= 1100; i++ {
		vs = append(vs, i)
	}
	vs = append(vs, math.MinInt64, math.MaxInt64, math.MinInt64+1)
	check := func(v int64) string {
		want := strconv.FormatInt(v, 10)
		for _, extra := range []int{0, 1, 45} {
			buf := make([]byte, len(want)+extra+16)
			for i := range buf {
				buf[i] = 0xA5
			}
			dst := buf[8 : 8+len(want)+extra]
			n := utils.AppendInt(dst, v, 10)
			if n != len(want) || string(dst[:len(want)]) != want {
				return mismatch(fmt.Sprintf("AppendInt(%d)", v), fmt.Sprint(n, " ", string(dst[:len(want)])), want)
			}
			for i, b := range buf {
				if (i < 8 || i >= 8+len(dst)) && b != 0xA5 {
					return fmt.Sprintf("AppendInt(%d) wrote at %d (destination is 8..%d)", v, i, 8+len(dst))
				}
			}
		}
		for _, size := range []int{0, 1, 70} {
			b := est.NewBuffer(size, false)
			b.AppendString("<")
			b.AppendInt(int(v))
			b.AppendString(">")
			if b.String() != "<"+want+">" {
				return mismatch("buffer", b.String(), "<"+want+">")
			}
		}
		return ""
	}
	for _, v := range vs {
		v := v
		c.Case(func() string { return strconv.FormatInt(v, 10) }, func() string { return check(v) })
	}
	for _, v := range ints {
		v := v
		c.Case(func() string { return fmt.Sprint("template ", v) }, func() string {
			pr, err := compile(nil, []Var{{Name: "i", Val: 0}, {Name: "h", Val: Holder{}}, {Name: "any", Val: 1, Type: reflect.TypeOf((*interface{})(nil)).Elem()}}, "$i|$h.V.I|${any}")
			if err != nil {
				return err.Error()
			}
			out, _, err := pr.run([]Var{{Name: "i", Val: v}, {Name: "h", Val: Holder{V: Inner{I: v}}}, {Name: "any", Val: v}})
			w := strconv.Itoa(v)
			if err != nil || out != w+"|"+w+"|"+w {
				return mismatch("template", out, w)
			}
			return ""
		})
	}
	c.Rand("random", c.N(20000, 2000000), func(r *rand.Rand) (string, func() string) {
		v := int64(r.Uint64()) >> uint(r.Intn(64))
		if r.Intn(2) == 0 {
			v = -v
		}
		return strconv.FormatInt(v, 10), func() string { return check(v) }
	})
}

func c08(c *Ctx) {
	wraps := []struct {
		name, pre, post string
		rep             int
	}{
		{"top", "", "", 1}, {"if", "#if($t)", "#end", 1}, {"elseif", "#if($f)no#elseif($t)", "#end", 1}, {"else", "#if($f)no#else", "#end", 1},
		{"foreach", "#foreach($x in $two)", "#end", 2}, {"for", "#for($i = 0; $i < 3; $i++)", "#end", 3}, {"deep", "#if($t)#foreach($x in $two)#if($f)#else", "#end#end#end", 2},
	}
	kinds := 4
	for n := 0; n <= c.N(40, 90); n++ {
		for _, w := range wraps {
			for variant := 0; variant < kinds+1; variant++ {
				n, w, variant := n, w, variant
				c.Case(func() string { return fmt.Sprintf("%s with %d statements, variant %d", w.name, n, variant) }, func() string {
					vars := []Var{{Name: "t", Val: true}, {Name: "f", Val: false}, {Name: "two", Val: []int{1, 2}}, {Name: "log", Val: ""}}
					body, want, log := "", "", ""
					for i := 0; i < n; i++ {
						k := variant
						if k == kinds {
							k = (i*7 + i/3) % kinds
						}
						switch k {
						case 0: // reference
							name := fmt.Sprintf("v%d", i)
							vars = append(vars, Var{Name: name, Val: fmt.Sprintf("<%d>", i)})
							body += "${" + name + "}"
							want += fmt.Sprintf("<%d>", i)
						case 1: // assignment, order and multiplicity visible in log
							body += fmt.Sprintf("#set($log = $log + \"%d,\")", i)
							log += fmt.Sprintf("%d,", i)
						case 2: // nested
							body += fmt.Sprintf("#if($t)(%d)#else bad#end", i)
							want += fmt.Sprintf("(%d)", i)
						case 3: // text between references
							name := fmt.Sprintf("w%d", i)
							vars = append(vars, Var{Name: name, Val: i})
							body += "${" + name + "};"
							want += fmt.Sprintf("%d;", i)
						}
					}
					want = strings.Repeat(want, w.rep)
					log = strings.Repeat(log, w.rep)
					pr, err := compile(nil, vars, w.pre+body+w.post)
					if err != nil {
						return "compile: " + err.Error()
					}
					for pass := 0; pass < 2; pass++ {
						out, s, err := pr.run(vars)
						if err != nil {
							return err.Error()
						}
						l, _ := value(s, "log")
						if out != want || l != log {
							return mismatch(fmt.Sprintf("pass %d, log %q want %q", pass, l, log), out, want)
						}
					}
					return ""
				})
			}
		}
	}
	programs(c, "programs", c.N(1000, 15000))
}

func c09(c *Ctx) {
	for n := 1; n <= c.N(6, 8); n++ {
		for mask := 0; mask < 1<<uint(n); mask++ {
			for _, els := range []bool{false, true} {
				for style := 0; style < 4; style++ {
					n, mask, els, style := n, mask, els, style
					c.Case(func() string { return fmt.Sprintf("chain of %d, truth %b, else %v, style %d", n, mask, els, style) }, func() string {
						var vars []Var
						tpl, want := "", ""
						hit := false
						count := 0
						for i := 0; i < n; i++ {
							b := mask>>uint(i)&1 == 1
							name := fmt.Sprintf("c%d", i)
							cond := "$" + name
							switch style {
							case 0:
								vars = append(vars, Var{Name: name, Val: b})
							case 1:
								v := 0
								if b {
									v = i + 1
								}
								vars = append(vars, Var{Name: name, Val: v})
								cond = "$" + name + " > 0"
							case 2: // counts evaluations through a call
								vars = append(vars, Var{Name: name, Val: b})
								cond = "$fn.Count(" + cond + ")"
							case 3:
								vars = append(vars, Var{Name: name, Val: Holder{V: Inner{B: b}}})
								cond = "$" + name + ".V.B"
							}
							if !hit {
								count++
							}
							if b && !hit {
								hit = true
								want = fmt.Sprintf("B%d.", i)
							}
							if i == 0 {
								tpl += "#if(" + cond + ")"
							} else {
								tpl += "#elseif(" + cond + ")"
							}
							tpl += fmt.Sprintf("B%d.", i)
						}
						if els {
							tpl += "#else~E."
							if !hit {
								want = "~E."
							}
						}
						tpl = "[" + tpl + "#end]"
						want = "[" + want + "]"
						ct := &counter{}
						pr, err := compile(nil, vars, tpl, func(p *velty.Planner) error { return p.RegisterFuncNs("fn", ct) })
						if err != nil {
							return "compile: " + err.Error()
						}
						out, _, err := pr.run(vars)
						if err != nil {
							return err.Error()
						}
						if out != want {
							return mismatch(tpl, out, want)
						}
						if style == 2 && ct.n != count {
							return mismatch("conditions evaluated", ct.n, count)
						}
						return ""
					})
				}
			}
		}
	}
	// truth of every kind
	i0, i1, e := 0, 5, ""
	type tc struct {
		v    interface{}
		want bool
	}
	cases := []tc{{true, true}, {false, false}, {0, false}, {1, true}, {-1, true}, {256, true}, {1 << 32, true}, {math.MinInt64, true}, {0.0, false}, {0.5, true}, {-0.25, true}, {math.Inf(1), true}, {1e-300, true},
		{"", false}, {"a", true}, {" ", true}, {"false", true}, {"0", true}, {"\x00", true}, {[]int(nil), false}, {[]int{}, false}, {[]int{0}, true}, {[]string{""}, true}, {[]string{}, false}, {[]Inner{{}}, true}, {[]*Inner{nil}, true},
		{(*int)(nil), false}, {&i1, true}, {&i0, false}, {(*string)(nil), false}, {&e, false}, {(*Inner)(nil), false}, {&Inner{}, true}, {(*float64)(nil), false}, {(*bool)(nil), false}, {boolp(false), false}, {boolp(true), true}, {&Holder{}, true}, {(*Holder)(nil), false},
		{int8(0), false}, {int8(4), true}, {int16(0), false}, {int16(256), true}, {int32(0), false}, {int32(65536), true}, {int64(0), false}, {int64(1 << 40), true}, {uint(0), false}, {uint(3), true}, {uint8(0), false}, {uint8(200), true},
		{uint16(0), false}, {uint16(256), true}, {uint32(0), false}, {uint32(1 << 31), true}, {uint64(0), false}, {uint64(1 << 63), true}, {float32(0), false}, {float32(0.5), true}}
	type wrapped struct{ X interface{} }
	for _, t := range cases {
		for where := 0; where < 4; where++ {
			t, where := t, where
			c.Case(func() string {
				return fmt.Sprintf("truth of %T %v at %d", t.v, clip(fmt.Sprintf("%#v", t.v), 20), where)
			}, func() string {
				var vars []Var
				cond := ""
				ty := reflect.TypeOf(t.v)
				st := reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: reflect.TypeOf(byte(0))}, {Name: "X", Type: ty}, {Name: "Pad2", Type: reflect.TypeOf(byte(0))}})
				rv := reflect.New(st).Elem()
				rv.Field(0).SetUint(255)
				rv.Field(2).SetUint(255)
				rv.Field(1).Set(reflect.ValueOf(t.v))
				switch where {
				case 0:
					vars, cond = []Var{{Name: "x", Val: t.v}}, "$x"
				case 1:
					vars, cond = []Var{{Name: "x", Val: rv.Interface()}}, "$x.X"
				case 2:
					vars, cond = []Var{{Name: "x", Val: rv.Addr().Interface()}}, "$x.X"
				case 3:
					vars, cond = []Var{{Name: "y", Val: byte(255)}, {Name: "x", Val: t.v}, {Name: "z", Val: byte(255)}}, "($x)"
				}
				pr, err := compile(nil, vars, "#if("+cond+")T#else~F#end#if("+cond+")Y#elseif(true)N#end")
				if err != nil {
					return "compile: " + err.Error()
				}
				out, _, err := pr.run(vars)
				if err != nil {
					return err.Error()
				}
				want := "~FN"
				if t.want {
					want = "TY"
				}
				if out != want {
					return mismatch("output", out, want)
				}
				return ""
			})
		}
	}
	c.Rand("nested", c.N(1500, 20000), func(r *rand.Rand) (string, func() string) {
		g := newGen(r)
		var ns []node
		for k := 1 + r.Intn(3); k > 0; k-- {
			ns = append(ns, g.only(4, func(n node) bool { _, ok := n.(sIf); return ok }))
		}
		seeds := []int64{r.Int63(), r.Int63(), r.Int63(), r.Int63()}
		return fmt.Sprint(src(ns), seeds), func() string { return runProgram(ns, g, seeds) }
	})
}

func boolp(b bool) *bool { return &b }

type counter struct{ n int }

// Count counts and returns its argument
func (c *counter) Count(b bool) bool { c.n++; return b }

func c10(c *Ctx) {
	type kind struct {
		name string
		mk   func(n int) (interface{}, []string)
		body string
	}
	ip := func(i int) *int { return &i }
	list := func(n int, f func(i int) (interface{}, string)) func(int) (interface{}, []string) { return nil }
	_ = list
	mk := func(t interface{}, f func(i int) (interface{}, string)) func(n int) (interface{}, []string) {
		return func(n int) (interface{}, []string) {
			rv := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(t)), 0, n+3)
			var w []string
			for i := 0; i < n; i++ {
				v, s := f(i)
				if v == nil {
					rv = reflect.Append(rv, reflect.Zero(reflect.TypeOf(t)))
				} else {
					rv = reflect.Append(rv, reflect.ValueOf(v))
				}
				w = append(w, s)
			}
			return rv.Interface(), w
		}
	}
	kinds := []kind{
		{"int", mk(0, func(i int) (interface{}, string) { return i*3 - 5, strconv.Itoa(i*3 - 5) }), "$x"},
		{"string", mk("", func(i int) (interface{}, string) { s := strings.Repeat("s", i%3) + strconv.Itoa(i); return s, s }), "$x"},
		{"float64", mk(0.0, func(i int) (interface{}, string) { v := float64(i) / 4; return v, render(v) }), "$x"},
		{"bool", mk(true, func(i int) (interface{}, string) { return i%3 == 0, strconv.FormatBool(i%3 == 0) }), "$x"},
		{"struct", mk(Inner{}, func(i int) (interface{}, string) {
			return Inner{I: i, S: "n" + strconv.Itoa(i)}, fmt.Sprintf("%d:n%d", i, i)
		}), "${x.I}:$x.S"},
		{"*struct", mk(&Inner{}, func(i int) (interface{}, string) {
			return &Inner{I: i, S: "n" + strconv.Itoa(i)}, fmt.Sprintf("%d:n%d", i, i)
		}), "${x.I}:$x.S"},
		{"*struct nil", mk(&Inner{}, func(i int) (interface{}, string) {
			if i%2 == 1 {
				return nil, "0:"
			}
			return &Inner{I: i + 1, S: "p"}, fmt.Sprintf("%d:p", i+1)
		}), "${x.I}:$x.S"},
		{"interface", func(n int) (interface{}, []string) {
			var s []interface{}
			var w []string
			for i := 0; i < n; i++ {
				switch i % 3 {
				case 0:
					s, w = append(s, i), append(w, strconv.Itoa(i))
				case 1:
					s, w = append(s, "q"+strconv.Itoa(i)), append(w, "q"+strconv.Itoa(i))
				default:
					s, w = append(s, float64(i)/2), append(w, render(float64(i)/2))
				}
			}
			return s, w
		}, "$x"},
		{"[]int", mk([]int{}, func(i int) (interface{}, string) { return []int{i, i * 2, 7}, fmt.Sprintf("%d.%d.7.", i, i*2) }), "#foreach($y in $x)${y}.#end"},
		{"map", mk(map[string]int{}, func(i int) (interface{}, string) { return map[string]int{"k": i}, strconv.Itoa(i) }), "$x[$key]"},
		{"int8", mk(int8(0), func(i int) (interface{}, string) { return int8(i - 3), strconv.Itoa(i - 3) }), "$x"},
		{"int32", mk(int32(0), func(i int) (interface{}, string) { return int32(i * 70000), strconv.Itoa(i * 70000) }), "$x"},
		{"uint16", mk(uint16(0), func(i int) (interface{}, string) { return uint16(i * 300), strconv.Itoa(i * 300) }), "$x"},
		{"*int", mk(ip(0), func(i int) (interface{}, string) { return ip(i), strconv.Itoa(i) }), "$x"},
		{"struct17", mk(odd{}, func(i int) (interface{}, string) {
			return odd{A: byte(i), B: [3]int32{int32(i), 2, 3}, C: byte(i + 1)}, fmt.Sprintf("%d-%d", i, i+1)
		}), "${x.A}-$x.C"},
	}
	lens := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 31, 33, 40}
	for _, k := range kinds {
		for _, n := range lens {
			for reach := 0; reach < 6; reach++ {
				k, n, reach := k, n, reach
				c.Case(func() string { return fmt.Sprintf("%d %s elements reached way %d", n, k.name, reach) }, func() string {
					v, w := k.mk(n)
					ty := reflect.TypeOf(v)
					st := reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: reflect.TypeOf(byte(0))}, {Name: "X", Type: ty}, {Name: "P2", Type: reflect.TypeOf(byte(0))}})
					rv := reflect.New(st).Elem()
					rv.Field(1).Set(reflect.ValueOf(v))
					path := ""
					var val interface{}
					body := k.body
					switch reach {
					case 0:
						val, path = v, "$xs"
					case 1:
						val, path = rv.Interface(), "$xs.X"
					case 2:
						val, path = rv.Addr().Interface(), "$xs.X"
					case 3:
						o := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "N", Type: reflect.TypeOf(1)}, {Name: "Q", Type: reflect.PtrTo(st)}})).Elem()
						o.Field(1).Set(rv.Addr())
						val, path = o.Addr().Interface(), "$xs.Q.X"
					case 4: // slice of slices through an outer loop
						outer := reflect.MakeSlice(reflect.SliceOf(ty), 0, 2)
						outer = reflect.Append(outer, reflect.ValueOf(v), reflect.ValueOf(v))
						val, path = outer.Interface(), "$in"
					case 5:
						o := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "N", Type: reflect.TypeOf(1)}, {Name: "Q", Type: st}})).Elem()
						o.Field(1).Set(rv)
						val, path = o.Interface(), "$xs.Q.X"
					}
					tpl := "#foreach($x in " + path + ")<" + body + ">#end"
					want := ""
					for _, s := range w {
						want += "<" + s + ">"
					}
					if reach == 4 {
						tpl = "#foreach($in in $xs)(" + tpl + ")#end"
						want = "(" + want + ")(" + want + ")"
					}
					tpl = "^" + tpl + "$"
					want = "^" + want + "$"
					vars := []Var{{Name: "key", Val: "k"}, {Name: "xs", Val: val}, {Name: "guard", Val: 42}}
					before := jsonOf(val)
					pr, err := compile(nil, vars, tpl)
					if err != nil {
						return "compile " + tpl + ": " + err.Error()
					}
					for pass := 0; pass < 2; pass++ {
						out, s, err := pr.run(vars)
						if err != nil {
							return err.Error()
						}
						if out != want {
							return mismatch(tpl, out, want)
						}
						if gd, _ := value(s, "guard"); gd != 42 {
							return mismatch("guard", gd, 42)
						}
					}
					if after := jsonOf(val); after != before {
						return mismatch("data after the loop", after, before)
					}
					return ""
				})
			}
		}
	}
	// for loops with every compound step
	for _, op := range []string{"++", "--", "+=", "-=", "*=", "/="} {
		for from := -2; from <= 6; from++ {
			for to := -2; to <= 12; to += 2 {
				for step := 1; step <= 4; step++ {
					for _, cmp := range []string{"<", "<=", ">", ">=", "!="} {
						op, from, to, step, cmp := op, from, to, step, cmp
						if (op == "++" || op == "--") && step > 1 {
							continue
						}
						i := from
						want := ""
						n := 0
						for ; n < 60; n++ {
							h, _ := binary(cmp, i, to)
							if !h.(bool) {
								break
							}
							want += strconv.Itoa(i) + ","
							switch op {
							case "++":
								i++
							case "--":
								i--
							case "+=":
								i += step
							case "-=":
								i -= step
							case "*=":
								i *= step
							case "/=":
								i /= step
							}
						}
						if n == 60 {
							continue
						}
						c.Case(func() string { return fmt.Sprintf("for i=%d; i%s%d; i%s%d", from, cmp, to, op, step) }, func() string {
							post := "$i" + op
							if op != "++" && op != "--" {
								post = "$i " + op + " $step"
							}
							tpl := "#for($i = $from; $i " + cmp + " $to; " + post + ")${i},#end|$i"
							vars := []Var{{Name: "from", Val: from}, {Name: "to", Val: to}, {Name: "step", Val: step}}
							pr, err := compile(nil, vars, tpl)
							if err != nil {
								return "compile " + tpl + ": " + err.Error()
							}
							out, _, err := pr.run(vars)
							if err != nil {
								return err.Error()
							}
							if w := want + "|" + strconv.Itoa(i); out != w {
								return mismatch(tpl, out, w)
							}
							return ""
						})
					}
				}
			}
		}
	}
	c.Rand("nested", c.N(1500, 20000), func(r *rand.Rand) (string, func() string) {
		g := newGen(r)
		var ns []node
		for k := 1 + r.Intn(2); k > 0; k-- {
			if r.Intn(2) == 0 {
				ns = append(ns, g.forLoop(3))
			} else {
				ns = append(ns, g.foreach(3))
			}
		}
		seeds := []int64{r.Int63(), r.Int63(), r.Int63()}
		return fmt.Sprint(src(ns), seeds), func() string { return runProgram(ns, g, seeds) }
	})
}

type odd struct {
	A byte
	B [3]int32
	C byte
}
