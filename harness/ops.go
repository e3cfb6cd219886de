package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/viant/velty"
)

type embI struct {
	EI int
	EF float64
	ES string
	EB bool
}

type embP struct {
	QI int
	QF float64
	QS string
	QB bool
}

// Holder is reached through every operand shape
type Holder struct {
	Pad byte
	I   int
	F   float64
	S   string
	B   bool
	embI0
	embI
	*embP
	P    *Holder
	V    Inner
	L    []Inner
	Pad2 byte
}

type embI0 struct{ Z0 int32 }

// Inner is a nested value
type Inner struct {
	Pad int16
	I   int
	F   float64
	S   string
	B   bool
}

// NS is a function namespace
type NS struct{}

// Int is an identity
func (NS) Int(v int) int { return v }

// Float is an identity
func (NS) Float(v float64) float64 { return v }

// Str is an identity
func (NS) Str(v string) string { return v }

// Bool is an identity
func (NS) Bool(v bool) bool { return v }

func regNS(p *velty.Planner) error { return p.RegisterFuncNs("fn", NS{}) }

func fieldOf(v interface{}) string {
	switch v.(type) {
	case int:
		return "I"
	case float64:
		return "F"
	case string:
		return "S"
	}
	return "B"
}

func fnOf(v interface{}) string {
	switch v.(type) {
	case int:
		return "Int"
	case float64:
		return "Float"
	case string:
		return "Str"
	}
	return "Bool"
}

func setInner(v interface{}) Inner {
	r := Inner{Pad: 7}
	switch x := v.(type) {
	case int:
		r.I = x
	case float64:
		r.F = x
	case string:
		r.S = x
	case bool:
		r.B = x
	}
	return r
}

func setHolder(v interface{}) Holder {
	in := setInner(v)
	h := Holder{Pad: 1, I: in.I, F: in.F, S: in.S, B: in.B, V: in, L: []Inner{{I: -77}, in}, embP: &embP{in.I, in.F, in.S, in.B}, embI: embI{in.I, in.F, in.S, in.B}}
	return h
}

// shape is a way to denote a value in a template
type shape struct {
	name string
	// expr returns the operand text and the variables, p is the variable name prefix; ok is false if the shape can't hold the value
	expr func(p string, v interface{}) (text string, vars []Var, ok bool)
}

func sliceOf(v interface{}) interface{} {
	switch x := v.(type) {
	case int:
		return []int{x + 1, x, 5}
	case float64:
		return []float64{8, x}
	case string:
		return []string{"q", x}
	}
	return []bool{!v.(bool), v.(bool)}
}

func mapOf(v interface{}) interface{} {
	switch x := v.(type) {
	case int:
		return map[string]int{"k": x, "z": x + 1}
	case float64:
		return map[string]float64{"k": x}
	case string:
		return map[string]string{"k": x}
	}
	return map[string]bool{"k": v.(bool)}
}

func literal(v interface{}) (string, bool) {
	switch x := v.(type) {
	case int:
		if x < 0 {
			return "", false
		}
		return strconv.Itoa(x), true
	case float64:
		if x != x || math.IsInf(x, 0) || x < 0 || math.Signbit(x) || (x != 0 && (x > 1e15 || x < 1e-6)) {
			return "", false
		}
		s := strconv.FormatFloat(x, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		return s, true
	case string:
		if strings.ContainsAny(x, "\"$\\") {
			return "", false
		}
		return `"` + x + `"`, true
	}
	if b, ok := v.(bool); ok {
		return strconv.FormatBool(b), true
	}
	return "", false
}

var shapes = []shape{
	{"var", func(p string, v interface{}) (string, []Var, bool) {
		return "$" + p, []Var{{Name: p, Val: v}}, true
	}},
	{"braced", func(p string, v interface{}) (string, []Var, bool) {
		return "${" + p + "}", []Var{{Name: p, Val: v}}, true
	}},
	{"literal", func(p string, v interface{}) (string, []Var, bool) {
		s, ok := literal(v)
		return s, nil, ok
	}},
	{"field", func(p string, v interface{}) (string, []Var, bool) {
		return "$" + p + "." + fieldOf(v), []Var{{Name: p, Val: setHolder(v)}}, true
	}},
	{"nested", func(p string, v interface{}) (string, []Var, bool) {
		return "$" + p + ".V." + fieldOf(v), []Var{{Name: p, Val: setHolder(v)}}, true
	}},
	{"ptrfield", func(p string, v interface{}) (string, []Var, bool) {
		h := setHolder(v)
		return "$" + p + "." + fieldOf(v), []Var{{Name: p, Val: &h}}, true
	}},
	{"deep", func(p string, v interface{}) (string, []Var, bool) {
		h := setHolder(v)
		return "$" + p + ".P.P.V." + fieldOf(v), []Var{{Name: p, Val: Holder{P: &Holder{P: &h}}}}, true
	}},
	{"embedded", func(p string, v interface{}) (string, []Var, bool) {
		return "$" + p + ".E" + fieldOf(v), []Var{{Name: p, Val: setHolder(v)}}, true
	}},
	{"embeddedptr", func(p string, v interface{}) (string, []Var, bool) {
		return "$" + p + ".Q" + fieldOf(v), []Var{{Name: p, Val: setHolder(v)}}, true
	}},
	{"index", func(p string, v interface{}) (string, []Var, bool) {
		return "$" + p + "[1]", []Var{{Name: p, Val: sliceOf(v)}}, true
	}},
	{"indexfield", func(p string, v interface{}) (string, []Var, bool) {
		return "$" + p + "[1]." + fieldOf(v), []Var{{Name: p, Val: []Inner{{}, setInner(v)}}}, true
	}},
	{"fieldindexfield", func(p string, v interface{}) (string, []Var, bool) {
		return "$" + p + ".L[1]." + fieldOf(v), []Var{{Name: p, Val: setHolder(v)}}, true
	}},
	{"mapvalue", func(p string, v interface{}) (string, []Var, bool) {
		return "$" + p + "[$" + p + "k]", []Var{{Name: p, Val: mapOf(v)}, {Name: p + "k", Val: "k"}}, true
	}},
	{"call", func(p string, v interface{}) (string, []Var, bool) {
		return "$fn." + fnOf(v) + "($" + p + ")", []Var{{Name: p, Val: v}}, true
	}},
	{"paren", func(p string, v interface{}) (string, []Var, bool) {
		return "($" + p + ")", []Var{{Name: p, Val: v}}, true
	}},
	{"expr", func(p string, v interface{}) (string, []Var, bool) {
		switch v.(type) {
		case int:
			return "($" + p + " * 1)", []Var{{Name: p, Val: v}}, true
		case float64:
			return "($" + p + " * 1.0)", []Var{{Name: p, Val: v}}, true
		case string:
			return "($" + p + " + \"\")", []Var{{Name: p, Val: v}}, true
		}
		return "($" + p + " == true)", []Var{{Name: p, Val: v}}, true
	}},
}

// binary is the reference: the Go operator
func binary(op string, a, b interface{}) (r interface{}, ok bool) {
	switch x := a.(type) {
	case int:
		y := b.(int)
		switch op {
		case "+":
			return x + y, true
		case "-":
			return x - y, true
		case "*":
			return x * y, true
		case "/":
			if y == 0 {
				return nil, false
			}
			return x / y, true
		case "==":
			return x == y, true
		case "!=":
			return x != y, true
		case ">":
			return x > y, true
		case ">=":
			return x >= y, true
		case "<":
			return x < y, true
		case "<=":
			return x <= y, true
		}
	case float64:
		y := b.(float64)
		switch op {
		case "+":
			return x + y, true
		case "-":
			return x - y, true
		case "*":
			return x * y, true
		case "/":
			return x / y, true
		case "==":
			return x == y, true
		case "!=":
			return x != y, true
		case ">":
			return x > y, true
		case ">=":
			return x >= y, true
		case "<":
			return x < y, true
		case "<=":
			return x <= y, true
		}
	case string:
		y := b.(string)
		switch op {
		case "+":
			return x + y, true
		case "==":
			return x == y, true
		case "!=":
			return x != y, true
		}
	case bool:
		y := b.(bool)
		switch op {
		case "==":
			return x == y, true
		case "!=":
			return x != y, true
		case "&&":
			return x && y, true
		case "||":
			return x || y, true
		}
	}
	return nil, false
}

var allOps = []string{"+", "-", "*", "/", "==", "!=", ">", ">=", "<", "<=", "&&", "||"}

func opsOf(v interface{}) []string {
	var r []string
	for _, op := range allOps {
		if _, ok := binary(op, v, oneOf(v)); ok {
			r = append(r, op)
		}
	}
	return r
}

func oneOf(v interface{}) interface{} {
	switch v.(type) {
	case int:
		return 1
	case float64:
		return 1.0
	case string:
		return "a"
	}
	return true
}

func box(vs interface{}) []interface{} {
	rv := reflect.ValueOf(vs)
	r := make([]interface{}, rv.Len())
	for i := range r {
		r[i] = rv.Index(i).Interface()
	}
	return r
}

var kinds = [][]interface{}{box(ints), box(floats), box(strs), box(bools)}

func pairs(kind []interface{}, r *rand.Rand, n int) [][2]interface{} {
	var out [][2]interface{}
	if n >= len(kind)*len(kind) {
		for _, a := range kind {
			for _, b := range kind {
				out = append(out, [2]interface{}{a, b})
			}
		}
		return out
	}
	for _, a := range kind {
		out = append(out, [2]interface{}{a, a})
	}
	for len(out) < n {
		a, b := kind[r.Intn(len(kind))], kind[r.Intn(len(kind))]
		switch x := a.(type) {
		case int:
			if r.Intn(2) == 0 {
				a, b = int(r.Uint64()), int(r.Uint64())
			} else if r.Intn(2) == 0 {
				b = x + r.Intn(5) - 2
			}
		case float64:
			if r.Intn(2) == 0 {
				a, b = math.Float64frombits(r.Uint64()), math.Float64frombits(r.Uint64())
			} else if r.Intn(2) == 0 {
				b = math.Nextafter(x, 1)
			}
		}
		out = append(out, [2]interface{}{a, b})
	}
	return out
}

// checkBinary evaluates x op y in three contexts and compares with the Go operator
func checkBinary(xt, yt, op string, vars []Var, a, b interface{}) string {
	want, ok := binary(op, a, b)
	if !ok {
		return skip
	}
	tpl := "#set($res = " + xt + " " + op + " " + yt + ")$res"
	if _, isBool := want.(bool); isBool {
		tpl += "#if(" + xt + " " + op + " " + yt + ")T#{else}F#end"
	}
	tpl = strings.ReplaceAll(tpl, "#{else}", "#else ")
	pr, err := compile(nil, vars, tpl, regNS)
	if err != nil {
		return "compile " + tpl + ": " + err.Error()
	}
	out, s, err := pr.run(vars)
	if err != nil {
		return tpl + ": " + err.Error()
	}
	got, found := value(s, "res")
	if !found {
		return "no result variable"
	}
	if !same(got, want) {
		return mismatch(fmt.Sprintf("%s with %#v, %#v", tpl, a, b), got, want)
	}
	wantOut := render(want)
	if w, isBool := want.(bool); isBool {
		if w {
			wantOut += "T"
		} else {
			wantOut += " F"
		}
	}
	if out != wantOut {
		return mismatch(fmt.Sprintf("output of %s with %#v, %#v", tpl, a, b), out, wantOut)
	}
	for _, v := range vars {
		got, _ := value(s, v.Name)
		switch v.Val.(type) {
		case int, float64, string, bool:
			if !same(got, v.Val) {
				return mismatch("operand variable "+v.Name, got, v.Val)
			}
		}
	}
	return ""
}

func init() {
	suites["C01"] = Suite{
		Rule: "every operator x operand type x pair of 16 operand shapes, with pairs of boundary and random values; a case is one (operator, shapes, value pair) whose Go operator is defined",
		Run: func(c *Ctx) {
			r := rand.New(rand.NewSource(c.Seed))
			for _, kind := range kinds {
				for _, op := range opsOf(kind[0]) {
					// all pairs of values through the plain shapes
					for _, sh := range [][2]int{{0, 0}, {5, 0}, {0, 2}, {2, 9}} {
						for _, pr := range pairs(kind, r, c.N(100, 5000)) {
							caseBinary(c, shapes[sh[0]], shapes[sh[1]], op, pr[0], pr[1])
						}
					}
					for _, sx := range shapes {
						for _, sy := range shapes {
							n := c.N(3, 30)
							for i := 0; i < n; i++ {
								caseBinary(c, sx, sy, op, kind[r.Intn(len(kind))], kind[r.Intn(len(kind))])
							}
							a := kind[r.Intn(len(kind))]
							caseBinary(c, sx, sy, op, a, a)
						}
					}
				}
			}
			for _, sx := range shapes {
				for _, b := range bools {
					sx, b := sx, b
					c.Case(func() string { return fmt.Sprintf("!|%s|%v", sx.name, b) }, func() string {
						xt, vars, ok := sx.expr("vx", b)
						if !ok {
							return skip
						}
						tpl := "#set($res = !" + xt + ")$res"
						pr, err := compile(nil, vars, tpl, regNS)
						if err != nil {
							return tpl + " " + err.Error()
						}
						out, _, err := pr.run(vars)
						if err != nil || out != render(!b) {
							return mismatch(tpl, fmt.Sprint(out, err), !b)
						}
						return ""
					})
				}
			}
			// operators applied to the results of the same expression evaluated twice, with one plan and many states
			c.Rand("plan", c.N(400, 8000), func(r *rand.Rand) (string, func() string) {
				k := kinds[r.Intn(len(kinds))]
				ops := opsOf(k[0])
				op := ops[r.Intn(len(ops))]
				sx, sy := shapes[r.Intn(len(shapes))], shapes[r.Intn(len(shapes))]
				if sx.name == "literal" || sy.name == "literal" {
					sx, sy = shapes[0], shapes[1]
				}
				vals := make([][2]interface{}, 6)
				for i := range vals {
					vals[i] = [2]interface{}{k[r.Intn(len(k))], k[r.Intn(len(k))]}
				}
				return fmt.Sprintf("%s|%s|%s|%#v", sx.name, op, sy.name, vals), func() string {
					xt, vx, _ := sx.expr("vx", vals[0][0])
					yt, vy, _ := sy.expr("vy", vals[0][1])
					tpl := "#set($res = " + xt + op + yt + ")"
					pr, err := compile(nil, append(append([]Var{}, vx...), vy...), tpl, regNS)
					if err != nil {
						return tpl + " " + err.Error()
					}
					for _, p := range vals {
						want, ok := binary(op, p[0], p[1])
						if !ok {
							continue
						}
						_, vx, _ := sx.expr("vx", p[0])
						_, vy, _ := sy.expr("vy", p[1])
						_, s, err := pr.run(append(append([]Var{}, vx...), vy...))
						if err != nil {
							return err.Error()
						}
						if got, _ := value(s, "res"); !same(got, want) {
							return mismatch(fmt.Sprintf("%s with %#v", tpl, p), got, want)
						}
					}
					return ""
				}
			})
		},
	}
	suites["C02"] = Suite{
		Rule: "every pointer kind x comparison x shape (pointer variable, pointer field, pointer field of a pointer) x all pairs of boundary values and nil; a case is one (kind, operator, shapes, values)",
		Run:  runC02,
	}
}

func caseBinary(c *Ctx, sx, sy shape, op string, a, b interface{}) {
	c.Case(func() string { return fmt.Sprintf("%s|%s|%s|%#v|%#v", sx.name, op, sy.name, a, b) }, func() string {
		xt, vx, ok := sx.expr("vx", a)
		if !ok {
			return skip
		}
		yt, vy, ok := sy.expr("vy", b)
		if !ok {
			return skip
		}
		return checkBinary(xt, yt, op, append(append([]Var{}, vx...), vy...), a, b)
	})
}

var ptrKinds = []interface{}{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), float64(0), "", false}

// ptrValues are boundary values of a kind
func ptrValues(k interface{}) []interface{} {
	t := reflect.TypeOf(k)
	var out []interface{}
	add := func(v interface{}) { out = append(out, reflect.ValueOf(v).Convert(t).Interface()) }
	switch t.Kind() {
	case reflect.String:
		return box(strs)
	case reflect.Bool:
		return box(bools)
	case reflect.Float32:
		for _, f := range []float32{0, float32(math.Copysign(0, -1)), 1, -1, 1.5, -2.5, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), 16777216, 256} {
			out = append(out, f)
		}
		return out
	case reflect.Float64:
		return box(floats)
	}
	bits := t.Bits()
	for _, sh := range []int{0, 7, 8, 15, 16, 31, 32, 63} {
		if sh < bits {
			add(int64(1) << uint(sh))
			add(int64(1)<<uint(sh) - 1)
			add(int64(1)<<uint(sh) + 1)
			add(-(int64(1) << uint(sh)))
		}
	}
	add(int64(0))
	add(int64(-1))
	add(int64(-2))
	add(int64(0x1122334455667788))
	uniq := map[interface{}]bool{}
	var r []interface{}
	for _, v := range out {
		if !uniq[v] {
			uniq[v] = true
			r = append(r, v)
		}
	}
	return r
}

func compareGo(op string, a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	var lt, eq bool
	switch x.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		lt, eq = x.Int() < y.Int(), x.Int() == y.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		lt, eq = x.Uint() < y.Uint(), x.Uint() == y.Uint()
	case reflect.Float32, reflect.Float64:
		f, g := x.Float(), y.Float()
		switch op {
		case "==":
			return f == g
		case "!=":
			return f != g
		case "<":
			return f < g
		case "<=":
			return f <= g
		case ">":
			return f > g
		}
		return f >= g
	case reflect.String:
		lt, eq = x.String() < y.String(), x.String() == y.String()
	case reflect.Bool:
		eq = x.Bool() == y.Bool()
	}
	switch op {
	case "==":
		return eq
	case "!=":
		return !eq
	case "<":
		return lt
	case "<=":
		return lt || eq
	case ">":
		return !lt && !eq
	}
	return !lt
}

func ptrTo(v interface{}) interface{} {
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	return p.Interface()
}

func runC02(c *Ctx) {
	// how a pointer operand is reached
	type pshape struct {
		name string
		mk   func(name string, p interface{}) (string, Var)
	}
	holder := func(p interface{}) reflect.Value {
		t := reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: reflect.TypeOf(int32(0))}, {Name: "P", Type: reflect.TypeOf(p)}, {Name: "Q", Type: reflect.TypeOf(p)}})
		v := reflect.New(t)
		v.Elem().Field(1).Set(reflect.ValueOf(p))
		return v
	}
	ps := []pshape{
		{"var", func(n string, p interface{}) (string, Var) { return "$" + n, Var{Name: n, Val: p} }},
		{"field", func(n string, p interface{}) (string, Var) {
			return "$" + n + ".P", Var{Name: n, Val: holder(p).Elem().Interface()}
		}},
		{"ptrfield", func(n string, p interface{}) (string, Var) {
			return "$" + n + ".P", Var{Name: n, Val: holder(p).Interface()}
		}},
	}
	for _, k := range ptrKinds {
		vals := ptrValues(k)
		ops := []string{"==", "!=", "<", "<=", ">", ">="}
		if kind := reflect.TypeOf(k).Kind(); kind == reflect.String || kind == reflect.Bool {
			ops = ops[:2]
		}
		for _, op := range ops {
			for xi, sx := range ps {
				for yi, sy := range ps {
					if !c.Thorough && xi != yi && (xi == 1 || yi == 1) {
						continue
					}
					k, op, sx, sy := k, op, sx, sy
					c.Case(func() string { return fmt.Sprintf("%T|%s|%s|%s|all pairs", k, op, sx.name, sy.name) }, func() string {
						return checkPtrs(k, op, vals, func(n string, p interface{}) (string, Var) { return sx.mk(n, p) }, func(n string, p interface{}) (string, Var) { return sy.mk(n, p) })
					})
				}
			}
		}
	}
	// a pointer compared with a value of the base type (int, float64, string, bool variables and literals)
	for _, k := range []interface{}{int(0), float64(0), "", false} {
		vals := ptrValues(k)
		ops := []string{"==", "!=", "<", "<=", ">", ">="}
		if kind := reflect.TypeOf(k).Kind(); kind == reflect.String || kind == reflect.Bool {
			ops = ops[:2]
		}
		for _, op := range ops {
			for _, left := range []bool{true, false} {
				for _, lit := range []bool{true, false} {
					k, op, left, lit := k, op, left, lit
					c.Case(func() string { return fmt.Sprintf("%T|%s|mixed|ptrLeft=%v|literal=%v", k, op, left, lit) }, func() string {
						for _, b := range vals {
							var yt string
							var vy []Var
							if lit {
								var ok bool
								if yt, ok = literal(b); !ok {
									continue
								}
							} else {
								yt, vy = "$vy", []Var{{Name: "vy", Val: b}}
							}
							expr := "$vx " + op + " " + yt
							if !left {
								expr = yt + " " + op + " $vx"
							}
							vars := append([]Var{{Name: "vx", Val: ptrTo(b)}}, vy...)
							pr, err := compile(nil, vars, "#set($res = "+expr+")#if("+expr+")T#else F#end")
							if err != nil {
								return expr + ": " + err.Error()
							}
							for _, a := range append([]interface{}{nil}, vals...) {
								p := ptrTo(k)
								if a == nil {
									p = reflect.Zero(reflect.TypeOf(p)).Interface()
								} else {
									p = ptrTo(a)
								}
								vars[0].Val = p
								out, s, err := pr.run(vars)
								if err != nil {
									return err.Error()
								}
								got, _ := value(s, "res")
								if a == nil {
									if op == "==" && got != false {
										return fmt.Sprintf("%s: nil == %#v is true", expr, b)
									}
									continue
								}
								want := compareGo(op, a, b)
								if !left {
									want = compareGo(op, b, a)
								}
								wo := " F"
								if want {
									wo = "T"
								}
								if got != want || out != wo {
									return fmt.Sprintf("%s with pointer to %#v and %#v: got %v %q want %v", expr, a, b, got, out, want)
								}
							}
						}
						return ""
					})
				}
			}
		}
	}
}

func checkPtrs(k interface{}, op string, vals []interface{}, mx, my func(string, interface{}) (string, Var)) string {
	xt, vx := mx("vx", ptrTo(k))
	yt, vy := my("vy", ptrTo(k))
	expr := xt + " " + op + " " + yt
	pr, err := compile(nil, []Var{vx, vy}, "#set($res = "+expr+")#if("+expr+")T#else F#end")
	if err != nil {
		return expr + ": " + err.Error()
	}
	nilp := reflect.Zero(reflect.PtrTo(reflect.TypeOf(k))).Interface()
	all := append([]interface{}{nil}, vals...)
	for _, a := range all {
		for _, b := range all {
			pa, pb := nilp, nilp
			if a != nil {
				pa = ptrTo(a)
			}
			if b != nil {
				pb = ptrTo(b)
			}
			_, vx := mx("vx", pa)
			_, vy := my("vy", pb)
			out, s, err := pr.run([]Var{vx, vy})
			if err != nil {
				return err.Error()
			}
			got, _ := value(s, "res")
			if a == nil || b == nil {
				if op == "==" && (a == nil) != (b == nil) && (got != false || out != " F") {
					return fmt.Sprintf("%s: with nil=%v and nil=%v is %v, other value %#v %#v", expr, a == nil, b == nil, got, a, b)
				}
				continue
			}
			want := compareGo(op, a, b)
			wo := " F"
			if want {
				wo = "T"
			}
			if got != want || out != wo {
				return fmt.Sprintf("%s with pointers to %#v (%T) and %#v: got %v %q want %v", expr, a, a, b, got, out, want)
			}
			if !same(reflect.ValueOf(pa).Elem().Interface(), a) || !same(reflect.ValueOf(pb).Elem().Interface(), b) {
				return "operand changed"
			}
		}
	}
	return ""
}
