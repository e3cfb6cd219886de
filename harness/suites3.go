package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/viant/velty"
)

func init() {
	suites["C15"] = Suite{"every built-in function (strings, strconv, math, slices, types, maps, json, errors, HasKey, IndexBy) on all combinations of a pool of boundary arguments passed as variables, and as literals where they can be written, against the Go function", c15}
	suites["C16"] = Suite{"random programs evaluated by #evaluate between random programs, in histories of several texts, repetitions, states and cache sizes, against the reference interpreter; nested #evaluate", c16}
	suites["C17"] = Suite{"every sequence of up to 6 pool operations (take, put, put twice, foreign put, execute) over a bounded number of states; random longer ones; reuse of a state over every pair of outcomes", c17}
	suites["C18"] = Suite{"failing calls at every position of templates of up to 6 parts, several failures, nesting in #if/#foreach/#for/#set/#evaluate and call arguments, with and without PanicOnError; panics of error and other values", c18}
}

// ---- C15

type fnCase struct {
	name string
	args []string // pool of every argument
	ref  func(a []interface{}) (interface{}, error)
}

var errAny = errors.New("an error is expected")

func fail(ok bool) error {
	if ok {
		return nil
	}
	return errAny
}

func c15(c *Ctx) {
	pools := map[string][]interface{}{
		"s":  {"", "a", "b", "aa", "ab", "aab", "abab", " a b ", "é", "ÉaBc", "a,b,,c", ",", "\n", "x\ty ", "\xff", "日本", "12", "-3", "1.5", "true", "abc", "ba", "zzzz"},
		"n":  {"", "0", "1", "-1", "007", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "1.5", "-0", "1e3", "inf", "NaN", "0x10", "+5", "x", " 1", "1 ", "1_0", "true", "T", "TRUE", "tRUE", "false", "0.1", "1e400"},
		"i":  {0, 1, -1, 7, math.MaxInt64, math.MinInt64, 1 << 40},
		"f":  {0.0, math.Copysign(0, -1), 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 0.1, 1e300, -1e-300, math.Inf(1), math.Inf(-1), math.NaN(), 4.0, float64(1 << 53)},
		"b":  {true, false},
		"ss": {[]string(nil), []string{}, []string{"a"}, []string{"a", "b", "", "a"}, []string{"x", "y", "z"}},
		"is": {[]int(nil), []int{}, []int{5}, []int{1, 2, 3}, []int{math.MaxInt64, -1}},
		"fs": {[]float64(nil), []float64{1.5}, []float64{1, 2.5, -3, math.Inf(1)}},
		"bs": {[]bool(nil), []bool{true}, []bool{true, false, false}},
		"x":  {1, 1.5, "s", true, "", 0, []string{"a"}, []int{1}, map[string]int{"a": 1}, int64(3), float32(1.5), Inner{I: 1}, &Inner{I: 2}, uint8(1)},
		"m":  {map[string]int{"a": 1, "": 2}, map[string]string{"a": "A"}, map[string]float64{"a": 1.5, "z": 0}, map[string]bool{"a": true, "b": false}, map[int]string{1: "one", 0: "zero"}, map[int]int{}, map[string]int(nil), map[string]interface{}{"a": 1, "b": "B", "n": nil}, map[int64]bool{7: true}, map[interface{}]int{"a": 5, 7: 6}},
		"k":  {"a", "", "zz", "b", "n", "z", 0, 1, 7, int64(7), int32(1), []byte("a")},
		"at": {0, 1, 2},
	}
	str := func(f func(a string) interface{}) func(a []interface{}) (interface{}, error) {
		return func(a []interface{}) (interface{}, error) { return f(a[0].(string)), nil }
	}
	str2 := func(f func(a, b string) interface{}) func(a []interface{}) (interface{}, error) {
		return func(a []interface{}) (interface{}, error) { return f(a[0].(string), a[1].(string)), nil }
	}
	fl := func(f func(a float64) float64) func(a []interface{}) (interface{}, error) {
		return func(a []interface{}) (interface{}, error) { return f(a[0].(float64)), nil }
	}
	fl2 := func(f func(a, b float64) float64) func(a []interface{}) (interface{}, error) {
		return func(a []interface{}) (interface{}, error) { return f(a[0].(float64), a[1].(float64)), nil }
	}
	lookup := func(a []interface{}) (reflect.Value, bool) {
		m := reflect.ValueOf(a[0])
		key := a[1]
		switch k := key.(type) {
		case int64:
			key = int(k)
		case int32:
			key = int(k)
		case []byte:
			key = string(k)
		}
		for _, k := range m.MapKeys() {
			ki := k.Interface()
			if x, ok := ki.(int64); ok {
				ki = int(x)
			}
			if ki == key {
				return m.MapIndex(k), true
			}
		}
		return reflect.Value{}, false
	}
	get := func(t interface{}) func(a []interface{}) (interface{}, error) {
		return func(a []interface{}) (interface{}, error) {
			v, ok := lookup(a)
			if !ok || reflect.TypeOf(v.Interface()) != reflect.TypeOf(t) {
				return t, errAny
			}
			return v.Interface(), nil
		}
	}
	is := func(t interface{}) func(a []interface{}) (interface{}, error) {
		return func(a []interface{}) (interface{}, error) { return reflect.TypeOf(a[0]) == reflect.TypeOf(t), nil }
	}
	assertIs := func(t interface{}) func(a []interface{}) (interface{}, error) {
		return func(a []interface{}) (interface{}, error) {
			ok := reflect.TypeOf(a[0]) == reflect.TypeOf(t)
			return ok, fail(ok)
		}
	}
	at := func(t interface{}) func(a []interface{}) (interface{}, error) {
		return func(a []interface{}) (interface{}, error) {
			v, i := reflect.ValueOf(a[0]), a[1].(int)
			if v.Kind() != reflect.Slice || v.Type().Elem() != reflect.TypeOf(t) {
				return t, errAny
			}
			if i >= v.Len() {
				return nil, outside // Go panics too
			}
			return v.Index(i).Interface(), nil
		}
	}
	reverse := func(t interface{}) func(a []interface{}) (interface{}, error) {
		return func(a []interface{}) (interface{}, error) {
			if reflect.TypeOf(a[0]) != reflect.TypeOf(t) {
				return nil, errAny
			}
			v := reflect.ValueOf(a[0])
			r := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				r.Index(v.Len() - 1 - i).Set(v.Index(i))
			}
			return r.Interface(), nil
		}
	}
	fns := []fnCase{
		{"$strings.ToLower", []string{"s"}, str(func(a string) interface{} { return strings.ToLower(a) })},
		{"$strings.ToUpper", []string{"s"}, str(func(a string) interface{} { return strings.ToUpper(a) })},
		{"$strings.TrimSpace", []string{"s"}, str(func(a string) interface{} { return strings.TrimSpace(a) })},
		{"$strings.Fields", []string{"s"}, str(func(a string) interface{} { return strings.Fields(a) })},
		{"$strings.Length", []string{"s"}, str(func(a string) interface{} { return len(a) })},
		{"$strings.HasPrefix", []string{"s", "s"}, str2(func(a, b string) interface{} { return strings.HasPrefix(a, b) })},
		{"$strings.HasSuffix", []string{"s", "s"}, str2(func(a, b string) interface{} { return strings.HasSuffix(a, b) })},
		{"$strings.Index", []string{"s", "s"}, str2(func(a, b string) interface{} { return strings.Index(a, b) })},
		{"$strings.LastIndex", []string{"s", "s"}, str2(func(a, b string) interface{} { return strings.LastIndex(a, b) })},
		{"$strings.Split", []string{"s", "s"}, str2(func(a, b string) interface{} { return strings.Split(a, b) })},
		{"$strings.Trim", []string{"s", "s"}, str2(func(a, b string) interface{} { return strings.Trim(a, b) })},
		{"$strings.ReplaceAll", []string{"s", "s", "s"}, func(a []interface{}) (interface{}, error) {
			return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string)), nil
		}},
		{"$strings.In", []string{"ss", "s"}, func(a []interface{}) (interface{}, error) {
			for _, x := range a[0].([]string) {
				if x == a[1] {
					return true, nil
				}
			}
			return false, nil
		}},
		{"$strconv.Itoa", []string{"i"}, func(a []interface{}) (interface{}, error) { return strconv.Itoa(a[0].(int)), nil }},
		{"$strconv.Atoi", []string{"n"}, func(a []interface{}) (interface{}, error) { return wrap(strconv.Atoi(a[0].(string))) }},
		{"$strconv.ParseFloat", []string{"n"}, func(a []interface{}) (interface{}, error) { v, e := strconv.ParseFloat(a[0].(string), 64); return v, e }},
		{"$strconv.ParseBool", []string{"n"}, func(a []interface{}) (interface{}, error) { v, e := strconv.ParseBool(a[0].(string)); return v, e }},
		{"$strconv.ParseUint", []string{"n"}, func(a []interface{}) (interface{}, error) {
			v, e := strconv.ParseUint(a[0].(string), 10, 64)
			return v, e
		}},
		{"$strconv.AsFloat", []string{"x"}, func(a []interface{}) (interface{}, error) {
			switch x := a[0].(type) {
			case float64:
				return x, nil
			case int:
				return float64(x), nil
			case string:
				v, e := strconv.ParseFloat(x, 64)
				return v, e
			}
			return 0.0, errAny
		}},
		{"$strconv.AsFloat", []string{"n"}, func(a []interface{}) (interface{}, error) { v, e := strconv.ParseFloat(a[0].(string), 64); return v, e }},
		{"$math.Round", []string{"f"}, fl(math.Round)}, {"$math.Ceil", []string{"f"}, fl(math.Ceil)}, {"$math.Floor", []string{"f"}, fl(math.Floor)}, {"$math.Abs", []string{"f"}, fl(math.Abs)}, {"$math.Sqrt", []string{"f"}, fl(math.Sqrt)},
		{"$math.Pow", []string{"f", "f"}, fl2(math.Pow)}, {"$math.Min", []string{"f", "f"}, fl2(math.Min)}, {"$math.Max", []string{"f", "f"}, fl2(math.Max)},
		{"$slices.Length", []string{"ss"}, func(a []interface{}) (interface{}, error) { return len(a[0].([]string)), nil }},
		{"$slices.Length", []string{"fs"}, func(a []interface{}) (interface{}, error) { return len(a[0].([]float64)), nil }},
		{"$slices.StringAt", []string{"ss", "at"}, at("")}, {"$slices.IntAt", []string{"is", "at"}, at(0)}, {"$slices.FloatAt", []string{"fs", "at"}, at(0.0)}, {"$slices.BoolAt", []string{"bs", "at"}, at(false)},
		{"$slices.StringAt", []string{"is", "at"}, at("")}, {"$slices.IntAt", []string{"ss", "at"}, at(0)}, {"$slices.FloatAt", []string{"is", "at"}, at(0.0)}, {"$slices.BoolAt", []string{"ss", "at"}, at(false)},
		{"$slices.ReverseStrings", []string{"ss"}, reverse([]string{})}, {"$slices.ReverseInts", []string{"is"}, reverse([]int{})}, {"$slices.ReverseFloats", []string{"fs"}, reverse([]float64{})},
		{"$slices.ReverseStrings", []string{"is"}, reverse([]string{})}, {"$slices.ReverseInts", []string{"ss"}, reverse([]int{})}, {"$slices.ReverseFloats", []string{"x"}, reverse([]float64{})},
		{"$types.IsInt", []string{"x"}, is(0)}, {"$types.IsFloat64", []string{"x"}, is(0.0)}, {"$types.IsString", []string{"x"}, is("")}, {"$types.IsBool", []string{"x"}, is(false)},
		{"$maps.Has", []string{"m", "k"}, func(a []interface{}) (interface{}, error) { _, ok := lookup(a); return ok, nil }},
		{"$maps.GetInt", []string{"m", "k"}, get(0)}, {"$maps.GetFloat", []string{"m", "k"}, get(0.0)}, {"$maps.GetBool", []string{"m", "k"}, get(false)}, {"$maps.GetString", []string{"m", "k"}, get("")},
		{"HasKey", []string{"m", "k"}, func(a []interface{}) (interface{}, error) { _, ok := lookup(a); return ok, nil }},
		{"$json.Marshal", []string{"x"}, func(a []interface{}) (interface{}, error) { b, e := json.Marshal(a[0]); return string(b), e }},
		{"$json.Marshal", []string{"m"}, func(a []interface{}) (interface{}, error) { b, e := json.Marshal(a[0]); return string(b), e }},
		{"$json.Marshal", []string{"f"}, func(a []interface{}) (interface{}, error) { b, e := json.Marshal(a[0]); return string(b), e }},
		{"$errors.Raise", []string{"s"}, func(a []interface{}) (interface{}, error) { return "", errors.New(a[0].(string)) }},
		{"$errors.RegisterError", []string{"s"}, func(a []interface{}) (interface{}, error) { return "", errors.New(a[0].(string)) }},
		{"$errors.AssertInt", []string{"x"}, assertIs(0)}, {"$errors.AssertFloat", []string{"x"}, assertIs(0.0)}, {"$errors.AssertString", []string{"x"}, assertIs("")}, {"$errors.AssertBool", []string{"x"}, assertIs(false)},
		{"$errors.AssertWithMessage", []string{"b", "s"}, func(a []interface{}) (interface{}, error) {
			if a[0].(bool) {
				return true, nil
			}
			return false, errors.New(a[1].(string))
		}},
	}
	for _, fn := range fns {
		var rec func(args []interface{})
		rec = func(args []interface{}) {
			if len(args) < len(fn.args) {
				pool := pools[fn.args[len(args)]]
				for i, v := range pool {
					if len(fn.args) == 3 && !c.Thorough && i%3 != 0 {
						continue
					}
					rec(append(append([]interface{}{}, args...), v))
				}
				return
			}
			for mode := 0; mode < 3; mode++ { // variables, literals, fields
				fn, args, mode := fn, args, mode
				c.Case(func() string { return fmt.Sprintf("%s %T %#v mode %d", fn.name, args[0], args, mode) }, func() string { return checkFn(fn, args, mode) })
			}
		}
		rec(nil)
	}
	// index by
	for _, field := range []string{"I", "S", "B", "F"} {
		for n := 0; n < 6; n++ {
			for _, ptr := range []bool{false, true} {
				field, n, ptr := field, n, ptr
				c.Case(func() string { return fmt.Sprintf("IndexBy %s of %d ptr %v", field, n, ptr) }, func() string {
					var vals []Inner
					var ptrs []*Inner
					for k := 0; k < n; k++ {
						vals = append(vals, Inner{I: k * 3 % 5, S: strs[k%4], F: float64(k) / 2, B: k%2 == 1})
						ptrs = append(ptrs, &vals[k])
					}
					for k := range ptrs {
						cp := vals[k]
						ptrs[k] = &cp
					}
					var sl interface{} = vals
					if ptr {
						sl = ptrs
					}
					for k := 0; k < n; k++ {
						kv := reflect.ValueOf(vals[k]).FieldByName(field).Interface()
						want := vals[k]
						for _, x := range vals {
							if reflect.ValueOf(x).FieldByName(field).Interface() == kv {
								want = x
							}
						}
						vars := []Var{{Name: "l", Val: sl}, {Name: "k", Val: kv}, {Name: "none", Val: "no such key"}}
						pr, err := compile(nil, vars, `#set($m = $l.IndexBy("`+field+`"))${m.HasKey($k)} ${m.HasKey($none)} ${m[$k].I} ${m[$k].F} ${m[$k].S}`)
						if err != nil {
							return err.Error()
						}
						out, _, err := pr.run(vars)
						if err != nil {
							return err.Error()
						}
						if w := fmt.Sprintf("true false %d %s %s", want.I, render(want.F), want.S); out != w {
							return mismatch(fmt.Sprint("key ", kv), out, w)
						}
					}
					return ""
				})
			}
		}
	}
}

var outside = errors.New("outside of the domain")

func wrap(v int, err error) (interface{}, error) { return v, err }

func checkFn(fn fnCase, args []interface{}, mode int) string {
	want, wantErr := fn.ref(append([]interface{}{}, args...))
	if wantErr == outside {
		return skip
	}
	var vars []Var
	var names []string
	for i, a := range args {
		name := "arg" + strconv.Itoa(i)
		switch mode {
		case 1:
			lit, ok := literal(a)
			if !ok {
				return skip
			}
			if s, isStr := a.(string); isStr && strings.ContainsAny(s, "\"\\\n\t") {
				return skip
			}
			names = append(names, lit)
		case 2:
			t := reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: reflect.TypeOf(byte(0))}, {Name: "V", Type: reflect.TypeOf(a)}})
			v := reflect.New(t)
			v.Elem().Field(1).Set(reflect.ValueOf(a))
			vars = append(vars, Var{Name: name, Val: v.Interface()})
			names = append(names, "$"+name+".V")
		default:
			vars = append(vars, Var{Name: name, Val: a})
			names = append(names, "$"+name)
		}
	}
	call := fn.name + "(" + strings.Join(names, ", ") + ")"
	if fn.name == "HasKey" {
		call = names[0] + ".HasKey(" + names[1] + ")"
		if mode == 1 {
			return skip
		}
	}
	pr, err := compile(nil, vars, "#set($res = "+call+")")
	if err != nil {
		return "compile " + call + ": " + err.Error()
	}
	for pass := 0; pass < 2; pass++ {
		_, s, err := pr.run(vars)
		if (err != nil) != (wantErr != nil) {
			return fmt.Sprintf("%s: error %v, want %v", call, err, wantErr)
		}
		if err != nil {
			if wantErr != errAny && !strings.Contains(err.Error(), wantErr.Error()) {
				return fmt.Sprintf("%s: error %q, want %q", call, err, wantErr)
			}
			continue
		}
		got, ok := value(s, "res")
		if !ok {
			return "res is missing"
		}
		if !sameDeep(got, want) {
			return mismatch(call, got, want)
		}
	}
	return ""
}

func sameDeep(a, b interface{}) bool {
	if same(a, b) {
		return true
	}
	x, ok1 := a.([]float64)
	y, ok2 := b.([]float64)
	if ok1 && ok2 && len(x) == len(y) {
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	v, w := reflect.ValueOf(a), reflect.ValueOf(b)
	return v.IsValid() && w.IsValid() && v.Type() == w.Type() && v.Kind() == reflect.Slice && v.Len() == 0 && w.Len() == 0
}

// ---- C16

// sEval evaluates a program given as text of a variable
type sEval struct {
	v    string
	body []node
	vars []scopeVar
}

func (s sEval) text(b *strings.Builder) { b.WriteString("#evaluate($" + s.v + ")") }
func (s sEval) exec(e *env) {
	e.tick()
	saved := e.vars
	e.vars = map[string]interface{}{}
	for k, v := range saved {
		e.vars[k] = v
	}
	if h, ok := saved["h"].(*Holder); ok { // a struct variable is copied, pointers are shared
		cp := *h
		e.vars["h"] = &cp
	}
	for _, v := range s.vars { // the text's own variables start with zero
		if _, has := e.vars[v.name]; !has {
			e.vars[v.name] = zeroOf(v.typ)
		}
	}
	execAll(e, s.body)
	e.vars = saved
}

func c16(c *Ctx) {
	c.Rand("history", c.N(2500, 60000), func(r *rand.Rand) (string, func() string) {
		g := newGen(r)
		nTexts := 1 + r.Intn(3)
		type text struct {
			src  string
			body []node
			vars []scopeVar
		}
		var texts []text
		base := len(g.vars)
		mkTexts := func() {
			vars, ro := append([]scopeVar{}, g.vars...), g.ro
			for len(texts) < nTexts {
				g.vars, g.ro = append([]scopeVar{}, vars...), map[string]bool{}
				for k := range ro {
					g.ro[k] = true
				}
				var ns []node
				for k := 1 + r.Intn(3); k > 0; k-- {
					ns = append(ns, g.stmt(2))
				}
				texts = append(texts, text{src(ns), ns, g.vars})
			}
			g.vars, g.ro = vars, ro
		}
		var ns []node
		for k := r.Intn(3); k > 0; k-- {
			ns = append(ns, g.stmt(1))
		}
		_ = base
		mkTexts()
		for k := 1 + r.Intn(4); k > 0; k-- {
			i := r.Intn(nTexts)
			ev := sEval{"text" + strconv.Itoa(i), texts[i].body, texts[i].vars}
			switch r.Intn(4) {
			case 0:
				ns = append(ns, sIf{conds: []exp{g.expr('b', 1)}, bodies: [][]node{{ev}}})
			case 1:
				ns = append(ns, sFor{v: "ev" + strconv.Itoa(k), init: eLit{0}, cond: eBin{"<", eVar{"ev" + strconv.Itoa(k)}, eLit{r.Intn(4)}, " "}, post: "++", body: []node{ev}})
				g.vars = append(g.vars, scopeVar{"ev" + strconv.Itoa(k), 'i'})
			default:
				ns = append(ns, ev)
			}
			if r.Intn(2) == 0 {
				ns = append(ns, g.only(1, func(n node) bool { return true }))
			}
		}
		esc := r.Intn(2) == 0
		cache := []int{0, 1, 2, 100}[r.Intn(4)]
		seeds := []int64{r.Int63(), r.Int63(), r.Int63()}
		tpl := src(ns)
		return fmt.Sprint(tpl, texts, esc, cache, seeds), func() string {
			var vars0 []Var
			withTexts := func(seed int64) []Var {
				vs := world(seed)
				for i, t := range texts {
					vs = append(vs, Var{Name: "text" + strconv.Itoa(i), Val: t.src})
				}
				return vs
			}
			vars0 = withTexts(1)
			pr, err := compile([]velty.Option{velty.EscapeHTML(esc), velty.CacheSize(cache)}, vars0, tpl, regNS)
			if err != nil {
				return "compile " + tpl + ": " + err.Error()
			}
			ran := false
			for _, i := range []int{0, 1, 0, 2, 2} {
				vars := withTexts(seeds[i])
				ref, ok := refRun(ns, withTexts(seeds[i]), esc, g)
				if !ok {
					continue
				}
				ran = true
				out, s, err := pr.run(vars)
				if err != nil {
					return err.Error()
				}
				if out != ref.out.String() {
					return fmt.Sprintf("world %d of %v\n%s", i, texts, mismatch(tpl, out, ref.out.String()))
				}
				if m := compareEnv(ref, s, vars, g); m != "" {
					return fmt.Sprintf("world %d after %s with %v: %s", i, tpl, texts, m)
				}
			}
			if !ran {
				return skip
			}
			return ""
		}
	})
	// fixed histories: the same text evaluated by several templates of one planner, with a text changing between executions, nested
	type hist struct {
		name string
		tpl  string
		vars func(k int) []Var
		want func(k int) string
	}
	hs := []hist{
		{"text changes", "<#evaluate($t)>", func(k int) []Var {
			return []Var{{Name: "t", Val: fmt.Sprintf("#set($q = %d)$q$v", k%5)}, {Name: "v", Val: k}}
		}, func(k int) string { return fmt.Sprintf("<%d%d>", k%5, k) }},
		{"nested", "#evaluate($t)", func(k int) []Var {
			return []Var{{Name: "t", Val: "a#evaluate($u)b$v"}, {Name: "u", Val: "[$v#evaluate($w)]"}, {Name: "w", Val: "{#if($v > 2)big#{else}small#end}"}, {Name: "v", Val: k}}
		}, func(k int) string {
			w := "small"
			if k > 2 {
				w = "big"
			}
			return fmt.Sprintf("a[%d{%s}]b%d", k, w, k)
		}},
		{"assigned text", `#set($t = "x$v ")#evaluate($t)#set($t = "y$v")#evaluate($t)`, func(k int) []Var { return []Var{{Name: "v", Val: k}} }, func(k int) string { return fmt.Sprintf("x%d y%d", k, k) }},
		{"loop", "#foreach($x in $l)#evaluate($t)#end", func(k int) []Var {
			return []Var{{Name: "l", Val: []int{k, k + 1, k + 2}}, {Name: "t", Val: "<$x>"}}
		}, func(k int) string { return fmt.Sprintf("<%d><%d><%d>", k, k+1, k+2) }},
		{"items", "#foreach($x in $l)#evaluate($x)#end", func(k int) []Var {
			return []Var{{Name: "l", Val: []string{"$v", "-$v", "$v"}}, {Name: "v", Val: k}}
		}, func(k int) string { return fmt.Sprintf("%d-%d%d", k, k, k) }},
		{"no leak", "#set($n = 1)#evaluate($t)$n$v", func(k int) []Var {
			return []Var{{Name: "t", Val: "#set($n = 5)#set($v = 7)$n$v|"}, {Name: "v", Val: k}}
		}, func(k int) string { return fmt.Sprintf("57|1%d", k) }},
		{"own variable", "#evaluate($t)#evaluate($u)", func(k int) []Var {
			return []Var{{Name: "t", Val: "#set($z = $v + 1)$z|"}, {Name: "u", Val: "#set($z = \"s\")$z|"}, {Name: "v", Val: k}}
		}, func(k int) string { return fmt.Sprintf("%d|s|", k+1) }},
		{"repeated own variable", "#evaluate($t)#evaluate($t)#evaluate($t)", func(k int) []Var {
			return []Var{{Name: "t", Val: "#if($v > 1)#set($z = $v)#end$z,"}, {Name: "v", Val: k}}
		}, func(k int) string {
			s := "0,"
			if k > 1 {
				s = strconv.Itoa(k) + ","
			}
			return s + s + s
		}},
		{"empty text", "[#evaluate($t)]", func(k int) []Var { return []Var{{Name: "t", Val: ""}} }, func(k int) string { return "[]" }},
		{"call", "#evaluate($t)", func(k int) []Var {
			return []Var{{Name: "t", Val: `${strings.ToUpper($s)} ${strings.ToUpper($s)} ${strconv.Itoa($v)}`}, {Name: "s", Val: "ab" + strconv.Itoa(k)}, {Name: "v", Val: k}}
		}, func(k int) string { return fmt.Sprintf("AB%d AB%d %d", k, k, k) }},
		{"field", "#evaluate($t)", func(k int) []Var {
			return []Var{{Name: "t", Val: `$h.V.I $h.S${p.I}`}, {Name: "h", Val: Holder{V: Inner{I: k}, S: "q"}}, {Name: "p", Val: &Inner{I: k + 1}}}
		}, func(k int) string { return fmt.Sprintf("%d q%d", k, k+1) }},
	}
	for _, h := range hs {
		for _, cache := range []int{0, 1, 2, 3, 50} {
			for states := 1; states < 4; states++ {
				h, cache, states := h, cache, states
				c.Case(func() string { return fmt.Sprintf("%s cache %d states %d", h.name, cache, states) }, func() string {
					pr, err := compile([]velty.Option{velty.CacheSize(cache)}, h.vars(0), h.tpl)
					if err != nil {
						return err.Error()
					}
					for k := 0; k < 12; k++ {
						n := k
						if states == 2 {
							n = k % 3
						} else if states == 3 {
							n = 7 - k/2
						}
						out, _, err := pr.run(h.vars(n))
						if err != nil {
							return err.Error()
						}
						if out != h.want(n) {
							return mismatch(fmt.Sprintf("execution %d with %d", k, n), out, h.want(n))
						}
					}
					return ""
				})
			}
		}
	}
	// the same text in templates of the same planner compiled before and after more variables exist
	for _, cache := range []int{0, 1, 10} {
		cache := cache
		c.Case(func() string { return fmt.Sprintf("planner grows, cache %d", cache) }, func() string {
			p := velty.New(velty.CacheSize(cache))
			must(p.DefineVariable("t", ""))
			must(p.DefineVariable("a", 0))
			type run struct {
				exec func(a, b int) (string, error)
			}
			mk := func(tpl string, b bool) func(av, bv int) string {
				e, n, err := p.Compile([]byte(tpl))
				must(err)
				return func(av, bv int) string {
					s := n()
					must(s.SetValue("t", "$a|$b|"))
					must(s.SetValue("a", av))
					if b {
						must(s.SetValue("b", bv))
					}
					must(e.Exec(s))
					return s.Buffer.String()
				}
			}
			one := mk("#evaluate($t)", false)
			if got := one(1, 0); got != "1|$b|" {
				return mismatch("before", got, "1|$b|")
			}
			must(p.DefineVariable("b", 0))
			two := mk("#evaluate($t)$b", true)
			for i := 0; i < 3; i++ {
				if got := two(2, 3); got != "2|3|3" {
					return mismatch("after", got, "2|3|3")
				}
			}
			return ""
		})
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
