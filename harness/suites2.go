package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/viant/parsly"
	"github.com/viant/velty"
	"github.com/viant/velty/parser/matcher"
)

func init() {
	suites["C11"] = Suite{"every field path of a family of nested, pointer and embedded struct shapes (depth up to 6) reached from a value, a pointer, a loop item and a function result, with every single nil and every random nil pattern", c11}
	suites["C12"] = Suite{"every text over {a,$,#,{,},(,),[,],.,space,newline,\\,é} up to a bounded length without directives, alone and between directives; random mixes of text, undefined references, escaped blocks, comments and directives", c12}
	suites["C13"] = Suite{"every byte string over a small alphabet up to a bounded length, every cursor position, every matcher, against an independent reference; random long inputs", c13}
	suites["C14"] = Suite{"functions, namespace functions and methods with 0..7 arguments of every kind, variadic, chained and nested, with literal, variable, field, expression and call arguments; error results at every position", c14}
}

// ---- C11

type P0 struct {
	Pad byte
	I   int
	S   string
	U8  uint8
	F   float64
	B   bool
}
type P1 struct {
	A   byte
	V   P0
	P   *P0
	End int
}
type P2 struct {
	S string
	P *P1
	V P1
}
type P3 struct {
	V P2
	P *P2
	S string
}
type EV struct {
	X int
	P0
}
type EP struct {
	XX string
	*P1
	Y int
}
type EE struct {
	Lead bool
	EV
	Q *EP
	EP
}
type EEE struct {
	*EE
	Z int
}
type Rec struct {
	N    int
	Next *Rec
	Body P0
	Kids []Rec
}

// fill makes a value of a type in which every pointer is set (bounded for recursive types)
func fillVal(t reflect.Type, n *int, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	*n++
	switch t.Kind() {
	case reflect.Int:
		v.SetInt(int64(*n*1000003 - 7))
	case reflect.Uint8:
		v.SetUint(uint64(*n%200 + 3))
	case reflect.String:
		v.SetString("s" + strconv.Itoa(*n))
	case reflect.Float64:
		v.SetFloat(float64(*n) + 0.5)
	case reflect.Bool:
		v.SetBool(*n%2 == 0)
	case reflect.Ptr:
		if depth > 0 {
			p := reflect.New(t.Elem())
			p.Elem().Set(fillVal(t.Elem(), n, depth-1))
			v.Set(p)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			v.Field(i).Set(fillVal(t.Field(i).Type, n, depth-1))
		}
	}
	return v
}

// paths lists the selector paths of a struct type that end at a scalar
func paths(t reflect.Type, depth int) [][]string {
	var res [][]string
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		ft := f.Type
		if ft.Kind() == reflect.Ptr {
			ft = ft.Elem()
		}
		switch ft.Kind() {
		case reflect.Struct:
			if depth > 0 {
				for _, p := range paths(ft, depth-1) {
					if f.Anonymous {
						if g, ok := t.FieldByName(p[0]); ok && len(g.Index) > 1 && g.Index[0] == i {
							res = append(res, p) // promoted
						}
						continue
					}
					res = append(res, append([]string{f.Name}, p...))
				}
			}
		case reflect.Slice:
		default:
			res = append(res, []string{f.Name})
		}
	}
	return res
}

// follow is the reference: the value at the path, or the zero value of its type
func follow(v reflect.Value, path []string) (interface{}, bool) {
	t := v.Type()
	nilSeen := false
	for _, name := range path {
		for t.Kind() == reflect.Ptr {
			if !nilSeen {
				if v.IsNil() {
					nilSeen = true
				} else {
					v = v.Elem()
				}
			}
			t = t.Elem()
		}
		f, ok := t.FieldByName(name)
		if !ok {
			panic("no field " + name + " at " + t.String())
		}
		for _, ix := range f.Index {
			for t.Kind() == reflect.Ptr {
				if !nilSeen {
					if v.IsNil() {
						nilSeen = true
					} else {
						v = v.Elem()
					}
				}
				t = t.Elem()
			}
			t = t.Field(ix).Type
			if !nilSeen {
				v = v.Field(ix)
			}
		}
	}
	if nilSeen {
		return reflect.Zero(t).Interface(), true
	}
	return v.Interface(), false
}

// pointers lists the addresses of all pointer fields in a value
func pointers(v reflect.Value, out *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			if v.CanSet() {
				*out = append(*out, v)
			}
			pointers(v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			pointers(v.Field(i), out)
		}
	}
}

func renderAny(v interface{}) string {
	switch x := v.(type) {
	case uint8:
		return strconv.Itoa(int(x))
	}
	return render(v)
}

type pathNS struct{ v interface{} }

type nsP3 struct{ v *P3 }

func (n nsP3) Get() *P3 { return n.v }

type nsEE struct{ v *EE }

func (n nsEE) Get() *EE { return n.v }

type nsEEE struct{ v *EEE }

func (n nsEEE) Get() *EEE { return n.v }

type nsRec struct{ v *Rec }

func (n nsRec) Get() *Rec { return n.v }

func c11(c *Ctx) {
	types := []reflect.Type{reflect.TypeOf(P3{}), reflect.TypeOf(EE{}), reflect.TypeOf(EEE{}), reflect.TypeOf(Rec{})}
	for _, t := range types {
		ps := paths(t, 4)
		n0 := 0
		probe := reflect.New(t)
		probe.Elem().Set(fillVal(t, &n0, 6))
		var ptrs []reflect.Value
		pointers(probe.Elem(), &ptrs)
		patterns := len(ptrs) + 2
		for root := 0; root < 5; root++ {
			for pat := 0; pat < patterns+c.N(6, 60); pat++ {
				for pi := 0; pi < len(ps); pi += 1 {
					t, root, pat, path := t, root, pat, ps[pi]
					c.Case(func() string {
						return fmt.Sprintf("%s.%s root %d nil pattern %d", t.Name(), strings.Join(path, "."), root, pat)
					}, func() string {
						mk := func(salt int) reflect.Value {
							n := salt
							v := reflect.New(t)
							v.Elem().Set(fillVal(t, &n, 6))
							var pp []reflect.Value
							pointers(v.Elem(), &pp)
							if pat < len(pp) {
								pp[pat].Set(reflect.Zero(pp[pat].Type()))
							} else if pat == len(pp) {
								for _, p := range pp {
									if p.CanSet() {
										p.Set(reflect.Zero(p.Type()))
									}
								}
							} else if pat > len(pp)+1 {
								r := rand.New(rand.NewSource(int64(pat*31 + salt)))
								for _, p := range pp {
									if r.Intn(3) == 0 {
										p.Set(reflect.Zero(p.Type()))
									}
								}
							}
							return v
						}
						var regs []func(p *velty.Planner) error
						vars := func(v reflect.Value) []Var {
							switch root {
							case 0:
								return []Var{{Name: "pad", Val: byte(1)}, {Name: "x", Val: v.Elem().Interface()}}
							case 1:
								return []Var{{Name: "pad", Val: byte(1)}, {Name: "x", Val: v.Interface()}}
							case 2:
								s := reflect.MakeSlice(reflect.SliceOf(t), 0, 1)
								return []Var{{Name: "l", Val: reflect.Append(s, v.Elem()).Interface()}}
							case 3:
								s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 0, 1)
								return []Var{{Name: "l", Val: reflect.Append(s, v).Interface()}}
							}
							return []Var{{Name: "pad", Val: byte(1)}, {Name: "x", Val: reflect.Zero(v.Type()).Interface()}}
						}
						v1, v2 := mk(0), mk(500)
						sel := "${x." + strings.Join(path, ".") + "}"
						ref := "$x." + strings.Join(path, ".")
						tpl := "[" + sel + "|#set($y = " + ref + ")$y|" + sel + "]"
						if root == 2 || root == 3 {
							tpl = "#foreach($x in $l)" + tpl + "#end"
						}
						pr, err := compile(nil, vars(v1), tpl, regs...)
						if err != nil {
							return "compile " + tpl + ": " + err.Error()
						}
						for _, v := range []reflect.Value{v1, v2, v1} {
							before := jsonOf(v.Interface())
							vs := vars(v)
							out, s, err := pr.run(vs)
							if err != nil {
								return err.Error()
							}
							var want interface{}
							if root == 4 {
								want, _ = follow(reflect.Zero(v.Type()), path)
							} else {
								want, _ = follow(v.Elem(), path)
							}
							w := renderAny(want)
							if out != "["+w+"|"+w+"|"+w+"]" {
								return mismatch(tpl, out, "["+w+"|"+w+"|"+w+"]")
							}
							if after := jsonOf(v.Interface()); after != before {
								return mismatch("data after reading", after, before)
							}
							_ = s
						}
						return ""
					})
				}
			}
		}
	}
	// function results
	n := 0
	p3 := fillVal(reflect.TypeOf(&P3{}), &n, 7).Interface().(*P3)
	ee := fillVal(reflect.TypeOf(&EE{}), &n, 7).Interface().(*EE)
	eee := fillVal(reflect.TypeOf(&EEE{}), &n, 7).Interface().(*EEE)
	rec := fillVal(reflect.TypeOf(&Rec{}), &n, 5).Interface().(*Rec)
	for _, f := range []struct {
		ns interface{}
		v  interface{}
	}{{nsP3{p3}, p3}, {nsEE{ee}, ee}, {nsEEE{eee}, eee}, {nsRec{rec}, rec}, {nsP3{nil}, (*P3)(nil)}, {nsRec{nil}, (*Rec)(nil)}} {
		for _, path := range paths(reflect.TypeOf(f.v).Elem(), 4) {
			f, path := f, path
			c.Case(func() string {
				return fmt.Sprintf("result %T.%s nil %v", f.v, strings.Join(path, "."), reflect.ValueOf(f.v).IsNil())
			}, func() string {
				tpl := "${fn.Get()." + strings.Join(path, ".") + "}"
				pr, err := compile(nil, nil, tpl, func(p *velty.Planner) error { return p.RegisterFuncNs("fn", f.ns) })
				if err != nil {
					return "compile " + tpl + ": " + err.Error()
				}
				out, _, err := pr.run(nil)
				if err != nil {
					return err.Error()
				}
				want, _ := follow(reflect.ValueOf(f.v), path)
				if w := renderAny(want); out != w {
					return mismatch(tpl, out, w)
				}
				return ""
			})
		}
	}
}

// ---- C12

func c12(c *Ctx) {
	toks := []string{"a", "$", "#", "{", "}", "(", ")", "[", "]", ".", " ", "\n", "\\", "é", "\"", "!"}
	var texts []string
	var rec func(p string, n int)
	rec = func(p string, n int) {
		texts = append(texts, p)
		if n == 0 {
			return
		}
		for _, t := range toks {
			rec(p+t, n-1)
		}
	}
	rec("", c.N(3, 4))
	for _, s := range texts {
		if strings.Contains(s, "##") || strings.Contains(s, "#[[") {
			continue
		}
		for where := 0; where < 3; where++ {
			s, where := s, where
			c.Case(func() string { return fmt.Sprintf("text %q at %d", s, where) }, func() string {
				tpl, want := s, s
				switch where {
				case 1:
					tpl, want = "<"+s+"\n#if(true)x#end"+s, "<"+s+"\nx"+s
					if strings.HasSuffix(s, "#") || strings.HasSuffix(s, "\\") || strings.HasSuffix(s, "!") || open(s) {
						return skip
					}
				case 2:
					tpl, want = "#foreach($x in $two)"+s+"\n#end-"+s, s+"\n"+s+"\n-"+s
					if strings.HasSuffix(s, "#") || strings.HasPrefix(s, ".") || strings.HasPrefix(s, "[") || open(s) {
						return skip
					}
				}
				pr, err := compile(nil, []Var{{Name: "two", Val: []int{1, 2}}}, tpl)
				if err != nil {
					return fmt.Sprintf("compile %q: %s", tpl, err.Error())
				}
				out, _, err := pr.run([]Var{{Name: "two", Val: []int{1, 2}}})
				if err != nil {
					return err.Error()
				}
				if out != want {
					return mismatch(fmt.Sprintf("%q", tpl), out, want)
				}
				return ""
			})
		}
	}
	c.Rand("mix", c.N(6000, 200000), func(r *rand.Rand) (string, func() string) {
		tpl, want := "", ""
		add := func(t, w string) { tpl += t; want += w }
		n := 1 + r.Intn(8)
		for i := 0; i < n; i++ {
			switch k := r.Intn(13); k {
			case 0, 1, 2:
				words := []string{"text ", "  ", "\n", "é日本 ", "\t|", "<b>&amp;</b> ", "a=b; ", "100% ", "x.y ", "\r\n", "()[]{} ", "end if set ", "\xff\xfe ", "'q' \"d\" ", ", "}
				for j := 1 + r.Intn(3); j > 0; j-- {
					w := words[r.Intn(len(words))]
					add(w, w)
				}
			case 3:
				w := []string{"$undef ", "${undef}", "$undef.x ", "$undef.x.y()-", "$un_def1,", "$undef. ", "$Undef\n", "$math, ", "${time}", "$json\n"}[r.Intn(10)]
				if strings.HasPrefix(w, "$undef.x.y") {
					w = "$undef.x.y "
				}
				add(w, w)
			case 4:
				w := []string{"$ ", "$5 ", "$$ ", "$\n", "$-", "$.", "$ $ "}[r.Intn(7)]
				add(w, w)
			case 5:
				w := []string{"# ", "#1 ", "#\n", "#x ", "#-", "#iff ", "#ends"}[r.Intn(5)]
				add(w, w)
			case 6:
				w := []string{"plain", "$v #if(x) #end", "", "# $ ", "a ]# b", "]] ", "\n", "a[0 ", "x] [y", "#[[ nested ]]# ", "[1]", "\\ \\["}[r.Intn(12)]
				add("#[["+w+"]]#", w)
			case 7:
				w := []string{"comment", "", " $v #if", "#[[ x", "é"}[r.Intn(5)]
				add("##"+w+"\n", "")
			case 8:
				add("${v}", "VAL")
			case 9:
				add("$v ", "VAL ")
			case 10:
				add("#if($t)", "")
				w := []string{"in ", " \n", "é ", "$undef "}[r.Intn(4)]
				add(w, w)
				add("#end", "")
			case 11:
				add("#set($z = 1)", "")
			case 12:
				add("#foreach($q in $two)", "")
				w := []string{"in ", " \n", "é ", "$undef "}[r.Intn(4)]
				add(w, w+w)
				add("#end", "")
			}
		}
		return fmt.Sprintf("%q", tpl), func() string {
			if spacedDirective.MatchString(tpl) {
				return skip // white space between # and the name of a directive is allowed
			}
			vars := []Var{{Name: "v", Val: "VAL"}, {Name: "t", Val: true}, {Name: "two", Val: []int{1, 2}}}
			pr, err := compile(nil, vars, tpl)
			if err != nil {
				return "compile: " + err.Error()
			}
			for i := 0; i < 2; i++ {
				out, _, err := pr.run(vars)
				if err != nil {
					return err.Error()
				}
				if out != want {
					return mismatch("output", out, want)
				}
			}
			return ""
		}
	})
}

var spacedDirective = regexp.MustCompile(`#\s+(if|elseif|else|set|foreach|for|evaluate|end)`)

// open tells if a reference in the text may extend past its end
func open(s string) bool {
	return strings.Contains(s, "$")
}

// ---- C13

type matcherRef struct {
	name string
	m    parsly.Matcher
	ref  func(in []byte, pos int) int
}

func c13(c *Ctx) {
	letter := func(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
	str := func(q byte) func(in []byte, pos int) int {
		return func(in []byte, pos int) int {
			if in[pos] != q {
				return 0
			}
			for i := pos + 1; i < len(in); i++ {
				if in[i] == '\\' {
					i++
				} else if in[i] == q {
					return i - pos + 1
				}
			}
			return 0
		}
	}
	set := func(incl bool, vs ...byte) func(in []byte, pos int) int {
		return func(in []byte, pos int) int {
			if i := strings.IndexAny(string(in[pos:]), string(vs)); i >= 0 {
				if incl {
					return i + 1
				}
				return i
			}
			return len(in) - pos
		}
	}
	ms := []matcherRef{
		{"identity", matcher.NewIdentity(), func(in []byte, pos int) int {
			if !letter(in[pos]) {
				return 0
			}
			n := 1
			for pos+n < len(in) && (letter(in[pos+n]) || in[pos+n] == '_' || in[pos+n] >= '0' && in[pos+n] <= '9') {
				n++
			}
			return n
		}},
		{"string", matcher.NewStringMatcher('"'), str('"')},
		{"string'", matcher.NewStringMatcher('\''), str('\'')},
		{"argument", matcher.NewArgumentMatcher(), func(in []byte, pos int) int {
			depth, quoted := 0, false
			for i := pos; i < len(in); i++ {
				b := in[i]
				if b == '"' {
					quoted = !quoted
				}
				if quoted {
					continue
				}
				if b == '(' {
					depth++
				}
				if b == ')' && depth > 0 {
					depth--
				}
				if b == ',' && depth == 0 {
					return i - pos + 1
				}
			}
			return len(in) - pos
		}},
		{"newline", matcher.NewNewLine(), func(in []byte, pos int) int {
			if i := strings.IndexByte(string(in[pos:]), '\n'); i >= 0 {
				return i + 1
			}
			return len(in) - pos
		}},
		{"velty incl", matcher.NewVelty(true, '#', '$'), set(true, '#', '$')},
		{"velty excl", matcher.NewVelty(false, '#', '$'), set(false, '#', '$')},
		{"velty one", matcher.NewVelty(false, 'a'), set(false, 'a')},
		{"velty none", matcher.NewVelty(true), func(in []byte, pos int) int { return len(in) - pos }},
	}
	check := func(m matcherRef, in []byte, pos int) string {
		// the input ends at an unreadable byte as far as the matcher may know: its capacity is cut
		backing := append(append([]byte{}, in...), `"a,#$)`+"\n"...)
		cur := parsly.NewCursor("", backing[:len(in):len(in)], 0)
		cur.Pos = pos
		got := m.m.Match(cur)
		if want := m.ref(in, pos); got != want {
			return mismatch(fmt.Sprintf("%s on %q at %d", m.name, in, pos), got, want)
		}
		if cur.Pos != pos || string(cur.Input) != string(in) {
			return m.name + " moved the cursor or changed the input"
		}
		return ""
	}
	alpha := []byte{'a', 'Z', '1', '_', '"', '\\', ',', '(', ')', '\n', '#', '$', ' ', 0xC3}
	var rec func(p []byte, n int)
	rec = func(p []byte, n int) {
		if len(p) > 0 {
			in := string(p)
			c.Case(func() string { return fmt.Sprintf("%q", in) }, func() string {
				for _, m := range ms {
					for pos := 0; pos < len(in); pos++ {
						if e := check(m, []byte(in), pos); e != "" {
							return e
						}
					}
				}
				return ""
			})
		}
		if n == 0 {
			return
		}
		for _, b := range alpha {
			rec(append(append([]byte{}, p...), b), n-1)
		}
	}
	rec(nil, c.N(4, 5))
	for b := 0; b < 256; b++ {
		for _, pre := range []string{"", "a", "\"", "(", "a1"} {
			in := pre + string([]byte{byte(b)}) + "z\",)"
			c.Case(func() string { return fmt.Sprintf("byte %q", in) }, func() string {
				for _, m := range ms {
					for pos := 0; pos < len(in); pos++ {
						if e := check(m, []byte(in), pos); e != "" {
							return e
						}
					}
				}
				return ""
			})
		}
	}
	c.Rand("long", c.N(4000, 100000), func(r *rand.Rand) (string, func() string) {
		in := make([]byte, 1+r.Intn(60))
		for i := range in {
			if r.Intn(6) == 0 {
				in[i] = byte(r.Intn(256))
			} else {
				in[i] = alpha[r.Intn(len(alpha))]
			}
		}
		return fmt.Sprintf("%q", in), func() string {
			for _, m := range ms {
				for pos := 0; pos < len(in); pos++ {
					if e := check(m, in, pos); e != "" {
						return e
					}
				}
			}
			return ""
		}
	})
}

// ---- C14

type rec14 struct{ log []string }

func (r *rec14) rec(name string, args ...interface{}) string {
	s := name + "("
	for i, a := range args {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprintf("%T:%v", a, a)
	}
	s += ")"
	r.log = append(r.log, s)
	return s
}

type fn14 struct{ r *rec14 }

func (f fn14) F0() string                              { return f.r.rec("F0") }
func (f fn14) F1(a int) string                         { return f.r.rec("F1", a) }
func (f fn14) F2(a int, b string) string               { return f.r.rec("F2", a, b) }
func (f fn14) F3(a int, b string, c float64) string    { return f.r.rec("F3", a, b, c) }
func (f fn14) F4(a, b, c, d int) string                { return f.r.rec("F4", a, b, c, d) }
func (f fn14) F5(a, b, c, d, e int) string             { return f.r.rec("F5", a, b, c, d, e) }
func (f fn14) F6(a, b, c, d, e, g string) string       { return f.r.rec("F6", a, b, c, d, e, g) }
func (f fn14) F7(a, b, c, d, e, g, h int) string       { return f.r.rec("F7", a, b, c, d, e, g, h) }
func (f fn14) V(a string, rest ...int) string          { return f.r.rec("V", a, fmt.Sprint(rest)) }
func (f fn14) E(a int) (string, error)                 { return f.r.rec("E", a), nil }
func (f fn14) Any(a interface{}, b interface{}) string { return f.r.rec("Any", a, b) }
func (f fn14) Obj(a Inner, p *Inner, s []int) string   { return f.r.rec("Obj", a.I, p.I, fmt.Sprint(s)) }
func (f fn14) Int(a int) int                           { f.r.rec("Int", a); return a + 1 }
func (f fn14) Recv(n int) recv14                       { f.r.rec("Recv", n); return recv14{n, f.r} }
func (f fn14) PRecv(n int) *recv14                     { f.r.rec("PRecv", n); return &recv14{n, f.r} }
func (f fn14) Bool(a, b bool) bool                     { f.r.rec("Bool", a, b); return a && !b }
func (f fn14) Fail(n int) (string, error) {
	f.r.rec("Fail", n)
	if n%2 == 1 {
		return "r" + strconv.Itoa(n), errors.New("fail" + strconv.Itoa(n))
	}
	return "r" + strconv.Itoa(n), nil
}

type recv14 struct {
	N int
	r *rec14
}

func (v recv14) Val(a int) string             { return v.r.rec("Val", v.N, a) }
func (v recv14) Two(a string, b int) string   { return v.r.rec("Two", v.N, a, b) }
func (v *recv14) Ptr(a int) string            { return v.r.rec("Ptr", v.N, a) }
func (v recv14) Next(a int) recv14            { v.r.rec("Next", v.N, a); return recv14{v.N*10 + a, v.r} }
func (v *recv14) PNext(a int) *recv14         { v.r.rec("PNext", v.N, a); return &recv14{v.N*10 + a, v.r} }
func (v recv14) Six(a, b, c, d, e int) string { return v.r.rec("Six", v.N, a, b, c, d, e) }

type if14 interface{ Val(a int) string }

func c14(c *Ctx) {
	intArgs := []string{"1", "$i", "$o.V.I", "($i+1)", "$fn.Int($i)", "$i*2", "$is[1]", "12", "-3", "$fn.Int($fn.Int(3))"}
	intWant := func(i int) int { return []int{1, 7, 21, 8, 8, 14, 40, 12, -3, 5}[i] }
	intCalls := func(i int) []string {
		switch i {
		case 4:
			return []string{"Int(int:7)"}
		case 9:
			return []string{"Int(int:3)", "Int(int:4)"}
		}
		return nil
	}
	strArgs := []string{`"x"`, "$s", "$o.V.S", `"a, b"`, `$strings.ToUpper($s)`, `""`, `"(,"`}
	strWant := []string{"x", "str", "in", "a, b", "STR", "", "(,"}
	type call struct {
		tpl   string
		calls []string
		out   string
	}
	run := func(kind string, cs []call, wantErr string) func() string {
		return func() string {
			r := &rec14{}
			tpl, out := "", ""
			var calls []string
			for _, x := range cs {
				tpl += "<" + x.tpl + ">"
				out += "<" + x.out + ">"
				calls = append(calls, x.calls...)
			}
			in := &Inner{I: 21, S: "in"}
			vars := []Var{{Name: "i", Val: 7}, {Name: "s", Val: "str"}, {Name: "f", Val: 1.5}, {Name: "o", Val: Holder{V: *in}}, {Name: "pin", Val: in}, {Name: "vin", Val: *in}, {Name: "is", Val: []int{30, 40}}, {Name: "t", Val: true}, {Name: "ff", Val: false},
				{Name: "rv", Val: recv14{3, r}}, {Name: "rp", Val: &recv14{4, r}}, {Name: "rs", Val: []recv14{{5, r}, {6, r}}}, {Name: "rps", Val: []*recv14{{8, r}, {9, r}}}, {Name: "ri", Val: if14(recv14{2, r}), Type: reflect.TypeOf((*if14)(nil)).Elem()}}
			f := fn14{r}
			pr, err := compile(nil, vars, tpl, func(p *velty.Planner) error {
				if err := p.RegisterFuncNs("fn", f); err != nil {
					return err
				}
				for n, fn := range map[string]interface{}{"F0": f.F0, "F1": f.F1, "F2": f.F2, "F3": f.F3, "F4": f.F4, "F5": f.F5, "F6": f.F6, "F7": f.F7, "V": f.V, "E": f.E, "Any": f.Any, "Obj": f.Obj} {
					if err := p.RegisterFunction(n, fn); err != nil {
						return err
					}
				}
				return nil
			})
			if err != nil {
				return "compile " + tpl + ": " + err.Error()
			}
			for pass := 0; pass < 2; pass++ {
				r.log = nil
				got, _, err := pr.run(vars)
				if (err != nil) != (wantErr != "") || (err != nil && !strings.Contains(err.Error(), wantErr)) {
					return fmt.Sprintf("%s: error %v, want %q", tpl, err, wantErr)
				}
				if !reflect.DeepEqual(r.log, calls) && len(r.log)+len(calls) > 0 {
					return mismatch(tpl+" calls", r.log, calls)
				}
				if got != out {
					return mismatch(tpl, got, out)
				}
			}
			return ""
		}
	}
	show := func(name string, args ...interface{}) string { return (&rec14{}).rec(name, args...) }
	one := func(key string, cs ...call) { c.Case(func() string { return key }, run(key, cs, "")) }
	for _, via := range []string{"$fn.", "$"} {
		via := via
		one(via+"F0()", call{via + "F0()", []string{show("F0")}, show("F0")})
		for i := range intArgs {
			e := show("F1", intWant(i))
			one(via+"F1 "+intArgs[i], call{via + "F1(" + intArgs[i] + ")", append(intCalls(i), e), e})
			for j := range strArgs {
				e := show("F2", intWant(i), strWant[j])
				one(via+"F2 "+intArgs[i]+" "+strArgs[j], call{via + "F2(" + intArgs[i] + ", " + strArgs[j] + ")", append(intCalls(i), e), e})
				e = show("F3", intWant(i), strWant[j], 1.5)
				one(via+"F3 "+intArgs[i]+" "+strArgs[j], call{via + "F3(" + intArgs[i] + "," + strArgs[j] + ",$f)", append(intCalls(i), e), e})
				e = show("V", strWant[j], fmt.Sprint([]int{intWant(i), 5}))
				one(via+"V "+intArgs[i]+" "+strArgs[j], call{via + "V(" + strArgs[j] + "," + intArgs[i] + ",5)", append(intCalls(i), e), e})
			}
			for j := range intArgs {
				calls := append(append([]string{}, intCalls(i)...), intCalls(j)...)
				e := show("F4", intWant(i), 1, intWant(j), 2)
				one(via+"F4 "+intArgs[i]+" "+intArgs[j], call{via + "F4(" + intArgs[i] + ",1," + intArgs[j] + ",2)", append(append([]string{}, calls...), e), e})
				e = show("F5", 9, intWant(i), 1, 2, intWant(j))
				one(via+"F5 "+intArgs[i]+" "+intArgs[j], call{via + "F5(9," + intArgs[i] + ",1,2," + intArgs[j] + ")", append(append([]string{}, calls...), e), e})
				e = show("F7", 1, 2, intWant(i), 4, 5, intWant(j), 7)
				one(via+"F7 "+intArgs[i]+" "+intArgs[j], call{via + "F7(1,2," + intArgs[i] + ",4,5," + intArgs[j] + ",7)", append(append([]string{}, calls...), e), e})
				e = show("Any", intWant(i), intWant(j))
				one(via+"Any "+intArgs[i]+" "+intArgs[j], call{via + "Any(" + intArgs[i] + "," + intArgs[j] + ")", append(append([]string{}, calls...), e), e})
			}
		}
		for i := range strArgs {
			for j := range strArgs {
				e := show("F6", strWant[i], "b", strWant[j], "d", "e", strWant[i])
				one(via+"F6 "+strArgs[i]+" "+strArgs[j], call{via + "F6(" + strArgs[i] + `,"b",` + strArgs[j] + `,"d","e",` + strArgs[i] + ")", []string{e}, e})
			}
		}
		e := show("V", "q", "[]")
		one(via+"V none", call{via + `V("q")`, []string{e}, e})
		e = show("V", "q", fmt.Sprint([]int{1, 2, 3, 4, 5, 6, 7}))
		one(via+"V many", call{via + `V("q",1,2,3,4,5,6,7)`, []string{e}, e})
		e = show("Obj", 21, 21, fmt.Sprint([]int{30, 40}))
		one(via+"Obj", call{via + `Obj($vin,$pin,$is)`, []string{e}, e})
		one(via+"Obj field", call{via + `Obj($o.V,$pin,$is)`, []string{e}, e})
		e = show("E", 6)
		one(via+"E", call{via + `E(6)`, []string{e}, e})
		e1, e2 := show("F1", 1), show("F2", 2, "x")
		one(via+"several", call{via + "F1(1)", []string{e1}, e1}, call{via + `F2(2,"x")`, []string{e2}, e2}, call{via + "F1(1)", []string{e1}, e1})
	}
	// receivers
	for _, rc := range []struct {
		sel string
		n   int
	}{{"$rv", 3}, {"$rp", 4}, {"$rs[1]", 6}, {"$rps[0]", 8}, {"$ri", 2}, {"$fn.Recv(11)", 11}, {"$fn.PRecv(12)", 12}} {
		var pre []string
		if strings.HasPrefix(rc.sel, "$fn.R") {
			pre = []string{show("Recv", rc.n)}
		} else if strings.HasPrefix(rc.sel, "$fn.P") {
			pre = []string{show("PRecv", rc.n)}
		}
		for i := range intArgs {
			add := func(xs ...string) []string { return append(append([]string{}, pre...), xs...) }
			e := show("Val", rc.n, intWant(i))
			one(rc.sel+".Val "+intArgs[i], call{rc.sel + ".Val(" + intArgs[i] + ")", append(add(intCalls(i)...), e), e})
			if rc.sel == "$ri" {
				continue
			}
			e = show("Two", rc.n, "s", intWant(i))
			one(rc.sel+".Two "+intArgs[i], call{rc.sel + `.Two("s",` + intArgs[i] + ")", append(add(intCalls(i)...), e), e})
			e = show("Six", rc.n, 1, intWant(i), 3, 4, 5)
			one(rc.sel+".Six "+intArgs[i], call{rc.sel + `.Six(1,` + intArgs[i] + ",3,4,5)", append(add(intCalls(i)...), e), e})
			if rc.sel == "$rp" || rc.sel == "$rps[0]" || rc.sel == "$fn.PRecv(12)" {
				e = show("Ptr", rc.n, intWant(i))
				one(rc.sel+".Ptr "+intArgs[i], call{rc.sel + ".Ptr(" + intArgs[i] + ")", append(add(intCalls(i)...), e), e})
				n := rc.n*10 + 1
				e = show("Ptr", n, intWant(i))
				one(rc.sel+".PNext.Ptr "+intArgs[i], call{rc.sel + ".PNext(1).Ptr(" + intArgs[i] + ")", append(append(add(show("PNext", rc.n, 1)), intCalls(i)...), e), e})
			}
			n := rc.n*10 + 1
			m := n*10 + 2
			e = show("Two", m, "z", intWant(i))
			one(rc.sel+".Next.Next.Two "+intArgs[i], call{rc.sel + `.Next(1).Next(2).Two("z",` + intArgs[i] + ")", append(append(add(show("Next", rc.n, 1), show("Next", n, 2)), intCalls(i)...), e), e})
		}
	}
	// error results
	for n := 0; n < 6; n++ {
		n := n
		c.Case(func() string { return fmt.Sprintf("fail %d", n) }, func() string {
			w := ""
			if n%2 == 1 {
				w = "fail" + strconv.Itoa(n)
			}
			e := show("Fail", n)
			return run("fail", []call{{"$fn.Fail(" + strconv.Itoa(n) + ")", []string{e}, "r" + strconv.Itoa(n)}}, w)()
		})
	}
}
