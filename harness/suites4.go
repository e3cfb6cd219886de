package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"github.com/viant/velty/keys"
)

func init() {
	suites["C19"] = Suite{"random programs over ints, floats, strings, bools, structs and slices: one plan run with up to 6 states made up front in random interleavings, repeatedly and from goroutines", c19}
	suites["C20"] = Suite{"random sequences of DefineVariable/EmbedVariable/derived scopes/compilations, values set and read back through templates", c20}
	suites["C21"] = Suite{"tags: all item lists up to a length over an item pool, and reachability of every candidate name through struct, pointer, nested and embedded holders", c21}
	suites["C22"] = Suite{"slices and maps of several element kinds times index and key forms, in and out of range", c22}
}

// ---- C17

type fail17 struct{ log *[]int }

func (f fail17) Fail(n int) (string, error) {
	*f.log = append(*f.log, n)
	if n > 0 {
		return "", numErr(n)
	}
	return "ok", nil
}

func (f fail17) Cond(n int) (bool, error) { _, err := f.Fail(n); return n < 1, err }
func (f fail17) Num(n int) (int, error) {
	if _, err := f.Fail(n); err != nil {
		return 0, err
	}
	return 1, nil
}
func (f fail17) Text(n int) string { panic("text " + strconv.Itoa(n)) }

type numErr int

func (n numErr) Error() string { return "failure " + strconv.Itoa(int(n)) }

func c17(c *Ctx) {
	tpl := `[#set($n = $n + 1)$a$s${fl.Fail($a)}#foreach($x in $l)$x,#end]`
	vals := func(a int) []Var {
		return []Var{{Name: "n", Val: 0}, {Name: "a", Val: a}, {Name: "s", Val: "<" + strconv.Itoa(a) + ">"}, {Name: "l", Val: []int{a, 2}}}
	}
	want := func(a int) string {
		ok := "ok"
		if a > 0 {
			ok = ""
		}
		return fmt.Sprintf("[%d<%d>%s%d,2,]", a, a, ok, a)
	}
	var log []int
	kept, keptWant := "", ""
	run := func(pr *Prog, s *est.State, a int) string {
		for _, v := range vals(a) {
			must(s.SetValue(v.Name, v.Val))
		}
		err := pr.Exec.Exec(s)
		if a > 0 {
			if !errors.Is(err, numErr(a)) {
				return mismatch(fmt.Sprint("error of ", a), err, numErr(a))
			}
		} else if err != nil {
			return fmt.Sprintf("error of %d: %v", a, err)
		}
		if got := s.Buffer.String(); got != want(a) {
			return mismatch(fmt.Sprint("output of ", a), got, want(a))
		}
		if kept != keptWant {
			return mismatch("output of an earlier execution", kept, keptWant)
		}
		kept, keptWant = s.Buffer.String(), want(a)
		return ""
	}
	c.Rand("pool", c.N(4000, 60000), func(r *rand.Rand) (string, func() string) {
		size := r.Intn(5)
		var ops []int
		for k := 2 + r.Intn(30); k > 0; k-- {
			ops = append(ops, r.Intn(1000))
		}
		return fmt.Sprint(size, ops), func() string {
			pr, err := compile([]velty.Option{velty.BufferSize(r.Intn(3))}, vals(0), tpl, func(p *velty.Planner) error { return p.RegisterFuncNs("fl", fail17{&log}) })
			must(err)
			pool := velty.NewPool(size, pr.New)
			var owned []*est.State
			for i, op := range ops {
				switch k := op % 10; {
				case k < 4 || len(owned) == 0:
					s := pool.State()
					for _, o := range owned {
						if o == s {
							return fmt.Sprintf("step %d: a state already owned was handed out", i)
						}
					}
					if s.Buffer.String() != "" || len(s.Buffer.Bytes()) != 0 || len(s.Errors) != 0 || !s.IsValid() {
						return fmt.Sprintf("step %d: a state starts with output %q and errors %v", i, s.Buffer.String(), s.Errors)
					}
					owned = append(owned, s)
				case k < 7:
					s := owned[op/10%len(owned)]
					s.Reset()
					if m := run(pr, s, op/100%4-1); m != "" {
						return fmt.Sprintf("step %d: %s", i, m)
					}
				default:
					j := op / 10 % len(owned)
					pool.Put(owned[j])
					owned = append(owned[:j], owned[j+1:]...)
				}
			}
			return ""
		}
	})
	c.Rand("reset", c.N(3000, 60000), func(r *rand.Rand) (string, func() string) {
		var seq []int
		for k := 1 + r.Intn(8); k > 0; k-- {
			seq = append(seq, r.Intn(7)-3)
		}
		size, pan := r.Intn(40), r.Intn(2) == 0
		return fmt.Sprint(seq, size, pan), func() string {
			pr, err := compile([]velty.Option{velty.BufferSize(size)}, vals(0), tpl, func(p *velty.Planner) error { return p.RegisterFuncNs("fl", fail17{&log}) })
			must(err)
			s := pr.New()
			for i, a := range seq {
				if m := run(pr, s, a); m != "" {
					return fmt.Sprintf("execution %d: %s", i, m)
				}
				s.Reset()
				if s.Buffer.String() != "" || len(s.Errors) != 0 || !s.IsValid() {
					return fmt.Sprintf("after reset %d: output %q errors %v", i, s.Buffer.String(), s.Errors)
				}
			}
			return ""
		}
	})
	for n := 1; n <= 8; n++ {
		for size := 0; size < 4; size++ {
			n, size := n, size
			c.Case(func() string { return fmt.Sprintf("%d goroutines size %d", n, size) }, func() string {
				pr, err := compile(nil, []Var{{Name: "a", Val: 0}}, "<$a>")
				must(err)
				pool := velty.NewPool(size, pr.New)
				var mu sync.Mutex
				owners := map[*est.State]int{}
				var wg sync.WaitGroup
				msg := ""
				bad := func(m string) { mu.Lock(); msg = m; mu.Unlock() }
				for g := 0; g < n; g++ {
					g := g
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < c.N(60, 600); i++ {
							s := pool.State()
							mu.Lock()
							owners[s]++
							if owners[s] > 1 {
								msg = "two owners"
							}
							mu.Unlock()
							if s.Buffer.String() != "" || len(s.Errors) != 0 {
								bad("unclean state")
							}
							_ = s.SetValue("a", g*1000+i)
							if err := pr.Exec.Exec(s); err != nil || s.Buffer.String() != fmt.Sprintf("<%d>", g*1000+i) {
								bad(fmt.Sprint("output ", s.Buffer.String()))
							}
							mu.Lock()
							owners[s]--
							mu.Unlock()
							pool.Put(s)
						}
					}()
				}
				wg.Wait()
				return msg
			})
		}
	}
}

// ---- C18

// part18 is a piece of a template, evaluating failing calls in order; each renders what it does when the calls succeed or are collected
type part18 struct {
	src string
	run func(e *env18)
}

type env18 struct {
	out      strings.Builder
	log      []int
	first    int
	panicOn  bool
	stopped  bool
	vals     map[string]int
	evalText map[string]string
}

type stop18 struct{}

func (e *env18) call(name string) bool {
	n := e.vals[name]
	e.log = append(e.log, n)
	if n > 0 {
		if e.first == 0 {
			e.first = n
		}
		if e.panicOn {
			panic(stop18{})
		}
		return false
	}
	return true
}

func c18(c *Ctx) {
	names := []string{"e0", "e1", "e2", "e3"}
	c.Rand("program", c.N(6000, 150000), func(r *rand.Rand) (string, func() string) {
		var gen func(d int) part18
		block := func(d int) part18 {
			var ps []part18
			s := ""
			for k := 1 + r.Intn(2); k > 0; k-- {
				p := gen(d)
				ps = append(ps, p)
				s += p.src
			}
			return part18{s, func(e *env18) {
				for _, p := range ps {
					p.run(e)
				}
			}}
		}
		gen = func(d int) part18 {
			v := names[r.Intn(4)]
			k := r.Intn(9)
			if d == 0 && k > 5 {
				k -= 6
			}
			switch k {
			case 0:
				return part18{"text ", func(e *env18) { e.out.WriteString("text ") }}
			case 1, 2:
				return part18{"${fl.Fail($" + v + ")}", func(e *env18) {
					if e.call(v) {
						e.out.WriteString("ok")
					}
				}}
			case 3:
				return part18{"#set($x = $fl.Fail($" + v + "))", func(e *env18) { e.call(v) }}
			case 4:
				return part18{"${fl.Fail($fl.Num($" + v + "))}", func(e *env18) {
					e.call(v)
					e.vals["one"] = 1
					if e.vals[v] > 0 {
						e.vals["one"] = 0 // the failing call gives the zero value
					}
					if e.call("one") {
						e.out.WriteString("ok")
					}
				}}
			case 5:
				b, f := block(0), block(0)
				return part18{"#if($fl.Cond($" + v + "))" + b.src + "#else" + f.src + "#end", func(e *env18) {
					if e.call(v) {
						b.run(e)
					} else {
						f.run(e)
					}
				}}
			case 6:
				b := block(d - 1)
				return part18{"#foreach($it in $l)" + b.src + "#end", func(e *env18) { b.run(e); b.run(e) }}
			case 7:
				b := block(d - 1)
				return part18{"#for($i" + strconv.Itoa(d) + " = 0; $i" + strconv.Itoa(d) + " < 2; $i" + strconv.Itoa(d) + "++)" + b.src + "#end", func(e *env18) { b.run(e); b.run(e) }}
			default:
				b := block(d - 1)
				return part18{"#if($b)" + b.src + "#end", func(e *env18) { b.run(e) }}
			}
		}
		var ps []part18
		tpl := ""
		for k := 2 + r.Intn(5); k > 0; k-- {
			p := gen(2)
			ps = append(ps, p)
			tpl += p.src
		}
		ev := r.Intn(3) == 0
		panicOn := r.Intn(2) == 0
		size := []int{0, 1, 64}[r.Intn(3)]
		var worlds [][4]int
		for k := 0; k < 3; k++ {
			w := [4]int{}
			for i := range w {
				if r.Intn(3) == 0 {
					w[i] = 10*(k+1) + i + 1
				}
			}
			worlds = append(worlds, w)
		}
		return fmt.Sprint(tpl, ev, panicOn, worlds), func() string {
			var log []int
			vars := func(w [4]int) []Var {
				vs := []Var{{Name: "l", Val: []int{1, 2}}, {Name: "b", Val: true}, {Name: "t", Val: tpl}}
				for i, n := range names {
					vs = append(vs, Var{Name: n, Val: w[i]})
				}
				return vs
			}
			t := tpl
			if ev {
				t = "<#evaluate($t)>"
			}
			pr, err := compile([]velty.Option{velty.PanicOnError(panicOn), velty.BufferSize(size)}, vars(worlds[0]), t, func(p *velty.Planner) error { return p.RegisterFuncNs("fl", fail17{&log}) })
			if err != nil {
				return "compile " + t + ": " + err.Error()
			}
			for _, w := range worlds {
				e := &env18{panicOn: panicOn, vals: map[string]int{}}
				for i, n := range names {
					e.vals[n] = w[i]
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(stop18); !ok {
								panic(r)
							}
							e.stopped = true
						}
					}()
					if ev {
						e.out.WriteString("<")
					}
					for _, p := range ps {
						p.run(e)
					}
					if ev {
						e.out.WriteString(">")
					}
				}()
				log = log[:0]
				s, serr := pr.state(vars(w))
				must(serr)
				err := pr.Exec.Exec(s)
				if fmt.Sprint(log) != fmt.Sprint(e.log) {
					return fmt.Sprintf("%s with %v: calls %v, want %v", tpl, w, log, e.log)
				}
				if got := s.Buffer.String(); got != e.out.String() {
					return mismatch(tpl+" with "+fmt.Sprint(w), got, e.out.String())
				}
				if e.first == 0 {
					if err != nil {
						return fmt.Sprintf("%s with %v: error %v", tpl, w, err)
					}
				} else {
					if !errors.Is(err, numErr(e.first)) {
						return fmt.Sprintf("%s with %v: error %v, want %v", tpl, w, err, numErr(e.first))
					}
					for _, x := range w {
						if x != e.first && x > 0 && errors.Is(err, numErr(x)) {
							return fmt.Sprintf("%s with %v: the error %v wraps a later failure", tpl, w, err)
						}
					}
				}
			}
			return ""
		}
	})
	for _, panicOn := range []bool{false, true} {
		for pos, tpl := range []string{"a${fl.Text($e)}b", "a#if($b)${fl.Text($e)}#end", "a#foreach($x in $l)${fl.Text($x)}#end", "a#evaluate($t)b", "a#set($q = $fl.Text($e))b", "${fl.Fail(0)}a${fl.Text($e)}"} {
			panicOn, pos, tpl := panicOn, pos, tpl
			c.Case(func() string { return fmt.Sprintf("panic with a text %v %d %s", panicOn, pos, tpl) }, func() (msg string) {
				var log []int
				vars := []Var{{Name: "e", Val: 7}, {Name: "b", Val: true}, {Name: "l", Val: []int{7}}, {Name: "t", Val: "${fl.Text($e)}"}}
				pr, err := compile([]velty.Option{velty.PanicOnError(panicOn)}, vars, tpl, func(p *velty.Planner) error { return p.RegisterFuncNs("fl", fail17{&log}) })
				must(err)
				defer func() {
					if r := recover(); r != "text 7" {
						msg = mismatch("panic", r, "text 7")
					}
				}()
				_, _, err = pr.run(vars)
				return fmt.Sprintf("the panic was swallowed, error %v", err)
			})
		}
	}
}

// ---- C19

func c19(c *Ctx) {
	c.Rand("interleaving", c.N(2500, 60000), func(r *rand.Rand) (string, func() string) {
		g := newGen(r)
		var ns []node
		for k := 2 + r.Intn(5); k > 0; k-- {
			ns = append(ns, g.stmt(3))
		}
		n := 2 + r.Intn(5)
		var seeds []int64
		for k := 0; k < n; k++ {
			if k > 0 && r.Intn(4) == 0 {
				seeds = append(seeds, seeds[r.Intn(k)])
				continue
			}
			seeds = append(seeds, r.Int63())
		}
		order := r.Perm(n)
		par := r.Intn(4) == 0
		esc := r.Intn(2) == 0
		tpl := src(ns)
		return fmt.Sprint(tpl, seeds, order, par, esc), func() string {
			pr, err := compile([]velty.Option{velty.EscapeHTML(esc), velty.BufferSize(r.Intn(20))}, world(seeds[0]), tpl, regNS)
			if err != nil {
				return "compile " + tpl + ": " + err.Error()
			}
			states := make([]*est.State, n)
			refs := make([]*env, n)
			oks := make([]bool, n)
			vars := make([][]Var, n)
			for i, seed := range seeds {
				refs[i], oks[i] = refRun(ns, world(seed), esc, g)
				vars[i] = world(seed)
				if states[i], err = pr.state(vars[i]); err != nil {
					return err.Error()
				}
			}
			errs := make([]string, n)
			exec := func(i int) {
				if !oks[i] {
					return
				}
				errs[i] = protect(func() string {
					if err := pr.Exec.Exec(states[i]); err != nil {
						return err.Error()
					}
					return ""
				})
			}
			if par {
				var wg sync.WaitGroup
				for _, i := range order {
					i := i
					wg.Add(1)
					go func() { defer wg.Done(); exec(i) }()
				}
				wg.Wait()
			} else {
				for _, i := range order {
					exec(i)
				}
			}
			ran := false
			check := func(i int, s *est.State, vs []Var, what string) string {
				if out := s.Buffer.String(); out != refs[i].out.String() {
					return fmt.Sprintf("%s state %d of %s\n%s", what, i, tpl, mismatch("output", out, refs[i].out.String()))
				}
				if m := compareEnv(refs[i], s, vs, g); m != "" {
					return fmt.Sprintf("%s state %d after %s: %s", what, i, tpl, m)
				}
				return ""
			}
			for i := range seeds {
				if !oks[i] {
					continue
				}
				ran = true
				if errs[i] != "" {
					return fmt.Sprintf("state %d of %s: %s", i, tpl, errs[i])
				}
				if m := check(i, states[i], vars[i], "interleaved"); m != "" {
					return m
				}
			}
			for i, seed := range seeds { // again, with fresh and equal states
				if !oks[i] {
					continue
				}
				vs := world(seed)
				_, s, err := pr.run(vs)
				if err != nil {
					return err.Error()
				}
				if m := check(i, s, vs, "repeated"); m != "" {
					return m
				}
				if m := check(i, states[i], vars[i], "earlier"); m != "" {
					return m
				}
			}
			if !ran {
				return skip
			}
			return ""
		}
	})
	// nil paths, shared zero values, literals
	tpls := []string{
		`#set($p.I = 5)$p.I|$p.S|${q.P.I}|${q.P.S}`, `$q.P.P.S#set($q.P.P.S = "x")$q.P.P.S|$q.P.V.S|$q.S`, `#set($q.P.F = 2.5)#set($a = $q.P.F + 1.0)$a|$q.P.F`,
		`#set($q.P.V.I = 9)#foreach($x in $l)$x.I,#set($x.I = 4)#end$q.P.V.I`, `#set($n = 1)#set($n = $n + 1)#set($m = 1)$n$m`, `#foreach($x in [1...3])$x#set($x = 7)$x#end`,
		`#set($s = "lit")#set($t = $s)#set($s = $s + "x")$s$t`, `#set($p.S = "zz")#set($z = $q.P.S)$z|`, `#if($q.P.B)T#{else}F#end#set($q.P.B = true)#if($q.P.B)T#{else}F#end`,
	}
	type world19 struct {
		p *Inner
		q *Holder
		l []Inner
	}
	mk := func(k int) []Var {
		w := world19{}
		if k&1 != 0 {
			w.p = &Inner{I: 1, S: "p"}
		}
		if k&2 != 0 {
			w.q = &Holder{S: "q", V: Inner{S: "qv"}}
			if k&4 != 0 {
				w.q.P = &Holder{I: 3, S: "qp", F: 0.5, V: Inner{I: 2}}
				if k&8 != 0 {
					w.q.P.P = &Holder{S: "qpp"}
				}
			}
		}
		for i := 0; i < k>>4; i++ {
			w.l = append(w.l, Inner{I: i + 1})
		}
		return []Var{{Name: "p", Val: w.p}, {Name: "q", Val: w.q}, {Name: "l", Val: w.l}}
	}
	for ti, tpl := range tpls {
		for a := 0; a < 48; a++ {
			for b := 0; b < 48; b++ {
				if !c.Thorough && (a+b+ti)%5 != 0 {
					continue
				}
				tpl, a, b := tpl, a, b
				c.Case(func() string { return fmt.Sprintf("nil paths %s after %d run %d", tpl, a, b) }, func() string {
					alone, err := compile(nil, mk(b), tpl)
					must(err)
					want, _, err := alone.run(mk(b))
					must(err)
					pr, err := compile(nil, mk(b), tpl)
					must(err)
					one, err := pr.state(mk(b))
					must(err)
					if _, _, err = pr.run(mk(a)); err != nil {
						return err.Error()
					}
					must(pr.Exec.Exec(one))
					if got := one.Buffer.String(); got != want {
						return mismatch("made before", got, want)
					}
					if got, _, _ := pr.run(mk(b)); got != want {
						return mismatch("made after", got, want)
					}
					fresh, err := compile(nil, mk(b), tpl)
					must(err)
					if got, _, _ := fresh.run(mk(b)); got != want {
						return mismatch("other plan", got, want)
					}
					return ""
				})
			}
		}
	}
}

// ---- C20

type E20A struct {
	A1 int
	A2 string
}
type E20B struct {
	Pad byte
	B1  float64
	B2  bool
}
type E20C struct {
	C1 uint8
	C2 *int
	C3 []int
}

func c20(c *Ctx) {
	names := []string{"a", "b", "A", "B", "aa", "ab", "x1", "X_1", "foo", "Foo", "longerName", "z", "Q", "time", "math"}
	types := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(0.0), reflect.TypeOf(false), reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf([]int{}), reflect.TypeOf(Inner{}), reflect.TypeOf(&Inner{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(int32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0))}
	embeds := []reflect.Type{reflect.TypeOf(E20A{}), reflect.TypeOf(&E20A{}), reflect.TypeOf(E20B{}), reflect.TypeOf(&E20B{}), reflect.TypeOf(E20C{})}
	val := func(t reflect.Type, n int) (interface{}, string, string) { // value, suffix of the selector reading it, text
		switch t.Kind() {
		case reflect.Int, reflect.Int16, reflect.Int32, reflect.Uint8, reflect.Uint64:
			n = n%100 + 1
			return reflect.ValueOf(n).Convert(t).Interface(), "", strconv.Itoa(n)
		case reflect.String:
			return "s" + strconv.Itoa(n), "", "s" + strconv.Itoa(n)
		case reflect.Float64, reflect.Float32:
			return reflect.ValueOf(float64(n) + 0.5).Convert(t).Interface(), "", strconv.Itoa(n) + ".5"
		case reflect.Bool:
			return n%2 == 0, "", strconv.FormatBool(n%2 == 0)
		case reflect.Slice:
			return []int{n, n + 1}, "[1]", strconv.Itoa(n + 1)
		case reflect.Map:
			return map[string]int{"k": n}, `["k"]`, strconv.Itoa(n)
		case reflect.Struct:
			return Inner{I: n, S: "i"}, ".I", strconv.Itoa(n)
		default:
			return &Inner{I: n, S: "i"}, ".I", strconv.Itoa(n)
		}
	}
	c.Rand("sequence", c.N(4000, 100000), func(r *rand.Rand) (string, func() string) {
		type step struct {
			kind    int
			name    string
			aliases []string
			typ     reflect.Type
			scope   int
		}
		var steps []step
		scopes := 1
		for k := 2 + r.Intn(9); k > 0; k-- {
			s := step{scope: r.Intn(scopes)}
			switch r.Intn(8) {
			case 0:
				s.kind, s.typ = 1, embeds[r.Intn(len(embeds))]
			case 1:
				s.kind = 2
				scopes++
			case 2:
				s.kind, s.name = 3, []string{"own0", "own1", "own2", "errors"}[r.Intn(4)]
			default:
				s.name, s.typ = names[r.Intn(len(names))], types[r.Intn(len(types))]
				for r.Intn(4) == 0 {
					s.aliases = append(s.aliases, s.name+"Alias"+strconv.Itoa(len(s.aliases)))
				}
			}
			steps = append(steps, s)
		}
		return fmt.Sprint(steps), func() string {
			type scope struct {
				p      *velty.Planner
				vars   map[string]reflect.Type
				alias  map[string]string
				embeds map[string]reflect.Type
				own    map[string]int // variables assigned by a template
			}
			sc := []*scope{{velty.New(), map[string]reflect.Type{}, map[string]string{}, map[string]reflect.Type{}, map[string]int{}}}
			check := func(s *scope, what string) string {
				var vs []string
				for n := range s.vars {
					vs = append(vs, n)
				}
				sort.Strings(vs)
				tpl, want := "", ""
				type sv struct {
					name string
					v    interface{}
				}
				var set []sv
				for i, n := range vs {
					v, suffix, text := val(s.vars[n], 10+i*7)
					tpl += "|${" + n + suffix + "}"
					want += "|" + text
					for al, of := range s.alias {
						if of == n {
							tpl += "${" + al + suffix + "}"
							want += text
						}
					}
					set = append(set, sv{n, v})
				}
				for n := range s.embeds {
					switch n {
					case "E20A":
						tpl += "|$A1,$A2"
						want += "|1234,emb"
					case "E20B":
						tpl += "|$B1,$B2"
						want += "|2.5,true"
					case "E20C":
						tpl += "|$C1,${C3[1]}"
						want += "|200,8"
					}
				}
				var own []string
				for n := range s.own {
					own = append(own, n)
				}
				sort.Strings(own)
				for i, n := range own {
					tpl += "|#set($" + n + " = " + strconv.Itoa(900+i) + ")$" + n
					want += "|" + strconv.Itoa(900+i)
				}
				tpl += strings.ReplaceAll(tpl, "#set", "#set")
				want += want
				e, mk, err := s.p.Compile([]byte(tpl))
				if err != nil {
					return what + ": compile " + tpl + ": " + err.Error()
				}
				st := mk()
				r.Shuffle(len(set), func(i, j int) { set[i], set[j] = set[j], set[i] })
				for _, x := range set {
					if err := st.SetValue(x.name, x.v); err != nil {
						return what + ": SetValue " + x.name + ": " + err.Error()
					}
				}
				for _, t := range s.embeds {
					var v interface{}
					switch t {
					case embeds[0]:
						v = E20A{1234, "emb"}
					case embeds[1]:
						v = &E20A{1234, "emb"}
					case embeds[2]:
						v = E20B{1, 2.5, true}
					case embeds[3]:
						v = &E20B{1, 2.5, true}
					default:
						v = E20C{200, nil, []int{7, 8}}
					}
					if err := st.EmbedValue(v); err != nil {
						return what + ": EmbedValue: " + err.Error()
					}
				}
				if err := e.Exec(st); err != nil {
					return what + ": " + err.Error()
				}
				if got := st.Buffer.String(); got != want {
					return what + ": " + mismatch(tpl, got, want)
				}
				// the storage ranges are disjoint and of the declared type
				type rg struct {
					n      string
					lo, hi uintptr
				}
				var rgs []rg
				for n, t := range s.vars {
					f, ok := st.StateType.ValueAccessor(n)
					if !ok || f.Type != t {
						return fmt.Sprintf("%s: storage of %s: %v, want %v", what, n, f, t)
					}
					rgs = append(rgs, rg{n, f.Offset, f.Offset + t.Size()})
				}
				for n, t := range s.embeds {
					f, ok := st.StateType.ValueAccessor(n)
					if !ok || f.Type != t {
						return fmt.Sprintf("%s: storage of %s", what, n)
					}
					rgs = append(rgs, rg{n, f.Offset, f.Offset + t.Size()})
				}
				for i, x := range rgs {
					if x.hi > st.StateType.Type.Size() {
						return what + ": storage of " + x.n + " is outside of the state"
					}
					for _, y := range rgs[:i] {
						if x.lo < y.hi && y.lo < x.hi {
							return fmt.Sprintf("%s: %v overlaps %v", what, x, y)
						}
					}
				}
				return ""
			}
			for i, st := range steps {
				s := sc[st.scope]
				switch st.kind {
				case 0:
					_, al := s.alias[st.name]
					if err := s.p.DefineVariable(st.name, st.typ, st.aliases...); err != nil {
						if len(st.aliases) > 0 {
							return skip
						}
						return fmt.Sprintf("step %d: define %s: %v", i, st.name, err)
					}
					if _, ok := s.vars[st.name]; !ok && !al && s.own[st.name] == 0 {
						s.vars[st.name] = st.typ
						for _, a := range st.aliases {
							s.alias[a] = st.name
						}
					}
				case 1:
					name := deepElem(st.typ).Name()
					if s.embeds[name] != nil {
						continue
					}
					if err := s.p.EmbedVariable(st.typ); err != nil {
						return fmt.Sprintf("step %d: embed %s: %v", i, name, err)
					}
					s.embeds[name] = st.typ
				case 2:
					n := &scope{s.p.New(), map[string]reflect.Type{}, map[string]string{}, map[string]reflect.Type{}, map[string]int{}}
					for k, v := range s.vars {
						n.vars[k] = v
					}
					for k, v := range s.alias {
						n.alias[k] = v
					}
					for k, v := range s.embeds {
						n.embeds[k] = v
					}
					for k, v := range s.own {
						n.own[k] = v
					}
					sc = append(sc, n)
				case 3:
					if s.vars[st.name] == nil && s.alias[st.name] == "" {
						s.own[st.name] = 1
					}
				}
				if (i+len(st.name))%3 == 0 {
					if m := check(s, fmt.Sprintf("step %d scope %d", i, st.scope)); m != "" {
						return m
					}
				}
			}
			for i, s := range sc {
				if m := check(s, fmt.Sprintf("end scope %d", i)); m != "" {
					return m
				}
			}
			return ""
		}
	})
	// SetValue converts, refuses what does not fit and unknown names
	for _, t := range types {
		for _, v := range []interface{}{1, int8(3), uint16(300), 2.5, float32(1.5), "txt", true, nil, []int{4}, Inner{I: 3}, (*Inner)(nil), &Inner{I: 1}, map[string]int{"q": 1}, struct{}{}} {
			t, v := t, v
			c.Case(func() string { return fmt.Sprintf("SetValue %v = %T %v", t, v, v) }, func() (msg string) {
				p := velty.New()
				must(p.DefineVariable("l", ""))
				must(p.DefineVariable("v", t))
				must(p.DefineVariable("r", ""))
				_, n, err := p.Compile([]byte("$v"))
				if err != nil {
					return err.Error()
				}
				s := n()
				must(s.SetValue("l", "left"))
				must(s.SetValue("r", "right"))
				if s.SetValue("other", 1) == nil {
					return "an unknown name was accepted"
				}
				defer func() {
					if recover() != nil { // a value that does not fit may be refused by a panic, but must not be stored
						msg = ""
					}
					l, _ := value(s, "l")
					r, _ := value(s, "r")
					if l != "left" || r != "right" {
						msg = fmt.Sprint("other variables changed: ", l, r)
					}
				}()
				numeric := func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Float64 }
				vt := reflect.TypeOf(v)
				err = s.SetValue("v", v)
				if err != nil {
					if vt == t {
						return err.Error()
					}
					return ""
				}
				got, _ := value(s, "v")
				switch {
				case vt == t:
					if !reflect.DeepEqual(got, v) {
						return mismatch("stored", got, v)
					}
				case vt != nil && numeric(vt.Kind()) && numeric(t.Kind()):
					if w := reflect.ValueOf(v).Convert(t).Interface(); !same(got, w) {
						return mismatch("converted", got, w)
					}
				}
				return ""
			})
		}
	}
}

func deepElem(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t
}

// ---- C21

func refTag(s string) (names []string, prefix string, omit bool) {
	names = []string{}
	split := func(v string) (r []string) {
		for _, n := range strings.Split(v, "|") {
			r = append(r, strings.TrimSpace(n))
		}
		return r
	}
	for i, item := range strings.Split(s, ",") {
		switch eq := strings.Count(item, "="); {
		case eq == 1:
			k := strings.Index(item, "=")
			key, v := strings.ToLower(strings.TrimSpace(item[:k])), item[k+1:]
			switch key {
			case "name", "names":
				names = split(v)
			case "prefix":
				prefix = strings.TrimSpace(v)
			}
		case eq == 0 && strings.TrimSpace(item) == "-":
			omit = true
		case eq == 0 && i == 0 && strings.TrimSpace(item) != "":
			names = split(strings.TrimSpace(item))
		}
	}
	return names, prefix, omit
}

func c21(c *Ctx) {
	items := []string{"", "a", "B", " c ", "-", " - ", "name=d", "names=e|f", "names= g | h ", "NAME=i", "prefix=P_", " prefix = Q_ ", "other", "other=1", "a|b", "name=", "prefix=", "x=y", "names=j|", "omitempty", "a=b=c", "names=a=b", "-=x"}
	var rec func(sel []string, n int)
	rec = func(sel []string, n int) {
		tag := strings.Join(sel, ",")
		c.Case(func() string { return "parse " + strconv.Quote(tag) }, func() string {
			got := velty.Parse(tag)
			names, prefix, omit := refTag(tag)
			if fmt.Sprintf("%q", got.Names) != fmt.Sprintf("%q", names) || got.Prefix != prefix || got.Omit != omit {
				return mismatch(tag, *got, fmt.Sprintf("%q %q %v", names, prefix, omit))
			}
			return ""
		})
		if n == 0 {
			return
		}
		for _, it := range items {
			rec(append(append([]string{}, sel...), it), n-1)
		}
	}
	for _, it := range items {
		rec([]string{it}, c.N(2, 3))
	}
	tags := []string{"", "a", "B", " c ", "-", "name=d", "names=e|f", "names= g | h ", "Name2,other", "prefix=P_", "a,omitempty", ",omitempty", "name=F0", "name=F1", "k|l", "NAMES=m|n|o", " - ", "other=1", "-,name=w", "names=a=b"}
	names := []string{"a", "B", "c", "d", "e", "f", "g", "h", "k", "l", "m", "n", "o", "w", "Name2", "F0", "F1", "F2", "P_", "omitempty", "other", "e|f"}
	c.Rand("reach", c.N(2500, 60000), func(r *rand.Rand) (string, func() string) {
		n := 1 + r.Intn(3)
		var pick []string
		for k := 0; k < n; k++ {
			pick = append(pick, tags[r.Intn(len(tags))])
		}
		mode := r.Intn(6)
		prefix := []string{"", "P_", "foo"}[r.Intn(3)]
		return fmt.Sprintf("%q mode %d prefix %q", pick, mode, prefix), func() string {
			var fs []reflect.StructField
			reach := map[string]int{}
			for k, tag := range pick {
				fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(k), Type: reflect.TypeOf(0), Tag: reflect.StructTag(`json:"x" velty:"` + tag + `"`)})
				ns, _, omit := refTag(tag)
				if omit {
					continue
				}
				if len(ns) == 0 {
					ns = []string{"F" + strconv.Itoa(k)}
				}
				for _, x := range ns {
					if reach[x] != 0 {
						return skip // ambiguous by declaration
					}
					reach[x] = 10 + k
				}
			}
			st := reflect.StructOf(fs)
			v := reflect.New(st)
			for k := range fs {
				v.Elem().Field(k).SetInt(int64(10 + k))
			}
			p := velty.New()
			ref := "$v."
			var set func(s *est.State)
			pre := ""
			var err error
			switch mode {
			case 0:
				err = p.DefineVariable("v", st)
				set = func(s *est.State) { must(s.SetValue("v", v.Elem().Interface())) }
			case 1:
				err = p.DefineVariable("v", v.Type())
				set = func(s *est.State) { must(s.SetValue("v", v.Interface())) }
			case 2, 3: // nested in a field
				ht := st
				hv := v.Elem()
				if mode == 3 {
					ht, hv = v.Type(), v
				}
				h := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: reflect.TypeOf("")}, {Name: "In", Type: ht}}))
				h.Elem().Field(1).Set(hv)
				err = p.DefineVariable("v", h.Type().Elem())
				set = func(s *est.State) { must(s.SetValue("v", h.Elem().Interface())) }
				ref = "$v.In."
			case 4: // embedded with a prefix in an embedded holder
				h := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: reflect.TypeOf("")}, {Name: "Emb", Type: st, Anonymous: true, Tag: reflect.StructTag(`velty:"prefix=` + prefix + `"`)}}))
				h.Elem().Field(1).Set(v.Elem())
				err = p.EmbedVariable(h.Type().Elem())
				set = func(s *est.State) { must(s.EmbedValue(h.Elem().Interface())) }
				ref, pre = "$", prefix
			case 5:
				err = p.EmbedVariable(st)
				set = func(s *est.State) { must(s.EmbedValue(v.Elem().Interface())) }
				ref = "$"
			}
			if err != nil {
				return "define: " + err.Error()
			}
			for _, name := range names {
				for _, full := range []string{pre + name, name} {
					want, ok := 0, false
					if strings.HasPrefix(full, pre) {
						want, ok = reach[strings.TrimPrefix(full, pre)]
					}
					if strings.Contains(full, "|") {
						continue
					}
					tpl := ref + full
					e, mk, err := p.New().Compile([]byte(tpl))
					got := ""
					if err == nil {
						s := mk()
						if s.StateType == nil {
							return "no state"
						}
						set(s)
						if err = e.Exec(s); err != nil {
							return tpl + ": " + err.Error()
						}
						got = s.Buffer.String()
					}
					if ok && (err != nil || got != strconv.Itoa(want)) {
						return fmt.Sprintf("%s: %q %v, want %d", tpl, got, err, want)
					}
					if !ok && err == nil && got != tpl {
						return fmt.Sprintf("%s: renders %q although no field is declared so", tpl, got)
					}
				}
			}
			return ""
		}
	})
}

// ---- C22

func c22(c *Ctx) {
	// Normalize against the definition
	{
		var vals []interface{}
		for _, n := range []int{0, 1, -1, 7, 127, 128, 32767, -32768} {
			i64, i32, i16, i := int64(n), int32(n), int16(n), n
			vals = append(vals, i64, i32, i16, i, &i64, &i32, &i16, &i)
		}
		for _, s := range append([]string{}, strs...) {
			s := s
			b := []byte(s)
			vals = append(vals, s, &s, b, &b)
		}
		vals = append(vals, nil, true, 1.5, uint(3), (*int64)(nil), (*int)(nil), (*string)(nil), []byte(nil), (*int32)(nil), (*int16)(nil), (*[]byte)(nil))
		for k, v := range vals {
			k, v := k, v
			c.Case(func() string { return fmt.Sprintf("normalize %d %T", k, v) }, func() string {
				var want interface{} = v
				rv := reflect.ValueOf(v)
				if rv.IsValid() && rv.Kind() == reflect.Ptr {
					if rv.IsNil() {
						want = nil
					} else {
						rv = rv.Elem()
						want = rv.Interface()
					}
				}
				switch x := want.(type) {
				case int64, int32, int16:
					want = int(reflect.ValueOf(x).Int())
				case []byte:
					want = string(x)
				}
				if got := keys.Normalize(v); got != want {
					return mismatch("normalized", got, want)
				}
				return ""
			})
		}
	}
	elems := []interface{}{[]int{10, 20, 30, 40}, []string{"a", "b", "c"}, []float64{0.5, 1.5}, []bool{true}, []Inner{{I: 5}, {I: 6}}, []*Inner{{I: 7}, {I: 8}, nil}, []int32{1, 2, 3}, []uint8{9, 200}, [][]int{{1, 2}, {3}}, []map[string]int{{"k": 4}, nil}, []interface{}{1, "x", nil}, []int(nil), []string{}}
	idx := func(n int) []struct {
		text string
		vars []Var
	} {
		i8, i16, i32, i64, u, u8, u64 := int8(n), int16(n), int32(n), int64(n), uint(n), uint8(n), uint64(n)
		_ = i16
		r := []struct {
			text string
			vars []Var
		}{
			{"$i", []Var{{Name: "i", Val: n}}}, {"$i", []Var{{Name: "i", Val: i32}}}, {"$i", []Var{{Name: "i", Val: i64}}}, {"$i", []Var{{Name: "i", Val: &n}}}, {"$i", []Var{{Name: "i", Val: i8}}},
			{"$i", []Var{{Name: "i", Val: i16}}}, {"$h.I", []Var{{Name: "h", Val: Inner{I: n}}}}, {"$h.I", []Var{{Name: "h", Val: &Inner{I: n}}}}, {"$i + 1", []Var{{Name: "i", Val: n - 1}}}, {"$i", []Var{{Name: "i", Val: interface{}(n), Type: reflect.TypeOf((*interface{})(nil)).Elem()}}},
			{"$l[1]", []Var{{Name: "l", Val: []int{0, n}}}}, {"$fn.Int($i)", []Var{{Name: "i", Val: n}}}, {"$i", []Var{{Name: "i", Val: &i64}}},
		}
		if n >= 0 {
			r = append(r, []struct {
				text string
				vars []Var
			}{{strconv.Itoa(n), nil}, {"$i", []Var{{Name: "i", Val: u}}}, {"$i", []Var{{Name: "i", Val: u8}}}, {"$i", []Var{{Name: "i", Val: u64}}}, {"$i", []Var{{Name: "i", Val: &u}}}}...)
		}
		return r
	}
	text := func(v reflect.Value) (suffix, text string) {
		switch x := v.Interface().(type) {
		case Inner:
			return ".I", strconv.Itoa(x.I)
		case *Inner:
			if x == nil {
				return ".I", "0"
			}
			return ".I", strconv.Itoa(x.I)
		case []int:
			return "[0]", strconv.Itoa(x[0])
		case map[string]int:
			return `["k"]`, strconv.Itoa(x["k"])
		case nil:
			return "", ""
		}
		return "", fmt.Sprint(v.Interface())
	}
	forms := []string{"var", "field", "ptr", "nested", "iface"}
	for _, sl := range elems {
		sv := reflect.ValueOf(sl)
		for n := -2; n < sv.Len()+3; n++ {
			for k, ix := range idx(n) {
				for _, form := range forms {
					sl, n, ix, form, k := sl, n, ix, form, k
					c.Case(func() string { return fmt.Sprintf("slice %T %s[%s] index form %d = %d", sl, form, ix.text, k, n) }, func() (msg string) {
						vars := append([]Var{}, ix.vars...)
						ref := "$s"
						switch form {
						case "var":
							vars = append(vars, Var{Name: "s", Val: sl})
						case "iface":
							vars = append(vars, Var{Name: "s", Val: sl, Type: reflect.TypeOf((*interface{})(nil)).Elem()})
						default:
							h := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: reflect.TypeOf(int16(0))}, {Name: "L", Type: sv.Type()}}))
							h.Elem().Field(1).Set(sv)
							ref = "$s.L"
							if form == "field" {
								vars = append(vars, Var{Name: "s", Val: h.Elem().Interface()})
							} else {
								vars = append(vars, Var{Name: "s", Val: h.Interface()})
							}
							if form == "nested" {
								hh := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: reflect.TypeOf(byte(0))}, {Name: "H", Type: h.Type()}}))
								hh.Elem().Field(1).Set(h)
								vars[len(vars)-1].Val = hh.Elem().Interface()
								ref = "$s.H.L"
							}
						}
						in := n >= 0 && n < sv.Len()
						suffix, want := "", ""
						if in && sv.Type().Elem().Kind() == reflect.Interface && sv.Index(n).IsNil() {
							return skip
						} else if in {
							suffix, want = text(sv.Index(n))
						} else {
							switch sv.Type().Elem().Kind() {
							case reflect.Slice:
								suffix = "[0]"
							case reflect.Map:
								suffix = `["k"]`
							case reflect.Struct, reflect.Ptr:
								suffix = ".I"
							}
						}
						if form == "iface" && suffix != "" {
							return skip // static types only
						}
						if k := sv.Type().Elem().Kind(); suffix == "" && (k == reflect.Slice || k == reflect.Map) {
							return skip // not rendered
						}
						tpl := "#set($r = " + ref + "[" + ix.text + "]" + suffix + ")<$r>"
						if k%2 == 0 {
							tpl = "<${" + ref[1:] + "[" + ix.text + "]" + suffix + "}>"
						}
						pr, err := compile(nil, vars, tpl, regNS)
						if err != nil {
							return "compile " + tpl + ": " + err.Error()
						}
						st, err := pr.state(vars)
						must(err)
						rejected := false
						func() {
							defer func() {
								if r := recover(); r != nil {
									if re, ok := r.(error); ok && strings.Contains(re.Error(), "nil pointer") {
										panic(r)
									}
									rejected = true
								}
							}()
							if pr.Exec.Exec(st) != nil {
								rejected = true
							}
						}()
						if !in {
							if !rejected {
								return fmt.Sprintf("%s with index %d of %d was not rejected: %q", tpl, n, sv.Len(), st.Buffer.String())
							}
							return ""
						}
						if rejected {
							return tpl + ": rejected an index in range"
						}
						if got := st.Buffer.String(); got != "<"+want+">" {
							return mismatch(tpl, got, "<"+want+">")
						}
						return ""
					})
				}
			}
		}
	}
	// maps
	ms := []interface{}{map[string]int{"": 1, "a": 2, "zz": 3}, map[string]string{"a": "A", "": "E"}, map[string]float64{"a": 1.5}, map[string]bool{"a": true}, map[string]Inner{"a": {I: 4}}, map[string]*Inner{"a": {I: 5}, "n": nil}, map[int]int{0: 9, 1: 10, -3: 11}, map[int]string{1: "one", 0: "zero"}, map[int64]int{1: 6}, map[int32]string{1: "x"}, map[uint8]int{1: 2, 200: 3}, map[string]interface{}{"a": 1, "b": "two"}, map[interface{}]interface{}{"a": 1, 1: "one"}, map[bool]int{true: 1}, map[string]int(nil), map[string][]int{"a": {7, 8}}, map[string]map[string]int{"a": {"k": 3}}}
	var ks []interface{}
	for _, s := range []string{"", "a", "b", "n", "zz", "none"} {
		s := s
		b := []byte(s)
		ks = append(ks, s, &s, b)
	}
	for _, n := range []int{0, 1, -3, 2, 200, 257} {
		n, i64, i32, i16 := n, int64(n), int32(n), int16(n)
		ks = append(ks, n, &n, i64, &i64, i32, &i32, i16, &i16)
	}
	ks = append(ks, true, false)
	plain := func(k interface{}) interface{} {
		v := reflect.ValueOf(k)
		if v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		switch {
		case v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64:
			return int(v.Int())
		case v.Kind() >= reflect.Uint && v.Kind() <= reflect.Uint64:
			return int(v.Uint())
		case v.Kind() == reflect.Slice:
			return string(v.Bytes())
		}
		return v.Interface()
	}
	for mi, m := range ms {
		for ki, k := range ks {
			for _, form := range []string{"var", "field", "lit", "iface", "expr"} {
				mi, m, ki, k, form := mi, m, ki, k, form
				c.Case(func() string { return fmt.Sprintf("map %d %T key %d %T %v %s", mi, m, ki, k, plain(k), form) }, func() string {
					mv := reflect.ValueOf(m)
					want := reflect.Zero(mv.Type().Elem())
					for _, x := range mv.MapKeys() {
						if plain(x.Interface()) == plain(k) {
							want = mv.MapIndex(x)
						}
					}
					vars := []Var{{Name: "m", Val: m}, {Name: "k", Val: k}}
					mt, kt := "$m", "$k"
					switch form {
					case "field":
						h := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: reflect.TypeOf(int16(0))}, {Name: "M", Type: mv.Type()}, {Name: "K", Type: reflect.TypeOf(k)}}))
						h.Elem().Field(1).Set(mv)
						h.Elem().Field(2).Set(reflect.ValueOf(k))
						vars = []Var{{Name: "h", Val: h.Interface()}}
						mt, kt = "$h.M", "$h.K"
					case "lit":
						l, ok := literal(k)
						if _, isBool := k.(bool); !ok || isBool {
							return skip
						}
						kt = l
					case "iface":
						vars[0].Type = reflect.TypeOf((*interface{})(nil)).Elem()
					case "expr":
						switch x := k.(type) {
						case int:
							vars[1].Val = x - 1
							kt = "$k + 1"
						case string:
							kt = `$k + ""`
						default:
							return skip
						}
					}
					suffix := ""
					text := ""
					switch x := want.Interface().(type) {
					case Inner:
						suffix, text = ".I", strconv.Itoa(x.I)
					case *Inner:
						suffix, text = ".I", "0"
						if x != nil {
							text = strconv.Itoa(x.I)
						}
					case []int:
						if x == nil {
							return skip
						}
						suffix, text = "[1]", strconv.Itoa(x[1])
					case map[string]int:
						suffix, text = `["k"]`, strconv.Itoa(x["k"])
					case nil:
						text = ""
					default:
						text = fmt.Sprint(x)
					}
					if form == "iface" && (suffix != "" || !reflect.Zero(mv.Type().Elem()).IsValid()) {
						return skip
					}
					tpl := "<${" + mt[1:] + "[" + kt + "]" + suffix + "}>"
					pr, err := compile(nil, vars, tpl)
					if err != nil {
						return "compile " + tpl + ": " + err.Error()
					}
					for pass := 0; pass < 2; pass++ {
						got, _, err := pr.run(vars)
						if err != nil {
							return err.Error()
						}
						if (form == "iface" || mv.Type().Elem().Kind() == reflect.Interface) && (got == "<>" || got == "<<nil>>") && want.IsZero() {
							return "" // the zero value of interface{}
						}
						if got != "<"+text+">" {
							return mismatch(tpl, got, "<"+text+">")
						}
					}
					return ""
				})
			}
		}
	}
}
