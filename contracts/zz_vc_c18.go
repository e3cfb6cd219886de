package velty

import (
	"errors"

	"github.com/viant/velty/internal/vspec"
)

// The first error is reported; PanicOnError stops there (C18).

// vcErr18 is an error of its own
type vcErr18 struct{ n int }

func (e *vcErr18) Error() string { return "failure" }

// vcCalls18 are functions whose calls fail as they are told
type vcCalls18 struct {
	fail  []bool
	errs  []*vcErr18
	calls int
	after int // calls of a function that cannot fail, made after the first failure
	first int // the first failure, or -1
}

func (c *vcCalls18) next() error {
	if c.first >= 0 {
		c.after++
	}
	k := c.calls
	c.calls++
	if !c.fail[k] {
		return nil
	}
	if c.first < 0 {
		c.first = k
	}
	return c.errs[k]
}

func (c *vcCalls18) G(k int) (string, error) {
	if err := c.next(); err != nil {
		return "", err
	}
	return "r", nil
}

func (c *vcCalls18) C(k int) (bool, error) { err := c.next(); return err == nil, err }
func (c *vcCalls18) N(k int) (int, error) {
	if err := c.next(); err != nil {
		return 0, err
	}
	return 1, nil
}
func (c *vcCalls18) R(a int8, s string, b bool) (string, error) { return c.G(0) }
func (c *vcCalls18) A(k int) (interface{}, error) {
	if err := c.next(); err != nil {
		return nil, err
	}
	return 1, nil
}
func (c *vcCalls18) P(s string) string {
	if c.first >= 0 {
		c.after++
	}
	return s
}
func (c *vcCalls18) V(s ...string) (string, error) { return c.G(0) }

// vcPiece18 is a piece of a template with its calls: what it renders without a failure, and what the failing call leaves
type vcPiece18 struct {
	text  string
	calls int
	out   func(fail []bool) string
}

func vcR18(fail bool) string {
	if fail {
		return ""
	}
	return "r"
}

func vcText18(f []bool) string { return vcR18(f[0]) }

var vcPieces18 = []vcPiece18{
	{"$o.G(1)", 1, vcText18},
	{"$g(1)", 1, vcText18},
	{"$o.P($g(1))", 1, vcText18},
	{"$g2($a, $s, $b)", 1, vcText18},
	{"$o.R($a, $s, $b)", 1, vcText18},
	{"$ns.G(1)", 1, vcText18},
	{"#evaluate($t)", 1, vcText18},
	{"#set($z = $o.G(1))$z", 1, vcText18},
	{"#if($o.C(1))T#else${e}F#end", 1, func(f []bool) string {
		if f[0] {
			return "F"
		}
		return "T"
	}},
	{"#if($o.N(1) > 0)T#else${e}F#end", 1, func(f []bool) string {
		if f[0] {
			return "F"
		}
		return "T"
	}},
	{"#if($b && $c(1))T#else${e}F#end", 1, func(f []bool) string {
		if f[0] {
			return "F"
		}
		return "T"
	}},
	{"#foreach($x in $two)$o.G($x)#end", 2, func(f []bool) string { return vcR18(f[0]) + vcR18(f[1]) }},
	{"#for($k = 0; $k < 2; $k++)$g($k)#end", 2, func(f []bool) string { return vcR18(f[0]) + vcR18(f[1]) }},
	{"#set($y = $o.N(1) + $o.N(2))", 2, func(f []bool) string { return "" }},
	{"#if($b)$o.G(1)$g(2)#end", 2, func(f []bool) string { return vcR18(f[0]) + vcR18(f[1]) }},
	{"$o.V($s, $s)", 1, vcText18},
}

func vcRun18(c *vcCalls18, tmpl string, opts ...Option) *vcRun {
	p := New(opts...)
	vspec.Assert(p.RegisterFunction("g", func(k int) (string, error) { return c.G(k) }) == nil, "the function is registered")
	vspec.Assert(p.RegisterFunction("c", func(k int) (bool, error) { return c.C(k) }) == nil, "the function is registered")
	vspec.Assert(p.RegisterFunction("g2", func(a int8, s string, b bool) (string, error) { return c.G(0) }) == nil, "the function is registered")
	vspec.Assert(p.RegisterFuncNs("ns", c) == nil, "the namespace is registered")
	return vcNewWith(p, tmpl, vcVar{"o", c}, vcVar{"a", int8(1)}, vcVar{"s", "s"}, vcVar{"e", ""}, vcVar{"b", true}, vcVar{"t", "$g(1)"}, vcVar{"two", []int{1, 2}})
}

// vcCase18 is a template of n pieces around plain text, executed once
func vcCase18(n int, from, to int, stop bool) { vcCaseIn18(n, from, to, from, to, stop, false) }

// the first piece is one of from0 to to0
func vcCaseIn18(n int, from0, to0, from, to int, stop, again bool) {
	tmpl := "<"
	var pieces []vcPiece18
	total := 0
	for k := 0; k < n; k++ {
		lo, hi := from, to
		if k == 0 {
			lo, hi = from0, to0
		}
		p := vcPieces18[lo+vspec.Pick(hi-lo)]
		tmpl += p.text + "."
		total += p.calls
		pieces = append(pieces, p)
	}
	tmpl += ">${o.P($s)}"
	c := &vcCalls18{first: -1}
	for k := 0; k < total; k++ {
		c.fail = append(c.fail, vspec.Bool())
		c.errs = append(c.errs, &vcErr18{k})
	}
	r := vcRun18(c, tmpl, PanicOnError(stop))
	if again { // the state was used before, and reset
		_ = r.exec.Exec(r.st)
		r.st.Reset()
		c.calls, c.first, c.after = 0, -1, 0
	}
	err := r.exec.Exec(r.st)
	first := -1
	for k := total - 1; k >= 0; k-- {
		if c.fail[k] {
			first = k
		}
	}
	vspec.Assert((err != nil) == (first >= 0), "it fails exactly when a call fails")
	vspec.Assert(c.first == first, "the calls are made in order")
	if first >= 0 {
		vspec.Assert(errors.Is(err, c.errs[first]), "the first failure is reported")
	}
	want, at, done := "<", 0, true
	for _, p := range pieces {
		if stop && first >= 0 && first < at+p.calls {
			// what the piece renders before its failing call
			if p.calls == 2 && first == at+1 {
				want += p.out([]bool{false, true})
			}
			done = false
			break
		}
		want += p.out(c.fail[at:]) + "."
		at += p.calls
	}
	if done {
		want += ">s"
	}
	vcSame(r.out(), "the output", want)
	if stop && first >= 0 {
		vspec.Assert(c.calls == first+1 && c.after == 0, "nothing is called after the failure")
	} else {
		vspec.Assert(c.calls == total, "all calls are made")
	}
}

func VC_C18_Collect1()  { vcCase18(1, 0, len(vcPieces18), false) }
func VC_C18_Stop1()     { vcCase18(1, 0, len(vcPieces18), true) }
func VC_C18_Collect2a() { vcCaseIn18(2, 0, 8, 0, len(vcPieces18), false, false) }
func VC_C18_Collect2b() { vcCaseIn18(2, 8, 16, 0, len(vcPieces18), false, false) }
func VC_C18_Stop2a()    { vcCaseIn18(2, 0, 8, 0, len(vcPieces18), true, false) }
func VC_C18_Stop2b()    { vcCaseIn18(2, 8, 16, 0, len(vcPieces18), true, false) }
func VC_C18_Collect3()  { vcCase18(3, 6, 9, false) }
func VC_C18_Stop3()     { vcCaseIn18(3, 9, 11, 10, 13, true, false) }

// The same holds for a state which was used before.
func VC_C18_CollectAgain() { vcCaseIn18(1, 0, len(vcPieces18), 0, 0, false, true) }
func VC_C18_StopAgain()    { vcCaseIn18(1, 0, len(vcPieces18), 0, 0, true, true) }

// A failing call in any iteration.
func VC_C18_Loop() {
	var q []int
	vspec.Fill(&q)
	failAt := vspec.Int()
	calls, failed := 0, 0
	e := &vcErr18{}
	p := New()
	vspec.Assert(p.RegisterFunction("h", func(k int) (bool, error) {
		calls++
		if k == failAt {
			failed++
			return false, e
		}
		return true, nil
	}) == nil, "the function is registered")
	r := vcNewWith(p, "#foreach($x in $q)#if($h($x))#end#end", vcVar{"q", q})
	vspec.Assume(len(q) <= 3)
	err := r.exec.Exec(r.st)
	vspec.Assert((err != nil) == (failed > 0), "it fails exactly when a call fails")
	vspec.Assert(calls == len(q), "all calls are made")
	if err != nil {
		vspec.Assert(errors.Is(err, e), "the failure is reported")
	}
}

// Panics that are not errors are not swallowed, with and without PanicOnError.
func VC_C18_Panics() {
	stop := vspec.Pick(2) == 0
	n := vspec.Int()
	var value interface{} = []interface{}{"text", n, vcPair{X: n}, true}[vspec.Pick(4)]
	p := New(PanicOnError(stop))
	vspec.Assert(p.RegisterFunction("boom", func(k int) (string, error) { panic(value) }) == nil, "the function is registered")
	tmpl := []string{"a$boom(1)b", "#set($x = $boom(1))", "#if($boom(1) == \"\")#end", "#evaluate($t)"}[vspec.Pick(4)]
	r := vcNewWith(p, tmpl, vcVar{"t", "$boom(1)"})
	var got interface{}
	done := false
	func() {
		defer func() {
			got = recover()
			vspec.Pass(got)
		}()
		_ = r.exec.Exec(r.st)
		done = true
	}()
	vspec.Assert(!done, "the panic is not swallowed")
	vspec.Assert(got == value, "the panic is the one of the function")
}

// AddError: the errors are kept in order, the panic is the error.
func VC_C18_AddError() {
	stop := vspec.Pick(2) == 0
	r := vcRun18(&vcCalls18{first: -1}, "", PanicOnError(stop))
	if vspec.Pick(2) == 0 {
		r.st.Reset()
	}
	a, b := &vcErr18{1}, &vcErr18{2}
	got := 0
	for _, e := range []error{a, b} {
		e := e
		func() {
			defer func() {
				x := recover()
				vspec.Pass(x)
				if x != nil {
					err, ok := x.(error)
					vspec.Assert(ok && errors.Is(err, e), "the panic is the error")
					got++
				}
			}()
			r.st.AddError(e)
		}()
	}
	want := 0
	if stop {
		want = 2
	}
	vspec.Assert(got == want, "it panics exactly with PanicOnError")
	vspec.Assert(len(r.st.Errors) == 2 && errors.Is(r.st.Errors[0], a) && errors.Is(r.st.Errors[1], b), "the errors are kept in order")
	vspec.Assert(!r.st.IsValid(), "the state is not valid")
}
