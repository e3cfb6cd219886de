// Code generated by tools/gen/c14.py; DO NOT EDIT.

package velty

import (
	"errors"
	"reflect"
	"strconv"
	"unsafe"

	"github.com/viant/velty/internal/vspec"
)

var _ = reflect.TypeOf

// vcGot14 gets the result of a call
type vcGot14 struct {
	n int
	f func(p unsafe.Pointer)
}

func (g *vcGot14) got(p unsafe.Pointer) int {
	g.n++
	g.f(p)
	return 0
}

// ToPVcpair takes a *vcPair
func (g *vcGot14) ToPVcpair(v *vcPair) int { return g.got(unsafe.Pointer(&v)) }

// ToLBool takes a []bool
func (g *vcGot14) ToLBool(v []bool) int { return g.got(unsafe.Pointer(&v)) }

// ToLFloat64 takes a []float64
func (g *vcGot14) ToLFloat64(v []float64) int { return g.got(unsafe.Pointer(&v)) }

// ToLInt takes a []int
func (g *vcGot14) ToLInt(v []int) int { return g.got(unsafe.Pointer(&v)) }

// ToLString takes a []string
func (g *vcGot14) ToLString(v []string) int { return g.got(unsafe.Pointer(&v)) }

// ToLUint8 takes a []uint8
func (g *vcGot14) ToLUint8(v []uint8) int { return g.got(unsafe.Pointer(&v)) }

// ToBool takes a bool
func (g *vcGot14) ToBool(v bool) int { return g.got(unsafe.Pointer(&v)) }

// ToFloat64 takes a float64
func (g *vcGot14) ToFloat64(v float64) int { return g.got(unsafe.Pointer(&v)) }

// ToInt takes a int
func (g *vcGot14) ToInt(v int) int { return g.got(unsafe.Pointer(&v)) }

// ToInt16 takes a int16
func (g *vcGot14) ToInt16(v int16) int { return g.got(unsafe.Pointer(&v)) }

// ToInt32 takes a int32
func (g *vcGot14) ToInt32(v int32) int { return g.got(unsafe.Pointer(&v)) }

// ToInt64 takes a int64
func (g *vcGot14) ToInt64(v int64) int { return g.got(unsafe.Pointer(&v)) }

// ToInt8 takes a int8
func (g *vcGot14) ToInt8(v int8) int { return g.got(unsafe.Pointer(&v)) }

// ToString takes a string
func (g *vcGot14) ToString(v string) int { return g.got(unsafe.Pointer(&v)) }

// ToUint64 takes a uint64
func (g *vcGot14) ToUint64(v uint64) int { return g.got(unsafe.Pointer(&v)) }

// ToUint8 takes a uint8
func (g *vcGot14) ToUint8(v uint8) int { return g.got(unsafe.Pointer(&v)) }

// ToVcpair takes a vcPair
func (g *vcGot14) ToVcpair(v vcPair) int { return g.got(unsafe.Pointer(&v)) }

// A function (string,string) bool.
func VC_C14_Fast0() {
	var a0 string
	vspec.Fill(&a0)
	var a1 string
	vspec.Fill(&a1)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 string, x1 string) bool {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 string, x1 string) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  string
		A1  string
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (string,string) string.
func VC_C14_Fast1() {
	var a0 string
	vspec.Fill(&a0)
	var a1 string
	vspec.Fill(&a1)
	var want string
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 string, x1 string) string {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*string)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 string, x1 string) string { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  string
		A1  string
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToString($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (string) string.
func VC_C14_Fast2() {
	var a0 string
	vspec.Fill(&a0)
	var want string
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 string) string {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*string)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 string) string { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  string
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToString($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (string,string) int.
func VC_C14_Fast3() {
	var a0 string
	vspec.Fill(&a0)
	var a1 string
	vspec.Fill(&a1)
	var want int
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 string, x1 string) int {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*int)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 string, x1 string) int { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  string
		A1  string
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToInt($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (string) int.
func VC_C14_Fast4() {
	var a0 string
	vspec.Fill(&a0)
	var want int
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 string) int {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*int)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 string) int { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  string
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToInt($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (string) bool.
func VC_C14_Fast5() {
	var a0 string
	vspec.Fill(&a0)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 string) bool {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 string) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  string
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (string,string,int) int.
func VC_C14_Fast6() {
	var a0 string
	vspec.Fill(&a0)
	var a1 string
	vspec.Fill(&a1)
	var a2 int
	vspec.Fill(&a2)
	var want int
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 string, x1 string, x2 int) int {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		vspec.Assert(x2 == a2, "argument 2 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*int)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 string, x1 string, x2 int) int { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  string
		A1  string
		A2  int
	}{1, a0, a1, a2}
	args := []string{"$a0,$a1,$a2", "$h.A0, $h.A1, $h.A2", "$g.A0, $g.A1, $g.A2", "$a0, $g.A1, $a2"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToInt($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (string,string,string) bool.
func VC_C14_Fast7() {
	var a0 string
	vspec.Fill(&a0)
	var a1 string
	vspec.Fill(&a1)
	var a2 string
	vspec.Fill(&a2)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 string, x1 string, x2 string) bool {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		vspec.Assert(x2 == a2, "argument 2 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 string, x1 string, x2 string) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  string
		A1  string
		A2  string
	}{1, a0, a1, a2}
	args := []string{"$a0,$a1,$a2", "$h.A0, $h.A1, $h.A2", "$g.A0, $g.A1, $g.A2", "$a0, $g.A1, $a2"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (string,string) []string.
func VC_C14_Fast8() {
	var a0 string
	vspec.Fill(&a0)
	var a1 string
	vspec.Fill(&a1)
	var want []string
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 string, x1 string) []string {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*[]string)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(vcSameHead(unsafe.Pointer(&r), unsafe.Pointer(&want)), "the call denotes the result")
	}}
	other := func(x0 string, x1 string) []string { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  string
		A1  string
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToLString($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (string,string,int) bool.
func VC_C14_Fast9() {
	var a0 string
	vspec.Fill(&a0)
	var a1 string
	vspec.Fill(&a1)
	var a2 int
	vspec.Fill(&a2)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 string, x1 string, x2 int) bool {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		vspec.Assert(x2 == a2, "argument 2 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 string, x1 string, x2 int) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  string
		A1  string
		A2  int
	}{1, a0, a1, a2}
	args := []string{"$a0,$a1,$a2", "$h.A0, $h.A1, $h.A2", "$g.A0, $g.A1, $g.A2", "$a0, $g.A1, $a2"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (string,int) string.
func VC_C14_Fast10() {
	var a0 string
	vspec.Fill(&a0)
	var a1 int
	vspec.Fill(&a1)
	var want string
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 string, x1 int) string {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*string)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 string, x1 int) string { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  string
		A1  int
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToString($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (string,int,int) string.
func VC_C14_Fast11() {
	var a0 string
	vspec.Fill(&a0)
	var a1 int
	vspec.Fill(&a1)
	var a2 int
	vspec.Fill(&a2)
	var want string
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 string, x1 int, x2 int) string {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		vspec.Assert(x2 == a2, "argument 2 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*string)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 string, x1 int, x2 int) string { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  string
		A1  int
		A2  int
	}{1, a0, a1, a2}
	args := []string{"$a0,$a1,$a2", "$h.A0, $h.A1, $h.A2", "$g.A0, $g.A1, $g.A2", "$a0, $g.A1, $a2"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToString($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]int,int) bool.
func VC_C14_Fast12() {
	var a0 []int
	vspec.Fill(&a0)
	var a1 int
	vspec.Fill(&a1)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []int, x1 int) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []int, x1 int) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []int
		A1  int
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]bool,bool) bool.
func VC_C14_Fast13() {
	var a0 []bool
	vspec.Fill(&a0)
	var a1 bool
	vspec.Fill(&a1)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []bool, x1 bool) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []bool, x1 bool) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []bool
		A1  bool
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]float64,float64) bool.
func VC_C14_Fast14() {
	var a0 []float64
	vspec.Fill(&a0)
	var a1 float64
	vspec.Fill(&a1)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []float64, x1 float64) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(vspec.SameFloat(x1, a1), "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []float64, x1 float64) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []float64
		A1  float64
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]uint8,uint8) bool.
func VC_C14_Fast15() {
	var a0 []uint8
	vspec.Fill(&a0)
	var a1 uint8
	vspec.Fill(&a1)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []uint8, x1 uint8) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []uint8, x1 uint8) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []uint8
		A1  uint8
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]string,string) bool.
func VC_C14_Fast16() {
	var a0 []string
	vspec.Fill(&a0)
	var a1 string
	vspec.Fill(&a1)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []string, x1 string) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []string, x1 string) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []string
		A1  string
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]int,[]int) bool.
func VC_C14_Fast17() {
	var a0 []int
	vspec.Fill(&a0)
	var a1 []int
	vspec.Fill(&a1)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []int, x1 []int) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(vcSameHead(unsafe.Pointer(&x1), unsafe.Pointer(&a1)), "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []int, x1 []int) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []int
		A1  []int
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]bool,[]bool) bool.
func VC_C14_Fast18() {
	var a0 []bool
	vspec.Fill(&a0)
	var a1 []bool
	vspec.Fill(&a1)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []bool, x1 []bool) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(vcSameHead(unsafe.Pointer(&x1), unsafe.Pointer(&a1)), "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []bool, x1 []bool) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []bool
		A1  []bool
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]float64,[]float64) bool.
func VC_C14_Fast19() {
	var a0 []float64
	vspec.Fill(&a0)
	var a1 []float64
	vspec.Fill(&a1)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []float64, x1 []float64) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(vcSameHead(unsafe.Pointer(&x1), unsafe.Pointer(&a1)), "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []float64, x1 []float64) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []float64
		A1  []float64
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]uint8,[]uint8) bool.
func VC_C14_Fast20() {
	var a0 []uint8
	vspec.Fill(&a0)
	var a1 []uint8
	vspec.Fill(&a1)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []uint8, x1 []uint8) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(vcSameHead(unsafe.Pointer(&x1), unsafe.Pointer(&a1)), "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []uint8, x1 []uint8) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []uint8
		A1  []uint8
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]string,[]string) bool.
func VC_C14_Fast21() {
	var a0 []string
	vspec.Fill(&a0)
	var a1 []string
	vspec.Fill(&a1)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []string, x1 []string) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(vcSameHead(unsafe.Pointer(&x1), unsafe.Pointer(&a1)), "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []string, x1 []string) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []string
		A1  []string
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]int,int) int.
func VC_C14_Fast22() {
	var a0 []int
	vspec.Fill(&a0)
	var a1 int
	vspec.Fill(&a1)
	var want int
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []int, x1 int) int {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*int)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []int, x1 int) int { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []int
		A1  int
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToInt($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]bool,int) bool.
func VC_C14_Fast23() {
	var a0 []bool
	vspec.Fill(&a0)
	var a1 int
	vspec.Fill(&a1)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []bool, x1 int) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []bool, x1 int) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []bool
		A1  int
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]float64,int) float64.
func VC_C14_Fast24() {
	var a0 []float64
	vspec.Fill(&a0)
	var a1 int
	vspec.Fill(&a1)
	var want float64
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []float64, x1 int) float64 {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*float64)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(vspec.SameFloat(r, want), "the call denotes the result")
	}}
	other := func(x0 []float64, x1 int) float64 { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []float64
		A1  int
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToFloat64($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]uint8,int) uint8.
func VC_C14_Fast25() {
	var a0 []uint8
	vspec.Fill(&a0)
	var a1 int
	vspec.Fill(&a1)
	var want uint8
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []uint8, x1 int) uint8 {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*uint8)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []uint8, x1 int) uint8 { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []uint8
		A1  int
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToUint8($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]string,int) string.
func VC_C14_Fast26() {
	var a0 []string
	vspec.Fill(&a0)
	var a1 int
	vspec.Fill(&a1)
	var want string
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []string, x1 int) string {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*string)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []string, x1 int) string { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []string
		A1  int
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToString($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]int) bool.
func VC_C14_Fast27() {
	var a0 []int
	vspec.Fill(&a0)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []int) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []int) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []int
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]bool) bool.
func VC_C14_Fast28() {
	var a0 []bool
	vspec.Fill(&a0)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []bool) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []bool) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []bool
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]float64) bool.
func VC_C14_Fast29() {
	var a0 []float64
	vspec.Fill(&a0)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []float64) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []float64) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []float64
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]uint8) bool.
func VC_C14_Fast30() {
	var a0 []uint8
	vspec.Fill(&a0)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []uint8) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []uint8) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []uint8
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]string) bool.
func VC_C14_Fast31() {
	var a0 []string
	vspec.Fill(&a0)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []string) bool {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []string) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []string
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]int) int.
func VC_C14_Fast32() {
	var a0 []int
	vspec.Fill(&a0)
	var want int
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []int) int {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*int)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []int) int { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []int
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToInt($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]bool) int.
func VC_C14_Fast33() {
	var a0 []bool
	vspec.Fill(&a0)
	var want int
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []bool) int {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*int)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []bool) int { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []bool
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToInt($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]float64) int.
func VC_C14_Fast34() {
	var a0 []float64
	vspec.Fill(&a0)
	var want int
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []float64) int {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*int)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []float64) int { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []float64
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToInt($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function ([]string) int.
func VC_C14_Fast35() {
	var a0 []string
	vspec.Fill(&a0)
	var want int
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 []string) int {
		calls++
		vspec.Assert(vcSameHead(unsafe.Pointer(&x0), unsafe.Pointer(&a0)), "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*int)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 []string) int { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  []string
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToInt($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (int) string.
func VC_C14_Fast36() {
	var a0 int
	vspec.Fill(&a0)
	var want string
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 int) string {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*string)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 int) string { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  int
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToString($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (bool) string.
func VC_C14_Fast37() {
	var a0 bool
	vspec.Fill(&a0)
	var want string
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 bool) string {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*string)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 bool) string { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  bool
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToString($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (float64) string.
func VC_C14_Fast38() {
	var a0 float64
	vspec.Fill(&a0)
	var want string
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 float64) string {
		calls++
		vspec.Assert(vspec.SameFloat(x0, a0), "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*string)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 float64) string { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  float64
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToString($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function () int.
func VC_C14_Func0() {
	var want int
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func() int {
		calls++
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*int)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func() int { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	args := ""
	r := vcNewWith(p, "#set($z = $s.ToInt($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function () string.
func VC_C14_Func1() {
	var want string
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func() string {
		calls++
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*string)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func() string { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	args := ""
	r := vcNewWith(p, "#set($z = $s.ToString($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (int) int.
func VC_C14_Func2() {
	var a0 int
	vspec.Fill(&a0)
	var want int
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 int) int {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*int)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 int) int { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  int
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToInt($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (int,int) int.
func VC_C14_Func3() {
	var a0 int
	vspec.Fill(&a0)
	var a1 int
	vspec.Fill(&a1)
	var want int
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 int, x1 int) int {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*int)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 int, x1 int) int { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  int
		A1  int
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToInt($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (int,string) string.
func VC_C14_Func4() {
	var a0 int
	vspec.Fill(&a0)
	var a1 string
	vspec.Fill(&a1)
	var want string
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 int, x1 string) string {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*string)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 int, x1 string) string { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  int
		A1  string
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToString($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (float64,bool,string) float64.
func VC_C14_Func5() {
	var a0 float64
	vspec.Fill(&a0)
	var a1 bool
	vspec.Fill(&a1)
	var a2 string
	vspec.Fill(&a2)
	var want float64
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 float64, x1 bool, x2 string) float64 {
		calls++
		vspec.Assert(vspec.SameFloat(x0, a0), "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		vspec.Assert(x2 == a2, "argument 2 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*float64)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(vspec.SameFloat(r, want), "the call denotes the result")
	}}
	other := func(x0 float64, x1 bool, x2 string) float64 { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  float64
		A1  bool
		A2  string
	}{1, a0, a1, a2}
	args := []string{"$a0,$a1,$a2", "$h.A0, $h.A1, $h.A2", "$g.A0, $g.A1, $g.A2", "$a0, $g.A1, $a2"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToFloat64($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (int8,*vcPair,[]string,uint8) bool.
func VC_C14_Func6() {
	var a0 int8
	vspec.Fill(&a0)
	a1 := &vcPair{X: vspec.Int()}
	var a2 []string
	vspec.Fill(&a2)
	var a3 uint8
	vspec.Fill(&a3)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 int8, x1 *vcPair, x2 []string, x3 uint8) bool {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		vspec.Assert(vcSameHead(unsafe.Pointer(&x2), unsafe.Pointer(&a2)), "argument 2 is the value of its expression")
		vspec.Assert(x3 == a3, "argument 3 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 int8, x1 *vcPair, x2 []string, x3 uint8) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  int8
		A1  *vcPair
		A2  []string
		A3  uint8
	}{1, a0, a1, a2, a3}
	args := []string{"$a0,$a1,$a2,$a3", "$h.A0, $h.A1, $h.A2, $h.A3", "$g.A0, $g.A1, $g.A2, $g.A3", "$a0, $g.A1, $a2, $g.A3"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2}, vcVar{"a3", a3})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (int,int,int,int,int) int.
func VC_C14_Func7() {
	var a0 int
	vspec.Fill(&a0)
	var a1 int
	vspec.Fill(&a1)
	var a2 int
	vspec.Fill(&a2)
	var a3 int
	vspec.Fill(&a3)
	var a4 int
	vspec.Fill(&a4)
	var want int
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 int, x1 int, x2 int, x3 int, x4 int) int {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		vspec.Assert(x2 == a2, "argument 2 is the value of its expression")
		vspec.Assert(x3 == a3, "argument 3 is the value of its expression")
		vspec.Assert(x4 == a4, "argument 4 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*int)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 int, x1 int, x2 int, x3 int, x4 int) int { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  int
		A1  int
		A2  int
		A3  int
		A4  int
	}{1, a0, a1, a2, a3, a4}
	args := []string{"$a0,$a1,$a2,$a3,$a4", "$h.A0, $h.A1, $h.A2, $h.A3, $h.A4", "$g.A0, $g.A1, $g.A2, $g.A3, $g.A4", "$a0, $g.A1, $a2, $g.A3, $a4"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToInt($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2}, vcVar{"a3", a3}, vcVar{"a4", a4})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (string,string,string,string,string,string) string.
func VC_C14_Func8() {
	var a0 string
	vspec.Fill(&a0)
	var a1 string
	vspec.Fill(&a1)
	var a2 string
	vspec.Fill(&a2)
	var a3 string
	vspec.Fill(&a3)
	var a4 string
	vspec.Fill(&a4)
	var a5 string
	vspec.Fill(&a5)
	var want string
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 string, x1 string, x2 string, x3 string, x4 string, x5 string) string {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		vspec.Assert(x2 == a2, "argument 2 is the value of its expression")
		vspec.Assert(x3 == a3, "argument 3 is the value of its expression")
		vspec.Assert(x4 == a4, "argument 4 is the value of its expression")
		vspec.Assert(x5 == a5, "argument 5 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*string)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 string, x1 string, x2 string, x3 string, x4 string, x5 string) string { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  string
		A1  string
		A2  string
		A3  string
		A4  string
		A5  string
	}{1, a0, a1, a2, a3, a4, a5}
	args := []string{"$a0,$a1,$a2,$a3,$a4,$a5", "$h.A0, $h.A1, $h.A2, $h.A3, $h.A4, $h.A5", "$g.A0, $g.A1, $g.A2, $g.A3, $g.A4, $g.A5", "$a0, $g.A1, $a2, $g.A3, $a4, $g.A5"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToString($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2}, vcVar{"a3", a3}, vcVar{"a4", a4}, vcVar{"a5", a5})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (int,string,float64,bool,int64,uint8,string) vcPair.
func VC_C14_Func9() {
	var a0 int
	vspec.Fill(&a0)
	var a1 string
	vspec.Fill(&a1)
	var a2 float64
	vspec.Fill(&a2)
	var a3 bool
	vspec.Fill(&a3)
	var a4 int64
	vspec.Fill(&a4)
	var a5 uint8
	vspec.Fill(&a5)
	var a6 string
	vspec.Fill(&a6)
	var want vcPair
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 int, x1 string, x2 float64, x3 bool, x4 int64, x5 uint8, x6 string) vcPair {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		vspec.Assert(vspec.SameFloat(x2, a2), "argument 2 is the value of its expression")
		vspec.Assert(x3 == a3, "argument 3 is the value of its expression")
		vspec.Assert(x4 == a4, "argument 4 is the value of its expression")
		vspec.Assert(x5 == a5, "argument 5 is the value of its expression")
		vspec.Assert(x6 == a6, "argument 6 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*vcPair)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(vspec.And(r.X == want.X, vspec.And(r.Y == want.Y, r.Z == want.Z)), "the call denotes the result")
	}}
	other := func(x0 int, x1 string, x2 float64, x3 bool, x4 int64, x5 uint8, x6 string) vcPair {
		others++
		return want
	}
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  int
		A1  string
		A2  float64
		A3  bool
		A4  int64
		A5  uint8
		A6  string
	}{1, a0, a1, a2, a3, a4, a5, a6}
	args := []string{"$a0,$a1,$a2,$a3,$a4,$a5,$a6", "$h.A0, $h.A1, $h.A2, $h.A3, $h.A4, $h.A5, $h.A6", "$g.A0, $g.A1, $g.A2, $g.A3, $g.A4, $g.A5, $g.A6", "$a0, $g.A1, $a2, $g.A3, $a4, $g.A5, $a6"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToVcpair($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2}, vcVar{"a3", a3}, vcVar{"a4", a4}, vcVar{"a5", a5}, vcVar{"a6", a6})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (bool,bool,int,int,string,string,float64,float64) *vcPair.
func VC_C14_Func10() {
	var a0 bool
	vspec.Fill(&a0)
	var a1 bool
	vspec.Fill(&a1)
	var a2 int
	vspec.Fill(&a2)
	var a3 int
	vspec.Fill(&a3)
	var a4 string
	vspec.Fill(&a4)
	var a5 string
	vspec.Fill(&a5)
	var a6 float64
	vspec.Fill(&a6)
	var a7 float64
	vspec.Fill(&a7)
	want := &vcPair{X: vspec.Int()}
	calls, others := 0, 0
	f := func(x0 bool, x1 bool, x2 int, x3 int, x4 string, x5 string, x6 float64, x7 float64) *vcPair {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		vspec.Assert(x2 == a2, "argument 2 is the value of its expression")
		vspec.Assert(x3 == a3, "argument 3 is the value of its expression")
		vspec.Assert(x4 == a4, "argument 4 is the value of its expression")
		vspec.Assert(x5 == a5, "argument 5 is the value of its expression")
		vspec.Assert(vspec.SameFloat(x6, a6), "argument 6 is the value of its expression")
		vspec.Assert(vspec.SameFloat(x7, a7), "argument 7 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(**vcPair)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 bool, x1 bool, x2 int, x3 int, x4 string, x5 string, x6 float64, x7 float64) *vcPair {
		others++
		return want
	}
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  bool
		A1  bool
		A2  int
		A3  int
		A4  string
		A5  string
		A6  float64
		A7  float64
	}{1, a0, a1, a2, a3, a4, a5, a6, a7}
	args := []string{"$a0,$a1,$a2,$a3,$a4,$a5,$a6,$a7", "$h.A0, $h.A1, $h.A2, $h.A3, $h.A4, $h.A5, $h.A6, $h.A7", "$g.A0, $g.A1, $g.A2, $g.A3, $g.A4, $g.A5, $g.A6, $g.A7", "$a0, $g.A1, $a2, $g.A3, $a4, $g.A5, $a6, $g.A7"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToPVcpair($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2}, vcVar{"a3", a3}, vcVar{"a4", a4}, vcVar{"a5", a5}, vcVar{"a6", a6}, vcVar{"a7", a7})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (string,string,string) string.
func VC_C14_Func11() {
	var a0 string
	vspec.Fill(&a0)
	var a1 string
	vspec.Fill(&a1)
	var a2 string
	vspec.Fill(&a2)
	var want string
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 string, x1 string, x2 string) string {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		vspec.Assert(x2 == a2, "argument 2 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*string)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 string, x1 string, x2 string) string { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  string
		A1  string
		A2  string
	}{1, a0, a1, a2}
	args := []string{"$a0,$a1,$a2", "$h.A0, $h.A1, $h.A2", "$g.A0, $g.A1, $g.A2", "$a0, $g.A1, $a2"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToString($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (uint64,int16,int32) []int.
func VC_C14_Func12() {
	var a0 uint64
	vspec.Fill(&a0)
	var a1 int16
	vspec.Fill(&a1)
	var a2 int32
	vspec.Fill(&a2)
	var want []int
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 uint64, x1 int16, x2 int32) []int {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		vspec.Assert(x2 == a2, "argument 2 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*[]int)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(vcSameHead(unsafe.Pointer(&r), unsafe.Pointer(&want)), "the call denotes the result")
	}}
	other := func(x0 uint64, x1 int16, x2 int32) []int { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  uint64
		A1  int16
		A2  int32
	}{1, a0, a1, a2}
	args := []string{"$a0,$a1,$a2", "$h.A0, $h.A1, $h.A2", "$g.A0, $g.A1, $g.A2", "$a0, $g.A1, $a2"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToLInt($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (vcPair,int) vcPair.
func VC_C14_Func13() {
	var a0 vcPair
	vspec.Fill(&a0)
	var a1 int
	vspec.Fill(&a1)
	var want vcPair
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 vcPair, x1 int) vcPair {
		calls++
		vspec.Assert(vspec.And(x0.X == a0.X, vspec.And(x0.Y == a0.Y, x0.Z == a0.Z)), "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*vcPair)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(vspec.And(r.X == want.X, vspec.And(r.Y == want.Y, r.Z == want.Z)), "the call denotes the result")
	}}
	other := func(x0 vcPair, x1 int) vcPair { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  vcPair
		A1  int
	}{1, a0, a1}
	args := []string{"$a0,$a1", "$h.A0, $h.A1", "$g.A0, $g.A1", "$a0, $g.A1"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToVcpair($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (*vcPair) *vcPair.
func VC_C14_Func14() {
	a0 := &vcPair{X: vspec.Int()}
	want := &vcPair{X: vspec.Int()}
	calls, others := 0, 0
	f := func(x0 *vcPair) *vcPair {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(**vcPair)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 *vcPair) *vcPair { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  *vcPair
	}{1, a0}
	args := []string{"$a0", "$h.A0", "$g.A0", "$a0"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToPVcpair($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (int,[]int,int,[]int) []int.
func VC_C14_Func15() {
	var a0 int
	vspec.Fill(&a0)
	var a1 []int
	vspec.Fill(&a1)
	var a2 int
	vspec.Fill(&a2)
	var a3 []int
	vspec.Fill(&a3)
	var want []int
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 int, x1 []int, x2 int, x3 []int) []int {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(vcSameHead(unsafe.Pointer(&x1), unsafe.Pointer(&a1)), "argument 1 is the value of its expression")
		vspec.Assert(x2 == a2, "argument 2 is the value of its expression")
		vspec.Assert(vcSameHead(unsafe.Pointer(&x3), unsafe.Pointer(&a3)), "argument 3 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*[]int)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(vcSameHead(unsafe.Pointer(&r), unsafe.Pointer(&want)), "the call denotes the result")
	}}
	other := func(x0 int, x1 []int, x2 int, x3 []int) []int { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  int
		A1  []int
		A2  int
		A3  []int
	}{1, a0, a1, a2, a3}
	args := []string{"$a0,$a1,$a2,$a3", "$h.A0, $h.A1, $h.A2, $h.A3", "$g.A0, $g.A1, $g.A2, $g.A3", "$a0, $g.A1, $a2, $g.A3"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToLInt($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2}, vcVar{"a3", a3})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (int,int,int) bool.
func VC_C14_Func16() {
	var a0 int
	vspec.Fill(&a0)
	var a1 int
	vspec.Fill(&a1)
	var a2 int
	vspec.Fill(&a2)
	var want bool
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 int, x1 int, x2 int) bool {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		vspec.Assert(x2 == a2, "argument 2 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*bool)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 int, x1 int, x2 int) bool { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  int
		A1  int
		A2  int
	}{1, a0, a1, a2}
	args := []string{"$a0,$a1,$a2", "$h.A0, $h.A1, $h.A2", "$g.A0, $g.A1, $g.A2", "$a0, $g.A1, $a2"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToBool($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// A function (int,int,int,int) string.
func VC_C14_Func17() {
	var a0 int
	vspec.Fill(&a0)
	var a1 int
	vspec.Fill(&a1)
	var a2 int
	vspec.Fill(&a2)
	var a3 int
	vspec.Fill(&a3)
	var want string
	vspec.Fill(&want)
	calls, others := 0, 0
	f := func(x0 int, x1 int, x2 int, x3 int) string {
		calls++
		vspec.Assert(x0 == a0, "argument 0 is the value of its expression")
		vspec.Assert(x1 == a1, "argument 1 is the value of its expression")
		vspec.Assert(x2 == a2, "argument 2 is the value of its expression")
		vspec.Assert(x3 == a3, "argument 3 is the value of its expression")
		return want
	}
	g := &vcGot14{f: func(p unsafe.Pointer) {
		r := *(*string)(p)
		vspec.Assert(calls == 1, "the call is made before its result is used")
		vspec.Assert(r == want, "the call denotes the result")
	}}
	other := func(x0 int, x1 int, x2 int, x3 int) string { others++; return want }
	p := New()
	vspec.Assert(p.RegisterFunction("other", other) == nil && p.RegisterFunction("fn", f) == nil && p.RegisterFunction("fn2", other) == nil, "functions are registered")
	h := struct {
		Pad int8
		A0  int
		A1  int
		A2  int
		A3  int
	}{1, a0, a1, a2, a3}
	args := []string{"$a0,$a1,$a2,$a3", "$h.A0, $h.A1, $h.A2, $h.A3", "$g.A0, $g.A1, $g.A2, $g.A3", "$a0, $g.A1, $a2, $g.A3"}[vspec.Pick(4)]
	r := vcNewWith(p, "#set($z = $s.ToString($fn("+args+")))", vcVar{"s", g}, vcVar{"z", 0}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"a0", a0}, vcVar{"a1", a1}, vcVar{"a2", a2}, vcVar{"a3", a3})
	for k := 1; k < 3; k++ {
		calls, g.n = 0, 0
		r.run()
		vspec.Assert(calls == 1 && others == 0, "the function is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

// vcLog14 is what a receiver expects
type vcLog14 struct {
	Tag   int
	calls int
	check func(m int, tag int, args []unsafe.Pointer)
	back  func() int
}

// VcVal14 has methods on the value
type VcVal14 struct {
	Pad int8
	Tag int
	Log *vcLog14
}

// VcPtr14 has methods on the pointer
type VcPtr14 struct {
	Pad int8
	Tag int
	Log *vcLog14
}

// VcIf14 has methods
type VcIf14 interface {
	M0() int
	M1(x0 int) int
	M2(x0 string, x1 int) int
	M3(x0 float64, x1 bool, x2 string) int
	M4(x0 int, x1 int, x2 int, x3 int) int
	M5(x0 int, x1 string, x2 int, x3 string, x4 int) int
	M6(x0 int, x1 int, x2 int, x3 int, x4 int, x5 int) int
	M7(x0 string, x1 int, x2 bool, x3 string, x4 int, x5 bool, x6 float64) int
}

// M0 is a method
func (v VcVal14) M0() int { return v.Log.got(0, v.Tag) }

// M1 is a method
func (v VcVal14) M1(x0 int) int { return v.Log.got(1, v.Tag, unsafe.Pointer(&x0)) }

// M2 is a method
func (v VcVal14) M2(x0 string, x1 int) int {
	return v.Log.got(2, v.Tag, unsafe.Pointer(&x0), unsafe.Pointer(&x1))
}

// M3 is a method
func (v VcVal14) M3(x0 float64, x1 bool, x2 string) int {
	return v.Log.got(3, v.Tag, unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2))
}

// M4 is a method
func (v VcVal14) M4(x0 int, x1 int, x2 int, x3 int) int {
	return v.Log.got(4, v.Tag, unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3))
}

// M5 is a method
func (v VcVal14) M5(x0 int, x1 string, x2 int, x3 string, x4 int) int {
	return v.Log.got(5, v.Tag, unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3), unsafe.Pointer(&x4))
}

// M6 is a method
func (v VcVal14) M6(x0 int, x1 int, x2 int, x3 int, x4 int, x5 int) int {
	return v.Log.got(6, v.Tag, unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3), unsafe.Pointer(&x4), unsafe.Pointer(&x5))
}

// M7 is a method
func (v VcVal14) M7(x0 string, x1 int, x2 bool, x3 string, x4 int, x5 bool, x6 float64) int {
	return v.Log.got(7, v.Tag, unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3), unsafe.Pointer(&x4), unsafe.Pointer(&x5), unsafe.Pointer(&x6))
}

// M0 is a method
func (v *VcPtr14) M0() int { return v.Log.got(0, v.Tag) }

// M1 is a method
func (v *VcPtr14) M1(x0 int) int { return v.Log.got(1, v.Tag, unsafe.Pointer(&x0)) }

// M2 is a method
func (v *VcPtr14) M2(x0 string, x1 int) int {
	return v.Log.got(2, v.Tag, unsafe.Pointer(&x0), unsafe.Pointer(&x1))
}

// M3 is a method
func (v *VcPtr14) M3(x0 float64, x1 bool, x2 string) int {
	return v.Log.got(3, v.Tag, unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2))
}

// M4 is a method
func (v *VcPtr14) M4(x0 int, x1 int, x2 int, x3 int) int {
	return v.Log.got(4, v.Tag, unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3))
}

// M5 is a method
func (v *VcPtr14) M5(x0 int, x1 string, x2 int, x3 string, x4 int) int {
	return v.Log.got(5, v.Tag, unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3), unsafe.Pointer(&x4))
}

// M6 is a method
func (v *VcPtr14) M6(x0 int, x1 int, x2 int, x3 int, x4 int, x5 int) int {
	return v.Log.got(6, v.Tag, unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3), unsafe.Pointer(&x4), unsafe.Pointer(&x5))
}

// M7 is a method
func (v *VcPtr14) M7(x0 string, x1 int, x2 bool, x3 string, x4 int, x5 bool, x6 float64) int {
	return v.Log.got(7, v.Tag, unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3), unsafe.Pointer(&x4), unsafe.Pointer(&x5), unsafe.Pointer(&x6))
}

func (l *vcLog14) got(m int, tag int, args ...unsafe.Pointer) int {
	l.calls++
	l.check(m, tag, args)
	return l.back()
}

func vcSame14(k byte, p, q unsafe.Pointer) bool {
	switch k {
	case 'i':
		x, y := *(*int)(p), *(*int)(q)
		return x == y
	case 's':
		x, y := *(*string)(p), *(*string)(q)
		return x == y
	case 'b':
		x, y := *(*bool)(p), *(*bool)(q)
		return x == y
	}
	x, y := *(*float64)(p), *(*float64)(q)
	return vspec.SameFloat(x, y)
}

// Methods with up to seven arguments, on every form of receiver.
func VC_C14_Methods() {
	kinds := []string{"", "i", "si", "fbs", "iiii", "isisi", "iiiiii", "sibsibf"}
	m := vspec.Pick(len(kinds))
	tag := vspec.Int()
	log := &vcLog14{}
	want := vspec.Int()
	log.back = func() int { return want }
	var given []unsafe.Pointer
	var vars []vcVar
	text := ""
	for k := 0; k < len(kinds[m]); k++ {
		name := "a" + string(rune('0'+k))
		if k > 0 {
			text += ","
		}
		text += "$" + name
		switch kinds[m][k] {
		case 'i':
			x := vspec.Int()
			given, vars = append(given, unsafe.Pointer(&x)), append(vars, vcVar{name, x})
		case 's':
			x := vspec.String()
			given, vars = append(given, unsafe.Pointer(&x)), append(vars, vcVar{name, x})
		case 'b':
			x := vspec.Bool()
			given, vars = append(given, unsafe.Pointer(&x)), append(vars, vcVar{name, x})
		case 'f':
			x := vspec.Float64()
			given, vars = append(given, unsafe.Pointer(&x)), append(vars, vcVar{name, x})
		}
	}
	log.check = func(n int, t int, args []unsafe.Pointer) {
		vspec.Assert(n == m, "the named method is called")
		vspec.Assert(t == tag, "the method gets its receiver")
		vspec.Assert(len(args) == len(given), "the method gets all arguments")
		for k := range args {
			vspec.Assert(vcSame14(kinds[m][k], args[k], given[k]), "an argument is the value of its expression")
		}
	}
	others := 0
	bad := &vcLog14{check: func(n int, t int, args []unsafe.Pointer) { others++ }, back: func() int { return 0 }}
	v, w := VcVal14{1, tag, log}, VcPtr14{1, tag, log}
	xv, xw := VcVal14{1, tag, bad}, VcPtr14{1, tag, bad}
	p := New()
	ref := ""
	switch vspec.Pick(15) {
	case 0:
		ref, vars = "$r", append(vars, vcVar{"r", v})
	case 1:
		ref, vars = "$r", append(vars, vcVar{"r", &v})
	case 2:
		ref, vars = "$r", append(vars, vcVar{"r", &w})
	case 3:
		ref, vars = "$h.R", append(vars, vcVar{"h", struct {
			P int8
			X VcVal14
			R VcVal14
		}{1, xv, v}})
	case 4:
		ref, vars = "$h.R", append(vars, vcVar{"h", &struct {
			P int8
			X *VcPtr14
			R *VcPtr14
		}{1, &xw, &w}})
	case 5:
		ref, vars = "$r[1]", append(vars, vcVar{"r", []VcVal14{xv, v, xv}})
	case 6:
		ref, vars = "$r[1]", append(vars, vcVar{"r", []*VcPtr14{&xw, &w, &xw}})
	case 7:
		vspec.Assert(p.RegisterFuncNs("ns", v) == nil && p.RegisterFuncNs("nt", xv) == nil, "a namespace is registered")
		ref = "$ns"
	case 8:
		vspec.Assert(p.RegisterFuncNs("ns", &w) == nil && p.RegisterFuncNs("nt", &xw) == nil, "a namespace is registered")
		ref = "$ns"
	case 9:
		ref, vars = "$h.Of($h.K)", append(vars, vcVar{"h", &vcMake14{K: 2, v: []VcVal14{xv, xv, v}}})
	case 10:
		ref, vars = "$h.Ptr(1)", append(vars, vcVar{"h", &vcMake14{p: []*VcPtr14{&xw, &w}}})
	case 11:
		ref, vars = "$r", append(vars, vcVar{"r", []VcIf14{v}})
		ref = "$r[0]"
	case 12:
		ref, vars = "$h.R", append(vars, vcVar{"h", &struct {
			P int8
			R VcIf14
		}{1, &w}})
	case 13:
		ref, vars = "$r[\"k\"]", append(vars, vcVar{"r", map[string]*VcPtr14{"k": &w, "l": &xw}})
	case 14:
		ref, vars = "$h.R", append(vars, vcVar{"h", struct {
			P int8
			R *VcVal14
		}{1, &v}})
	}
	g := &vcGot14{f: func(p unsafe.Pointer) { vspec.Assert(*(*int)(p) == want, "the call denotes the result") }}
	r := vcNewWith(p, "#set($z = $s.ToInt("+ref+".M"+string(rune('0'+m))+"("+text+")))", append(vars, vcVar{"s", g}, vcVar{"z", 0})...)
	for k := 0; k < 2; k++ {
		log.calls, g.n = 0, 0
		r.run()
		vspec.Assert(log.calls == 1 && others == 0, "the method is called once, and no other")
		vspec.Assert(g.n == 1, "the result is used once")
	}
}

type vcMake14 struct {
	K int
	v []VcVal14
	p []*VcPtr14
}

// Of gives a receiver
func (m *vcMake14) Of(k int) VcVal14 { return m.v[k] }

// Ptr gives a receiver
func (m *vcMake14) Ptr(k int) *VcPtr14 { return m.p[k] }

// vcCount counts calls and fails
type vcCount struct {
	log  []int
	next int
	err  error
	V    int
}

// F is called
func (c *vcCount) F(k int) int { c.log = append(c.log, k); return c.V + k }

// S is called
func (c *vcCount) S(k int) string { c.log = append(c.log, k); return "s" }

// B is called
func (c *vcCount) B(k int) bool { c.log = append(c.log, k); return c.V > 0 }

// L is called
func (c *vcCount) L(k int) []int { c.log = append(c.log, k); return []int{1, 2} }

// Sum is called
func (c *vcCount) Sum(a, b, d int) int { c.log = append(c.log, 100); return a + b + d }

// Self is called
func (c *vcCount) Self(k int) *vcCount { c.log = append(c.log, k); return c }

// Calls wherever an expression can be are made once, in source order.
func VC_C14_Once() {
	c := &vcCount{V: vspec.Int()}
	cases := []struct {
		text string
		log  []int
	}{
		{"$c.F(1)", []int{1}},
		{"${c.F(1)}", []int{1}},
		{"$c.F(1)$c.F(2)$c.S(3)", []int{1, 2, 3}},
		{"#set($x = $c.F(1))", []int{1}},
		{"#set($x = $c.F(1) + $c.F(2))", []int{1, 2}},
		{"#set($x = $c.F(1) - $c.F(2) * $c.F(3))", nil},
		{"#if($c.B(1))#end", []int{1}},
		{"#if($c.F(1) > $c.F(2))a#else b#end", []int{1, 2}},
		{"#if($c.F(1) == 5)a#end", []int{1}},
		{"#set($x = $c.Sum($c.F(1), $c.F(2), $c.F(3)))", []int{1, 2, 3, 100}},
		{"#set($x = $c.F($c.F($c.F(1))))", nil},
		{"#foreach($i in $c.L(1))#end", []int{1}},
		{"#foreach($i in $c.L(1))#set($x = $c.F(2))#end", []int{1, 2, 2}},
		{"#set($x = $c.Self(1).F(2))", []int{1, 2}},
		{"#set($x = $c.Self(1).Self(2).Self(3).F(4))", []int{1, 2, 3, 4}},
		{"#set($x = $c.Self(1).V)", []int{1}},
		{"#set($x = $c.Self(1).Self(2).V)", []int{1, 2}},
		{"$c.Self(1).V", []int{1}},
		{"#set($x = $c.L(1)[1])", []int{1}},
		{"#set($y = $c.S(1) + $c.S(2))", []int{1, 2}},
		{"#set($x = $c.Self(1).L(2)[0])", []int{1, 2}},
		{"#for($i = 0; $i < $c.Two(); $i++)#set($x = $c.F(1))#end", []int{7, 1, 7, 1, 7}},
	}
	k := vspec.Pick(len(cases))
	if k < 3 || k == 17 {
		c.V = 5
	}
	r := vcNew(cases[k].text, vcVar{"c", c}, vcVar{"x", 0}, vcVar{"y", ""})
	r.run()
	if k == 5 {
		vspec.Assert(len(c.log) == 3 && c.log[0]+c.log[1]+c.log[2] == 6 && c.log[0]*c.log[1]*c.log[2] == 6, "each call is made once")
		return
	}
	if k == 10 {
		vspec.Assert(len(c.log) == 3, "each call is made once")
		vspec.Assert(vspec.And(c.log[0] == 1, vspec.And(c.log[1] == c.V+1, c.log[2] == c.V+c.V+1)), "the inner call is made first, and its result is the argument")
		return
	}
	vspec.Assert(len(c.log) == len(cases[k].log), "each call is made once")
	for i := 0; i < len(c.log) && i < len(cases[k].log); i++ {
		vspec.Assert(c.log[i] == cases[k].log[i], "calls are made in source order")
	}
}

// Two is called
func (c *vcCount) Two() int { c.log = append(c.log, 7); return 2 }

// vcFail14 fails when told to
type vcFail14 struct {
	fail []bool
	errs []error
	log  []int
}

func (f *vcFail14) one(k int) error {
	f.log = append(f.log, k)
	if f.fail[k] {
		return f.errs[k]
	}
	return nil
}

// I fails or not
func (f *vcFail14) I(k int) (int, error) { return k, f.one(k) }

// S fails or not
func (f *vcFail14) S(k int) (string, error) { return "s", f.one(k) }

// B fails or not
func (f *vcFail14) B(k int) (bool, error) { return true, f.one(k) }

// L fails or not
func (f *vcFail14) L(k int) ([]int, error) { return []int{1}, f.one(k) }

// P fails or not
func (f *vcFail14) P(k int) (*vcPair, error) { return &vcPair{X: 3}, f.one(k) }

// A fails or not
func (f *vcFail14) A(k int, more ...int) (int, error) { return k, f.one(k) }

// T takes
func (f *vcFail14) T(v int) int { return v }

// A failing call anywhere is reported.
func VC_C14_Errors() {
	f := &vcFail14{errs: []error{errors.New("e0"), errors.New("e1"), errors.New("e2")}}
	some := false
	for k := 0; k < 3; k++ {
		b := vspec.Bool()
		f.fail = append(f.fail, b)
	}
	texts := []struct {
		text string
		n    int
	}{
		{"$f.I(0)", 1},
		{"$f.S(0)", 1},
		{"#set($x = $f.I(0))", 1},
		{"#set($y = $f.S(0))", 1},
		{"#if($f.B(0))a#end", 1},
		{"#foreach($i in $f.L(0))#end", 1},
		{"#set($x = $f.P(0).X)", 1},
		{"#set($x = $f.T($f.I(0)))", 1},
		{"#set($x = $f.I(0) + $f.I(1))", 2},
		{"$f.I(0)$f.S(1)$f.I(2)", 3},
		{"#set($x = $f.A(0))", 1},
		{"#set($x = $f.A(0, 1, 2, 3, 4, 5))", 1},
		{"$fn(0)", 1},
		{"#set($x = $fn(0) + 1)", 1},
		{"#foreach($i in $two)$f.I(0)#end", 1},
		{"${ns.I(0)}", 1},
	}
	k := vspec.Pick(len(texts))
	p := New()
	vspec.Assert(p.RegisterFunction("fn", func(k int) (int, error) { return f.I(k) }) == nil, "a function is registered")
	vspec.Assert(p.RegisterFuncNs("ns", f) == nil, "a namespace is registered")
	r := vcNewWith(p, texts[k].text, vcVar{"f", f}, vcVar{"x", 0}, vcVar{"y", ""}, vcVar{"two", []int{1, 2}})
	err := r.exec.Exec(r.st)
	var first error
	for k := len(f.log) - 1; k >= 0; k-- {
		if f.fail[f.log[k]] {
			some, first = true, f.errs[f.log[k]]
		}
	}
	vspec.Assert(len(f.log) >= 1, "the call is made")
	vspec.Assert((err != nil) == some, "an error is reported exactly when a call fails")
	if some {
		vspec.Assert(errors.Is(err, first), "the reported error is what the call returned")
	}
}

// VcVariadic14 has a variadic method
type VcVariadic14 struct{ f func(s string, l []int) int }

// V is variadic
func (v *VcVariadic14) V(s string, l ...int) int { return v.f(s, l) }

// Any takes everything
func (v *VcVariadic14) Any(l ...interface{}) int { return v.g(l) }

func (v *VcVariadic14) g(l []interface{}) int {
	n := make([]int, 0, 8)
	for _, x := range l {
		n = append(n, x.(int))
	}
	return v.f("", n)
}

// Variadic functions and methods with up to seven arguments.
func VC_C14_Variadic() {
	n := vspec.Pick(8)
	s := vspec.String()
	var l []int
	text := ""
	vars := []vcVar{{"s", s}, {"z", 0}}
	for k := 0; k < n; k++ {
		name := "a" + string(rune('0'+k))
		x := vspec.Int()
		l, vars = append(l, x), append(vars, vcVar{name, x})
		text += ",$" + name
	}
	calls := 0
	form := vspec.Pick(3)
	got := func(q string, m []int) int {
		calls++
		if form < 2 {
			vspec.Assert(q == s, "the first argument is passed")
		}
		vspec.Assert(len(m) == len(l), "all arguments are passed")
		for k := 0; k < len(m) && k < len(l); k++ {
			vspec.Assert(m[k] == l[k], "the arguments are passed in order")
		}
		return 0
	}
	v := &VcVariadic14{got}
	p := New()
	vspec.Assert(p.RegisterFunction("fn", func(s string, l ...int) int { return got(s, l) }) == nil, "a function is registered")
	t := ""
	switch form {
	case 0:
		t = "$v.V($s" + text + ")"
	case 1:
		t = "$fn($s" + text + ")"
	case 2:
		if text != "" {
			text = text[1:]
		}
		t = "$v.Any(" + text + ")"
	}
	r := vcNewWith(p, "#set($z = "+t+")", append(vars, vcVar{"v", v})...)
	r.run()
	vspec.Assert(calls == 1, "the function is called once")
}

// Literal arguments.
func VC_C14_Literals() {
	calls := 0
	ints := func(a, b, c int) int {
		calls++
		vspec.Assert(a == 1 && b == -23 && c == 0, "literal numbers are passed")
		return 0
	}
	strs := func(a, b, c string) int {
		calls++
		vspec.Assert(a == "x" && b == "" && c == "a, (b)", "literal strings are passed")
		return 0
	}
	mix := func(a int, b string, c float64, d bool) int {
		calls++
		vspec.Assert(a == 7 && b == "7" && c == 1.5 && d, "literals are passed in order")
		return 0
	}
	i := vspec.Int()
	exprs := func(a, b, c int) int {
		calls++
		vspec.Assert(vspec.And(a == i+1, vspec.And(b == i*2, c == 3-i)), "expressions are passed in order")
		return 0
	}
	p := New()
	vspec.Assert(p.RegisterFunction("ints", ints) == nil && p.RegisterFunction("strs", strs) == nil && p.RegisterFunction("mix", mix) == nil && p.RegisterFunction("exprs", exprs) == nil, "functions are registered")
	t := []string{"$ints(1,-23,0)", "$ints( 1 , -23 , 0 )", "$strs(\"x\",\"\",\"a, (b)\")", "$mix(7, \"7\", 1.5, true)", "$exprs($i + 1, $i * 2, 3 - $i)", "$exprs(($i+1),($i*2),(3-$i))"}[vspec.Pick(6)]
	r := vcNewWith(p, "#set($z = "+t+")", vcVar{"z", 0}, vcVar{"i", i})
	r.run()
	vspec.Assert(calls == 1, "the function is called once")
}

// VcSmall14 returns small values
type VcSmall14 struct{ v []int }

func (s *VcSmall14) I8() int8           { return int8(s.v[0]) }
func (s *VcSmall14) U8() uint8          { return uint8(s.v[0]) }
func (s *VcSmall14) I16() int16         { return int16(s.v[0]) }
func (s *VcSmall14) U16() uint16        { return uint16(s.v[0]) }
func (s *VcSmall14) I32() int32         { return int32(s.v[0]) }
func (s *VcSmall14) U32() uint32        { return uint32(s.v[0]) }
func (s *VcSmall14) B() bool            { return s.v[0] > 0 }
func (s *VcSmall14) F() float32         { return 1.5 }
func (s *VcSmall14) O() vcOdd14         { return vcOdd14{1, 2} }
func (s *VcSmall14) Is8(x int8) int     { return s.is(x == int8(s.v[0])) }
func (s *VcSmall14) IsU8(x uint8) int   { return s.is(x == uint8(s.v[0])) }
func (s *VcSmall14) Is16(x int16) int   { return s.is(x == int16(s.v[0])) }
func (s *VcSmall14) IsU16(x uint16) int { return s.is(x == uint16(s.v[0])) }
func (s *VcSmall14) Is32(x int32) int   { return s.is(x == int32(s.v[0])) }
func (s *VcSmall14) IsU32(x uint32) int { return s.is(x == uint32(s.v[0])) }
func (s *VcSmall14) IsB(x bool) int     { return s.is(x == (s.v[0] > 0)) }
func (s *VcSmall14) IsF(x float32) int  { return s.is(x == 1.5) }
func (s *VcSmall14) IsO(x vcOdd14) int  { return s.is(x == vcOdd14{1, 2}) }
func (s *VcSmall14) is(ok bool) int {
	vspec.Assert(ok, "a small result is passed on")
	return 0
}

type vcOdd14 struct {
	A int16
	B int8
}

// Results of small types, next to variables made by the template.
func VC_C14_SmallResults() {
	v := vspec.Int()
	call := [][2]string{{"I8", "Is8"}, {"U8", "IsU8"}, {"I16", "Is16"}, {"U16", "IsU16"}, {"I32", "Is32"}, {"U32", "IsU32"}, {"B", "IsB"}, {"F", "IsF"}, {"O", "IsO"}}[vspec.Pick(9)]
	s := &VcSmall14{[]int{v}}
	x := vspec.Bool()
	out := &vcOut{}
	text := "#foreach($i in $l)#if($i == 2)#set($z = $s." + call[1] + "($s." + call[0] + "()))#end#if($i == 1)#set($x = $t)#end#set($o.B = $x)#end"
	r := vcNew(text, vcVar{"s", s}, vcVar{"l", []int{1, 2}}, vcVar{"z", 0}, vcVar{"t", x}, vcVar{"o", out})
	r.run()
	vspec.Assert(out.B == x, "no other variable changes")
}

type vcGetA struct{ X int }

func (a vcGetA) Get() int { return a.X }

type vcGetB struct{ P, Q int }

func (a vcGetB) Get() int { return a.Q }

func vcLocal1(x int) interface{} {
	type T struct{ vcGetA }
	return T{vcGetA{x}}
}

func vcLocal2(x int) interface{} {
	type T struct{ vcGetB }
	return T{vcGetB{-1, x}}
}

// Types that are named alike have their own methods.
func VC_C14_SameName() {
	a, b := vspec.Int(), vspec.Int()
	r := vcNew([]string{"#set($x = $a.Get())#set($y = $b.Get())", "#set($y = $b.Get())#set($x = $a.Get())"}[vspec.Pick(2)], vcVar{"a", vcLocal1(a)}, vcVar{"b", vcLocal2(b)}, vcVar{"x", 0}, vcVar{"y", 0})
	r.run()
	x, y := *(*int)(r.addr("x")), *(*int)(r.addr("y"))
	vspec.Assert(x == a, "the method of the first type is called")
	vspec.Assert(y == b, "the method of the second type is called")
}

// vcKind14 is a function of a kind
type vcKind14 struct {
	kinds []reflect.Kind
	f     interface{}
}

func (k vcKind14) Kind() []reflect.Kind { return k.kinds }
func (k vcKind14) Handler() interface{} { return k.f }

type vcInts14 []int

// Functions of kinds and types.
func VC_C14_KindFunc() {
	i, j := vspec.Int(), vspec.Int()
	calls := 0
	k := vcKind14{[]reflect.Kind{reflect.Slice}, func(l vcInts14, a int) int {
		calls++
		vspec.Assert(vspec.And(len(l) == 2, vspec.And(l[0] == i, l[1] == j)), "the receiver is passed")
		vspec.Assert(a == j, "the argument is passed")
		return a
	}}
	p := New()
	vspec.Assert(p.RegisterFunctionKind("Fn", k) == nil, "a function of a kind is registered")
	r := vcNewWith(p, "#set($x = $l.Fn($j))", vcVar{"l", vcInts14{i, j}}, vcVar{"j", j}, vcVar{"x", 0})
	r.run()
	vspec.Assert(calls == 1, "the function is called once")
	x := *(*int)(r.addr("x"))
	vspec.Assert(x == j, "the call denotes the result")
}

// vcNest14 writes its calls down
type vcNest14 struct {
	calls [][]unsafe.Pointer
	back  []int
	text  []string
}

func (c *vcNest14) got(args ...unsafe.Pointer) int {
	c.calls = append(c.calls, args)
	return c.back[len(c.calls)-1]
}

func (c *vcNest14) gotS(args ...unsafe.Pointer) string {
	c.calls = append(c.calls, args)
	return c.text[len(c.calls)-1]
}

// I1 takes integers
func (c *vcNest14) I1(x0 int) int { return c.got(unsafe.Pointer(&x0)) }

// I2 takes integers
func (c *vcNest14) I2(x0, x1 int) int { return c.got(unsafe.Pointer(&x0), unsafe.Pointer(&x1)) }

// I3 takes integers
func (c *vcNest14) I3(x0, x1, x2 int) int {
	return c.got(unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2))
}

// I4 takes integers
func (c *vcNest14) I4(x0, x1, x2, x3 int) int {
	return c.got(unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3))
}

// I5 takes integers
func (c *vcNest14) I5(x0, x1, x2, x3, x4 int) int {
	return c.got(unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3), unsafe.Pointer(&x4))
}

// I6 takes integers
func (c *vcNest14) I6(x0, x1, x2, x3, x4, x5 int) int {
	return c.got(unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3), unsafe.Pointer(&x4), unsafe.Pointer(&x5))
}

// I7 takes integers
func (c *vcNest14) I7(x0, x1, x2, x3, x4, x5, x6 int) int {
	return c.got(unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3), unsafe.Pointer(&x4), unsafe.Pointer(&x5), unsafe.Pointer(&x6))
}

// S1 takes strings
func (c *vcNest14) S1(x0 string) string { return c.gotS(unsafe.Pointer(&x0)) }

// S2 takes strings
func (c *vcNest14) S2(x0, x1 string) string { return c.gotS(unsafe.Pointer(&x0), unsafe.Pointer(&x1)) }

// S3 takes strings
func (c *vcNest14) S3(x0, x1, x2 string) string {
	return c.gotS(unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2))
}

// S4 takes strings
func (c *vcNest14) S4(x0, x1, x2, x3 string) string {
	return c.gotS(unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3))
}

// S5 takes strings
func (c *vcNest14) S5(x0, x1, x2, x3, x4 string) string {
	return c.gotS(unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3), unsafe.Pointer(&x4))
}

// S6 takes strings
func (c *vcNest14) S6(x0, x1, x2, x3, x4, x5 string) string {
	return c.gotS(unsafe.Pointer(&x0), unsafe.Pointer(&x1), unsafe.Pointer(&x2), unsafe.Pointer(&x3), unsafe.Pointer(&x4), unsafe.Pointer(&x5))
}

// vcNested14 has calls of one function inside its own arguments
func vcNested14(kind byte, n int) {
	c := &vcNest14{}
	var vals []unsafe.Pointer
	vars := []vcVar{{"c", c}}
	for i := 0; i < 3*n; i++ {
		name := "v" + strconv.Itoa(i)
		if kind == 'i' {
			v := vspec.Int()
			vals, vars = append(vals, unsafe.Pointer(&v)), append(vars, vcVar{name, v})
		} else {
			v := vspec.String()
			vals, vars = append(vals, unsafe.Pointer(&v)), append(vars, vcVar{name, v})
		}
	}
	for i := 0; i < 3; i++ {
		c.back, c.text = append(c.back, vspec.Int()), append(c.text, vspec.String())
	}
	p := New()
	name := "I" + strconv.Itoa(n)
	if kind == 's' {
		name = "S" + strconv.Itoa(n)
	}
	fns := map[string]interface{}{"I1": c.I1, "I2": c.I2, "I3": c.I3, "I4": c.I4, "I5": c.I5, "I6": c.I6, "I7": c.I7, "S1": c.S1, "S2": c.S2, "S3": c.S3, "S4": c.S4, "S5": c.S5, "S6": c.S6}
	var err error
	switch vspec.Pick(3) {
	case 0:
		err = p.RegisterFunction("fn", fns[name])
		name = "$fn"
	case 1:
		err = p.RegisterFuncNs("ns", c)
		name = "$ns." + name
	case 2:
		name = "$c." + name
	}
	vspec.Assert(err == nil, "the function is registered")
	at, also := vspec.Pick(n), vspec.Pick(n)
	var want [][]unsafe.Pointer
	calls, next := 0, 0
	call := func() (string, []unsafe.Pointer) {
		text := name + "("
		var args []unsafe.Pointer
		for i := 0; i < n; i++ {
			if i > 0 {
				text += ", "
			}
			text += "$v" + strconv.Itoa(next)
			args = append(args, vals[next])
			next++
		}
		return text + ")", args
	}
	result := func(k int) unsafe.Pointer {
		if kind == 'i' {
			return unsafe.Pointer(&c.back[k])
		}
		return unsafe.Pointer(&c.text[k])
	}
	text := name + "("
	var outer []unsafe.Pointer
	for i := 0; i < n; i++ {
		if i > 0 {
			text += ", "
		}
		if i != at && i != also {
			text += "$v" + strconv.Itoa(2*n+i)
			outer = append(outer, vals[2*n+i])
			continue
		}
		in, args := call()
		text += in
		want = append(want, args)
		outer = append(outer, result(calls))
		calls++
	}
	want = append(want, outer)
	zero := interface{}(0)
	if kind == 's' {
		zero = ""
	}
	r := vcNewWith(p, "#set($z = "+text+"))", append(vars, vcVar{"z", zero})...)
	for k := 0; k < 2; k++ {
		c.calls = nil
		r.run()
		vspec.Assert(len(c.calls) == len(want), "each call is made once")
		for i := range want {
			vspec.Assert(len(c.calls[i]) == n, "a call gets all arguments")
			for j := range want[i] {
				vspec.Assert(vcSame14(kind, c.calls[i][j], want[i][j]), "an argument is the value of its expression")
			}
		}
		vspec.Assert(vcSame14(kind, r.addr("z"), result(calls)), "the call denotes the result")
	}
}

// Calls inside the arguments of the same function.
func VC_C14_NestedInts() { vcNested14('i', vspec.Pick(4)+1) }
func VC_C14_Nested5()    { vcNested14('i', 5) }
func VC_C14_Nested6()    { vcNested14('i', 6) }
func VC_C14_Nested7()    { vcNested14('i', 7) }

// Calls inside the arguments of the same function of strings.
func VC_C14_NestedStrings() { vcNested14('s', vspec.Pick(6)+1) }
