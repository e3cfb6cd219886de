package velty

import (
	"strconv"

	"github.com/viant/velty/internal/vspec"
)

// vcNil14 records the arguments of calls
type vcNil14 struct{ got []interface{} }

func (o *vcNil14) note(args ...interface{}) string        { o.got = append(o.got, args...); return "r" }
func (o *vcNil14) M1(a interface{}) string                { return o.note(a) }
func (o *vcNil14) M2(a, b interface{}) string             { return o.note(a, b) }
func (o *vcNil14) M3(a, b, c interface{}) string          { return o.note(a, b, c) }
func (o *vcNil14) M4(a, b, c, d interface{}) string       { return o.note(a, b, c, d) }
func (o *vcNil14) M5(a, b, c, d, e interface{}) string    { return o.note(a, b, c, d, e) }
func (o *vcNil14) M6(a, b, c, d, e, f interface{}) string { return o.note(a, b, c, d, e, f) }

// vcNilArgs14 calls a function or a method of n arguments, one of which is nil
func vcNilArgs14(n int) {
	o := &vcNil14{}
	p := New()
	for k, f := range []interface{}{o.M1, o.M2, o.M3, o.M4, o.M5, o.M6} {
		vspec.Assert(p.RegisterFunction("f"+strconv.Itoa(k+1), f) == nil, "the function is registered")
	}
	at := vspec.Pick(n)
	name := []string{"$f", "$o.M"}[vspec.Pick(2)]
	tmpl := name + strconv.Itoa(n) + "("
	for k := 0; k < n; k++ {
		if k > 0 {
			tmpl += ", "
		}
		switch {
		case k == at:
			tmpl += "$h.I"
		case k%2 == 0:
			tmpl += "$i"
		default:
			tmpl += "$s"
		}
	}
	i, s := vspec.Int(), vspec.String()
	r := vcNewWith(p, tmpl+")", vcVar{"o", o}, vcVar{"h", vcIface14{}}, vcVar{"i", i}, vcVar{"s", s})
	vspec.Assert(r.exec.Exec(r.st) == nil, "it executes")
	vspec.Assert(len(o.got) == n, "it is called once with all arguments")
	for k, got := range o.got {
		switch {
		case k == at:
			vspec.Assert(got == nil, "a nil argument is nil")
		case k%2 == 0:
			x, ok := got.(int)
			vspec.Assert(ok && x == i, "an argument is the value of its expression")
		default:
			x, ok := got.(string)
			vspec.Assert(ok && x == s, "an argument is the value of its expression")
		}
	}
	vspec.Assert(r.out() == "r", "the result is rendered")
}

type vcIface14 struct{ I interface{} }

func VC_C14_Nil1() { vcNilArgs14(1) }
func VC_C14_Nil2() { vcNilArgs14(2) }
func VC_C14_Nil3() { vcNilArgs14(3) }
func VC_C14_Nil4() { vcNilArgs14(4) }
func VC_C14_Nil5() { vcNilArgs14(5) }
func VC_C14_Nil6() { vcNilArgs14(6) }
