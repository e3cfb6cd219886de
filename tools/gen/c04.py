# writes /verif/contracts/zz_vc_c04.go
import os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','..','contracts')
K=[('I','int'),('I8','int8'),('I16','int16'),('I32','int32'),('I64','int64'),('U','uint'),('U8','uint8'),('U16','uint16'),('U32','uint32'),('U64','uint64'),('F','float64'),('F32','float32'),('S','string'),('B','bool'),
   ('PI','*int'),('PF','*float64'),('PS','*string'),('PB','*bool'),('St','vcPair'),('PSt','*vcPair'),('L','[]int'),('LS','[]string'),('M','map[string]int'),('Any','interface{}')]
def same(n,t,a,b):
    if t in('float64','float32'): return 'vspec.SameFloat(float64(%s), float64(%s))'%(a,b)
    if t=='vcPair': return 'vcSamePair(%s, %s)'%(a,b)
    if t.startswith('[]'): return 'vcSameHead(unsafe.Pointer(&%s), unsafe.Pointer(&%s))'%(a,b)
    if t.startswith('map'): return '*(*unsafe.Pointer)(unsafe.Pointer(&%s)) == *(*unsafe.Pointer)(unsafe.Pointer(&%s))'%(a,b)
    return '%s == %s'%(a,b)
s='''package velty

import (
	"unsafe"

	"github.com/viant/velty/internal/vspec"
)

type vcPair struct {
	X int
	Y string
	Z bool
}

func vcSamePair(a, b vcPair) bool { return vspec.And(a.X == b.X, vspec.And(a.Y == b.Y, a.Z == b.Z)) }

type vcHead struct {
	p    unsafe.Pointer
	n, c int
}

func vcSameHead(a, b unsafe.Pointer) bool {
	x, y := (*vcHead)(a), (*vcHead)(b)
	return vspec.And(x.p == y.p, vspec.And(x.n == y.n, x.c == y.c))
}

// vcAll has a field of every kind
type vcAll struct {
%s}

func vcMakeAll() (a vcAll) {
	var i int
	var f float64
	var s string
	var b bool
	vspec.Fill(&i)
	vspec.Fill(&f)
	vspec.Fill(&s)
	vspec.Fill(&b)
'''%''.join('\t%s %s\n'%x for x in K)
for n,t in K:
    if t=='vcPair':
        s+='\tvspec.Fill(&a.%s.X)\n\tvspec.Fill(&a.%s.Y)\n\tvspec.Fill(&a.%s.Z)\n'%(n,n,n)
    elif t=='*vcPair': s+='\ta.%s = &vcPair{X: i, Y: s, Z: b}\n'%n
    elif t[0]=='*': s+='\ta.%s = &%s\n'%(n,t[1])
    elif t.startswith('map'): s+='\ta.%s = map[string]int{"k": i}\n'%n
    elif t=='interface{}': s+='\ta.%s = i\n'%n
    elif t=='[]string': s+='\ta.%s = []string{s, "x", s}\n'%n
    else: s+='\tvspec.Fill(&a.%s)\n'%n
s+='''	return a
}

type vcHold struct {
	Pad int8
	A   vcAll
	P   *vcAll
	End int8
}

// vcSameAll compares all fields but one
func vcSameAll(a, b *vcAll, but string) bool {
	ok := true
'''
for n,t in K:
    s+='\tif but != "%s" {\n\t\tok = vspec.And(ok, %s)\n\t}\n'%(n,same(n,t,'a.'+n,'b.'+n))
s+='''	return ok
}

// vcPlace is a target or a source: a variable, a field of a struct variable, and fields behind pointers
type vcPlace struct {
	text string
	at   func(e *vcSetEnv) *vcAll // nil for the variables
}

var vcPlaces = []vcPlace{
	{"$?", nil},
	{"$h.A.", func(e *vcSetEnv) *vcAll { return &(*vcHold)(e.r.addr("h")).A }},
	{"$h.P.", func(e *vcSetEnv) *vcAll { return (*vcHold)(e.r.addr("h")).P }},
	{"$p.A.", func(e *vcSetEnv) *vcAll { return &(*(**vcHold)(e.r.addr("p"))).A }},
	{"$p.P.", func(e *vcSetEnv) *vcAll { return (*(**vcHold)(e.r.addr("p"))).P }},
}

type vcSetEnv struct {
	r      *vcRun
	hA, hP vcAll // what the fields hold in the beginning
	pA, pP vcAll
	hp, pp *vcAll
	hold   *vcHold
	s, d   vcAll // what the variables hold
	n0, n1 int8
}

// vcNewSet compiles #set(target = expression) with all the variables
func vcNewSet(tmpl string, s, d interface{}, sv, dv vcAll) *vcSetEnv {
	e := &vcSetEnv{hA: vcMakeAll(), hP: vcMakeAll(), pA: vcMakeAll(), pP: vcMakeAll(), s: sv, d: dv}
	vspec.Fill(&e.n0)
	vspec.Fill(&e.n1)
	hp, pp := e.hP, e.pP
	e.hp, e.pp = &hp, &pp
	e.hold = &vcHold{Pad: e.n0, A: e.pA, P: e.pp, End: e.n1}
	e.r = vcNew(tmpl, vcVar{"n0", e.n0}, vcVar{"d", d}, vcVar{"n1", e.n1}, vcVar{"s", s}, vcVar{"h", vcHold{Pad: e.n0, A: e.hA, P: e.hp, End: e.n1}}, vcVar{"p", e.hold})
	return e
}

// frame checks that nothing but the target (field name of the place) changed
func (e *vcSetEnv) frame(place int, name string) {
	but := func(k int) string {
		if k == place {
			return name
		}
		return ""
	}
	h := (*vcHold)(e.r.addr("h"))
	p := *(**vcHold)(e.r.addr("p"))
	vspec.Assert(vspec.And(*(*int8)(e.r.addr("n0")) == e.n0, *(*int8)(e.r.addr("n1")) == e.n1), "variables next to the target keep their values")
	vspec.Assert(vspec.And(p == e.hold, vspec.And(h.P == e.hp, p.P == e.pp)), "pointers on the way keep their values")
	vspec.Assert(vspec.And(vspec.And(h.Pad == e.n0, h.End == e.n1), vspec.And(p.Pad == e.n0, p.End == e.n1)), "other fields keep their values")
	vspec.Assert(vcSameAll(&h.A, &e.hA, but(1)), "other fields keep their values")
	vspec.Assert(vcSameAll(h.P, &e.hP, but(2)), "other fields keep their values")
	vspec.Assert(vcSameAll(&p.A, &e.pA, but(3)), "other fields keep their values")
	vspec.Assert(vcSameAll(p.P, &e.pP, but(4)), "other fields keep their values")
}

'''
for n,t in K:
    both = n=='Any'
    s+='''func VC_C04_%(n)s() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(%(k)d), vspec.Pick(%(k)d)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "%(n)s"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", %(vs)s, %(vd)s, sv, dv)
	src := sv.%(n)s
	if from > 0 {
		src = vcPlaces[from].at(e).%(n)s
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*%(t)s)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).%(n)s
			d := *(*%(t)s)(e.r.addr("d"))
			vspec.Assert(%(sd)s, "other variables keep their values")
		}
		vspec.Assert(%(sg)s, "the target holds the value")
		s := *(*%(t)s)(e.r.addr("s"))
		vspec.Assert(%(ss)s, "other variables keep their values")
		e.frame(to, "%(n)s")
	}
}

'''%dict(n=n,t=t,k=1 if both else 5,vs="vcIface{sv.Any}" if both else "sv."+n,vd="vcIface{dv.Any}" if both else "dv."+n,sd=same(n,t,'d','dv.'+n),sg=same(n,t,'got','src'),ss=same(n,t,'s','sv.'+n))
s+='''// VC_C04_Fresh: a variable that is not defined takes the type and the value
func VC_C04_Fresh() {
	sv, dv := vcMakeAll(), vcMakeAll()
	from := vspec.Pick(5)
	pre := "$s."
	if from > 0 {
		pre = vcPlaces[from].text
	}
	e := vcNewSet("", sv, dv, sv, dv)
	src := sv
	if from > 0 {
		src = *vcPlaces[from].at(e)
	}
	switch vspec.Pick(%d) {
'''%(len(K)-1)
for i,(n,t) in enumerate(K[:-1]):
    s+='''	case %(i)d:
		e = vcFresh(e, pre+"%(n)s", sv, dv)
		got := *(*%(t)s)(e.r.addr("fresh"))
		vspec.Assert(%(sg)s, "the new variable holds the value (%(t)s)")
'''%dict(i=i,n=n,t=t,sg=same(n,t,'got','src.'+n))
s+='''	}
	e.frame(0, "")
	s, d := (*vcAll)(e.r.addr("s")), (*vcAll)(e.r.addr("d"))
	vspec.Assert(vspec.And(vcSameAll(s, &sv, ""), vcSameAll(d, &dv, "")), "other variables keep their values")
}

func vcFresh(e *vcSetEnv, text string, sv, dv vcAll) *vcSetEnv {
	e.r = vcNew("#set($fresh = "+text+")", vcVar{"n0", e.n0}, vcVar{"d", dv}, vcVar{"n1", e.n1}, vcVar{"s", sv}, vcVar{"h", vcHold{Pad: e.n0, A: e.hA, P: e.hp, End: e.n1}}, vcVar{"p", e.hold})
	e.r.run()
	return e
}

type vcConv struct {
	field, expr string
	check       func(t *vcAll, s *vcAll) bool
}

// VC_C04_Converted: expressions and literals, converted to the type of the target
func VC_C04_Converted() {
	sv, dv := vcMakeAll(), vcMakeAll()
	cases := []vcConv{
		{"F", "$s.I", func(t, s *vcAll) bool { return vspec.SameFloat(t.F, float64(s.I)) }},
		{"F", "3", func(t, s *vcAll) bool { return t.F == 3 }},
		{"F", "2.5", func(t, s *vcAll) bool { return t.F == 2.5 }},
		{"F", "$s.I + $h.P.I", func(t, s *vcAll) bool { return vspec.SameFloat(t.F, float64(s.I+s.I)) }},
		{"F", "$s.F * 2.0", func(t, s *vcAll) bool { return vspec.SameFloat(t.F, s.F*2) }},
		{"I", "$s.I - 1", func(t, s *vcAll) bool { return t.I == s.I-1 }},
		{"I", "12345678901", func(t, s *vcAll) bool { return t.I == 12345678901 }},
		{"I", "7", func(t, s *vcAll) bool { return t.I == 7 }},
		{"S", `"lit"`, func(t, s *vcAll) bool { return t.S == "lit" }},
		{"S", `$s.S + "x"`, func(t, s *vcAll) bool { return t.S == s.S+"x" }},
		{"B", "$s.I == $h.P.I", func(t, s *vcAll) bool { return t.B }},
		{"B", "!$s.B", func(t, s *vcAll) bool { return t.B == !s.B }},
		{"B", "true", func(t, s *vcAll) bool { return t.B }},
	}
	c := cases[vspec.Pick(len(cases))]
	to := 1 + vspec.Pick(4)
	e := vcNewSet("#set("+vcPlaces[to].text+c.field+" = "+c.expr+")", sv, dv, sv, dv)
	e.hp.I, e.hP.I = sv.I, sv.I
	for i := 0; i < 2; i++ { // literals keep their values
		e.r.run()
		vspec.Assert(c.check(vcPlaces[to].at(e), &sv), c.field+" = "+c.expr)
		e.frame(to, c.field)
		s, d := (*vcAll)(e.r.addr("s")), (*vcAll)(e.r.addr("d"))
		vspec.Assert(vspec.And(vcSameAll(s, &sv, ""), vcSameAll(d, &dv, "")), "other variables keep their values")
	}
}

// VC_C04_NilTarget: assigning through a nil pointer changes nothing that any expression can see
func VC_C04_NilTarget() {
	fields := []string{%(fs)s}
	f := fields[vspec.Pick(len(fields))]
	sv := vcMakeAll()
	var z, kept, again vcAll
	tmpl := "#set($x." + f + " = $np.P." + f + ")#set($np.P." + f + " = $s." + f + ")#set($y." + f + " = $np.P." + f + ")#set($z." + f + " = $nq.A." + f + ")"
	other := vcNew("#set($y."+f+" = $np.P."+f+")", vcVar{"y", &kept}, vcVar{"np", vcHold{}})
	r := vcNew(tmpl, vcVar{"x", &again}, vcVar{"y", &kept}, vcVar{"z", &again}, vcVar{"np", vcHold{}}, vcVar{"nq", (*vcHold)(nil)}, vcVar{"s", sv})
	for i := 0; i < 2; i++ {
		r.run()
		vspec.Assert(vcSameAll(&kept, &z, ""), "the selector is still its zero value")
		vspec.Assert(vcSameAll(&again, &z, ""), "the selector is still its zero value")
		vspec.Assert(vcSameAll((*vcAll)(r.addr("s")), &sv, ""), "other variables keep their values")
		np := (*vcHold)(r.addr("np"))
		vspec.Assert(np.P == nil, "the pointer is still nil")
		vspec.Assert(vcSameAll(&np.A, &z, ""), "other fields keep their values")
		other.run()
		vspec.Assert(vcSameAll(&kept, &z, ""), "other templates see the zero value")
	}
}
'''%dict(fs=', '.join('"%s"'%n for n,t in K if n not in('Any','M')))
open(R+'/zz_vc_c04.go','w').write(s)
os.system('/opt/veriftools/go1.27.3/bin/gofmt -w %s/zz_vc_c04.go'%R)
