package velty

import (
	"unsafe"

	"github.com/viant/velty/internal/vspec"
)

type vcPair struct {
	X int
	Y string
	Z bool
}

func vcSamePair(a, b vcPair) bool { return vspec.And(a.X == b.X, vspec.And(a.Y == b.Y, a.Z == b.Z)) }

type vcHead struct {
	p    unsafe.Pointer
	n, c int
}

func vcSameHead(a, b unsafe.Pointer) bool {
	x, y := (*vcHead)(a), (*vcHead)(b)
	return vspec.And(x.p == y.p, vspec.And(x.n == y.n, x.c == y.c))
}

// vcAll has a field of every kind
type vcAll struct {
	I   int
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U   uint
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64
	F   float64
	F32 float32
	S   string
	B   bool
	PI  *int
	PF  *float64
	PS  *string
	PB  *bool
	St  vcPair
	PSt *vcPair
	L   []int
	LS  []string
	M   map[string]int
	Any interface{}
}

func vcMakeAll() (a vcAll) {
	var i int
	var f float64
	var s string
	var b bool
	vspec.Fill(&i)
	vspec.Fill(&f)
	vspec.Fill(&s)
	vspec.Fill(&b)
	vspec.Fill(&a.I)
	vspec.Fill(&a.I8)
	vspec.Fill(&a.I16)
	vspec.Fill(&a.I32)
	vspec.Fill(&a.I64)
	vspec.Fill(&a.U)
	vspec.Fill(&a.U8)
	vspec.Fill(&a.U16)
	vspec.Fill(&a.U32)
	vspec.Fill(&a.U64)
	vspec.Fill(&a.F)
	vspec.Fill(&a.F32)
	vspec.Fill(&a.S)
	vspec.Fill(&a.B)
	a.PI = &i
	a.PF = &f
	a.PS = &s
	a.PB = &b
	vspec.Fill(&a.St.X)
	vspec.Fill(&a.St.Y)
	vspec.Fill(&a.St.Z)
	a.PSt = &vcPair{X: i, Y: s, Z: b}
	vspec.Fill(&a.L)
	a.LS = []string{s, "x", s}
	a.M = map[string]int{"k": i}
	a.Any = i
	return a
}

type vcHold struct {
	Pad int8
	A   vcAll
	P   *vcAll
	End int8
}

// vcSameAll compares all fields but one
func vcSameAll(a, b *vcAll, but string) bool {
	ok := true
	if but != "I" {
		ok = vspec.And(ok, a.I == b.I)
	}
	if but != "I8" {
		ok = vspec.And(ok, a.I8 == b.I8)
	}
	if but != "I16" {
		ok = vspec.And(ok, a.I16 == b.I16)
	}
	if but != "I32" {
		ok = vspec.And(ok, a.I32 == b.I32)
	}
	if but != "I64" {
		ok = vspec.And(ok, a.I64 == b.I64)
	}
	if but != "U" {
		ok = vspec.And(ok, a.U == b.U)
	}
	if but != "U8" {
		ok = vspec.And(ok, a.U8 == b.U8)
	}
	if but != "U16" {
		ok = vspec.And(ok, a.U16 == b.U16)
	}
	if but != "U32" {
		ok = vspec.And(ok, a.U32 == b.U32)
	}
	if but != "U64" {
		ok = vspec.And(ok, a.U64 == b.U64)
	}
	if but != "F" {
		ok = vspec.And(ok, vspec.SameFloat(float64(a.F), float64(b.F)))
	}
	if but != "F32" {
		ok = vspec.And(ok, vspec.SameFloat(float64(a.F32), float64(b.F32)))
	}
	if but != "S" {
		ok = vspec.And(ok, a.S == b.S)
	}
	if but != "B" {
		ok = vspec.And(ok, a.B == b.B)
	}
	if but != "PI" {
		ok = vspec.And(ok, a.PI == b.PI)
	}
	if but != "PF" {
		ok = vspec.And(ok, a.PF == b.PF)
	}
	if but != "PS" {
		ok = vspec.And(ok, a.PS == b.PS)
	}
	if but != "PB" {
		ok = vspec.And(ok, a.PB == b.PB)
	}
	if but != "St" {
		ok = vspec.And(ok, vcSamePair(a.St, b.St))
	}
	if but != "PSt" {
		ok = vspec.And(ok, a.PSt == b.PSt)
	}
	if but != "L" {
		ok = vspec.And(ok, vcSameHead(unsafe.Pointer(&a.L), unsafe.Pointer(&b.L)))
	}
	if but != "LS" {
		ok = vspec.And(ok, vcSameHead(unsafe.Pointer(&a.LS), unsafe.Pointer(&b.LS)))
	}
	if but != "M" {
		ok = vspec.And(ok, *(*unsafe.Pointer)(unsafe.Pointer(&a.M)) == *(*unsafe.Pointer)(unsafe.Pointer(&b.M)))
	}
	if but != "Any" {
		ok = vspec.And(ok, a.Any == b.Any)
	}
	return ok
}

// vcPlace is a target or a source: a variable, a field of a struct variable, and fields behind pointers
type vcPlace struct {
	text string
	at   func(e *vcSetEnv) *vcAll // nil for the variables
}

var vcPlaces = []vcPlace{
	{"$?", nil},
	{"$h.A.", func(e *vcSetEnv) *vcAll { return &(*vcHold)(e.r.addr("h")).A }},
	{"$h.P.", func(e *vcSetEnv) *vcAll { return (*vcHold)(e.r.addr("h")).P }},
	{"$p.A.", func(e *vcSetEnv) *vcAll { return &(*(**vcHold)(e.r.addr("p"))).A }},
	{"$p.P.", func(e *vcSetEnv) *vcAll { return (*(**vcHold)(e.r.addr("p"))).P }},
}

type vcSetEnv struct {
	r      *vcRun
	hA, hP vcAll // what the fields hold in the beginning
	pA, pP vcAll
	hp, pp *vcAll
	hold   *vcHold
	s, d   vcAll // what the variables hold
	n0, n1 int8
}

// vcNewSet compiles #set(target = expression) with all the variables
func vcNewSet(tmpl string, s, d interface{}, sv, dv vcAll) *vcSetEnv {
	e := &vcSetEnv{hA: vcMakeAll(), hP: vcMakeAll(), pA: vcMakeAll(), pP: vcMakeAll(), s: sv, d: dv}
	vspec.Fill(&e.n0)
	vspec.Fill(&e.n1)
	hp, pp := e.hP, e.pP
	e.hp, e.pp = &hp, &pp
	e.hold = &vcHold{Pad: e.n0, A: e.pA, P: e.pp, End: e.n1}
	e.r = vcNew(tmpl, vcVar{"n0", e.n0}, vcVar{"d", d}, vcVar{"n1", e.n1}, vcVar{"s", s}, vcVar{"h", vcHold{Pad: e.n0, A: e.hA, P: e.hp, End: e.n1}}, vcVar{"p", e.hold})
	return e
}

// frame checks that nothing but the target (field name of the place) changed
func (e *vcSetEnv) frame(place int, name string) {
	but := func(k int) string {
		if k == place {
			return name
		}
		return ""
	}
	h := (*vcHold)(e.r.addr("h"))
	p := *(**vcHold)(e.r.addr("p"))
	vspec.Assert(vspec.And(*(*int8)(e.r.addr("n0")) == e.n0, *(*int8)(e.r.addr("n1")) == e.n1), "variables next to the target keep their values")
	vspec.Assert(vspec.And(p == e.hold, vspec.And(h.P == e.hp, p.P == e.pp)), "pointers on the way keep their values")
	vspec.Assert(vspec.And(vspec.And(h.Pad == e.n0, h.End == e.n1), vspec.And(p.Pad == e.n0, p.End == e.n1)), "other fields keep their values")
	vspec.Assert(vcSameAll(&h.A, &e.hA, but(1)), "other fields keep their values")
	vspec.Assert(vcSameAll(h.P, &e.hP, but(2)), "other fields keep their values")
	vspec.Assert(vcSameAll(&p.A, &e.pA, but(3)), "other fields keep their values")
	vspec.Assert(vcSameAll(p.P, &e.pP, but(4)), "other fields keep their values")
}

func VC_C04_I() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "I"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.I, dv.I, sv, dv)
	src := sv.I
	if from > 0 {
		src = vcPlaces[from].at(e).I
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*int)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).I
			d := *(*int)(e.r.addr("d"))
			vspec.Assert(d == dv.I, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(*int)(e.r.addr("s"))
		vspec.Assert(s == sv.I, "other variables keep their values")
		e.frame(to, "I")
	}
}

func VC_C04_I8() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "I8"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.I8, dv.I8, sv, dv)
	src := sv.I8
	if from > 0 {
		src = vcPlaces[from].at(e).I8
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*int8)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).I8
			d := *(*int8)(e.r.addr("d"))
			vspec.Assert(d == dv.I8, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(*int8)(e.r.addr("s"))
		vspec.Assert(s == sv.I8, "other variables keep their values")
		e.frame(to, "I8")
	}
}

func VC_C04_I16() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "I16"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.I16, dv.I16, sv, dv)
	src := sv.I16
	if from > 0 {
		src = vcPlaces[from].at(e).I16
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*int16)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).I16
			d := *(*int16)(e.r.addr("d"))
			vspec.Assert(d == dv.I16, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(*int16)(e.r.addr("s"))
		vspec.Assert(s == sv.I16, "other variables keep their values")
		e.frame(to, "I16")
	}
}

func VC_C04_I32() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "I32"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.I32, dv.I32, sv, dv)
	src := sv.I32
	if from > 0 {
		src = vcPlaces[from].at(e).I32
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*int32)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).I32
			d := *(*int32)(e.r.addr("d"))
			vspec.Assert(d == dv.I32, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(*int32)(e.r.addr("s"))
		vspec.Assert(s == sv.I32, "other variables keep their values")
		e.frame(to, "I32")
	}
}

func VC_C04_I64() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "I64"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.I64, dv.I64, sv, dv)
	src := sv.I64
	if from > 0 {
		src = vcPlaces[from].at(e).I64
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*int64)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).I64
			d := *(*int64)(e.r.addr("d"))
			vspec.Assert(d == dv.I64, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(*int64)(e.r.addr("s"))
		vspec.Assert(s == sv.I64, "other variables keep their values")
		e.frame(to, "I64")
	}
}

func VC_C04_U() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "U"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.U, dv.U, sv, dv)
	src := sv.U
	if from > 0 {
		src = vcPlaces[from].at(e).U
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*uint)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).U
			d := *(*uint)(e.r.addr("d"))
			vspec.Assert(d == dv.U, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(*uint)(e.r.addr("s"))
		vspec.Assert(s == sv.U, "other variables keep their values")
		e.frame(to, "U")
	}
}

func VC_C04_U8() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "U8"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.U8, dv.U8, sv, dv)
	src := sv.U8
	if from > 0 {
		src = vcPlaces[from].at(e).U8
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*uint8)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).U8
			d := *(*uint8)(e.r.addr("d"))
			vspec.Assert(d == dv.U8, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(*uint8)(e.r.addr("s"))
		vspec.Assert(s == sv.U8, "other variables keep their values")
		e.frame(to, "U8")
	}
}

func VC_C04_U16() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "U16"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.U16, dv.U16, sv, dv)
	src := sv.U16
	if from > 0 {
		src = vcPlaces[from].at(e).U16
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*uint16)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).U16
			d := *(*uint16)(e.r.addr("d"))
			vspec.Assert(d == dv.U16, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(*uint16)(e.r.addr("s"))
		vspec.Assert(s == sv.U16, "other variables keep their values")
		e.frame(to, "U16")
	}
}

func VC_C04_U32() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "U32"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.U32, dv.U32, sv, dv)
	src := sv.U32
	if from > 0 {
		src = vcPlaces[from].at(e).U32
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*uint32)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).U32
			d := *(*uint32)(e.r.addr("d"))
			vspec.Assert(d == dv.U32, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(*uint32)(e.r.addr("s"))
		vspec.Assert(s == sv.U32, "other variables keep their values")
		e.frame(to, "U32")
	}
}

func VC_C04_U64() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "U64"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.U64, dv.U64, sv, dv)
	src := sv.U64
	if from > 0 {
		src = vcPlaces[from].at(e).U64
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*uint64)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).U64
			d := *(*uint64)(e.r.addr("d"))
			vspec.Assert(d == dv.U64, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(*uint64)(e.r.addr("s"))
		vspec.Assert(s == sv.U64, "other variables keep their values")
		e.frame(to, "U64")
	}
}

func VC_C04_F() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "F"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.F, dv.F, sv, dv)
	src := sv.F
	if from > 0 {
		src = vcPlaces[from].at(e).F
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*float64)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).F
			d := *(*float64)(e.r.addr("d"))
			vspec.Assert(vspec.SameFloat(float64(d), float64(dv.F)), "other variables keep their values")
		}
		vspec.Assert(vspec.SameFloat(float64(got), float64(src)), "the target holds the value")
		s := *(*float64)(e.r.addr("s"))
		vspec.Assert(vspec.SameFloat(float64(s), float64(sv.F)), "other variables keep their values")
		e.frame(to, "F")
	}
}

func VC_C04_F32() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "F32"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.F32, dv.F32, sv, dv)
	src := sv.F32
	if from > 0 {
		src = vcPlaces[from].at(e).F32
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*float32)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).F32
			d := *(*float32)(e.r.addr("d"))
			vspec.Assert(vspec.SameFloat(float64(d), float64(dv.F32)), "other variables keep their values")
		}
		vspec.Assert(vspec.SameFloat(float64(got), float64(src)), "the target holds the value")
		s := *(*float32)(e.r.addr("s"))
		vspec.Assert(vspec.SameFloat(float64(s), float64(sv.F32)), "other variables keep their values")
		e.frame(to, "F32")
	}
}

func VC_C04_S() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "S"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.S, dv.S, sv, dv)
	src := sv.S
	if from > 0 {
		src = vcPlaces[from].at(e).S
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*string)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).S
			d := *(*string)(e.r.addr("d"))
			vspec.Assert(d == dv.S, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(*string)(e.r.addr("s"))
		vspec.Assert(s == sv.S, "other variables keep their values")
		e.frame(to, "S")
	}
}

func VC_C04_B() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "B"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.B, dv.B, sv, dv)
	src := sv.B
	if from > 0 {
		src = vcPlaces[from].at(e).B
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*bool)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).B
			d := *(*bool)(e.r.addr("d"))
			vspec.Assert(d == dv.B, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(*bool)(e.r.addr("s"))
		vspec.Assert(s == sv.B, "other variables keep their values")
		e.frame(to, "B")
	}
}

func VC_C04_PI() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "PI"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.PI, dv.PI, sv, dv)
	src := sv.PI
	if from > 0 {
		src = vcPlaces[from].at(e).PI
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(**int)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).PI
			d := *(**int)(e.r.addr("d"))
			vspec.Assert(d == dv.PI, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(**int)(e.r.addr("s"))
		vspec.Assert(s == sv.PI, "other variables keep their values")
		e.frame(to, "PI")
	}
}

func VC_C04_PF() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "PF"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.PF, dv.PF, sv, dv)
	src := sv.PF
	if from > 0 {
		src = vcPlaces[from].at(e).PF
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(**float64)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).PF
			d := *(**float64)(e.r.addr("d"))
			vspec.Assert(d == dv.PF, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(**float64)(e.r.addr("s"))
		vspec.Assert(s == sv.PF, "other variables keep their values")
		e.frame(to, "PF")
	}
}

func VC_C04_PS() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "PS"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.PS, dv.PS, sv, dv)
	src := sv.PS
	if from > 0 {
		src = vcPlaces[from].at(e).PS
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(**string)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).PS
			d := *(**string)(e.r.addr("d"))
			vspec.Assert(d == dv.PS, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(**string)(e.r.addr("s"))
		vspec.Assert(s == sv.PS, "other variables keep their values")
		e.frame(to, "PS")
	}
}

func VC_C04_PB() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "PB"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.PB, dv.PB, sv, dv)
	src := sv.PB
	if from > 0 {
		src = vcPlaces[from].at(e).PB
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(**bool)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).PB
			d := *(**bool)(e.r.addr("d"))
			vspec.Assert(d == dv.PB, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(**bool)(e.r.addr("s"))
		vspec.Assert(s == sv.PB, "other variables keep their values")
		e.frame(to, "PB")
	}
}

func VC_C04_St() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "St"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.St, dv.St, sv, dv)
	src := sv.St
	if from > 0 {
		src = vcPlaces[from].at(e).St
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*vcPair)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).St
			d := *(*vcPair)(e.r.addr("d"))
			vspec.Assert(vcSamePair(d, dv.St), "other variables keep their values")
		}
		vspec.Assert(vcSamePair(got, src), "the target holds the value")
		s := *(*vcPair)(e.r.addr("s"))
		vspec.Assert(vcSamePair(s, sv.St), "other variables keep their values")
		e.frame(to, "St")
	}
}

func VC_C04_PSt() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "PSt"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.PSt, dv.PSt, sv, dv)
	src := sv.PSt
	if from > 0 {
		src = vcPlaces[from].at(e).PSt
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(**vcPair)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).PSt
			d := *(**vcPair)(e.r.addr("d"))
			vspec.Assert(d == dv.PSt, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(**vcPair)(e.r.addr("s"))
		vspec.Assert(s == sv.PSt, "other variables keep their values")
		e.frame(to, "PSt")
	}
}

func VC_C04_L() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "L"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.L, dv.L, sv, dv)
	src := sv.L
	if from > 0 {
		src = vcPlaces[from].at(e).L
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*[]int)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).L
			d := *(*[]int)(e.r.addr("d"))
			vspec.Assert(vcSameHead(unsafe.Pointer(&d), unsafe.Pointer(&dv.L)), "other variables keep their values")
		}
		vspec.Assert(vcSameHead(unsafe.Pointer(&got), unsafe.Pointer(&src)), "the target holds the value")
		s := *(*[]int)(e.r.addr("s"))
		vspec.Assert(vcSameHead(unsafe.Pointer(&s), unsafe.Pointer(&sv.L)), "other variables keep their values")
		e.frame(to, "L")
	}
}

func VC_C04_LS() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "LS"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.LS, dv.LS, sv, dv)
	src := sv.LS
	if from > 0 {
		src = vcPlaces[from].at(e).LS
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*[]string)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).LS
			d := *(*[]string)(e.r.addr("d"))
			vspec.Assert(vcSameHead(unsafe.Pointer(&d), unsafe.Pointer(&dv.LS)), "other variables keep their values")
		}
		vspec.Assert(vcSameHead(unsafe.Pointer(&got), unsafe.Pointer(&src)), "the target holds the value")
		s := *(*[]string)(e.r.addr("s"))
		vspec.Assert(vcSameHead(unsafe.Pointer(&s), unsafe.Pointer(&sv.LS)), "other variables keep their values")
		e.frame(to, "LS")
	}
}

func VC_C04_M() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(5), vspec.Pick(5)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "M"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", sv.M, dv.M, sv, dv)
	src := sv.M
	if from > 0 {
		src = vcPlaces[from].at(e).M
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*map[string]int)(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).M
			d := *(*map[string]int)(e.r.addr("d"))
			vspec.Assert(*(*unsafe.Pointer)(unsafe.Pointer(&d)) == *(*unsafe.Pointer)(unsafe.Pointer(&dv.M)), "other variables keep their values")
		}
		vspec.Assert(*(*unsafe.Pointer)(unsafe.Pointer(&got)) == *(*unsafe.Pointer)(unsafe.Pointer(&src)), "the target holds the value")
		s := *(*map[string]int)(e.r.addr("s"))
		vspec.Assert(*(*unsafe.Pointer)(unsafe.Pointer(&s)) == *(*unsafe.Pointer)(unsafe.Pointer(&sv.M)), "other variables keep their values")
		e.frame(to, "M")
	}
}

func VC_C04_Any() {
	sv, dv := vcMakeAll(), vcMakeAll()
	to, from := vspec.Pick(1), vspec.Pick(1)
	text := func(k int, v string) string {
		if k == 0 {
			return v
		}
		return vcPlaces[k].text + "Any"
	}
	e := vcNewSet("#set("+text(to, "$d")+" = "+text(from, "$s")+")", vcIface{sv.Any}, vcIface{dv.Any}, sv, dv)
	src := sv.Any
	if from > 0 {
		src = vcPlaces[from].at(e).Any
	}
	for i := 0; i < 2; i++ {
		e.r.run()
		got := *(*interface{})(e.r.addr("d"))
		if to > 0 {
			got = vcPlaces[to].at(e).Any
			d := *(*interface{})(e.r.addr("d"))
			vspec.Assert(d == dv.Any, "other variables keep their values")
		}
		vspec.Assert(got == src, "the target holds the value")
		s := *(*interface{})(e.r.addr("s"))
		vspec.Assert(s == sv.Any, "other variables keep their values")
		e.frame(to, "Any")
	}
}

// VC_C04_Fresh: a variable that is not defined takes the type and the value
func VC_C04_Fresh() {
	sv, dv := vcMakeAll(), vcMakeAll()
	from := vspec.Pick(5)
	pre := "$s."
	if from > 0 {
		pre = vcPlaces[from].text
	}
	e := vcNewSet("", sv, dv, sv, dv)
	src := sv
	if from > 0 {
		src = *vcPlaces[from].at(e)
	}
	switch vspec.Pick(23) {
	case 0:
		e = vcFresh(e, pre+"I", sv, dv)
		got := *(*int)(e.r.addr("fresh"))
		vspec.Assert(got == src.I, "the new variable holds the value (int)")
	case 1:
		e = vcFresh(e, pre+"I8", sv, dv)
		got := *(*int8)(e.r.addr("fresh"))
		vspec.Assert(got == src.I8, "the new variable holds the value (int8)")
	case 2:
		e = vcFresh(e, pre+"I16", sv, dv)
		got := *(*int16)(e.r.addr("fresh"))
		vspec.Assert(got == src.I16, "the new variable holds the value (int16)")
	case 3:
		e = vcFresh(e, pre+"I32", sv, dv)
		got := *(*int32)(e.r.addr("fresh"))
		vspec.Assert(got == src.I32, "the new variable holds the value (int32)")
	case 4:
		e = vcFresh(e, pre+"I64", sv, dv)
		got := *(*int64)(e.r.addr("fresh"))
		vspec.Assert(got == src.I64, "the new variable holds the value (int64)")
	case 5:
		e = vcFresh(e, pre+"U", sv, dv)
		got := *(*uint)(e.r.addr("fresh"))
		vspec.Assert(got == src.U, "the new variable holds the value (uint)")
	case 6:
		e = vcFresh(e, pre+"U8", sv, dv)
		got := *(*uint8)(e.r.addr("fresh"))
		vspec.Assert(got == src.U8, "the new variable holds the value (uint8)")
	case 7:
		e = vcFresh(e, pre+"U16", sv, dv)
		got := *(*uint16)(e.r.addr("fresh"))
		vspec.Assert(got == src.U16, "the new variable holds the value (uint16)")
	case 8:
		e = vcFresh(e, pre+"U32", sv, dv)
		got := *(*uint32)(e.r.addr("fresh"))
		vspec.Assert(got == src.U32, "the new variable holds the value (uint32)")
	case 9:
		e = vcFresh(e, pre+"U64", sv, dv)
		got := *(*uint64)(e.r.addr("fresh"))
		vspec.Assert(got == src.U64, "the new variable holds the value (uint64)")
	case 10:
		e = vcFresh(e, pre+"F", sv, dv)
		got := *(*float64)(e.r.addr("fresh"))
		vspec.Assert(vspec.SameFloat(float64(got), float64(src.F)), "the new variable holds the value (float64)")
	case 11:
		e = vcFresh(e, pre+"F32", sv, dv)
		got := *(*float32)(e.r.addr("fresh"))
		vspec.Assert(vspec.SameFloat(float64(got), float64(src.F32)), "the new variable holds the value (float32)")
	case 12:
		e = vcFresh(e, pre+"S", sv, dv)
		got := *(*string)(e.r.addr("fresh"))
		vspec.Assert(got == src.S, "the new variable holds the value (string)")
	case 13:
		e = vcFresh(e, pre+"B", sv, dv)
		got := *(*bool)(e.r.addr("fresh"))
		vspec.Assert(got == src.B, "the new variable holds the value (bool)")
	case 14:
		e = vcFresh(e, pre+"PI", sv, dv)
		got := *(**int)(e.r.addr("fresh"))
		vspec.Assert(got == src.PI, "the new variable holds the value (*int)")
	case 15:
		e = vcFresh(e, pre+"PF", sv, dv)
		got := *(**float64)(e.r.addr("fresh"))
		vspec.Assert(got == src.PF, "the new variable holds the value (*float64)")
	case 16:
		e = vcFresh(e, pre+"PS", sv, dv)
		got := *(**string)(e.r.addr("fresh"))
		vspec.Assert(got == src.PS, "the new variable holds the value (*string)")
	case 17:
		e = vcFresh(e, pre+"PB", sv, dv)
		got := *(**bool)(e.r.addr("fresh"))
		vspec.Assert(got == src.PB, "the new variable holds the value (*bool)")
	case 18:
		e = vcFresh(e, pre+"St", sv, dv)
		got := *(*vcPair)(e.r.addr("fresh"))
		vspec.Assert(vcSamePair(got, src.St), "the new variable holds the value (vcPair)")
	case 19:
		e = vcFresh(e, pre+"PSt", sv, dv)
		got := *(**vcPair)(e.r.addr("fresh"))
		vspec.Assert(got == src.PSt, "the new variable holds the value (*vcPair)")
	case 20:
		e = vcFresh(e, pre+"L", sv, dv)
		got := *(*[]int)(e.r.addr("fresh"))
		vspec.Assert(vcSameHead(unsafe.Pointer(&got), unsafe.Pointer(&src.L)), "the new variable holds the value ([]int)")
	case 21:
		e = vcFresh(e, pre+"LS", sv, dv)
		got := *(*[]string)(e.r.addr("fresh"))
		vspec.Assert(vcSameHead(unsafe.Pointer(&got), unsafe.Pointer(&src.LS)), "the new variable holds the value ([]string)")
	case 22:
		e = vcFresh(e, pre+"M", sv, dv)
		got := *(*map[string]int)(e.r.addr("fresh"))
		vspec.Assert(*(*unsafe.Pointer)(unsafe.Pointer(&got)) == *(*unsafe.Pointer)(unsafe.Pointer(&src.M)), "the new variable holds the value (map[string]int)")
	}
	e.frame(0, "")
	s, d := (*vcAll)(e.r.addr("s")), (*vcAll)(e.r.addr("d"))
	vspec.Assert(vspec.And(vcSameAll(s, &sv, ""), vcSameAll(d, &dv, "")), "other variables keep their values")
}

func vcFresh(e *vcSetEnv, text string, sv, dv vcAll) *vcSetEnv {
	e.r = vcNew("#set($fresh = "+text+")", vcVar{"n0", e.n0}, vcVar{"d", dv}, vcVar{"n1", e.n1}, vcVar{"s", sv}, vcVar{"h", vcHold{Pad: e.n0, A: e.hA, P: e.hp, End: e.n1}}, vcVar{"p", e.hold})
	e.r.run()
	return e
}

type vcConv struct {
	field, expr string
	check       func(t *vcAll, s *vcAll) bool
}

// VC_C04_Converted: expressions and literals, converted to the type of the target
func VC_C04_Converted() {
	sv, dv := vcMakeAll(), vcMakeAll()
	cases := []vcConv{
		{"F", "$s.I", func(t, s *vcAll) bool { return vspec.SameFloat(t.F, float64(s.I)) }},
		{"F", "3", func(t, s *vcAll) bool { return t.F == 3 }},
		{"F", "2.5", func(t, s *vcAll) bool { return t.F == 2.5 }},
		{"F", "$s.I + $h.P.I", func(t, s *vcAll) bool { return vspec.SameFloat(t.F, float64(s.I+s.I)) }},
		{"F", "$s.F * 2.0", func(t, s *vcAll) bool { return vspec.SameFloat(t.F, s.F*2) }},
		{"I", "$s.I - 1", func(t, s *vcAll) bool { return t.I == s.I-1 }},
		{"I", "12345678901", func(t, s *vcAll) bool { return t.I == 12345678901 }},
		{"I", "7", func(t, s *vcAll) bool { return t.I == 7 }},
		{"S", `"lit"`, func(t, s *vcAll) bool { return t.S == "lit" }},
		{"S", `$s.S + "x"`, func(t, s *vcAll) bool { return t.S == s.S+"x" }},
		{"B", "$s.I == $h.P.I", func(t, s *vcAll) bool { return t.B }},
		{"B", "!$s.B", func(t, s *vcAll) bool { return t.B == !s.B }},
		{"B", "true", func(t, s *vcAll) bool { return t.B }},
	}
	c := cases[vspec.Pick(len(cases))]
	to := 1 + vspec.Pick(4)
	e := vcNewSet("#set("+vcPlaces[to].text+c.field+" = "+c.expr+")", sv, dv, sv, dv)
	e.hp.I, e.hP.I = sv.I, sv.I
	for i := 0; i < 2; i++ { // literals keep their values
		e.r.run()
		vspec.Assert(c.check(vcPlaces[to].at(e), &sv), c.field+" = "+c.expr)
		e.frame(to, c.field)
		s, d := (*vcAll)(e.r.addr("s")), (*vcAll)(e.r.addr("d"))
		vspec.Assert(vspec.And(vcSameAll(s, &sv, ""), vcSameAll(d, &dv, "")), "other variables keep their values")
	}
}

// VC_C04_NilTarget: assigning through a nil pointer changes nothing that any expression can see
func VC_C04_NilTarget() {
	fields := []string{"I", "I8", "I16", "I32", "I64", "U", "U8", "U16", "U32", "U64", "F", "F32", "S", "B", "PI", "PF", "PS", "PB", "St", "PSt", "L", "LS"}
	f := fields[vspec.Pick(len(fields))]
	sv := vcMakeAll()
	var z, kept, again vcAll
	tmpl := "#set($x." + f + " = $np.P." + f + ")#set($np.P." + f + " = $s." + f + ")#set($y." + f + " = $np.P." + f + ")#set($z." + f + " = $nq.A." + f + ")"
	other := vcNew("#set($y."+f+" = $np.P."+f+")", vcVar{"y", &kept}, vcVar{"np", vcHold{}})
	r := vcNew(tmpl, vcVar{"x", &again}, vcVar{"y", &kept}, vcVar{"z", &again}, vcVar{"np", vcHold{}}, vcVar{"nq", (*vcHold)(nil)}, vcVar{"s", sv})
	for i := 0; i < 2; i++ {
		r.run()
		vspec.Assert(vcSameAll(&kept, &z, ""), "the selector is still its zero value")
		vspec.Assert(vcSameAll(&again, &z, ""), "the selector is still its zero value")
		vspec.Assert(vcSameAll((*vcAll)(r.addr("s")), &sv, ""), "other variables keep their values")
		np := (*vcHold)(r.addr("np"))
		vspec.Assert(np.P == nil, "the pointer is still nil")
		vspec.Assert(vcSameAll(&np.A, &z, ""), "other fields keep their values")
		other.run()
		vspec.Assert(vcSameAll(&kept, &z, ""), "other templates see the zero value")
	}
}
