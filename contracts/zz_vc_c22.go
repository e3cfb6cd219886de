// Code generated by tools/gen/c22.py; DO NOT EDIT.

package velty

import (
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"github.com/viant/velty/internal/vspec"
)

var _ = reflect.TypeOf

type vcOdd22 struct {
	A int8
	B int16
	C int8
}

// vcRejects executes, and says whether that was rejected
func vcRejects(r *vcRun) (rejected bool) {
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		vspec.Pass(x)
		if e, ok := x.(error); ok {
			vspec.Assert(!strings.Contains(e.Error(), "nil pointer"), "a rejection is no wild access")
		}
		rejected = true
	}()
	return r.exec.Exec(r.st) != nil
}

// vcGot22 counts what arrives
type vcGot22 struct {
	n int
	f func(p unsafe.Pointer)
}

func (g *vcGot22) got(p unsafe.Pointer) int {
	vspec.Assert(g.n == 0, "one value arrives")
	g.n++
	g.f(p)
	return 0
}

// vcReach22 is how a value is reached
func vcReach22(k int) string {
	return []string{"$v", "$h.X", "$g.X", "$g.P.X", "$h.P.X", "$g.Get()"}[k]
}

func vcIndexed(r *vcRun, g *vcGot22, in bool) {
	rejected := vcRejects(r)
	if in {
		vspec.Assert(!rejected, "an index in range is not rejected")
		vspec.Assert(g.n == 1, "the element arrives")
	} else {
		vspec.Assert(rejected, "an index out of range is rejected")
		vspec.Assert(g.n == 0, "nothing arrives for an index out of range")
	}
}

// ToInt takes an element
func (g *vcGot22) ToInt(v int) int { return g.got(unsafe.Pointer(&v)) }

type vcHasInt struct {
	Pad int8
	X   []int
	P   *vcHasInt
	End int8
}

func (h *vcHasInt) Get() []int { return h.X }

func vcAtInt(l []int, i int) {
	h := vcHasInt{Pad: -1, X: l, End: -1}
	h.P = &vcHasInt{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*int)(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToInt("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToInt8 takes an element
func (g *vcGot22) ToInt8(v int8) int { return g.got(unsafe.Pointer(&v)) }

type vcHasInt8 struct {
	Pad int8
	X   []int8
	P   *vcHasInt8
	End int8
}

func (h *vcHasInt8) Get() []int8 { return h.X }

func vcAtInt8(l []int8, i int) {
	h := vcHasInt8{Pad: -1, X: l, End: -1}
	h.P = &vcHasInt8{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*int8)(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToInt8("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToInt16 takes an element
func (g *vcGot22) ToInt16(v int16) int { return g.got(unsafe.Pointer(&v)) }

type vcHasInt16 struct {
	Pad int8
	X   []int16
	P   *vcHasInt16
	End int8
}

func (h *vcHasInt16) Get() []int16 { return h.X }

func vcAtInt16(l []int16, i int) {
	h := vcHasInt16{Pad: -1, X: l, End: -1}
	h.P = &vcHasInt16{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*int16)(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToInt16("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToInt32 takes an element
func (g *vcGot22) ToInt32(v int32) int { return g.got(unsafe.Pointer(&v)) }

type vcHasInt32 struct {
	Pad int8
	X   []int32
	P   *vcHasInt32
	End int8
}

func (h *vcHasInt32) Get() []int32 { return h.X }

func vcAtInt32(l []int32, i int) {
	h := vcHasInt32{Pad: -1, X: l, End: -1}
	h.P = &vcHasInt32{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*int32)(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToInt32("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToInt64 takes an element
func (g *vcGot22) ToInt64(v int64) int { return g.got(unsafe.Pointer(&v)) }

type vcHasInt64 struct {
	Pad int8
	X   []int64
	P   *vcHasInt64
	End int8
}

func (h *vcHasInt64) Get() []int64 { return h.X }

func vcAtInt64(l []int64, i int) {
	h := vcHasInt64{Pad: -1, X: l, End: -1}
	h.P = &vcHasInt64{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*int64)(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToInt64("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToUint takes an element
func (g *vcGot22) ToUint(v uint) int { return g.got(unsafe.Pointer(&v)) }

type vcHasUint struct {
	Pad int8
	X   []uint
	P   *vcHasUint
	End int8
}

func (h *vcHasUint) Get() []uint { return h.X }

func vcAtUint(l []uint, i int) {
	h := vcHasUint{Pad: -1, X: l, End: -1}
	h.P = &vcHasUint{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*uint)(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToUint("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToUint8 takes an element
func (g *vcGot22) ToUint8(v uint8) int { return g.got(unsafe.Pointer(&v)) }

type vcHasUint8 struct {
	Pad int8
	X   []uint8
	P   *vcHasUint8
	End int8
}

func (h *vcHasUint8) Get() []uint8 { return h.X }

func vcAtUint8(l []uint8, i int) {
	h := vcHasUint8{Pad: -1, X: l, End: -1}
	h.P = &vcHasUint8{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*uint8)(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToUint8("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToUint16 takes an element
func (g *vcGot22) ToUint16(v uint16) int { return g.got(unsafe.Pointer(&v)) }

type vcHasUint16 struct {
	Pad int8
	X   []uint16
	P   *vcHasUint16
	End int8
}

func (h *vcHasUint16) Get() []uint16 { return h.X }

func vcAtUint16(l []uint16, i int) {
	h := vcHasUint16{Pad: -1, X: l, End: -1}
	h.P = &vcHasUint16{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*uint16)(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToUint16("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToUint32 takes an element
func (g *vcGot22) ToUint32(v uint32) int { return g.got(unsafe.Pointer(&v)) }

type vcHasUint32 struct {
	Pad int8
	X   []uint32
	P   *vcHasUint32
	End int8
}

func (h *vcHasUint32) Get() []uint32 { return h.X }

func vcAtUint32(l []uint32, i int) {
	h := vcHasUint32{Pad: -1, X: l, End: -1}
	h.P = &vcHasUint32{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*uint32)(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToUint32("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToUint64 takes an element
func (g *vcGot22) ToUint64(v uint64) int { return g.got(unsafe.Pointer(&v)) }

type vcHasUint64 struct {
	Pad int8
	X   []uint64
	P   *vcHasUint64
	End int8
}

func (h *vcHasUint64) Get() []uint64 { return h.X }

func vcAtUint64(l []uint64, i int) {
	h := vcHasUint64{Pad: -1, X: l, End: -1}
	h.P = &vcHasUint64{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*uint64)(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToUint64("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToFloat64 takes an element
func (g *vcGot22) ToFloat64(v float64) int { return g.got(unsafe.Pointer(&v)) }

type vcHasFloat64 struct {
	Pad int8
	X   []float64
	P   *vcHasFloat64
	End int8
}

func (h *vcHasFloat64) Get() []float64 { return h.X }

func vcAtFloat64(l []float64, i int) {
	h := vcHasFloat64{Pad: -1, X: l, End: -1}
	h.P = &vcHasFloat64{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*float64)(p), l[i]
		vspec.Assert(vspec.SameFloat(a, b), "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToFloat64("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToFloat32 takes an element
func (g *vcGot22) ToFloat32(v float32) int { return g.got(unsafe.Pointer(&v)) }

type vcHasFloat32 struct {
	Pad int8
	X   []float32
	P   *vcHasFloat32
	End int8
}

func (h *vcHasFloat32) Get() []float32 { return h.X }

func vcAtFloat32(l []float32, i int) {
	h := vcHasFloat32{Pad: -1, X: l, End: -1}
	h.P = &vcHasFloat32{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*float32)(p), l[i]
		vspec.Assert(vspec.Or(a == b, vspec.And(a != a, b != b)), "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToFloat32("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToBool takes an element
func (g *vcGot22) ToBool(v bool) int { return g.got(unsafe.Pointer(&v)) }

type vcHasBool struct {
	Pad int8
	X   []bool
	P   *vcHasBool
	End int8
}

func (h *vcHasBool) Get() []bool { return h.X }

func vcAtBool(l []bool, i int) {
	h := vcHasBool{Pad: -1, X: l, End: -1}
	h.P = &vcHasBool{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*bool)(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToBool("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToString takes an element
func (g *vcGot22) ToString(v string) int { return g.got(unsafe.Pointer(&v)) }

type vcHasString struct {
	Pad int8
	X   []string
	P   *vcHasString
	End int8
}

func (h *vcHasString) Get() []string { return h.X }

func vcAtString(l []string, i int) {
	h := vcHasString{Pad: -1, X: l, End: -1}
	h.P = &vcHasString{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*string)(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToString("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToStruct takes an element
func (g *vcGot22) ToStruct(v vcPair) int { return g.got(unsafe.Pointer(&v)) }

type vcHasStruct struct {
	Pad int8
	X   []vcPair
	P   *vcHasStruct
	End int8
}

func (h *vcHasStruct) Get() []vcPair { return h.X }

func vcAtStruct(l []vcPair, i int) {
	h := vcHasStruct{Pad: -1, X: l, End: -1}
	h.P = &vcHasStruct{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*vcPair)(p), l[i]
		vspec.Assert(vspec.And(a.X == b.X, vspec.And(a.Y == b.Y, a.Z == b.Z)), "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToStruct("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToOdd takes an element
func (g *vcGot22) ToOdd(v vcOdd22) int { return g.got(unsafe.Pointer(&v)) }

type vcHasOdd struct {
	Pad int8
	X   []vcOdd22
	P   *vcHasOdd
	End int8
}

func (h *vcHasOdd) Get() []vcOdd22 { return h.X }

func vcAtOdd(l []vcOdd22, i int) {
	h := vcHasOdd{Pad: -1, X: l, End: -1}
	h.P = &vcHasOdd{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*vcOdd22)(p), l[i]
		vspec.Assert(vspec.And(a.A == b.A, vspec.And(a.B == b.B, a.C == b.C)), "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToOdd("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToPtrInt takes an element
func (g *vcGot22) ToPtrInt(v *int) int { return g.got(unsafe.Pointer(&v)) }

type vcHasPtrInt struct {
	Pad int8
	X   []*int
	P   *vcHasPtrInt
	End int8
}

func (h *vcHasPtrInt) Get() []*int { return h.X }

func vcAtPtrInt(l []*int, i int) {
	h := vcHasPtrInt{Pad: -1, X: l, End: -1}
	h.P = &vcHasPtrInt{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(**int)(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToPtrInt("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToPtrStruct takes an element
func (g *vcGot22) ToPtrStruct(v *vcPair) int { return g.got(unsafe.Pointer(&v)) }

type vcHasPtrStruct struct {
	Pad int8
	X   []*vcPair
	P   *vcHasPtrStruct
	End int8
}

func (h *vcHasPtrStruct) Get() []*vcPair { return h.X }

func vcAtPtrStruct(l []*vcPair, i int) {
	h := vcHasPtrStruct{Pad: -1, X: l, End: -1}
	h.P = &vcHasPtrStruct{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(**vcPair)(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToPtrStruct("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToSlice takes an element
func (g *vcGot22) ToSlice(v []int) int { return g.got(unsafe.Pointer(&v)) }

type vcHasSlice struct {
	Pad int8
	X   [][]int
	P   *vcHasSlice
	End int8
}

func (h *vcHasSlice) Get() [][]int { return h.X }

func vcAtSlice(l [][]int, i int) {
	h := vcHasSlice{Pad: -1, X: l, End: -1}
	h.P = &vcHasSlice{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*[]int)(p), l[i]
		vspec.Assert(vcSameHead(unsafe.Pointer(&a), unsafe.Pointer(&b)), "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToSlice("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToMap takes an element
func (g *vcGot22) ToMap(v map[string]int) int { return g.got(unsafe.Pointer(&v)) }

type vcHasMap struct {
	Pad int8
	X   []map[string]int
	P   *vcHasMap
	End int8
}

func (h *vcHasMap) Get() []map[string]int { return h.X }

func vcAtMap(l []map[string]int, i int) {
	h := vcHasMap{Pad: -1, X: l, End: -1}
	h.P = &vcHasMap{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*map[string]int)(p), l[i]
		vspec.Assert(reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer(), "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToMap("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// ToAny takes an element
func (g *vcGot22) ToAny(v interface{}) int { return g.got(unsafe.Pointer(&v)) }

type vcHasAny struct {
	Pad int8
	X   []interface{}
	P   *vcHasAny
	End int8
}

func (h *vcHasAny) Get() []interface{} { return h.X }

func vcAtAny(l []interface{}, i int) {
	h := vcHasAny{Pad: -1, X: l, End: -1}
	h.P = &vcHasAny{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*interface{})(p), l[i]
		vspec.Assert(a == b, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToAny("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}

// A slice of int of any length, any index.
func VC_C22_AtInt() {
	var l []int
	vspec.Fill(&l)
	vcAtInt(l, vspec.Int())
}

// A slice of int8 of any length, any index.
func VC_C22_AtInt8() {
	var l []int8
	vspec.Fill(&l)
	vcAtInt8(l, vspec.Int())
}

// A slice of int16 of any length, any index.
func VC_C22_AtInt16() {
	var l []int16
	vspec.Fill(&l)
	vcAtInt16(l, vspec.Int())
}

// A slice of int32 of any length, any index.
func VC_C22_AtInt32() {
	var l []int32
	vspec.Fill(&l)
	vcAtInt32(l, vspec.Int())
}

// A slice of int64 of any length, any index.
func VC_C22_AtInt64() {
	var l []int64
	vspec.Fill(&l)
	vcAtInt64(l, vspec.Int())
}

// A slice of uint of any length, any index.
func VC_C22_AtUint() {
	var l []uint
	vspec.Fill(&l)
	vcAtUint(l, vspec.Int())
}

// A slice of uint8 of any length, any index.
func VC_C22_AtUint8() {
	var l []uint8
	vspec.Fill(&l)
	vcAtUint8(l, vspec.Int())
}

// A slice of uint16 of any length, any index.
func VC_C22_AtUint16() {
	var l []uint16
	vspec.Fill(&l)
	vcAtUint16(l, vspec.Int())
}

// A slice of uint32 of any length, any index.
func VC_C22_AtUint32() {
	var l []uint32
	vspec.Fill(&l)
	vcAtUint32(l, vspec.Int())
}

// A slice of uint64 of any length, any index.
func VC_C22_AtUint64() {
	var l []uint64
	vspec.Fill(&l)
	vcAtUint64(l, vspec.Int())
}

// A slice of float64 of any length, any index.
func VC_C22_AtFloat64() {
	var l []float64
	vspec.Fill(&l)
	vcAtFloat64(l, vspec.Int())
}

// A slice of float32 of any length, any index.
func VC_C22_AtFloat32() {
	var l []float32
	vspec.Fill(&l)
	vcAtFloat32(l, vspec.Int())
}

// A slice of bool of any length, any index.
func VC_C22_AtBool() {
	var l []bool
	vspec.Fill(&l)
	vcAtBool(l, vspec.Int())
}

// A slice of string of any length, any index.
func VC_C22_AtString() {
	var l []string
	vspec.Fill(&l)
	vcAtString(l, vspec.Int())
}

// A slice of vcPair of any length, any index.
func VC_C22_AtStruct() {
	var l []vcPair
	vspec.Fill(&l)
	vcAtStruct(l, vspec.Int())
}

// A slice of vcOdd22 of any length, any index.
func VC_C22_AtOdd() {
	var l []vcOdd22
	vspec.Fill(&l)
	vcAtOdd(l, vspec.Int())
}

func vcMake22PtrInt() *int {
	i := vspec.Int()
	return &i
}

// Slices of up to four *int, any index.
func VC_C22_AtPtrInt() {
	var l []*int
	for k := vspec.Pick(5); k > 0; k-- {
		l = append(l, vcMake22PtrInt())
	}
	if n := len(l); n > 1 && vspec.Pick(2) == 0 {
		l[n-2] = nil
	}
	vcAtPtrInt(l, vspec.Int())
}

func vcMake22PtrStruct() *vcPair {
	return &vcPair{X: vspec.Int()}
}

// Slices of up to four *vcPair, any index.
func VC_C22_AtPtrStruct() {
	var l []*vcPair
	for k := vspec.Pick(5); k > 0; k-- {
		l = append(l, vcMake22PtrStruct())
	}
	if n := len(l); n > 1 && vspec.Pick(2) == 0 {
		l[n-2] = nil
	}
	vcAtPtrStruct(l, vspec.Int())
}

func vcMake22Slice() []int {
	var x []int
	vspec.Fill(&x)
	return x
}

// Slices of up to four []int, any index.
func VC_C22_AtSlice() {
	var l [][]int
	for k := vspec.Pick(5); k > 0; k-- {
		l = append(l, vcMake22Slice())
	}
	if n := len(l); n > 1 && vspec.Pick(2) == 0 {
		l[n-2] = nil
	}
	vcAtSlice(l, vspec.Int())
}

func vcMake22Map() map[string]int {
	return map[string]int{"k": vspec.Int()}
}

// Slices of up to four map[string]int, any index.
func VC_C22_AtMap() {
	var l []map[string]int
	for k := vspec.Pick(5); k > 0; k-- {
		l = append(l, vcMake22Map())
	}
	if n := len(l); n > 1 && vspec.Pick(2) == 0 {
		l[n-2] = nil
	}
	vcAtMap(l, vspec.Int())
}

func vcMake22Any() interface{} {
	i := vspec.Int()
	if i > 0 {
		return i
	}
	return &i
}

// Slices of up to four interface{}, any index.
func VC_C22_AtAny() {
	var l []interface{}
	for k := vspec.Pick(5); k > 0; k-- {
		l = append(l, vcMake22Any())
	}
	if n := len(l); n > 1 && vspec.Pick(2) == 0 {
		l[n-2] = nil
	}
	vcAtAny(l, vspec.Int())
}

// Indices of type int in every form.
func VC_C22_ByInt() {
	var l []int
	vspec.Fill(&l)
	var i int
	vspec.Fill(&i)
	vcBy(l, int64(i), false, vcVar{"i", i}, vcVar{"i", &i}, vcVar{"i", struct {
		A int8
		I int
		P *int
	}{1, i, &i}}, vcVar{"i", &struct {
		A int8
		I int
		P *int
	}{1, i, &i}}, vcVar{"i", vcIface{i}}, vcVar{"i", vcIface{&i}}, vcVar{"i", []int{0, i}})
}

// Indices of type int8 in every form.
func VC_C22_ByInt8() {
	var l []int
	vspec.Fill(&l)
	var i int8
	vspec.Fill(&i)
	vcBy(l, int64(i), false, vcVar{"i", i}, vcVar{"i", &i}, vcVar{"i", struct {
		A int8
		I int8
		P *int8
	}{1, i, &i}}, vcVar{"i", &struct {
		A int8
		I int8
		P *int8
	}{1, i, &i}}, vcVar{"i", vcIface{i}}, vcVar{"i", vcIface{&i}}, vcVar{"i", []int8{0, i}})
}

// Indices of type int16 in every form.
func VC_C22_ByInt16() {
	var l []int
	vspec.Fill(&l)
	var i int16
	vspec.Fill(&i)
	vcBy(l, int64(i), false, vcVar{"i", i}, vcVar{"i", &i}, vcVar{"i", struct {
		A int8
		I int16
		P *int16
	}{1, i, &i}}, vcVar{"i", &struct {
		A int8
		I int16
		P *int16
	}{1, i, &i}}, vcVar{"i", vcIface{i}}, vcVar{"i", vcIface{&i}}, vcVar{"i", []int16{0, i}})
}

// Indices of type int32 in every form.
func VC_C22_ByInt32() {
	var l []int
	vspec.Fill(&l)
	var i int32
	vspec.Fill(&i)
	vcBy(l, int64(i), false, vcVar{"i", i}, vcVar{"i", &i}, vcVar{"i", struct {
		A int8
		I int32
		P *int32
	}{1, i, &i}}, vcVar{"i", &struct {
		A int8
		I int32
		P *int32
	}{1, i, &i}}, vcVar{"i", vcIface{i}}, vcVar{"i", vcIface{&i}}, vcVar{"i", []int32{0, i}})
}

// Indices of type int64 in every form.
func VC_C22_ByInt64() {
	var l []int
	vspec.Fill(&l)
	var i int64
	vspec.Fill(&i)
	vcBy(l, int64(i), false, vcVar{"i", i}, vcVar{"i", &i}, vcVar{"i", struct {
		A int8
		I int64
		P *int64
	}{1, i, &i}}, vcVar{"i", &struct {
		A int8
		I int64
		P *int64
	}{1, i, &i}}, vcVar{"i", vcIface{i}}, vcVar{"i", vcIface{&i}}, vcVar{"i", []int64{0, i}})
}

// Indices of type uint in every form.
func VC_C22_ByUint() {
	var l []int
	vspec.Fill(&l)
	var i uint
	vspec.Fill(&i)
	vcBy(l, int64(i), uint64(i) > 1<<63-1, vcVar{"i", i}, vcVar{"i", &i}, vcVar{"i", struct {
		A int8
		I uint
		P *uint
	}{1, i, &i}}, vcVar{"i", &struct {
		A int8
		I uint
		P *uint
	}{1, i, &i}}, vcVar{"i", vcIface{i}}, vcVar{"i", vcIface{&i}}, vcVar{"i", []uint{0, i}})
}

// Indices of type uint8 in every form.
func VC_C22_ByUint8() {
	var l []int
	vspec.Fill(&l)
	var i uint8
	vspec.Fill(&i)
	vcBy(l, int64(i), false, vcVar{"i", i}, vcVar{"i", &i}, vcVar{"i", struct {
		A int8
		I uint8
		P *uint8
	}{1, i, &i}}, vcVar{"i", &struct {
		A int8
		I uint8
		P *uint8
	}{1, i, &i}}, vcVar{"i", vcIface{i}}, vcVar{"i", vcIface{&i}}, vcVar{"i", []uint8{0, i}})
}

// Indices of type uint16 in every form.
func VC_C22_ByUint16() {
	var l []int
	vspec.Fill(&l)
	var i uint16
	vspec.Fill(&i)
	vcBy(l, int64(i), false, vcVar{"i", i}, vcVar{"i", &i}, vcVar{"i", struct {
		A int8
		I uint16
		P *uint16
	}{1, i, &i}}, vcVar{"i", &struct {
		A int8
		I uint16
		P *uint16
	}{1, i, &i}}, vcVar{"i", vcIface{i}}, vcVar{"i", vcIface{&i}}, vcVar{"i", []uint16{0, i}})
}

// Indices of type uint32 in every form.
func VC_C22_ByUint32() {
	var l []int
	vspec.Fill(&l)
	var i uint32
	vspec.Fill(&i)
	vcBy(l, int64(i), false, vcVar{"i", i}, vcVar{"i", &i}, vcVar{"i", struct {
		A int8
		I uint32
		P *uint32
	}{1, i, &i}}, vcVar{"i", &struct {
		A int8
		I uint32
		P *uint32
	}{1, i, &i}}, vcVar{"i", vcIface{i}}, vcVar{"i", vcIface{&i}}, vcVar{"i", []uint32{0, i}})
}

// Indices of type uint64 in every form.
func VC_C22_ByUint64() {
	var l []int
	vspec.Fill(&l)
	var i uint64
	vspec.Fill(&i)
	vcBy(l, int64(i), uint64(i) > 1<<63-1, vcVar{"i", i}, vcVar{"i", &i}, vcVar{"i", struct {
		A int8
		I uint64
		P *uint64
	}{1, i, &i}}, vcVar{"i", &struct {
		A int8
		I uint64
		P *uint64
	}{1, i, &i}}, vcVar{"i", vcIface{i}}, vcVar{"i", vcIface{&i}}, vcVar{"i", []uint64{0, i}})
}

func vcBy(l []int, i int64, huge bool, forms ...vcVar) {
	k := vspec.Pick(10)
	text, v := "", 0
	switch k {
	case 0:
		text, v = "$i", 0
	case 1:
		text, v = "$i", 1
	case 2:
		text, v = "$i.I", 2
	case 3:
		text, v = "$i.P", 2
	case 4:
		text, v = "$i.I", 3
	case 5:
		text, v = "$i.P", 3
	case 6:
		text, v = "$i", 4
	case 7:
		text, v = "$i", 5
	case 8:
		text, v = "$i[1]", 6
	case 9:
		text, v = "${i}", 0
	}
	in := vspec.And(!huge, vspec.And(i >= 0, i < int64(len(l))))
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(in, "only an index in range gives a value")
		vspec.Assert(*(*int)(p) == l[int(i)], "the element at the index arrives")
	}}
	s := "$l"
	if vspec.Pick(2) == 0 {
		s = "$h.X"
	}
	r := vcNew("#set($z = $s.ToInt("+s+"["+text+"]))", vcVar{"l", l}, vcVar{"h", vcHasInt{X: l}}, vcVar{"s", g}, vcVar{"z", 0}, forms[v])
	vcIndexed(r, g, in)
}

// vcIdx computes an index
type vcIdx struct{ v int }

func (x *vcIdx) At() int      { return x.v }
func (x *vcIdx) Id(i int) int { return i }
func (x vcIdx) Val() int      { return x.v }
func (x *vcIdx) Ptr() *int    { return &x.v }

// Computed indices.
func VC_C22_ByExpr() {
	var l []int
	vspec.Fill(&l)
	i, j := vspec.Int(), vspec.Int()
	x := &vcIdx{i}
	at, text := i, ""
	switch vspec.Pick(9) {
	case 0:
		text, at = "$i + $j", i+j
	case 1:
		text, at = "$i - $j", i-j
	case 2:
		text, at = "$i * $j", i*j
	case 3:
		text, at = "$i + 1", i+1
	case 4:
		text, at = "$i + $j * 2", i+j*2
	case 5:
		text = "$x.At()"
	case 6:
		text = "$x.Id($i)"
	case 7:
		text = "$x.Ptr()"
	case 8:
		text, at = "($i - 1) * $j", (i-1)*j
	}
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(at >= 0, at < len(l)), "only an index in range gives a value")
		vspec.Assert(*(*int)(p) == l[at], "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToInt($l["+text+"]))", vcVar{"l", l}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i}, vcVar{"j", j}, vcVar{"x", x})
	vcIndexed(r, g, vspec.And(at >= 0, at < len(l)))
}

// Literal indices.
func VC_C22_ByLiteral() {
	var l []int
	vspec.Fill(&l)
	at := []int{0, 1, 2, 7, 10, 255, 256, 65536, 2147483648, 9223372036854775807}[vspec.Pick(10)]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(at < len(l), "only an index in range gives a value")
		vspec.Assert(*(*int)(p) == l[at], "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToInt($l["+strconv.Itoa(at)+"]))", vcVar{"l", l}, vcVar{"s", g}, vcVar{"z", 0})
	vcIndexed(r, g, at < len(l))
}

type vcRow struct {
	A int8
	N int
	C []vcCell
	M map[string]int
	R []*vcRow
}

type vcCell struct {
	B byte
	V int16
	L []int
}

// Indices and fields in a row.
func VC_C22_Deep() {
	i, j, n := vspec.Int(), vspec.Int(), vspec.Pick(3)
	var c vcCell
	vspec.Fill(&c)
	in := vspec.And(i >= 0, vspec.And(i < n+1, vspec.And(j >= 0, j < len(c.L))))
	var rows []vcRow
	var ptrs []*vcRow
	var grid [][]int
	for k := 0; k < n+1; k++ {
		d := c
		d.V = int16(k)
		row := vcRow{N: k, C: []vcCell{d, d}, M: map[string]int{"k": k}}
		row.R = []*vcRow{{N: 100 + k}, {N: k, C: row.C}}
		rows = append(rows, row)
		p := row
		ptrs = append(ptrs, &p)
		grid = append(grid, c.L)
	}
	text, want := "", func(p unsafe.Pointer) bool { return *(*int)(p) == c.L[j] }
	to := "ToInt"
	switch vspec.Pick(10) {
	case 0:
		text = "$grid[$i][$j]"
	case 1:
		text = "$rows[$i].C[1].L[$j]"
	case 2:
		text = "$ptrs[$i].C[0].L[$j]"
	case 3:
		text = "$ptrs[$i].R[1].C[1].L[$j]"
	case 4:
		text, want = "$rows[$i].N", func(p unsafe.Pointer) bool { return *(*int)(p) == i }
		in = vspec.And(i >= 0, i < n+1)
	case 5:
		text, want = "$ptrs[$i].N", func(p unsafe.Pointer) bool { return *(*int)(p) == i }
		in = vspec.And(i >= 0, i < n+1)
	case 6:
		to = "ToInt16"
		text, want = "$rows[$i].C[$j].V", func(p unsafe.Pointer) bool { return int(*(*int16)(p)) == i }
		in = vspec.And(vspec.And(i >= 0, i < n+1), vspec.And(j >= 0, j < 2))
	case 7:
		text, want = "$rows[$i].M[\"k\"]", func(p unsafe.Pointer) bool { return *(*int)(p) == i }
		in = vspec.And(i >= 0, i < n+1)
	case 8:
		text, want = "$ptrs[$i].R[$j].N", func(p unsafe.Pointer) bool { return *(*int)(p) == vspec.IteInt(j == 0, 100+i, i) }
		in = vspec.And(vspec.And(i >= 0, i < n+1), vspec.And(j >= 0, j < 2))
	case 9:
		text, want = "$rows[$i].R[$j].N", func(p unsafe.Pointer) bool { return *(*int)(p) == vspec.IteInt(j == 0, 100+i, i) }
		in = vspec.And(vspec.And(i >= 0, i < n+1), vspec.And(j >= 0, j < 2))
	}
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(in, "only indices in range give a value")
		vspec.Assert(want(p), "the element at the indices arrives")
	}}
	r := vcNew("#set($z = $s."+to+"("+text+"))", vcVar{"rows", rows}, vcVar{"ptrs", ptrs}, vcVar{"grid", grid}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i}, vcVar{"j", j})
	vcIndexed(r, g, in)
}

// Slices in variables of type interface{}.
func VC_C22_Any() {
	i := vspec.Int()
	n := vspec.Pick(4)
	var v interface{}
	var want []interface{}
	if k := vspec.Pick(3); k == 0 {
		var l []int
		for k := 0; k < n; k++ {
			l = append(l, vspec.Int())
			want = append(want, l[k])
		}
		v = l
	} else if k == 1 {
		var l []string
		for k := 0; k < n; k++ {
			l = append(l, "s"+strconv.Itoa(k))
			want = append(want, l[k])
		}
		v = l
	} else {
		for k := 0; k < n; k++ {
			want = append(want, vspec.Int())
		}
		v = want
	}
	in := vspec.And(i >= 0, i < n)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(in, "only an index in range gives a value")
		vspec.Assert(*(*interface{})(p) == want[i], "the element at the index arrives")
	}}
	var idx interface{} = i
	switch vspec.Pick(4) {
	case 1:
		idx = int64(i)
	case 2:
		idx = &i
	case 3:
		vspec.Assume(vspec.And(i > -100, i < 100))
		idx = int8(i)
	}
	r := vcNew("#set($z = $s.ToAny($v[$i]))", vcVar{"v", vcIface{v}}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", idx})
	vcIndexed(r, g, in)
}

type vcMapOfInt struct {
	Pad int8
	X   map[string]int
	P   *vcMapOfInt
}

func (h *vcMapOfInt) Get() map[string]int { return h.X }

// A map of int with arbitrary keys, and any key.
func VC_C22_KeyInt() {
	m := map[string]int{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Int()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*int)(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfInt{X: m}
	h.P = &vcMapOfInt{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToInt("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Int() (v int) {
	vspec.Fill(&v)
	return v
}

type vcMapOfInt8 struct {
	Pad int8
	X   map[string]int8
	P   *vcMapOfInt8
}

func (h *vcMapOfInt8) Get() map[string]int8 { return h.X }

// A map of int8 with arbitrary keys, and any key.
func VC_C22_KeyInt8() {
	m := map[string]int8{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Int8()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*int8)(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfInt8{X: m}
	h.P = &vcMapOfInt8{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToInt8("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Int8() (v int8) {
	vspec.Fill(&v)
	return v
}

type vcMapOfInt16 struct {
	Pad int8
	X   map[string]int16
	P   *vcMapOfInt16
}

func (h *vcMapOfInt16) Get() map[string]int16 { return h.X }

// A map of int16 with arbitrary keys, and any key.
func VC_C22_KeyInt16() {
	m := map[string]int16{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Int16()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*int16)(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfInt16{X: m}
	h.P = &vcMapOfInt16{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToInt16("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Int16() (v int16) {
	vspec.Fill(&v)
	return v
}

type vcMapOfInt32 struct {
	Pad int8
	X   map[string]int32
	P   *vcMapOfInt32
}

func (h *vcMapOfInt32) Get() map[string]int32 { return h.X }

// A map of int32 with arbitrary keys, and any key.
func VC_C22_KeyInt32() {
	m := map[string]int32{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Int32()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*int32)(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfInt32{X: m}
	h.P = &vcMapOfInt32{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToInt32("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Int32() (v int32) {
	vspec.Fill(&v)
	return v
}

type vcMapOfInt64 struct {
	Pad int8
	X   map[string]int64
	P   *vcMapOfInt64
}

func (h *vcMapOfInt64) Get() map[string]int64 { return h.X }

// A map of int64 with arbitrary keys, and any key.
func VC_C22_KeyInt64() {
	m := map[string]int64{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Int64()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*int64)(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfInt64{X: m}
	h.P = &vcMapOfInt64{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToInt64("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Int64() (v int64) {
	vspec.Fill(&v)
	return v
}

type vcMapOfUint struct {
	Pad int8
	X   map[string]uint
	P   *vcMapOfUint
}

func (h *vcMapOfUint) Get() map[string]uint { return h.X }

// A map of uint with arbitrary keys, and any key.
func VC_C22_KeyUint() {
	m := map[string]uint{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Uint()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*uint)(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfUint{X: m}
	h.P = &vcMapOfUint{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToUint("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Uint() (v uint) {
	vspec.Fill(&v)
	return v
}

type vcMapOfUint8 struct {
	Pad int8
	X   map[string]uint8
	P   *vcMapOfUint8
}

func (h *vcMapOfUint8) Get() map[string]uint8 { return h.X }

// A map of uint8 with arbitrary keys, and any key.
func VC_C22_KeyUint8() {
	m := map[string]uint8{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Uint8()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*uint8)(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfUint8{X: m}
	h.P = &vcMapOfUint8{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToUint8("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Uint8() (v uint8) {
	vspec.Fill(&v)
	return v
}

type vcMapOfUint16 struct {
	Pad int8
	X   map[string]uint16
	P   *vcMapOfUint16
}

func (h *vcMapOfUint16) Get() map[string]uint16 { return h.X }

// A map of uint16 with arbitrary keys, and any key.
func VC_C22_KeyUint16() {
	m := map[string]uint16{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Uint16()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*uint16)(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfUint16{X: m}
	h.P = &vcMapOfUint16{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToUint16("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Uint16() (v uint16) {
	vspec.Fill(&v)
	return v
}

type vcMapOfUint32 struct {
	Pad int8
	X   map[string]uint32
	P   *vcMapOfUint32
}

func (h *vcMapOfUint32) Get() map[string]uint32 { return h.X }

// A map of uint32 with arbitrary keys, and any key.
func VC_C22_KeyUint32() {
	m := map[string]uint32{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Uint32()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*uint32)(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfUint32{X: m}
	h.P = &vcMapOfUint32{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToUint32("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Uint32() (v uint32) {
	vspec.Fill(&v)
	return v
}

type vcMapOfUint64 struct {
	Pad int8
	X   map[string]uint64
	P   *vcMapOfUint64
}

func (h *vcMapOfUint64) Get() map[string]uint64 { return h.X }

// A map of uint64 with arbitrary keys, and any key.
func VC_C22_KeyUint64() {
	m := map[string]uint64{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Uint64()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*uint64)(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfUint64{X: m}
	h.P = &vcMapOfUint64{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToUint64("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Uint64() (v uint64) {
	vspec.Fill(&v)
	return v
}

type vcMapOfFloat64 struct {
	Pad int8
	X   map[string]float64
	P   *vcMapOfFloat64
}

func (h *vcMapOfFloat64) Get() map[string]float64 { return h.X }

// A map of float64 with arbitrary keys, and any key.
func VC_C22_KeyFloat64() {
	m := map[string]float64{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Float64()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*float64)(p), want
		vspec.Assert(vspec.SameFloat(a, b), "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfFloat64{X: m}
	h.P = &vcMapOfFloat64{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToFloat64("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Float64() (v float64) {
	vspec.Fill(&v)
	return v
}

type vcMapOfFloat32 struct {
	Pad int8
	X   map[string]float32
	P   *vcMapOfFloat32
}

func (h *vcMapOfFloat32) Get() map[string]float32 { return h.X }

// A map of float32 with arbitrary keys, and any key.
func VC_C22_KeyFloat32() {
	m := map[string]float32{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Float32()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*float32)(p), want
		vspec.Assert(vspec.Or(a == b, vspec.And(a != a, b != b)), "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfFloat32{X: m}
	h.P = &vcMapOfFloat32{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToFloat32("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Float32() (v float32) {
	vspec.Fill(&v)
	return v
}

type vcMapOfBool struct {
	Pad int8
	X   map[string]bool
	P   *vcMapOfBool
}

func (h *vcMapOfBool) Get() map[string]bool { return h.X }

// A map of bool with arbitrary keys, and any key.
func VC_C22_KeyBool() {
	m := map[string]bool{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Bool()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*bool)(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfBool{X: m}
	h.P = &vcMapOfBool{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToBool("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Bool() (v bool) {
	vspec.Fill(&v)
	return v
}

type vcMapOfString struct {
	Pad int8
	X   map[string]string
	P   *vcMapOfString
}

func (h *vcMapOfString) Get() map[string]string { return h.X }

// A map of string with arbitrary keys, and any key.
func VC_C22_KeyString() {
	m := map[string]string{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22String()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*string)(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfString{X: m}
	h.P = &vcMapOfString{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToString("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22String() (v string) {
	vspec.Fill(&v)
	return v
}

type vcMapOfStruct struct {
	Pad int8
	X   map[string]vcPair
	P   *vcMapOfStruct
}

func (h *vcMapOfStruct) Get() map[string]vcPair { return h.X }

// A map of vcPair with arbitrary keys, and any key.
func VC_C22_KeyStruct() {
	m := map[string]vcPair{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Struct()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*vcPair)(p), want
		vspec.Assert(vspec.And(a.X == b.X, vspec.And(a.Y == b.Y, a.Z == b.Z)), "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfStruct{X: m}
	h.P = &vcMapOfStruct{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToStruct("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Struct() (v vcPair) {
	vspec.Fill(&v)
	return v
}

type vcMapOfOdd struct {
	Pad int8
	X   map[string]vcOdd22
	P   *vcMapOfOdd
}

func (h *vcMapOfOdd) Get() map[string]vcOdd22 { return h.X }

// A map of vcOdd22 with arbitrary keys, and any key.
func VC_C22_KeyOdd() {
	m := map[string]vcOdd22{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcFill22Odd()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*vcOdd22)(p), want
		vspec.Assert(vspec.And(a.A == b.A, vspec.And(a.B == b.B, a.C == b.C)), "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfOdd{X: m}
	h.P = &vcMapOfOdd{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToOdd("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

func vcFill22Odd() (v vcOdd22) {
	vspec.Fill(&v)
	return v
}

type vcMapOfPtrInt struct {
	Pad int8
	X   map[string]*int
	P   *vcMapOfPtrInt
}

func (h *vcMapOfPtrInt) Get() map[string]*int { return h.X }

// A map of *int with arbitrary keys, and any key.
func VC_C22_KeyPtrInt() {
	m := map[string]*int{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcMake22PtrInt()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(**int)(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfPtrInt{X: m}
	h.P = &vcMapOfPtrInt{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToPtrInt("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

type vcMapOfPtrStruct struct {
	Pad int8
	X   map[string]*vcPair
	P   *vcMapOfPtrStruct
}

func (h *vcMapOfPtrStruct) Get() map[string]*vcPair { return h.X }

// A map of *vcPair with arbitrary keys, and any key.
func VC_C22_KeyPtrStruct() {
	m := map[string]*vcPair{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcMake22PtrStruct()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(**vcPair)(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfPtrStruct{X: m}
	h.P = &vcMapOfPtrStruct{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToPtrStruct("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

type vcMapOfSlice struct {
	Pad int8
	X   map[string][]int
	P   *vcMapOfSlice
}

func (h *vcMapOfSlice) Get() map[string][]int { return h.X }

// A map of []int with arbitrary keys, and any key.
func VC_C22_KeySlice() {
	m := map[string][]int{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcMake22Slice()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*[]int)(p), want
		vspec.Assert(vcSameHead(unsafe.Pointer(&a), unsafe.Pointer(&b)), "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfSlice{X: m}
	h.P = &vcMapOfSlice{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToSlice("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

type vcMapOfMap struct {
	Pad int8
	X   map[string]map[string]int
	P   *vcMapOfMap
}

func (h *vcMapOfMap) Get() map[string]map[string]int { return h.X }

// A map of map[string]int with arbitrary keys, and any key.
func VC_C22_KeyMap() {
	m := map[string]map[string]int{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcMake22Map()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*map[string]int)(p), want
		vspec.Assert(reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer(), "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfMap{X: m}
	h.P = &vcMapOfMap{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToMap("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

type vcMapOfAny struct {
	Pad int8
	X   map[string]interface{}
	P   *vcMapOfAny
}

func (h *vcMapOfAny) Get() map[string]interface{} { return h.X }

// A map of interface{} with arbitrary keys, and any key.
func VC_C22_KeyAny() {
	m := map[string]interface{}{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = vcMake22Any()
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*interface{})(p), want
		vspec.Assert(a == b, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOfAny{X: m}
	h.P = &vcMapOfAny{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.ToAny("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

// A map with keys of type int, and number keys of every type.
func VC_C22_KeysInt() {
	var a, b int
	vspec.Fill(&a)
	vspec.Fill(&b)
	m := map[int]int{a: vspec.Int(), b: vspec.Int()}
	vcNumKey(m, func(n int) int {

		return m[int(n)]
	})
}

// A map with keys of type int8, and number keys of every type.
func VC_C22_KeysInt8() {
	var a, b int8
	vspec.Fill(&a)
	vspec.Fill(&b)
	m := map[int8]int{a: vspec.Int(), b: vspec.Int()}
	vcNumKey(m, func(n int) int {
		if n < -128 || n > 127 {
			return 0
		}
		return m[int8(n)]
	})
}

// A map with keys of type int16, and number keys of every type.
func VC_C22_KeysInt16() {
	var a, b int16
	vspec.Fill(&a)
	vspec.Fill(&b)
	m := map[int16]int{a: vspec.Int(), b: vspec.Int()}
	vcNumKey(m, func(n int) int {
		if n < -32768 || n > 32767 {
			return 0
		}
		return m[int16(n)]
	})
}

// A map with keys of type int32, and number keys of every type.
func VC_C22_KeysInt32() {
	var a, b int32
	vspec.Fill(&a)
	vspec.Fill(&b)
	m := map[int32]int{a: vspec.Int(), b: vspec.Int()}
	vcNumKey(m, func(n int) int {
		if n < -2147483648 || n > 2147483647 {
			return 0
		}
		return m[int32(n)]
	})
}

// A map with keys of type int64, and number keys of every type.
func VC_C22_KeysInt64() {
	var a, b int64
	vspec.Fill(&a)
	vspec.Fill(&b)
	m := map[int64]int{a: vspec.Int(), b: vspec.Int()}
	vcNumKey(m, func(n int) int {

		return m[int64(n)]
	})
}

// A map with keys of type uint, and number keys of every type.
func VC_C22_KeysUint() {
	var a, b uint
	vspec.Fill(&a)
	vspec.Fill(&b)
	m := map[uint]int{a: vspec.Int(), b: vspec.Int()}
	vcNumKey(m, func(n int) int {
		if n < 0 || n > 1<<63-1 {
			return 0
		}
		return m[uint(n)]
	})
}

// A map with keys of type uint8, and number keys of every type.
func VC_C22_KeysUint8() {
	var a, b uint8
	vspec.Fill(&a)
	vspec.Fill(&b)
	m := map[uint8]int{a: vspec.Int(), b: vspec.Int()}
	vcNumKey(m, func(n int) int {
		if n < 0 || n > 255 {
			return 0
		}
		return m[uint8(n)]
	})
}

// A map with keys of type uint16, and number keys of every type.
func VC_C22_KeysUint16() {
	var a, b uint16
	vspec.Fill(&a)
	vspec.Fill(&b)
	m := map[uint16]int{a: vspec.Int(), b: vspec.Int()}
	vcNumKey(m, func(n int) int {
		if n < 0 || n > 65535 {
			return 0
		}
		return m[uint16(n)]
	})
}

// A map with keys of type uint32, and number keys of every type.
func VC_C22_KeysUint32() {
	var a, b uint32
	vspec.Fill(&a)
	vspec.Fill(&b)
	m := map[uint32]int{a: vspec.Int(), b: vspec.Int()}
	vcNumKey(m, func(n int) int {
		if n < 0 || n > 4294967295 {
			return 0
		}
		return m[uint32(n)]
	})
}

// A map with keys of type uint64, and number keys of every type.
func VC_C22_KeysUint64() {
	var a, b uint64
	vspec.Fill(&a)
	vspec.Fill(&b)
	m := map[uint64]int{a: vspec.Int(), b: vspec.Int()}
	vcNumKey(m, func(n int) int {
		if n < 0 || n > 1<<63-1 {
			return 0
		}
		return m[uint64(n)]
	})
}

func vcNumKey(m interface{}, at func(n int) int) {
	n := 0
	var k interface{}
	switch vspec.Pick(13) {
	case 0:
		x := vspec.Int()
		n, k = int(x), x
	case 1:
		x := vspec.Int8()
		n, k = int(x), x
	case 2:
		x := vspec.Int16()
		n, k = int(x), x
	case 3:
		x := vspec.Int32()
		n, k = int(x), x
	case 4:
		x := vspec.Int64()
		n, k = int(x), x
	case 5:
		x := vspec.Uint()
		vspec.Assume(x <= 1<<63-1)
		n, k = int(x), x
	case 6:
		x := vspec.Uint8()
		n, k = int(x), x
	case 7:
		x := vspec.Uint16()
		n, k = int(x), x
	case 8:
		x := vspec.Uint32()
		n, k = int(x), x
	case 9:
		x := vspec.Uint64()
		vspec.Assume(x <= 1<<63-1)
		n, k = int(x), x
	case 10:
		x := vspec.Int()
		n, k = int(x), &x
	case 11:
		x := vspec.Int64()
		n, k = int(x), &x
	case 12:
		x := vspec.Int32()
		n, k = int(x), &x
	case 13:
		x := vspec.Int16()
		n, k = int(x), &x
	}
	want := at(n)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(*(*int)(p) == want, "what is stored under the number arrives, or zero")
	}}
	t := "$k"
	kv := vcVar{"k", k}
	switch vspec.Pick(3) {
	case 1:
		kv.value = vcIface{k}
	case 2:
		t, kv.value = "$k.K", &struct {
			A int8
			K interface{}
		}{1, k}
	}
	r := vcNew("#set($z = $s.ToInt($m["+t+"]))", vcVar{"m", m}, vcVar{"s", g}, vcVar{"z", 0}, kv)
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

// String keys in every form.
func VC_C22_StringKeys() {
	m := map[string]int{vspec.String(): vspec.Int(), vspec.String(): vspec.Int()}
	key := vspec.String()
	b := []byte(key)
	t, k := "$k", interface{}(nil)
	hold := struct {
		A int8
		S string
		P *string
		B []byte
	}{1, key, &key, b}
	switch vspec.Pick(10) {
	case 0:
		k = key
	case 1:
		k = &key
	case 2:
		k = b
	case 3:
		k = &b
	case 4:
		k, t = hold, "$k.S"
	case 5:
		k, t = &hold, "$k.P"
	case 6:
		k, t = &hold, "$k.B"
	case 7:
		k, t = vcIface{key}, "$k"
	case 8:
		k, t = key, "$k + \"\""
	case 9:
		k, t = []string{"", key}, "$k[1]"
	}
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(*(*int)(p) == want, "what is stored under the string arrives, or zero")
	}}
	r := vcNew("#set($z = $s.ToInt($m["+t+"]))", vcVar{"m", m}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

// Literal keys.
func VC_C22_LiteralKeys() {
	s, n := vspec.String(), vspec.Int()
	ms := map[string]int{s: vspec.Int(), "a": vspec.Int()}
	mi := map[int]int{n: vspec.Int(), 7: vspec.Int()}
	text, want := "", 0
	switch vspec.Pick(5) {
	case 0:
		text, want = "$ms[\"a\"]", ms["a"]
	case 1:
		text, want = "$ms[\"\"]", ms[""]
	case 2:
		text, want = "$ms[\"a b\"]", ms["a b"]
	case 3:
		text, want = "$mi[7]", mi[7]
	case 4:
		text, want = "$mi[0]", mi[0]
	}
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(*(*int)(p) == want, "what is stored under the literal arrives, or zero")
	}}
	r := vcNew("#set($z = $s.ToInt("+text+"))", vcVar{"ms", ms}, vcVar{"mi", mi}, vcVar{"s", g}, vcVar{"z", 0})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

// Other key types.
func VC_C22_OtherKeys() {
	type name string
	s, q, f, b, n := vspec.String(), vspec.String(), vspec.Float64(), vspec.Bool(), vspec.Int()
	v, w := vspec.Int(), vspec.Int()
	vspec.Assume(f == f)
	var m, k interface{}
	want := 0
	switch vspec.Pick(6) {
	case 0:
		x := map[name]int{name(s): v, "a": w}
		m, k, want = x, q, x[name(q)]
	case 1:
		x := map[bool]int{b: v}
		c := vspec.Bool()
		m, k, want = x, c, x[c]
	case 2:
		x := map[interface{}]int{s: v, n: w}
		m, k, want = x, q, x[q]
	case 3:
		x := map[interface{}]int{s: v, n: w}
		y := vspec.Int()
		m, k, want = x, &y, x[y]
	case 4:
		x := map[string]int{s: v}
		m, k, want = x, vspec.Int(), 0
	case 5:
		x := map[int]int{n: v}
		m, k, want = x, q, 0
	}
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(*(*int)(p) == want, "what is stored under the key arrives, or zero")
	}}
	r := vcNew("#set($z = $s.ToInt($m[$k]))", vcVar{"m", m}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

type vcSwap22 struct {
	L, M []int
	P    *vcSwap22
	K    int
}

// At replaces the slice
func (h *vcSwap22) At(k int) int { h.L = h.M; h.P.L = h.M; return k }

// An index whose evaluation replaces the slice is an index of the slice that is then in place.
func VC_C22_Replaced() {
	var l, m []int
	vspec.Fill(&l)
	vspec.Fill(&m)
	k := vspec.Int()
	g := &vcSwap22{L: l, M: m, P: &vcSwap22{L: l}, K: k}
	forms := []string{"#set($z = $g.L[$g.At($k)])", "#set($z = $g.P.L[$g.At($k)])", "#set($z = $g.L[$g.At($g.K)] + 0)", "#if($g.L[$g.At($k)] > 0)#end#set($z = $g.L[$k])"}
	f := vspec.Pick(len(forms))
	r := vcNew(forms[f], vcVar{"g", g}, vcVar{"k", k}, vcVar{"z", 7})
	rejected := vcRejects(r)
	if k >= 0 && k < len(m) {
		vspec.Assert(!rejected, "an index in range is not rejected")
		z := *(*int)(r.addr("z"))
		vspec.Assert(z == m[k], "the element of the slice that is in place")
		return
	}
	vspec.Assert(rejected, "an index out of range is rejected")
}
