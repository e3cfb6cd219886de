// Code generated by tools/gen/c10.py; DO NOT EDIT.

package velty

import (
	"errors"
	"reflect"
	"unsafe"

	"github.com/viant/velty/internal/vspec"
)

var _ = reflect.TypeOf

// vcPass runs a function with every pass
type vcPass struct {
	f func()
}

// Next is called in the body
func (p *vcPass) Next() int {
	p.f()
	return 0
}

// vcOdd has a size that is no multiple of a word
type vcOdd struct {
	A int8
	B int16
	C int8
}

// vcSameString compares the place and the length
func vcSameString(a, b string) bool {
	x, y := (*vcStrHead)(unsafe.Pointer(&a)), (*vcStrHead)(unsafe.Pointer(&b))
	return vspec.And(x.p == y.p, x.n == y.n)
}

type vcStrHead struct {
	p unsafe.Pointer
	n int
}

// vcReach is how the slice is reached
func vcReach(k int) (pre, ref, post string) {
	switch k {
	case 0:
		return "", "$v", ""
	case 1:
		return "", "$h.X", ""
	case 2:
		return "", "$g.X", ""
	case 3:
		return "", "$g.P.X", ""
	case 4:
		return "", "$h.P.X", ""
	case 5:
		return "#foreach($in in $o)", "$in", "#end"
	}
	return "", "$g.Get()", ""
}

func vcForEach(k int) string {
	pre, ref, post := vcReach(k)
	return pre + "#foreach($x in " + ref + ")#set($z = $s.Next())#end" + post
}

type vcHoldInt struct {
	Pad int8
	X   []int
	P   *vcHoldInt
	End int8
}

func (h *vcHoldInt) Get() []int { return h.X }

func vcEachInt(l []int) {
	h := vcHoldInt{Pad: -1, X: l, End: -1}
	h.P = &vcHoldInt{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]int{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(int)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*int)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of int of any length.
func VC_C10_EachInt() {
	var l []int
	vspec.Fill(&l)
	vcEachInt(l)
}

type vcHoldInt8 struct {
	Pad int8
	X   []int8
	P   *vcHoldInt8
	End int8
}

func (h *vcHoldInt8) Get() []int8 { return h.X }

func vcEachInt8(l []int8) {
	h := vcHoldInt8{Pad: -1, X: l, End: -1}
	h.P = &vcHoldInt8{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]int8{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(int8)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*int8)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of int8 of any length.
func VC_C10_EachInt8() {
	var l []int8
	vspec.Fill(&l)
	vcEachInt8(l)
}

type vcHoldInt16 struct {
	Pad int8
	X   []int16
	P   *vcHoldInt16
	End int8
}

func (h *vcHoldInt16) Get() []int16 { return h.X }

func vcEachInt16(l []int16) {
	h := vcHoldInt16{Pad: -1, X: l, End: -1}
	h.P = &vcHoldInt16{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]int16{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(int16)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*int16)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of int16 of any length.
func VC_C10_EachInt16() {
	var l []int16
	vspec.Fill(&l)
	vcEachInt16(l)
}

type vcHoldInt32 struct {
	Pad int8
	X   []int32
	P   *vcHoldInt32
	End int8
}

func (h *vcHoldInt32) Get() []int32 { return h.X }

func vcEachInt32(l []int32) {
	h := vcHoldInt32{Pad: -1, X: l, End: -1}
	h.P = &vcHoldInt32{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]int32{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(int32)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*int32)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of int32 of any length.
func VC_C10_EachInt32() {
	var l []int32
	vspec.Fill(&l)
	vcEachInt32(l)
}

type vcHoldInt64 struct {
	Pad int8
	X   []int64
	P   *vcHoldInt64
	End int8
}

func (h *vcHoldInt64) Get() []int64 { return h.X }

func vcEachInt64(l []int64) {
	h := vcHoldInt64{Pad: -1, X: l, End: -1}
	h.P = &vcHoldInt64{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]int64{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(int64)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*int64)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of int64 of any length.
func VC_C10_EachInt64() {
	var l []int64
	vspec.Fill(&l)
	vcEachInt64(l)
}

type vcHoldUint struct {
	Pad int8
	X   []uint
	P   *vcHoldUint
	End int8
}

func (h *vcHoldUint) Get() []uint { return h.X }

func vcEachUint(l []uint) {
	h := vcHoldUint{Pad: -1, X: l, End: -1}
	h.P = &vcHoldUint{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]uint{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(uint)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*uint)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of uint of any length.
func VC_C10_EachUint() {
	var l []uint
	vspec.Fill(&l)
	vcEachUint(l)
}

type vcHoldUint8 struct {
	Pad int8
	X   []uint8
	P   *vcHoldUint8
	End int8
}

func (h *vcHoldUint8) Get() []uint8 { return h.X }

func vcEachUint8(l []uint8) {
	h := vcHoldUint8{Pad: -1, X: l, End: -1}
	h.P = &vcHoldUint8{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]uint8{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(uint8)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*uint8)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of uint8 of any length.
func VC_C10_EachUint8() {
	var l []uint8
	vspec.Fill(&l)
	vcEachUint8(l)
}

type vcHoldUint16 struct {
	Pad int8
	X   []uint16
	P   *vcHoldUint16
	End int8
}

func (h *vcHoldUint16) Get() []uint16 { return h.X }

func vcEachUint16(l []uint16) {
	h := vcHoldUint16{Pad: -1, X: l, End: -1}
	h.P = &vcHoldUint16{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]uint16{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(uint16)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*uint16)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of uint16 of any length.
func VC_C10_EachUint16() {
	var l []uint16
	vspec.Fill(&l)
	vcEachUint16(l)
}

type vcHoldUint32 struct {
	Pad int8
	X   []uint32
	P   *vcHoldUint32
	End int8
}

func (h *vcHoldUint32) Get() []uint32 { return h.X }

func vcEachUint32(l []uint32) {
	h := vcHoldUint32{Pad: -1, X: l, End: -1}
	h.P = &vcHoldUint32{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]uint32{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(uint32)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*uint32)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of uint32 of any length.
func VC_C10_EachUint32() {
	var l []uint32
	vspec.Fill(&l)
	vcEachUint32(l)
}

type vcHoldUint64 struct {
	Pad int8
	X   []uint64
	P   *vcHoldUint64
	End int8
}

func (h *vcHoldUint64) Get() []uint64 { return h.X }

func vcEachUint64(l []uint64) {
	h := vcHoldUint64{Pad: -1, X: l, End: -1}
	h.P = &vcHoldUint64{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]uint64{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(uint64)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*uint64)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of uint64 of any length.
func VC_C10_EachUint64() {
	var l []uint64
	vspec.Fill(&l)
	vcEachUint64(l)
}

type vcHoldFloat64 struct {
	Pad int8
	X   []float64
	P   *vcHoldFloat64
	End int8
}

func (h *vcHoldFloat64) Get() []float64 { return h.X }

func vcEachFloat64(l []float64) {
	h := vcHoldFloat64{Pad: -1, X: l, End: -1}
	h.P = &vcHoldFloat64{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]float64{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(float64)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*float64)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(vspec.SameFloat(a, b), "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of float64 of any length.
func VC_C10_EachFloat64() {
	var l []float64
	vspec.Fill(&l)
	vcEachFloat64(l)
}

type vcHoldFloat32 struct {
	Pad int8
	X   []float32
	P   *vcHoldFloat32
	End int8
}

func (h *vcHoldFloat32) Get() []float32 { return h.X }

func vcEachFloat32(l []float32) {
	h := vcHoldFloat32{Pad: -1, X: l, End: -1}
	h.P = &vcHoldFloat32{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]float32{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(float32)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*float32)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(vspec.Or(a == b, vspec.And(a != a, b != b)), "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of float32 of any length.
func VC_C10_EachFloat32() {
	var l []float32
	vspec.Fill(&l)
	vcEachFloat32(l)
}

type vcHoldBool struct {
	Pad int8
	X   []bool
	P   *vcHoldBool
	End int8
}

func (h *vcHoldBool) Get() []bool { return h.X }

func vcEachBool(l []bool) {
	h := vcHoldBool{Pad: -1, X: l, End: -1}
	h.P = &vcHoldBool{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]bool{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(bool)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*bool)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of bool of any length.
func VC_C10_EachBool() {
	var l []bool
	vspec.Fill(&l)
	vcEachBool(l)
}

type vcHoldString struct {
	Pad int8
	X   []string
	P   *vcHoldString
	End int8
}

func (h *vcHoldString) Get() []string { return h.X }

func vcEachString(l []string) {
	h := vcHoldString{Pad: -1, X: l, End: -1}
	h.P = &vcHoldString{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]string{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(string)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*string)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of string of any length.
func VC_C10_EachString() {
	var l []string
	vspec.Fill(&l)
	vcEachString(l)
}

type vcHoldStruct struct {
	Pad int8
	X   []vcPair
	P   *vcHoldStruct
	End int8
}

func (h *vcHoldStruct) Get() []vcPair { return h.X }

func vcEachStruct(l []vcPair) {
	h := vcHoldStruct{Pad: -1, X: l, End: -1}
	h.P = &vcHoldStruct{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]vcPair{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(vcPair)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*vcPair)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(vspec.And(a.X == b.X, vspec.And(a.Y == b.Y, a.Z == b.Z)), "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of vcPair of any length.
func VC_C10_EachStruct() {
	var l []vcPair
	vspec.Fill(&l)
	vcEachStruct(l)
}

type vcHoldOdd struct {
	Pad int8
	X   []vcOdd
	P   *vcHoldOdd
	End int8
}

func (h *vcHoldOdd) Get() []vcOdd { return h.X }

func vcEachOdd(l []vcOdd) {
	h := vcHoldOdd{Pad: -1, X: l, End: -1}
	h.P = &vcHoldOdd{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]vcOdd{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(vcOdd)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*vcOdd)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(vspec.And(a.A == b.A, vspec.And(a.B == b.B, a.C == b.C)), "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// A slice of vcOdd of any length.
func VC_C10_EachOdd() {
	var l []vcOdd
	vspec.Fill(&l)
	vcEachOdd(l)
}

type vcHoldPtrInt struct {
	Pad int8
	X   []*int
	P   *vcHoldPtrInt
	End int8
}

func (h *vcHoldPtrInt) Get() []*int { return h.X }

func vcMakePtrInt() *int { i := vspec.Int(); return &i }

// Slices of *int of up to four elements, nil ones among them.
func VC_C10_EachPtrInt() {
	ln := vspec.Pick(5)
	var l []*int
	for i := 0; i < ln; i++ {
		if i == 2 {
			l = append(l, nil)
			continue
		}
		l = append(l, vcMakePtrInt())
	}
	h := vcHoldPtrInt{Pad: -1, X: l, End: -1}
	h.P = &vcHoldPtrInt{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]*int{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(*int)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (**int)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

type vcHoldPtrStruct struct {
	Pad int8
	X   []*vcPair
	P   *vcHoldPtrStruct
	End int8
}

func (h *vcHoldPtrStruct) Get() []*vcPair { return h.X }

func vcMakePtrStruct() *vcPair { return &vcPair{X: vspec.Int()} }

// Slices of *vcPair of up to four elements, nil ones among them.
func VC_C10_EachPtrStruct() {
	ln := vspec.Pick(5)
	var l []*vcPair
	for i := 0; i < ln; i++ {
		if i == 2 {
			l = append(l, nil)
			continue
		}
		l = append(l, vcMakePtrStruct())
	}
	h := vcHoldPtrStruct{Pad: -1, X: l, End: -1}
	h.P = &vcHoldPtrStruct{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]*vcPair{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(*vcPair)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (**vcPair)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

type vcHoldSlice struct {
	Pad int8
	X   [][]int
	P   *vcHoldSlice
	End int8
}

func (h *vcHoldSlice) Get() [][]int { return h.X }

func vcMakeSlice() []int { var x []int; vspec.Fill(&x); return x }

// Slices of []int of up to four elements, nil ones among them.
func VC_C10_EachSlice() {
	ln := vspec.Pick(5)
	var l [][]int
	for i := 0; i < ln; i++ {
		if i == 2 {
			l = append(l, nil)
			continue
		}
		l = append(l, vcMakeSlice())
	}
	h := vcHoldSlice{Pad: -1, X: l, End: -1}
	h.P = &vcHoldSlice{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][][]int{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new([]int)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*[]int)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(len(a) == len(b) && vcSameHead(unsafe.Pointer(&a), unsafe.Pointer(&b)), "the item is the element of the pass")
		n++
	}
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

type vcHoldMap struct {
	Pad int8
	X   []map[string]int
	P   *vcHoldMap
	End int8
}

func (h *vcHoldMap) Get() []map[string]int { return h.X }

func vcMakeMap() map[string]int { return map[string]int{"k": vspec.Int()} }

// Slices of map[string]int of up to four elements, nil ones among them.
func VC_C10_EachMap() {
	ln := vspec.Pick(5)
	var l []map[string]int
	for i := 0; i < ln; i++ {
		if i == 2 {
			l = append(l, nil)
			continue
		}
		l = append(l, vcMakeMap())
	}
	h := vcHoldMap{Pad: -1, X: l, End: -1}
	h.P = &vcHoldMap{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]map[string]int{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", *new(map[string]int)})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*map[string]int)(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer(), "the item is the element of the pass")
		n++
	}
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

type vcHoldAny struct {
	Pad int8
	X   []interface{}
	P   *vcHoldAny
	End int8
}

func (h *vcHoldAny) Get() []interface{} { return h.X }

func vcMakeAny() interface{} {
	i := vspec.Int()
	if vspec.Pick(2) == 0 {
		return i
	}
	return &i
}

// Slices of interface{} of up to four elements, nil ones among them.
func VC_C10_EachAny() {
	ln := vspec.Pick(5)
	var l []interface{}
	for i := 0; i < ln; i++ {
		if i == 2 {
			l = append(l, nil)
			continue
		}
		l = append(l, vcMakeAny())
	}
	h := vcHoldAny{Pad: -1, X: l, End: -1}
	h.P = &vcHoldAny{X: l}
	n := 0
	s := &vcPass{}
	vars := []vcVar{{"v", l}, {"h", h}, {"g", &h}, {"o", [][]interface{}{l}}, {"s", s}, {"z", 0}, {"n1", int8(11)}}
	if vspec.Pick(2) == 0 {
		vars = append(vars, vcVar{"x", vcIface{}})
	}
	vars = append(vars, vcVar{"n2", int8(22)})
	r := vcNew(vcForEach(vspec.Pick(7)), vars...)
	at := (*interface{})(r.addr("x"))
	n1, n2 := (*int8)(r.addr("n1")), (*int8)(r.addr("n2"))
	s.f = func() {
		vspec.Assert(vspec.And(*n1 == 11, *n2 == 22), "no other variable changes")
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}

// Loops inside loops: the inner loop starts anew at every pass.
func VC_C10_NestedFor() {
	a, b := vspec.Pick(4), vspec.Pick(4)
	i, j := 0, 0
	n := 0
	s := &vcPass{}
	r := vcNew("#for($i = 0; $i < $a; $i++)#for($j = $i; $j < $b; $j += 1)#set($z = $s.Next())#end#end", vcVar{"s", s}, vcVar{"z", 0}, vcVar{"a", a}, vcVar{"b", b}, vcVar{"i", 7}, vcVar{"j", 7})
	var is, js []int
	for i = 0; i < a; i++ {
		for j = i; j < b; j++ {
			is, js = append(is, i), append(js, j)
		}
	}
	pi, pj := (*int)(r.addr("i")), (*int)(r.addr("j"))
	s.f = func() {
		vspec.Assert(n < len(is), "no more passes than in Go")
		vspec.Assert(*pi == is[n] && *pj == js[n], "the variables are those of the pass")
		n++
	}
	r.run()
	vspec.Assert(n == len(is), "no fewer passes than in Go")
}

// A slice of any length inside another loop.
func VC_C10_NestedEach() {
	var l []int
	vspec.Fill(&l)
	k := vspec.Pick(3)
	n := 0
	s := &vcPass{}
	begins := 0
	s, q := &vcPass{}, &vcPass{}
	r := vcNew("#foreach($y in $o)#set($z = $q.Next())#foreach($x in $l)#set($z = $s.Next())#end|#end", vcVar{"s", s}, vcVar{"q", q}, vcVar{"z", 0}, vcVar{"l", l}, vcVar{"o", make([]string, k)})
	at := (*int)(r.addr("x"))
	q.f = func() {
		vspec.Assert(begins == 0 || n == len(l), "the inner loop has run in full at every pass")
		n = 0
		begins++
	}
	s.f = func() {
		vspec.Assert(n < len(l), "no more passes than elements")
		vspec.Assert(*at == l[n], "the item is the element of the pass")
		n++
	}
	r.run()
	vspec.Assert(k == 0 || n == len(l), "the inner loop runs in full at the last pass")
	vspec.Assert(begins == k && r.out() == "||"[:k], "the outer loop runs once for each element")
}

// What the passes render follows in order.
func VC_C10_Render() {
	n := vspec.Pick(4)
	l := make([]string, n)
	parts := []string{"<"}
	for i := 0; i < n; i++ {
		vspec.Fill(&l[i])
		parts = append(parts, "(", l[i], ")")
	}
	size, total := vspec.IntBetween(0, 1<<20), 2
	for i := 0; i < n; i++ {
		total += 2 + len(l[i])
	}
	vspec.Assume(total < size) // growing is C05
	p := New(BufferSize(size))
	forms := []string{"<#foreach($x in $l)(${x})#end>", "<#for($i = 0; $i < $n; $i++)(${l[$i]})#end>"}
	r := vcNewWith(p, forms[vspec.Pick(2)], vcVar{"l", l}, vcVar{"n", n}, vcVar{"i", 9})
	r.run()
	vcSame(r.out(), "the bodies' outputs", append(parts, ">")...)
}

// Ranges count up or down.
func VC_C10_Range() {
	cases := []string{"[0...0]", "[1...4]", "[4...1]", "[0...3]", "[7...9]", "[9...7]"}
	want := [][]int{{}, {1, 2, 3}, {4, 3, 2}, {0, 1, 2}, {7, 8}, {9, 8}}
	k := vspec.Pick(len(cases))
	n := 0
	s := &vcPass{}
	r := vcNew("#foreach($x in "+cases[k]+")#set($z = $s.Next())#end", vcVar{"s", s}, vcVar{"z", 0})
	at := (*int)(r.addr("x"))
	s.f = func() {
		vspec.Assert(n < len(want[k]), "no more passes than elements")
		vspec.Assert(*at == want[k][n], "the item is the element of the pass")
		n++
	}
	r.run()
	vspec.Assert(n == len(want[k]), "one pass for each element")
}

// A #for loop with arbitrary bounds and steps: the variable takes the values it takes in Go.
func vcForLoop(post string, cond string, step func(i, c int) int, holds func(i, b int) bool) {
	a, b, c := vspec.Int(), vspec.Int(), vspec.Int()
	exp := a
	s := &vcPass{}
	r := vcNew("#for($i = $a; $i "+cond+" $b; "+post+")#set($z = $s.Next())#end", vcVar{"s", s}, vcVar{"z", 0}, vcVar{"a", a}, vcVar{"b", b}, vcVar{"c", c}, vcVar{"n1", int8(11)}, vcVar{"i", 0}, vcVar{"n2", int8(22)})
	at := (*int)(r.addr("i"))
	passes := 0
	vspec.Unroll(3)
	s.f = func() {
		if !vspec.Symbolic() {
			passes++
			vspec.Assume(passes < 1000)
		}
		vspec.Assert(*at == exp, "the variable has the value it has in Go")
		vspec.Assert(holds(exp, b), "the condition holds at every pass")
		exp = step(exp, c)
	}
	r.run()
	vspec.Assert(*at == exp, "the variable ends with the value it ends with in Go")
	vspec.Assert(!holds(exp, b), "the loop ends when the condition does not hold")
	vspec.Assert(*(*int8)(r.addr("n1")) == 11 && *(*int8)(r.addr("n2")) == 22 && *(*int)(r.addr("a")) == a && *(*int)(r.addr("b")) == b && *(*int)(r.addr("c")) == c, "no other variable changes")
}

func vcLess(i, b int) bool { return i < b }

func vcDiv(i, c int) int {
	vspec.Assume(c != 0)
	return i / c
}

func VC_C10_ForInc() {
	vcForLoop("$i++", "<", func(i, c int) int { return i + 1 }, func(i, b int) bool { return i < b })
}

func VC_C10_ForDec() {
	vcForLoop("$i--", ">", func(i, c int) int { return i - 1 }, func(i, b int) bool { return i > b })
}

func VC_C10_ForAdd() {
	vcForLoop("$i += $c", "<", func(i, c int) int { return i + c }, func(i, b int) bool { return i < b })
}

func VC_C10_ForSub() {
	vcForLoop("$i -= $c", ">=", func(i, c int) int { return i - c }, func(i, b int) bool { return i >= b })
}

func VC_C10_ForMul() {
	vcForLoop("$i *= $c", "<=", func(i, c int) int { return i * c }, func(i, b int) bool { return i <= b })
}

func VC_C10_ForDiv() {
	vcForLoop("$i /= $c", "!=", func(i, c int) int { return vcDiv(i, c) }, func(i, b int) bool { return i != b })
}

// vcTry fails when it is told to
type vcTry struct {
	fail  bool
	err   error
	begin func()
	end   func()
}

// Try is called in the body
func (t *vcTry) Try() (int, error) {
	t.begin()
	if t.fail {
		return 0, t.err
	}
	return 1, nil
}

// End is called at the end of the body
func (t *vcTry) End() int {
	t.end()
	return 0
}

// Passes whose calls fail are passes like any other when errors are collected: the loops go on.
func VC_C10_Failing() {
	n := vspec.Pick(4)
	fail := make([]bool, n)
	for i := range fail {
		fail[i] = vspec.Bool()
	}
	begins, ends := 0, 0
	t := &vcTry{err: errors.New("failure")}
	t.begin = func() {
		vspec.Assert(begins < n, "no more passes than elements")
		t.fail = fail[begins]
		begins++
	}
	t.end = func() { ends++ }
	forms := []string{"#foreach($x in $l)%#end", "#for($i = 0; $i < $n; $i++)%#end", "#foreach($x in $ps)%#end", "#foreach($x in $ss)%#end", "#foreach($x in [0...3])%#end", "#for($i = $n; $i > 0; $i -= 1)%#end",
		"#foreach($y in $one)#foreach($x in $l)%#end#end", "#for($j = 0; $j < 1; $j++)#foreach($x in $l)%#end#end", "#foreach($y in $one)#for($i = 0; $i < $n; $i++)%#end#end", "#if($n >= 0)#foreach($x in $l)%#end#end"}
	bodies := []string{"#set($z = $t.Try())#set($z = $t.End())", "#if($t.Try() > 0)#end#set($z = $t.End())", "$t.Try()$t.End()", "#set($z = $t.Try() + $t.End())"}
	f := vspec.Pick(len(forms))
	if f == 4 {
		n, fail = 3, []bool{vspec.Bool(), vspec.Bool(), vspec.Bool()}
	}
	body := bodies[vspec.Pick(len(bodies))]
	tmpl := ""
	for _, b := range forms[f] {
		if b == '%' {
			tmpl += body
		} else {
			tmpl += string(b)
		}
	}
	r := vcNew(tmpl+"#set($z = $t.End())", vcVar{"t", t}, vcVar{"z", 0}, vcVar{"n", n}, vcVar{"i", 0}, vcVar{"j", 0}, vcVar{"l", make([]int, n)}, vcVar{"ps", make([]*vcPair, n)}, vcVar{"ss", make([]string, n)}, vcVar{"one", []int{1}})
	for k := 0; k < 2; k++ {
		begins, ends = 0, 0
		any := false
		for i := range fail {
			any = any || fail[i]
		}
		err := r.exec.Exec(r.st)
		vspec.Assert((err != nil) == any, "it fails exactly when a pass fails")
		vspec.Assert(begins == n, "all passes are run")
		vspec.Assert(ends == n+1, "every pass is run in full, and what follows the loop too")
		if any {
			break
		}
	}
}

type vcSwap struct {
	L, M []int
	P    *vcSwap
}

// Swap replaces the slice
func (h *vcSwap) Swap() int { h.L = h.M; return 0 }

// A body that replaces the slice, or the place it is read from, changes nothing about the passes.
func VC_C10_Replaced() {
	var l, m []int
	vspec.Fill(&l)
	vspec.Fill(&m)
	h := vcSwap{L: l, M: m}
	g := &vcSwap{L: l, M: m}
	g.P = &vcSwap{L: l, M: m}
	n := 0
	s := &vcPass{}
	forms := [][2]string{{"$l", "#set($l = $m)"}, {"$h.L", "#set($h.L = $m)"}, {"$g.L", "#set($g.L = $m)"}, {"$g.L", "#set($z = $g.Swap())"}, {"$g.P.L", "#set($g.P.L = $m)"}, {"$g.P.L", "#set($z = $g.P.Swap())"}, {"$g.P.L", "#set($g = $o)"}, {"$l", "#set($m = $l)#set($l = $g.M)"}}
	f := forms[vspec.Pick(len(forms))]
	body := f[1] + "#set($z = $s.Next())"
	if vspec.Pick(2) == 1 {
		body = "#set($z = $s.Next())" + f[1]
	}
	r := vcNew("#foreach($x in "+f[0]+")"+body+"#end", vcVar{"l", l}, vcVar{"m", m}, vcVar{"h", h}, vcVar{"g", g}, vcVar{"o", &vcSwap{P: &vcSwap{L: m}, L: m, M: m}}, vcVar{"s", s}, vcVar{"z", 0})
	at := (*int)(r.addr("x"))
	s.f = func() {
		vspec.Assert(n < len(l), "no more passes than elements")
		a, b := *at, l[n]
		vspec.Assert(a == b, "the item is the element of the pass")
		n++
	}
	vspec.MustTerminate()
	r.run()
	vspec.Assert(n == len(l), "one pass for each element")
}
