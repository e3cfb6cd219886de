package expr

import (
	"reflect"
	"unsafe"

	"github.com/viant/velty/ast"
	"github.com/viant/velty/est"
	"github.com/viant/velty/est/op"
	"github.com/viant/velty/internal/vspec"
)

// The contract of the comparisons of pointers: whatever computes the operands (nothing is known but that each denotes a
// value or nil), the answer is that of Go for the values, and nothing is dereferenced when an operand is nil.

func vcComparePtr(token ast.Token, rType reflect.Type, x, y unsafe.Pointer) bool {
	z := op.NewSelector("z", "z", vcTypes["B"], nil)
	aNew, err := Binary(token, vcAny(rType, x), vcAny(rType, y), &op.Expression{Selector: z, Type: vcTypes["B"]})
	vspec.Assert(err == nil, "the operator is supported")
	compute, err := aNew(0)
	vspec.Assert(err == nil, "the operator is supported")
	var b, b0 bool
	vspec.Fill(&b)
	b0 = b
	f, t := *(*bool)(est.FalseValuePtr), *(*bool)(est.TrueValuePtr)
	st := &est.State{Mem: &b, MemPtr: unsafe.Pointer(&b)}
	got := *(*bool)(compute(st))
	vspec.Assert(vspec.And(!*(*bool)(est.FalseValuePtr), *(*bool)(est.TrueValuePtr)), "the shared results keep their values")
	vspec.Assert(vspec.And(!f, t), "the shared results keep their values")
	vspec.Assert(vspec.Or(b == b0, b == got), "nothing but the result is written")
	return got
}

func VC_C02_AnyInt() {
	var a, b int
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(6) {
	case 0:
		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
		vcComparePtr(ast.EQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.EQ, t, x, x) == (a0 == a0), "int == of one pointer")
		vspec.Assert(vcComparePtr(ast.EQ, t, x, y) == (a0 == b0), "int ==")
	case 1:
		vcComparePtr(ast.NEQ, t, nil, y)
		vcComparePtr(ast.NEQ, t, x, nil)
		vcComparePtr(ast.NEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, x) == (a0 != a0), "int != of one pointer")
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, y) == (a0 != b0), "int !=")
	case 2:
		vcComparePtr(ast.LSS, t, nil, y)
		vcComparePtr(ast.LSS, t, x, nil)
		vcComparePtr(ast.LSS, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LSS, t, x, x) == (a0 < a0), "int < of one pointer")
		vspec.Assert(vcComparePtr(ast.LSS, t, x, y) == (a0 < b0), "int <")
	case 3:
		vcComparePtr(ast.LEQ, t, nil, y)
		vcComparePtr(ast.LEQ, t, x, nil)
		vcComparePtr(ast.LEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, x) == (a0 <= a0), "int <= of one pointer")
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, y) == (a0 <= b0), "int <=")
	case 4:
		vcComparePtr(ast.GTR, t, nil, y)
		vcComparePtr(ast.GTR, t, x, nil)
		vcComparePtr(ast.GTR, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTR, t, x, x) == (a0 > a0), "int > of one pointer")
		vspec.Assert(vcComparePtr(ast.GTR, t, x, y) == (a0 > b0), "int >")
	case 5:
		vcComparePtr(ast.GTE, t, nil, y)
		vcComparePtr(ast.GTE, t, x, nil)
		vcComparePtr(ast.GTE, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTE, t, x, x) == (a0 >= a0), "int >= of one pointer")
		vspec.Assert(vcComparePtr(ast.GTE, t, x, y) == (a0 >= b0), "int >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
}

func VC_C02_AnyInt8() {
	var a, b int8
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(6) {
	case 0:
		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
		vcComparePtr(ast.EQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.EQ, t, x, x) == (a0 == a0), "int8 == of one pointer")
		vspec.Assert(vcComparePtr(ast.EQ, t, x, y) == (a0 == b0), "int8 ==")
	case 1:
		vcComparePtr(ast.NEQ, t, nil, y)
		vcComparePtr(ast.NEQ, t, x, nil)
		vcComparePtr(ast.NEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, x) == (a0 != a0), "int8 != of one pointer")
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, y) == (a0 != b0), "int8 !=")
	case 2:
		vcComparePtr(ast.LSS, t, nil, y)
		vcComparePtr(ast.LSS, t, x, nil)
		vcComparePtr(ast.LSS, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LSS, t, x, x) == (a0 < a0), "int8 < of one pointer")
		vspec.Assert(vcComparePtr(ast.LSS, t, x, y) == (a0 < b0), "int8 <")
	case 3:
		vcComparePtr(ast.LEQ, t, nil, y)
		vcComparePtr(ast.LEQ, t, x, nil)
		vcComparePtr(ast.LEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, x) == (a0 <= a0), "int8 <= of one pointer")
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, y) == (a0 <= b0), "int8 <=")
	case 4:
		vcComparePtr(ast.GTR, t, nil, y)
		vcComparePtr(ast.GTR, t, x, nil)
		vcComparePtr(ast.GTR, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTR, t, x, x) == (a0 > a0), "int8 > of one pointer")
		vspec.Assert(vcComparePtr(ast.GTR, t, x, y) == (a0 > b0), "int8 >")
	case 5:
		vcComparePtr(ast.GTE, t, nil, y)
		vcComparePtr(ast.GTE, t, x, nil)
		vcComparePtr(ast.GTE, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTE, t, x, x) == (a0 >= a0), "int8 >= of one pointer")
		vspec.Assert(vcComparePtr(ast.GTE, t, x, y) == (a0 >= b0), "int8 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
}

func VC_C02_AnyInt16() {
	var a, b int16
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(6) {
	case 0:
		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
		vcComparePtr(ast.EQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.EQ, t, x, x) == (a0 == a0), "int16 == of one pointer")
		vspec.Assert(vcComparePtr(ast.EQ, t, x, y) == (a0 == b0), "int16 ==")
	case 1:
		vcComparePtr(ast.NEQ, t, nil, y)
		vcComparePtr(ast.NEQ, t, x, nil)
		vcComparePtr(ast.NEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, x) == (a0 != a0), "int16 != of one pointer")
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, y) == (a0 != b0), "int16 !=")
	case 2:
		vcComparePtr(ast.LSS, t, nil, y)
		vcComparePtr(ast.LSS, t, x, nil)
		vcComparePtr(ast.LSS, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LSS, t, x, x) == (a0 < a0), "int16 < of one pointer")
		vspec.Assert(vcComparePtr(ast.LSS, t, x, y) == (a0 < b0), "int16 <")
	case 3:
		vcComparePtr(ast.LEQ, t, nil, y)
		vcComparePtr(ast.LEQ, t, x, nil)
		vcComparePtr(ast.LEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, x) == (a0 <= a0), "int16 <= of one pointer")
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, y) == (a0 <= b0), "int16 <=")
	case 4:
		vcComparePtr(ast.GTR, t, nil, y)
		vcComparePtr(ast.GTR, t, x, nil)
		vcComparePtr(ast.GTR, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTR, t, x, x) == (a0 > a0), "int16 > of one pointer")
		vspec.Assert(vcComparePtr(ast.GTR, t, x, y) == (a0 > b0), "int16 >")
	case 5:
		vcComparePtr(ast.GTE, t, nil, y)
		vcComparePtr(ast.GTE, t, x, nil)
		vcComparePtr(ast.GTE, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTE, t, x, x) == (a0 >= a0), "int16 >= of one pointer")
		vspec.Assert(vcComparePtr(ast.GTE, t, x, y) == (a0 >= b0), "int16 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
}

func VC_C02_AnyInt32() {
	var a, b int32
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(6) {
	case 0:
		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
		vcComparePtr(ast.EQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.EQ, t, x, x) == (a0 == a0), "int32 == of one pointer")
		vspec.Assert(vcComparePtr(ast.EQ, t, x, y) == (a0 == b0), "int32 ==")
	case 1:
		vcComparePtr(ast.NEQ, t, nil, y)
		vcComparePtr(ast.NEQ, t, x, nil)
		vcComparePtr(ast.NEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, x) == (a0 != a0), "int32 != of one pointer")
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, y) == (a0 != b0), "int32 !=")
	case 2:
		vcComparePtr(ast.LSS, t, nil, y)
		vcComparePtr(ast.LSS, t, x, nil)
		vcComparePtr(ast.LSS, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LSS, t, x, x) == (a0 < a0), "int32 < of one pointer")
		vspec.Assert(vcComparePtr(ast.LSS, t, x, y) == (a0 < b0), "int32 <")
	case 3:
		vcComparePtr(ast.LEQ, t, nil, y)
		vcComparePtr(ast.LEQ, t, x, nil)
		vcComparePtr(ast.LEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, x) == (a0 <= a0), "int32 <= of one pointer")
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, y) == (a0 <= b0), "int32 <=")
	case 4:
		vcComparePtr(ast.GTR, t, nil, y)
		vcComparePtr(ast.GTR, t, x, nil)
		vcComparePtr(ast.GTR, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTR, t, x, x) == (a0 > a0), "int32 > of one pointer")
		vspec.Assert(vcComparePtr(ast.GTR, t, x, y) == (a0 > b0), "int32 >")
	case 5:
		vcComparePtr(ast.GTE, t, nil, y)
		vcComparePtr(ast.GTE, t, x, nil)
		vcComparePtr(ast.GTE, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTE, t, x, x) == (a0 >= a0), "int32 >= of one pointer")
		vspec.Assert(vcComparePtr(ast.GTE, t, x, y) == (a0 >= b0), "int32 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
}

func VC_C02_AnyInt64() {
	var a, b int64
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(6) {
	case 0:
		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
		vcComparePtr(ast.EQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.EQ, t, x, x) == (a0 == a0), "int64 == of one pointer")
		vspec.Assert(vcComparePtr(ast.EQ, t, x, y) == (a0 == b0), "int64 ==")
	case 1:
		vcComparePtr(ast.NEQ, t, nil, y)
		vcComparePtr(ast.NEQ, t, x, nil)
		vcComparePtr(ast.NEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, x) == (a0 != a0), "int64 != of one pointer")
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, y) == (a0 != b0), "int64 !=")
	case 2:
		vcComparePtr(ast.LSS, t, nil, y)
		vcComparePtr(ast.LSS, t, x, nil)
		vcComparePtr(ast.LSS, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LSS, t, x, x) == (a0 < a0), "int64 < of one pointer")
		vspec.Assert(vcComparePtr(ast.LSS, t, x, y) == (a0 < b0), "int64 <")
	case 3:
		vcComparePtr(ast.LEQ, t, nil, y)
		vcComparePtr(ast.LEQ, t, x, nil)
		vcComparePtr(ast.LEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, x) == (a0 <= a0), "int64 <= of one pointer")
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, y) == (a0 <= b0), "int64 <=")
	case 4:
		vcComparePtr(ast.GTR, t, nil, y)
		vcComparePtr(ast.GTR, t, x, nil)
		vcComparePtr(ast.GTR, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTR, t, x, x) == (a0 > a0), "int64 > of one pointer")
		vspec.Assert(vcComparePtr(ast.GTR, t, x, y) == (a0 > b0), "int64 >")
	case 5:
		vcComparePtr(ast.GTE, t, nil, y)
		vcComparePtr(ast.GTE, t, x, nil)
		vcComparePtr(ast.GTE, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTE, t, x, x) == (a0 >= a0), "int64 >= of one pointer")
		vspec.Assert(vcComparePtr(ast.GTE, t, x, y) == (a0 >= b0), "int64 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
}

func VC_C02_AnyUint() {
	var a, b uint
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(6) {
	case 0:
		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
		vcComparePtr(ast.EQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.EQ, t, x, x) == (a0 == a0), "uint == of one pointer")
		vspec.Assert(vcComparePtr(ast.EQ, t, x, y) == (a0 == b0), "uint ==")
	case 1:
		vcComparePtr(ast.NEQ, t, nil, y)
		vcComparePtr(ast.NEQ, t, x, nil)
		vcComparePtr(ast.NEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, x) == (a0 != a0), "uint != of one pointer")
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, y) == (a0 != b0), "uint !=")
	case 2:
		vcComparePtr(ast.LSS, t, nil, y)
		vcComparePtr(ast.LSS, t, x, nil)
		vcComparePtr(ast.LSS, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LSS, t, x, x) == (a0 < a0), "uint < of one pointer")
		vspec.Assert(vcComparePtr(ast.LSS, t, x, y) == (a0 < b0), "uint <")
	case 3:
		vcComparePtr(ast.LEQ, t, nil, y)
		vcComparePtr(ast.LEQ, t, x, nil)
		vcComparePtr(ast.LEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, x) == (a0 <= a0), "uint <= of one pointer")
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, y) == (a0 <= b0), "uint <=")
	case 4:
		vcComparePtr(ast.GTR, t, nil, y)
		vcComparePtr(ast.GTR, t, x, nil)
		vcComparePtr(ast.GTR, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTR, t, x, x) == (a0 > a0), "uint > of one pointer")
		vspec.Assert(vcComparePtr(ast.GTR, t, x, y) == (a0 > b0), "uint >")
	case 5:
		vcComparePtr(ast.GTE, t, nil, y)
		vcComparePtr(ast.GTE, t, x, nil)
		vcComparePtr(ast.GTE, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTE, t, x, x) == (a0 >= a0), "uint >= of one pointer")
		vspec.Assert(vcComparePtr(ast.GTE, t, x, y) == (a0 >= b0), "uint >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
}

func VC_C02_AnyUint8() {
	var a, b uint8
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(6) {
	case 0:
		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
		vcComparePtr(ast.EQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.EQ, t, x, x) == (a0 == a0), "uint8 == of one pointer")
		vspec.Assert(vcComparePtr(ast.EQ, t, x, y) == (a0 == b0), "uint8 ==")
	case 1:
		vcComparePtr(ast.NEQ, t, nil, y)
		vcComparePtr(ast.NEQ, t, x, nil)
		vcComparePtr(ast.NEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, x) == (a0 != a0), "uint8 != of one pointer")
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, y) == (a0 != b0), "uint8 !=")
	case 2:
		vcComparePtr(ast.LSS, t, nil, y)
		vcComparePtr(ast.LSS, t, x, nil)
		vcComparePtr(ast.LSS, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LSS, t, x, x) == (a0 < a0), "uint8 < of one pointer")
		vspec.Assert(vcComparePtr(ast.LSS, t, x, y) == (a0 < b0), "uint8 <")
	case 3:
		vcComparePtr(ast.LEQ, t, nil, y)
		vcComparePtr(ast.LEQ, t, x, nil)
		vcComparePtr(ast.LEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, x) == (a0 <= a0), "uint8 <= of one pointer")
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, y) == (a0 <= b0), "uint8 <=")
	case 4:
		vcComparePtr(ast.GTR, t, nil, y)
		vcComparePtr(ast.GTR, t, x, nil)
		vcComparePtr(ast.GTR, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTR, t, x, x) == (a0 > a0), "uint8 > of one pointer")
		vspec.Assert(vcComparePtr(ast.GTR, t, x, y) == (a0 > b0), "uint8 >")
	case 5:
		vcComparePtr(ast.GTE, t, nil, y)
		vcComparePtr(ast.GTE, t, x, nil)
		vcComparePtr(ast.GTE, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTE, t, x, x) == (a0 >= a0), "uint8 >= of one pointer")
		vspec.Assert(vcComparePtr(ast.GTE, t, x, y) == (a0 >= b0), "uint8 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
}

func VC_C02_AnyUint16() {
	var a, b uint16
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(6) {
	case 0:
		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
		vcComparePtr(ast.EQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.EQ, t, x, x) == (a0 == a0), "uint16 == of one pointer")
		vspec.Assert(vcComparePtr(ast.EQ, t, x, y) == (a0 == b0), "uint16 ==")
	case 1:
		vcComparePtr(ast.NEQ, t, nil, y)
		vcComparePtr(ast.NEQ, t, x, nil)
		vcComparePtr(ast.NEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, x) == (a0 != a0), "uint16 != of one pointer")
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, y) == (a0 != b0), "uint16 !=")
	case 2:
		vcComparePtr(ast.LSS, t, nil, y)
		vcComparePtr(ast.LSS, t, x, nil)
		vcComparePtr(ast.LSS, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LSS, t, x, x) == (a0 < a0), "uint16 < of one pointer")
		vspec.Assert(vcComparePtr(ast.LSS, t, x, y) == (a0 < b0), "uint16 <")
	case 3:
		vcComparePtr(ast.LEQ, t, nil, y)
		vcComparePtr(ast.LEQ, t, x, nil)
		vcComparePtr(ast.LEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, x) == (a0 <= a0), "uint16 <= of one pointer")
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, y) == (a0 <= b0), "uint16 <=")
	case 4:
		vcComparePtr(ast.GTR, t, nil, y)
		vcComparePtr(ast.GTR, t, x, nil)
		vcComparePtr(ast.GTR, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTR, t, x, x) == (a0 > a0), "uint16 > of one pointer")
		vspec.Assert(vcComparePtr(ast.GTR, t, x, y) == (a0 > b0), "uint16 >")
	case 5:
		vcComparePtr(ast.GTE, t, nil, y)
		vcComparePtr(ast.GTE, t, x, nil)
		vcComparePtr(ast.GTE, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTE, t, x, x) == (a0 >= a0), "uint16 >= of one pointer")
		vspec.Assert(vcComparePtr(ast.GTE, t, x, y) == (a0 >= b0), "uint16 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
}

func VC_C02_AnyUint32() {
	var a, b uint32
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(6) {
	case 0:
		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
		vcComparePtr(ast.EQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.EQ, t, x, x) == (a0 == a0), "uint32 == of one pointer")
		vspec.Assert(vcComparePtr(ast.EQ, t, x, y) == (a0 == b0), "uint32 ==")
	case 1:
		vcComparePtr(ast.NEQ, t, nil, y)
		vcComparePtr(ast.NEQ, t, x, nil)
		vcComparePtr(ast.NEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, x) == (a0 != a0), "uint32 != of one pointer")
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, y) == (a0 != b0), "uint32 !=")
	case 2:
		vcComparePtr(ast.LSS, t, nil, y)
		vcComparePtr(ast.LSS, t, x, nil)
		vcComparePtr(ast.LSS, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LSS, t, x, x) == (a0 < a0), "uint32 < of one pointer")
		vspec.Assert(vcComparePtr(ast.LSS, t, x, y) == (a0 < b0), "uint32 <")
	case 3:
		vcComparePtr(ast.LEQ, t, nil, y)
		vcComparePtr(ast.LEQ, t, x, nil)
		vcComparePtr(ast.LEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, x) == (a0 <= a0), "uint32 <= of one pointer")
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, y) == (a0 <= b0), "uint32 <=")
	case 4:
		vcComparePtr(ast.GTR, t, nil, y)
		vcComparePtr(ast.GTR, t, x, nil)
		vcComparePtr(ast.GTR, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTR, t, x, x) == (a0 > a0), "uint32 > of one pointer")
		vspec.Assert(vcComparePtr(ast.GTR, t, x, y) == (a0 > b0), "uint32 >")
	case 5:
		vcComparePtr(ast.GTE, t, nil, y)
		vcComparePtr(ast.GTE, t, x, nil)
		vcComparePtr(ast.GTE, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTE, t, x, x) == (a0 >= a0), "uint32 >= of one pointer")
		vspec.Assert(vcComparePtr(ast.GTE, t, x, y) == (a0 >= b0), "uint32 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
}

func VC_C02_AnyUint64() {
	var a, b uint64
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(6) {
	case 0:
		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
		vcComparePtr(ast.EQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.EQ, t, x, x) == (a0 == a0), "uint64 == of one pointer")
		vspec.Assert(vcComparePtr(ast.EQ, t, x, y) == (a0 == b0), "uint64 ==")
	case 1:
		vcComparePtr(ast.NEQ, t, nil, y)
		vcComparePtr(ast.NEQ, t, x, nil)
		vcComparePtr(ast.NEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, x) == (a0 != a0), "uint64 != of one pointer")
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, y) == (a0 != b0), "uint64 !=")
	case 2:
		vcComparePtr(ast.LSS, t, nil, y)
		vcComparePtr(ast.LSS, t, x, nil)
		vcComparePtr(ast.LSS, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LSS, t, x, x) == (a0 < a0), "uint64 < of one pointer")
		vspec.Assert(vcComparePtr(ast.LSS, t, x, y) == (a0 < b0), "uint64 <")
	case 3:
		vcComparePtr(ast.LEQ, t, nil, y)
		vcComparePtr(ast.LEQ, t, x, nil)
		vcComparePtr(ast.LEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, x) == (a0 <= a0), "uint64 <= of one pointer")
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, y) == (a0 <= b0), "uint64 <=")
	case 4:
		vcComparePtr(ast.GTR, t, nil, y)
		vcComparePtr(ast.GTR, t, x, nil)
		vcComparePtr(ast.GTR, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTR, t, x, x) == (a0 > a0), "uint64 > of one pointer")
		vspec.Assert(vcComparePtr(ast.GTR, t, x, y) == (a0 > b0), "uint64 >")
	case 5:
		vcComparePtr(ast.GTE, t, nil, y)
		vcComparePtr(ast.GTE, t, x, nil)
		vcComparePtr(ast.GTE, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTE, t, x, x) == (a0 >= a0), "uint64 >= of one pointer")
		vspec.Assert(vcComparePtr(ast.GTE, t, x, y) == (a0 >= b0), "uint64 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
}

func VC_C02_AnyFloat32() {
	var a, b float32
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(6) {
	case 0:
		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
		vcComparePtr(ast.EQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.EQ, t, x, x) == (a0 == a0), "float32 == of one pointer")
		vspec.Assert(vcComparePtr(ast.EQ, t, x, y) == (a0 == b0), "float32 ==")
	case 1:
		vcComparePtr(ast.NEQ, t, nil, y)
		vcComparePtr(ast.NEQ, t, x, nil)
		vcComparePtr(ast.NEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, x) == (a0 != a0), "float32 != of one pointer")
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, y) == (a0 != b0), "float32 !=")
	case 2:
		vcComparePtr(ast.LSS, t, nil, y)
		vcComparePtr(ast.LSS, t, x, nil)
		vcComparePtr(ast.LSS, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LSS, t, x, x) == (a0 < a0), "float32 < of one pointer")
		vspec.Assert(vcComparePtr(ast.LSS, t, x, y) == (a0 < b0), "float32 <")
	case 3:
		vcComparePtr(ast.LEQ, t, nil, y)
		vcComparePtr(ast.LEQ, t, x, nil)
		vcComparePtr(ast.LEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, x) == (a0 <= a0), "float32 <= of one pointer")
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, y) == (a0 <= b0), "float32 <=")
	case 4:
		vcComparePtr(ast.GTR, t, nil, y)
		vcComparePtr(ast.GTR, t, x, nil)
		vcComparePtr(ast.GTR, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTR, t, x, x) == (a0 > a0), "float32 > of one pointer")
		vspec.Assert(vcComparePtr(ast.GTR, t, x, y) == (a0 > b0), "float32 >")
	case 5:
		vcComparePtr(ast.GTE, t, nil, y)
		vcComparePtr(ast.GTE, t, x, nil)
		vcComparePtr(ast.GTE, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTE, t, x, x) == (a0 >= a0), "float32 >= of one pointer")
		vspec.Assert(vcComparePtr(ast.GTE, t, x, y) == (a0 >= b0), "float32 >=")
	}
	vspec.Assert(vspec.And(vspec.SameFloat(float64(a), float64(a0)), vspec.SameFloat(float64(b), float64(b0))), "the operands keep their values")
}

func VC_C02_AnyFloat64() {
	var a, b float64
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(6) {
	case 0:
		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
		vcComparePtr(ast.EQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.EQ, t, x, x) == (a0 == a0), "float64 == of one pointer")
		vspec.Assert(vcComparePtr(ast.EQ, t, x, y) == (a0 == b0), "float64 ==")
	case 1:
		vcComparePtr(ast.NEQ, t, nil, y)
		vcComparePtr(ast.NEQ, t, x, nil)
		vcComparePtr(ast.NEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, x) == (a0 != a0), "float64 != of one pointer")
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, y) == (a0 != b0), "float64 !=")
	case 2:
		vcComparePtr(ast.LSS, t, nil, y)
		vcComparePtr(ast.LSS, t, x, nil)
		vcComparePtr(ast.LSS, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LSS, t, x, x) == (a0 < a0), "float64 < of one pointer")
		vspec.Assert(vcComparePtr(ast.LSS, t, x, y) == (a0 < b0), "float64 <")
	case 3:
		vcComparePtr(ast.LEQ, t, nil, y)
		vcComparePtr(ast.LEQ, t, x, nil)
		vcComparePtr(ast.LEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, x) == (a0 <= a0), "float64 <= of one pointer")
		vspec.Assert(vcComparePtr(ast.LEQ, t, x, y) == (a0 <= b0), "float64 <=")
	case 4:
		vcComparePtr(ast.GTR, t, nil, y)
		vcComparePtr(ast.GTR, t, x, nil)
		vcComparePtr(ast.GTR, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTR, t, x, x) == (a0 > a0), "float64 > of one pointer")
		vspec.Assert(vcComparePtr(ast.GTR, t, x, y) == (a0 > b0), "float64 >")
	case 5:
		vcComparePtr(ast.GTE, t, nil, y)
		vcComparePtr(ast.GTE, t, x, nil)
		vcComparePtr(ast.GTE, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.GTE, t, x, x) == (a0 >= a0), "float64 >= of one pointer")
		vspec.Assert(vcComparePtr(ast.GTE, t, x, y) == (a0 >= b0), "float64 >=")
	}
	vspec.Assert(vspec.And(vspec.SameFloat(float64(a), float64(a0)), vspec.SameFloat(float64(b), float64(b0))), "the operands keep their values")
}

func VC_C02_AnyString() {
	var a, b string
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(2) {
	case 0:
		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
		vcComparePtr(ast.EQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.EQ, t, x, x) == (a0 == a0), "string == of one pointer")
		vspec.Assert(vcComparePtr(ast.EQ, t, x, y) == (a0 == b0), "string ==")
	case 1:
		vcComparePtr(ast.NEQ, t, nil, y)
		vcComparePtr(ast.NEQ, t, x, nil)
		vcComparePtr(ast.NEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, x) == (a0 != a0), "string != of one pointer")
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, y) == (a0 != b0), "string !=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
}

func VC_C02_AnyBool() {
	var a, b bool
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(2) {
	case 0:
		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
		vcComparePtr(ast.EQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.EQ, t, x, x) == (a0 == a0), "bool == of one pointer")
		vspec.Assert(vcComparePtr(ast.EQ, t, x, y) == (a0 == b0), "bool ==")
	case 1:
		vcComparePtr(ast.NEQ, t, nil, y)
		vcComparePtr(ast.NEQ, t, x, nil)
		vcComparePtr(ast.NEQ, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, x) == (a0 != a0), "bool != of one pointer")
		vspec.Assert(vcComparePtr(ast.NEQ, t, x, y) == (a0 != b0), "bool !=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
}
