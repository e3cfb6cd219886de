package velty

import (
	"github.com/viant/velty/internal/vspec"
)

// Pointer operands: a variable, a field of a struct variable or a field of a pointer variable.
var vcPtrForms = []string{"$v#", "$w#.P", "$r#.P"}

// vcPtrTemplate picks the forms of the two operands
func vcPtrTemplate(op string) string {
	k := vspec.Pick(len(vcPtrForms) * len(vcPtrForms))
	return "#set($o.B = " + vcOperand(vcPtrForms[k/3], "0", "") + " " + op + " " + vcOperand(vcPtrForms[k%3], "1", "") + ")"
}

type vcPtrInt struct {
	Pad int32
	P   *int
	Q   *int
}

func VC_C02_Int() {
	var a, b, q int
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *int) []vcVar {
		h0, h1 := vcPtrInt{P: x, Q: &q}, vcPtrInt{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*int{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == b0), "int ==")
	case "!=":
		vspec.Assert(o.B == (a0 != b0), "int !=")
	case "<":
		vspec.Assert(o.B == (a0 < b0), "int <")
	case "<=":
		vspec.Assert(o.B == (a0 <= b0), "int <=")
	case ">":
		vspec.Assert(o.B == (a0 > b0), "int >")
	case ">=":
		vspec.Assert(o.B == (a0 >= b0), "int >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == a0), "int == of one pointer")
	case "!=":
		vspec.Assert(o.B == (a0 != a0), "int != of one pointer")
	case "<":
		vspec.Assert(o.B == (a0 < a0), "int < of one pointer")
	case "<=":
		vspec.Assert(o.B == (a0 <= a0), "int <= of one pointer")
	case ">":
		vspec.Assert(o.B == (a0 > a0), "int > of one pointer")
	case ">=":
		vspec.Assert(o.B == (a0 >= a0), "int >= of one pointer")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}

type vcPtrInt8 struct {
	Pad int32
	P   *int8
	Q   *int8
}

func VC_C02_Int8() {
	var a, b, q int8
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *int8) []vcVar {
		h0, h1 := vcPtrInt8{P: x, Q: &q}, vcPtrInt8{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*int8{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == b0), "int8 ==")
	case "!=":
		vspec.Assert(o.B == (a0 != b0), "int8 !=")
	case "<":
		vspec.Assert(o.B == (a0 < b0), "int8 <")
	case "<=":
		vspec.Assert(o.B == (a0 <= b0), "int8 <=")
	case ">":
		vspec.Assert(o.B == (a0 > b0), "int8 >")
	case ">=":
		vspec.Assert(o.B == (a0 >= b0), "int8 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == a0), "int8 == of one pointer")
	case "!=":
		vspec.Assert(o.B == (a0 != a0), "int8 != of one pointer")
	case "<":
		vspec.Assert(o.B == (a0 < a0), "int8 < of one pointer")
	case "<=":
		vspec.Assert(o.B == (a0 <= a0), "int8 <= of one pointer")
	case ">":
		vspec.Assert(o.B == (a0 > a0), "int8 > of one pointer")
	case ">=":
		vspec.Assert(o.B == (a0 >= a0), "int8 >= of one pointer")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}

type vcPtrInt16 struct {
	Pad int32
	P   *int16
	Q   *int16
}

func VC_C02_Int16() {
	var a, b, q int16
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *int16) []vcVar {
		h0, h1 := vcPtrInt16{P: x, Q: &q}, vcPtrInt16{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*int16{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == b0), "int16 ==")
	case "!=":
		vspec.Assert(o.B == (a0 != b0), "int16 !=")
	case "<":
		vspec.Assert(o.B == (a0 < b0), "int16 <")
	case "<=":
		vspec.Assert(o.B == (a0 <= b0), "int16 <=")
	case ">":
		vspec.Assert(o.B == (a0 > b0), "int16 >")
	case ">=":
		vspec.Assert(o.B == (a0 >= b0), "int16 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == a0), "int16 == of one pointer")
	case "!=":
		vspec.Assert(o.B == (a0 != a0), "int16 != of one pointer")
	case "<":
		vspec.Assert(o.B == (a0 < a0), "int16 < of one pointer")
	case "<=":
		vspec.Assert(o.B == (a0 <= a0), "int16 <= of one pointer")
	case ">":
		vspec.Assert(o.B == (a0 > a0), "int16 > of one pointer")
	case ">=":
		vspec.Assert(o.B == (a0 >= a0), "int16 >= of one pointer")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}

type vcPtrInt32 struct {
	Pad int32
	P   *int32
	Q   *int32
}

func VC_C02_Int32() {
	var a, b, q int32
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *int32) []vcVar {
		h0, h1 := vcPtrInt32{P: x, Q: &q}, vcPtrInt32{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*int32{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == b0), "int32 ==")
	case "!=":
		vspec.Assert(o.B == (a0 != b0), "int32 !=")
	case "<":
		vspec.Assert(o.B == (a0 < b0), "int32 <")
	case "<=":
		vspec.Assert(o.B == (a0 <= b0), "int32 <=")
	case ">":
		vspec.Assert(o.B == (a0 > b0), "int32 >")
	case ">=":
		vspec.Assert(o.B == (a0 >= b0), "int32 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == a0), "int32 == of one pointer")
	case "!=":
		vspec.Assert(o.B == (a0 != a0), "int32 != of one pointer")
	case "<":
		vspec.Assert(o.B == (a0 < a0), "int32 < of one pointer")
	case "<=":
		vspec.Assert(o.B == (a0 <= a0), "int32 <= of one pointer")
	case ">":
		vspec.Assert(o.B == (a0 > a0), "int32 > of one pointer")
	case ">=":
		vspec.Assert(o.B == (a0 >= a0), "int32 >= of one pointer")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}

type vcPtrInt64 struct {
	Pad int32
	P   *int64
	Q   *int64
}

func VC_C02_Int64() {
	var a, b, q int64
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *int64) []vcVar {
		h0, h1 := vcPtrInt64{P: x, Q: &q}, vcPtrInt64{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*int64{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == b0), "int64 ==")
	case "!=":
		vspec.Assert(o.B == (a0 != b0), "int64 !=")
	case "<":
		vspec.Assert(o.B == (a0 < b0), "int64 <")
	case "<=":
		vspec.Assert(o.B == (a0 <= b0), "int64 <=")
	case ">":
		vspec.Assert(o.B == (a0 > b0), "int64 >")
	case ">=":
		vspec.Assert(o.B == (a0 >= b0), "int64 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == a0), "int64 == of one pointer")
	case "!=":
		vspec.Assert(o.B == (a0 != a0), "int64 != of one pointer")
	case "<":
		vspec.Assert(o.B == (a0 < a0), "int64 < of one pointer")
	case "<=":
		vspec.Assert(o.B == (a0 <= a0), "int64 <= of one pointer")
	case ">":
		vspec.Assert(o.B == (a0 > a0), "int64 > of one pointer")
	case ">=":
		vspec.Assert(o.B == (a0 >= a0), "int64 >= of one pointer")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}

type vcPtrUint struct {
	Pad int32
	P   *uint
	Q   *uint
}

func VC_C02_Uint() {
	var a, b, q uint
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *uint) []vcVar {
		h0, h1 := vcPtrUint{P: x, Q: &q}, vcPtrUint{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*uint{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == b0), "uint ==")
	case "!=":
		vspec.Assert(o.B == (a0 != b0), "uint !=")
	case "<":
		vspec.Assert(o.B == (a0 < b0), "uint <")
	case "<=":
		vspec.Assert(o.B == (a0 <= b0), "uint <=")
	case ">":
		vspec.Assert(o.B == (a0 > b0), "uint >")
	case ">=":
		vspec.Assert(o.B == (a0 >= b0), "uint >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == a0), "uint == of one pointer")
	case "!=":
		vspec.Assert(o.B == (a0 != a0), "uint != of one pointer")
	case "<":
		vspec.Assert(o.B == (a0 < a0), "uint < of one pointer")
	case "<=":
		vspec.Assert(o.B == (a0 <= a0), "uint <= of one pointer")
	case ">":
		vspec.Assert(o.B == (a0 > a0), "uint > of one pointer")
	case ">=":
		vspec.Assert(o.B == (a0 >= a0), "uint >= of one pointer")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}

type vcPtrUint8 struct {
	Pad int32
	P   *uint8
	Q   *uint8
}

func VC_C02_Uint8() {
	var a, b, q uint8
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *uint8) []vcVar {
		h0, h1 := vcPtrUint8{P: x, Q: &q}, vcPtrUint8{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*uint8{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == b0), "uint8 ==")
	case "!=":
		vspec.Assert(o.B == (a0 != b0), "uint8 !=")
	case "<":
		vspec.Assert(o.B == (a0 < b0), "uint8 <")
	case "<=":
		vspec.Assert(o.B == (a0 <= b0), "uint8 <=")
	case ">":
		vspec.Assert(o.B == (a0 > b0), "uint8 >")
	case ">=":
		vspec.Assert(o.B == (a0 >= b0), "uint8 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == a0), "uint8 == of one pointer")
	case "!=":
		vspec.Assert(o.B == (a0 != a0), "uint8 != of one pointer")
	case "<":
		vspec.Assert(o.B == (a0 < a0), "uint8 < of one pointer")
	case "<=":
		vspec.Assert(o.B == (a0 <= a0), "uint8 <= of one pointer")
	case ">":
		vspec.Assert(o.B == (a0 > a0), "uint8 > of one pointer")
	case ">=":
		vspec.Assert(o.B == (a0 >= a0), "uint8 >= of one pointer")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}

type vcPtrUint16 struct {
	Pad int32
	P   *uint16
	Q   *uint16
}

func VC_C02_Uint16() {
	var a, b, q uint16
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *uint16) []vcVar {
		h0, h1 := vcPtrUint16{P: x, Q: &q}, vcPtrUint16{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*uint16{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == b0), "uint16 ==")
	case "!=":
		vspec.Assert(o.B == (a0 != b0), "uint16 !=")
	case "<":
		vspec.Assert(o.B == (a0 < b0), "uint16 <")
	case "<=":
		vspec.Assert(o.B == (a0 <= b0), "uint16 <=")
	case ">":
		vspec.Assert(o.B == (a0 > b0), "uint16 >")
	case ">=":
		vspec.Assert(o.B == (a0 >= b0), "uint16 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == a0), "uint16 == of one pointer")
	case "!=":
		vspec.Assert(o.B == (a0 != a0), "uint16 != of one pointer")
	case "<":
		vspec.Assert(o.B == (a0 < a0), "uint16 < of one pointer")
	case "<=":
		vspec.Assert(o.B == (a0 <= a0), "uint16 <= of one pointer")
	case ">":
		vspec.Assert(o.B == (a0 > a0), "uint16 > of one pointer")
	case ">=":
		vspec.Assert(o.B == (a0 >= a0), "uint16 >= of one pointer")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}

type vcPtrUint32 struct {
	Pad int32
	P   *uint32
	Q   *uint32
}

func VC_C02_Uint32() {
	var a, b, q uint32
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *uint32) []vcVar {
		h0, h1 := vcPtrUint32{P: x, Q: &q}, vcPtrUint32{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*uint32{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == b0), "uint32 ==")
	case "!=":
		vspec.Assert(o.B == (a0 != b0), "uint32 !=")
	case "<":
		vspec.Assert(o.B == (a0 < b0), "uint32 <")
	case "<=":
		vspec.Assert(o.B == (a0 <= b0), "uint32 <=")
	case ">":
		vspec.Assert(o.B == (a0 > b0), "uint32 >")
	case ">=":
		vspec.Assert(o.B == (a0 >= b0), "uint32 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == a0), "uint32 == of one pointer")
	case "!=":
		vspec.Assert(o.B == (a0 != a0), "uint32 != of one pointer")
	case "<":
		vspec.Assert(o.B == (a0 < a0), "uint32 < of one pointer")
	case "<=":
		vspec.Assert(o.B == (a0 <= a0), "uint32 <= of one pointer")
	case ">":
		vspec.Assert(o.B == (a0 > a0), "uint32 > of one pointer")
	case ">=":
		vspec.Assert(o.B == (a0 >= a0), "uint32 >= of one pointer")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}

type vcPtrUint64 struct {
	Pad int32
	P   *uint64
	Q   *uint64
}

func VC_C02_Uint64() {
	var a, b, q uint64
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *uint64) []vcVar {
		h0, h1 := vcPtrUint64{P: x, Q: &q}, vcPtrUint64{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*uint64{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == b0), "uint64 ==")
	case "!=":
		vspec.Assert(o.B == (a0 != b0), "uint64 !=")
	case "<":
		vspec.Assert(o.B == (a0 < b0), "uint64 <")
	case "<=":
		vspec.Assert(o.B == (a0 <= b0), "uint64 <=")
	case ">":
		vspec.Assert(o.B == (a0 > b0), "uint64 >")
	case ">=":
		vspec.Assert(o.B == (a0 >= b0), "uint64 >=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == a0), "uint64 == of one pointer")
	case "!=":
		vspec.Assert(o.B == (a0 != a0), "uint64 != of one pointer")
	case "<":
		vspec.Assert(o.B == (a0 < a0), "uint64 < of one pointer")
	case "<=":
		vspec.Assert(o.B == (a0 <= a0), "uint64 <= of one pointer")
	case ">":
		vspec.Assert(o.B == (a0 > a0), "uint64 > of one pointer")
	case ">=":
		vspec.Assert(o.B == (a0 >= a0), "uint64 >= of one pointer")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}

type vcPtrFloat32 struct {
	Pad int32
	P   *float32
	Q   *float32
}

func VC_C02_Float32() {
	var a, b, q float32
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *float32) []vcVar {
		h0, h1 := vcPtrFloat32{P: x, Q: &q}, vcPtrFloat32{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*float32{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == b0), "float32 ==")
	case "!=":
		vspec.Assert(o.B == (a0 != b0), "float32 !=")
	case "<":
		vspec.Assert(o.B == (a0 < b0), "float32 <")
	case "<=":
		vspec.Assert(o.B == (a0 <= b0), "float32 <=")
	case ">":
		vspec.Assert(o.B == (a0 > b0), "float32 >")
	case ">=":
		vspec.Assert(o.B == (a0 >= b0), "float32 >=")
	}
	vspec.Assert(vspec.And(vspec.SameFloat(float64(a), float64(a0)), vspec.SameFloat(float64(b), float64(b0))), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == a0), "float32 == of one pointer")
	case "!=":
		vspec.Assert(o.B == (a0 != a0), "float32 != of one pointer")
	case "<":
		vspec.Assert(o.B == (a0 < a0), "float32 < of one pointer")
	case "<=":
		vspec.Assert(o.B == (a0 <= a0), "float32 <= of one pointer")
	case ">":
		vspec.Assert(o.B == (a0 > a0), "float32 > of one pointer")
	case ">=":
		vspec.Assert(o.B == (a0 >= a0), "float32 >= of one pointer")
	}
	vspec.Assert(vspec.SameFloat(float64(a), float64(a0)), "the operands keep their values")
}

type vcPtrFloat64 struct {
	Pad int32
	P   *float64
	Q   *float64
}

func VC_C02_Float64() {
	var a, b, q float64
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *float64) []vcVar {
		h0, h1 := vcPtrFloat64{P: x, Q: &q}, vcPtrFloat64{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*float64{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == b0), "float64 ==")
	case "!=":
		vspec.Assert(o.B == (a0 != b0), "float64 !=")
	case "<":
		vspec.Assert(o.B == (a0 < b0), "float64 <")
	case "<=":
		vspec.Assert(o.B == (a0 <= b0), "float64 <=")
	case ">":
		vspec.Assert(o.B == (a0 > b0), "float64 >")
	case ">=":
		vspec.Assert(o.B == (a0 >= b0), "float64 >=")
	}
	vspec.Assert(vspec.And(vspec.SameFloat(float64(a), float64(a0)), vspec.SameFloat(float64(b), float64(b0))), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == a0), "float64 == of one pointer")
	case "!=":
		vspec.Assert(o.B == (a0 != a0), "float64 != of one pointer")
	case "<":
		vspec.Assert(o.B == (a0 < a0), "float64 < of one pointer")
	case "<=":
		vspec.Assert(o.B == (a0 <= a0), "float64 <= of one pointer")
	case ">":
		vspec.Assert(o.B == (a0 > a0), "float64 > of one pointer")
	case ">=":
		vspec.Assert(o.B == (a0 >= a0), "float64 >= of one pointer")
	}
	vspec.Assert(vspec.SameFloat(float64(a), float64(a0)), "the operands keep their values")
}

type vcPtrString struct {
	Pad int32
	P   *string
	Q   *string
}

func VC_C02_String() {
	var a, b, q string
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{"==", "!="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *string) []vcVar {
		h0, h1 := vcPtrString{P: x, Q: &q}, vcPtrString{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*string{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == b0), "string ==")
	case "!=":
		vspec.Assert(o.B == (a0 != b0), "string !=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == a0), "string == of one pointer")
	case "!=":
		vspec.Assert(o.B == (a0 != a0), "string != of one pointer")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}

type vcPtrBool struct {
	Pad int32
	P   *bool
	Q   *bool
}

func VC_C02_Bool() {
	var a, b, q bool
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{"==", "!="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *bool) []vcVar {
		h0, h1 := vcPtrBool{P: x, Q: &q}, vcPtrBool{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*bool{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == b0), "bool ==")
	case "!=":
		vspec.Assert(o.B == (a0 != b0), "bool !=")
	}
	vspec.Assert(vspec.And(a == a0, b == b0), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
	case "==":
		vspec.Assert(o.B == (a0 == a0), "bool == of one pointer")
	case "!=":
		vspec.Assert(o.B == (a0 != a0), "bool != of one pointer")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}

// VC_C02_MixedInt compares a pointer with a value
func VC_C02_MixedInt() {
	var a, b int
	vspec.Fill(&a)
	vspec.Fill(&b)
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	right := "$v1"
	if vspec.Pick(2) == 1 {
		b, right = 5, `5`
	}
	left := vspec.Pick(2) == 0
	a0, b0 := a, b
	tmpl := "#set($o.B = $v0 " + op + " " + right + ")"
	if !left {
		tmpl = "#set($o.B = " + right + " " + op + " $v0)"
	}
	vars := func(x *int) []vcVar { return []vcVar{{"o", &o}, {"v0", x}, {"v1", b}} }
	r := vcNew(tmpl, vars(nil)...)
	r.run()
	if op == "==" {
		vspec.Assert(!o.B, "nil is not equal to a value")
	}
	r.fresh(vars(&a)...)
	r.run()
	x, y := a0, b0
	if !left {
		x, y = b0, a0
	}
	switch op {
	case "==":
		vspec.Assert(o.B == (x == y), "int ==")
	case "!=":
		vspec.Assert(o.B == (x != y), "int !=")
	case "<":
		vspec.Assert(o.B == (x < y), "int <")
	case "<=":
		vspec.Assert(o.B == (x <= y), "int <=")
	case ">":
		vspec.Assert(o.B == (x > y), "int >")
	case ">=":
		vspec.Assert(o.B == (x >= y), "int >=")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}

// VC_C02_MixedFloat64 compares a pointer with a value
func VC_C02_MixedFloat64() {
	var a, b float64
	vspec.Fill(&a)
	vspec.Fill(&b)
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	right := "$v1"
	if vspec.Pick(2) == 1 {
		b, right = 2.5, `2.5`
	}
	left := vspec.Pick(2) == 0
	a0, b0 := a, b
	tmpl := "#set($o.B = $v0 " + op + " " + right + ")"
	if !left {
		tmpl = "#set($o.B = " + right + " " + op + " $v0)"
	}
	vars := func(x *float64) []vcVar { return []vcVar{{"o", &o}, {"v0", x}, {"v1", b}} }
	r := vcNew(tmpl, vars(nil)...)
	r.run()
	if op == "==" {
		vspec.Assert(!o.B, "nil is not equal to a value")
	}
	r.fresh(vars(&a)...)
	r.run()
	x, y := a0, b0
	if !left {
		x, y = b0, a0
	}
	switch op {
	case "==":
		vspec.Assert(o.B == (x == y), "float64 ==")
	case "!=":
		vspec.Assert(o.B == (x != y), "float64 !=")
	case "<":
		vspec.Assert(o.B == (x < y), "float64 <")
	case "<=":
		vspec.Assert(o.B == (x <= y), "float64 <=")
	case ">":
		vspec.Assert(o.B == (x > y), "float64 >")
	case ">=":
		vspec.Assert(o.B == (x >= y), "float64 >=")
	}
	vspec.Assert(vspec.SameFloat(float64(a), float64(a0)), "the operands keep their values")
}

// VC_C02_MixedString compares a pointer with a value
func VC_C02_MixedString() {
	var a, b string
	vspec.Fill(&a)
	vspec.Fill(&b)
	ops := []string{"==", "!="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	right := "$v1"
	if vspec.Pick(2) == 1 {
		b, right = "abc", `"abc"`
	}
	left := vspec.Pick(2) == 0
	a0, b0 := a, b
	tmpl := "#set($o.B = $v0 " + op + " " + right + ")"
	if !left {
		tmpl = "#set($o.B = " + right + " " + op + " $v0)"
	}
	vars := func(x *string) []vcVar { return []vcVar{{"o", &o}, {"v0", x}, {"v1", b}} }
	r := vcNew(tmpl, vars(nil)...)
	r.run()
	if op == "==" {
		vspec.Assert(!o.B, "nil is not equal to a value")
	}
	r.fresh(vars(&a)...)
	r.run()
	x, y := a0, b0
	if !left {
		x, y = b0, a0
	}
	switch op {
	case "==":
		vspec.Assert(o.B == (x == y), "string ==")
	case "!=":
		vspec.Assert(o.B == (x != y), "string !=")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}

// VC_C02_MixedBool compares a pointer with a value
func VC_C02_MixedBool() {
	var a, b bool
	vspec.Fill(&a)
	vspec.Fill(&b)
	ops := []string{"==", "!="}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	right := "$v1"
	if vspec.Pick(2) == 1 {
		b, right = true, `true`
	}
	left := vspec.Pick(2) == 0
	a0, b0 := a, b
	tmpl := "#set($o.B = $v0 " + op + " " + right + ")"
	if !left {
		tmpl = "#set($o.B = " + right + " " + op + " $v0)"
	}
	vars := func(x *bool) []vcVar { return []vcVar{{"o", &o}, {"v0", x}, {"v1", b}} }
	r := vcNew(tmpl, vars(nil)...)
	r.run()
	if op == "==" {
		vspec.Assert(!o.B, "nil is not equal to a value")
	}
	r.fresh(vars(&a)...)
	r.run()
	x, y := a0, b0
	if !left {
		x, y = b0, a0
	}
	switch op {
	case "==":
		vspec.Assert(o.B == (x == y), "bool ==")
	case "!=":
		vspec.Assert(o.B == (x != y), "bool !=")
	}
	vspec.Assert(a == a0, "the operands keep their values")
}
