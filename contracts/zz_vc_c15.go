package velty

import (
	"encoding/json"
	"errors"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/viant/velty/internal/vspec"
)

// vcGot15 gets the result of a built-in function
type vcGot15 struct{ f func(v interface{}) }

func (g *vcGot15) got(v interface{}) int {
	g.f(v)
	return 0
}

func (g *vcGot15) S(v string) int     { return g.got(v) }
func (g *vcGot15) I(v int) int        { return g.got(v) }
func (g *vcGot15) B(v bool) int       { return g.got(v) }
func (g *vcGot15) F(v float64) int    { return g.got(v) }
func (g *vcGot15) U(v uint64) int     { return g.got(v) }
func (g *vcGot15) LS(v []string) int  { return g.got(v) }
func (g *vcGot15) LI(v []int) int     { return g.got(v) }
func (g *vcGot15) LF(v []float64) int { return g.got(v) }

// vcBuiltin calls a built-in function and gives its result and error
func vcBuiltin(to, fn string, args ...interface{}) (result interface{}, err error) {
	n := 0
	g := &vcGot15{func(v interface{}) {
		n++
		result = v
	}}
	text := ""
	vars := []vcVar{{"got", g}, {"z", 0}}
	for k, a := range args {
		name := "a" + strconv.Itoa(k)
		if k > 0 {
			text += ", "
		}
		text += "$" + name
		vars = append(vars, vcVar{name, a})
	}
	r := vcNew("#set($z = $got."+to+"($"+fn+"("+text+")))", vars...)
	err = r.exec.Exec(r.st)
	vspec.Assert(n == 1, "the function returns once")
	if err != nil {
		vspec.Assert(len(r.st.Errors) == 1, "one error is recorded")
	}
	return result, err
}

func vcString15(to, fn, want string, args ...interface{}) {
	got, err := vcBuiltin(to, fn, args...)
	vspec.Assert(err == nil, "no error")
	vspec.Assert(got.(string) == want, "the result is that of the Go function")
}

func vcInt15(fn string, want int, args ...interface{}) {
	got, err := vcBuiltin("I", fn, args...)
	vspec.Assert(err == nil, "no error")
	vspec.Assert(got.(int) == want, "the result is that of the Go function")
}

func vcBool15(fn string, want bool, args ...interface{}) {
	got, err := vcBuiltin("B", fn, args...)
	vspec.Assert(err == nil, "no error")
	vspec.Assert(got.(bool) == want, "the result is that of the Go function")
}

func vcFloat15(fn string, want float64, args ...interface{}) {
	got, err := vcBuiltin("F", fn, args...)
	vspec.Assert(err == nil, "no error")
	f := got.(float64)
	vspec.Assert(vspec.SameFloat(f, want), "the result is that of the Go function")
}

func vcStrings15(got, want []string) {
	vspec.Assert(len(got) == len(want), "the result has the length of that of the Go function")
	vspec.AssertAll(0, len(want), func(i int) bool {
		a, b := got[i], want[i]
		return a == b
	}, "the elements are those of the Go function")
}

// strings: results that are strings.
func VC_C15_StringsToString() {
	a, b, c := vspec.String(), vspec.String(), vspec.String()
	switch vspec.Pick(5) {
	case 0:
		vcString15("S", "strings.ToLower", strings.ToLower(a), a)
	case 1:
		vcString15("S", "strings.ToUpper", strings.ToUpper(a), a)
	case 2:
		vcString15("S", "strings.TrimSpace", strings.TrimSpace(a), a)
	case 3:
		vcString15("S", "strings.Trim", strings.Trim(a, b), a, b)
	case 4:
		vcString15("S", "strings.ReplaceAll", strings.ReplaceAll(a, b, c), a, b, c)
	}
}

// strings: results that are numbers or bools.
func VC_C15_StringsToValue() {
	a, b := vspec.String(), vspec.String()
	switch vspec.Pick(5) {
	case 0:
		vcBool15("strings.HasPrefix", strings.HasPrefix(a, b), a, b)
	case 1:
		vcBool15("strings.HasSuffix", strings.HasSuffix(a, b), a, b)
	case 2:
		vcInt15("strings.Index", strings.Index(a, b), a, b)
	case 3:
		vcInt15("strings.LastIndex", strings.LastIndex(a, b), a, b)
	case 4:
		vcInt15("strings.Length", len(a), a)
	}
}

// strings: results that are slices.
func VC_C15_StringsToSlice() {
	a, b := vspec.String(), vspec.String()
	if vspec.Pick(2) == 0 {
		got, err := vcBuiltin("LS", "strings.Split", a, b)
		vspec.Assert(err == nil, "no error")
		vcStrings15(got.([]string), strings.Split(a, b))
		return
	}
	got, err := vcBuiltin("LS", "strings.Fields", a)
	vspec.Assert(err == nil, "no error")
	vcStrings15(got.([]string), strings.Fields(a))
}

// strings.In of a set of any length.
func VC_C15_StringsInAny() {
	var l []string
	vspec.Fill(&l)
	c := vspec.String()
	none := vspec.Pick(2) == 0
	if none {
		vspec.AssumeAll(0, len(l), func(k int) bool { return l[k] != c })
	}
	vspec.HintAll(0, len(l), func(k int) bool { return l[k] != c })
	vspec.HintIB(func(i int, found bool) bool {
		return i >= 0 && i <= len(l) && (i == 0 && !found || i > 0 && found == (l[i-1] == c))
	})
	got, err := vcBuiltin("B", "strings.In", l, c)
	vspec.Assert(err == nil, "no error")
	if none {
		vspec.Assert(!got.(bool), "a candidate which is not there is not found")
	} else if !got.(bool) {
		vspec.AssertAll(0, len(l), func(k int) bool { return l[k] != c }, "no candidate is overlooked")
	}
}

// strings.In finds a candidate in up to four strings.
func VC_C15_StringsIn() {
	var l []string
	in := false
	c := vspec.String()
	for n := vspec.Pick(5); n > 0; n-- {
		s := vspec.String()
		l = append(l, s)
		in = in || s == c
	}
	vcBool15("strings.In", in, l, c)
}

// strconv.
func VC_C15_Strconv() {
	i, s := vspec.Int(), vspec.String()
	switch vspec.Pick(5) {
	case 0:
		vcString15("S", "strconv.Itoa", strconv.Itoa(i), i)
	case 1:
		want, fail := strconv.Atoi(s)
		got, err := vcBuiltin("I", "strconv.Atoi", s)
		vspec.Assert((err != nil) == (fail != nil), "the function fails exactly when the Go function fails")
		vspec.Assert(got.(int) == want, "the result is that of the Go function")
	case 2:
		want, fail := strconv.ParseFloat(s, 64)
		got, err := vcBuiltin("F", "strconv.ParseFloat", s)
		vspec.Assert((err != nil) == (fail != nil), "the function fails exactly when the Go function fails")
		f := got.(float64)
		vspec.Assert(vspec.SameFloat(f, want), "the result is that of the Go function")
	case 3:
		want, fail := strconv.ParseBool(s)
		got, err := vcBuiltin("B", "strconv.ParseBool", s)
		vspec.Assert((err != nil) == (fail != nil), "the function fails exactly when the Go function fails")
		vspec.Assert(got.(bool) == want, "the result is that of the Go function")
	case 4:
		want, fail := strconv.ParseUint(s, 10, 64)
		got, err := vcBuiltin("U", "strconv.ParseUint", s)
		vspec.Assert((err != nil) == (fail != nil), "the function fails exactly when the Go function fails")
		vspec.Assert(got.(uint64) == want, "the result is that of the Go function")
	}
}

// strconv.AsFloat of every kind of value.
func VC_C15_AsFloat() {
	v, t := vcAny15()
	want, fails := 0.0, false
	switch t {
	case "int":
		want = float64(v.(int))
	case "float64":
		want = v.(float64)
	case "string":
		f, err := strconv.ParseFloat(v.(string), 64)
		want, fails = f, err != nil
	case "nil":
		v = vcIface{nil}
	default:
		fails = true
	}
	got, err := vcBuiltin("F", "strconv.AsFloat", v)
	vspec.Assert((err != nil) == fails, "AsFloat fails exactly for what is no number")
	f := got.(float64)
	vspec.Assert(vspec.SameFloat(f, want), "AsFloat is the number")
}

// vcAny15 is a value of some type
func vcAny15() (interface{}, string) {
	switch vspec.Pick(14) {
	case 0:
		return vspec.Int(), "int"
	case 1:
		return vspec.Float64(), "float64"
	case 2:
		return vspec.String(), "string"
	case 3:
		return vspec.Bool(), "bool"
	case 4:
		return vspec.Int64(), "int64"
	case 5:
		return vspec.Float32(), "float32"
	case 6:
		return vspec.Uint8(), "uint8"
	case 7:
		return []int{1}, "[]int"
	case 8:
		return &vcLeaf{I: vspec.Int()}, "*vcLeaf"
	case 9:
		return vcPair{X: vspec.Int()}, "vcPair"
	case 10:
		return map[string]int{"a": 1}, "map"
	case 11:
		return []string{"a"}, "[]string"
	case 12:
		return vspec.Uint(), "uint"
	}
	return nil, "nil"
}

// math.
func VC_C15_Math() {
	x, y := vspec.Float64(), vspec.Float64()
	switch vspec.Pick(8) {
	case 0:
		vcFloat15("math.Round", math.Round(x), x)
	case 1:
		vcFloat15("math.Ceil", math.Ceil(x), x)
	case 2:
		vcFloat15("math.Abs", math.Abs(x), x)
	case 3:
		vcFloat15("math.Floor", math.Floor(x), x)
	case 4:
		vcFloat15("math.Sqrt", math.Sqrt(x), x)
	case 5:
		vcFloat15("math.Pow", math.Pow(x, y), x, y)
	case 6:
		vcFloat15("math.Min", math.Min(x, y), x, y)
	case 7:
		vcFloat15("math.Max", math.Max(x, y), x, y)
	}
}

// slices.Length of any slice.
func VC_C15_SlicesLength() {
	switch vspec.Pick(6) {
	case 0:
		var l []int
		vspec.Fill(&l)
		vcInt15("slices.Length", len(l), l)
	case 1:
		var l []string
		vspec.Fill(&l)
		vcInt15("slices.Length", len(l), l)
	case 2:
		var l []float64
		vspec.Fill(&l)
		vcInt15("slices.Length", len(l), l)
	case 3:
		var l []bool
		vspec.Fill(&l)
		vcInt15("slices.Length", len(l), l)
	case 4:
		var l []vcPair
		vspec.Fill(&l)
		vcInt15("slices.Length", len(l), l)
	case 5:
		var l []uint8
		vspec.Fill(&l)
		vcInt15("slices.Length", len(l), l)
	}
}

// slices.*At of any slice, any index in range.
func VC_C15_SlicesAt() {
	var li []int
	var ls []string
	var lf []float64
	var lb []bool
	i := vspec.Int()
	switch vspec.Pick(4) {
	case 0:
		vspec.Fill(&li)
		vspec.Assume(vspec.And(i >= 0, i < len(li)))
		vcInt15("slices.IntAt", li[i], li, i)
	case 1:
		vspec.Fill(&ls)
		vspec.Assume(vspec.And(i >= 0, i < len(ls)))
		vcString15("S", "slices.StringAt", ls[i], ls, i)
	case 2:
		vspec.Fill(&lf)
		vspec.Assume(vspec.And(i >= 0, i < len(lf)))
		vcFloat15("slices.FloatAt", lf[i], lf, i)
	case 3:
		vspec.Fill(&lb)
		vspec.Assume(vspec.And(i >= 0, i < len(lb)))
		vcBool15("slices.BoolAt", lb[i], lb, i)
	}
}

// slices.*At and slices.Reverse* of something else fail.
func VC_C15_SlicesOther() {
	v, t := vcAny15()
	if t == "nil" {
		v = vcIface{nil}
	}
	var err error
	fails := true
	switch vspec.Pick(7) {
	case 0:
		_, err = vcBuiltin("I", "slices.IntAt", v, 0)
		fails = t != "[]int"
	case 1:
		_, err = vcBuiltin("S", "slices.StringAt", v, 0)
		fails = t != "[]string"
	case 2:
		_, err = vcBuiltin("F", "slices.FloatAt", v, 0)
	case 3:
		_, err = vcBuiltin("B", "slices.BoolAt", v, 0)
	case 4:
		_, err = vcBuiltin("LI", "slices.ReverseInts", v)
		fails = t != "[]int"
	case 5:
		_, err = vcBuiltin("LS", "slices.ReverseStrings", v)
		fails = t != "[]string"
	case 6:
		_, err = vcBuiltin("LF", "slices.ReverseFloats", v)
	}
	vspec.Assert((err != nil) == fails, "the function fails exactly for what is no slice of the type")
}

// slices.ReverseInts of a slice of any length.
func VC_C15_ReverseInts() {
	var l []int
	vspec.Fill(&l)
	got, err := vcBuiltin("LI", "slices.ReverseInts", l)
	vspec.Assert(err == nil, "no error")
	m := got.([]int)
	vspec.Assert(len(m) == len(l), "all elements are there")
	vspec.AssertAll(0, len(l), func(i int) bool { return m[len(l)-1-i] == l[i] }, "the elements are in reverse order")
}

// slices.ReverseFloats of a slice of any length.
func VC_C15_ReverseFloats() {
	var l []float64
	vspec.Fill(&l)
	got, err := vcBuiltin("LF", "slices.ReverseFloats", l)
	vspec.Assert(err == nil, "no error")
	m := got.([]float64)
	vspec.Assert(len(m) == len(l), "all elements are there")
	vspec.AssertAll(0, len(l), func(i int) bool {
		a, b := m[len(l)-1-i], l[i]
		return vspec.SameFloat(a, b)
	}, "the elements are in reverse order")
}

// slices.ReverseStrings of a slice of any length.
func VC_C15_ReverseStrings() {
	var l []string
	vspec.Fill(&l)
	got, err := vcBuiltin("LS", "slices.ReverseStrings", l)
	vspec.Assert(err == nil, "no error")
	m := got.([]string)
	vspec.Assert(len(m) == len(l), "all elements are there")
	vspec.AssertAll(0, len(l), func(i int) bool {
		a, b := m[len(l)-1-i], l[i]
		return vcSameString(a, b)
	}, "the elements are in reverse order")
}

// The argument of slices.Reverse* is not changed.
func VC_C15_ReverseFrame() {
	var li []int
	var ls []string
	var lf []float64
	vspec.Fill(&li)
	vspec.Fill(&ls)
	vspec.Fill(&lf)
	vspec.Freeze("the argument is not changed", &li, &ls, &lf)
	switch vspec.Pick(3) {
	case 0:
		_, err := vcBuiltin("LI", "slices.ReverseInts", li)
		vspec.Assert(err == nil, "no error")
	case 1:
		_, err := vcBuiltin("LS", "slices.ReverseStrings", ls)
		vspec.Assert(err == nil, "no error")
	case 2:
		_, err := vcBuiltin("LF", "slices.ReverseFloats", lf)
		vspec.Assert(err == nil, "no error")
	}
}

// types.
func VC_C15_Types() {
	v, t := vcAny15()
	if t == "nil" {
		v = vcIface{nil}
	}
	k := vspec.Pick(4)
	vcBool15([]string{"types.IsInt", "types.IsFloat64", "types.IsString", "types.IsBool"}[k], t == []string{"int", "float64", "string", "bool"}[k], v)
}

// errors.Assert* fails exactly when the assertion does not hold.
func VC_C15_ErrorsAssert() {
	v, t := vcAny15()
	if t == "nil" {
		v = vcIface{nil}
	}
	k := vspec.Pick(4)
	holds := t == []string{"int", "float64", "string", "bool"}[k]
	got, err := vcBuiltin("B", []string{"errors.AssertInt", "errors.AssertFloat", "errors.AssertString", "errors.AssertBool"}[k], v)
	vspec.Assert((err == nil) == holds, "the assertion fails exactly when it does not hold")
	vspec.Assert(got.(bool) == holds, "the result says whether it holds")
}

// errors.AssertWithMessage, Raise and RegisterError.
func VC_C15_ErrorsMessage() {
	msg, ok := vspec.String(), vspec.Bool()
	var err error
	switch vspec.Pick(3) {
	case 0:
		got, e := vcBuiltin("B", "errors.AssertWithMessage", ok, msg)
		vspec.Assert((e == nil) == ok, "the assertion fails exactly when it does not hold")
		vspec.Assert(got.(bool) == ok, "the result says whether it holds")
		err = e
	case 1:
		_, err = vcBuiltin("S", "errors.Raise", msg)
		vspec.Assert(err != nil, "Raise fails")
	case 2:
		_, err = vcBuiltin("S", "errors.RegisterError", msg)
		vspec.Assert(err != nil, "RegisterError fails")
	}
	if err != nil {
		cause := errors.Unwrap(err)
		vspec.Assert(cause != nil, "the error wraps its cause")
		vspec.Assert(cause.Error() == msg, "the error has the message")
	}
}

// json.Marshal.
func VC_C15_Marshal() {
	v, t := vcAny15()
	vspec.Assume(t != "nil" && t != "map")
	want, fail := json.Marshal(v)
	got, err := vcBuiltin("S", "json.Marshal", v)
	vspec.Assert((err != nil) == (fail != nil), "Marshal fails exactly when json.Marshal fails")
	vspec.Assert(got.(string) == string(want), "the result is that of json.Marshal")
}

// vcMap15 is a map with up to two entries, and a key
func vcMap15(val func() interface{}) (m interface{}, key interface{}, value interface{}, ok bool) {
	n := vspec.Pick(3)
	any := map[string]interface{}{}
	ints := map[int]interface{}{}
	for ; n > 0; n-- {
		any[vspec.String()] = val()
		ints[vspec.Int()] = val()
	}
	if vspec.Pick(2) == 0 {
		k := vspec.String()
		v, ok := any[k]
		return any, k, v, ok
	}
	k := vspec.Int()
	v, ok := ints[k]
	if vspec.Pick(2) == 0 {
		return ints, int64(k), v, ok
	}
	return ints, k, v, ok
}

// maps.Has and HasKey.
func VC_C15_MapsHas() {
	m, k, _, ok := vcMap15(func() interface{} { return 1 })
	if vspec.Pick(2) == 0 {
		vcBool15("maps.Has", ok, m, k)
		return
	}
	r := vcNew("#set($z = $m.HasKey($k))", vcVar{"m", m}, vcVar{"k", k}, vcVar{"z", false})
	r.run()
	z := *(*bool)(r.addr("z"))
	vspec.Assert(z == ok, "HasKey says whether there is an entry")
}

// maps.Get* gives the entry, and fails exactly when there is none of the type.
func VC_C15_MapsGet() {
	which := vspec.Pick(5)
	m, k, v, ok := vcMap15(func() interface{} {
		switch which {
		case 0:
			return vspec.Int()
		case 1:
			return vspec.Float64()
		case 2:
			return vspec.String()
		case 3:
			return vspec.Bool()
		}
		return int64(1)
	})
	fn := vspec.Pick(4)
	holds := ok && fn == which
	got, err := vcBuiltin([]string{"I", "F", "S", "B"}[fn], []string{"maps.GetInt", "maps.GetFloat", "maps.GetString", "maps.GetBool"}[fn], m, k)
	vspec.Assert((err == nil) == holds, "it fails exactly when there is no entry of the type")
	if !holds {
		return
	}
	switch fn {
	case 0:
		vspec.Assert(got.(int) == v.(int), "the entry is given")
	case 1:
		a, b := got.(float64), v.(float64)
		vspec.Assert(vspec.SameFloat(a, b), "the entry is given")
	case 2:
		vspec.Assert(got.(string) == v.(string), "the entry is given")
	case 3:
		vspec.Assert(got.(bool) == v.(bool), "the entry is given")
	}
}

// maps.Has and maps.Get of typed maps.
func VC_C15_MapsTyped() {
	s, q, i, j := vspec.String(), vspec.String(), vspec.Int(), vspec.Int()
	switch vspec.Pick(5) {
	case 0:
		m := map[string]int{s: i}
		_, ok := m[q]
		vcBool15("maps.Has", ok, m, q)
	case 1:
		m := map[int]string{i: s}
		_, ok := m[j]
		vcBool15("maps.Has", ok, m, j)
	case 2:
		m := map[string]int{s: i}
		_, ok := m[q]
		got, err := vcBuiltin("I", "maps.GetInt", m, q)
		vspec.Assert((err == nil) == ok, "it fails exactly when there is no entry")
		vspec.Assert(got.(int) == m[q], "the entry is given")
	case 3:
		_, err := vcBuiltin("B", "maps.Has", s, q)
		vspec.Assert(err != nil, "what is no map has no entries")
	case 4:
		var m map[string]int
		vcBool15("maps.Has", false, m, q)
	}
}

type vcRec15 struct {
	Pad  int8
	ID   int
	Name string
}

// IndexBy makes a map of up to three elements by a field.
func VC_C15_IndexBy() {
	var l []vcRec15
	var p []*vcRec15
	for n := vspec.Pick(4); n > 0; n-- {
		r := vcRec15{1, vspec.Int(), vspec.String()}
		l = append(l, r)
		p = append(p, &r)
	}
	id, name := vspec.Int(), vspec.String()
	byID, byName := -1, -1
	for k, r := range l {
		if r.ID == id {
			byID = k
		}
		if r.Name == name {
			byName = k
		}
	}
	var v interface{} = l
	if vspec.Pick(2) == 0 {
		v = p
	}
	text, want := "#set($m = $l.IndexBy(\"ID\"))#set($z = $got.I($m[$id].ID))#set($z = $got.S($m[$id].Name))", byID
	if vspec.Pick(2) == 0 {
		text, want = "#set($m = $l.IndexBy(\"Name\"))#set($z = $got.I($m[$name].ID))#set($z = $got.S($m[$name].Name))", byName
	}
	var res []interface{}
	g := &vcGot15{func(v interface{}) { res = append(res, v) }}
	r := vcNew(text, vcVar{"l", v}, vcVar{"id", id}, vcVar{"name", name}, vcVar{"z", 0}, vcVar{"got", g})
	r.run()
	e := vcRec15{}
	if want >= 0 {
		e = l[want]
	}
	vspec.Assert(len(res) == 2, "both fields are read")
	vspec.Assert(res[0].(int) == e.ID && res[1].(string) == e.Name, "the element with the value of the field is found")
}

type vcKeys15 struct {
	Pad  int8
	I16  int16
	I32  int32
	I64  int64
	U    uint
	PI   *int
	PI64 *int64
	PS   *string
	ID   int
}

// IndexBy by a field of any integer type, or a pointer: the entry is found by an int or a string of the same value.
func VC_C15_IndexByKinds() {
	l := []vcKeys15{{}, {}}
	var i, q [2]int
	var s [2]string
	for k := range l {
		i[k], s[k] = vspec.Int(), vspec.String()
		i64 := int64(i[k])
		n, t := i[k], s[k]
		l[k] = vcKeys15{I16: int16(i[k]), I32: int32(i[k]), I64: i64, U: uint(i[k]), PI: &n, PI64: &i64, PS: &t, ID: k + 1}
	}
	id, name := vspec.Int(), vspec.String()
	fields := []string{"I16", "I32", "I64", "PI", "PI64", "PS"}
	field := fields[vspec.Pick(len(fields))]
	want := 0
	for k := range l {
		q[k] = i[k]
		if field == "I16" {
			q[k] = int(int16(i[k]))
		} else if field == "I32" {
			q[k] = int(int32(i[k]))
		}
		if (field == "PS" && s[k] == name) || (field != "PS" && q[k] == id) {
			want = k + 1
		}
	}
	key := "$id"
	if field == "PS" {
		key = "$name"
	}
	var res []interface{}
	g := &vcGot15{func(v interface{}) { res = append(res, v) }}
	r := vcNew("#set($m = $l.IndexBy(\""+field+"\"))#set($z = $got.I($m["+key+"].ID))", vcVar{"l", l}, vcVar{"id", id}, vcVar{"name", name}, vcVar{"z", 0}, vcVar{"got", g})
	r.run()
	vspec.Assert(len(res) == 1 && res[0].(int) == want, "the element with the value of the field is found")
}

// The namespaces are there with every planner option.
func VC_C15_Literals() {
	i := vspec.Int()
	s := vspec.String()
	r := vcNew("#set($x = $strings.Length(\"abc\"))#set($y = $strconv.Itoa($i + 1))#set($z = $strings.ReplaceAll($s, \"a\", \"\"))", vcVar{"i", i}, vcVar{"s", s}, vcVar{"x", 0}, vcVar{"y", ""}, vcVar{"z", ""})
	r.run()
	vspec.Assert(*(*int)(r.addr("x")) == 3, "a literal is passed")
	y, z := *(*string)(r.addr("y")), *(*string)(r.addr("z"))
	vspec.Assert(y == strconv.Itoa(i+1), "an expression is passed")
	vspec.Assert(z == strings.ReplaceAll(s, "a", ""), "literals are passed in order")
}

var _ = reflect.TypeOf
