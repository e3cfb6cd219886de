package keys

import (
	"reflect"

	"github.com/viant/velty/internal/vspec"
)

// Normalize gives the plain key with the same value, for every form of a number or a string.
func VC_C22_Normalize() {
	var key, want interface{}
	switch vspec.Pick(16) {
	case 0:
		v := vspec.Int()
		key, want = v, v
	case 1:
		v := vspec.Int64()
		key, want = v, int(v)
	case 2:
		v := vspec.Int32()
		key, want = v, int(v)
	case 3:
		v := vspec.Int16()
		key, want = v, int(v)
	case 4:
		v := vspec.Int()
		key, want = &v, v
	case 5:
		v := vspec.Int64()
		key, want = &v, int(v)
	case 6:
		v := vspec.Int32()
		key, want = &v, int(v)
	case 7:
		v := vspec.Int16()
		key, want = &v, int(v)
	case 8:
		v := vspec.String()
		key, want = v, v
	case 9:
		v := vspec.String()
		key, want = &v, v
	case 10:
		v := vspec.Bytes()
		key, want = v, string(v)
	case 11:
		v := vspec.Bytes()
		key, want = &v, string(v)
	case 12:
		v := vspec.Bool()
		key, want = v, v
	case 13:
		v := vspec.Uint64()
		key, want = v, v
	case 14:
		v := vspec.Int8()
		key, want = v, v
	case 15:
		key = []interface{}{nil, (*int)(nil), (*int64)(nil), (*int32)(nil), (*int16)(nil), (*string)(nil), (*[]byte)(nil)}[vspec.Pick(7)]
	}
	got := Normalize(key)
	vspec.Assert(got == want, "the plain key has the same value")
}

type vcName string
type vcNum int16

// MapIndex finds what is stored under the same value, for every integer key type.
func VC_C22_MapIndexInt() {
	n := vspec.Int64()
	v := vspec.Int()
	var m interface{}
	fits := true
	switch vspec.Pick(12) {
	case 0:
		m = map[int]int{int(n): v}
	case 1:
		m, fits = map[int8]int{int8(n): v}, int64(int8(n)) == n
	case 2:
		m, fits = map[int16]int{int16(n): v}, int64(int16(n)) == n
	case 3:
		m, fits = map[int32]int{int32(n): v}, int64(int32(n)) == n
	case 4:
		m = map[int64]int{n: v}
	case 5:
		m, fits = map[uint]int{uint(n): v}, n >= 0
	case 6:
		m, fits = map[uint8]int{uint8(n): v}, int64(uint8(n)) == n
	case 7:
		m, fits = map[uint16]int{uint16(n): v}, int64(uint16(n)) == n
	case 8:
		m, fits = map[uint32]int{uint32(n): v}, int64(uint32(n)) == n
	case 9:
		m, fits = map[uint64]int{uint64(n): v}, n >= 0
	case 10:
		m, fits = map[vcNum]int{vcNum(n): v}, int64(vcNum(n)) == n
	case 11:
		m = map[interface{}]int{int(n): v}
	}
	var key interface{} = n
	switch vspec.Pick(3) {
	case 1:
		key = int(n)
	case 2:
		key = &n
	}
	got := MapIndex(reflect.ValueOf(m), key)
	vspec.Assert(got.IsValid() == fits, "a key is found if and only if its value is one of the map's key type")
	if fits {
		vspec.Assert(got.Int() == int64(v), "what is stored under the value is found")
	}
}

// MapIndex of strings.
func VC_C22_MapIndexString() {
	s, q := vspec.String(), vspec.String()
	v := vspec.Int()
	var m interface{}
	switch vspec.Pick(3) {
	case 0:
		m = map[string]int{s: v}
	case 1:
		m = map[vcName]int{vcName(s): v}
	case 2:
		m = map[interface{}]int{s: v}
	}
	b := []byte(q)
	key := []interface{}{q, &q, b, &b}[vspec.Pick(4)]
	got := MapIndex(reflect.ValueOf(m), key)
	vspec.Assert(got.IsValid() == (s == q), "a string is found if and only if it is stored")
	if s == q {
		vspec.Assert(got.Int() == int64(v), "what is stored under the string is found")
	}
}

// MapIndex without a key, or with one of another type.
func VC_C22_MapIndexOther() {
	v := vspec.Int()
	ms := []interface{}{map[string]int{"": v}, map[int]int{0: v}, map[interface{}]int{"": v}}
	ks := []interface{}{nil, (*int)(nil), (*string)(nil), true, 1.5, []int{1}}
	m := ms[vspec.Pick(3)]
	k := ks[vspec.Pick(6)]
	got := MapIndex(reflect.ValueOf(m), k)
	vspec.Assert(!got.IsValid(), "no entry is found for another key")
}
