package utils

import "github.com/viant/velty/internal/vspec"

// AppendInt: for every int64 and every destination that is long enough, the result is the canonical decimal form,
// the reported length is the number of bytes written, and no byte outside of the destination changes.
func VC_C07_AppendInt() {
	v := vspec.Int64()
	all := vspec.BytesFrom(20)
	from := vspec.IntBetween(0, len(all)-20)
	to := vspec.IntBetween(from+20, len(all))
	dst := all[from:to]
	old := append([]byte(nil), all...)
	n := AppendInt(dst, v, 10)
	vspec.Assert(n >= 1 && n <= 20, "length in range")
	at := 0
	if v < 0 {
		vspec.Assert(dst[0] == '-', "sign of a negative number")
		at = 1
	}
	vspec.Assert(n > at, "at least one digit")
	var mag uint64
	digits := true
	for k := at; k < n; k++ {
		c := dst[k]
		digits = vspec.And(digits, vspec.And(c >= '0', c <= '9'))
		mag = mag*10 + uint64(c-'0')
	}
	vspec.Assert(digits, "only decimal digits")
	want := uint64(v)
	if v < 0 {
		want = -want
	}
	vspec.Assert(mag == want, "the digits denote the value")
	if n > at+1 {
		vspec.Assert(dst[at] != '0', "no leading zero")
		vspec.Assert(n-at <= 19, "no more digits than an int64 has")
	}
	vspec.AssertAll(0, len(all), func(i int) bool {
		return from <= i && i < to || all[i] == old[i]
	}, "bytes outside of the destination unchanged")
	vspec.Cover("end")
}
