"""contracts of C22: indices and keys"""
SAME = {'float64': 'vspec.SameFloat(a, b)', 'float32': 'vspec.Or(a == b, vspec.And(a != a, b != b))',
        'vcPair': 'vspec.And(a.X == b.X, vspec.And(a.Y == b.Y, a.Z == b.Z))', 'vcOdd22': 'vspec.And(a.A == b.A, vspec.And(a.B == b.B, a.C == b.C))',
        '[]int': 'vcSameHead(unsafe.Pointer(&a), unsafe.Pointer(&b))',
        'map[string]int': 'reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()'}
K = [('Int', 'int'), ('Int8', 'int8'), ('Int16', 'int16'), ('Int32', 'int32'), ('Int64', 'int64'), ('Uint', 'uint'), ('Uint8', 'uint8'), ('Uint16', 'uint16'), ('Uint32', 'uint32'), ('Uint64', 'uint64'),
     ('Float64', 'float64'), ('Float32', 'float32'), ('Bool', 'bool'), ('String', 'string'), ('Struct', 'vcPair'), ('Odd', 'vcOdd22')]
P = [('PtrInt', '*int', 'i := vspec.Int(); return &i'), ('PtrStruct', '*vcPair', 'return &vcPair{X: vspec.Int()}'),
     ('Slice', '[]int', 'var x []int; vspec.Fill(&x); return x'),
     ('Map', 'map[string]int', 'return map[string]int{"k": vspec.Int()}'),
     ('Any', 'interface{}', 'i := vspec.Int(); if i > 0 { return i }; return &i')]
o = ['''// Code generated by tools/gen/c22.py; DO NOT EDIT.

package velty

import (
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"github.com/viant/velty/internal/vspec"
)

var _ = reflect.TypeOf

type vcOdd22 struct {
	A int8
	B int16
	C int8
}

// vcRejects executes, and says whether that was rejected
func vcRejects(r *vcRun) (rejected bool) {
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		vspec.Pass(x)
		if e, ok := x.(error); ok {
			vspec.Assert(!strings.Contains(e.Error(), "nil pointer"), "a rejection is no wild access")
		}
		rejected = true
	}()
	return r.exec.Exec(r.st) != nil
}

// vcGot22 counts what arrives
type vcGot22 struct {
	n int
	f func(p unsafe.Pointer)
}

func (g *vcGot22) got(p unsafe.Pointer) int {
	vspec.Assert(g.n == 0, "one value arrives")
	g.n++
	g.f(p)
	return 0
}

// vcReach22 is how a value is reached
func vcReach22(k int) string {
	return []string{"$v", "$h.X", "$g.X", "$g.P.X", "$h.P.X", "$g.Get()"}[k]
}

func vcIndexed(r *vcRun, g *vcGot22, in bool) {
	rejected := vcRejects(r)
	if in {
		vspec.Assert(!rejected, "an index in range is not rejected")
		vspec.Assert(g.n == 1, "the element arrives")
	} else {
		vspec.Assert(rejected, "an index out of range is rejected")
		vspec.Assert(g.n == 0, "nothing arrives for an index out of range")
	}
}
''']
for n, t in K + [(a, b) for a, b, c in P]:
    o.append('''
// To%(n)s takes an element
func (g *vcGot22) To%(n)s(v %(t)s) int { return g.got(unsafe.Pointer(&v)) }

type vcHas%(n)s struct {
	Pad int8
	X   []%(t)s
	P   *vcHas%(n)s
	End int8
}

func (h *vcHas%(n)s) Get() []%(t)s { return h.X }

func vcAt%(n)s(l []%(t)s, i int) {
	h := vcHas%(n)s{Pad: -1, X: l, End: -1}
	h.P = &vcHas%(n)s{X: l}
	in := i >= 0 && i < len(l)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(i >= 0, i < len(l)), "only an index in range gives a value")
		a, b := *(*%(t)s)(p), l[i]
		vspec.Assert(%(c)s, "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.To%(n)s("+vcReach22(vspec.Pick(6))+"[$i]))", vcVar{"v", l}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i})
	vcIndexed(r, g, in)
}
''' % dict(n=n, t=t, c=SAME.get(t, 'a == b')))
for n, t in K:
    o.append('''
// A slice of %(t)s of any length, any index.
func VC_C22_At%(n)s() {
	var l []%(t)s
	vspec.Fill(&l)
	vcAt%(n)s(l, vspec.Int())
}
''' % dict(n=n, t=t))
for n, t, mk in P:
    o.append('''
func vcMake22%(n)s() %(t)s {
	%(mk)s
}

// Slices of up to four %(t)s, any index.
func VC_C22_At%(n)s() {
	var l []%(t)s
	for k := vspec.Pick(5); k > 0; k-- {
		l = append(l, vcMake22%(n)s())
	}
	if n := len(l); n > 1 && vspec.Pick(2) == 0 {
		l[n-2] = nil
	}
	vcAt%(n)s(l, vspec.Int())
}
''' % dict(n=n, t=t, mk=mk.replace('; ', '\n')))
# index kinds
I = ['int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint16', 'uint32', 'uint64']
for t in ['int'] + I:
    N = t.capitalize()
    o.append('''
// Indices of type %(t)s in every form.
func VC_C22_By%(N)s() {
	var l []int
	vspec.Fill(&l)
	var i %(t)s
	vspec.Fill(&i)
	vcBy(l, int64(i), %(u)s, vcVar{"i", i}, vcVar{"i", &i}, vcVar{"i", struct{ A int8; I %(t)s; P *%(t)s }{1, i, &i}}, vcVar{"i", &struct{ A int8; I %(t)s; P *%(t)s }{1, i, &i}}, vcVar{"i", vcIface{i}}, vcVar{"i", vcIface{&i}}, vcVar{"i", []%(t)s{0, i}})
}
''' % dict(t=t, N=N, u='uint64(i) > 1<<63-1' if t in ('uint', 'uint64') else 'false'))
o.append('''
func vcBy(l []int, i int64, huge bool, forms ...vcVar) {
	k := vspec.Pick(10)
	text, v := "", 0
	switch k {
	case 0:
		text, v = "$i", 0
	case 1:
		text, v = "$i", 1
	case 2:
		text, v = "$i.I", 2
	case 3:
		text, v = "$i.P", 2
	case 4:
		text, v = "$i.I", 3
	case 5:
		text, v = "$i.P", 3
	case 6:
		text, v = "$i", 4
	case 7:
		text, v = "$i", 5
	case 8:
		text, v = "$i[1]", 6
	case 9:
		text, v = "${i}", 0
	}
	in := vspec.And(!huge, vspec.And(i >= 0, i < int64(len(l))))
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(in, "only an index in range gives a value")
		vspec.Assert(*(*int)(p) == l[int(i)], "the element at the index arrives")
	}}
	s := "$l"
	if vspec.Pick(2) == 0 {
		s = "$h.X"
	}
	r := vcNew("#set($z = $s.ToInt("+s+"["+text+"]))", vcVar{"l", l}, vcVar{"h", vcHasInt{X: l}}, vcVar{"s", g}, vcVar{"z", 0}, forms[v])
	vcIndexed(r, g, in)
}

// vcIdx computes an index
type vcIdx struct{ v int }

func (x *vcIdx) At() int       { return x.v }
func (x *vcIdx) Id(i int) int  { return i }
func (x vcIdx) Val() int       { return x.v }
func (x *vcIdx) Ptr() *int     { return &x.v }

// Computed indices.
func VC_C22_ByExpr() {
	var l []int
	vspec.Fill(&l)
	i, j := vspec.Int(), vspec.Int()
	x := &vcIdx{i}
	at, text := i, ""
	switch vspec.Pick(9) {
	case 0:
		text, at = "$i + $j", i+j
	case 1:
		text, at = "$i - $j", i-j
	case 2:
		text, at = "$i * $j", i*j
	case 3:
		text, at = "$i + 1", i+1
	case 4:
		text, at = "$i + $j * 2", i+j*2
	case 5:
		text = "$x.At()"
	case 6:
		text = "$x.Id($i)"
	case 7:
		text = "$x.Ptr()"
	case 8:
		text, at = "($i - 1) * $j", (i-1)*j
	}
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(vspec.And(at >= 0, at < len(l)), "only an index in range gives a value")
		vspec.Assert(*(*int)(p) == l[at], "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToInt($l["+text+"]))", vcVar{"l", l}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i}, vcVar{"j", j}, vcVar{"x", x})
	vcIndexed(r, g, vspec.And(at >= 0, at < len(l)))
}

// Literal indices.
func VC_C22_ByLiteral() {
	var l []int
	vspec.Fill(&l)
	at := []int{0, 1, 2, 7, 10, 255, 256, 65536, 2147483648, 9223372036854775807}[vspec.Pick(10)]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(at < len(l), "only an index in range gives a value")
		vspec.Assert(*(*int)(p) == l[at], "the element at the index arrives")
	}}
	r := vcNew("#set($z = $s.ToInt($l["+strconv.Itoa(at)+"]))", vcVar{"l", l}, vcVar{"s", g}, vcVar{"z", 0})
	vcIndexed(r, g, at < len(l))
}

type vcRow struct {
	A int8
	N int
	C []vcCell
	M map[string]int
	R []*vcRow
}

type vcCell struct {
	B byte
	V int16
	L []int
}

// Indices and fields in a row.
func VC_C22_Deep() {
	i, j, n := vspec.Int(), vspec.Int(), vspec.Pick(3)
	var c vcCell
	vspec.Fill(&c)
	in := vspec.And(i >= 0, vspec.And(i < n+1, vspec.And(j >= 0, j < len(c.L))))
	var rows []vcRow
	var ptrs []*vcRow
	var grid [][]int
	for k := 0; k < n+1; k++ {
		d := c
		d.V = int16(k)
		row := vcRow{N: k, C: []vcCell{d, d}, M: map[string]int{"k": k}}
		row.R = []*vcRow{{N: 100 + k}, {N: k, C: row.C}}
		rows = append(rows, row)
		p := row
		ptrs = append(ptrs, &p)
		grid = append(grid, c.L)
	}
	text, want := "", func(p unsafe.Pointer) bool { return *(*int)(p) == c.L[j] }
	to := "ToInt"
	switch vspec.Pick(10) {
	case 0:
		text = "$grid[$i][$j]"
	case 1:
		text = "$rows[$i].C[1].L[$j]"
	case 2:
		text = "$ptrs[$i].C[0].L[$j]"
	case 3:
		text = "$ptrs[$i].R[1].C[1].L[$j]"
	case 4:
		text, want = "$rows[$i].N", func(p unsafe.Pointer) bool { return *(*int)(p) == i }
		in = vspec.And(i >= 0, i < n+1)
	case 5:
		text, want = "$ptrs[$i].N", func(p unsafe.Pointer) bool { return *(*int)(p) == i }
		in = vspec.And(i >= 0, i < n+1)
	case 6:
		to = "ToInt16"
		text, want = "$rows[$i].C[$j].V", func(p unsafe.Pointer) bool { return int(*(*int16)(p)) == i }
		in = vspec.And(vspec.And(i >= 0, i < n+1), vspec.And(j >= 0, j < 2))
	case 7:
		text, want = "$rows[$i].M[\\"k\\"]", func(p unsafe.Pointer) bool { return *(*int)(p) == i }
		in = vspec.And(i >= 0, i < n+1)
	case 8:
		text, want = "$ptrs[$i].R[$j].N", func(p unsafe.Pointer) bool { return *(*int)(p) == vspec.IteInt(j == 0, 100+i, i) }
		in = vspec.And(vspec.And(i >= 0, i < n+1), vspec.And(j >= 0, j < 2))
	case 9:
		text, want = "$rows[$i].R[$j].N", func(p unsafe.Pointer) bool { return *(*int)(p) == vspec.IteInt(j == 0, 100+i, i) }
		in = vspec.And(vspec.And(i >= 0, i < n+1), vspec.And(j >= 0, j < 2))
	}
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(in, "only indices in range give a value")
		vspec.Assert(want(p), "the element at the indices arrives")
	}}
	r := vcNew("#set($z = $s."+to+"("+text+"))", vcVar{"rows", rows}, vcVar{"ptrs", ptrs}, vcVar{"grid", grid}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", i}, vcVar{"j", j})
	vcIndexed(r, g, in)
}

// Slices in variables of type interface{}.
func VC_C22_Any() {
	i := vspec.Int()
	n := vspec.Pick(4)
	var v interface{}
	var want []interface{}
	if k := vspec.Pick(3); k == 0 {
		var l []int
		for k := 0; k < n; k++ {
			l = append(l, vspec.Int())
			want = append(want, l[k])
		}
		v = l
	} else if k == 1 {
		var l []string
		for k := 0; k < n; k++ {
			l = append(l, "s"+strconv.Itoa(k))
			want = append(want, l[k])
		}
		v = l
	} else {
		for k := 0; k < n; k++ {
			want = append(want, vspec.Int())
		}
		v = want
	}
	in := vspec.And(i >= 0, i < n)
	g := &vcGot22{f: func(p unsafe.Pointer) {
		vspec.Assert(in, "only an index in range gives a value")
		vspec.Assert(*(*interface{})(p) == want[i], "the element at the index arrives")
	}}
	var idx interface{} = i
	switch vspec.Pick(4) {
	case 1:
		idx = int64(i)
	case 2:
		idx = &i
	case 3:
		vspec.Assume(vspec.And(i > -100, i < 100))
		idx = int8(i)
	}
	r := vcNew("#set($z = $s.ToAny($v[$i]))", vcVar{"v", vcIface{v}}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"i", idx})
	vcIndexed(r, g, in)
}
''')
# maps
E = K + [(a, b) for a, b, c in P]
for n, t in E:
    val = {a: c for a, b, c in P}.get(n)
    o.append('''
type vcMapOf%(n)s struct {
	Pad int8
	X   map[string]%(t)s
	P   *vcMapOf%(n)s
}

func (h *vcMapOf%(n)s) Get() map[string]%(t)s { return h.X }

// A map of %(t)s with arbitrary keys, and any key.
func VC_C22_Key%(n)s() {
	m := map[string]%(t)s{}
	if vspec.Pick(2) == 0 {
		m = nil
	}
	if m != nil {
		for k := vspec.Pick(3); k > 0; k-- {
			m[vspec.String()] = %(v)s
		}
	}
	key := vspec.String()
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) {
		a, b := *(*%(t)s)(p), want
		vspec.Assert(%(c)s, "what is stored under the key arrives, or the zero value")
	}}
	h := vcMapOf%(n)s{X: m}
	h.P = &vcMapOf%(n)s{X: m}
	var k interface{} = key
	if vspec.Pick(2) == 0 {
		k = &key
	}
	r := vcNew("#set($z = $s.To%(n)s("+vcReach22(vspec.Pick(6))+"[$k]))", vcVar{"v", m}, vcVar{"h", h}, vcVar{"g", &h}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}
''' % dict(n=n, t=t, c=SAME.get(t, 'a == b'), v='vcMake22%s()' % n if val else 'vcFill22%s()' % n))
    if not val:
        o.append('''
func vcFill22%(n)s() (v %(t)s) {
	vspec.Fill(&v)
	return v
}
''' % dict(n=n, t=t))
NUM = ['int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint16', 'uint32', 'uint64']
lim = {'int8': '-128, 127', 'int16': '-32768, 32767', 'int32': '-2147483648, 2147483647', 'uint8': '0, 255', 'uint16': '0, 65535', 'uint32': '0, 4294967295', 'uint': '0, 1<<63-1', 'uint64': '0, 1<<63-1'}
for t in NUM:
    N = t.capitalize()
    fit = 'n' if t not in lim else None
    o.append('''
// A map with keys of type %(t)s, and number keys of every type.
func VC_C22_Keys%(N)s() {
	var a, b %(t)s
	vspec.Fill(&a)
	vspec.Fill(&b)
	m := map[%(t)s]int{a: vspec.Int(), b: vspec.Int()}
	vcNumKey(m, func(n int) int {
		%(chk)s
		return m[%(t)s(n)]
	})
}
''' % dict(t=t, N=N, chk='' if fit else 'if n < %s || n > %s {\n return 0\n}' % tuple(lim[t].split(', '))))
o.append('''
func vcNumKey(m interface{}, at func(n int) int) {
	n := 0
	var k interface{}
	switch vspec.Pick(13) {
''')
for i, t in enumerate(NUM):
    o.append('''case %d:
		x := vspec.%s()
%s		n, k = int(x), x
''' % (i, t.capitalize(), '		vspec.Assume(x <= 1<<63-1)\n' if t in ('uint', 'uint64') else ''))
for i, t in enumerate(['int', 'int64', 'int32', 'int16']):
    o.append('''case %d:
		x := vspec.%s()
		n, k = int(x), &x
''' % (i + 10, t.capitalize()))
o.append('''	}
	want := at(n)
	g := &vcGot22{f: func(p unsafe.Pointer) { vspec.Assert(*(*int)(p) == want, "what is stored under the number arrives, or zero") }}
	t := "$k"
	kv := vcVar{"k", k}
	switch vspec.Pick(3) {
	case 1:
		kv.value = vcIface{k}
	case 2:
		t, kv.value = "$k.K", &struct{ A int8; K interface{} }{1, k}
	}
	r := vcNew("#set($z = $s.ToInt($m["+t+"]))", vcVar{"m", m}, vcVar{"s", g}, vcVar{"z", 0}, kv)
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

// String keys in every form.
func VC_C22_StringKeys() {
	m := map[string]int{vspec.String(): vspec.Int(), vspec.String(): vspec.Int()}
	key := vspec.String()
	b := []byte(key)
	t, k := "$k", interface{}(nil)
	hold := struct {
		A int8
		S string
		P *string
		B []byte
	}{1, key, &key, b}
	switch vspec.Pick(10) {
	case 0:
		k = key
	case 1:
		k = &key
	case 2:
		k = b
	case 3:
		k = &b
	case 4:
		k, t = hold, "$k.S"
	case 5:
		k, t = &hold, "$k.P"
	case 6:
		k, t = &hold, "$k.B"
	case 7:
		k, t = vcIface{key}, "$k"
	case 8:
		k, t = key, "$k + \\"\\""
	case 9:
		k, t = []string{"", key}, "$k[1]"
	}
	want := m[key]
	g := &vcGot22{f: func(p unsafe.Pointer) { vspec.Assert(*(*int)(p) == want, "what is stored under the string arrives, or zero") }}
	r := vcNew("#set($z = $s.ToInt($m["+t+"]))", vcVar{"m", m}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

// Literal keys.
func VC_C22_LiteralKeys() {
	s, n := vspec.String(), vspec.Int()
	ms := map[string]int{s: vspec.Int(), "a": vspec.Int()}
	mi := map[int]int{n: vspec.Int(), 7: vspec.Int()}
	text, want := "", 0
	switch vspec.Pick(5) {
	case 0:
		text, want = "$ms[\\"a\\"]", ms["a"]
	case 1:
		text, want = "$ms[\\"\\"]", ms[""]
	case 2:
		text, want = "$ms[\\"a b\\"]", ms["a b"]
	case 3:
		text, want = "$mi[7]", mi[7]
	case 4:
		text, want = "$mi[0]", mi[0]
	}
	g := &vcGot22{f: func(p unsafe.Pointer) { vspec.Assert(*(*int)(p) == want, "what is stored under the literal arrives, or zero") }}
	r := vcNew("#set($z = $s.ToInt("+text+"))", vcVar{"ms", ms}, vcVar{"mi", mi}, vcVar{"s", g}, vcVar{"z", 0})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}

// Other key types.
func VC_C22_OtherKeys() {
	type name string
	s, q, f, b, n := vspec.String(), vspec.String(), vspec.Float64(), vspec.Bool(), vspec.Int()
	v, w := vspec.Int(), vspec.Int()
	vspec.Assume(f == f)
	var m, k interface{}
	want := 0
	switch vspec.Pick(6) {
	case 0:
		x := map[name]int{name(s): v, "a": w}
		m, k, want = x, q, x[name(q)]
	case 1:
		x := map[bool]int{b: v}
		c := vspec.Bool()
		m, k, want = x, c, x[c]
	case 2:
		x := map[interface{}]int{s: v, n: w}
		m, k, want = x, q, x[q]
	case 3:
		x := map[interface{}]int{s: v, n: w}
		y := vspec.Int()
		m, k, want = x, &y, x[y]
	case 4:
		x := map[string]int{s: v}
		m, k, want = x, vspec.Int(), 0
	case 5:
		x := map[int]int{n: v}
		m, k, want = x, q, 0
	}
	g := &vcGot22{f: func(p unsafe.Pointer) { vspec.Assert(*(*int)(p) == want, "what is stored under the key arrives, or zero") }}
	r := vcNew("#set($z = $s.ToInt($m[$k]))", vcVar{"m", m}, vcVar{"s", g}, vcVar{"z", 0}, vcVar{"k", k})
	r.run()
	vspec.Assert(g.n == 1, "one value arrives")
}
''')
o.append('''
type vcSwap22 struct {
	L, M []int
	P    *vcSwap22
	K    int
}

// At replaces the slice
func (h *vcSwap22) At(k int) int { h.L = h.M; h.P.L = h.M; return k }

// An index whose evaluation replaces the slice is an index of the slice that is then in place.
func VC_C22_Replaced() {
	var l, m []int
	vspec.Fill(&l)
	vspec.Fill(&m)
	k := vspec.Int()
	g := &vcSwap22{L: l, M: m, P: &vcSwap22{L: l}, K: k}
	forms := []string{"#set($z = $g.L[$g.At($k)])", "#set($z = $g.P.L[$g.At($k)])", "#set($z = $g.L[$g.At($g.K)] + 0)", "#if($g.L[$g.At($k)] > 0)#end#set($z = $g.L[$k])"}
	f := vspec.Pick(len(forms))
	r := vcNew(forms[f], vcVar{"g", g}, vcVar{"k", k}, vcVar{"z", 7})
	rejected := vcRejects(r)
	if k >= 0 && k < len(m) {
		vspec.Assert(!rejected, "an index in range is not rejected")
		z := *(*int)(r.addr("z"))
		vspec.Assert(z == m[k], "the element of the slice that is in place")
		return
	}
	vspec.Assert(rejected, "an index out of range is rejected")
}
''')
open('/verif/contracts/zz_vc_c22.go', 'w').write(''.join(o))
