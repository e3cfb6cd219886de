"""contracts of C11: selectors"""
KINDS = [('I', 'int'), ('H', 'int16'), ('U', 'uint8'), ('F', 'float64'), ('S', 'string'), ('B', 'bool'), ('P', '*int'), ('L', '[]int')]
EQ = {'float64': 'vspec.SameFloat(%s, %s)', '[]int': 'vcSameHead(unsafe.Pointer(&%s), unsafe.Pointer(&%s))'}
o = ['''// Code generated by tools/gen/c11.py; DO NOT EDIT.

package velty

import (
	"unsafe"

	"github.com/viant/velty/internal/vspec"
)

// VcEnd is at the end of the paths
type VcEnd struct {
	A int8
	I int
	H int16
	U uint8
	F float64
	S string
	B bool
	P *int
	L []int
}

func vcMakeEnd() (e VcEnd) {
	e.A = 1
	i := vspec.Int()
	e.P = &i
	vspec.Fill(&e.I)
	vspec.Fill(&e.H)
	vspec.Fill(&e.U)
	vspec.Fill(&e.F)
	vspec.Fill(&e.S)
	vspec.Fill(&e.B)
	vspec.Fill(&e.L)
	return e
}

var vcEndNames = []string{"I", "H", "U", "F", "S", "B", "P", "L"}

// vcSameEnd compares what is stored at p with the field
func vcSameEnd(k int, p unsafe.Pointer, e *VcEnd) bool {
	switch k {
''']
for i, (n, t) in enumerate(KINDS):
    o.append('\tcase %d:\n\t\tv := *(*%s)(p)\n\t\treturn %s\n' % (i, t, EQ.get(t, '%s == %s') % ('v', 'e.' + n)))
o.append('''	}
	return false
}

// VcSrc gives values to functions
type VcSrc struct {
	k    int
	want *VcEnd
	n    int
}
''')
for i, (n, t) in enumerate(KINDS):
    o.append('''
// %(n)s takes a %(t)s
func (s *VcSrc) %(n)s(v %(t)s) int {
	vspec.Assert(vcSameEnd(%(i)d, unsafe.Pointer(&v), s.want), "a function gets the value of the selector")
	s.n++
	return 0
}
''' % dict(n=n, t=t, i=i))
LINKS = {  # field, value of it from x, path element
    'V': ('V %s', 'V: %s', 'V'), 'P': ('P %s', 'P: %s', 'P'), 'E': ('%s', '%s: %s', ''), 'Q': ('*%s', '%s: %s', '')}
for b in 'VPEQ':
    f = {'V': '\tW int8\n\tV VcEnd\n', 'P': '\tW int8\n\tP *VcEnd\n', 'E': '\tW int8\n\tVcEnd\n', 'Q': '\tW int8\n\t*VcEnd\n'}[b]
    o.append('\n// VcMid%s leads to the end\ntype VcMid%s struct {\n%s}\n' % (b, b, f))
    for a in 'VPEQ':
        # field names of the outer links differ from the inner ones: M and R
        m = 'VcMid' + b
        f = {'V': '\tX bool\n\tM %s\n', 'P': '\tX bool\n\tR *%s\n', 'E': '\tX bool\n\t%s\n', 'Q': '\tX bool\n\t*%s\n'}[a] % m
        o.append('\n// VcOut%s%s leads there through %s and %s\ntype VcOut%s%s struct {\n%s}\n' % (a, b, a, b, a, b, f))
for a in 'VPEQ':
    for b in 'VPEQ':
        m, t = 'VcMid' + b, 'VcOut' + a + b
        pa = {'V': '.M', 'P': '.R', 'E': '', 'Q': ''}[a]
        pb = {'V': '.V', 'P': '.P', 'E': '', 'Q': ''}[b]
        mid = {'V': 'V: e', 'P': 'P: &e', 'E': 'VcEnd: e', 'Q': 'VcEnd: &e'}[b]
        out = {'V': 'M: m', 'P': 'R: &m', 'E': m + ': m', 'Q': m + ': &m'}[a]
        nilb = {'P': '\tif vspec.Pick(2) == 1 {\n\t\tm.P, want = nil, &VcEnd{}\n\t}\n', 'Q': '\tif vspec.Pick(2) == 1 {\n\t\tm.VcEnd, want = nil, &VcEnd{}\n\t}\n'}.get(b, '')
        nila = {'P': '\tif vspec.Pick(2) == 1 {\n\t\to.R, want = nil, &VcEnd{}\n\t}\n', 'Q': '\tif vspec.Pick(2) == 1 {\n\t\to.%s, want = nil, &VcEnd{}\n\t}\n' % m}.get(a, '')
        o.append('''
func vcMake%(ab)s() (%(t)s, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := %(m)s{W: 2, %(mid)s}
%(nilb)s	o := %(t)s{X: true, %(out)s}
%(nila)s	return o, want
}

func (h *vcHolder11) Get%(ab)s() %(t)s   { return h.%(ab)s }
func (h *vcHolder11) Ptr%(ab)s() *%(t)s { return h.p%(ab)s }

func VC_C11_Path%(ab)s() {
	path := "%(path)s"
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMake%(ab)s()
	var none *%(t)s
	h := &vcHolder11{%(ab)s: o, p%(ab)s: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []%(t)s{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*%(t)s{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.Get%(ab)s()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.Ptr%(ab)s()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}
''' % dict(ab=a + b, t=t, m=m, mid=mid, out=out, nila=nila, nilb=nilb, path=pa + pb))
o.append('\ntype vcHolder11 struct {\n' + ''.join('\t%s VcOut%s\n\tp%s *VcOut%s\n' % (a + b, a + b, a + b, a + b) for a in 'VPEQ' for b in 'VPEQ') + '''}

// vcSelect reads path+field into a variable and as an argument, twice
func vcSelect(path, pre, post string, k int, want *VcEnd, data interface{}, vars []vcVar) {
	src := &VcSrc{k: k, want: want}
	sel := path + "." + vcEndNames[k]
	r := vcNew(pre+"#set($y = "+sel+")#set($z = $f."+vcEndNames[k]+"("+sel+"))"+post, append(vars, vcVar{"f", src}, vcVar{"z", 0})...)
	vspec.Freeze("reading changes nothing", data)
	r.run()
	vspec.Thaw()
	vspec.Assert(vcSameEnd(k, r.addr("y"), want), "the selector denotes the field")
	vspec.Assert(src.n == 1, "the function is called")
	r.run()
	vspec.Assert(vcSameEnd(k, r.addr("y"), want), "the selector denotes the field again")
	if k > 0 && (k < 3 || k > 5) {
		return
	}
	// as an operand and rendered
	key := []interface{}{want.I, 0, 0, want.F, want.S, want.B}[k]
	tmpl := pre+"#set($y = "+sel+" == $key)"+post
	if k == 4 {
		tmpl = pre+"#set($y = "+sel+" == $key)$"+"{"+sel[1:]+"}"+post
		vars = append(vars[:len(vars):len(vars)], vcVar{"y", false})
	}
	r = vcNewWith(New(BufferSize(len(want.S)+1)), tmpl, append(vars, vcVar{"key", key})...)
	r.run()
	eq := *(*bool)(r.addr("y"))
	vspec.Assert(vspec.Or(eq, want.F != want.F), "an operand has the value of the field")
	if k == 4 {
		vcSame(r.out(), "the field is rendered", want.S)
	}
}

// VcRec leads to itself
type VcRec struct {
	A int8
	I int
	N *VcRec
	S []VcRec
}

// Paths through a recursive type to any of its first seven levels, nil at any of them.
func VC_C11_Recursive() {
	depth, end := vspec.Pick(7), vspec.Pick(8)
	want, path := 0, "$x"
	var head, last *VcRec
	for i := 0; i < end; i++ {
		n := &VcRec{A: int8(i), I: vspec.Int()}
		if i == 0 {
			head = n
		} else {
			last.N = n
		}
		last = n
		if i == depth {
			want = n.I
		}
	}
	for i := 0; i < depth; i++ {
		path += ".N"
	}
	vars := []vcVar{{"pad", int8(3)}, {"x", head}, {"key", want}}
	if vspec.Pick(2) == 1 && head != nil {
		vars[1].value = *head
	}
	r := vcNew("#set($y = "+path+".I)#set($z = "+path+".I == $key)", vars...)
	vspec.Freeze("reading changes nothing", head)
	r.run()
	vspec.Thaw()
	vspec.Assert(*(*int)(r.addr("y")) == want, "the selector denotes the field")
	vspec.Assert(*(*bool)(r.addr("z")), "an operand has the value of the field")
}

// VcHidden has fields that hide those of what it embeds
type VcHidden struct {
	A int8
	VcHid1
	S string
	B bool
}

// VcHid1 is embedded
type VcHid1 struct {
	F float64
	*VcHid2
	I int
}

// VcHid2 is embedded by a pointer
type VcHid2 struct {
	W int8
	VcHid3
	T string
}

// VcHid3 is embedded again
type VcHid3 struct {
	X bool
	Y int
	V vcPair
	Q *vcPair
}

// Fields of structs embedded at several levels, among other fields.
func VC_C11_Embedded() {
	var h VcHidden
	p := vcPair{X: vspec.Int()}
	e := &VcHid2{W: 3, VcHid3: VcHid3{X: true, Y: vspec.Int(), V: vcPair{X: vspec.Int()}, Q: &p}}
	h.VcHid1 = VcHid1{F: 1, I: vspec.Int(), VcHid2: e}
	names := []string{"I", "Y", "V.X", "Q.X"}
	want := []int{h.I, e.Y, e.V.X, p.X}
	switch vspec.Pick(3) {
	case 1:
		e.Q = nil
		want[3] = 0
	case 2:
		h.VcHid2 = nil
		want[1], want[2], want[3] = 0, 0, 0
	}
	k := vspec.Pick(len(names))
	vars := []vcVar{{"pad", int8(3)}, {"x", h}, {"key", want[k]}}
	if vspec.Pick(2) == 1 {
		vars[1].value = &h
	}
	r := vcNew("#set($y = $x."+names[k]+")#set($z = $x."+names[k]+" == $key)", vars...)
	vspec.Freeze("reading changes nothing", &h)
	r.run()
	vspec.Thaw()
	vspec.Assert(*(*int)(r.addr("y")) == want[k], "the selector denotes the field")
	vspec.Assert(*(*bool)(r.addr("z")), "an operand has the value of the field")
}
''')
open('/verif/contracts/zz_vc_c11.go', 'w').write(''.join(o))
