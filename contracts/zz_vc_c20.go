package velty

import (
	"reflect"

	"github.com/viant/velty/est"
	"github.com/viant/velty/internal/vspec"
)

// Variables are registered once, do not overlap, and SetValue reaches them (C20).

// VcEmbA20 and the others are embedded
type VcEmbA20 struct {
	EA int
	ES string
}

type VcEmbB20 struct {
	Pad byte
	EF  float64
	EB  bool
}

// vcNote20 notes what a template reads
type vcNote20 struct {
	ints   []int
	strs   []string
	bools  []bool
	floats []float64
	small  []uint8
}

func (l *vcNote20) I(v int) string     { l.ints = append(l.ints, v); return "" }
func (l *vcNote20) S(v string) string  { l.strs = append(l.strs, v); return "" }
func (l *vcNote20) B(v bool) string    { l.bools = append(l.bools, v); return "" }
func (l *vcNote20) F(v float64) string { l.floats = append(l.floats, v); return "" }
func (l *vcNote20) U(v uint8) string   { l.small = append(l.small, v); return "" }

// vcKind20 is a variable of one of the kinds, with a value, and a template that reads it
type vcKind20 struct {
	value interface{}
	read  string // the call that notes it
	i     int
	s     string
	b     bool
	f     float64
	u     uint8
	what  int
}

const vcKinds20 = 9

func vcKindOf20(k int, name string) vcKind20 {
	r := vcKind20{what: k}
	switch k {
	case 0:
		r.i = vspec.Int()
		r.value, r.read = r.i, "$l.I($"+name+")"
	case 1:
		r.s = vspec.String()
		r.value, r.read, r.what = r.s, "$l.S($"+name+")", 1
	case 2:
		r.b = vspec.Bool()
		r.value, r.read = r.b, "$l.B($"+name+")"
	case 3:
		r.f = vspec.Float64()
		r.value, r.read = r.f, "$l.F($"+name+")"
	case 4:
		r.u = vspec.Uint8()
		r.value, r.read = r.u, "$l.U($"+name+")"
	case 5: // a struct
		r.s = vspec.String()
		r.value, r.read, r.what = vcLeaf{S: r.s}, "$l.S($"+name+".S)", 1
	case 6: // a pointer
		r.i = vspec.Int()
		r.value, r.read, r.what = &vcLeaf{I: r.i}, "$l.I($"+name+".I)", 0
	case 7: // a slice
		r.i = vspec.Int()
		r.value, r.read, r.what = []int{0, r.i}, "$l.I($"+name+"[1])", 0
	case 8: // a map
		r.i = vspec.Int()
		r.value, r.read, r.what = map[string]int{"k": r.i}, "$l.I($"+name+"[\"k\"])", 0
	}
	return r
}

// check takes the next note and compares it
func (k vcKind20) check(l *vcNote20) {
	switch k.what {
	case 0:
		vspec.Assert(len(l.ints) > 0 && l.ints[0] == k.i, "the template reads the int")
		l.ints = l.ints[1:]
	case 1:
		vspec.Assert(len(l.strs) > 0 && l.strs[0] == k.s, "the template reads the string")
		l.strs = l.strs[1:]
	case 2:
		vspec.Assert(len(l.bools) > 0 && l.bools[0] == k.b, "the template reads the bool")
		l.bools = l.bools[1:]
	case 3:
		vspec.Assert(len(l.floats) > 0 && vspec.SameFloat(l.floats[0], k.f), "the template reads the float")
		l.floats = l.floats[1:]
	case 4:
		vspec.Assert(len(l.small) > 0 && l.small[0] == k.u, "the template reads the byte")
		l.small = l.small[1:]
	}
}

// vcRange20 is where a variable is held
type vcRange20 struct {
	from, to uintptr
	typ      reflect.Type
}

func vcPlace20(p *est.Type, name string) vcRange20 {
	f, ok := p.ValueAccessor(name)
	vspec.Assert(ok, "the variable has a place")
	return vcRange20{f.Offset, f.Offset + f.Type.Size(), f.Type}
}

func (r vcRange20) apart(o vcRange20) {
	vspec.Assert(r.to <= o.from || o.to <= r.from, "the variables do not overlap")
}

// Variables of every combination of kinds, defined, set in any order and read.
func VC_C20_Define() {
	names := []string{"a", "B", "time"}
	var ks []vcKind20
	p := New()
	l := &vcNote20{}
	vspec.Assert(p.DefineVariable("l", l) == nil, "the variable is defined")
	text := ""
	for i, n := range names {
		kind := 0
		if i < 2 {
			kind = vspec.Pick(vcKinds20)
		} else {
			kind = 2 + vspec.Pick(3)
		}
		k := vcKindOf20(kind, n)
		if i == 1 {
			vspec.Assert(p.DefineVariable(n, k.value, "alias") == nil, "the variable is defined")
		} else {
			vspec.Assert(p.DefineVariable(n, reflect.TypeOf(k.value)) == nil, "the variable is defined")
		}
		ks = append(ks, k)
		text += k.read
	}
	exec, newState, err := p.Compile([]byte(text))
	vspec.Assert(err == nil, "the template compiles")
	st := newState()
	for i, n := range names {
		x := vcPlace20(st.StateType, n)
		vspec.Assert(x.typ == reflect.TypeOf(ks[i].value), "the variable has its type")
		vspec.Assert(x.to <= reflect.TypeOf(st.Mem).Elem().Size(), "the variable is within the state")
		for _, o := range names[:i] {
			x.apart(vcPlace20(st.StateType, o))
		}
		x.apart(vcPlace20(st.StateType, "l"))
	}
	vspec.Assert(st.SetValue("l", l) == nil, "the value is stored")
	first := vspec.Pick(2)
	for i := range names {
		i = (i + first) % 3
		vspec.Assert(st.SetValue(names[i], ks[i].value) == nil, "the value is stored")
	}
	vspec.Assert(exec.Exec(st) == nil, "no error")
	for _, k := range ks {
		k.check(l)
	}
}

// vcAll20 stores the values and checks that the template reads them
func vcAll20(p *Planner, l *vcNote20, names []string, ks []vcKind20) {
	text := ""
	for _, k := range ks {
		text += k.read
	}
	exec, newState, err := p.Compile([]byte(text))
	vspec.Assert(err == nil, "the template compiles")
	st := newState()
	vspec.Assert(st.SetValue("l", l) == nil, "the value is stored")
	for i := range names {
		vspec.Assert(st.SetValue(names[i], ks[i].value) == nil, "the value is stored")
	}
	vspec.Assert(exec.Exec(st) == nil, "no error")
	for _, k := range ks {
		k.check(l)
	}
}

// vcGrow20 adds something to a planner: a variable, one made by a template, an embedded type or a result of a call
func vcGrow20(p *Planner, n int) {
	id := []string{"g0", "G1", "g2"}[n]
	switch vspec.Pick(5) {
	case 0:
		vspec.Assert(p.DefineVariable(id, vcKindOf20([]int{0, 2, 5}[n], id).value) == nil, "the variable is defined")
	case 1:
		_, _, err := p.Compile([]byte("#set($own" + id + " = $strings.ToUpper(\"a\"))"))
		vspec.Assert(err == nil, "the template compiles")
	case 2:
		if _, ok := p.Type.ValueAccessor("VcEmbB20"); !ok {
			vspec.Assert(p.EmbedVariable(VcEmbB20{}) == nil, "the type is embedded")
		}
	case 3:
		_, _, err := p.Compile([]byte("#foreach($it" + id + " in $list)#set($flag = true)#end"))
		vspec.Assert(err == nil, "the template compiles")
	case 4: // in a derived scope
		child := p.New()
		vspec.Assert(child.DefineVariable(id, 1.5) == nil, "the variable is defined")
		vspec.Assert(child.DefineVariable("only"+id, "") == nil, "the variable is defined")
		_, ok := p.Type.ValueAccessor("only" + id)
		vspec.Assert(!ok && p.selectorByName("only"+id) == nil, "a variable of a derived scope is not in the scope it is derived from")
	}
}

// What is defined later does not change what names resolve to, in the planner and in scopes derived before and after.
func vcLater20(steps int) {
	p := New()
	l := &vcNote20{}
	names := []string{"a", "B"}
	vspec.Assert(p.DefineVariable("l", l) == nil && p.DefineVariable("list", []int{}) == nil, "the variable is defined")
	if vspec.Pick(2) == 0 {
		vcGrow20(p, 0)
	}
	k := vspec.Pick(4)
	ks := []vcKind20{vcKindOf20([]int{0, 4, 1, 6}[k], "a"), vcKindOf20([]int{2, 5, 3, 7}[k], "B")}
	for i, n := range names {
		vspec.Assert(p.DefineVariable(n, ks[i].value) == nil, "the variable is defined")
	}
	before := []vcRange20{vcPlace20(p.Type, "a"), vcPlace20(p.Type, "B")}
	child := p.New()
	for n := 1; n <= steps; n++ {
		vcGrow20(p, n)
	}
	_ = p.DefineVariable("a", "another value")
	_ = p.DefineVariable("B", []string{})
	for _, q := range []*Planner{p, child, p.New(), child.New()} {
		for i, n := range names {
			vspec.Assert(vcPlace20(q.Type, n) == before[i], "the name resolves to the same place")
		}
	}
	switch vspec.Pick(3) {
	case 0:
		vcAll20(p, l, names, ks)
	case 1:
		vcAll20(child, l, names, ks)
	case 2:
		vcAll20(p.New(), l, names, ks)
	}
}

func VC_C20_Later() { vcLater20(2) }

// A state made before a variable was defined has no such variable, and stays as it is.
func VC_C20_Older() {
	p := New()
	l := &vcNote20{}
	k := vcKindOf20(vspec.Pick(vcKinds20), "a")
	vspec.Assert(p.DefineVariable("l", l) == nil && p.DefineVariable("a", k.value) == nil, "the variable is defined")
	exec, newState, err := p.Compile([]byte(k.read))
	vspec.Assert(err == nil, "the template compiles")
	st := newState()
	vspec.Assert(st.SetValue("l", l) == nil && st.SetValue("a", k.value) == nil, "the value is stored")
	n := vcKindOf20(vspec.Pick(vcKinds20), "later")
	vspec.Assert(p.DefineVariable("later", n.value) == nil, "the variable is defined")
	vspec.FreezeOthers("nothing is written")
	vspec.Assert(st.SetValue("later", n.value) != nil, "the variable is not in the state")
	vspec.Assert(st.SetValue("nowhere", 1) != nil, "the variable is not defined")
	vspec.Thaw()
	vspec.Assert(exec.Exec(st) == nil, "no error")
	k.check(l)
	exec, _, err = p.Compile([]byte(k.read + n.read))
	vspec.Assert(err == nil, "the template compiles")
	st = newState()
	vspec.Assert(st.SetValue("l", l) == nil && st.SetValue("a", k.value) == nil && st.SetValue("later", n.value) == nil, "the value is stored")
	vspec.Assert(exec.Exec(st) == nil, "no error")
	k.check(l)
	n.check(l)
}

// Storing a value writes the variable, and nothing else.
func VC_C20_Set() {
	p := New()
	k, o := vcKindOf20(vspec.Pick(vcKinds20), "b"), vcKindOf20([]int{2, 4, 5}[vspec.Pick(3)], "a")
	l := &vcNote20{}
	vspec.Assert(p.DefineVariable("l", l) == nil && p.DefineVariable("a", o.value) == nil && p.DefineVariable("b", k.value) == nil && p.DefineVariable("c", o.value) == nil, "the variable is defined")
	exec, newState, err := p.Compile([]byte(o.read + k.read))
	vspec.Assert(err == nil, "the template compiles")
	st := newState()
	vspec.Assert(st.SetValue("l", l) == nil && st.SetValue("a", o.value) == nil && st.SetValue("c", o.value) == nil, "the value is stored")
	vspec.FreezeOthers("nothing but the memory of the state is written", st.Mem)
	vspec.Assert(st.SetValue("b", k.value) == nil, "the value is stored")
	vspec.Thaw()
	vspec.Assert(exec.Exec(st) == nil, "no error")
	o.check(l)
	k.check(l)
}

// vcEmbKind20 embeds a type of one of the kinds, and gives the value to embed and what the template reads
func vcEmbKind20(p *Planner, k int) (interface{}, string, func(l *vcNote20)) {
	i, s, b, f := vspec.Int(), vspec.String(), vspec.Bool(), vspec.Float64()
	switch k {
	case 0, 1:
		var v interface{} = VcEmbA20{i, s}
		if k == 1 {
			v = &VcEmbA20{i, s}
		}
		vspec.Assert(p.EmbedVariable(v) == nil, "the type is embedded")
		return v, "$l.I($EA)$l.S($ES)", func(l *vcNote20) {
			vspec.Assert(len(l.ints) > 0 && len(l.strs) > 0 && l.ints[0] == i && l.strs[0] == s, "the template reads the embedded fields")
			l.ints, l.strs = l.ints[1:], l.strs[1:]
		}
	case 2, 3:
		var v interface{} = VcEmbB20{1, f, b}
		if k == 3 {
			v = &VcEmbB20{1, f, b}
		}
		vspec.Assert(p.EmbedVariable(reflect.TypeOf(v)) == nil, "the type is embedded")
		return v, "$l.F($EF)$l.B($EB)", func(l *vcNote20) {
			vspec.Assert(len(l.floats) > 0 && len(l.bools) > 0 && vspec.SameFloat(l.floats[0], f) && l.bools[0] == b, "the template reads the embedded fields")
			l.floats, l.bools = l.floats[1:], l.bools[1:]
		}
	case 4, 5:
		u := struct {
			UA bool
			UB int
		}{b, i}
		var v interface{} = u
		if k == 5 {
			v = &u
		}
		vspec.Assert(p.EmbedVariable(v) == nil, "the type is embedded")
		return v, "$l.B($UA)$l.I($UB)", func(l *vcNote20) {
			vspec.Assert(len(l.ints) > 0 && len(l.bools) > 0 && l.ints[0] == i && l.bools[0] == b, "the template reads the embedded fields")
			l.ints, l.bools = l.ints[1:], l.bools[1:]
		}
	}
	u := struct{ UC string }{s}
	vspec.Assert(p.EmbedVariable(u) == nil, "the type is embedded")
	return u, "$l.S($UC)", func(l *vcNote20) {
		vspec.Assert(len(l.strs) > 0 && l.strs[0] == s, "the template reads the embedded field")
		l.strs = l.strs[1:]
	}
}

// Embedded types and variables in any order, in the scope or one derived from it.
func VC_C20_Embed() {
	p := New()
	l := &vcNote20{}
	a, o := vcKindOf20([]int{4, 6}[vspec.Pick(2)], "a"), vcKindOf20(2, "o")
	x, y := vspec.Pick(7), vspec.Pick(7)
	vspec.Assume(x/2 != y/2)
	if vspec.Pick(2) == 0 {
		vspec.Assert(p.DefineVariable("a", a.value) == nil, "the variable is defined")
	}
	vx, tx, cx := vcEmbKind20(p, x)
	vspec.Assert(p.DefineVariable("o", o.value) == nil && p.DefineVariable("a", a.value) == nil, "the variable is defined")
	vy, ty, cy := vcEmbKind20(p, y)
	vspec.Assert(p.DefineVariable("l", l) == nil, "the variable is defined")
	if vspec.Pick(2) == 0 {
		p = p.New()
	}
	exec, newState, err := p.Compile([]byte(a.read + tx + o.read + ty))
	vspec.Assert(err == nil, "the template compiles")
	st := newState()
	vspec.Assert(st.SetValue("l", l) == nil && st.EmbedValue(vy) == nil && st.SetValue("a", a.value) == nil, "the value is stored")
	vspec.Assert(st.EmbedValue(vx) == nil && st.SetValue("o", o.value) == nil, "the value is stored")
	vspec.Assert(exec.Exec(st) == nil, "no error")
	a.check(l)
	cx(l)
	o.check(l)
	cy(l)
	vspec.Assert(st.EmbedValue(vcLeaf{}) != nil, "the type is not embedded")
}

// A name that is defined stays what it is: the second definition of a name, by a variable or an embedded field, is
// either ignored or an error.
func VC_C20_Twice() {
	p := New()
	l := &vcNote20{}
	k := vcKindOf20(0, "EA")
	vspec.Assert(p.DefineVariable("l", l) == nil && p.DefineVariable("EA", k.value) == nil, "the variable is defined")
	switch vspec.Pick(3) {
	case 0:
		vspec.Assert(p.DefineVariable("EA", "") == nil, "the definition is ignored")
	case 1:
		vspec.Assert(p.EmbedVariable(VcEmbA20{}) != nil, "the field has the name of a variable")
	case 2:
		vspec.Assert(p.DefineVariable("EB", true, "EA") != nil, "the alias is the name of a variable")
	}
	vcAll20(p, l, []string{"EA"}, []vcKind20{k})
}

// A value of another type is not taken for a value of the variable: it is refused, and the earlier one is still read.
func VC_C20_SetOther() {
	i, s, f, b := vspec.Int(), vspec.String(), vspec.Float64(), vspec.Bool()
	p := New()
	l := &vcNote20{}
	vspec.Assert(p.DefineVariable("l", l) == nil && p.DefineVariable("s", "") == nil && p.DefineVariable("b", false) == nil && p.DefineVariable("i", 0) == nil && p.DefineVariable("f", 0.0) == nil, "the variable is defined")
	exec, newState, err := p.Compile([]byte("$l.S($s)$l.B($b)$l.I($i)$l.F($f)"))
	vspec.Assert(err == nil, "the template compiles")
	st := newState()
	vspec.Assert(st.SetValue("l", l) == nil && st.SetValue("s", s) == nil && st.SetValue("b", b) == nil && st.SetValue("i", i) == nil && st.SetValue("f", f) == nil, "the value is stored")
	name := []string{"s", "b", "i", "f"}[vspec.Pick(4)]
	others := map[string][]interface{}{
		"s": {65, 'A', uint8(65), f, b, nil},
		"b": {i, s, f, nil},
		"i": {s, b, nil, []int{i}},
		"f": {s, b, nil},
	}[name]
	err = st.SetValue(name, others[vspec.Pick(len(others))])
	vspec.Assert(err != nil, "a value that the variable can not hold is refused")
	vspec.Assert(exec.Exec(st) == nil, "no error")
	vspec.Assert(len(l.strs) == 1 && l.strs[0] == s && len(l.bools) == 1 && l.bools[0] == b && len(l.ints) == 1 && l.ints[0] == i && len(l.floats) == 1 && vspec.SameFloat(l.floats[0], f), "the earlier values are read")
}
