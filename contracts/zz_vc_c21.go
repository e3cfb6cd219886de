package velty

import (
	"reflect"
	"strings"

	"github.com/viant/velty/internal/vspec"
)

// Field tags rename, prefix and hide exactly as declared (C21).

// vcTag21 is what a tag declares, by its definition
type vcTag21 struct {
	names  []string // before they are trimmed
	prefix string
	omit   bool
}

// vcTagOf21 reads the items; at most limit names are considered
func vcTagOf21(items []string, limit int) (t vcTag21) {
	for i, item := range items {
		kv := strings.Split(item, "=")
		switch len(kv) {
		case 2:
			key := strings.ToLower(strings.TrimSpace(kv[0]))
			if key == "name" || key == "names" {
				vspec.Assume(len(t.names) <= limit)
				t.names = strings.Split(kv[1], "|")
			} else if key == "prefix" {
				t.prefix = strings.TrimSpace(kv[1])
			}
		case 1:
			if strings.TrimSpace(kv[0]) == "-" {
				t.omit = true
			} else if bare := strings.TrimSpace(item); i == 0 && bare != "" {
				vspec.Assume(len(t.names) <= limit)
				t.names = strings.Split(bare, "|")
			}
		}
	}
	vspec.Assume(len(t.names) <= limit)
	return t
}

// The text of a tag is read as it is documented, whatever its items are.
func vcParse21(n, names int) {
	if n > 1 {
		vspec.Unroll(16)
	}
	tag := vspec.String()
	items := strings.Split(tag, ",")
	vspec.Assume(len(items) == n)
	want := vcTagOf21(items, names)
	got := Parse(tag)
	vspec.Assert(got.Prefix == want.prefix, "the prefix")
	vspec.Assert(got.Omit == want.omit, "hidden fields")
	vspec.Assert(len(got.Names) == len(want.names), "the number of names")
	vspec.AssertAll(0, len(want.names), func(i int) bool { return got.Names[i] == strings.TrimSpace(want.names[i]) }, "the names")
}

func VC_C21_Parse1() { vcParse21(1, 1<<30) }
func VC_C21_Parse2() { vcParse21(2, 2) }
func VC_C21_Parse3() { vcParse21(3, 2) }

// vcTags21 are tags with the names they declare for a field F
var vcTags21 = []struct {
	tag   string
	names []string
}{
	{``, []string{"F"}},
	{`velty:""`, []string{"F"}},
	{`json:"x"`, []string{"F"}},
	{`velty:"a"`, []string{"a"}},
	{`velty:" c "`, []string{"c"}},
	{`velty:"name=d"`, []string{"d"}},
	{`json:"x,omitempty" velty:"names= g | h "`, []string{"g", "h"}},
	{`velty:"NAMES=m|n|o"`, []string{"m", "n", "o"}},
	{`velty:"a|b,other"`, []string{"a", "b"}},
	{`velty:"other=1"`, []string{"F"}},
	{`velty:",omitempty"`, []string{"F"}},
	{`velty:"prefix=P_"`, []string{"F"}},
	{`velty:"w,name=x"`, []string{"x"}},
	{`velty:"-"`, nil},
	{`velty:" - "`, nil},
	{`velty:"name=y,-"`, nil},
	{`velty:"-,name=z"`, nil},
}

var vcNames21 = []string{"F", "a", "b", "c", "d", "g", "h", "m", "n", "o", "w", "x", "y", "z", "P_", "P_F", "other", "omitempty", "f"}

// vcHas21 tells if the names have the name
func vcHas21(names []string, name string) bool {
	for _, n := range names {
		if n == name {
			return true
		}
	}
	return false
}

// vcReach21 is a type with fields that have tags, and how a template refers to them
func vcReach21(k int) {
	t := vcTags21[k]
	i, j := vspec.Int(), vspec.Int()
	st := reflect.StructOf([]reflect.StructField{
		{Name: "Pad", Type: reflect.TypeOf(0), Tag: `velty:"pad"`},
		{Name: "F", Type: reflect.TypeOf(0), Tag: reflect.StructTag(t.tag)},
	})
	v := reflect.New(st)
	v.Elem().Field(0).SetInt(int64(j))
	v.Elem().Field(1).SetInt(int64(i))
	p := New()
	l := &vcNote20{}
	vspec.Assert(p.DefineVariable("l", l) == nil, "the variable is defined")
	ref, pre := "$v.", ""
	var val interface{}
	embed := false
	switch vspec.Pick(6) {
	case 0:
		val = v.Elem().Interface()
	case 1:
		val = v.Interface()
	case 2, 3: // in a field
		ht, hv := st, v.Elem()
		if vspec.Pick(2) == 0 {
			ht, hv = v.Type(), v
		}
		h := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Text", Type: reflect.TypeOf("")}, {Name: "In", Type: ht}}))
		h.Elem().Field(1).Set(hv)
		val, ref = h.Elem().Interface(), "$v.In."
	case 4: // embedded
		val, ref, embed = v.Elem().Interface(), "$", true
	case 5: // in an embedded type, with a prefix
		pre = []string{"", "P_", "foo"}[vspec.Pick(3)]
		h := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Text", Type: reflect.TypeOf("")}, {Name: "Emb", Type: st, Anonymous: true, Tag: reflect.StructTag("velty:\"prefix=" + pre + "\"")}}))
		h.Elem().Field(1).Set(v.Elem())
		val, ref, embed = h.Elem().Interface(), "$", true
	}
	if embed {
		vspec.Assert(p.EmbedVariable(reflect.TypeOf(val)) == nil, "the type is embedded")
	} else {
		vspec.Assert(p.DefineVariable("v", reflect.TypeOf(val)) == nil, "the variable is defined")
	}
	name := vcNames21[vspec.Pick(len(vcNames21))]
	full := name
	if vspec.Pick(2) == 0 {
		full = pre + name
	}
	declared := len(full) >= len(pre) && full[:len(pre)] == pre && vcHas21(t.names, full[len(pre):])
	q := p.New()
	exec, newState, err := q.Compile([]byte("$l.I(" + ref + full + ")"))
	if !declared {
		if err == nil {
			f := ref + full
			exec, newState, err = p.New().Compile([]byte("a" + f + " b"))
			vspec.Assert(err == nil, "the template compiles")
			s := newState()
			vspec.Assert(exec.Exec(s) == nil, "no error")
			vspec.Assert(s.Buffer.String() == "a"+f+" b", "a field is not reached by a name that is not declared")
		}
		return
	}
	vspec.Assert(err == nil, "a field is reached by the names it declares")
	s := newState()
	vspec.Assert(s.SetValue("l", l) == nil, "the value is stored")
	if embed {
		vspec.Assert(s.EmbedValue(val) == nil, "the value is stored")
	} else {
		vspec.Assert(s.SetValue("v", val) == nil, "the value is stored")
	}
	vspec.Assert(exec.Exec(s) == nil, "no error")
	vspec.Assert(len(l.ints) == 1 && l.ints[0] == i, "the name reaches the field")
}

func VC_C21_Reach0() { vcReach21(vspec.Pick(6)) }
func VC_C21_Reach1() { vcReach21(6 + vspec.Pick(6)) }
func VC_C21_Reach2() { vcReach21(12 + vspec.Pick(5)) }

type VcIn21 struct {
	Pad int `velty:"pad"`
	F   int `velty:"names=a|b"`
	G   int
	H   int `velty:"-"`
}

type VcMid21 struct {
	Text   string
	VcIn21 `velty:"prefix=P_"`
	M      int
}

type VcTop21 struct {
	Text2   string
	VcMid21 `velty:"prefix=Q_"`
	N       int `velty:"n"`
}

type VcPlain21 struct {
	Text string
	VcIn21
	M int
}

type VcPtr21 struct {
	Text    string
	*VcIn21 `velty:"prefix=P_"`
	M       int
}

// vcEmbedded21 tells which of the values of the fields F, G, M, N a name of a type reaches
func vcEmbedded21(k int, name string) int {
	var names map[string]int
	switch k {
	case 0, 4: // the prefix of a struct, of a pointer
		names = map[string]int{"P_a": 0, "P_b": 0, "P_G": 1, "M": 2}
	case 1: // the prefix of the prefix
		names = map[string]int{"Q_P_a": 0, "Q_P_b": 0, "Q_P_G": 1, "Q_M": 2, "n": 3}
	case 2: // no prefix
		names = map[string]int{"a": 0, "b": 0, "G": 1, "M": 2}
	}
	if i, ok := names[name]; ok {
		return i
	}
	return -1
}

// vcReachIn21: the fields of an embedded struct are reached by their prefixed names and only by them, wherever the
// value that embeds them is found
func vcReachIn21(k int) {
	names := []string{"a", "b", "F", "G", "H", "M", "n", "N", "P_a", "P_b", "P_F", "P_G", "P_H", "P_M", "Q_a", "Q_G", "Q_M", "Q_P_a", "Q_P_b", "Q_P_G", "Q_P_H", "P_Q_G"}
	f, g, m, n := vspec.Int(), vspec.Int(), vspec.Int(), vspec.Int()
	in := VcIn21{F: f, G: g, H: vspec.Int()}
	mid := VcMid21{VcIn21: in, M: m}
	p := New()
	l := &vcNote20{}
	vspec.Assert(p.DefineVariable("l", l) == nil, "the variable is defined")
	var val interface{}
	ref, embed := "$v.", false
	how := vspec.Pick(5)
	switch k {
	case 0:
		val = []interface{}{mid, &mid, []VcMid21{mid}, []*VcMid21{&mid}, mid}[how]
	case 1:
		top := VcTop21{VcMid21: mid, N: n}
		val = []interface{}{top, &top, []VcTop21{top}, []*VcTop21{&top}, top}[how]
	case 2:
		plain := VcPlain21{VcIn21: in, M: m}
		val = []interface{}{plain, &plain, []VcPlain21{plain}, []*VcPlain21{&plain}, plain}[how]
	case 4:
		ptr := VcPtr21{VcIn21: &in, M: m}
		val = []interface{}{ptr, &ptr, []VcPtr21{ptr}, []*VcPtr21{&ptr}, ptr}[how]
	}
	switch how {
	case 2, 3:
		ref = "$v[0]."
	case 4:
		ref, embed = "$", true
	}
	if embed {
		vspec.Assert(p.EmbedVariable(reflect.TypeOf(val)) == nil, "the type is embedded")
	} else {
		vspec.Assert(p.DefineVariable("v", reflect.TypeOf(val)) == nil, "the variable is defined")
	}
	name := names[vspec.Pick(len(names))]
	which := vcEmbedded21(k, name)
	exec, newState, err := p.Compile([]byte("$l.I(" + ref + name + ")"))
	if which < 0 {
		if err == nil {
			exec, newState, err = p.New().Compile([]byte("a" + ref + name + " b"))
			vspec.Assert(err == nil, "the template compiles")
			s := newState()
			vspec.Assert(exec.Exec(s) == nil, "no error")
			vspec.Assert(s.Buffer.String() == "a"+ref+name+" b", "a field is not reached by a name that is not declared")
		}
		return
	}
	vspec.Assert(err == nil, "a field of an embedded struct is reached by the names it declares, after the prefix")
	s := newState()
	vspec.Assert(s.SetValue("l", l) == nil, "the value is stored")
	if embed {
		vspec.Assert(s.EmbedValue(val) == nil, "the value is stored")
	} else {
		vspec.Assert(s.SetValue("v", val) == nil, "the value is stored")
	}
	vspec.Assert(exec.Exec(s) == nil, "no error")
	vspec.Assert(len(l.ints) == 1 && l.ints[0] == []int{f, g, m, n}[which], "the name reaches the field")
}

func VC_C21_EmbeddedPrefix() { vcReachIn21(0) }
func VC_C21_EmbeddedTwice()  { vcReachIn21(1) }
func VC_C21_EmbeddedPlain()  { vcReachIn21(2) }
func VC_C21_EmbeddedPtr()    { vcReachIn21(4) }
