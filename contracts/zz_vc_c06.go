package velty

import (
	"encoding/json"
	"fmt"
	"html"
	"strconv"

	"github.com/viant/velty/internal/vspec"
)

// vcEsc is what a dynamic string is rendered as
func vcEsc(on bool, s string) string {
	if on {
		return html.EscapeString(s)
	}
	return s
}

const vcPre, vcPost = "<a href=\"x&y\">'", "'</a>\n"

// vcName is a named string type
type vcName string

type vcText struct {
	S string
	P *vcText
	L []string
	M map[string]string
	N vcName
}

// GetText is a method
func (t *vcText) GetText() string { return t.S }

func vcTextFn(s string) string { return s }

// The buffer has any size, which is large enough unless grow is set.
func vcEscPlanner(on, grow bool, total int) *Planner {
	size := vspec.IntBetween(0, 1<<20)
	if !grow {
		vspec.Assume(total < size)
	}
	p := New(EscapeHTML(on), BufferSize(size))
	err := p.RegisterFunction("text", vcTextFn)
	vspec.Assert(err == nil, "the function is registered")
	return p
}

func vcEscCase(on bool, ref, want string, vars ...vcVar) {
	r := vcNewWith(vcEscPlanner(on, ref == "${s}", len(vcPre)+len(want)+len(vcPost)), vcPre+ref+vcPost, vars...)
	r.run()
	vcSame(r.out(), "the value "+ref+" is escaped, the template's text is not", vcPre, want, vcPost)
}

// Every way to reach a string.
func VC_C06_Strings() {
	on := vspec.Pick(2) == 1
	s := vspec.String()
	t := vcText{S: s, P: &vcText{S: s, L: []string{"<", s}}, L: []string{"<", s}, M: map[string]string{"k": s}, N: vcName(s)}
	refs := []string{"${s}", "$t.S", "$t.P.S", "$p.S", "$p.P.S", "$t.L[1]", "$l[1]", "$p.P.L[1]", "$m[$k]", "$t.M[$k]", "$t.N", "$n", "$p.GetText()", "$text($s)", "$i"}
	vcEscCase(on, refs[vspec.Pick(len(refs))], vcEsc(on, s), vcVar{"s", s}, vcVar{"t", t}, vcVar{"p", &t}, vcVar{"l", t.L}, vcVar{"m", t.M}, vcVar{"k", "k"}, vcVar{"n", t.N}, vcVar{"i", vcIface{s}})
}

// Numbers and bools have no character that could be escaped, but go the same way.
func VC_C06_Others() {
	on := vspec.Pick(2) == 1
	f, b := vspec.Float64(), vspec.Bool()
	switch vspec.Pick(4) {
	case 0:
		vcEscCase(on, "$f", vcEsc(on, strconv.FormatFloat(f, 'f', -1, 64)), vcVar{"f", f})
	case 1:
		vcEscCase(on, "$b", vcEsc(on, strconv.FormatBool(b)), vcVar{"b", b})
	case 2:
		vcEscCase(on, "$i", vcEsc(on, strconv.FormatFloat(f, 'f', -1, 64)), vcVar{"i", vcIface{f}})
	case 3:
		vcEscCase(on, "$i", vcEsc(on, strconv.FormatBool(b)), vcVar{"i", vcIface{b}})
	}
}

// What has no form of its own is rendered as JSON, which is escaped as well.
func VC_C06_JSON() {
	on := vspec.Pick(2) == 1
	s := vspec.String()
	switch vspec.Pick(3) {
	case 0:
		v := []string{s}
		d, _ := json.Marshal(v)
		vcEscCase(on, "$v", vcEsc(on, string(d)), vcVar{"v", v})
	case 1:
		v := &s
		d, _ := json.Marshal(v)
		vcEscCase(on, "$v", vcEsc(on, string(d)), vcVar{"v", v})
	case 2:
		v := vcName(s)
		d := fmt.Sprintf("%v", v)
		vcEscCase(on, "$i", vcEsc(on, d), vcVar{"i", vcIface{v}})
	}
}

// The setting holds in evaluated templates.
func VC_C06_Evaluate() {
	on := vspec.Pick(2) == 1
	s := vspec.String()
	vcEscCase(on, "#evaluate($t)", vcPre+vcEsc(on, s)+vcPost, vcVar{"s", s}, vcVar{"t", vcPre + "${s}" + vcPost})
}

// Literals are text the template's author wrote in an expression; they are dynamic like any other string value.
func VC_C06_Set() {
	on := vspec.Pick(2) == 1
	s := vspec.String()
	vcEscCase(on, "#set($x = $s + \"<\")${x}", vcEsc(on, s+"<"), vcVar{"s", s}, vcVar{"x", ""})
}
