package velty

import (
	"github.com/viant/velty/internal/vspec"
)

// Text outside directives is rendered verbatim (C12).

// vcText12 is a text of any length without special characters
func vcText12() string {
	t := vspec.String()
	vspec.AssumeAll(0, len(t), func(i int) bool { return vspec.And(t[i] != '#', t[i] != '$') })
	return t
}

// vcJoin12 is the concatenation
func vcJoin12(parts []string) string {
	s := ""
	for _, p := range parts {
		s += p
	}
	return s
}

// vcRender12 renders the template and compares with the parts
func vcRender12(tmpl, want []string, vars ...vcVar) {
	vspec.Unroll(len(tmpl) + 2)
	r := vcNew(vcJoin12(tmpl), vars...)
	r.run()
	vcSame(r.out(), "the output", want...)
}

func VC_C12_Plain() {
	t := vcText12()
	vcRender12([]string{t}, []string{t})
}

// vcApart12 is a text that can follow # and $ without changing what they are
func vcApart12() string {
	t := vcText12()
	if len(t) > 0 {
		c := t[0]
		vspec.Assume(vspec.Or(c >= 128, vspec.And(c > ' ', vspec.And(vspec.Or(c < 'A', vspec.And(c > 'Z', c < 'a')), vspec.And(c != '!', vspec.And(c != '@', c != '['))))))
		vspec.Assume(c != 0x85)
	}
	return t
}

func VC_C12_Hash() {
	vspec.UnrollScans(1)
	t, u := vcText12(), vcText12()
	vspec.Assume(len(u) >= 10)
	vspec.Assume(vspec.And(u[0] >= '0', u[0] <= '9'))
	parts := []string{t, "#", u}
	vcRender12(parts, parts)
}

func VC_C12_Dollar() {
	t, u := vcText12(), vcApart12()
	parts := []string{t, "$", u}
	vcRender12(parts, parts)
}

// vcAround12 renders a text of any length between others that do not depend on it
func vcAround12(before, after, wantBefore, wantAfter string) {
	vspec.UnrollScans(1)
	t := vcText12()
	vspec.Assume(len(t) > 0)
	vcRender12([]string{before, t, after}, []string{wantBefore, t, wantAfter}, vcVar{"a", true}, vcVar{"s", "v"}, vcVar{"l", []int{1}})
}

func VC_C12_RenderInIf() {
	vcAround12("#if($a)", "#end", "", "")
}

func VC_C12_RenderInForEach() {
	vcAround12("#foreach($x in $l)", "#end", "", "")
}

func VC_C12_AfterEnd() {
	vcAround12("#if($a) a #end", "", " a ", "")
}

func VC_C12_AfterReference() {
	vcAround12("${s}", "", "v", "")
}
