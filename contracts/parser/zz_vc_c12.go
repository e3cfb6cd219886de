package parser

import (
	"github.com/viant/velty/ast"
	"github.com/viant/velty/ast/expr"
	"github.com/viant/velty/ast/stmt"
	"github.com/viant/velty/internal/vspec"
)

// Text outside directives is kept verbatim (C12).

// vcText is a text of any length without special characters
func vcText() string {
	t := vspec.String()
	vspec.AssumeAll(0, len(t), func(i int) bool { return vspec.And(t[i] != '#', t[i] != '$') })
	return t
}

// vcNoHash is a text of any length without #
func vcNoHash() string {
	t := vspec.String()
	vspec.AssumeAll(0, len(t), func(i int) bool { return t[i] != '#' })
	return t
}

// vcApart is a text that can follow # and $ without changing what they are
func vcApart() string {
	t := vcText()
	if len(t) > 0 {
		c := t[0]
		special := vspec.Or(vspec.Or(c == '!', c == '@'), vspec.Or(c == '[', c == '{'))
		letter := vspec.And(vspec.Or(c >= 'a', c < 'a'-6), vspec.And(c >= 'A', c <= 'z'))
		vspec.Assume(!vspec.Or(vspec.Or(special, letter), vspec.Or(c <= ' ', c == 0x85)))
	}
	return t
}

func vcJoin(parts []string) string {
	s := ""
	for _, p := range parts {
		s += p
	}
	return s
}

// vcParse parses the concatenation of the parts
func vcParse(parts ...string) []ast.Statement {
	vspec.Unroll(len(parts) + 8)
	b, err := Parse([]byte(vcJoin(parts)))
	vspec.Assert(err == nil, "the template is parsed")
	return b.Stmt
}

// vcTexts asserts that the statements are texts and references that spell want
func vcTexts(list []ast.Statement, parts ...string) {
	want := vcJoin(parts)
	at := 0
	for _, s := range list {
		var text string
		switch x := s.(type) {
		case *stmt.Append:
			text = x.Append
		case *expr.Select:
			text = x.FullName
		default:
			vspec.Assert(false, "texts and references only")
		}
		from := at
		vspec.Assert(from+len(text) <= len(want), "no text is added")
		vspec.AssertAll(0, len(text), func(i int) bool { return text[i] == want[from+i] }, "the text is kept in its place")
		at += len(text)
	}
	vspec.Assert(at == len(want), "no text is lost")
}

func VC_C12_ParsePlain() {
	t := vcText()
	vcTexts(vcParse(t), t)
}

func VC_C12_ParseHash() {
	vspec.UnrollScans(1)
	t, u := vcText(), vcText()
	vspec.Assume(len(u) >= 10)
	vspec.Assume(vspec.And(u[0] >= '0', u[0] <= '9'))
	vcTexts(vcParse(t, "#", u), t, "#", u)
}

func VC_C12_ParseHashEnd() {
	t := vcText()
	vcTexts(vcParse(t, "#"), t, "#")
}

func VC_C12_ParseDollarEnd() {
	t := vcText()
	vcTexts(vcParse(t, "$"), t, "$")
}

func VC_C12_ParseDollar() {
	vspec.UnrollScans(1)
	t, u := vcText(), vcApart()
	vcTexts(vcParse(t, "$", u), t, "$", u)
}

// vcName is an identifier of any length
func vcName() string {
	t := vspec.String()
	vspec.Assume(len(t) > 0)
	letter := func(c byte) bool {
		return vspec.Or(vspec.And(c >= 'a', c <= 'z'), vspec.And(c >= 'A', c <= 'Z'))
	}
	vspec.Assume(letter(t[0]))
	vspec.AssumeAll(1, len(t), func(i int) bool {
		return vspec.Or(letter(t[i]), vspec.Or(vspec.And(t[i] >= '0', t[i] <= '9'), t[i] == '_'))
	})
	return t
}

func VC_C12_ParseReference() {
	vspec.UnrollScans(1)
	t, name := vcText(), vcName()
	vspec.Assume(vspec.And(len(t) > 0, name[0] >= 'a'))
	list := vcParse(t, "$", name)
	vcTexts(list, t, "$", name)
	ref, ok := list[len(list)-1].(*expr.Select)
	vspec.Assert(ok, "a reference")
	vspec.Assert(len(ref.ID) == len(name), "the length of the name")
	vspec.AssertAll(0, len(name), func(i int) bool { return ref.ID[i] == name[i] }, "the name of the reference")
}

func VC_C12_ParseBlockReference() {
	t, u := vcText(), vcText()
	vspec.Assume(len(t) > 0)
	list := vcParse(t, "${", "name", "}", u)
	vcTexts(list, t, "${", "name", "}", u)
	ref, ok := list[1].(*expr.Select)
	vspec.Assert(ok, "a reference")
	vspec.Assert(ref.ID == "name", "the name of the reference")
}

func VC_C12_ParseComment() {
	vspec.UnrollScans(1)
	t, c, u := vcText(), vcNoLine(), vcText()
	vcTexts(vcParse(t, "##", c, "\n", u), t, u)
}

func VC_C12_ParseCommentEnd() {
	vspec.UnrollScans(1)
	t, c := vcText(), vcNoLine()
	vcTexts(vcParse(t, "##", c), t)
}

// vcNoLine is a text of any length without a line end
func vcNoLine() string {
	t := vspec.String()
	vspec.AssumeAll(0, len(t), func(i int) bool { return t[i] != '\n' })
	return t
}

func VC_C12_ParseEscaped() {
	t, u := vcText(), vcText()
	vspec.Assume(len(t) > 0)
	e := []string{"", "a", "#", "$x", "a]]b", "#[[n]]#"}[vspec.Pick(6)]
	vcTexts(vcParse(t, "#[[", e, "]]#", u), t, e, u)
}

// vcFlat lists the texts and the kinds of the directives in source order
func vcFlat(list []ast.Statement) []string {
	var out []string
	for _, s := range list {
		switch x := s.(type) {
		case *stmt.Append:
			out = append(out, x.Append)
		case *expr.Select:
			out = append(out, x.FullName)
		case *stmt.If:
			out = append(out, "<if>")
			for c := x; c != nil; c = c.Else {
				if c != x {
					out = append(out, "<else>")
				}
				out = append(out, vcFlat(c.Body.Stmt)...)
			}
			out = append(out, "<end>")
		case *stmt.ForEach:
			out = append(out, "<foreach>")
			out = append(out, vcFlat(x.Body.Stmt)...)
			out = append(out, "<end>")
		case *stmt.ForLoop:
			out = append(out, "<for>")
			out = append(out, vcFlat(x.Body.Stmt)...)
			out = append(out, "<end>")
		case *stmt.Statement:
			out = append(out, "<set>")
		case *stmt.Evaluate:
			out = append(out, "<evaluate>")
		}
	}
	return out
}

// vcAround parses directives followed by a text of any length and expects the directives and the texts in their order
func vcAround(parts []string, kinds []string) {
	vspec.UnrollScans(1)
	u := vcText()
	vspec.Assume(len(u) > 0)
	got := vcFlat(vcParse(append(append([]string{}, parts...), u)...))
	vspec.Assert(len(got) == len(kinds)+1, "texts and directives")
	for i, kind := range kinds {
		vspec.Assert(got[i] == kind, "texts and directives in their order")
	}
	last := got[len(kinds)]
	vspec.Assert(len(last) == len(u), "the length of the text")
	vspec.AssertAll(0, len(u), func(k int) bool { return last[k] == u[k] }, "the text is kept")
}

func VC_C12_AroundIf() {
	vcAround([]string{"#if($a == 1)", " b ", "#elseif($b)", "\n c", "#else", " d", "#end"},
		[]string{"<if>", " b ", "<else>", "\n c", "<else>", " d", "<end>"})
}

func VC_C12_AroundLoops() {
	vcAround([]string{"#foreach($x in $list)", "\tb ", "#for($i = 0; $i < 3; $i++)", " c ", "#end", "\r\n", "#end"},
		[]string{"<foreach>", "\tb ", "<for>", " c ", "<end>", "\r\n", "<end>"})
}

func VC_C12_AroundOthers() {
	vcAround([]string{"#set($x = 1)", " b ", "#evaluate($t)", "\xc3\xa9", "$name", " c ", "${name}"},
		[]string{"<set>", " b ", "<evaluate>", "\xc3\xa9", "$name", " c ", "${name}"})
}

// vcBetween parses a text of any length between directives
func vcBetween(before string, kind string, after string, kinds ...string) {
	vspec.UnrollScans(1)
	t := vcText()
	vspec.Assume(len(t) > 0)
	got := vcFlat(vcParse(before, t, after))
	vspec.Assert(len(got) == len(kinds)+2, "texts and directives")
	vspec.Assert(got[0] == kind, "the directive before the text")
	for i, k := range kinds {
		vspec.Assert(got[i+2] == k, "the directives after the text")
	}
	text := got[1]
	vspec.Assert(len(text) == len(t), "the length of the text")
	vspec.AssertAll(0, len(t), func(k int) bool { return text[k] == t[k] }, "the text is kept")
}

func VC_C12_InIf() {
	vcBetween("#if($a)", "<if>", "#end", "<end>")
}

func VC_C12_InElse() {
	vcBetween("#if($a)", "<if>", "#else d#end", "<else>", " d", "<end>")
}

func VC_C12_InForEach() {
	vcBetween("#foreach($x in $list)", "<foreach>", "#end", "<end>")
}

func VC_C12_InFor() {
	vcBetween("#for($i = 0; $i < 3; $i++)", "<for>", "#end", "<end>")
}
