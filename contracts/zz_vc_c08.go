package velty

import (
	"strconv"

	"github.com/viant/velty/internal/vspec"
)

// vcNth is the k-th statement of a body; every other one is text
func vcNth(k int) string {
	switch k % 3 {
	case 0:
		return "<" + strconv.Itoa(k) + ">"
	case 1:
		return "${tick.At(" + strconv.Itoa(k) + ")}"
	}
	return "#set($z=$tick.At(" + strconv.Itoa(k) + "))"
}

type vcTick struct {
	log []int
}

// At writes down that it was called
func (t *vcTick) At(k int) string {
	t.log = append(t.log, k)
	return "{" + strconv.Itoa(k) + "}"
}

// vcBody is a body of n statements with what it renders and what it calls
func vcBody(n int) (body, want string, calls []int) {
	for k := 0; k < n; k++ {
		body += vcNth(k)
		if k%3 == 0 {
			want += "<" + strconv.Itoa(k) + ">"
		}
		if k%3 == 1 {
			want += "{" + strconv.Itoa(k) + "}"
		}
		if k%3 != 0 {
			calls = append(calls, k)
		}
	}
	return body, want, calls
}

// Bodies of every length up to 20 at every place a body can have.
func vcBlockAt(pre, post string, times int) {
	n := vspec.Pick(21)
	body, want, calls := vcBody(n)
	tick := &vcTick{}
	r := vcNew("["+pre+body+post+"]", vcVar{"tick", tick}, vcVar{"z", ""}, vcVar{"t", true}, vcVar{"f", false}, vcVar{"i", 0}, vcVar{"l", []int{1, 2}}, vcVar{"txt", body})
	r.run()
	out := "["
	for k := 0; k < times; k++ {
		out += want
	}
	vspec.Assert(r.out() == out+"]", "the output is the concatenation of the statements' outputs")
	vspec.Assert(len(tick.log) == times*len(calls), "each statement runs once")
	for k := 0; k < len(tick.log); k++ {
		vspec.Assert(tick.log[k] == calls[k%len(calls)], "the statements run in source order")
	}
}

func VC_C08_Template() { vcBlockAt("", "", 1) }
func VC_C08_If()       { vcBlockAt("#if($t)", "#end", 1) }
func VC_C08_ElseIf()   { vcBlockAt("#if($f)no#elseif($t)", "#else no#end", 1) }
func VC_C08_Else()     { vcBlockAt("#if($f)no#else", "#end", 1) }
func VC_C08_For()      { vcBlockAt("#for($i=0;$i<2;$i++)", "#end", 2) }
func VC_C08_ForEach()  { vcBlockAt("#foreach($x in $l)", "#end", 2) }
func VC_C08_Nested()   { vcBlockAt("#foreach($x in $l)#if($t)#if($f)no#else", "#end#end#end", 2) }
