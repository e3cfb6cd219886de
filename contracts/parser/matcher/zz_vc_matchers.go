package matcher

import (
	"github.com/viant/parsly"
	"github.com/viant/velty/internal/vspec"
)

// an arbitrary input and a position inside it
func vcCursor() (*parsly.Cursor, []byte, int) {
	in := vspec.BytesFrom(1)
	c := parsly.NewCursor("", in, 0)
	c.Pos = vspec.IntBetween(0, len(in)-1)
	return c, in, c.Pos
}

func vcIdentByte(b byte) bool {
	return vspec.Or(vspec.Or(vspec.And(b >= 'a', b <= 'z'), vspec.And(b >= 'A', b <= 'Z')), vspec.Or(vspec.And(b >= '0', b <= '9'), b == '_'))
}

func vcLetter(b byte) bool {
	return vspec.Or(vspec.And(b >= 'a', b <= 'z'), vspec.And(b >= 'A', b <= 'Z'))
}

func vcUntouched(c *parsly.Cursor, in []byte, pos int) {
	vspec.Assert(c.Pos == pos && c.InputSize == len(in) && len(c.Input) == len(in), "matching does not move the cursor")
}

// A letter followed by letters, digits and underscores, as long as possible.
func VC_C13_Identity() {
	c, in, pos := vcCursor()
	vspec.MustTerminate()
	vspec.HintAll(pos, len(in), func(k int) bool { return vcIdentByte(in[k]) })
	r := NewIdentity().Match(c)
	vcUntouched(c, in, pos)
	vspec.Assert(r >= 0 && pos+r <= len(in), "no more bytes than remain")
	if !vcLetter(in[pos]) {
		vspec.Assert(r == 0, "no identifier without a letter at its start")
		return
	}
	vspec.Assert(r >= 1, "an identifier has at least its first letter")
	vspec.AssertAll(pos, pos+r, func(k int) bool { return vcIdentByte(in[k]) }, "an identifier consists of letters, digits and underscores")
	if pos+r < len(in) {
		vspec.Assert(!vcIdentByte(in[pos+r]), "an identifier is as long as possible")
	}
}

// A quoted string ends at the first closing quote that is not escaped; without one there is no match.
func VC_C13_String() {
	c, in, pos := vcCursor()
	q := vspec.Uint8()
	vspec.Assume(q != '\\')
	if !vspec.Symbolic() {
		q = '"'
	}
	n := len(in)
	// esc[k]: the byte at k is escaped
	esc := vspec.GhostBools(n-pos-1, false, func(k int, prev bool) bool { return vspec.And(in[pos+1+k] == '\\', !prev) })
	closing := func(k int) bool { return vspec.And(in[k] == q, !esc[k-pos-1]) }
	vspec.MustTerminate()
	vspec.HintIB(func(i int, e bool) bool {
		return i > pos && i <= n && e == esc[i-pos-1]
	})
	vspec.HintIB(func(i int, e bool) bool { return i >= 0 && i < n-pos && e == esc[i] })
	vspec.HintIB(func(i int, e bool) bool { return i >= -1 && i < n-pos-1 && e == esc[i+1] })
	vspec.HintAll(pos+1, n, func(k int) bool { return !closing(k) })
	r := NewStringMatcher(q).Match(c)
	vcUntouched(c, in, pos)
	vspec.Assert(r >= 0 && pos+r <= n, "no more bytes than remain")
	if in[pos] != q {
		vspec.Assert(r == 0, "no string without a quote at its start")
		return
	}
	if r == 0 {
		vspec.AssertAll(pos+1, n, func(k int) bool { return !closing(k) }, "no match only without a closing quote")
		return
	}
	vspec.Assert(r >= 2, "a string has two quotes")
	vspec.Assert(closing(pos+r-1), "a string ends with an unescaped quote")
	vspec.AssertAll(pos+1, pos+r-1, func(k int) bool { return !closing(k) }, "the first unescaped quote ends a string")
}

// An argument extends up to and including the first comma outside of parentheses and quotes, or to the end.
func VC_C13_Argument() {
	c, in, pos := vcCursor()
	n := len(in)
	quoted := vspec.GhostBools(n-pos, false, func(k int, prev bool) bool { return prev != (in[pos+k] == '"') })
	depth := vspec.GhostInts(n-pos, 0, func(k, prev int) int {
		b := in[pos+k]
		open := vspec.And(b == '(', !quoted[k])
		shut := vspec.And(vspec.And(b == ')', !quoted[k]), prev > 0)
		return vspec.IteInt(open, prev+1, vspec.IteInt(shut, prev-1, prev))
	})
	comma := func(k int) bool {
		return vspec.And(vspec.And(in[k] == ',', depth[k-pos] == 0), !quoted[k-pos])
	}
	vspec.MustTerminate()
	vspec.HintIB(func(i int, q bool) bool { return i >= pos && i <= n && q == quoted[i-pos] })
	vspec.HintII(func(i, d int) bool { return i >= pos && i <= n && d == depth[i-pos] && d >= 0 && d <= i-pos })
	vspec.HintAll(pos, n, func(k int) bool { return !comma(k) })
	r := NewArgumentMatcher().Match(c)
	vcUntouched(c, in, pos)
	vspec.Assert(r >= 1 && pos+r <= n, "between one byte and what remains")
	vspec.AssertAll(pos, pos+r-1, func(k int) bool { return !comma(k) }, "the first top-level comma ends an argument")
	if pos+r < n {
		vspec.Assert(comma(pos+r-1), "an argument ends at a top-level comma or at the end")
	}
}

// Text up to and including (or excluding) the first of two special characters, or to the end.
func VC_C13_Velty() {
	c, in, pos := vcCursor()
	a, b := vspec.Uint8(), vspec.Uint8()
	inclusive := vspec.Bool()
	special := func(k int) bool { return vspec.Or(in[k] == a, in[k] == b) }
	vspec.MustTerminate()
	vspec.HintAll(pos, len(in), func(k int) bool { return !special(k) })
	vspec.HintII(func(i, j int) bool { return j == i+1 })
	r := NewVelty(inclusive, a, b).Match(c)
	vcUntouched(c, in, pos)
	vspec.Assert(r >= 0 && pos+r <= len(in), "no more bytes than remain")
	if inclusive {
		vspec.Assert(r >= 1, "at least one byte")
		vspec.AssertAll(pos, pos+r-1, func(k int) bool { return !special(k) }, "up to the first special character")
		if pos+r < len(in) {
			vspec.Assert(special(pos+r-1), "the special character is included")
		}
		return
	}
	vspec.AssertAll(pos, pos+r, func(k int) bool { return !special(k) }, "excluding the first special character")
	if pos+r < len(in) {
		vspec.Assert(special(pos+r), "up to the special character")
	}
}

// A line up to and including its newline, or the rest.
func VC_C13_NewLine() {
	c, in, pos := vcCursor()
	vspec.MustTerminate()
	vspec.HintAll(pos, len(in), func(k int) bool { return in[k] != '\n' })
	r := NewNewLine().Match(c)
	vcUntouched(c, in, pos)
	vspec.Assert(r >= 1 && pos+r <= len(in), "between one byte and what remains")
	vspec.AssertAll(pos, pos+r-1, func(k int) bool { return in[k] != '\n' }, "the first newline ends a line")
	if pos+r < len(in) {
		vspec.Assert(in[pos+r-1] == '\n', "a line includes its newline")
	}
}
