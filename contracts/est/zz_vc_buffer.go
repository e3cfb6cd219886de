package est

import (
	"html"
	"strconv"

	"github.com/viant/velty/internal/vspec"
)

// The invariant of a Buffer: 0 <= index <= len(buf), poolSize >= 0. Every operation keeps it (each contract starts
// from any buffer that satisfies it, and asserts it), so every sequence of operations does.

func vcBuffer() (*Buffer, []byte) {
	b := &Buffer{}
	vspec.Fill(b)
	if vspec.Symbolic() {
		vspec.Assume(b.index <= len(b.buf))
	} else if len(b.buf) > 0 {
		b.index = int(uint(b.index) % uint(len(b.buf)+1))
	} else {
		b.index = 0
	}
	vspec.Assume(0 <= b.index && b.index <= len(b.buf))
	if !vspec.Symbolic() {
		b.poolSize &= 1023
	}
	vspec.Assume(b.poolSize >= 0 && b.poolSize <= 1<<40)
	return b, append([]byte(nil), b.buf[:b.index]...)
}

func vcAppended(b *Buffer, old []byte, add string) {
	vspec.Assert(0 <= b.index && b.index <= len(b.buf) && b.poolSize >= 0, "the buffer invariant is kept")
	vspec.Assert(b.index == len(old)+len(add), "exactly the new bytes are added")
	vspec.AssertAll(0, len(old), func(i int) bool { return b.buf[i] == old[i] }, "what was in the buffer is kept")
	vspec.AssertAll(0, len(add), func(i int) bool { return b.buf[len(old)+i] == add[i] }, "the new bytes follow")
}

func VC_C05_AppendByte() {
	b, old := vcBuffer()
	c := vspec.Uint8()
	b.AppendByte(c)
	vcAppended(b, old, string([]byte{c}))
}

func VC_C05_AppendStringWithoutEscaping() {
	b, old := vcBuffer()
	s := vspec.String()
	b.AppendStringWithoutEscaping(s)
	vcAppended(b, old, s)
}

func VC_C05_AppendString() {
	b, old := vcBuffer()
	s := vspec.String()
	esc := b.escapeHTML
	b.AppendString(s)
	vspec.Assert(b.escapeHTML == esc, "the escape setting is kept")
	if esc {
		vspec.Cover("escaping")
		vcAppended(b, old, html.EscapeString(s))
	} else {
		vspec.Cover("not escaping")
		vcAppended(b, old, s)
	}
}

func VC_C06_AppendString() { VC_C05_AppendString() }

func VC_C06_AppendStringWithoutEscaping() {
	b, old := vcBuffer()
	s := vspec.String()
	esc := b.escapeHTML
	b.AppendStringWithoutEscaping(s)
	vspec.Assert(b.escapeHTML == esc, "the escape setting is kept")
	vcAppended(b, old, s)
}

func VC_C05_AppendBool() {
	b, old := vcBuffer()
	vspec.Assume(!b.escapeHTML)
	v := vspec.Bool()
	b.AppendBool(v)
	if v {
		vcAppended(b, old, "true")
	} else {
		vcAppended(b, old, "false")
	}
}

func VC_C05_AppendFloat() {
	b, old := vcBuffer()
	vspec.Assume(!b.escapeHTML)
	v := vspec.Float64()
	b.AppendFloat(v)
	vcAppended(b, old, strconv.FormatFloat(v, 'f', -1, 64))
}

// AppendInt relies on the contract of utils.AppendInt (C07) for the digits.
func VC_C05_AppendInt() {
	b, old := vcBuffer()
	v := vspec.Int()
	b.AppendInt(v)
	vspec.Assert(0 <= b.index && b.index <= len(b.buf) && b.poolSize >= 0, "the buffer invariant is kept")
	n := b.index - len(old)
	vspec.Assert(n >= 1 && n <= 20, "one to twenty bytes are added")
	vspec.AssertAll(0, len(old), func(i int) bool { return b.buf[i] == old[i] }, "what was in the buffer is kept")
	vspec.Assert(v < 0 == (b.buf[len(old)] == '-'), "the sign is the first new byte")
	mag := uint64(0)
	for k := 0; k < n; k++ {
		c := b.buf[len(old)+k]
		if c != '-' {
			mag = mag*10 + uint64(c-'0')
		}
	}
	if v < 0 {
		mag = -mag
	}
	vspec.Assert(mag == uint64(v), "the digits denote the value")
}

func VC_C05_Reset() {
	b, _ := vcBuffer()
	ln := len(b.buf)
	b.Reset()
	vspec.Assert(b.index == 0 && len(b.buf) == ln && b.poolSize >= 0, "a reset buffer is empty and keeps the invariant")
	vspec.Assert(len(b.Bytes()) == 0 && b.String() == "", "no bytes are left over")
}

func VC_C05_Content() {
	b, old := vcBuffer()
	r := b.Bytes()
	vspec.Assert(len(r) == len(old), "Bytes has the length of what was appended")
	vspec.AssertAll(0, len(old), func(i int) bool { return r[i] == old[i] }, "Bytes is what was appended")
	s := b.String()
	vspec.Assert(len(s) == len(old), "String has the length of what was appended")
	vspec.AssertAll(0, len(old), func(i int) bool { return s[i] == old[i] }, "String is what was appended")
}

// Two appends follow each other, whatever the capacities.
func VC_C05_Sequence() {
	b, old := vcBuffer()
	vspec.Assume(!b.escapeHTML)
	s, t := vspec.String(), vspec.String()
	b.AppendString(s)
	b.AppendByte('|')
	b.AppendString(t)
	vcAppended(b, old, s+"|"+t)
}

func VC_C05_NewBuffer() {
	size := vspec.IntBetween(0, 1<<16)
	esc := vspec.Bool()
	b := NewBuffer(size, esc)
	vspec.Assert(b.index == 0 && len(b.buf) == size && b.poolSize == 0 && b.escapeHTML == esc, "a new buffer is empty and satisfies the invariant")
}
