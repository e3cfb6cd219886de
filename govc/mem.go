package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a value of the program: *Term, Ptr, StrV, SliceV, IfaceV, *FuncV, *MapV, AggV, TupV or *Poison
type Val interface{}

// Ptr is a pointer (also unsafe.Pointer, or an uintptr that was made from a pointer); O == nil is a plain address
type Ptr struct {
	O   *Obj
	Off *Term
}

// StrV is a string
type StrV struct {
	P   Ptr
	Len *Term
}

// SliceV is a slice
type SliceV struct {
	P        Ptr
	Len, Cap *Term
}

// IfaceV is an interface value: type word (rtype or itab object, nil for a nil interface) and data word
type IfaceV struct {
	T Ptr
	D Val
}

// FuncV is a function value
type FuncV struct {
	Fn    *ssa.Function
	Binds []Val
	Nat   func(m *Machine, args []Val) Val
	Name  string
}

// AggV is a struct or an array
type AggV []Val

// TupV is a tuple
type TupV []Val

// Poison is a value the engine could not compute; using it is an error of the engine, not of the program
type Poison struct{ why string }

// MapV is a map object
type MapV struct {
	id   int
	typ  *types.Map
	keys []Val
	vals []Val
	base bool
}

var nilPtr = Ptr{nil, I(0)}

type cell struct {
	v    Val
	size int64
}

// Obj is a memory object
type Obj struct {
	id      int
	size    *Term
	cells   map[int64]cell
	arr     *Arr
	typ     types.Type // what was allocated; documentation, and the default shape for an array
	rtype   types.Type // set for type descriptors
	itab    types.Type // set for interface tables
	ro      bool
	base    bool
	bytes   string // content of a constant string
	name    string
	lazy    bool  // cells not present are symbolic (unused)
	from    *Node // the array of symbolic values this was read from
	fromIdx *Term
}

// Arr is the content of an object that is a uniform array
type Arr struct {
	stride int64
	leaves []leaf
	nodes  []*Node
}

// NodeKind is the kind of a content node
type NodeKind uint8

const (
	NZero NodeKind = iota
	NSym
	NStore
	NCopy
	NBytes
	NFn
	NFill // written by a loop: fn(j) at the index j or srcLo-j (neg), for idx <= j < n
)

// Node is the content of one word of all elements of an array, as a function of the index; nodes are immutable and hash-consed
type Node struct {
	id    int
	kind  NodeKind
	prev  *Node
	idx   *Term // NStore: index; NCopy: first index written
	n     *Term // NCopy: number of elements
	src   *Node
	srcLo *Term
	val   Val
	name  string
	idxs  []*Term // NSym: leading indices
	lf    leaf
	bytes string
	fn    func(m *Machine, idx *Term) Val
	memo  map[*Term]Val
	neg   bool
	own   [2]int // NFn: the array it belongs to, and the word
}

type leaf struct {
	off, size int64
	typ       types.Type // scalar type of the word
	kind      leafKind
}

type leafKind uint8

const (
	lkInt leafKind = iota
	lkBool
	lkF64
	lkF32
	lkPtr // pointer-shaped
)

var nodeTab = map[string]*Node{}
var nodeSeq int

func internNode(key string, mk func() *Node) *Node {
	if n, ok := nodeTab[key]; ok {
		return n
	}
	n := mk()
	nodeSeq++
	n.id = nodeSeq
	nodeTab[key] = n
	return n
}

func zeroNode(lf leaf) *Node {
	return internNode(fmt.Sprintf("z%d/%d", lf.kind, lf.size), func() *Node { return &Node{kind: NZero, lf: lf} })
}
func bytesNode(s string) *Node {
	return internNode("b"+s, func() *Node { return &Node{kind: NBytes, bytes: s, lf: leaf{0, 1, types.Typ[types.Uint8], lkInt}} })
}
func symNode(name string, lf leaf, idxs ...*Term) *Node {
	k := fmt.Sprintf("s%s/%d/%d/%s", name, lf.kind, lf.size, lf.typ)
	for _, x := range idxs {
		k += "," + strconv.Itoa(x.id)
	}
	return internNode(k, func() *Node { return &Node{kind: NSym, name: name, lf: lf, idxs: idxs} })
}
func storeNode(prev *Node, idx *Term, v Val) *Node {
	n := &Node{kind: NStore, prev: prev, idx: idx, val: v, lf: prev.lf}
	if prev.kind == NStore && prev.idx == idx {
		prev = prev.prev
		n.prev = prev
	}
	if t, ok := v.(*Term); ok {
		return internNode(fmt.Sprintf("w%d,%d,%d", prev.id, idx.id, t.id), func() *Node { return n })
	}
	nodeSeq++
	n.id = nodeSeq
	return n
}
func copyNode(prev *Node, lo, n *Term, src *Node, srcLo *Term) *Node {
	if n.isConst() && n.n.Sign() <= 0 {
		return prev
	}
	if prev == src && lo == srcLo {
		return prev
	}
	return internNode(fmt.Sprintf("y%d,%d,%d,%d,%d", prev.id, lo.id, n.id, src.id, srcLo.id), func() *Node {
		return &Node{kind: NCopy, prev: prev, idx: lo, n: n, src: src, srcLo: srcLo, lf: prev.lf}
	})
}

// leaves of a type: the words of its memory

var leafCache = map[types.Type][]leaf{}

func (m *Machine) leaves(t types.Type) []leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var out []leaf
	m.flatten(t, 0, &out)
	leafCache[t] = out
	return out
}

func (m *Machine) flatten(t types.Type, off int64, out *[]leaf) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			*out = append(*out, leaf{off, 8, types.Typ[types.UnsafePointer], lkPtr}, leaf{off + 8, 8, types.Typ[types.Int], lkInt})
		case types.Bool, types.UntypedBool:
			*out = append(*out, leaf{off, 1, t, lkBool})
		case types.Float64, types.UntypedFloat:
			*out = append(*out, leaf{off, 8, t, lkF64})
		case types.Float32:
			*out = append(*out, leaf{off, 4, t, lkF32})
		case types.UnsafePointer, types.UntypedNil:
			*out = append(*out, leaf{off, 8, t, lkPtr})
		case types.Complex128:
			*out = append(*out, leaf{off, 8, types.Typ[types.Float64], lkF64}, leaf{off + 8, 8, types.Typ[types.Float64], lkF64})
		case types.Complex64:
			*out = append(*out, leaf{off, 4, types.Typ[types.Float32], lkF32}, leaf{off + 4, 4, types.Typ[types.Float32], lkF32})
		default:
			*out = append(*out, leaf{off, m.sizeof(t), t, lkInt})
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		*out = append(*out, leaf{off, 8, t, lkPtr})
	case *types.Slice:
		*out = append(*out, leaf{off, 8, types.Typ[types.UnsafePointer], lkPtr}, leaf{off + 8, 8, types.Typ[types.Int], lkInt}, leaf{off + 16, 8, types.Typ[types.Int], lkInt})
	case *types.Interface:
		*out = append(*out, leaf{off, 8, types.Typ[types.UnsafePointer], lkPtr}, leaf{off + 8, 8, types.Typ[types.UnsafePointer], lkPtr})
	case *types.Struct:
		offs := m.offsets(u)
		for i := 0; i < u.NumFields(); i++ {
			m.flatten(u.Field(i).Type(), off+offs[i], out)
		}
	case *types.Array:
		sz := m.sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			m.flatten(u.Elem(), off+i*sz, out)
		}
	case *types.Tuple:
		m.unsup("flatten tuple")
	default:
		m.unsup("flatten " + t.String())
	}
}

var offsCache = map[*types.Struct][]int64{}

func (m *Machine) offsets(s *types.Struct) []int64 {
	if o, ok := offsCache[s]; ok {
		return o
	}
	var fs []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, s.Field(i))
	}
	o := m.p.sizes.Offsetsof(fs)
	offsCache[s] = o
	return o
}

var sizeCache = map[types.Type]int64{}

func (m *Machine) sizeof(t types.Type) int64 {
	if n, ok := sizeCache[t]; ok {
		return n
	}
	n := m.p.sizes.Sizeof(t)
	sizeCache[t] = n
	return n
}

// zero value of a type
func (m *Machine) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return StrV{nilPtr, I(0)}
		case types.Bool, types.UntypedBool:
			return tFalse
		case types.Float64, types.UntypedFloat:
			return F(0)
		case types.Float32:
			return F32(0)
		case types.UnsafePointer, types.UntypedNil:
			return nilPtr
		}
		return I(0)
	case *types.Pointer, *types.Chan:
		return nilPtr
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Slice:
		return SliceV{nilPtr, I(0), I(0)}
	case *types.Interface:
		return IfaceV{nilPtr, nilPtr}
	case *types.Struct:
		r := make(AggV, u.NumFields())
		for i := range r {
			r[i] = m.zero(u.Field(i).Type())
		}
		return r
	case *types.Array:
		r := make(AggV, u.Len())
		z := m.zero(u.Elem())
		for i := range r {
			r[i] = z
		}
		return r
	case *types.Tuple:
		r := make(TupV, u.Len())
		for i := range r {
			r[i] = m.zero(u.At(i).Type())
		}
		return r
	}
	m.unsup("zero of " + t.String())
	return nil
}

// words splits a value of type t into its memory words, in the order of leaves(t)
func (m *Machine) words(t types.Type, v Val, out []Val) []Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			switch s := v.(type) {
			case StrV:
				return append(out, s.P, s.Len)
			case *Poison:
				return append(out, s, s)
			}
		}
		return append(out, v)
	case *types.Slice:
		switch s := v.(type) {
		case SliceV:
			return append(out, s.P, s.Len, s.Cap)
		case *Poison:
			return append(out, s, s, s)
		}
	case *types.Interface:
		switch s := v.(type) {
		case IfaceV:
			return append(out, s.T, s.D)
		case *Poison:
			return append(out, s, s)
		}
	case *types.Struct:
		if p, ok := v.(*Poison); ok {
			for range m.leaves(t) {
				out = append(out, p)
			}
			return out
		}
		a := v.(AggV)
		for i := 0; i < u.NumFields(); i++ {
			out = m.words(u.Field(i).Type(), a[i], out)
		}
		return out
	case *types.Array:
		if p, ok := v.(*Poison); ok {
			for range m.leaves(t) {
				out = append(out, p)
			}
			return out
		}
		a := v.(AggV)
		for i := range a {
			out = m.words(u.Elem(), a[i], out)
		}
		return out
	}
	return append(out, v)
}

// join is the inverse of words
func (m *Machine) join(t types.Type, ws []Val) (Val, []Val) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if p, ok := ws[0].(*Poison); ok {
				return p, ws[2:]
			}
			if p, ok := ws[1].(*Poison); ok {
				return p, ws[2:]
			}
			return StrV{m.asPtr(ws[0]), m.asInt(ws[1])}, ws[2:]
		}
	case *types.Slice:
		for i := 0; i < 3; i++ {
			if p, ok := ws[i].(*Poison); ok {
				return p, ws[3:]
			}
		}
		return SliceV{m.asPtr(ws[0]), m.asInt(ws[1]), m.asInt(ws[2])}, ws[3:]
	case *types.Interface:
		if p, ok := ws[0].(*Poison); ok {
			return p, ws[2:]
		}
		tw := m.asPtr(ws[0])
		if tw.O != nil {
			empty := u.NumMethods() == 0
			if empty && tw.O.rtype == nil || !empty && tw.O.itab == nil {
				if tw.O.itab == nil && tw.O.rtype == nil {
					m.fault("interface type word is not a type")
				}
				// an interface of the other representation is read: the Go runtime would misread the type word
				m.fault(fmt.Sprintf("memory of another interface representation is read as %s", t))
			}
		}
		return IfaceV{tw, ws[1]}, ws[2:]
	case *types.Struct:
		r := make(AggV, u.NumFields())
		for i := range r {
			r[i], ws = m.join(u.Field(i).Type(), ws)
		}
		return r, ws
	case *types.Array:
		r := make(AggV, u.Len())
		for i := range r {
			r[i], ws = m.join(u.Elem(), ws)
		}
		return r, ws
	case *types.Map:
		if p, ok := ws[0].(Ptr); ok && p.O == nil {
			return (*MapV)(nil), ws[1:]
		}
	case *types.Signature:
		if p, ok := ws[0].(Ptr); ok && p.O == nil {
			return (*FuncV)(nil), ws[1:]
		}
	}
	return ws[0], ws[1:]
}

func (m *Machine) asPtr(v Val) Ptr {
	switch x := v.(type) {
	case Ptr:
		return x
	case *Term:
		return Ptr{nil, x}
	case *Poison:
		m.unsup("pointer: " + x.why)
	}
	m.unsup(fmt.Sprintf("pointer from %T", v))
	return Ptr{}
}

func (m *Machine) asInt(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case Ptr:
		if x.O == nil {
			return x.Off
		}
		return UF("addr", SInt, bi(1<<20), bi(1<<47), I(int64(x.O.id)), x.Off)
	case *MapV:
		if x == nil {
			return I(0)
		}
		return UF("mapaddr", SInt, bi(1<<20), bi(1<<47), I(int64(x.id)))
	case *Poison:
		m.unsup("integer: " + x.why)
	}
	m.unsup(fmt.Sprintf("integer from %T", v))
	return nil
}

// newObj allocates
func (m *Machine) newObj(size *Term, t types.Type) *Obj {
	m.objSeq++
	o := &Obj{id: m.objSeq, size: size, typ: t, cells: map[int64]cell{}, base: m.inBase}
	if m.pure == 0 {
		m.byID[o.id] = o
	}
	return o
}

func (m *Machine) allocT(t types.Type) Ptr {
	return Ptr{m.newObj(I(m.sizeof(t)), t), I(0)}
}

func (m *Machine) strConst(s string) StrV {
	if s == "" {
		return StrV{nilPtr, I(0)}
	}
	o, ok := m.strObjs[s]
	if !ok {
		o = &Obj{id: -1000 - len(m.strObjs), size: I(int64(len(s))), bytes: s, ro: true, base: true, name: "text"}
		o.arr = &Arr{stride: 1, leaves: []leaf{{0, 1, types.Typ[types.Uint8], lkInt}}, nodes: []*Node{bytesNode(s)}}
		m.strObjs[s] = o
	}
	return StrV{Ptr{o, I(0)}, I(int64(len(s)))}
}

// newArr allocates n elements of type t as an array with functional content
func (m *Machine) newArr(t types.Type, n *Term) *Obj {
	st := m.sizeof(t)
	o := m.newObj(Scale(n, bi(st)), types.NewSlice(t))
	a := &Arr{stride: st, leaves: m.leaves(t)}
	for _, l := range a.leaves {
		a.nodes = append(a.nodes, zeroNode(l))
	}
	o.arr = a
	return o
}

// toArr turns a cell object into an array of element type t, if it has that shape
func (m *Machine) toArr(o *Obj, t types.Type) bool {
	if o.arr != nil {
		return true
	}
	st := m.sizeof(t)
	if st == 0 || !o.size.isConst() || o.size.i64%st != 0 {
		return false
	}
	ls := m.leaves(t)
	byOff := map[int64]int{}
	for i, l := range ls {
		byOff[l.off] = i
	}
	if st == 1 {
		m.splitWords(o)
	}
	offs := make([]int64, 0, len(o.cells))
	for off, c := range o.cells {
		i, ok := byOff[off%st]
		if !ok || ls[i].size != c.size {
			return false
		}
		offs = append(offs, off)
	}
	sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
	a := &Arr{stride: st, leaves: ls}
	for _, l := range ls {
		a.nodes = append(a.nodes, zeroNode(l))
	}
	for _, off := range offs {
		i := byOff[off%st]
		a.nodes[i] = storeNode(a.nodes[i], I(off/st), o.cells[off].v)
	}
	m.logObj(o)
	o.arr = a
	return true
}

// splitWords writes the words of an array of bytes that are numbers byte by byte
func (m *Machine) splitWords(o *Obj) {
	var offs []int64
	for off, c := range o.cells {
		if _, ok := c.v.(*Term); ok && c.size > 1 {
			offs = append(offs, off)
		}
	}
	for _, off := range offs {
		c := o.cells[off]
		m.logCell(o, off)
		delete(o.cells, off)
		for k := int64(0); k < c.size; k++ {
			m.logCell(o, off+k)
			o.cells[off+k] = cell{m.extract(c.v, c.size, k, 1), 1}
		}
	}
}

// undo log

type undo struct {
	o    *Obj
	mp   *MapV
	off  int64
	old  cell
	had  bool
	arr  *Arr
	kind uint8 // 0 cell, 1 arr, 2 map
	keys []Val
	vals []Val
}

func (m *Machine) logCell(o *Obj, off int64) {
	if o.base && !m.inBase || m.pure > 0 {
		c, had := o.cells[off]
		m.undo = append(m.undo, undo{o: o, off: off, old: c, had: had})
	}
}
func (m *Machine) logObj(o *Obj) {
	if o.base && !m.inBase || m.pure > 0 {
		m.undo = append(m.undo, undo{o: o, arr: o.arr, kind: 1})
	}
}
func (m *Machine) logMap(x *MapV) {
	if x.base && !m.inBase || m.pure > 0 {
		m.undo = append(m.undo, undo{mp: x, kind: 2, keys: append([]Val{}, x.keys...), vals: append([]Val{}, x.vals...)})
	}
}
func (m *Machine) rollback(to int) {
	for i := len(m.undo) - 1; i >= to; i-- {
		u := m.undo[i]
		switch u.kind {
		case 0:
			if u.had {
				u.o.cells[u.off] = u.old
			} else {
				delete(u.o.cells, u.off)
			}
		case 1:
			u.o.arr = u.arr
		case 2:
			u.mp.keys, u.mp.vals = u.keys, u.vals
		}
	}
	m.undo = m.undo[:to]
}

// convWord adapts a word to the scalar type it is read as
func (m *Machine) convWord(v Val, size int64, lf leaf) Val {
	switch x := v.(type) {
	case *Term:
		switch lf.kind {
		case lkPtr:
			if x.sort == SInt {
				if x.isConst() || true {
					return Ptr{nil, x}
				}
			}
		case lkInt:
			switch x.sort {
			case SInt:
				b, s := m.intKind(lf.typ)
				return m.wrap(x, b, s)
			case SBool:
				return Ite(x, I(1), I(0))
			case SF64, SF32:
				b, s := m.intKind(lf.typ)
				return Wrap(UF("fbits", SInt, big0, bsub(pow2(uint(8*size)), big1), x), b, s)
			}
		case lkBool:
			switch x.sort {
			case SBool:
				return x
			case SInt:
				return Not(Eq(x, I(0)))
			}
		case lkF64, lkF32:
			if (lf.kind == lkF64) == (x.sort == SF64) && x.sort != SInt && x.sort != SBool {
				return x
			}
			if x.sort == SInt {
				s := SF64
				if lf.kind == lkF32 {
					s = SF32
				}
				if x.isConst() && x.n.Sign() == 0 {
					if s == SF32 {
						return F32(0)
					}
					return F(0)
				}
				return UF("bitsf", s, nil, nil, x)
			}
		}
		return &Poison{fmt.Sprintf("word of sort %s read as %s", x.sort.smt(), lf.typ)}
	case Ptr:
		if lf.kind == lkPtr || (lf.kind == lkInt && size == 8) {
			if lf.kind == lkInt && x.O == nil {
				b, s := m.intKind(lf.typ)
				return Wrap(x.Off, b, s)
			}
			return x
		}
		if lf.kind == lkBool {
			return B(x.O != nil)
		}
		return &Poison{"a pointer is read as " + lf.typ.String()}
	case nil:
		return m.zeroLeaf(lf)
	}
	return v
}

func (m *Machine) zeroLeaf(lf leaf) Val {
	switch lf.kind {
	case lkBool:
		return tFalse
	case lkF64:
		return F(0)
	case lkF32:
		return F32(0)
	case lkPtr:
		return nilPtr
	}
	return I(0)
}

func (m *Machine) intKind(t types.Type) (bits uint, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 64, false
}

// readWord reads one word of a cell object
func (m *Machine) readWord(o *Obj, off int64, lf leaf) Val {
	if o.rtype != nil {
		return m.convWord(m.rtypeWord(o, off, lf.size), lf.size, lf)
	}
	c, ok := o.cells[off]
	if ok && c.size == lf.size {
		return m.convWord(c.v, c.size, lf)
	}
	if !ok {
		// covered by an earlier, larger cell?
		for d := int64(1); d < 8; d++ {
			if e, ok := o.cells[off-d]; ok {
				if e.size > d {
					return m.convWord(m.extract(e.v, e.size, d, lf.size), lf.size, lf)
				}
				break
			}
		}
	} else if c.size > lf.size {
		return m.convWord(m.extract(c.v, c.size, 0, lf.size), lf.size, lf)
	}
	// assemble from smaller cells
	sum := I(0)
	any := false
	for d := int64(0); d < lf.size; {
		e, ok := o.cells[off+d]
		if !ok {
			d++
			continue
		}
		any = true
		if d+e.size > lf.size {
			return &Poison{"partial word"}
		}
		var t *Term
		switch x := e.v.(type) {
		case *Term:
			switch x.sort {
			case SInt:
				t = Mod(x, pow2(uint(8*e.size)))
			case SBool:
				t = Ite(x, I(1), I(0))
			default:
				t = UF("fbits", SInt, big0, bsub(pow2(uint(8*e.size)), big1), x)
			}
		default:
			return &Poison{"word assembled from a pointer"}
		}
		sum = Add(sum, Scale(t, pow2(uint(8*d))))
		d += e.size
	}
	if !any {
		return m.zeroLeaf(lf)
	}
	return m.convWord(sum, lf.size, lf)
}

func (m *Machine) extract(v Val, size, off, want int64) Val {
	t, ok := v.(*Term)
	if !ok {
		if p, ok := v.(Ptr); ok {
			t = m.asInt(p)
		} else {
			return &Poison{"part of a pointer word"}
		}
	}
	switch t.sort {
	case SBool:
		t = Ite(t, I(1), I(0))
	case SF64, SF32:
		t = UF("fbits", SInt, big0, bsub(pow2(uint(8*size)), big1), t)
	}
	return Mod(Div(Mod(t, pow2(uint(8*size))), pow2(uint(8*off))), pow2(uint(8*want)))
}

func (m *Machine) writeWord(o *Obj, off, size int64, v Val) {
	if o.ro || o.rtype != nil || o.itab != nil {
		m.fault("write into read-only memory")
	}
	m.noteWrite(o, off)
	if c, ok := o.cells[off]; ok && c.size == size {
		m.logCell(o, off)
		o.cells[off] = cell{v, size}
		return
	}
	// split what overlaps
	for d := int64(-7); d < size; d++ {
		c, ok := o.cells[off+d]
		if !ok || d+c.size <= 0 {
			continue
		}
		m.logCell(o, off+d)
		delete(o.cells, off+d)
		for k := int64(0); k < c.size; k++ {
			if d+k < 0 || d+k >= size {
				m.logCell(o, off+d+k)
				o.cells[off+d+k] = cell{m.extract(c.v, c.size, k, 1), 1}
			}
		}
	}
	m.logCell(o, off)
	o.cells[off] = cell{v, size}
}

// split decomposes a byte offset into element index and offset inside the element
func splitOff(off *Term, stride int64) (*Term, int64, bool) {
	if stride == 1 {
		return off, 0, true
	}
	l := toLin(off)
	c := fmod(l.n, bi(stride))
	r := lin{n: fdiv(bsub(l.n, c), bi(stride)), a: l.a}
	for _, k := range l.co {
		if fmod(k, bi(stride)).Sign() != 0 {
			return nil, 0, false
		}
		r.co = append(r.co, fdiv(k, bi(stride)))
	}
	return fromLin(r), c.Int64(), true
}

// checkRange proves that [off, off+size) lies inside o
func (m *Machine) checkRange(o *Obj, off *Term, size int64, what string) {
	if off.small && o.size.small {
		if off.i64 < 0 || off.i64+size > o.size.i64 {
			m.fault(fmt.Sprintf("%s of %d bytes at offset %d outside an object of %d bytes (%s)", what, size, off.i64, o.size.i64, o.describe()))
		}
		return
	}
	ok := And(Le(I(0), off), Le(Add(off, I(size)), o.size))
	if !m.prove(ok) {
		m.fault(fmt.Sprintf("%s outside an object (%s)", what, o.describe()))
	}
}

func (o *Obj) describe() string {
	if o.name != "" {
		return o.name
	}
	if o.typ != nil {
		return o.typ.String()
	}
	return "memory"
}

// load reads a value of type t
func (m *Machine) load(p Ptr, t types.Type) Val {
	m.checkNil(p)
	o := p.O
	size := m.sizeof(t)
	if size == 0 {
		return m.zero(t)
	}
	m.checkRange(o, p.Off, size, "read")
	ls := m.leaves(t)
	ws := make([]Val, len(ls))
	if o.arr == nil && !p.Off.isConst() {
		if !m.toArr(o, m.elemGuess(o, t)) {
			m.unsup("symbolic offset into " + o.describe())
		}
	}
	if o.arr == nil {
		for i, l := range ls {
			ws[i] = m.readWord(o, p.Off.i64+l.off, l)
		}
	} else {
		for i, l := range ls {
			ws[i] = m.readArr(o, Add(p.Off, I(l.off)), l)
		}
	}
	v, _ := m.join(t, ws)
	return v
}

func (m *Machine) elemGuess(o *Obj, t types.Type) types.Type {
	switch u := o.typ.(type) {
	case *types.Slice:
		return u.Elem()
	}
	if o.typ != nil {
		if a, ok := o.typ.Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return t
}

func (m *Machine) readArr(o *Obj, off *Term, lf leaf) Val {
	idx, c, ok := splitOff(off, o.arr.stride)
	if !ok {
		m.unsup("misaligned array access in " + o.describe() + ": " + off.str(6))
	}
	for i, l := range o.arr.leaves {
		if l.off == c && l.size == lf.size {
			return m.convWord(m.nodeAt(o.arr.nodes[i], idx), lf.size, lf)
		}
		if l.off <= c && c+lf.size <= l.off+l.size {
			return m.convWord(m.extract(m.nodeAt(o.arr.nodes[i], idx), l.size, c-l.off, lf.size), lf.size, lf)
		}
	}
	if o.arr.stride == 1 && lf.size > 1 && lf.kind == lkInt { // word from bytes
		sum := I(0)
		for d := int64(0); d < lf.size; d++ {
			b := m.nodeAt(o.arr.nodes[0], Add(idx, I(d)))
			sum = Add(sum, Scale(b.(*Term), pow2(uint(8*d))))
		}
		return m.convWord(sum, lf.size, lf)
	}
	return &Poison{"array element read as " + lf.typ.String()}
}

// nodeAt is the content at an index
func (m *Machine) nodeAt(n *Node, idx *Term) Val {
	switch n.kind {
	case NZero:
		return m.zeroLeaf(n.lf)
	case NBytes:
		if idx.small {
			if idx.i64 >= 0 && idx.i64 < int64(len(n.bytes)) {
				return I(int64(n.bytes[idx.i64]))
			}
			return I(0)
		}
		if len(n.bytes) > 1024 {
			m.unsup("symbolic index into a long constant")
		}
		return m.tableAt(n, idx)
	case NSym:
		return m.symAt(n, idx)
	case NFn:
		if v, ok := n.memo[idx]; ok {
			return v
		}
		v := n.fn(m, idx)
		n.memo[idx] = v
		if p, ok := v.(Ptr); ok && p.O != nil && p.O.from == nil {
			p.O.from, p.O.fromIdx = n, idx
		}
		return v
	case NFill:
		j := Sub(idx, n.srcLo)
		if n.neg {
			j = Sub(n.srcLo, idx)
		}
		c := And(Le(n.idx, j), Lt(j, n.n))
		if c.isFalse() {
			return m.nodeAt(n.prev, idx)
		}
		v := n.fn(m, j)
		if c.isTrue() {
			return v
		}
		return m.choose(c, v, func() Val { return m.nodeAt(n.prev, idx) })
	case NStore:
		c := Eq(idx, n.idx)
		if c.isTrue() {
			return n.val
		}
		if c.isFalse() {
			return m.nodeAt(n.prev, idx)
		}
		return m.choose(c, n.val, func() Val { return m.nodeAt(n.prev, idx) })
	case NCopy:
		d := Sub(idx, n.idx)
		c := And(Le(I(0), d), Lt(d, n.n))
		if c.isTrue() {
			return m.nodeAt(n.src, Add(d, n.srcLo))
		}
		if c.isFalse() {
			return m.nodeAt(n.prev, idx)
		}
		if k, v := m.known(c); k {
			if v {
				return m.nodeAt(n.src, Add(d, n.srcLo))
			}
			return m.nodeAt(n.prev, idx)
		}
		return m.choose(c, m.nodeAt(n.src, Add(d, n.srcLo)), func() Val { return m.nodeAt(n.prev, idx) })
	}
	return nil
}

// choose merges two words, forking if they cannot be merged
func (m *Machine) choose(c *Term, x Val, y func() Val) Val {
	if k, v := m.known(c); k {
		if v {
			return x
		}
		return y()
	}
	if tx, ok := x.(*Term); ok {
		ty := y()
		if ty, ok := ty.(*Term); ok && ty.sort == tx.sort {
			return Ite(c, tx, ty)
		}
		if m.decide(c) {
			return x
		}
		return ty
	}
	if m.decide(c) {
		return x
	}
	return y()
}

func (m *Machine) tableAt(n *Node, idx *Term) Val {
	lo, hi := int64(0), int64(len(n.bytes)-1)
	if idx.lo != nil && idx.lo.IsInt64() && idx.lo.Int64() > lo {
		lo = idx.lo.Int64()
	}
	if idx.hi != nil && idx.hi.IsInt64() && idx.hi.Int64() < hi {
		hi = idx.hi.Int64()
	}
	var build func(l, h int64) *Term
	build = func(l, h int64) *Term {
		if l >= h {
			return I(int64(n.bytes[l]))
		}
		mid := (l + h) / 2
		return Ite(Le(idx, I(mid)), build(l, mid), build(mid+1, h))
	}
	if lo > hi {
		return I(0)
	}
	if t := fitTable(n.bytes, idx); t != nil {
		return t
	}
	return build(lo, hi)
}

func (m *Machine) symAt(n *Node, idx *Term) Val {
	args := append(append([]*Term{}, n.idxs...), idx)
	switch n.lf.kind {
	case lkBool:
		return UF(n.name, SBool, nil, nil, args...)
	case lkF64:
		return UF(n.name, SF64, nil, nil, args...)
	case lkF32:
		return UF(n.name, SF32, nil, nil, args...)
	case lkInt:
		b, s := m.intKind(n.lf.typ)
		if s && b == 64 && strings.HasPrefix(n.name, "gh") { // ghost integers are bounded: see GhostInts
			return UF(n.name, SInt, bneg(pow2(42)), pow2(42), args...)
		}
		if s {
			return UF(n.name, SInt, bneg(pow2(b-1)), bsub(pow2(b-1), big1), args...)
		}
		return UF(n.name, SInt, big0, bsub(pow2(b), big1), args...)
	}
	if v, ok := n.memo[idx]; ok {
		return v
	}
	return &Poison{"symbolic pointer"}
}

// store writes a value of type t
func (m *Machine) store(p Ptr, t types.Type, v Val) {
	m.checkNil(p)
	o := p.O
	size := m.sizeof(t)
	if size == 0 {
		return
	}
	m.checkRange(o, p.Off, size, "write")
	ls := m.leaves(t)
	ws := m.words(t, v, nil)
	if len(ws) != len(ls) {
		m.unsup(fmt.Sprintf("store of %T as %s", v, t))
	}
	if o.arr == nil && !p.Off.isConst() {
		if !m.toArr(o, m.elemGuess(o, t)) {
			m.unsup("symbolic offset into " + o.describe())
		}
	}
	for i, l := range ls {
		if o.arr == nil {
			m.writeWord(o, p.Off.i64+l.off, l.size, ws[i])
		} else {
			m.writeArr(o, Add(p.Off, I(l.off)), l, ws[i])
		}
	}
}

func (m *Machine) writeArr(o *Obj, off *Term, lf leaf, v Val) {
	if o.ro {
		m.fault("write into read-only memory")
	}
	idx, c, ok := splitOff(off, o.arr.stride)
	if !ok {
		m.unsup("misaligned array access in " + o.describe() + ": " + off.str(6))
	}
	for i, l := range o.arr.leaves {
		if l.off == c && l.size == lf.size {
			m.noteWrite(o, int64(i))
			m.setNode(o, i, storeNode(o.arr.nodes[i], idx, v))
			return
		}
	}
	m.unsup("array element written as " + lf.typ.String())
}

func (m *Machine) setNode(o *Obj, i int, n *Node) {
	m.logObj(o)
	a := &Arr{stride: o.arr.stride, leaves: o.arr.leaves, nodes: append([]*Node{}, o.arr.nodes...)}
	a.nodes[i] = n
	o.arr = a
}

func (m *Machine) checkNil(p Ptr) {
	if p.O != nil {
		return
	}
	if p.Off.isConst() {
		if p.Off.n.Sign() >= 0 && p.Off.n.Cmp(bi(4096)) < 0 {
			m.goPanicRT("invalid memory address or nil pointer dereference")
		}
		m.fault("access through an invalid address " + p.Off.String())
	}
	m.fault("access through an integer used as address")
}

// concrete string content, if it is constant
func (m *Machine) conStr(s StrV) (string, bool) {
	if !s.Len.small {
		return "", false
	}
	return m.conBytes(s.P, s.Len.i64)
}

func (m *Machine) conBytes(p Ptr, n int64) (string, bool) {
	if n == 0 {
		return "", true
	}
	if p.O == nil || !p.Off.small {
		return "", false
	}
	o := p.O
	if o.bytes != "" || o.ro && o.arr != nil && o.arr.nodes[0].kind == NBytes {
		b := o.arr.nodes[0].bytes
		if p.Off.i64 < 0 || p.Off.i64+n > int64(len(b)) {
			m.fault("string outside its memory")
		}
		return b[p.Off.i64 : p.Off.i64+n], true
	}
	if n > 1<<16 {
		return "", false
	}
	out := make([]byte, n)
	for i := int64(0); i < n; i++ {
		var v Val
		if o.arr != nil {
			if o.arr.stride != 1 {
				return "", false
			}
			v = m.nodeQuick(o.arr.nodes[0], p.Off.i64+i)
		} else {
			v = m.readWord(o, p.Off.i64+i, leaf{0, 1, types.Typ[types.Uint8], lkInt})
		}
		t, ok := v.(*Term)
		if !ok || !t.small {
			return "", false
		}
		out[i] = byte(t.i64)
	}
	return string(out), true
}

// nodeQuick is nodeAt at a constant index where everything is constant; nil otherwise
func (m *Machine) nodeQuick(n *Node, i int64) Val {
	for {
		switch n.kind {
		case NZero:
			return m.zeroLeaf(n.lf)
		case NBytes:
			if i >= 0 && i < int64(len(n.bytes)) {
				return I(int64(n.bytes[i]))
			}
			return I(0)
		case NStore:
			if !n.idx.small {
				return nil
			}
			if n.idx.i64 == i {
				return n.val
			}
			n = n.prev
		case NCopy:
			if !n.idx.small || !n.n.small || !n.srcLo.small {
				return nil
			}
			if d := i - n.idx.i64; d >= 0 && d < n.n.i64 {
				i = d + n.srcLo.i64
				n = n.src
			} else {
				n = n.prev
			}
		default:
			return nil
		}
	}
}

// byteNode is the content of memory at p as a byte array node
func (m *Machine) byteNode(p Ptr) *Node {
	if p.O == nil {
		return zeroNode(leaf{0, 1, types.Typ[types.Uint8], lkInt})
	}
	if p.O.arr == nil && !m.toArr(p.O, types.Typ[types.Uint8]) {
		m.unsup("bytes of " + p.O.describe())
	}
	if p.O.arr.stride != 1 {
		m.unsup("bytes of " + p.O.describe())
	}
	return p.O.arr.nodes[0]
}

// copyMem copies n elements of type t
// copyCells copies bytes; words that are copied as a whole stay words
func (m *Machine) copyCells(dst, src *Obj, do, so, n int64) {
	type part struct {
		off, size int64
		v         Val
	}
	var ps []part
	bl := m.leaves(types.Typ[types.Uint8])[0]
	for d := int64(0); d < n; {
		if c, ok := src.cells[so+d]; ok && d+c.size <= n {
			ps = append(ps, part{d, c.size, c.v})
			d += c.size
			continue
		}
		if d+8 <= n && (so+d)%8 == 0 {
			free := true
			for k := int64(-7); k < 8; k++ {
				if c, ok := src.cells[so+d+k]; ok && k+c.size > 0 {
					free = false
					break
				}
			}
			if free {
				ps = append(ps, part{d, 8, I(0)})
				d += 8
				continue
			}
		}
		ps = append(ps, part{d, 1, m.readWord(src, so+d, bl)})
		d++
	}
	for _, p := range ps {
		m.writeWord(dst, do+p.off, p.size, p.v)
	}
}

func (m *Machine) copyMem(dst, src Ptr, n *Term, t types.Type) {
	if n.isConst() && n.n.Sign() == 0 {
		return
	}
	st := m.sizeof(t)
	if st == 0 {
		return
	}
	if n.small && dst.O != nil && src.O != nil && dst.O.arr == nil && src.O.arr == nil && dst.Off.small && src.Off.small {
		m.checkRange(dst.O, dst.Off, st*n.i64, "write")
		m.checkRange(src.O, src.Off, st*n.i64, "read")
		ls := m.leaves(t)
		if st == 1 && src.O.rtype == nil {
			m.copyCells(dst.O, src.O, dst.Off.i64, src.Off.i64, n.i64)
			return
		}
		vals := make([]Val, 0, int(n.i64)*len(ls))
		for i := int64(0); i < n.i64; i++ {
			for _, l := range ls {
				vals = append(vals, m.readWord(src.O, src.Off.i64+i*st+l.off, l))
			}
		}
		k := 0
		for i := int64(0); i < n.i64; i++ {
			for _, l := range ls {
				m.writeWord(dst.O, dst.Off.i64+i*st+l.off, l.size, vals[k])
				k++
			}
		}
		return
	}
	if (dst.O == nil || src.O == nil) && m.decide(Le(n, I(0))) {
		return
	}
	m.checkNil(dst)
	m.checkNil(src)
	bytes := Scale(n, bi(st))
	for _, x := range []struct {
		p Ptr
		w string
	}{{dst, "write"}, {src, "read"}} {
		ok := And(Le(I(0), x.p.Off), Le(Add(x.p.Off, bytes), x.p.O.size))
		if !m.prove(ok) {
			m.fault("copy: " + x.w + " outside " + x.p.O.describe())
		}
	}
	if dst.O.ro {
		m.fault("write into read-only memory")
	}
	if !m.toArr(dst.O, t) || !m.toArr(src.O, t) || dst.O.arr.stride != st || src.O.arr.stride != st {
		if n.small && n.i64 <= 64 {
			var vs []Val
			for i := int64(0); i < n.i64; i++ {
				vs = append(vs, m.load(Ptr{src.O, Add(src.Off, I(i*st))}, t))
			}
			for i := int64(0); i < n.i64; i++ {
				m.store(Ptr{dst.O, Add(dst.Off, I(i*st))}, t, vs[i])
			}
			return
		}
		m.unsup(fmt.Sprintf("copy between different shapes: %s [%v] size %v cells %d to %s [%v] size %v cells %d, n %v", src.O.describe(), src.O.arr != nil, src.O.size, len(src.O.cells), dst.O.describe(), dst.O.arr != nil, dst.O.size, len(dst.O.cells), n))
	}
	di, dc, ok1 := splitOff(dst.Off, st)
	si, sc, ok2 := splitOff(src.Off, st)
	if !ok1 || !ok2 || dc != 0 || sc != 0 {
		m.unsup("misaligned copy")
	}
	srcNodes := src.O.arr.nodes
	for i := range dst.O.arr.nodes {
		m.noteWrite(dst.O, int64(i))
		m.setNode(dst.O, i, copyNode(dst.O.arr.nodes[i], di, n, srcNodes[i], si))
	}
}

// fitTable finds an arithmetic form of a constant table at the indices idx can take; every entry is compared
func fitTable(tab string, idx *Term) *Term {
	l := toLin(idx)
	if len(l.a) != 1 || !l.n.IsInt64() || !l.co[0].IsInt64() {
		return nil
	}
	x, s, c := l.a[0], l.co[0].Int64(), l.n.Int64()
	if s <= 0 || s > 1<<20 || c > 1<<40 || c < -(1<<40) || len(tab) > 1<<16 {
		return nil
	}
	lo, hi := -c/s-1, (int64(len(tab))-c)/s+1
	if x.lo != nil && x.lo.Cmp(bi(lo)) > 0 {
		if x.lo.Cmp(bi(hi)) > 0 {
			return nil
		}
		lo = x.lo.Int64()
	}
	if x.hi != nil && x.hi.Cmp(bi(hi)) < 0 {
		if x.hi.Cmp(bi(lo)) < 0 {
			return nil
		}
		hi = x.hi.Int64()
	}
	if hi-lo > 4096 || hi < lo {
		return nil
	}
	// the values x can take inside the table
	var xs, vs []int64
	for v := lo; v <= hi; v++ {
		p := s*v + c
		if p < 0 || p >= int64(len(tab)) {
			continue
		}
		xs, vs = append(xs, v), append(vs, int64(tab[p]))
	}
	if len(xs) < 4 {
		return nil
	}
	try := func(f func(v int64) int64, mk func() *Term) *Term {
		a := vs[0] - f(xs[0])
		for i := range xs {
			if f(xs[i])+a != vs[i] {
				return nil
			}
		}
		return Add(mk(), I(a))
	}
	if t := try(func(v int64) int64 { return 0 }, func() *Term { return I(0) }); t != nil {
		return t
	}
	if t := try(func(v int64) int64 { return v }, func() *Term { return x }); t != nil {
		return t
	}
	if xs[0] < 0 {
		return nil
	}
	for _, k := range []int64{2, 8, 10, 16, 100} {
		k := k
		if t := try(func(v int64) int64 { return v % k }, func() *Term { return Mod(x, bi(k)) }); t != nil {
			return t
		}
		if t := try(func(v int64) int64 { return v / k }, func() *Term { return Div(x, bi(k)) }); t != nil {
			return t
		}
	}
	return nil
}
