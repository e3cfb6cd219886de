package main

import (
	"fmt"
	"go/types"
	"os"
)

// A loop that writes one element of an array per iteration, at an index that moves with a counter, leaves an array that
// is known exactly: the element written by the iteration j is the value of that iteration. The value is learned from one
// iteration and checked on every one.

// fill is what a loop writes
type fill struct {
	iv  *Term // the counter, at the head
	off *Term // index is off + iv, or off - iv (neg)
	neg bool
	val Val
	bad bool
}

// slotOfSym is the slot of a symbol
func (in *loopInst) slotOfSym(t *Term) *slot {
	for _, s := range in.slots {
		if s.sym != nil && s.sym == t {
			return s
		}
	}
	return nil
}

// fixed says whether t does not depend on what the loop changes, other than iv
func (m *Machine) fixed(in *loopInst, t *Term, iv *Term) bool {
	for _, s := range in.slots {
		if s.sym != nil && s.sym != iv && t.contains(s.sym, map[*Term]bool{}) {
			return false
		}
	}
	return !t.hasName("harr", map[*Term]bool{})
}

func (t *Term) hasName(prefix string, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if len(t.name) >= len(prefix) && t.name[:len(prefix)] == prefix {
		return true
	}
	for _, x := range t.a {
		if x.hasName(prefix, seen) {
			return true
		}
	}
	return false
}

// gen is the value of a fill at the counter j
func (f *fill) gen(m *Machine, j *Term) Val {
	sub := map[*Term]*Term{f.iv: j}
	switch v := f.val.(type) {
	case *Term:
		return substT(v, sub, map[*Term]*Term{})
	case Ptr:
		if v.O == nil {
			return v
		}
		if n := textOf(v.O); n != nil { // a text that is a function of the counter
			idxs := make([]*Term, len(n.idxs))
			for i, x := range n.idxs {
				idxs[i] = substT(x, sub, map[*Term]*Term{})
			}
			return Ptr{m.textObj(symNode(n.name, n.lf, idxs...), substT(v.O.size, sub, map[*Term]*Term{})), substT(v.Off, sub, map[*Term]*Term{})}
		}
		if v.O.from == nil {
			break
		}
		n := m.symNodes[v.O.from.own]
		if n == nil {
			break
		}
		w := m.nodeAt(n, substT(v.O.fromIdx, sub, map[*Term]*Term{}))
		if q, ok := w.(Ptr); ok {
			return Ptr{q.O, Add(q.Off, substT(v.Off, sub, map[*Term]*Term{}))}
		}
	}
	return &Poison{"changed by a loop"}
}

// textOf is the content of a read-only text that is a function of terms
func textOf(o *Obj) *Node {
	if o == nil || !o.ro || o.from != nil || o.arr == nil || o.arr.stride != 1 || len(o.arr.nodes) != 1 || o.arr.nodes[0].kind != NSym || len(o.arr.nodes[0].idxs) == 0 {
		return nil
	}
	return o.arr.nodes[0]
}

// textObj is the read-only text with the content; it is not numbered as what the program allocates
func (m *Machine) textObj(n *Node, size *Term) *Obj {
	k := [2]int{n.id, size.id}
	if o := m.texts[k]; o != nil {
		return o
	}
	if m.texts == nil {
		m.texts = map[[2]int]*Obj{}
	}
	o := &Obj{id: -1000 - len(m.texts), size: size, typ: types.NewSlice(types.Typ[types.Uint8]), cells: map[int64]cell{}, ro: true}
	o.arr = &Arr{stride: 1, leaves: []leaf{{0, 1, types.Typ[types.Uint8], lkInt}}, nodes: []*Node{n}}
	m.texts[k] = o
	return o
}

func (m *Machine) fillNode(in *loopInst, s *slot) *Node {
	f := s.fill
	c := in.slotOfSym(f.iv)
	if c == nil || slotTerm(c, c.entry) == nil {
		f.bad = true
		s.fill = nil
		return symNode("harr"+s.key+"_x", s.node.lf)
	}
	nodeSeq++
	return &Node{id: nodeSeq, kind: NFill, prev: s.node, lf: s.node.lf, idx: slotTerm(c, c.entry), n: f.iv, srcLo: f.off, neg: f.neg,
		fn: func(m *Machine, j *Term) Val { return f.gen(m, j) }}
}

// learnFill compares what an iteration wrote with what is known, or learns it
func (m *Machine) learnFill(in *loopInst, s *slot, sub map[*Term]*Term) {
	st := in.cut
	if s.fill == nil && st.fills[s.key] != nil {
		return
	}
	var got *fill
	if n := s.obj.arr.nodes[s.off]; n.kind == NStore && n.prev == s.head {
		for _, c := range in.slots {
			if c.sym == nil || c.sym.sort != SInt || c.kind != "int" || sub[c.sym] == nil {
				continue
			}
			if s.fill != nil && s.fill.iv != c.sym {
				continue
			}
			if !m.valid(Eq(sub[c.sym], Add(c.sym, I(1)))) {
				continue
			}
			f := &fill{iv: c.sym, off: Sub(n.idx, c.sym), val: n.val}
			if f.off.contains(c.sym, map[*Term]bool{}) {
				f.neg, f.off = true, Add(n.idx, c.sym)
			}
			if f.off.contains(c.sym, map[*Term]bool{}) || !m.fixed(in, f.off, nil) {
				continue
			}
			ok := false
			switch v := n.val.(type) {
			case *Term:
				ok = m.fixed(in, v, c.sym)
			case Ptr:
				ok = m.fixed(in, v.Off, c.sym)
				if t := textOf(v.O); t != nil {
					ok = ok && m.fixed(in, v.O.size, c.sym)
					for _, x := range t.idxs {
						ok = ok && m.fixed(in, x, c.sym)
					}
				} else if v.O != nil {
					ok = ok && v.O.from != nil && v.O.from.own[0] > 0 && m.fixed(in, v.O.fromIdx, c.sym)
				}
			}
			if ok {
				got = f
				break
			}
		}
	}
	if os.Getenv("GOVC_FILL") != "" {
		n := s.obj.arr.nodes[s.off]
		fmt.Printf("fill %s: kind %d prevhead %v learned %v known %v val %T %v\n", s.key, n.kind, n.prev == s.head, got != nil, s.fill != nil, n.val, n.val)
		if p, ok := n.val.(Ptr); ok && p.O != nil {
			fmt.Printf("   from %v %v\n", p.O.from, p.O.fromIdx)
		}
	}
	if s.fill == nil {
		if got == nil {
			got = &fill{bad: true}
		}
		if st.fills == nil {
			st.fills = map[string]*fill{}
		}
		st.fills[s.key] = got
		if !got.bad {
			m.vc.changed, st.dirty = true, true
		}
		return
	}
	f := s.fill
	if f.bad {
		return
	}
	same := got != nil && got.iv == f.iv && got.off == f.off && got.neg == f.neg
	if same {
		switch v := f.val.(type) {
		case *Term:
			w, ok := got.val.(*Term)
			same = ok && w == v
		case Ptr:
			w, ok := got.val.(Ptr)
			if t := textOf(v.O); t != nil {
				same = ok && textOf(w.O) == t && w.Off == v.Off && w.O.size == v.O.size
				break
			}
			same = ok && w.Off == v.Off && (w.O == v.O || w.O != nil && v.O != nil && w.O.from != nil && w.O.from.own == v.O.from.own && w.O.from == m.symNodes[w.O.from.own] && w.O.fromIdx == v.O.fromIdx)
		default:
			same = false
		}
	}
	if !same {
		f.bad = true
		m.vc.changed, in.cut.dirty = true, true
	}
}
