package main

import (
	"go/types"
	"math/big"
	"sort"
	"strconv"
)

type bigInt = big.Int

// hcell identifies a memory word changed by a loop, across explorations
type hcell struct {
	obj  int
	off  int64
	size int64
	typ  types.Type
	kind leafKind
}

func (st *cutState) cells() map[string]*hcell { return st.hc }

func (st *cutState) note(key string, w *wr) {
	if st.hc == nil {
		st.hc = map[string]*hcell{}
	}
	h := &hcell{obj: w.obj.id, off: w.off, size: w.size, typ: types.Typ[types.Int], kind: lkInt}
	if !w.isArr {
		c := w.obj.cells[w.off]
		h.size = c.size
		switch v := c.v.(type) {
		case *Term:
			switch v.sort {
			case SBool:
				h.kind, h.typ = lkBool, types.Typ[types.Bool]
			case SF64:
				h.kind, h.typ = lkF64, types.Typ[types.Float64]
			case SF32:
				h.kind, h.typ = lkF32, types.Typ[types.Float32]
			case SInt:
				switch c.size {
				case 1:
					h.typ = types.Typ[types.Uint8]
				case 2:
					h.typ = types.Typ[types.Int16]
				case 4:
					h.typ = types.Typ[types.Int32]
				}
			}
		default:
			h.kind, h.typ = lkPtr, types.Typ[types.UnsafePointer]
		}
		// the declared type of the word, if known
		if w.obj.typ != nil {
			if _, isSlice := w.obj.typ.(*types.Slice); !isSlice {
				for _, l := range theM.leaves(w.obj.typ) {
					if l.off == w.off && l.size == c.size && l.kind == h.kind {
						h.typ = l.typ
					}
				}
			}
		}
	}
	st.hc[key] = h
}

var theM *Machine

func (m *Machine) objByID(id int) *Obj { return m.byID[id] }

func sortedKeys(x map[string]string) []string {
	var r []string
	for k := range x {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedTerms(x map[*Term]bool) []*Term {
	var r []*Term
	for k := range x {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// substT replaces symbols
func substT(t *Term, sub map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := sub[t]; ok {
		return r
	}
	if len(t.a) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.a))
	same := true
	for i, a := range t.a {
		as[i] = substT(a, sub, memo)
		if as[i] != a {
			same = false
		}
	}
	r := t
	if !same {
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OLin:
		r := IB(t.n)
		for i, a := range as {
			r = Add(r, Scale(a, t.co[i]))
		}
		return r
	case OUF:
		if t.name == "mul" {
			return Mul(as[0], as[1])
		}
		if len(as) == 2 && t.sort != SInt && t.sort != SBool {
			switch t.name {
			case "fadd", "fsub", "fmul", "fdiv":
				return FArith(t.name, as[0], as[1])
			}
		}
		return UF(t.name, t.sort, t.lo, t.hi, as...)
	case OMod:
		return Mod(as[0], t.n)
	case ODiv:
		return Div(as[0], t.n)
	case OIte:
		return Ite(as[0], as[1], as[2])
	case ONot:
		return Not(as[0])
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case OIff:
		return Iff(as[0], as[1])
	case OLe0:
		return Le0(as[0])
	case OEq0:
		return Eq(as[0], I(0))
	case OFLt, OFLe, OFEq:
		return FCmp(t.op, as[0], as[1])
	case OFNeg:
		return FNeg(as[0])
	case OSame:
		return Same(as[0], as[1])
	}
	panic("rebuild " + strconv.Itoa(int(t.op)))
}

// pure evaluation of a closure of a contract: all its paths are merged into one term

type pureRun struct {
	dec   []bool
	pos   int
	conds []*Term
	todo  [][]bool
}

func (m *Machine) pureDecide(c *Term) bool {
	r := m.pureD
	if r.pos < len(r.dec) {
		v := r.dec[r.pos]
		r.pos++
		r.add(m, c, v)
		return v
	}
	for _, x := range r.conds { // settled inside this evaluation
		if x == c {
			return true
		}
		if x == Not(c) {
			return false
		}
	}
	r.todo = append(r.todo, append(append([]bool{}, r.dec[:r.pos]...), false))
	r.dec = append(r.dec[:r.pos], true)
	r.pos++
	r.add(m, c, true)
	return true
}

func (r *pureRun) add(m *Machine, c *Term, v bool) {
	if !v {
		c = Not(c)
	}
	r.conds = append(r.conds, c)
}

// evalPure evaluates a boolean closure without side effects; false if it cannot
func (m *Machine) evalPure(f *FuncV, args []Val) (res *Term, ok bool) {
	saveD, saveCur, saveUndo, saveObj := m.pureD, m.cur, len(m.undo), m.objSeq
	saveSeq := map[string]int{}
	for k, v := range m.symSeq {
		saveSeq[k] = v
	}
	saveActive := m.active
	m.active = nil
	run := &pureRun{todo: [][]bool{nil}}
	m.pureD = run
	m.pure++
	defer func() {
		m.pure--
		m.pureD, m.cur, m.objSeq, m.symSeq = saveD, saveCur, saveObj, saveSeq
		m.active = saveActive
		if x := recover(); x != nil {
			switch e := x.(type) {
			case unsupported:
				m.lastPure = e.what
				ok = false
			case fault:
				m.lastPure = e.what
				ok = false
			case goPanic:
				m.lastPure = e.rt
				ok = false
			default:
				panic(x)
			}
		}
		if m.pure == 0 {
			m.rollback(saveUndo)
		}
	}()
	var parts []*Term
	n := 0
	for len(run.todo) > 0 {
		d := run.todo[len(run.todo)-1]
		run.todo = run.todo[:len(run.todo)-1]
		run.dec, run.pos, run.conds = d, 0, nil
		n++
		if n > 200 {
			panic(unsupported{"pure function with too many paths"})
		}
		skip := false
		var v Val
		func() {
			defer func() {
				if x := recover(); x != nil {
					switch x.(type) {
					case pathEnd, goPanic: // a condition that panics does not hold
						skip = true
						return
					}
					panic(x)
				}
			}()
			v = m.call(f, args, nil)
		}()
		m.cur = saveCur
		if !skip {
			t, isT := v.(*Term)
			if !isT {
				panic(unsupported{"pure function without a boolean result"})
			}
			parts = append(parts, And(append(append([]*Term{}, run.conds...), t)...))
		}
		m.rollback(saveUndo)
	}
	return Or(parts...), true
}
