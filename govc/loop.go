package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

const unrollLimit = 26

// loopInfo holds the natural loops of a function
type loopInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	scan    map[*ssa.BasicBlock]bool
}

func (m *Machine) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := m.loopTab[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				body := li.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li.headers[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	m.loopTab[fn] = li
	return li
}

// slot is a location changed by a loop
type slot struct {
	key   string
	phi   *ssa.Phi
	obj   *Obj
	off   int64 // byte offset, or leaf index of an array
	isArr bool
	kind  string // int, bool, float, off (pointer into one object), poison, arr
	sym   *Term
	node  *Node
	entry Val
	head  *Node
	fill  *fill
}

// cutState is what is known about a loop that is verified by an invariant
type cutState struct {
	grew  bool
	skip  int  // how many executions of the loop come before the first that needs an invariant
	dirty bool // an iteration has changed what is known
	key   string
	havoc map[string]string // slot key -> kind
	dead  map[string]bool   // refuted candidates
	conds map[*Term]bool    // branch conditions met inside, over the symbols of the head
	exits map[*Term]bool    // those where the loop may end
	hc    map[string]*hcell
	fills map[string]*fill
}

// loopInst is one dynamic execution of a loop
type loopInst struct {
	fr      *frame
	head    *ssa.BasicBlock
	key     string
	symAt   int
	iters   int
	cut     *cutState
	slots   []*slot
	cands   []*cand
	mark    int // objects with a larger id were allocated inside
	writes  map[string]*wr
	nActive int
	pos     int
	bools   []*slot
	headPhi map[*ssa.Phi]Val
	nForall int
	nth     int // executions of the loop before this one on the path
	measure map[string]*Term
	left    bool
	open    bool // the number of iterations is not known
	entry   []decision
}

type wr struct {
	obj   *Obj
	off   int64
	isArr bool
	old   Val
	oldN  *Node
	size  int64
}

// cand is a candidate invariant
type cand struct {
	key string
	t   *Term  // over the symbols of the head
	inv *FuncV // closure of the contract
	all *hint  // for all lo <= k < hi
	lo  *Term
	hi  *Term

	body, k *Term // for all lo <= k < hi: body, without a closure
}

// forall is an assumed universal fact: for lo <= k < hi, body(k)
type forall struct {
	lo, hi, k, body *Term
	trig            []trig
	trigK           bool
}

// hint is a family of universal candidates given by the contract
type hint struct {
	lo, hi *Term
	p      *FuncV
}

// relHint offers a relation between the variables a loop changes
type relHint struct {
	kind string
	f    *FuncV
}

// onPathOf says whether the loop is entered on a path that leads to g
func (c *cutState) onPathOf(g *cutState) bool {
	return strings.HasPrefix(g.key, c.key[:strings.IndexByte(c.key, '|')])
}

func (m *Machine) loopKey(fr *frame, b *ssa.BasicBlock, pos int) string {
	p := make([]byte, 0, 256)
	name := func(fn *ssa.Function, i int) {
		s, ok := m.fnNames[fn]
		if !ok {
			s = fn.String()
			if m.fnNames == nil {
				m.fnNames = map[*ssa.Function]string{}
			}
			m.fnNames[fn] = s
		}
		p = append(append(append(p, s...), '@'), strconv.Itoa(i)...)
		p = append(p, '<')
	}
	p = append(append(p, m.forkPrefix(pos)...), '|')
	name(fr.fn, b.Index)
	for f := fr.caller; f != nil; f = f.caller {
		name(f.fn, f.block.Index)
	}
	return string(p)
}

// sameLoop is how many executions of a loop get invariants of their own, the others share one
const sameLoop = 4

func nthKey(key string, n int) string {
	return key + "#" + strconv.Itoa(n)
}

// loopEntry tells the executions of loops apart but for the order of those with the same callers
type loopEntry struct {
	fn      *ssa.Function
	block   int
	callers uint64
}

// callers identifies the call sites of the frame
func (fr *frame) callers() uint64 {
	if fr.chain == 0 {
		h := uint64(14695981039346656037)
		for f := fr.caller; f != nil; f = f.caller {
			h = (h ^ uint64(uintptr(unsafe.Pointer(f.fn)))) * 1099511628211
			h = (h ^ uint64(f.block.Index)) * 1099511628211
		}
		fr.chain = h | 1
	}
	return fr.chain
}

// scans says whether a loop only looks at data: it calls nothing but functions without calls and loops
func (m *Machine) scans(li *loopInfo, h *ssa.BasicBlock) bool {
	if v, ok := li.scan[h]; ok {
		return v
	}
	if li.scan == nil {
		li.scan = map[*ssa.BasicBlock]bool{}
	}
	li.scan[h] = true
	for b := range li.headers[h] {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, ok := c.Common().Value.(*ssa.Builtin); ok {
				continue
			}
			f := c.Common().StaticCallee()
			if f == nil || len(f.Blocks) == 0 || len(m.loopsOf(f).headers) > 0 || calls(f) {
				li.scan[h] = false
				return false
			}
		}
	}
	return true
}

func calls(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(ssa.CallInstruction); ok {
				return true
			}
		}
	}
	return false
}

// atHeader is called when control reaches a loop header
func (m *Machine) atHeader(fr *frame, b *ssa.BasicBlock) {
	body := fr.li.headers[b]
	back := fr.prev != nil && body[fr.prev] && fr.loops[b] != nil
	phis, vals := fr.phiVals(b)
	if fr.loops == nil {
		fr.loops = map[*ssa.BasicBlock]*loopInst{}
	}
	if !back {
		in := &loopInst{fr: fr, head: b, symAt: m.symDec, mark: m.objSeq, pos: m.pos}
		fr.loops[b] = in
		if m.pure == 0 && !m.inBase {
			k := loopEntry{fr.fn, b.Index, fr.callers()}
			in.nth = m.entered[k]
			m.entered[k]++
		}
		if m.pure == 0 && !m.inBase && len(m.cuts) > 0 {
			in.key = m.loopKey(fr, b, m.pos)
			if in.cut = m.cuts[nthKey(in.key, in.nth)]; in.cut == nil {
				if c := m.cuts[in.key]; c != nil && in.nth >= c.skip {
					in.cut = c
				}
			}
		}
		if in.cut == nil {
			for i, p := range phis {
				fr.env[p] = vals[i]
			}
			return
		}
		m.enterCut(in, phis, vals)
		return
	}
	in := fr.loops[b]
	if in.cut != nil {
		m.closeCut(in, phis, vals)
		return
	}
	in.iters++
	if m.symDec > in.symAt && m.pure == 0 && !m.inBase && fr.fn.Name() != "Pick" {
		// count iterations that needed a decision
		in.symAt = m.symDec
		in.nActive++
		if in.nActive > unrollLimit || m.vc.unroll > 0 && in.nActive > m.vc.unroll || in.nActive > 3 && len(m.hints)+len(m.rels) > 0 || m.vc.unrollScans > 0 && in.nActive > m.vc.unrollScans && in.open && m.scans(fr.li, b) {
			// verify this loop with an invariant from now on
			key := m.loopKey(fr, b, in.pos)
			if c := m.cuts[key]; c != nil {
				c.skip = in.nth
				panic(restart{"loop " + fr.fn.String(), in})
			}
			if m.nCuts == nil {
				m.nCuts = map[string]int{}
			}
			if m.nCuts[key] < sameLoop {
				m.nCuts[key]++
				key = nthKey(key, in.nth)
			}
			m.cuts[key] = &cutState{key: key, skip: in.nth, havoc: map[string]string{}, dead: map[string]bool{}, conds: map[*Term]bool{}}
			panic(restart{"loop " + fr.fn.String(), in})
		}
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

func (m *Machine) intBounds(t types.Type) (lo, hi *bigInt) {
	b, s := m.intKind(t)
	if s {
		return bneg(pow2(b - 1)), bsub(pow2(b-1), big1)
	}
	return big0, bsub(pow2(b), big1)
}

// havocVal makes an arbitrary value for a slot
func (m *Machine) havocVal(in *loopInst, s *slot, entry Val, t types.Type, kind string) Val {
	s.entry, s.kind = entry, kind
	name := "h" + s.key + "_"
	switch kind {
	case "int":
		lo, hi := m.intBounds(t)
		s.sym = m.fresh(name, SInt, lo, hi)
		return s.sym
	case "bool":
		s.sym = m.fresh(name, SBool, nil, nil)
		return s.sym
	case "float":
		so := SF64
		if e, ok := entry.(*Term); ok {
			so = e.sort
		}
		s.sym = m.fresh(name, so, nil, nil)
		return s.sym
	case "off":
		s.sym = m.fresh(name, SInt, bneg(pow2(62)), pow2(62))
		return Ptr{entry.(Ptr).O, s.sym}
	}
	return &Poison{"changed by a loop"}
}

// enterCut replaces everything the loop changes by arbitrary values that satisfy the candidate invariants
func (m *Machine) enterCut(in *loopInst, phis []*ssa.Phi, vals []Val) {
	st := in.cut
	m.vc.loops[in.fr.fn.String()] = true
	for i, p := range phis {
		in.fr.env[p] = vals[i]
	}
	// entry values of candidates that need the memory at entry are checked before the havoc
	for i, p := range phis {
		key := "phi:" + p.Name()
		kind, ok := st.havoc[key]
		if !ok {
			continue
		}
		s := &slot{key: key, phi: p}
		var v Val
		switch kind {
		case "string":
			v = &Poison{"changed by a loop"}
			s.kind = "poison"
		case "slice":
			v = &Poison{"changed by a loop"}
			s.kind = "poison"
		default:
			v = m.havocVal(in, s, vals[i], p.Type(), kind)
		}
		in.fr.env[p] = v
		in.slots = append(in.slots, s)
	}
	entryEnv := map[*ssa.Phi]Val{}
	for i, p := range phis {
		entryEnv[p] = vals[i]
	}
	type pendingCell struct {
		s    *slot
		size int64
		v    Val
		n    *Node
	}
	var cells []pendingCell
	for _, key := range sortedKeys(st.havoc) {
		if strings.HasPrefix(key, "phi:") {
			continue
		}
		w := st.cells()[key]
		o := m.objByID(w.obj)
		if o == nil {
			continue
		}
		s := &slot{key: key, obj: o, off: w.off, isArr: o.arr != nil}
		kind := st.havoc[key]
		if o.arr != nil {
			if int(w.off) >= len(o.arr.nodes) {
				continue
			}
			old := o.arr.nodes[w.off]
			s.kind, s.node = "arr", old
			m.symSeq["harr"+key]++
			n := symNode(fmt.Sprintf("harr%s_%d", key, m.symSeq["harr"+key]), old.lf)
			if f := st.fills[key]; f != nil && !f.bad {
				s.fill = f
				n = nil
			}
			if m.vc.learning && st.fills[key] == nil && hasPtr(o.arr.leaves) {
				// what is written is learned as if the elements the loop reads were those before it; it is checked
				n = nil
				s.head = old
			}
			cells = append(cells, pendingCell{s: s, n: n})
			in.slots = append(in.slots, s)
			continue
		}
		c := o.cells[w.off]
		size := c.size
		entry := c.v
		if entry == nil {
			size = w.size
			entry = m.zeroLeaf(leaf{w.off, w.size, w.typ, w.kind})
		}
		v := m.havocVal(in, s, entry, w.typ, kind)
		cells = append(cells, pendingCell{s: s, size: size, v: v})
		in.slots = append(in.slots, s)
	}
	// candidates
	in.cands = m.candidates(in)
	// base case
	subst := map[*Term]*Term{}
	for _, s := range in.slots {
		if s.sym != nil {
			if t := slotTerm(s, s.entry); t != nil {
				subst[s.sym] = t
			}
		}
	}
	for p, v := range entryEnv { // closures are evaluated on the entry state
		_ = p
		_ = v
	}
	for _, c := range in.cands {
		if st.dead[c.key] {
			continue
		}
		if !m.holdsNow(c, subst) {
			m.kill(in, c, "at entry")
		}
	}
	// now forget
	for _, c := range cells {
		if c.s.fill != nil {
			c.n = m.fillNode(in, c.s)
		}
		if c.n != nil {
			m.setNode(c.s.obj, int(c.s.off), c.n)
			c.s.head = c.n
			continue
		}
		if c.s.kind == "arr" {
			continue
		}
		m.logCell(c.s.obj, c.s.off)
		c.s.obj.cells[c.s.off] = cell{c.v, c.size}
	}
	in.mark = m.objSeq
	in.writes = map[string]*wr{}
	in.headPhi = map[*ssa.Phi]Val{}
	for _, p := range phis {
		in.headPhi[p] = in.fr.env[p]
	}
	for _, c := range in.cands {
		if !st.dead[c.key] {
			m.assumeCand(c)
		}
	}
	// the universal facts at the positions of the loop
	if n := len(in.slots); n > 0 {
		for _, s := range in.slots {
			if s.sym != nil && s.sym.sort == SInt && len(m.foralls)*n <= 200 {
				for _, t := range m.instAt(s.sym) {
					m.addPC(t)
				}
			}
		}
	}
	m.active = append(m.active, in)
	in.symAt = m.symDec
}

func hasPtr(ls []leaf) bool {
	for _, l := range ls {
		if l.kind == lkPtr {
			return true
		}
	}
	return false
}

func slotTerm(s *slot, v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case Ptr:
		if s.kind == "off" {
			return x.Off
		}
	}
	return nil
}

// candidates builds the candidate invariants over the symbols of the head
func (m *Machine) candidates(in *loopInst) []*cand {
	var out []*cand
	add := func(key string, t *Term) {
		if t.isTrue() {
			return
		}
		out = append(out, &cand{key: fmt.Sprintf("%s:%d", key, t.id), t: t})
	}
	type iv struct{ sym, ent *Term }
	var ints []iv
	for _, s := range in.slots {
		if s.sym == nil || s.sym.sort != SInt {
			continue
		}
		e := slotTerm(s, s.entry)
		if e == nil {
			continue
		}
		ints = append(ints, iv{s.sym, e})
		add("ge", Le(e, s.sym))
		add("le", Le(s.sym, e))
		add("nn", Le(I(0), s.sym))
		add("m1", Le(I(-1), s.sym))
	}
	for i, a := range ints {
		for j, b := range ints {
			if i < j {
				add("eqd", Eq(Sub(a.sym, b.sym), Sub(a.ent, b.ent)))
				add("eqs", Eq(Add(a.sym, b.sym), Add(a.ent, b.ent)))
			}
			if i != j {
				for _, c := range []int64{2, 4, 8, 16, 24} {
					add("lin", Eq(Sub(a.sym, Scale(b.sym, bi(c))), Sub(a.ent, Scale(b.ent, bi(c)))))
				}
				if i < j {
					add("ord", Le(a.sym, b.sym))
					add("ord", Le(b.sym, a.sym))
				}
			}
		}
	}
	for _, t := range sortedTerms(in.cut.conds) {
		for _, x := range []*Term{t, Not(t)} {
			add("cond", x)
			if x.op == OLe0 {
				add("relax", Le0(Sub(x.a[0], I(1))))
			}
		}
	}
	// what held at every position passed so far
	for _, t := range sortedTerms(in.cut.exits) {
		var at *iv
		n := 0
		for i := range ints {
			if t.contains(ints[i].sym, map[*Term]bool{}) {
				at = &ints[i]
				n++
			}
		}
		if n != 1 || !readsAt(t, at.sym) {
			continue
		}
		for _, x := range []*Term{t, Not(t)} {
			out = append(out, &cand{key: fmt.Sprintf("past:%d", x.id), body: x, k: at.sym, lo: at.ent, hi: at.sym})
		}
	}
	for i, s := range in.slots {
		if s.sym != nil && s.sym.sort == SBool {
			if e := slotTerm(s, s.entry); e != nil {
				add("bool", Iff(s.sym, e))
			}
		}
		_ = i
	}
	for i, f := range m.invs {
		out = append(out, &cand{key: fmt.Sprintf("inv%d", i), inv: f})
	}
	var bools []*Term
	for _, s := range in.slots {
		if s.sym != nil && s.sym.sort == SBool && slotTerm(s, s.entry) != nil {
			bools = append(bools, s.sym)
		}
	}
	for i, h := range m.rels {
		rel := func(args ...Val) {
			if t, ok := m.evalPure(h.f, args); ok {
				add(fmt.Sprintf("rel%d", i), t)
			}
		}
		switch h.kind {
		case "HintI":
			for _, a := range ints {
				rel(a.sym)
			}
		case "HintII":
			for x, a := range ints {
				for y, b := range ints {
					if x != y {
						rel(a.sym, b.sym)
					}
				}
			}
		case "HintIB":
			for _, a := range ints {
				for _, b := range bools {
					rel(a.sym, b)
				}
			}
		}
	}
	for i := range m.hints {
		h := &m.hints[i]
		for _, a := range ints {
			up := func(hi *Term, tag string) {
				out = append(out, &cand{key: fmt.Sprintf("all%d%s:%d", i, tag, a.sym.id), all: h, lo: h.lo, hi: hi})
			}
			up(a.sym, "u")
			up(Add(a.sym, I(1)), "v")
			up(Sub(a.sym, I(1)), "z")
			if a.ent != h.lo {
				up(Add(h.lo, Sub(a.sym, a.ent)), "w")
			}
			if !h.lo.small { // an index relative to the first position
				up(Add(h.lo, a.sym), "x")
				up(Add(h.lo, Add(a.sym, I(1))), "y")
			}
			out = append(out, &cand{key: fmt.Sprintf("alld%d:%d", i, a.sym.id), all: h, lo: a.sym, hi: h.hi})
			out = append(out, &cand{key: fmt.Sprintf("alle%d:%d", i, a.sym.id), all: h, lo: Add(a.sym, I(1)), hi: h.hi})
		}
		out = append(out, &cand{key: fmt.Sprintf("allx%d", i), all: h, lo: h.lo, hi: h.hi})
	}
	return out
}

// holdsNow checks a candidate in the current memory, with the symbols of the head replaced
func (m *Machine) holdsNow(c *cand, sub map[*Term]*Term) bool {
	if c.t != nil {
		return m.valid(substT(c.t, sub, map[*Term]*Term{}))
	}
	if c.inv != nil {
		t, ok := m.evalPure(c.inv, nil)
		return ok && m.valid(t)
	}
	k := m.fresh("sk", SInt, bneg(pow2(63)), pow2(63))
	lo, hi := substT(c.lo, sub, map[*Term]*Term{}), substT(c.hi, sub, map[*Term]*Term{})
	t, ok := m.candBody(c, k)
	if !ok {
		return false
	}
	rng := And(Le(lo, k), Lt(k, hi))
	return m.valid(Or(Not(rng), t), k)
}

// valid decides pc => t, with the universal facts instantiated at the skolem constants
func (m *Machine) valid(t *Term, sks ...*Term) bool {
	if t.isTrue() {
		return true
	}
	if k, v := m.known(t); k {
		return v
	}
	q := []*Term{Not(t)}
	for _, k := range sks {
		q = append(q, m.instAt(k)...)
	}
	return m.refute(q) == Unsat
}

// refute decides whether the path condition contradicts q, with the help of instances of the universal facts
func (m *Machine) refute(q []*Term) Res {
	r, _ := m.s.check(m.pc, And(q...), nil)
	if r == Unsat || len(m.foralls) == 0 {
		return r
	}
	if more := m.matched(append(append([]*Term{}, m.pc...), q...)); len(more) > 0 {
		r, _ = m.s.check(m.pc, And(append(append([]*Term{}, q...), more...)...), nil)
	}
	return r
}

// trig is an application f(k+off) in a universal fact
type trig struct {
	f   string
	off *Term
}

func (f *forall) triggers() []trig {
	if f.trigK {
		return f.trig
	}
	f.trigK = true
	seen := map[trig]bool{}
	for _, app := range appsOf(f.body) {
		off := Sub(app.a[0], f.k)
		if off.contains(f.k, map[*Term]bool{}) {
			continue
		}
		g := trig{app.name, off}
		if !seen[g] {
			seen[g] = true
			f.trig = append(f.trig, g)
		}
	}
	return f.trig
}

var appMemo = map[*Term][]*Term{}

// appsOf lists the applications of array functions in t
func appsOf(t *Term) []*Term {
	if v, ok := appMemo[t]; ok {
		return v
	}
	var out []*Term
	seen := map[*Term]bool{}
	if t.op == OUF && len(t.a) == 1 && t.a[0].sort == SInt {
		out, seen[t] = append(out, t), true
	}
	for _, x := range t.a {
		for _, y := range appsOf(x) {
			if !seen[y] {
				seen[y] = true
				out = append(out, y)
			}
		}
	}
	appMemo[t] = out
	return out
}

// simp replaces what the path condition settles
func (m *Machine) simp(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	switch t.op {
	case OLe0, OEq0:
		if k, v := m.known(t); k {
			r = B(v)
		} else if x := m.s.iv.sat(m.pc, t); x != 0 {
			if m.s.iv.sat(m.pc, Not(t)) < 0 {
				r = tTrue
			} else if x < 0 {
				r = tFalse
			}
		}
	case OAnd, OOr, ONot, OIff:
		as := make([]*Term, len(t.a))
		for i, a := range t.a {
			as[i] = m.simp(a, memo)
		}
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

// fewInstances is the number of instances whose range is left to the solver
const fewInstances = 24

// matched instantiates the universal facts where their applications meet those of the terms
func (m *Machine) matched(ts []*Term) []*Term {
	var out []*Term
	type key struct{ f, k *Term }
	done := map[key]bool{}
	seen := map[*Term]bool{}
	cur := ts
	for round := 0; round < 3 && len(out) < 120; round++ {
		var apps []*Term
		for _, t := range cur {
			for _, a := range appsOf(t) {
				if !seen[a] {
					seen[a] = true
					apps = append(apps, a)
				}
			}
		}
		cur = nil
		for _, f := range m.foralls {
			for _, g := range f.triggers() {
				for _, a := range apps {
					if a.name != g.f {
						continue
					}
					k := Sub(a.a[0], g.off)
					if done[key{f.body, k}] || k.contains(f.k, map[*Term]bool{}) {
						continue
					}
					done[key{f.body, k}] = true
					rng := m.simp(And(Le(f.lo, k), Lt(k, f.hi)), map[*Term]*Term{})
					if !rng.isTrue() && !rng.isFalse() && len(out) >= fewInstances {
						if r, _ := m.s.check(m.pc, rng, nil); r == Unsat {
							continue
						}
						if r, _ := m.s.check(m.pc, Not(rng), nil); r == Unsat {
							rng = tTrue
						}
					}
					if rng.isFalse() {
						continue
					}
					b := m.simp(substT(f.body, map[*Term]*Term{f.k: k}, map[*Term]*Term{}), map[*Term]*Term{})
					t := Or(Not(rng), b)
					if t.isTrue() {
						continue
					}
					out = append(out, t)
					cur = append(cur, t)
				}
			}
		}
	}
	return out
}

// instAt instantiates the universal facts at k
func (m *Machine) instAt(k *Term) []*Term {
	var out []*Term
	for _, f := range m.foralls {
		b := substT(f.body, map[*Term]*Term{f.k: k}, map[*Term]*Term{})
		out = append(out, Or(Not(And(Le(f.lo, k), Lt(k, f.hi))), b))
	}
	return out
}

func (m *Machine) assumeCand(c *cand) {
	switch {
	case c.t != nil:
		m.addPC(c.t)
	case c.inv != nil:
		if t, ok := m.evalPure(c.inv, nil); ok {
			m.addPC(t)
		}
	default:
		k := m.fresh("qk", SInt, bneg(pow2(63)), pow2(63))
		if t, ok := m.candBody(c, k); ok {
			f := &forall{lo: c.lo, hi: c.hi, k: k, body: t}
			m.foralls = append(m.foralls, f)
			if c.body != nil {
				m.atEdges(f)
			}
		}
	}
}

func (m *Machine) candBody(c *cand, k *Term) (*Term, bool) {
	if c.body != nil {
		return substT(c.body, map[*Term]*Term{c.k: k}, map[*Term]*Term{}), true
	}
	return m.evalPure(c.all.p, []Val{k})
}

// readsAt says whether t reads a sequence at a position that depends on x
func readsAt(t, x *Term) bool {
	for _, app := range appsOf(t) {
		if app.a[0].contains(x, map[*Term]bool{}) {
			return true
		}
	}
	return false
}

// atEdges instantiates a universal fact where the pieces of a concatenation begin and end
func (m *Machine) atEdges(f *forall) {
	seen := map[*Term]bool{}
	edges := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OLe0 {
			for _, e := range []*Term{Add(t.a[0], f.k), Sub(f.k, t.a[0])} {
				if !e.contains(f.k, map[*Term]bool{}) && t.a[0].contains(f.k, map[*Term]bool{}) {
					edges[e] = true // the last position where it holds, or the first
				}
			}
		}
		for _, x := range t.a {
			walk(x)
		}
	}
	walk(f.body)
	es := sortedTerms(edges)
	if len(es) > 16 {
		es = es[:16]
	}
	for _, e := range es {
		b := substT(f.body, map[*Term]*Term{f.k: e}, map[*Term]*Term{})
		m.addPC(Or(Not(And(Le(f.lo, e), Lt(e, f.hi))), b))
	}
}

// closeCut is called when control comes back to the head: the invariants must hold again
func (m *Machine) closeCut(in *loopInst, phis []*ssa.Phi, vals []Val) {
	st := in.cut
	grow := func(key, kind string) {
		old := st.havoc[key]
		if old == kind || old == "poison" {
			return
		}
		if old != "" && old != kind {
			kind = "poison"
		}
		st.havoc[key] = kind
		m.vc.changed, st.grew, st.dirty = true, true, true
	}
	byPhi := map[*ssa.Phi]*slot{}
	for _, s := range in.slots {
		if s.phi != nil {
			byPhi[s.phi] = s
		}
	}
	sub := map[*Term]*Term{}
	for i, p := range phis {
		h := in.headPhi[p]
		s := byPhi[p]
		if s == nil {
			if m.sameNow(h, vals[i]) {
				continue
			}
			grow("phi:"+p.Name(), kindOf(h, vals[i]))
			continue
		}
		if s.kind == "off" {
			if q, ok := vals[i].(Ptr); ok && q.O == s.entry.(Ptr).O {
				sub[s.sym] = q.Off
			} else {
				grow(s.key, "poison")
			}
			continue
		}
		if s.sym != nil {
			if t, ok := vals[i].(*Term); ok {
				sub[s.sym] = t
			} else {
				grow(s.key, "poison")
			}
		}
	}
	have := map[string]*slot{}
	for _, s := range in.slots {
		if s.obj != nil {
			have[s.key] = s
			if s.sym != nil {
				c := s.obj.cells[s.off]
				switch v := c.v.(type) {
				case *Term:
					if v.sort == s.sym.sort {
						sub[s.sym] = v
						continue
					}
					grow(s.key, "poison")
				case Ptr:
					if s.kind == "off" && v.O == s.entry.(Ptr).O {
						sub[s.sym] = v.Off
						continue
					}
					grow(s.key, "poison")
				default:
					grow(s.key, "poison")
				}
			}
		}
	}
	for _, s := range in.slots {
		if s.isArr {
			m.learnFill(in, s, sub)
		}
	}
	for key, w := range in.writes {
		if have[key] != nil {
			continue
		}
		if w.isArr {
			if int(w.off) < len(w.obj.arr.nodes) && w.obj.arr.nodes[w.off] != w.oldN {
				st.note(key, w)
				grow(key, "arr")
			}
			continue
		}
		c := w.obj.cells[w.off]
		if !m.sameNow(w.old, c.v) {
			st.note(key, w)
			grow(key, kindOf(w.old, c.v))
		}
	}
	var rest []*cand
	var all []*Term
	for _, c := range in.cands {
		if st.dead[c.key] {
			continue
		}
		if c.t == nil {
			rest = append(rest, c)
			continue
		}
		t := substT(c.t, sub, map[*Term]*Term{})
		if keeps, known := moved(c.t, t); known {
			if !keeps {
				m.kill(in, c, byIteration)
			}
			continue
		}
		if k, v := m.known(t); k && v {
			continue
		}
		rest, all = append(rest, c), append(all, t)
	}
	same := len(all) > 1 && m.valid(And(all...))
	for _, c := range rest {
		if same && c.t != nil {
			continue
		}
		if !m.holdsNow(c, sub) {
			m.kill(in, c, byIteration)
		}
	}
	if m.vc.mustTerm && !m.vc.learning {
		m.checkMeasure(in, sub)
	}
	panic(pathEnd{"loop closed"})
}

// moved compares a linear fact that holds with the same fact after an iteration that moved it by a constant
func moved(t, u *Term) (keeps, known bool) {
	if t.op != u.op || t.op != OLe0 && t.op != OEq0 {
		return false, false
	}
	d := Sub(u.a[0], t.a[0])
	if !d.isConst() {
		return false, false
	}
	switch s := d.n.Sign(); {
	case s == 0, t.op == OLe0 && s < 0:
		return true, true
	case t.op == OEq0:
		return false, true
	}
	return false, false
}

const byIteration = "by an iteration"

func (m *Machine) kill(in *loopInst, c *cand, why string) {
	in.cut.dead[c.key] = true
	m.vc.changed = true
	if why == byIteration {
		in.cut.dirty = true
	}
	if os.Getenv("GOVC_CANDS") != "" {
		x := c.key
		if c.t != nil {
			x += " " + c.t.String()
		}
		if c.all != nil {
			x += " " + c.lo.String() + " .. " + c.hi.String()
		}
		if os.Getenv("GOVC_CANDS") == "2" && c.all != nil {
			for _, f := range m.foralls {
				fmt.Println("   have", f.lo, f.hi, f.k, f.body.str(9))
			}
			for _, f := range m.pc {
				fmt.Println("   pc", f.str(14))
			}
		}
		fmt.Println("  dropped", why, in.fr.fn.Name(), in.head.Index, x)
	}
}

// checkMeasure looks for an integer of the loop that moves towards a bound in every iteration
func (m *Machine) checkMeasure(in *loopInst, sub map[*Term]*Term) {
	o := m.vc.get("termination")
	o.checks++
	for _, s := range in.slots {
		if s.sym == nil || s.sym.sort != SInt || sub[s.sym] == nil {
			continue
		}
		nv := sub[s.sym]
		for _, c := range in.cands {
			if c.t == nil || in.cut.dead[c.key] || c.t.op != OLe0 {
				continue
			}
			l := toLin(c.t.a[0])
			others := false
			var co int
			for i, a := range l.a {
				if a == s.sym {
					co = l.co[i].Sign()
				} else {
					for _, q := range in.slots {
						if q.sym != nil && a.contains(q.sym, map[*Term]bool{}) {
							others = true
						}
					}
				}
			}
			if others || co == 0 {
				continue
			}
			if co > 0 && m.valid(Lt(s.sym, nv)) { // bounded above and increasing
				return
			}
			if co < 0 && m.valid(Lt(nv, s.sym)) {
				return
			}
		}
	}
	if o.status == "discharged" {
		m.fail(o, "no integer of the loop moves towards a bound in every iteration", m.pc)
	}
}

func kindOf(a, b Val) string {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.sort == y.sort {
			switch x.sort {
			case SInt:
				return "int"
			case SBool:
				return "bool"
			}
			return "float"
		}
	case Ptr:
		if y, ok := b.(Ptr); ok {
			if x.O != nil && x.O == y.O {
				return "off"
			}
		}
	case nil:
		if y, ok := b.(*Term); ok {
			switch y.sort {
			case SInt:
				return "int"
			case SBool:
				return "bool"
			}
			return "float"
		}
	}
	return "poison"
}

// sameNow says whether two values are equal on this path
func (m *Machine) sameNow(a, b Val) bool {
	if sameVal(a, b) {
		return true
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.sort == y.sort {
			return m.valid(Eq(x, y))
		}
	case Ptr:
		if y, ok := b.(Ptr); ok && x.O == y.O {
			return m.valid(Eq(x.Off, y.Off))
		}
	case StrV:
		if y, ok := b.(StrV); ok && m.sameNow(x.P, y.P) {
			return m.sameNow(x.Len, y.Len)
		}
	case SliceV:
		if y, ok := b.(SliceV); ok && m.sameNow(x.P, y.P) {
			return m.sameNow(x.Len, y.Len) && m.sameNow(x.Cap, y.Cap)
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok && x.T == y.T {
			return m.sameNow(x.D, y.D)
		}
	case nil:
		if t, ok := b.(*Term); ok && t.isConst() && t.n.Sign() == 0 {
			return true
		}
		if t, ok := b.(*Term); ok && t.isFalse() {
			return true
		}
		if p, ok := b.(Ptr); ok && p.O == nil && p.Off == I(0) {
			return true
		}
	}
	return false
}

// noteWrite remembers what a loop under an invariant changes
func (m *Machine) noteWrite(o *Obj, off int64) {
	m.checkRO(o, off)
	if len(m.active) == 0 || m.pure > 0 {
		return
	}
	for _, in := range m.active {
		if o.id > in.mark || in.left {
			continue
		}
		key := fmt.Sprintf("%d/%d", o.id, off)
		if in.writes[key] != nil {
			continue
		}
		w := &wr{obj: o, off: off, isArr: o.arr != nil}
		if o.arr != nil {
			w.oldN = o.arr.nodes[off]
		} else if c, ok := o.cells[off]; ok {
			w.old, w.size = c.v, c.size
		}
		in.writes[key] = w
	}
}

func (m *Machine) noteMap(x *MapV) {
	m.checkROMap(x)
	for _, in := range m.active {
		if x.id <= in.mark && m.pure == 0 && !in.left {
			m.unsup("a map is changed inside a loop under an invariant")
		}
	}
}

// mayLeave says whether control may leave the loop from b before the next iteration
func (m *Machine) mayLeave(li *loopInfo, h, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{h: true}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		if !li.headers[h][b] {
			return true
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(b)
}

// noteCond collects branch conditions inside loops as candidate invariants
func (m *Machine) noteCond(fr *frame, t *Term) {
	if len(m.active) == 0 || m.pure > 0 || t.lit() {
		return
	}
	in := m.active[len(m.active)-1]
	at := fr
	for fr != nil && fr != in.fr {
		fr = fr.caller
	}
	if fr == nil || !fr.li.headers[in.head][fr.block] { // after the loop
		return
	}
	if t.op != OLe0 && !(t.op == ONot && t.a[0].op == OEq0) && t.op != OEq0 {
		return
	}
	st := in.cut
	if len(st.conds) >= 24 {
		return
	}
	// only conditions over the symbols of the head and over what existed before
	ok := false
	for _, s := range in.slots {
		if s.sym != nil && t.contains(s.sym, map[*Term]bool{}) {
			ok = true
		}
	}
	if !ok {
		return
	}
	if !st.conds[t] {
		st.conds[t] = true
		m.vc.changed, st.dirty = true, true
		if s := fr.block.Succs; at == fr && len(s) == 2 && (m.mayLeave(fr.li, in.head, s[0]) && t.op != ONot || m.mayLeave(fr.li, in.head, s[1]) && (t.op == ONot || t.op == OLe0)) {
			if st.exits == nil {
				st.exits = map[*Term]bool{}
			}
			st.exits[t] = true
		}
	}
}
