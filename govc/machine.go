package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decision struct {
	more    []*Term // instances of universal facts that hold here
	v, fork bool
	c       *Term
	exit    *cutState // not a decision: the path leaves a loop whose iterations have all been seen
}

// pendingPath is a path to be explored
type pendingPath struct {
	dec []decision
	of  *loopInst // the path starts where it leaves this loop
}

// input is a symbolic input of a contract, for replaying a counterexample
type input struct {
	typ  types.Type
	name string
}

// Machine explores the paths of one contract
type Machine struct {
	fnNames map[*ssa.Function]string // names of functions
	stale   bool                     // the decisions of this path were taken under other invariants
	p       *Program
	s       *Solver
	pc      []*Term
	pcSet   map[*Term]bool
	dec     []decision
	pos     int
	pending []pendingPath
	symDec  int

	cur      *frame
	inDefer  []*frame
	objSeq   int
	symNodes map[[2]int]*Node
	symSeq   map[string]int
	undo     []undo
	inBase   bool
	pure     int
	pureD    *pureRun

	strObjs   map[string]*Obj
	consts    map[*ssa.Const]Val
	globals   map[*ssa.Global]*Obj
	rtypes    []*Obj
	itabs     []*Obj
	inited    map[*ssa.Package]int
	hasDefer  map[*ssa.Function]bool
	loopTab   map[*ssa.Function]*loopInfo
	intr      map[*ssa.Function]intrinsicFn
	intrK     map[*ssa.Function]bool
	called    map[*ssa.Function]bool
	blocks    int
	maxBlocks int
	baseObj   int

	inputs   []input
	vc       *vcRun
	cuts     map[string]*cutState
	active   []*loopInst
	foralls  []*forall
	hints    []hint
	rels     []relHint
	invs     []*FuncV
	needInit map[*ssa.Package]bool
	extra    map[string]interface{}
	readOnly map[interface{}]string
	inAtomic bool
	splitSep bool
	splitArg Val
	texts    map[[2]int]*Obj
	rtS      *rtState
	trusted  map[string]int
	byID     map[int]*Obj
	lastPure string
	nCuts    map[string]int    // invariants of executions of the same loop
	entered  map[loopEntry]int // executions of loops on this path
	inRange  map[*Term]bool    // what is known not to leave the machine integers on this path
}

// vcRun is the state of the verification of one contract
type vcRun struct {
	name      string
	fn        *ssa.Function
	obl       map[string]*oblig
	order     []string
	covers    map[string]bool
	paths     int
	learning  bool
	changed   bool
	undecided []string
	deadline  time.Time
	started   time.Time
	fails     int
	loops     map[string]bool
	mustTerm  bool
	unroll    int

	unrollScans int // of loops that call no more than leaves
}

type oblig struct {
	name     string
	checks   int
	status   string // discharged, failed, undecided
	detail   string
	where    string
	model    []interface{}
	hasModel bool
}

func newMachine(p *Program, s *Solver) *Machine {
	m := &Machine{p: p, s: s, pcSet: map[*Term]bool{}, symSeq: map[string]int{}, strObjs: map[string]*Obj{}, consts: map[*ssa.Const]Val{}, globals: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]int{}, hasDefer: map[*ssa.Function]bool{}, loopTab: map[*ssa.Function]*loopInfo{}, intr: map[*ssa.Function]intrinsicFn{}, intrK: map[*ssa.Function]bool{}, called: map[*ssa.Function]bool{}, maxBlocks: 3000000, cuts: map[string]*cutState{}, needInit: map[*ssa.Package]bool{}, extra: map[string]interface{}{}, trusted: map[string]int{}, byID: map[int]*Obj{}}
	theM = m
	return m
}

// fresh makes a new symbol; names follow the path, so that the same prefix of decisions yields the same symbols
func (m *Machine) fresh(name string, s Sort, lo, hi *big.Int) *Term {
	m.symSeq[name]++
	return Var(fmt.Sprintf("%s%d", name, m.symSeq[name]), s, lo, hi)
}

func (m *Machine) addPC(t *Term) {
	if t.isTrue() || m.pcSet[t] {
		return
	}
	m.pc = append(m.pc, t)
	m.fact(t)
}

func (m *Machine) fact(t *Term) {
	if m.pcSet[t] {
		return
	}
	m.pcSet[t] = true
	if t.op == OAnd {
		for _, x := range t.a {
			m.fact(x)
		}
	}
}

// known says whether t is already settled by the path condition, without the solver
func (m *Machine) known(t *Term) (bool, bool) {
	switch t.op {
	case OTrue:
		return true, true
	case OFalse:
		return true, false
	}
	if m.pcSet[t] {
		return true, true
	}
	if m.pcSet[Not(t)] {
		return true, false
	}
	switch t.op {
	case OAnd:
		all := true
		for _, x := range t.a {
			k, v := m.known(x)
			if k && !v {
				return true, false
			}
			if !k {
				all = false
			}
		}
		if all {
			return true, true
		}
	case OOr:
		all := true
		for _, x := range t.a {
			k, v := m.known(x)
			if k && v {
				return true, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return true, false
		}
	case ONot:
		k, v := m.known(t.a[0])
		return k, !v
	}
	return false, false
}

// decide settles a condition on this path, forking if both sides are possible
func (m *Machine) decide(c *Term) bool {
	if k, v := m.known(c); k {
		return v
	}
	if m.pure > 0 {
		return m.pureDecide(c)
	}
	if m.inBase {
		m.unsup("symbolic condition during initialisation")
	}
	if m.pos < len(m.dec) {
		d := m.dec[m.pos]
		if d.c == c && d.exit == nil {
			m.pos++
			m.take(c, d)
			m.counted(d)
			return d.v
		}
		// the invariants changed since: what was decided then does not count
		if !m.vc.changed {
			panic("replay differs")
		}
		m.dec = m.dec[:m.pos]
		m.stale = true
	}
	m.tick()
	var d decision
	r1, _ := m.s.check(m.pc, c, nil)
	if r1 == Unsat {
		d = decision{c: c}
	} else {
		r2, _ := m.s.check(m.pc, Not(c), nil)
		if r2 == Unsat {
			d = decision{v: true, c: c}
		} else {
			d = decision{v: true, fork: true, c: c}
			if v, ok, more := m.settled(c); ok {
				d = decision{v: v, c: c, more: []*Term{c}}
				if !v {
					d.more[0] = Not(c)
				}
			} else if d.more = more; !m.stale {
				alt := append(append([]decision{}, m.dec[:m.pos]...), decision{fork: true, c: c, more: more})
				m.pending = append(m.pending, pendingPath{dec: alt})
			}
		}
	}
	if dbgDec {
		fmt.Println("   decide", c.str(8), d.v, d.fork)
		for _, t := range d.more {
			fmt.Println("      with", t.str(8))
		}
	}
	m.dec = append(m.dec[:m.pos], d)
	m.pos++
	m.take(c, d)
	m.counted(d)
	return d.v
}

// counted counts the decisions that are not forced by the path alone
func (m *Machine) counted(d decision) {
	if d.fork || len(d.more) > 0 {
		m.symDec++
	}
}

// settled says whether the universal facts about what c mentions decide it, and which they are
func (m *Machine) settled(c *Term) (v, ok bool, more []*Term) {
	if len(m.foralls) == 0 {
		return false, false, nil
	}
	more = m.matched([]*Term{c})
	if len(more) == 0 {
		return false, false, nil
	}
	if r, _ := m.s.check(m.pc, And(append([]*Term{c}, more...)...), nil); r == Unsat {
		return false, true, nil
	}
	if r, _ := m.s.check(m.pc, And(append([]*Term{Not(c)}, more...)...), nil); r == Unsat {
		return true, true, nil
	}
	return false, false, more
}

var dbgDec = os.Getenv("GOVC_DEC") != ""

func (m *Machine) take(c *Term, d decision) {
	if !d.v {
		c = Not(c)
	}
	for _, t := range d.more {
		m.addPC(t)
	}
	if d.fork {
		m.addPC(c)
	} else {
		m.fact(c)
	}
}

// forkPrefix names the decisions taken so far
func (m *Machine) forkPrefix(pos int) string {
	var b strings.Builder
	for _, d := range m.dec[:pos] {
		if d.fork {
			if d.v {
				b.WriteByte('1')
			} else {
				b.WriteByte('0')
			}
		}
	}
	return b.String()
}

// prove decides whether the condition holds on this path; if not, the negation joins the path
func (m *Machine) prove(c *Term) bool {
	if k, v := m.known(c); k && v {
		return true
	}
	if m.pure > 0 || m.inBase {
		return c.isTrue() || m.pure > 0
	}
	m.tick()
	r, _ := m.s.check(m.pc, Not(c), nil)
	switch r {
	case Unsat:
		m.fact(c)
		return true
	case Unknown:
		m.unsup("solver gave up on " + c.String())
	}
	m.addPC(Not(c))
	return false
}

func (m *Machine) tick() {
	if m.vc != nil && time.Now().After(m.vc.deadline) {
		m.unsup("time limit of the contract")
	}
}

// assumeC restricts the path
func (m *Machine) assumeC(c *Term) {
	if k, v := m.known(c); k {
		if !v {
			panic(pathEnd{"assumption"})
		}
		return
	}
	if m.pure > 0 {
		if !m.pureDecide(c) {
			panic(pathEnd{"assumption"})
		}
		return
	}
	r, _ := m.s.check(m.pc, c, nil)
	if r == Unsat {
		panic(pathEnd{"assumption"})
	}
	m.addPC(c)
}

// assertC is a proof obligation
func (m *Machine) assertC(c *Term, name string) {
	if m.pure > 0 {
		m.unsup("assertion inside a pure function")
	}
	o := m.vc.get(name)
	o.checks++
	if m.vc.learning {
		m.addPC(c)
		if c.isFalse() {
			panic(pathEnd{"assertion"})
		}
		return
	}
	if k, v := m.known(c); k && v {
		return
	}
	m.tick()
	r := m.refute([]*Term{Not(c)})
	switch r {
	case Unsat:
	case Sat:
		m.fail(o, "the solver found values for which it is false: "+Not(c).str(5), append(append([]*Term{}, m.pc...), Not(c)))
		panic(pathEnd{"assertion failed"})
	default:
		if o.status == "discharged" {
			o.status, o.detail = "undecided", "solver gave up"
		}
	}
	m.addPC(c)
	if c.isFalse() {
		panic(pathEnd{"assertion"})
	}
}

func (v *vcRun) get(name string) *oblig {
	o, ok := v.obl[name]
	if !ok {
		o = &oblig{name: name, status: "discharged"}
		v.obl[name] = o
		v.order = append(v.order, name)
	}
	return o
}

func (m *Machine) fail(o *oblig, detail string, pc []*Term) {
	m.vc.fails++
	if o.status == "failed" && o.hasModel {
		return
	}
	o.status, o.detail, o.where = "failed", detail, m.where()
	if mod, ok := m.model(pc); ok {
		o.model, o.hasModel = mod, true
	}
}

// model finds concrete inputs for a path
func (m *Machine) model(pc []*Term) (out []interface{}, ok bool) {
	d := &modeler{m: m, pc: append([]*Term{}, pc...)}
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(unsupported); is {
				out, ok = nil, false
				return
			}
			panic(x)
		}
	}()
	out = []interface{}{}
	for _, in := range m.inputs {
		out = append(out, d.tree(in.typ, in.name, 0, nil))
	}
	return out, true
}

// verify explores a contract until its loop invariants are stable and every path has been seen
func (m *Machine) verify(fn *ssa.Function, limit time.Duration) *vcRun {
	v := &vcRun{name: fn.Name(), fn: fn, started: time.Now(), loops: map[string]bool{}, deadline: time.Now().Add(limit)}
	m.vc = v
	m.cuts, m.nCuts = map[string]*cutState{}, nil
	for round := 0; round < 200; round++ {
		v.obl, v.order, v.covers = map[string]*oblig{}, nil, map[string]bool{}
		v.paths, v.changed, v.fails, v.undecided = 0, false, 0, nil
		restarted := m.explore()
		if restarted {
			m.moreInit()
			v.learning = len(m.cuts) > 0
			continue
		}
		if os.Getenv("GOVC_ROUNDS") != "" {
			fmt.Printf("  round %d: learning %v changed %v paths %d cuts %d\n", round, v.learning, v.changed, v.paths, len(m.cuts))
		}
		for _, g := range m.cuts { // what failed while the loop changed less may hold now
			m.revive(g)
		}
		if v.changed {
			v.learning = true
			continue
		}
		if v.learning {
			v.learning = false
			continue
		}
		return v
	}
	v.undecided = append(v.undecided, "loop invariants did not stabilise")
	return v
}

func (m *Machine) explore() (restarted bool) {
	m.pending = []pendingPath{{}}
	v := m.vc
	for len(m.pending) > 0 {
		p := m.pending[len(m.pending)-1]
		m.pending = m.pending[:len(m.pending)-1]
		d := p.dec
		if p.of != nil && p.of.cut.dirty { // the iterations again, with what is known now
			d = p.of.entry
			m.again(p.of)
		}
		v.paths++
		if v.paths > 40000 {
			v.undecided = append(v.undecided, "path limit")
			return false
		}
		if m.runPath(d) {
			return true
		}
		if len(v.undecided) > 3 || (v.fails > 12 && !v.learning) {
			return false
		}
	}
	return false
}

// extends says whether d goes beyond pre
func extends(d, pre []decision) bool {
	if len(d) <= len(pre) {
		return false
	}
	for i, x := range pre {
		if d[i].c != x.c || d[i].v != x.v || d[i].exit != x.exit {
			return false
		}
	}
	return true
}

// again forgets the paths that go through a loop
func (m *Machine) again(in *loopInst) {
	keep := m.pending[:0]
	for _, p := range m.pending {
		if !extends(p.dec, in.entry) {
			keep = append(keep, p)
		}
	}
	m.pending = keep
	if in.cut != nil {
		in.cut.dirty = false
		m.revive(in.cut)
	}
}

// revive makes candidates that failed while a loop changed less count again
func (m *Machine) revive(g *cutState) {
	if !g.grew {
		return
	}
	g.grew = false
	for _, c := range m.cuts {
		if c.onPathOf(g) || g.onPathOf(c) {
			c.dead = map[string]bool{}
		}
	}
}

// leaveLoops is called when control goes from b to next
func (m *Machine) leaveLoops(fr *frame, b, next *ssa.BasicBlock) {
	for {
		var in *loopInst
		for h, x := range fr.loops {
			body := fr.li.headers[h]
			if x.cut != nil && !x.left && body[b] && !body[next] && (in == nil || len(body) < len(fr.li.headers[in.head])) {
				in = x
			}
		}
		if in == nil {
			return
		}
		m.leave(in)
	}
}

// leave is called when a path leaves a loop under an invariant: while the invariant is being learned
// the iterations come first
func (m *Machine) leave(in *loopInst) {
	in.left = true
	if !m.vc.learning || m.pure > 0 || m.inBase {
		return
	}
	if m.pos < len(m.dec) {
		if m.dec[m.pos].exit == in.cut {
			m.pos++
		}
		return
	}
	if m.stale {
		panic(pathEnd{"explored elsewhere"})
	}
	in.entry = append([]decision{}, m.dec[:in.pos]...)
	p := pendingPath{dec: append(append([]decision{}, m.dec[:m.pos]...), decision{exit: in.cut}), of: in}
	at := len(m.pending)
	for at > 0 && extends(m.pending[at-1].dec, in.entry) {
		at--
	}
	m.pending = append(m.pending, pendingPath{})
	copy(m.pending[at+1:], m.pending[at:])
	m.pending[at] = p
	panic(pathEnd{"after the iterations"})
}

func (m *Machine) resetPath(d []decision) {
	m.rollback(0)
	m.pc, m.pcSet = nil, map[*Term]bool{}
	m.dec, m.pos, m.stale = append([]decision{}, d...), 0, false
	m.objSeq = m.baseObj
	m.symSeq = map[string]int{}
	m.inputs = nil
	m.cur, m.inDefer, m.active, m.foralls, m.hints, m.invs = nil, nil, nil, nil, nil, nil
	m.rels = nil
	m.blocks, m.symDec, m.pure = 0, 0, 0
	m.extra = map[string]interface{}{}
	m.readOnly = nil
	m.inRange = map[*Term]bool{}
	m.entered = map[loopEntry]int{}
}

func (m *Machine) runPath(d []decision) (again bool) {
	if dbgDec {
		fmt.Println("  path", len(d))
		for _, x := range d {
			if x.c != nil {
				fmt.Println("     given", x.c.str(8), x.v, x.fork)
			} else {
				fmt.Println("     given -", x.v, x.fork)
			}
		}
	}
	m.resetPath(d)
	v := m.vc
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		switch e := x.(type) {
		case pathEnd:
		case restart:
			if e.in == nil {
				again = true
				break
			}
			// go on with the invariant from the loop on; everything is done again anyway
			v.changed, v.learning = true, true
			e.in.entry = append([]decision{}, m.dec[:e.in.pos]...)
			m.again(e.in)
			m.pending = append(m.pending, pendingPath{dec: e.in.entry})
		case unsupported:
			v.undecided = append(v.undecided, e.what)
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "undecided:", e.what)
			}
			if strings.HasPrefix(e.what, "time limit") {
				m.pending = nil
			}
		case fault:
			o := v.get("memory")
			o.checks++
			if !v.learning {
				m.fail(o, e.what, m.pc)
			}
		case goPanic:
			o := v.get("no-panic")
			o.checks++
			if !v.learning {
				m.fail(o, e.rt, m.pc)
			}
		default:
			if os.Getenv("GOVC_TRACE") != "" {
				panic(x)
			}
			v.undecided = append(v.undecided, fmt.Sprintf("engine: %v%s", x, m.where()))
		}
	}()
	m.callFn(v.fn, nil, nil)
	v.get("no-panic").checks++
	return false
}

// globals

func (m *Machine) global(g *ssa.Global) *Obj {
	if o, ok := m.globals[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	seq := m.objSeq
	o := &Obj{id: 0, size: I(m.sizeof(t)), typ: t, cells: map[int64]cell{}, base: true, name: g.String()}
	o.id = -(1 << 40) - len(m.globals)
	m.objSeq = seq
	m.globals[g] = o
	return o
}

// readGlobal makes sure the package of a global has been initialised
func (m *Machine) readGlobal(g *ssa.Global) {
	pkg := g.Pkg
	if pkg == nil || m.inited[pkg] > 0 {
		return
	}
	if m.inBase {
		m.initPkg(pkg)
		return
	}
	m.needInit[pkg] = true
	// initialise now, in the base state, and start the exploration again
	panic(restart{why: "initialisation of " + pkg.Pkg.Path()})
}

// initPkg runs the initialisation of a package; instructions outside the subset leave poison behind
func (m *Machine) initPkg(pkg *ssa.Package) {
	if m.inited[pkg] > 0 {
		return
	}
	m.inited[pkg] = 1
	if !m.p.built[pkg] {
		m.p.built[pkg] = true
		pkg.Build()
	}
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	saveCur := m.cur
	m.cur = nil
	m.runInit(fn)
	m.cur = saveCur
	m.inited[pkg] = 2
}

func (m *Machine) runInit(fn *ssa.Function) {
	fr := &frame{m: m, fn: fn, env: map[ssa.Value]Val{}, loops: nil}
	fr.li = m.loopsOf(fn)
	m.cur = fr
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		b := fr.block
		fr.phis(b)
		next := b
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if c, ok := in.(*ssa.Call); ok {
				if callee := c.Call.StaticCallee(); callee != nil && callee.Name() == "init" && callee.Pkg != fn.Pkg && callee.Signature.Recv() == nil {
					continue // initialisers of imported packages run on their own
				}
			}
			// the init guard
			if u, ok := in.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Name() == "init$guard" {
					fr.env[u] = tFalse
					continue
				}
			}
			next = m.stepTolerant(fr, in)
			if next != b {
				break
			}
		}
		fr.prev, fr.block = b, next
	}
}

func (m *Machine) stepTolerant(fr *frame, in ssa.Instruction) (next *ssa.BasicBlock) {
	defer func() {
		if x := recover(); x != nil {
			why := ""
			switch e := x.(type) {
			case unsupported:
				why = e.what
			case fault:
				why = e.what
			case goPanic:
				why = e.rt
			default:
				if os.Getenv("GOVC_TRACE") != "" {
					panic(x)
				}
				why = fmt.Sprint(x)
			}
			m.cur = fr
			if os.Getenv("GOVC_INIT") != "" {
				fmt.Fprintln(os.Stderr, "init:", fr.fn.Pkg.Pkg.Path(), in, why)
			}
			p := &Poison{"initialisation: " + why}
			if v, ok := in.(ssa.Value); ok {
				fr.env[v] = p
			}
			next = fr.block
			switch y := in.(type) {
			case *ssa.If:
				next = fr.block.Succs[1]
			case *ssa.Jump:
				next = fr.block.Succs[0]
			case *ssa.Return:
				next = nil
			case *ssa.Store:
				if q, ok := fr.env[y.Addr].(Ptr); ok && q.O != nil && q.Off.small {
					for _, l := range m.leaves(y.Val.Type()) {
						q.O.cells[q.Off.i64+l.off] = cell{p, l.size}
					}
				} else if g, ok := y.Addr.(*ssa.Global); ok {
					o := m.global(g)
					for _, l := range m.leaves(y.Val.Type()) {
						o.cells[l.off] = cell{p, l.size}
					}
				}
			}
		}
	}()
	return fr.step(in)
}

// initBase initialises the packages of the repository and what they need
func (m *Machine) initBase() {
	m.inBase = true
	for _, pkg := range m.p.order {
		path := pkg.Pkg.Path()
		if strings.HasPrefix(path, "github.com/viant/") || m.needInit[pkg] {
			m.initPkg(pkg)
		}
	}
	m.inBase = false
	m.baseObj = m.objSeq
	m.undo = nil
}

// moreInit initialises packages that turned out to be needed
func (m *Machine) moreInit() {
	m.rollback(0)
	m.inBase = true
	m.objSeq = m.baseObj
	m.cur, m.active = nil, nil
	for _, pkg := range m.p.order {
		if m.needInit[pkg] {
			m.initPkg(pkg)
		}
	}
	m.inBase = false
	m.baseObj = m.objSeq
	m.undo = nil
}

func sortedNames(s map[string]bool) []string {
	var r []string
	for k := range s {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
