package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// control flow of the engine, as panics
type pathEnd struct{ why string }      // the path is over (assumption false, loop cut)
type unsupported struct{ what string } // outside the subset
type fault struct{ what string }       // the program leaves defined behaviour
type goPanic struct {
	v  IfaceV
	rt string
} // a Go panic of the program
// restart begins the exploration again, or goes back to the loop that needs an invariant
type restart struct {
	why string
	in  *loopInst
}

type deferred struct {
	fn   *FuncV
	args []Val
	bi   *ssa.Builtin
	inst ssa.Instruction
	site *ssa.CallCommon
}

type frame struct {
	m       *Machine
	fn      *ssa.Function
	env     map[ssa.Value]Val
	caller  *frame
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	defers  []deferred
	result  Val
	panicV  *goPanic // panic being handled by deferred calls of this frame
	recov   bool
	loops   map[*ssa.BasicBlock]*loopInst
	li      *loopInfo
	site    int
	instrNo int
	chain   uint64 // of the callers, once known
}

func (m *Machine) unsup(what string) { panic(unsupported{what + m.where()}) }
func (m *Machine) fault(what string) { panic(fault{what + m.where()}) }

func (m *Machine) where() string {
	if m.cur == nil {
		return ""
	}
	var p []string
	for f := m.cur; f != nil && len(p) < 4; f = f.caller {
		p = append(p, f.fn.String())
	}
	return " [in " + strings.Join(p, " < ") + "]"
}

func (m *Machine) goPanicRT(msg string) {
	v := m.runtimeError(msg)
	panic(goPanic{v: v, rt: msg + m.where()})
}

func (m *Machine) runtimeError(msg string) IfaceV {
	rt := m.p.byPth["runtime"]
	t := rt.Type("errorString").Type()
	return m.makeIface(t, m.strConst(msg), false)
}

// call runs a function
func (m *Machine) call(fv *FuncV, args []Val, site ssa.Instruction) Val {
	if fv == nil {
		m.goPanicRT("invalid memory address or nil pointer dereference (nil function)")
	}
	if fv.Nat != nil {
		return fv.Nat(m, args)
	}
	return m.callFn(fv.Fn, args, fv.Binds)
}

const maxDepth = 400

func (m *Machine) callFn(fn *ssa.Function, args []Val, binds []Val) Val {
	if in := m.intrinsic(fn); in != nil {
		if r, ok := in(m, fn, args); ok {
			return r
		}
	}
	m.p.body(fn)
	if len(fn.Blocks) == 0 {
		m.unsup("no body: " + fn.String())
	}
	m.called[fn] = true
	depth := 0
	if m.cur != nil {
		depth = m.cur.site
	}
	if depth > maxDepth {
		m.unsup("recursion depth")
	}
	fr := &frame{m: m, fn: fn, env: make(map[ssa.Value]Val, 16), caller: m.cur, site: depth + 1}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	m.cur = fr
	defer func() { m.cur = fr.caller }()
	fr.li = m.loopsOf(fn)
	fr.block = fn.Blocks[0]
	if dbgCalls != nil && !m.inBase && dbgCalls.MatchString(fn.String()) {
		fmt.Printf("  call %s(%s)\n", fn, m.short(args))
		fr.runProtected()
		fmt.Printf("  ret %s: %s\n", fn, m.short([]Val{fr.result}))
		return fr.result
	}
	fr.runProtected()
	return fr.result
}

var dbgCalls = func() *regexp.Regexp {
	if s := os.Getenv("GOVC_CALLS"); s != "" {
		return regexp.MustCompile(s)
	}
	return nil
}()

// short prints values for the trace
func (m *Machine) short(vs []Val) string {
	var out []string
	for _, v := range vs {
		s := fmt.Sprintf("%v", v)
		if x, ok := v.(StrV); ok {
			if c, ok := m.conStr(x); ok {
				s = strconv.Quote(c)
			}
		}
		if len(s) > 60 {
			s = s[:60]
		}
		out = append(out, s)
	}
	return strings.Join(out, ", ")
}

func (fr *frame) runProtected() {
	for fr.block != nil {
		p := fr.runBlocks()
		if p == nil {
			return
		}
		// a Go panic unwinds through this frame
		fr.m.cur = fr
		fr.panicV = p
		fr.runDefers()
		if fr.panicV != nil {
			panic(*fr.panicV)
		}
		// recovered
		if fr.fn.Recover == nil {
			fr.result = fr.m.zeroResult(fr.fn)
			return
		}
		fr.prev, fr.block = fr.block, fr.fn.Recover
	}
}

func (m *Machine) zeroResult(fn *ssa.Function) Val {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(r.At(0).Type())
	}
	return m.zero(r)
}

func (fr *frame) runBlocks() (p *goPanic) {
	if len(fr.defers) > 0 || fr.fn.Recover != nil || fr.hasDefer() {
		defer func() {
			if x := recover(); x != nil {
				if g, ok := x.(goPanic); ok {
					p = &g
					return
				}
				panic(x)
			}
		}()
	}
	fr.run()
	return nil
}

func (fr *frame) hasDefer() bool {
	d, ok := fr.m.hasDefer[fr.fn]
	if !ok {
		for _, b := range fr.fn.Blocks {
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.Defer); ok {
					d = true
				}
			}
		}
		fr.m.hasDefer[fr.fn] = d
	}
	return d
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if x := recover(); x != nil {
					if g, ok := x.(goPanic); ok {
						fr.m.cur = fr
						fr.panicV = &g
						return
					}
					panic(x)
				}
			}()
			fr.m.inDefer = append(fr.m.inDefer, fr)
			defer func() { fr.m.inDefer = fr.m.inDefer[:len(fr.m.inDefer)-1] }()
			if d.bi != nil {
				fr.builtin(d.bi, d.args, d.site)
			} else {
				fr.m.call(d.fn, d.args, d.inst)
			}
		}()
	}
}

func (fr *frame) get(v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.m.constVal(x)
	case *ssa.Global:
		fr.m.readGlobal(x)
		return Ptr{fr.m.global(x), I(0)}
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Builtin:
		return x
	case nil:
		return nil
	}
	r, ok := fr.env[v]
	if !ok {
		fr.m.unsup("no value for " + v.Name() + " in " + fr.fn.String())
	}
	return r
}

func (fr *frame) term(v ssa.Value) *Term { return fr.m.asInt2(fr.get(v)) }

// asInt2 requires a term (pointers held in integers become addresses)
func (m *Machine) asInt2(v Val) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	return m.asInt(v)
}

func (m *Machine) constVal(c *ssa.Const) Val {
	if v, ok := m.consts[c]; ok {
		return v
	}
	v := m.constVal0(c)
	m.consts[c] = v
	return v
}

func (m *Machine) constVal0(c *ssa.Const) Val {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		m.unsup("constant of type " + c.Type().String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return B(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		i := constant.ToInt(c.Value)
		n, ok := new(big.Int).SetString(i.ExactString(), 10)
		if !ok {
			m.unsup("constant " + i.ExactString())
		}
		return IB(n)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			return F32(float32(f))
		}
		return F(f)
	case b.Info()&types.IsString != 0:
		return m.strConst(constant.StringVal(c.Value))
	case b.Kind() == types.UnsafePointer:
		return nilPtr
	}
	return &Poison{"constant of type " + c.Type().String()}
}

func (fr *frame) run() {
	m := fr.m
	for fr.block != nil {
		b := fr.block
		if fr.li.headers[b] != nil {
			m.atHeader(fr, b)
		} else {
			// phis
			fr.phis(b)
		}
		m.blocks++
		if m.blocks > m.maxBlocks {
			m.unsup("step limit")
		}
		next := fr.block
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			next = fr.step(in)
			if next != b {
				break
			}
		}
		if next == b && !selfLoop(b) {
			m.unsup("block without terminator")
		}
		if len(fr.loops) > 0 {
			m.leaveLoops(fr, b, next)
		}
		fr.prev = b
		fr.block = next
	}
}

func selfLoop(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if s == b {
			return true
		}
	}
	return false
}

func (fr *frame) phiVals(b *ssa.BasicBlock) ([]*ssa.Phi, []Val) {
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == fr.prev {
				phis = append(phis, phi)
				vals = append(vals, fr.get(phi.Edges[i]))
				break
			}
		}
	}
	return phis, vals
}

func (fr *frame) phis(b *ssa.BasicBlock) {
	phis, vals := fr.phiVals(b)
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

// step executes one instruction and returns the block to continue with
func (fr *frame) step(in ssa.Instruction) *ssa.BasicBlock {
	m := fr.m
	b := fr.block
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		p := m.allocT(t)
		p.O.name = ""
		fr.env[x] = p
	case *ssa.UnOp:
		fr.env[x] = fr.unop(x)
	case *ssa.BinOp:
		fr.env[x] = m.binop(x.Op, x.X.Type(), x.Y.Type(), fr.get(x.X), fr.get(x.Y))
	case *ssa.Call:
		fr.env[x] = fr.doCall(&x.Call, x)
	case *ssa.Defer:
		fn, args, bi := fr.prepare(&x.Call)
		fr.defers = append(fr.defers, deferred{fn, args, bi, x, &x.Call})
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicV != nil {
			p := *fr.panicV
			fr.panicV = nil
			panic(p)
		}
	case *ssa.ChangeType:
		fr.env[x] = fr.get(x.X)
	case *ssa.ChangeInterface:
		v := fr.get(x.X)
		if i, ok := v.(IfaceV); ok {
			v = m.ifaceAs(i, x.Type())
		}
		fr.env[x] = v
	case *ssa.Convert:
		fr.env[x] = m.convert(x.X.Type(), x.Type(), fr.get(x.X))
	case *ssa.MultiConvert:
		fr.env[x] = m.convert(x.X.Type(), x.Type(), fr.get(x.X))
	case *ssa.MakeInterface:
		v := fr.get(x.X)
		if p, ok := v.(*Poison); ok {
			fr.env[x] = p
			break
		}
		fr.env[x] = m.makeIface(x.X.Type(), v, !m.emptyIface(x.Type()))
	case *ssa.Extract:
		v := fr.get(x.Tuple)
		switch t := v.(type) {
		case TupV:
			fr.env[x] = t[x.Index]
		case *Poison:
			fr.env[x] = t
		default:
			m.unsup("extract")
		}
	case *ssa.Field:
		switch a := fr.get(x.X).(type) {
		case AggV:
			fr.env[x] = a[x.Field]
		case *Poison:
			fr.env[x] = a
		}
	case *ssa.FieldAddr:
		p := m.asPtr(fr.get(x.X))
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if p.O == nil {
			m.checkNil(p)
		}
		off := m.offsets(st)[x.Field]
		fr.env[x] = Ptr{p.O, Add(p.Off, I(off))}
	case *ssa.Index:
		fr.env[x] = fr.index(x)
	case *ssa.IndexAddr:
		fr.env[x] = fr.indexAddr(x)
	case *ssa.Lookup:
		fr.env[x] = fr.lookup(x)
	case *ssa.MakeClosure:
		var binds []Val
		for _, v := range x.Bindings {
			binds = append(binds, fr.get(v))
		}
		fr.env[x] = &FuncV{Fn: x.Fn.(*ssa.Function), Binds: binds}
	case *ssa.MakeMap:
		m.objSeq++
		fr.env[x] = &MapV{id: m.objSeq, typ: x.Type().Underlying().(*types.Map), base: m.inBase}
	case *ssa.MakeSlice:
		fr.env[x] = m.makeSlice(x.Type().Underlying().(*types.Slice).Elem(), fr.term(x.Len), fr.term(x.Cap))
	case *ssa.MapUpdate:
		m.mapSet(fr.get(x.Map), fr.get(x.Key), fr.get(x.Value))
	case *ssa.Range:
		fr.env[x] = m.rangeOver(fr.get(x.X))
	case *ssa.Next:
		fr.env[x] = m.next(fr.get(x.Iter), x)
	case *ssa.Slice:
		fr.env[x] = fr.slice(x)
	case *ssa.SliceToArrayPointer:
		s := fr.get(x.X).(SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !m.decide(Le(I(n), s.Len)) {
			m.goPanicRT("cannot convert slice to array pointer")
		}
		fr.env[x] = s.P
	case *ssa.Store:
		m.store(m.asPtr(fr.get(x.Addr)), x.Val.Type(), fr.get(x.Val))
	case *ssa.TypeAssert:
		fr.env[x] = m.typeAssert(x, fr.get(x.X))
	case *ssa.Panic:
		v, ok := fr.get(x.X).(IfaceV)
		if !ok {
			m.unsup("panic of an unknown value")
		}
		msg := ""
		if v.T.O != nil {
			msg = m.dynType(v).String()
		}
		panic(goPanic{v: v, rt: "panic of a " + msg + " value" + m.where()})
	case *ssa.If:
		c := fr.get(x.Cond)
		t, ok := c.(*Term)
		if !ok {
			if p, ok := c.(*Poison); ok {
				m.unsup("branch on " + p.why)
			}
			m.unsup("branch on a non-boolean")
		}
		if !t.lit() && fr.li.headers[b] != nil && fr.loops[b] != nil {
			fr.loops[b].open = true
		}
		m.noteCond(fr, t)
		if m.decide(t) {
			return b.Succs[0]
		}
		return b.Succs[1]
	case *ssa.Jump:
		return b.Succs[0]
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
		case 1:
			fr.result = fr.get(x.Results[0])
		default:
			r := make(TupV, len(x.Results))
			for i, v := range x.Results {
				r[i] = fr.get(v)
			}
			fr.result = r
		}
		return nil
	default:
		m.unsup(fmt.Sprintf("instruction %T", in))
	}
	return b
}

func (m *Machine) emptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// direct says whether values of t are stored directly in the data word of an interface
func direct(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		return u.NumFields() == 1 && direct(u.Field(0).Type())
	case *types.Array:
		return u.Len() == 1 && direct(u.Elem())
	}
	return false
}

func (m *Machine) makeIface(t types.Type, v Val, itab bool) IfaceV {
	tw := m.rtypeObj(t)
	if itab {
		tw = m.itabObj(t)
	}
	if direct(t) {
		ws := m.words(t, v, nil)
		return IfaceV{Ptr{tw, I(0)}, ws[0]}
	}
	p := m.allocT(t)
	if m.sizeof(t) > 0 {
		m.store(p, t, v)
	}
	return IfaceV{Ptr{tw, I(0)}, p}
}

func (m *Machine) dynType(i IfaceV) types.Type {
	if i.T.O == nil {
		return nil
	}
	if i.T.O.rtype != nil {
		return i.T.O.rtype
	}
	if i.T.O.itab != nil {
		return i.T.O.itab
	}
	m.fault("interface with a corrupt type word")
	return nil
}

// ifaceVal reads the value held by an interface of dynamic type t
func (m *Machine) ifaceVal(i IfaceV, t types.Type) Val {
	if direct(t) {
		v, _ := m.join(t, []Val{i.D})
		return v
	}
	return m.load(m.asPtr(i.D), t)
}

func (m *Machine) ifaceAs(i IfaceV, t types.Type) IfaceV {
	d := m.dynType(i)
	if d == nil {
		return IfaceV{nilPtr, nilPtr}
	}
	if m.emptyIface(t) {
		return IfaceV{Ptr{m.rtypeObj(d), I(0)}, i.D}
	}
	return IfaceV{Ptr{m.itabObj(d), I(0)}, i.D}
}

func (m *Machine) typeAssert(x *ssa.TypeAssert, v Val) Val {
	if p, ok := v.(*Poison); ok {
		if x.CommaOk {
			return TupV{p, p}
		}
		return p
	}
	i := v.(IfaceV)
	d := m.dynType(i)
	ok := false
	var r Val
	if d != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(d, it)
			if ok {
				r = m.ifaceAs(i, x.AssertedType)
			}
		} else {
			ok = types.Identical(d, x.AssertedType)
			if ok {
				r = m.ifaceVal(i, d)
			}
		}
	}
	if x.CommaOk {
		if !ok {
			r = m.zero(x.AssertedType)
		}
		return TupV{r, B(ok)}
	}
	if !ok {
		ds := "nil"
		if d != nil {
			ds = d.String()
		}
		m.goPanicRT("interface conversion: " + ds + " is not " + x.AssertedType.String())
	}
	return r
}

func (fr *frame) unop(x *ssa.UnOp) Val {
	m := fr.m
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			m.readGlobal(g)
		}
		return m.load(m.asPtr(v), x.Type())
	case token.NOT:
		if p, ok := v.(*Poison); ok {
			return p
		}
		return Not(v.(*Term))
	case token.SUB:
		t, ok := v.(*Term)
		if !ok {
			if p, ok := v.(*Poison); ok {
				return p
			}
			m.unsup("negation")
		}
		if t.sort == SF64 || t.sort == SF32 {
			return FNeg(t)
		}
		b, s := m.intKind(x.Type())
		return m.wrap(Neg(t), b, s)
	case token.XOR:
		b, s := m.intKind(x.Type())
		t := m.asInt2(v)
		return m.wrap(Sub(I(-1), t), b, s)
	case token.ARROW:
		m.unsup("channel receive")
	}
	m.unsup("unary " + x.Op.String())
	return nil
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (m *Machine) binop(op token.Token, tx, ty types.Type, x, y Val) Val {
	if p, ok := x.(*Poison); ok {
		return p
	}
	if p, ok := y.(*Poison); ok {
		return p
	}
	switch op {
	case token.EQL:
		return m.valEq(tx, x, ty, y)
	case token.NEQ:
		return Not(m.valEq(tx, x, ty, y))
	}
	if isString(tx) {
		a, b := x.(StrV), y.(StrV)
		switch op {
		case token.ADD:
			return m.concat(a, b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			ca, ok1 := m.conStr(a)
			cb, ok2 := m.conStr(b)
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return B(ca < cb)
				case token.LEQ:
					return B(ca <= cb)
				case token.GTR:
					return B(ca > cb)
				}
				return B(ca >= cb)
			}
			lt := func(a, b StrV) *Term {
				ia, ib := m.strIdent(a), m.strIdent(b)
				return UF("strlt", SBool, nil, nil, ia, ib)
			}
			switch op {
			case token.LSS:
				return lt(a, b)
			case token.GTR:
				return lt(b, a)
			case token.LEQ:
				return Not(lt(b, a))
			}
			return Not(lt(a, b))
		}
	}
	if isFloat(tx) {
		a, b := x.(*Term), y.(*Term)
		switch op {
		case token.ADD:
			return FArith("fadd", a, b)
		case token.SUB:
			return FArith("fsub", a, b)
		case token.MUL:
			return FArith("fmul", a, b)
		case token.QUO:
			return FArith("fdiv", a, b)
		case token.LSS:
			return FCmp(OFLt, a, b)
		case token.LEQ:
			return FCmp(OFLe, a, b)
		case token.GTR:
			return FCmp(OFLt, b, a)
		case token.GEQ:
			return FCmp(OFLe, b, a)
		}
	}
	if isBool(tx) {
		a, b := x.(*Term), y.(*Term)
		switch op {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		}
	}
	px, okx := x.(Ptr)
	py, oky := y.(Ptr)
	if okx && px.O == nil {
		x, okx = px.Off, false
	}
	if oky && py.O == nil {
		y, oky = py.Off, false
	}
	if okx || oky {
		switch op {
		case token.ADD:
			if okx && !oky {
				return Ptr{px.O, m.addOff(px.Off, m.asInt(y))}
			}
			if oky && !okx {
				return Ptr{py.O, m.addOff(py.Off, m.asInt(x))}
			}
		case token.SUB:
			if okx && oky && px.O == py.O {
				return m.wrap(Sub(px.Off, py.Off), 64, false)
			}
			if okx && !oky {
				return Ptr{px.O, m.addOff(px.Off, Neg(m.asInt(y)))}
			}
		}
		x, y = m.asInt(x), m.asInt(y)
	}
	a, b := m.asInt2(x), m.asInt2(y)
	bits, signed := m.intKind(tx)
	w := func(t *Term) Val { return m.wrap(t, bits, signed) }
	switch op {
	case token.ADD:
		return w(Add(a, b))
	case token.SUB:
		return w(Sub(a, b))
	case token.MUL:
		return w(Mul(a, b))
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	case token.QUO, token.REM:
		if m.decide(Eq(b, I(0))) {
			m.goPanicRT("integer divide by zero")
		}
		q, r := m.divRem(a, b)
		if op == token.QUO {
			return w(q)
		}
		return w(r)
	case token.SHL:
		if b.small {
			if b.i64 < 0 {
				m.goPanicRT("negative shift amount")
			}
			if b.i64 >= int64(bits) {
				return I(0)
			}
			return w(Scale(a, pow2(uint(b.i64))))
		}
		return w(UF("shl", SInt, nil, nil, a, b))
	case token.SHR:
		if b.small {
			if b.i64 < 0 {
				m.goPanicRT("negative shift amount")
			}
			k := b.i64
			if k > 200 {
				k = 200
			}
			return w(Div(a, pow2(uint(k))))
		}
		return w(UF("shr", SInt, nil, nil, a, b))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return w(m.bitop(op, a, b, bits))
	}
	m.unsup("binary " + op.String())
	return nil
}

func (m *Machine) addOff(off, d *Term) *Term {
	// pointer arithmetic wraps modulo 2^64; offsets are kept as small signed numbers
	s := Add(off, d)
	if s.isConst() {
		return IB(bsub(fmod(badd(s.n, pow2(63)), pow2(64)), pow2(63)))
	}
	return m.wrap(s, 64, true)
}

func (m *Machine) bitop(op token.Token, a, b *Term, bits uint) *Term {
	if a.isConst() && b.isConst() {
		switch op {
		case token.AND:
			return IB(new(big.Int).And(a.n, b.n))
		case token.OR:
			return IB(new(big.Int).Or(a.n, b.n))
		case token.XOR:
			return IB(new(big.Int).Xor(a.n, b.n))
		}
		return IB(new(big.Int).AndNot(a.n, b.n))
	}
	if a.isConst() && op != token.AND_NOT {
		a, b = b, a
	}
	if op == token.AND && b.isConst() && b.n.Sign() >= 0 {
		k := badd(b.n, big1)
		if new(big.Int).And(k, b.n).Sign() == 0 { // 2^k-1
			return Mod(a, k)
		}
		if b.n.BitLen() > 0 && new(big.Int).Lsh(big1, uint(b.n.BitLen()-1)).Cmp(b.n) == 0 { // one bit
			return Scale(Mod(Div(a, b.n), bi(2)), b.n)
		}
	}
	if b.isConst() && b.n.Sign() == 0 && op != token.AND {
		return a
	}
	lo, hi := bneg(pow2(bits)), pow2(bits)
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
		lo = big0
	}
	if op != token.AND_NOT && a.id > b.id {
		a, b = b, a
	}
	if op == token.OR || op == token.XOR {
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if h := p[1].hi; p[1].lo != nil && p[1].lo.Sign() >= 0 && h != nil && multipleOf(p[0], pow2(uint(h.BitLen()))) {
				return Add(a, b) // no bit in common
			}
		}
	}
	return UF("bit"+map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot"}[op], SInt, lo, hi, a, b)
}

// multipleOf says whether t is evidently a multiple of n
func multipleOf(t *Term, n *big.Int) bool {
	div := func(x *big.Int) bool { return new(big.Int).Mod(x, n).Sign() == 0 }
	switch {
	case t.isConst():
		return div(t.n)
	case t.op == OLin:
		for _, c := range t.co {
			if !div(c) {
				return false
			}
		}
		return div(t.n)
	case t.op == OIte:
		return multipleOf(t.a[1], n) && multipleOf(t.a[2], n)
	}
	return false
}

// divRem is Go's truncated division; b is not zero on this path
func (m *Machine) divRem(a, b *Term) (*Term, *Term) {
	if b.isConst() {
		c := b.n
		neg := c.Sign() < 0
		if neg {
			c = bneg(c)
		}
		var q, r *Term
		if a.lo != nil && a.lo.Sign() >= 0 {
			q, r = Div(a, c), Mod(a, c)
		} else {
			pos := Le(I(0), a)
			q = Ite(pos, Div(a, c), Neg(Div(Neg(a), c)))
			r = Ite(pos, Mod(a, c), Neg(Mod(Neg(a), c)))
		}
		if neg {
			q = Neg(q)
		}
		return q, r
	}
	q := UF("quo", SInt, bneg(pow2(64)), pow2(64), a, b)
	r := UF("rem", SInt, bneg(pow2(64)), pow2(64), a, b)
	return q, r
}

// valEq is == of the program
func (m *Machine) valEq(tx types.Type, x Val, ty types.Type, y Val) *Term {
	_, ix := tx.Underlying().(*types.Interface)
	_, iy := ty.Underlying().(*types.Interface)
	if ix && !iy {
		if b, ok := ty.Underlying().(*types.Basic); !ok || b.Kind() != types.UntypedNil {
			y = m.makeIface(ty, y, false)
		}
	}
	if iy && !ix {
		x = m.makeIface(tx, x, false)
		tx = ty
	}
	switch a := x.(type) {
	case *Poison:
		m.unsup("comparison of " + a.why)
	case *Term:
		if q, ok := y.(Ptr); ok {
			return m.ptrEq(m.asPtr(a), q)
		}
		b, ok := y.(*Term)
		if !ok {
			m.unsup("comparison")
		}
		if a.sort == SF64 || a.sort == SF32 {
			return FCmp(OFEq, a, b)
		}
		return Eq(a, b)
	case Ptr:
		switch b := y.(type) {
		case Ptr:
			return m.ptrEq(a, b)
		case *Term:
			return m.ptrEq(a, m.asPtr(b))
		case *MapV:
			return B(b == nil && a.O == nil && a.Off == I(0))
		case *FuncV:
			return B(b == nil && a.O == nil && a.Off == I(0))
		}
	case StrV:
		return m.strEq(a, y.(StrV))
	case SliceV:
		// only against nil
		b := y.(SliceV)
		if b.P.O == nil && b.Len == I(0) {
			return m.sliceNil(a)
		}
		return m.sliceNil(b)
	case *MapV:
		b, ok := y.(*MapV)
		if !ok {
			p, ok := y.(Ptr)
			return B(ok && p.O == nil && a == nil)
		}
		return B(a == b)
	case *FuncV:
		b, ok := y.(*FuncV)
		if !ok {
			p, ok := y.(Ptr)
			return B(ok && p.O == nil && a == nil)
		}
		if a != nil && b != nil {
			return B(a == b)
		}
		return B(a == nil && b == nil)
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok {
			m.unsup("interface comparison")
		}
		da, db := m.dynType(a), m.dynType(b)
		if da == nil || db == nil {
			return B(da == nil && db == nil)
		}
		if !types.Identical(da, db) {
			return tFalse
		}
		if !types.Comparable(da) {
			m.goPanicRT("comparing uncomparable type " + da.String())
		}
		if direct(da) {
			return m.valEq(da, m.ifaceVal(a, da), da, m.ifaceVal(b, da))
		}
		if pa, ok := a.D.(Ptr); ok {
			if pb, ok := b.D.(Ptr); ok && pa == pb {
				if !isFloat(da) {
					return tTrue
				}
			}
		}
		return m.valEq(da, m.ifaceVal(a, da), da, m.ifaceVal(b, da))
	case AggV:
		b := y.(AggV)
		var cs []*Term
		for i := range a {
			et := elemType(tx, i)
			cs = append(cs, m.valEq(et, a[i], et, b[i]))
		}
		return And(cs...)
	}
	m.unsup(fmt.Sprintf("comparison of %T and %T", x, y))
	return nil
}

func elemType(t types.Type, i int) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return u.Field(i).Type()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func (m *Machine) sliceNil(s SliceV) *Term {
	return B(s.P.O == nil)
}

func (m *Machine) ptrEq(a, b Ptr) *Term {
	if a.O != b.O {
		return tFalse
	}
	return Eq(a.Off, b.Off)
}

// strIdent names a string by its content and length
func (m *Machine) strIdent(s StrV) *Term {
	if c, ok := m.conStr(s); ok {
		return UF("strc", SInt, nil, nil, I(int64(bytesNode(c).id)), I(0), I(int64(len(c))))
	}
	n, off := m.strNode(s)
	if n.kind == NSym && len(n.idxs) > 0 { // the content is a function of the indexes
		return UF("strn:"+n.name, SInt, nil, nil, append(append([]*Term{}, n.idxs...), off, s.Len)...)
	}
	return UF("strc", SInt, nil, nil, I(int64(n.id)), off, s.Len)
}

// strNode finds the content a string was copied from, through exact copies
func (m *Machine) strNode(s StrV) (*Node, *Term) {
	n := m.byteNode(s.P)
	off := s.P.Off
	for n.kind == NCopy || n.kind == NStore {
		if n.kind == NStore {
			d := Sub(n.idx, off)
			c := Or(Lt(d, I(0)), Le(s.Len, d))
			if k, v := m.known(c); k && v {
				n = n.prev
				continue
			}
			break
		}
		d := Sub(off, n.idx)
		in := And(Le(I(0), d), Le(Add(d, s.Len), n.n))
		if k, v := m.known(in); k && v {
			off = Add(d, n.srcLo)
			n = n.src
			continue
		}
		out := Or(Le(Add(d, s.Len), I(0)), Le(n.n, d))
		if k, v := m.known(out); k && v {
			n = n.prev
			continue
		}
		break
	}
	return n, off
}

func (m *Machine) strEq(a, b StrV) *Term {
	if a.Len == b.Len && a.P == b.P {
		return tTrue
	}
	le := Eq(a.Len, b.Len)
	if le.isFalse() {
		return tFalse
	}
	ca, ok1 := m.conStr(a)
	cb, ok2 := m.conStr(b)
	if ok1 && ok2 {
		return B(ca == cb)
	}
	if ok2 {
		a, b, ca, ok1, ok2 = b, a, cb, true, false
	}
	if ok1 && len(ca) <= 64 {
		cs := []*Term{le}
		for i := 0; i < len(ca); i++ {
			cs = append(cs, Eq(m.byteAt(b, I(int64(i))), I(int64(ca[i]))))
		}
		return And(cs...)
	}
	na, oa := m.strNode(a)
	nb, ob := m.strNode(b)
	if na == nb && oa == ob {
		return le
	}
	x, y := m.strIdent(a), m.strIdent(b)
	if x == y {
		return tTrue
	}
	if x.id > y.id {
		x, y = y, x
	}
	same := tFalse
	if na.kind == NSym && nb.kind == NSym && na.name == nb.name && len(na.idxs) == len(nb.idxs) {
		cs := []*Term{Eq(oa, ob)}
		for i := range na.idxs {
			cs = append(cs, Eq(na.idxs[i], nb.idxs[i]))
		}
		same = And(cs...)
	}
	return And(le, Or(same, Eq(UF("strid", SInt, nil, nil, x), UF("strid", SInt, nil, nil, y)), Eq(a.Len, I(0))))
}

func (m *Machine) byteAt(s StrV, i *Term) *Term {
	if s.P.O == nil {
		return I(0)
	}
	v := m.loadByte(Ptr{s.P.O, Add(s.P.Off, i)})
	return v
}

func (m *Machine) loadByte(p Ptr) *Term {
	lf := leaf{0, 1, types.Typ[types.Uint8], lkInt}
	var v Val
	if p.O.arr == nil && p.Off.small {
		v = m.readWord(p.O, p.Off.i64, lf)
	} else {
		if p.O.arr == nil && !m.toArr(p.O, types.Typ[types.Uint8]) {
			m.unsup("bytes of " + p.O.describe())
		}
		v = m.readArr(p.O, p.Off, lf)
	}
	return m.asInt2(v)
}

func (m *Machine) concat(a, b StrV) Val {
	if a.Len == I(0) {
		return b
	}
	if b.Len == I(0) {
		return a
	}
	ca, ok1 := m.conStr(a)
	cb, ok2 := m.conStr(b)
	if ok1 && ok2 {
		return m.strConst(ca + cb)
	}
	n := Add(a.Len, b.Len)
	nd := zeroNode(leaf{0, 1, types.Typ[types.Uint8], lkInt})
	na, oa := m.copySrc(a)
	nb, ob := m.copySrc(b)
	nd = copyNode(nd, I(0), a.Len, na, oa)
	nd = copyNode(nd, a.Len, b.Len, nb, ob)
	return m.strOf(nd, n)
}

func (m *Machine) copySrc(s StrV) (*Node, *Term) {
	if s.P.O == nil {
		return zeroNode(leaf{0, 1, types.Typ[types.Uint8], lkInt}), I(0)
	}
	if c, ok := m.conStr(s); ok {
		return bytesNode(c), I(0)
	}
	return m.strNode(s)
}

// strOf makes a fresh string object with the given content
func (m *Machine) strOf(n *Node, ln *Term) StrV {
	o := m.newObj(ln, types.NewSlice(types.Typ[types.Uint8]))
	o.arr = &Arr{stride: 1, leaves: []leaf{{0, 1, types.Typ[types.Uint8], lkInt}}, nodes: []*Node{n}}
	o.ro = true
	return StrV{Ptr{o, I(0)}, ln}
}

func (fr *frame) index(x *ssa.Index) Val {
	m := fr.m
	v := fr.get(x.X)
	i := fr.term(x.Index)
	switch a := v.(type) {
	case StrV:
		m.bounds(i, a.Len)
		return m.byteAt(a, i)
	case AggV:
		m.bounds(i, I(int64(len(a))))
		if !i.small {
			for k := range a {
				if m.decide(Eq(i, I(int64(k)))) {
					return a[k]
				}
			}
			panic(pathEnd{"index"})
		}
		return a[i.i64]
	}
	m.unsup("index")
	return nil
}

func (m *Machine) bounds(i, n *Term) {
	ok := And(Le(I(0), i), Lt(i, n))
	if !m.decide(ok) {
		m.goPanicRT("index out of range")
	}
}

func (fr *frame) indexAddr(x *ssa.IndexAddr) Val {
	m := fr.m
	i := fr.term(x.Index)
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		v := fr.get(x.X)
		if p, ok := v.(*Poison); ok {
			m.unsup("index of " + p.why)
		}
		s := v.(SliceV)
		m.bounds(i, s.Len)
		return Ptr{s.P.O, Add(s.P.Off, Scale(i, bi(m.sizeof(t.Elem()))))}
	case *types.Pointer:
		a := t.Elem().Underlying().(*types.Array)
		p := m.asPtr(fr.get(x.X))
		m.bounds(i, I(a.Len()))
		if p.O == nil {
			m.checkNil(p)
		}
		return Ptr{p.O, Add(p.Off, Scale(i, bi(m.sizeof(a.Elem()))))}
	}
	m.unsup("index address")
	return nil
}

func (m *Machine) makeSlice(et types.Type, n, c *Term) Val {
	if !m.decide(And(Le(I(0), n), Le(n, c))) {
		m.goPanicRT("makeslice: len out of range")
	}
	if c.small && c.i64 <= 4096 {
		o := m.newObj(I(c.i64*m.sizeof(et)), types.NewSlice(et))
		return SliceV{Ptr{o, I(0)}, n, c}
	}
	return SliceV{Ptr{m.newArr(et, c), I(0)}, n, c}
}

func (fr *frame) slice(x *ssa.Slice) Val {
	m := fr.m
	v := fr.get(x.X)
	var lo, hi, max *Term
	lo = I(0)
	if x.Low != nil {
		lo = fr.term(x.Low)
	}
	if x.High != nil {
		hi = fr.term(x.High)
	}
	if x.Max != nil {
		max = fr.term(x.Max)
	}
	chk := func(a, b, c *Term) {
		if !m.decide(And(Le(I(0), a), Le(a, b), Le(b, c))) {
			m.goPanicRT("slice bounds out of range")
		}
	}
	switch s := v.(type) {
	case *Poison:
		return s
	case StrV:
		if hi == nil {
			hi = s.Len
		}
		chk(lo, hi, s.Len)
		n := Sub(hi, lo)
		if n == I(0) {
			return StrV{nilPtr, I(0)}
		}
		return StrV{Ptr{s.P.O, Add(s.P.Off, lo)}, n}
	case SliceV:
		et := x.X.Type().Underlying().(*types.Slice).Elem()
		if hi == nil {
			hi = s.Len
		}
		c := s.Cap
		if max != nil {
			chk(hi, max, s.Cap)
			c = max
		}
		chk(lo, hi, c)
		p := s.P
		if p.O != nil {
			p = Ptr{p.O, Add(p.Off, Scale(lo, bi(m.sizeof(et))))}
		}
		return SliceV{p, Sub(hi, lo), Sub(c, lo)}
	case Ptr:
		a := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		m.checkNil(s)
		if hi == nil {
			hi = I(a.Len())
		}
		c := I(a.Len())
		if max != nil {
			c = max
		}
		chk(lo, hi, c)
		return SliceV{Ptr{s.O, Add(s.Off, Scale(lo, bi(m.sizeof(a.Elem()))))}, Sub(hi, lo), Sub(c, lo)}
	}
	m.unsup("slice")
	return nil
}

func (fr *frame) lookup(x *ssa.Lookup) Val {
	m := fr.m
	v := fr.get(x.X)
	if s, ok := v.(StrV); ok {
		i := fr.term(x.Index)
		m.bounds(i, s.Len)
		return m.byteAt(s, i)
	}
	if p, ok := v.(*Poison); ok {
		if x.CommaOk {
			return TupV{p, p}
		}
		return p
	}
	mt := x.X.Type().Underlying().(*types.Map)
	r, ok := m.mapGet(v, mt, fr.get(x.Index))
	if x.CommaOk {
		return TupV{r, B(ok)}
	}
	return r
}

func asMap(m *Machine, v Val) *MapV {
	switch x := v.(type) {
	case *MapV:
		return x
	case Ptr:
		if x.O == nil {
			return nil
		}
	case *Poison:
		m.unsup("map: " + x.why)
	}
	m.fault("map access through something that is not a map")
	return nil
}

func (m *Machine) mapGet(v Val, mt *types.Map, key Val) (Val, bool) {
	mv := asMap(m, v)
	if mv != nil && mv.typ != nil {
		if !types.Identical(mv.typ.Key(), mt.Key()) || !types.Identical(mv.typ.Elem(), mt.Elem()) {
			m.fault("map accessed as another map type")
		}
	}
	if mv != nil {
		if i := m.mapFind(mv, mt, key); i >= 0 {
			return mv.vals[i], true
		}
	}
	return m.zero(mt.Elem()), false
}

func (m *Machine) mapFind(mv *MapV, mt *types.Map, key Val) int {
	for i, k := range mv.keys {
		if m.decide(m.valEq(mt.Key(), k, mt.Key(), key)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(v, key, val Val) {
	mv := asMap(m, v)
	if mv == nil {
		m.goPanicRT("assignment to entry in nil map")
	}
	m.noteMap(mv)
	i := m.mapFind(mv, mv.typ, key)
	m.logMap(mv)
	if i >= 0 {
		mv.vals[i] = val
		return
	}
	mv.keys = append(mv.keys, key)
	mv.vals = append(mv.vals, val)
}

func (m *Machine) mapDelete(v, key Val) {
	mv := asMap(m, v)
	if mv == nil {
		return
	}
	m.noteMap(mv)
	i := m.mapFind(mv, mv.typ, key)
	if i < 0 {
		return
	}
	m.logMap(mv)
	mv.keys = append(append([]Val{}, mv.keys[:i]...), mv.keys[i+1:]...)
	mv.vals = append(append([]Val{}, mv.vals[:i]...), mv.vals[i+1:]...)
}

type rangeIter struct {
	keys []Val
	mv   *MapV
	s    string
	pos  int
}

func (m *Machine) rangeOver(v Val) Val {
	switch x := v.(type) {
	case *MapV:
		if x == nil {
			return &rangeIter{}
		}
		return &rangeIter{mv: x, keys: append([]Val{}, x.keys...)}
	case Ptr:
		if x.O == nil {
			return &rangeIter{}
		}
	case StrV:
		s, ok := m.conStr(x)
		if !ok {
			m.unsup("range over a symbolic string")
		}
		return &rangeIter{s: s, pos: 0}
	}
	m.unsup("range")
	return nil
}

func (m *Machine) next(v Val, x *ssa.Next) Val {
	it := v.(*rangeIter)
	if x.IsString {
		if it.pos >= len(it.s) {
			return TupV{tFalse, I(0), I(0)}
		}
		for i, r := range it.s[it.pos:] {
			_ = i
			n := 0
			for j := range it.s[it.pos:] {
				if j > 0 {
					n = j
					break
				}
			}
			if n == 0 {
				n = len(it.s) - it.pos
			}
			p := it.pos
			it.pos += n
			return TupV{tTrue, I(int64(p)), I(int64(r))}
		}
	}
	for it.pos < len(it.keys) {
		k := it.keys[it.pos]
		it.pos++
		for i, q := range it.mv.keys {
			if sameVal(q, k) {
				return TupV{tTrue, k, it.mv.vals[i]}
			}
		}
	}
	t := x.Type().(*types.Tuple)
	z := func(i int) Val {
		if b, ok := t.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return m.zero(t.At(i).Type())
	}
	return TupV{tFalse, z(1), z(2)}
}

// sameVal is identity of values as represented
func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case AggV:
		y, ok := b.(AggV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case TupV:
		return false
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && x.T == y.T && sameVal(x.D, y.D)
	case nil:
		return b == nil
	}
	switch b.(type) {
	case AggV, TupV:
		return false
	}
	return a == b
}

func (fr *frame) prepare(c *ssa.CallCommon) (*FuncV, []Val, *ssa.Builtin) {
	m := fr.m
	var args []Val
	if c.IsInvoke() {
		v := fr.get(c.Value)
		if p, ok := v.(*Poison); ok {
			m.unsup("method of " + p.why)
		}
		i := v.(IfaceV)
		d := m.dynType(i)
		if d == nil {
			m.goPanicRT("invalid memory address or nil pointer dereference (method of nil interface)")
		}
		fv, recv := m.findMethod(d, i, c.Method)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		return fv, args, nil
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	switch f := fr.get(c.Value).(type) {
	case *FuncV:
		return f, args, nil
	case *ssa.Builtin:
		return nil, args, f
	case Ptr:
		if f.O == nil {
			return nil, args, nil
		}
		m.fault("call through something that is not a function")
	case *Poison:
		m.unsup("call of " + f.why)
	}
	m.unsup("call")
	return nil, nil, nil
}

func (m *Machine) findMethod(d types.Type, i IfaceV, meth *types.Func) (*FuncV, Val) {
	if m.isRType(d) {
		name := meth.Name()
		return &FuncV{Name: "reflect.Type." + name, Nat: func(m *Machine, args []Val) Val { return m.rtypeMethod(name, args) }}, i.D
	}
	sel := m.p.prog.MethodSets.MethodSet(d).Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		m.fault("method " + meth.Name() + " called on " + d.String())
	}
	fn := m.p.prog.MethodValue(sel)
	if fn == nil {
		m.unsup("no method " + meth.Name() + " of " + d.String())
	}
	return &FuncV{Fn: fn}, m.ifaceVal(i, d)
}

func (fr *frame) doCall(c *ssa.CallCommon, site ssa.Instruction) Val {
	fn, args, bi := fr.prepare(c)
	if bi != nil {
		return fr.builtin(bi, args, c)
	}
	if fn == nil {
		fr.m.goPanicRT("invalid memory address or nil pointer dereference (call of nil function)")
	}
	return fr.m.call(fn, args, site)
}

func (fr *frame) builtin(b *ssa.Builtin, args []Val, c *ssa.CallCommon) Val {
	m := fr.m
	for _, a := range args {
		if p, ok := a.(*Poison); ok {
			return p
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case StrV:
			return x.Len
		case SliceV:
			return x.Len
		case *MapV:
			if x == nil {
				return I(0)
			}
			return I(int64(len(x.keys)))
		case AggV:
			return I(int64(len(x)))
		case Ptr:
			if x.O == nil && c != nil {
				if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
					return I(0)
				}
			}
			if pt, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				return I(pt.Elem().Underlying().(*types.Array).Len())
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return x.Cap
		case AggV:
			return I(int64(len(x)))
		}
	case "append":
		return m.appendTo(c.Args[0].Type(), args[0].(SliceV), args[1])
	case "copy":
		d := args[0].(SliceV)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		var sp Ptr
		var sl *Term
		switch s := args[1].(type) {
		case SliceV:
			sp, sl = s.P, s.Len
		case StrV:
			sp, sl = s.P, s.Len
		}
		n := d.Len
		if !m.decide(Le(d.Len, sl)) {
			n = sl
		}
		m.copyMem(d.P, sp, n, et)
		return n
	case "delete":
		m.mapDelete(args[0], args[1])
		return nil
	case "panic":
		panic(goPanic{v: args[0].(IfaceV), rt: "panic" + m.where()})
	case "recover":
		// the frame that runs the deferred call of which this is the function
		if n := len(m.inDefer); n > 0 {
			f := m.inDefer[n-1]
			if f.panicV != nil && fr.caller == f {
				v := f.panicV.v
				f.panicV = nil
				return v
			}
		}
		return IfaceV{nilPtr, nilPtr}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		p := m.asPtr(args[0])
		if p.O == nil {
			m.goPanicRT("value method called using nil pointer")
		}
		return args[0]
	case "min", "max":
		t := c.Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			x, y := r.(*Term), a.(*Term)
			lt := m.binop(token.LSS, t, t, x, y).(*Term)
			if b.Name() == "min" {
				r = Ite(lt, x, y)
			} else {
				r = Ite(lt, y, x)
			}
		}
		return r
	case "clear":
		if mv, ok := args[0].(*MapV); ok {
			if mv != nil {
				m.noteMap(mv)
				m.logMap(mv)
				mv.keys, mv.vals = nil, nil
			}
			return nil
		}
	// package unsafe
	case "Add":
		return m.binop(token.ADD, types.Typ[types.Uintptr], types.Typ[types.Uintptr], args[0], args[1])
	case "Slice":
		n := m.asInt2(args[1])
		return SliceV{m.asPtr(args[0]), n, n}
	case "SliceData":
		return args[0].(SliceV).P
	case "String":
		return StrV{m.asPtr(args[0]), m.asInt2(args[1])}
	case "StringData":
		return args[0].(StrV).P
	}
	m.unsup("builtin " + b.Name())
	return nil
}

// appendTo is append; the new array, if one is needed, has an unspecified larger capacity
func (m *Machine) appendTo(t types.Type, s SliceV, more Val) Val {
	et := t.Underlying().(*types.Slice).Elem()
	var mp Ptr
	var ml *Term
	switch x := more.(type) {
	case SliceV:
		mp, ml = x.P, x.Len
	case StrV:
		mp, ml = x.P, x.Len
	case Ptr:
		if x.O == nil {
			return s
		}
	}
	if ml == I(0) {
		return s
	}
	n := Add(s.Len, ml)
	st := bi(m.sizeof(et))
	if !m.decide(Le(n, s.Cap)) {
		c := n
		var p Ptr
		if n.small {
			k := int64(1)
			for k < n.i64 {
				k *= 2
			}
			c = I(k)
			p = Ptr{m.newObj(I(k*m.sizeof(et)), types.NewSlice(et)), I(0)}
		} else {
			c = m.fresh("cap", SInt, big0, pow2(48))
			m.addPC(Le(n, c))
			p = Ptr{m.newArr(et, c), I(0)}
		}
		if s.P.O != nil {
			m.copyMem(p, s.P, s.Len, et)
		}
		s = SliceV{p, s.Len, c}
	}
	m.copyMem(Ptr{s.P.O, Add(s.P.Off, Scale(s.Len, st))}, mp, ml, et)
	return SliceV{s.P, n, s.Cap}
}

func (m *Machine) convert(from, to types.Type, v Val) Val {
	if p, ok := v.(*Poison); ok {
		return p
	}
	uf, ut := from.Underlying(), to.Underlying()
	if types.Identical(uf, ut) {
		return v
	}
	tb, _ := ut.(*types.Basic)
	fb, _ := uf.(*types.Basic)
	switch {
	case tb != nil && tb.Kind() == types.UnsafePointer, isPtr(ut):
		switch x := v.(type) {
		case *Term:
			return Ptr{nil, x}
		}
		return v
	case fb != nil && fb.Kind() == types.UnsafePointer: // to uintptr
		if p, ok := v.(Ptr); ok {
			if p.O == nil {
				return p.Off
			}
			return p
		}
		return v
	case tb != nil && tb.Info()&types.IsInteger != 0:
		b, s := m.intKind(to)
		if p, ok := v.(Ptr); ok {
			if b == 64 {
				return p
			}
			return m.wrap(m.asInt(p), b, s)
		}
		t := v.(*Term)
		if t.sort == SInt {
			return m.wrap(t, b, s)
		}
		if t.op == OFConst && t.f == t.f && t.f > -9e18 && t.f < 9e18 {
			return Wrap(I(int64(t.f)), b, s)
		}
		lo, hi := bneg(pow2(b-1)), bsub(pow2(b-1), big1)
		if !s {
			lo, hi = big0, bsub(pow2(b), big1)
		}
		return UF(fmt.Sprintf("f2i%d%v", b, s), SInt, lo, hi, t)
	case tb != nil && tb.Info()&types.IsFloat != 0:
		if p, ok := v.(Ptr); ok {
			v = m.asInt(p)
		}
		t := v.(*Term)
		w := tb.Kind() == types.Float32
		switch {
		case t.sort == SInt:
			if t.isConst() {
				f, _ := new(big.Float).SetInt(t.n).Float64()
				if w {
					g, _ := new(big.Float).SetInt(t.n).Float32()
					return F32(g)
				}
				return F(f)
			}
			if w {
				return UF("i2f32", SF32, nil, nil, t)
			}
			return UF("i2f", SF64, nil, nil, t)
		case w && t.sort == SF64:
			if t.op == OFConst {
				return F32(float32(t.f))
			}
			if t.op == OUF && t.name == "f32to64" {
				return t.a[0]
			}
			return UF("f64to32", SF32, nil, nil, t)
		case !w && t.sort == SF32:
			if t.op == OFConst {
				return F(t.f)
			}
			return UF("f32to64", SF64, nil, nil, t)
		}
		return t
	case tb != nil && tb.Info()&types.IsString != 0:
		switch x := v.(type) {
		case SliceV:
			et := uf.(*types.Slice).Elem()
			if m.sizeof(et) == 1 {
				return m.bytesToStr(x)
			}
			var rs []rune
			if !x.Len.small {
				m.unsup("string of symbolic runes")
			}
			for i := int64(0); i < x.Len.i64; i++ {
				r := m.load(Ptr{x.P.O, Add(x.P.Off, I(4*i))}, et).(*Term)
				if !r.small {
					m.unsup("string of symbolic runes")
				}
				rs = append(rs, rune(r.i64))
			}
			return m.strConst(string(rs))
		case *Term:
			if x.small {
				return m.strConst(string(rune(x.i64)))
			}
			if m.decide(And(Le(I(0), x), Lt(x, I(128)))) {
				return m.strOf(storeNode(zeroNode(leaf{0, 1, types.Typ[types.Uint8], lkInt}), I(0), x), I(1))
			}
			m.unsup("string of a symbolic rune")
		}
		return v
	}
	if st, ok := ut.(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 {
		s := v.(StrV)
		if m.sizeof(st.Elem()) == 1 {
			return m.strToBytes(s)
		}
		c, ok := m.conStr(s)
		if !ok {
			m.unsup("runes of a symbolic string")
		}
		rs := []rune(c)
		o := m.newObj(I(int64(len(rs))*4), types.NewSlice(st.Elem()))
		for i, r := range rs {
			o.cells[int64(i)*4] = cell{I(int64(r)), 4}
		}
		return SliceV{Ptr{o, I(0)}, I(int64(len(rs))), I(int64(len(rs)))}
	}
	return v
}

func isPtr(t types.Type) bool { _, ok := t.(*types.Pointer); return ok }

func (m *Machine) bytesToStr(x SliceV) Val {
	if x.Len == I(0) {
		return StrV{nilPtr, I(0)}
	}
	if x.Len.small {
		if c, ok := m.conBytes(x.P, x.Len.i64); ok {
			return m.strConst(c)
		}
	}
	n, off := m.strNode(StrV{x.P, x.Len})
	return m.strOf(copyNode(zeroNode(leaf{0, 1, types.Typ[types.Uint8], lkInt}), I(0), x.Len, n, off), x.Len)
}

func (m *Machine) strToBytes(s StrV) Val {
	if c, ok := m.conStr(s); ok {
		o := m.newObj(I(int64(len(c))), types.NewSlice(types.Typ[types.Uint8]))
		if len(c) <= 64 {
			for i := 0; i < len(c); i++ {
				o.cells[int64(i)] = cell{I(int64(c[i])), 1}
			}
		} else {
			o.arr = &Arr{stride: 1, leaves: []leaf{{0, 1, types.Typ[types.Uint8], lkInt}}, nodes: []*Node{bytesNode(c)}}
		}
		return SliceV{Ptr{o, I(0)}, s.Len, s.Len}
	}
	n, off := m.copySrc(s)
	o := m.newArr(types.Typ[types.Uint8], s.Len)
	o.arr.nodes[0] = copyNode(o.arr.nodes[0], I(0), s.Len, n, off)
	return SliceV{Ptr{o, I(0)}, s.Len, s.Len}
}

// wrap reduces to a machine integer, with the bounds known on this path
func (m *Machine) wrap(t *Term, bits uint, signed bool) *Term {
	r := Wrap(t, bits, signed)
	if r == t || r.isConst() || m.inBase {
		return r
	}
	if bits == 64 && signed && m.inRange[t] {
		return t
	}
	if m.pure > 0 && m.pureD != nil && len(m.pureD.conds) > 0 {
		m.s.iv.sync(append(append([]*Term{}, m.pc...), m.pureD.conds...))
	} else {
		m.s.iv.sync(m.pc)
	}
	x := m.s.iv.of(t)
	if m.s.iv.conflict {
		return r
	}
	if bits == 64 && signed && m.pure == 0 && (x.lo == nil || x.hi == nil || x.lo.Cmp(bneg(pow2(63))) < 0 || x.hi.Cmp(pow2(63)) >= 0) {
		if q, _ := m.s.check(m.pc, Not(And(Le(IB(bneg(pow2(63))), t), Lt(t, IB(pow2(63))))), nil); q == Unsat {
			m.inRange[t] = true
			return t
		}
	}
	if x.lo == nil || x.hi == nil {
		return r
	}
	p := pow2(bits)
	off := big0
	if signed {
		off = pow2(bits - 1)
	}
	q := fdiv(badd(x.lo, off), p)
	if q.Cmp(fdiv(badd(x.hi, off), p)) != 0 {
		return r
	}
	return Sub(t, IB(bmul(q, p)))
}
