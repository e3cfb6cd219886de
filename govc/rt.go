package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// The model of package reflect (and of the type descriptors the runtime lays out in memory): types are go/types types,
// canonical up to identity; a reflect.Value is its three words (type, pointer, flag) exactly as in package reflect.

type rtState struct {
	rt, it typeutil.Map
	seq    int
	rtype  types.Type // *reflect.rtype
	rts    map[types.Type]*Obj
	named  map[string]types.Type
}

func (m *Machine) rtState() *rtState {
	if m.rtS == nil {
		m.rtS = &rtState{rts: map[types.Type]*Obj{}, named: map[string]types.Type{}}
		rp := m.p.byPth["reflect"]
		m.rtS.rtype = types.NewPointer(rp.Type("rtype").Type())
	}
	return m.rtS
}

func (m *Machine) rtypeObj(t types.Type) *Obj {
	s := m.rtState()
	if o, ok := s.rts[t]; ok {
		return o
	}
	if o, ok := s.rt.At(t).(*Obj); ok {
		s.rts[t] = o
		return o
	}
	s.seq++
	o := &Obj{id: -(1 << 41) - s.seq, size: I(48), rtype: t, ro: true, base: true, name: "type " + t.String(), cells: map[int64]cell{}}
	if _, ok := t.(*types.Tuple); !ok {
		o.cells[0] = cell{I(m.sizeof(t)), 8}
	}
	k := int64(kindOfT(t))
	if direct(t) {
		k |= 1 << 5
	}
	o.cells[16] = cell{I(int64(s.seq)), 4}
	o.cells[23] = cell{I(k), 1}
	s.rt.Set(t, o)
	s.rts[t] = o
	return o
}

func (m *Machine) itabObj(t types.Type) *Obj {
	s := m.rtState()
	if o, ok := s.it.At(t).(*Obj); ok {
		return o
	}
	s.seq++
	c := m.rtypeObj(t).rtype
	o := &Obj{id: -(1 << 41) - s.seq, size: I(32), itab: c, ro: true, base: true, name: "itab " + t.String(), cells: map[int64]cell{}}
	o.cells[8] = cell{Ptr{m.rtypeObj(t), I(0)}, 8}
	s.it.Set(t, o)
	return o
}

func (m *Machine) isRType(d types.Type) bool {
	return d == m.rtState().rtype || types.Identical(d, m.rtState().rtype)
}

func kindOfT(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

// rtString is reflect.Type.String
func rtString(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "unsafe.Pointer"
		}
		return u.Name()
	case *types.Named:
		n := u.Obj().Name()
		if p := u.Obj().Pkg(); p != nil {
			n = p.Name() + "." + n
		}
		if ta := u.TypeArgs(); ta != nil && ta.Len() > 0 {
			var a []string
			for i := 0; i < ta.Len(); i++ {
				a = append(a, rtString(ta.At(i)))
			}
			n += "[" + strings.Join(a, ",") + "]"
		}
		return n
	case *types.Pointer:
		return "*" + rtString(u.Elem())
	case *types.Slice:
		return "[]" + rtString(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), rtString(u.Elem()))
	case *types.Map:
		return "map[" + rtString(u.Key()) + "]" + rtString(u.Elem())
	case *types.Chan:
		return "chan " + rtString(u.Elem())
	case *types.Signature:
		return "func" + sigString(u)
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "interface {}"
		}
		var a []string
		for i := 0; i < u.NumMethods(); i++ {
			a = append(a, u.Method(i).Name()+sigString(u.Method(i).Type().(*types.Signature)))
		}
		return "interface { " + strings.Join(a, "; ") + " }"
	case *types.Struct:
		if u.NumFields() == 0 {
			return "struct {}"
		}
		var a []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			s := rtString(f.Type())
			if !f.Embedded() {
				s = f.Name() + " " + s
			}
			if tg := u.Tag(i); tg != "" {
				s += " " + strconv.Quote(tg)
			}
			a = append(a, s)
		}
		return "struct { " + strings.Join(a, "; ") + " }"
	}
	return t.String()
}

func sigString(s *types.Signature) string {
	var a []string
	for i := 0; i < s.Params().Len(); i++ {
		x := rtString(s.Params().At(i).Type())
		if s.Variadic() && i == s.Params().Len()-1 {
			x = "..." + strings.TrimPrefix(x, "[]")
		}
		a = append(a, x)
	}
	r := "(" + strings.Join(a, ", ") + ")"
	var b []string
	for i := 0; i < s.Results().Len(); i++ {
		b = append(b, rtString(s.Results().At(i).Type()))
	}
	switch len(b) {
	case 0:
	case 1:
		r += " " + b[0]
	default:
		r += " (" + strings.Join(b, ", ") + ")"
	}
	return r
}

// rtypeIface is a reflect.Type
func (m *Machine) rtypeIface(t types.Type) IfaceV {
	if t == nil {
		return IfaceV{nilPtr, nilPtr}
	}
	return IfaceV{Ptr{m.itabObj(m.rtState().rtype), I(0)}, Ptr{m.rtypeObj(t), I(0)}}
}

// typeArg is the type behind a reflect.Type
func (m *Machine) typeArg(v Val) types.Type {
	switch x := v.(type) {
	case IfaceV:
		if x.T.O == nil {
			return nil
		}
		if !m.isRType(m.dynType(x)) {
			m.unsup("reflect.Type implemented by " + m.dynType(x).String())
		}
		return m.typeArg(x.D)
	case Ptr:
		if x.O == nil {
			m.goPanicRT("invalid memory address or nil pointer dereference (nil type)")
		}
		if x.O.rtype == nil {
			m.fault("memory that is not a type descriptor is used as one")
		}
		return x.O.rtype
	case *Poison:
		m.unsup("type: " + x.why)
	}
	m.unsup(fmt.Sprintf("type from %T", v))
	return nil
}

const (
	flIndir = 1 << 7
	flAddr  = 1 << 8
	flRO    = 1 << 5
)

type rval struct {
	t  types.Type
	p  Val
	fl int64
}

func (m *Machine) packV(v rval) Val {
	if v.t == nil {
		return AggV{nilPtr, nilPtr, I(0)}
	}
	return AggV{Ptr{m.rtypeObj(v.t), I(0)}, v.p, I(v.fl&^31 | int64(kindOfT(v.t)))}
}

func (m *Machine) unpackV(v Val) rval {
	a, ok := v.(AggV)
	if !ok {
		if p, ok := v.(*Poison); ok {
			m.unsup("reflect.Value: " + p.why)
		}
		m.unsup(fmt.Sprintf("reflect.Value from %T", v))
	}
	tp := m.asPtr(a[0])
	if tp.O == nil {
		return rval{}
	}
	if tp.O.rtype == nil {
		m.fault("corrupt reflect.Value")
	}
	fl := m.asInt2(a[2])
	if !fl.small {
		m.unsup("reflect.Value with a symbolic flag")
	}
	return rval{tp.O.rtype, a[1], fl.i64}
}

func (m *Machine) rvLoad(v rval) Val {
	if v.t == nil {
		m.goPanicRT("reflect: call of a method on zero Value")
	}
	if v.fl&flIndir != 0 {
		return m.load(m.asPtr(v.p), v.t)
	}
	r, _ := m.join(v.t, []Val{v.p})
	return r
}

func (m *Machine) rvMake(t types.Type, val Val) rval {
	if p, ok := val.(*Poison); ok {
		m.unsup("reflect.Value of " + p.why)
	}
	if direct(t) {
		return rval{t, m.words(t, val, nil)[0], 0}
	}
	p := m.allocT(t)
	m.store(p, t, val)
	return rval{t, p, flIndir}
}

// rvIface is Value.Interface
func (m *Machine) rvIface(v rval) IfaceV {
	if v.t == nil {
		m.goPanicRT("reflect: call of reflect.Value.Interface on zero Value")
	}
	if v.fl&flRO != 0 {
		m.goPanicRT("reflect.Value.Interface: cannot return value obtained from unexported field or method")
	}
	if i, ok := v.t.Underlying().(*types.Interface); ok {
		x := m.rvLoad(v).(IfaceV)
		_ = i
		return m.ifaceAs(x, types.NewInterfaceType(nil, nil))
	}
	return m.makeIface(v.t, m.rvLoad(v), false)
}

func (m *Machine) rvOfIface(i IfaceV) rval {
	d := m.dynType(i)
	if d == nil {
		return rval{}
	}
	if direct(d) {
		return rval{d, i.D, 0}
	}
	return rval{d, i.D, flIndir}
}

// assignConv adapts a value to a type it is assignable to
func (m *Machine) assignConv(v rval, to types.Type, what string) Val {
	if v.t == nil {
		m.goPanicRT("reflect: call of " + what + " on zero Value")
	}
	if types.Identical(v.t, to) {
		return m.rvLoad(v)
	}
	if it, ok := to.Underlying().(*types.Interface); ok {
		if fi, isI := v.t.Underlying().(*types.Interface); isI {
			x := m.rvLoad(v).(IfaceV)
			if types.Implements(v.t, it) || it.NumMethods() == 0 {
				_ = fi
				return m.ifaceAs(x, to)
			}
		} else if types.Implements(v.t, it) {
			return m.makeIface(v.t, m.rvLoad(v), it.NumMethods() > 0)
		}
	} else if types.AssignableTo(v.t, to) {
		return m.rvLoad(v)
	}
	m.goPanicRT("reflect: " + what + ": value of type " + rtString(v.t) + " is not assignable to type " + rtString(to))
	return nil
}

type methInfo struct {
	name string
	sel  *types.Selection
	fn   *types.Func // interface method
}

// methods lists the exported methods in the order of reflect
func (m *Machine) methods(t types.Type) []methInfo {
	var out []methInfo
	if it, ok := t.Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			f := it.Method(i)
			out = append(out, methInfo{name: f.Name(), fn: f})
		}
	} else {
		ms := m.p.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Exported() {
				out = append(out, methInfo{name: s.Obj().Name(), sel: s})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func (m *Machine) str(s string) Val { return m.strConst(s) }

// methodVal is a reflect.Method
func (m *Machine) methodVal(t types.Type, mi methInfo, idx int) Val {
	zeroV := m.packV(rval{})
	if mi.fn != nil {
		return AggV{m.str(mi.name), m.str(""), m.rtypeIface(stripRecv(mi.fn.Type().(*types.Signature))), zeroV, I(int64(idx))}
	}
	fn := m.p.prog.MethodValue(mi.sel)
	sig := mi.sel.Obj().Type().(*types.Signature)
	var ps []*types.Var
	ps = append(ps, types.NewVar(0, nil, "", t))
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	ft := types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), sig.Variadic())
	return AggV{m.str(mi.name), m.str(""), m.rtypeIface(ft), m.packV(rval{ft, &FuncV{Fn: fn}, 0}), I(int64(idx))}
}

func stripRecv(s *types.Signature) types.Type {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func (m *Machine) ints(xs []int) Val {
	o := m.newObj(I(int64(len(xs))*8), types.NewSlice(types.Typ[types.Int]))
	for i, x := range xs {
		o.cells[int64(i)*8] = cell{I(int64(x)), 8}
	}
	return SliceV{Ptr{o, I(0)}, I(int64(len(xs))), I(int64(len(xs)))}
}

func (m *Machine) fieldVal(st *types.Struct, i int) Val {
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	return AggV{m.str(f.Name()), m.str(pkg), m.rtypeIface(f.Type()), m.str(st.Tag(i)), I(m.offsets(st)[i]), m.ints([]int{i}), B(f.Embedded())}
}

func (m *Machine) zeroField() Val {
	return AggV{m.str(""), m.str(""), m.rtypeIface(nil), m.str(""), I(0), SliceV{nilPtr, I(0), I(0)}, tFalse}
}

func (m *Machine) mustStr(v Val, what string) string {
	s, ok := v.(StrV)
	if ok {
		if c, ok := m.conStr(s); ok {
			return c
		}
	}
	m.unsup("symbolic " + what)
	return ""
}

func (m *Machine) mustInt(v Val, what string) int {
	t := m.asInt2(v)
	if !t.small {
		m.unsup("symbolic " + what)
	}
	return int(t.i64)
}

// fieldByName as reflect: embedded fields are searched breadth first
func fieldByName(t types.Type, name string) ([]int, bool) {
	obj, idx, _ := types.LookupFieldOrMethod(t, false, nil, name)
	if v, ok := obj.(*types.Var); ok && v.IsField() {
		return idx, true
	}
	// unexported names need a package: search by hand
	type ent struct {
		t   types.Type
		idx []int
	}
	cur := []ent{{t, nil}}
	seen := map[types.Type]bool{}
	for len(cur) > 0 {
		var next []ent
		var found [][]int
		for _, e := range cur {
			st, ok := e.t.Underlying().(*types.Struct)
			if !ok || seen[e.t] {
				continue
			}
			seen[e.t] = true
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				id := append(append([]int{}, e.idx...), i)
				if f.Name() == name {
					found = append(found, id)
				}
				if f.Embedded() {
					ft := f.Type()
					if p, ok := ft.(*types.Pointer); ok {
						ft = p.Elem()
					}
					next = append(next, ent{ft, id})
				}
			}
		}
		if len(found) == 1 {
			return found[0], true
		}
		if len(found) > 1 {
			return nil, false
		}
		cur = next
	}
	return nil, false
}

// rtypeMethod is a method of reflect.Type
func (m *Machine) rtypeMethod(name string, args []Val) Val {
	t := m.typeArg(args[0])
	u := t.Underlying()
	panicKind := func() { m.goPanicRT("reflect: " + name + " of " + rtString(t)) }
	switch name {
	case "Kind":
		return I(int64(kindOfT(t)))
	case "Size":
		return I(m.sizeof(t))
	case "Bits":
		return I(8 * m.sizeof(t))
	case "Align", "FieldAlign":
		return I(m.p.sizes.Alignof(t))
	case "String":
		return m.str(rtString(t))
	case "Name":
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			s := rtString(x)
			if x.Obj().Pkg() != nil {
				s = strings.TrimPrefix(s, x.Obj().Pkg().Name()+".")
			}
			return m.str(s)
		case *types.Basic:
			if x.Kind() == types.UnsafePointer {
				return m.str("Pointer")
			}
			return m.str(x.Name())
		}
		return m.str("")
	case "PkgPath":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return m.str(n.Obj().Pkg().Path())
		}
		return m.str("")
	case "Elem":
		switch x := u.(type) {
		case *types.Pointer:
			return m.rtypeIface(x.Elem())
		case *types.Slice:
			return m.rtypeIface(x.Elem())
		case *types.Array:
			return m.rtypeIface(x.Elem())
		case *types.Map:
			return m.rtypeIface(x.Elem())
		case *types.Chan:
			return m.rtypeIface(x.Elem())
		}
		panicKind()
	case "Key":
		if x, ok := u.(*types.Map); ok {
			return m.rtypeIface(x.Key())
		}
		panicKind()
	case "Len":
		if x, ok := u.(*types.Array); ok {
			return I(x.Len())
		}
		panicKind()
	case "NumField":
		if x, ok := u.(*types.Struct); ok {
			return I(int64(x.NumFields()))
		}
		panicKind()
	case "Field":
		x, ok := u.(*types.Struct)
		if !ok {
			panicKind()
		}
		i := m.mustInt(args[1], "field index")
		if i < 0 || i >= x.NumFields() {
			m.goPanicRT("reflect: Field index out of bounds")
		}
		return m.fieldVal(x, i)
	case "FieldByIndex":
		s := args[1].(SliceV)
		n := m.mustInt(s.Len, "length")
		cur := t
		var r Val
		for i := 0; i < n; i++ {
			if i > 0 {
				if p, ok := cur.Underlying().(*types.Pointer); ok {
					cur = p.Elem()
				}
			}
			k := m.mustInt(m.load(Ptr{s.P.O, Add(s.P.Off, I(int64(8*i)))}, types.Typ[types.Int]), "index")
			st := cur.Underlying().(*types.Struct)
			r = m.fieldVal(st, k)
			cur = st.Field(k).Type()
		}
		return r
	case "FieldByName":
		x, ok := u.(*types.Struct)
		if !ok {
			panicKind()
		}
		idx, found := fieldByName(t, m.mustStr(args[1], "field name"))
		if !found {
			return TupV{m.zeroField(), tFalse}
		}
		cur := x
		for _, k := range idx[:len(idx)-1] {
			ft := cur.Field(k).Type().Underlying()
			if p, ok := ft.(*types.Pointer); ok {
				ft = p.Elem().Underlying()
			}
			cur = ft.(*types.Struct)
		}
		a := m.fieldVal(cur, idx[len(idx)-1]).(AggV)
		a[5] = m.ints(idx)
		return TupV{a, tTrue}
	case "NumMethod":
		return I(int64(len(m.methods(t))))
	case "Method":
		ms := m.methods(t)
		i := m.mustInt(args[1], "method index")
		if i < 0 || i >= len(ms) {
			m.goPanicRT("reflect: Method index out of range")
		}
		return m.methodVal(t, ms[i], i)
	case "MethodByName":
		n := m.mustStr(args[1], "method name")
		for i, mi := range m.methods(t) {
			if mi.name == n {
				return TupV{m.methodVal(t, mi, i), tTrue}
			}
		}
		return TupV{AggV{m.str(""), m.str(""), m.rtypeIface(nil), m.packV(rval{}), I(0)}, tFalse}
	case "NumIn", "NumOut", "In", "Out", "IsVariadic":
		s, ok := u.(*types.Signature)
		if !ok {
			panicKind()
		}
		tup := s.Params()
		switch name {
		case "NumIn":
			return I(int64(tup.Len()))
		case "NumOut":
			return I(int64(s.Results().Len()))
		case "IsVariadic":
			return B(s.Variadic())
		case "Out":
			tup = s.Results()
		}
		i := m.mustInt(args[1], "parameter index")
		if i < 0 || i >= tup.Len() {
			m.goPanicRT("index out of range (parameter of a function type)")
		}
		return m.rtypeIface(tup.At(i).Type())
	case "Implements":
		o := m.typeArg(args[1])
		it, ok := o.Underlying().(*types.Interface)
		if !ok {
			m.goPanicRT("reflect: non-interface type passed to Type.Implements")
		}
		return B(types.Implements(t, it))
	case "AssignableTo":
		o := m.typeArg(args[1])
		return B(types.AssignableTo(t, o))
	case "ConvertibleTo":
		o := m.typeArg(args[1])
		return B(types.ConvertibleTo(t, o))
	case "Comparable":
		return B(types.Comparable(t))
	case "ChanDir":
	}
	m.unsup("reflect.Type." + name)
	return nil
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// rvElem is Value.Elem
func (m *Machine) rvElem(v rval) rval {
	switch u := v.t.Underlying().(type) {
	case *types.Interface:
		x := m.rvLoad(v).(IfaceV)
		r := m.rvOfIface(x)
		r.fl |= v.fl & flRO
		return r
	case *types.Pointer:
		p := m.asPtr(m.rvLoad(v))
		if p.O == nil {
			return rval{}
		}
		return rval{u.Elem(), p, v.fl&flRO | flIndir | flAddr}
	}
	m.goPanicRT("reflect: call of reflect.Value.Elem on " + kindOfT(v.t).String() + " Value")
	return rval{}
}

func (m *Machine) sliceVals(v Val) []Val {
	s := v.(SliceV)
	n := m.mustInt(s.Len, "number of arguments")
	et := m.p.byPth["reflect"].Type("Value").Type()
	var r []Val
	for i := 0; i < n; i++ {
		r = append(r, m.load(Ptr{s.P.O, Add(s.P.Off, I(int64(i)*m.sizeof(et)))}, et))
	}
	return r
}

func (m *Machine) mkSliceOf(et types.Type, vs []Val) Val {
	sz := m.sizeof(et)
	n := int64(len(vs))
	o := m.newObj(I(n*sz), types.NewSlice(et))
	for i, v := range vs {
		m.store(Ptr{o, I(int64(i) * sz)}, et, v)
	}
	return SliceV{Ptr{o, I(0)}, I(n), I(n)}
}

// rvCall is Value.Call
func (m *Machine) rvCall(v rval, in Val) Val {
	sig, ok := v.t.Underlying().(*types.Signature)
	if !ok {
		m.goPanicRT("reflect: call of Call on " + kindOfT(v.t).String() + " Value")
	}
	f, _ := m.rvLoad(v).(*FuncV)
	if f == nil {
		m.goPanicRT("reflect.Value.Call: call of nil function")
	}
	vals := m.sliceVals(in)
	n := sig.Params().Len()
	var args []Val
	if sig.Variadic() {
		if len(vals) < n-1 {
			m.goPanicRT("reflect: Call with too few input arguments")
		}
		for i := 0; i < n-1; i++ {
			args = append(args, m.assignConv(m.unpackV(vals[i]), sig.Params().At(i).Type(), "Call"))
		}
		et := sig.Params().At(n - 1).Type().(*types.Slice).Elem()
		var rest []Val
		for _, x := range vals[n-1:] {
			rest = append(rest, m.assignConv(m.unpackV(x), et, "Call"))
		}
		args = append(args, m.mkSliceOf(et, rest))
	} else {
		if len(vals) < n {
			m.goPanicRT("reflect: Call with too few input arguments")
		}
		if len(vals) > n {
			m.goPanicRT("reflect: Call with too many input arguments")
		}
		for i := range vals {
			args = append(args, m.assignConv(m.unpackV(vals[i]), sig.Params().At(i).Type(), "Call"))
		}
	}
	r := m.call(f, args, nil)
	vt := m.p.byPth["reflect"].Type("Value").Type()
	var out []Val
	switch sig.Results().Len() {
	case 0:
	case 1:
		out = []Val{m.packV(m.rvMake(sig.Results().At(0).Type(), r))}
	default:
		for i, x := range r.(TupV) {
			out = append(out, m.packV(m.rvMake(sig.Results().At(i).Type(), x)))
		}
	}
	return m.mkSliceOf(vt, out)
}

func (m *Machine) rvLen(v rval) *Term {
	switch x := m.rvLoad(v).(type) {
	case SliceV:
		return x.Len
	case StrV:
		return x.Len
	case *MapV:
		if x == nil {
			return I(0)
		}
		return I(int64(len(x.keys)))
	case AggV:
		if a, ok := v.t.Underlying().(*types.Array); ok {
			return I(a.Len())
		}
	case Ptr:
		if x.O == nil {
			if _, ok := v.t.Underlying().(*types.Map); ok {
				return I(0)
			}
		}
	}
	m.goPanicRT("reflect: call of reflect.Value.Len on " + kindOfT(v.t).String() + " Value")
	return nil
}

func (m *Machine) rvIsNil(v rval) *Term {
	if v.t == nil {
		m.goPanicRT("reflect: call of IsNil on zero Value")
	}
	switch v.t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Slice, *types.Interface:
	case *types.Basic:
		if v.t.Underlying().(*types.Basic).Kind() != types.UnsafePointer {
			m.goPanicRT("reflect: call of reflect.Value.IsNil on " + kindOfT(v.t).String() + " Value")
		}
	default:
		m.goPanicRT("reflect: call of reflect.Value.IsNil on " + kindOfT(v.t).String() + " Value")
	}
	switch x := m.rvLoad(v).(type) {
	case Ptr:
		if x.O == nil {
			return Eq(x.Off, I(0))
		}
		return tFalse
	case *MapV:
		return B(x == nil)
	case *FuncV:
		return B(x == nil)
	case SliceV:
		return m.sliceNil(x)
	case IfaceV:
		return B(x.T.O == nil)
	case *Poison:
		m.unsup("IsNil of " + x.why)
	}
	m.unsup("IsNil")
	return nil
}

func (m *Machine) rvSet(v rval, val Val) {
	if v.t == nil {
		m.goPanicRT("reflect: call of Set on zero Value")
	}
	if v.fl&flRO != 0 {
		m.goPanicRT("reflect.Set using value obtained using unexported field")
	}
	if v.fl&flAddr == 0 {
		m.goPanicRT("reflect.Set using unaddressable value")
	}
	m.store(m.asPtr(v.p), v.t, val)
}

func (m *Machine) rvKindPanic(v rval, name string) {
	k := "zero"
	if v.t != nil {
		k = kindOfT(v.t).String()
	}
	m.goPanicRT("reflect: call of reflect.Value." + name + " on " + k + " Value")
}

// rvConvert is Value.Convert
func (m *Machine) rvConvert(v rval, to types.Type) rval {
	if v.t == nil {
		m.rvKindPanic(v, "Convert")
	}
	if _, ok := to.Underlying().(*types.Interface); ok {
		return m.rvMake(to, m.assignConv(v, to, "Convert"))
	}
	if !types.ConvertibleTo(v.t, to) {
		m.goPanicRT("reflect.Value.Convert: value of type " + rtString(v.t) + " cannot be converted to type " + rtString(to))
	}
	r := m.rvMake(to, m.convert(v.t, to, m.rvLoad(v)))
	return r
}

func (m *Machine) rvField(v rval, i int) rval {
	st, ok := v.t.Underlying().(*types.Struct)
	if !ok {
		m.rvKindPanic(v, "Field")
	}
	if i < 0 || i >= st.NumFields() {
		m.goPanicRT("reflect: Field index out of range")
	}
	fl := v.fl & (flRO | flAddr | flIndir)
	if !st.Field(i).Exported() {
		fl |= flRO
	}
	if v.fl&flIndir == 0 {
		return rval{st.Field(i).Type(), v.p, fl}
	}
	p := m.asPtr(v.p)
	return rval{st.Field(i).Type(), Ptr{p.O, Add(p.Off, I(m.offsets(st)[i]))}, fl}
}

func (m *Machine) rvIndex(v rval, i *Term) rval {
	switch u := v.t.Underlying().(type) {
	case *types.Slice:
		s := m.rvLoad(v).(SliceV)
		if !m.decide(And(Le(I(0), i), Lt(i, s.Len))) {
			m.goPanicRT("reflect: slice index out of range")
		}
		return rval{u.Elem(), Ptr{s.P.O, Add(s.P.Off, Scale(i, bi(m.sizeof(u.Elem()))))}, v.fl&flRO | flIndir | flAddr}
	case *types.Array:
		if !m.decide(And(Le(I(0), i), Lt(i, I(u.Len())))) {
			m.goPanicRT("reflect: array index out of range")
		}
		if v.fl&flIndir != 0 {
			p := m.asPtr(v.p)
			return rval{u.Elem(), Ptr{p.O, Add(p.Off, Scale(i, bi(m.sizeof(u.Elem()))))}, v.fl & (flRO | flIndir | flAddr)}
		}
		return rval{u.Elem(), v.p, v.fl & flRO}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s := m.rvLoad(v).(StrV)
			if !m.decide(And(Le(I(0), i), Lt(i, s.Len))) {
				m.goPanicRT("reflect: string index out of range")
			}
			return m.rvMake(types.Typ[types.Uint8], m.byteAt(s, i))
		}
	}
	m.rvKindPanic(v, "Index")
	return rval{}
}

// valueMethod is a method of reflect.Value
func (m *Machine) valueMethod(name string, args []Val) (Val, bool) {
	if p, ok := args[0].(Ptr); ok { // pointer receiver wrapper
		args = append([]Val{m.load(p, m.p.byPth["reflect"].Type("Value").Type())}, args[1:]...)
	}
	v := m.unpackV(args[0])
	kind := reflect.Invalid
	if v.t != nil {
		kind = kindOfT(v.t)
	}
	need := func(ok bool) {
		if !ok {
			m.rvKindPanic(v, name)
		}
	}
	isInt := kind >= reflect.Int && kind <= reflect.Int64
	isUint := kind >= reflect.Uint && kind <= reflect.Uintptr
	isF := kind == reflect.Float32 || kind == reflect.Float64
	switch name {
	case "Kind":
		return I(int64(kind)), true
	case "IsValid":
		return B(v.t != nil), true
	case "Type":
		need(v.t != nil)
		return m.rtypeIface(v.t), true
	case "Elem":
		need(v.t != nil)
		return m.packV(m.rvElem(v)), true
	case "Interface":
		return m.rvIface(v), true
	case "CanInterface":
		return B(v.fl&flRO == 0), true
	case "CanAddr":
		return B(v.fl&flAddr != 0), true
	case "CanSet":
		return B(v.fl&(flAddr|flRO) == flAddr), true
	case "Addr":
		if v.fl&flAddr == 0 {
			m.goPanicRT("reflect.Value.Addr of unaddressable value")
		}
		return m.packV(rval{types.NewPointer(v.t), v.p, v.fl & flRO}), true
	case "UnsafeAddr":
		return m.asPtr(v.p), true
	case "Pointer", "UnsafePointer":
		need(v.t != nil)
		switch x := m.rvLoad(v).(type) {
		case Ptr:
			return x, true
		case SliceV:
			return x.P, true
		case *MapV:
			if x == nil {
				return nilPtr, true
			}
			return x, true
		case *FuncV:
			if x == nil {
				return nilPtr, true
			}
			return I(1 << 22), true
		}
	case "IsNil":
		return m.rvIsNil(v), true
	case "IsZero":
		need(v.t != nil)
		return m.valEq(v.t, m.rvLoad(v), v.t, m.zero(v.t)), true
	case "Set":
		x := m.unpackV(args[1])
		if v.t == nil {
			m.rvKindPanic(v, name)
		}
		m.rvSet(v, m.assignConv(x, v.t, "Set"))
		return nil, true
	case "OverflowInt", "OverflowUint":
		need(name == "OverflowInt" && isInt || name == "OverflowUint" && isUint)
		b, s := m.intKind(v.t)
		x := m.asInt2(args[1])
		return Not(Eq(Wrap(x, b, s), x)), true
	case "SetInt":
		need(isInt)
		b, s := m.intKind(v.t)
		m.rvSet(v, Wrap(m.asInt2(args[1]), b, s))
		return nil, true
	case "SetUint":
		need(isUint)
		b, s := m.intKind(v.t)
		m.rvSet(v, Wrap(m.asInt2(args[1]), b, s))
		return nil, true
	case "SetFloat":
		need(isF)
		m.rvSet(v, m.convert(types.Typ[types.Float64], v.t, args[1]))
		return nil, true
	case "SetString":
		need(kind == reflect.String)
		m.rvSet(v, args[1])
		return nil, true
	case "SetBool":
		need(kind == reflect.Bool)
		m.rvSet(v, args[1])
		return nil, true
	case "SetZero":
		m.rvSet(v, m.zero(v.t))
		return nil, true
	case "SetLen":
		need(kind == reflect.Slice)
		s := m.rvLoad(v).(SliceV)
		s.Len = m.asInt2(args[1])
		m.rvSet(v, s)
		return nil, true
	case "Int":
		need(isInt)
		return m.rvLoad(v), true
	case "Uint":
		need(isUint)
		return m.rvLoad(v), true
	case "Float":
		need(isF)
		return m.convert(v.t, types.Typ[types.Float64], m.rvLoad(v)), true
	case "Bool":
		need(kind == reflect.Bool)
		return m.rvLoad(v), true
	case "String":
		if kind == reflect.String {
			return m.rvLoad(v), true
		}
		if v.t == nil {
			return m.str("<invalid Value>"), true
		}
		return m.str("<" + rtString(v.t) + " Value>"), true
	case "Bytes":
		return m.rvLoad(v), true
	case "CanInt":
		return B(isInt), true
	case "CanUint":
		return B(isUint), true
	case "CanFloat":
		return B(isF), true
	case "Comparable":
		return B(v.t == nil || types.Comparable(v.t)), true
	case "Equal":
		w := m.unpackV(args[1])
		return m.valEq(v.t, m.rvLoad(v), w.t, m.rvLoad(w)), true
	case "Len":
		need(v.t != nil)
		return m.rvLen(v), true
	case "Cap":
		if s, ok := m.rvLoad(v).(SliceV); ok {
			return s.Cap, true
		}
		need(false)
	case "Index":
		need(v.t != nil)
		return m.packV(m.rvIndex(v, m.asInt2(args[1]))), true
	case "Slice":
		s, ok := m.rvLoad(v).(SliceV)
		if ok {
			lo, hi := m.asInt2(args[1]), m.asInt2(args[2])
			if !m.decide(And(Le(I(0), lo), Le(lo, hi), Le(hi, s.Cap))) {
				m.goPanicRT("reflect.Value.Slice: slice index out of bounds")
			}
			et := v.t.Underlying().(*types.Slice).Elem()
			r := SliceV{Ptr{s.P.O, Add(s.P.Off, Scale(lo, bi(m.sizeof(et))))}, Sub(hi, lo), Sub(s.Cap, lo)}
			return m.packV(m.rvMake(v.t, r)), true
		}
	case "NumField":
		need(kind == reflect.Struct)
		return I(int64(v.t.Underlying().(*types.Struct).NumFields())), true
	case "Field":
		need(v.t != nil)
		return m.packV(m.rvField(v, m.mustInt(args[1], "field index"))), true
	case "FieldByName":
		need(kind == reflect.Struct)
		idx, ok := fieldByName(v.t, m.mustStr(args[1], "field name"))
		if !ok {
			return m.packV(rval{}), true
		}
		for j, k := range idx {
			if j > 0 && kindOfT(v.t) == reflect.Ptr {
				v = m.rvElem(v)
				if v.t == nil {
					m.goPanicRT("reflect: indirection through nil pointer to embedded struct")
				}
			}
			v = m.rvField(v, k)
		}
		return m.packV(v), true
	case "MapIndex":
		mt, ok := v.t.Underlying().(*types.Map)
		need(ok)
		k := m.assignConv(m.unpackV(args[1]), mt.Key(), "MapIndex")
		x, found := m.mapGet(m.rvLoad(v), mt, k)
		if !found {
			return m.packV(rval{}), true
		}
		return m.packV(m.rvMake(mt.Elem(), x)), true
	case "SetMapIndex":
		mt, ok := v.t.Underlying().(*types.Map)
		need(ok)
		k := m.assignConv(m.unpackV(args[1]), mt.Key(), "SetMapIndex")
		e := m.unpackV(args[2])
		if e.t == nil {
			m.mapDelete(m.rvLoad(v), k)
			return nil, true
		}
		m.mapSet(m.rvLoad(v), k, m.assignConv(e, mt.Elem(), "SetMapIndex"))
		return nil, true
	case "MapKeys":
		mt, ok := v.t.Underlying().(*types.Map)
		need(ok)
		var ks []Val
		if mv := asMap(m, m.rvLoad(v)); mv != nil {
			for _, k := range mv.keys {
				ks = append(ks, m.packV(m.rvMake(mt.Key(), k)))
			}
		}
		return m.mkSliceOf(m.p.byPth["reflect"].Type("Value").Type(), ks), true
	case "Call":
		need(v.t != nil)
		return m.rvCall(v, args[1]), true
	case "NumMethod":
		need(v.t != nil)
		return I(int64(len(m.methods(v.t)))), true
	case "Method", "MethodByName":
		need(v.t != nil)
		ms := m.methods(v.t)
		i := -1
		if name == "Method" {
			i = m.mustInt(args[1], "method index")
		} else {
			n := m.mustStr(args[1], "method name")
			for j := range ms {
				if ms[j].name == n {
					i = j
				}
			}
			if i < 0 {
				return m.packV(rval{}), true
			}
		}
		if i < 0 || i >= len(ms) {
			m.goPanicRT("reflect: Method index out of range")
		}
		return m.packV(m.boundMethod(v, ms[i])), true
	case "Convert":
		return m.packV(m.rvConvert(v, m.typeArg(args[1]))), true
	case "CanConvert":
		return B(v.t != nil && types.ConvertibleTo(v.t, m.typeArg(args[1]))), true
	}
	return nil, false
}

func (m *Machine) boundMethod(v rval, mi methInfo) rval {
	recv := m.rvLoad(v)
	if mi.fn != nil { // interface
		i := recv.(IfaceV)
		if i.T.O == nil {
			m.goPanicRT("reflect: Method on nil interface value")
		}
		ft := stripRecv(mi.fn.Type().(*types.Signature))
		return rval{ft, &FuncV{Name: mi.name, Nat: func(m *Machine, args []Val) Val {
			fv, rc := m.findMethod(m.dynType(i), i, mi.fn)
			return m.call(fv, append([]Val{rc}, args...), nil)
		}}, 0}
	}
	fn := m.p.prog.MethodValue(mi.sel)
	ft := stripRecv(mi.sel.Obj().Type().(*types.Signature))
	return rval{ft, &FuncV{Name: mi.name, Nat: func(m *Machine, args []Val) Val {
		return m.callFn(fn, append([]Val{recv}, args...), nil)
	}}, 0}
}

// reflectFn is a function of package reflect
func (m *Machine) reflectFn(fn *ssa.Function, args []Val) (Val, bool) {
	if fn.Signature.Recv() != nil {
		rt := fn.Signature.Recv().Type().String()
		switch strings.TrimPrefix(rt, "*") {
		case "reflect.Value":
			return m.valueMethod(fn.Name(), args)
		case "reflect.rtype":
			if r := fn.Name(); r != "" {
				return m.rtypeMethod(r, args), true
			}
		}
		return nil, false
	}
	switch fn.Name() {
	case "TypeOf":
		i := args[0].(IfaceV)
		return m.rtypeIface(m.dynType(i)), true
	case "ValueOf":
		if p, ok := args[0].(*Poison); ok {
			m.unsup("ValueOf: " + p.why)
		}
		return m.packV(m.rvOfIface(args[0].(IfaceV))), true
	case "New":
		t := m.typeArg(args[0])
		if t == nil {
			m.goPanicRT("reflect: New(nil)")
		}
		return m.packV(rval{types.NewPointer(t), m.allocT(t), 0}), true
	case "NewAt":
		t := m.typeArg(args[0])
		return m.packV(rval{types.NewPointer(t), args[1], 0}), true
	case "Zero":
		t := m.typeArg(args[0])
		if t == nil {
			m.goPanicRT("reflect: Zero(nil)")
		}
		return m.packV(m.rvMake(t, m.zero(t))), true
	case "MakeMap", "MakeMapWithSize":
		t := m.typeArg(args[0])
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			m.goPanicRT("reflect.MakeMapWithSize of non-map type")
		}
		m.objSeq++
		return m.packV(rval{t, &MapV{id: m.objSeq, typ: mt, base: m.inBase}, 0}), true
	case "MakeSlice":
		t := m.typeArg(args[0])
		st, ok := t.Underlying().(*types.Slice)
		if !ok {
			m.goPanicRT("reflect.MakeSlice of non-slice type")
		}
		return m.packV(m.rvMake(t, m.makeSlice(st.Elem(), m.asInt2(args[1]), m.asInt2(args[2])))), true
	case "MakeFunc":
		t := m.typeArg(args[0])
		sig := t.Underlying().(*types.Signature)
		f := args[1].(*FuncV)
		vt := m.p.byPth["reflect"].Type("Value").Type()
		return m.packV(rval{t, &FuncV{Name: "MakeFunc", Nat: func(m *Machine, as []Val) Val {
			var in []Val
			for i, a := range as {
				in = append(in, m.packV(m.rvMake(sig.Params().At(i).Type(), a)))
			}
			out := m.sliceVals(m.call(f, []Val{m.mkSliceOf(vt, in)}, nil))
			switch sig.Results().Len() {
			case 0:
				return nil
			case 1:
				return m.assignConv(m.unpackV(out[0]), sig.Results().At(0).Type(), "MakeFunc")
			}
			var r TupV
			for i := range out {
				r = append(r, m.assignConv(m.unpackV(out[i]), sig.Results().At(i).Type(), "MakeFunc"))
			}
			return r
		}}, 0}), true
	case "SliceOf":
		return m.rtypeIface(types.NewSlice(m.typeArg(args[0]))), true
	case "MapOf":
		return m.rtypeIface(types.NewMap(m.typeArg(args[0]), m.typeArg(args[1]))), true
	case "PtrTo", "PointerTo":
		return m.rtypeIface(types.NewPointer(m.typeArg(args[0]))), true
	case "ArrayOf":
		return m.rtypeIface(types.NewArray(m.typeArg(args[1]), int64(m.mustInt(args[0], "array length")))), true
	case "Indirect":
		v := m.unpackV(args[0])
		if v.t == nil || kindOfT(v.t) != reflect.Ptr {
			return args[0], true
		}
		return m.packV(m.rvElem(v)), true
	case "Copy":
		d, s := m.unpackV(args[0]), m.unpackV(args[1])
		dv, ok := m.rvLoad(d).(SliceV)
		if !ok {
			return nil, false
		}
		et := d.t.Underlying().(*types.Slice).Elem()
		var sp Ptr
		var sl *Term
		switch x := m.rvLoad(s).(type) {
		case SliceV:
			sp, sl = x.P, x.Len
		case StrV:
			sp, sl = x.P, x.Len
		default:
			return nil, false
		}
		n := dv.Len
		if !m.decide(Le(dv.Len, sl)) {
			n = sl
		}
		m.copyMem(dv.P, sp, n, et)
		return n, true
	case "Append":
		d := m.unpackV(args[0])
		et := d.t.Underlying().(*types.Slice).Elem()
		var xs []Val
		for _, x := range m.sliceVals(args[1]) {
			xs = append(xs, m.assignConv(m.unpackV(x), et, "Append"))
		}
		return m.packV(m.rvMake(d.t, m.appendTo(d.t, m.rvLoad(d).(SliceV), m.mkSliceOf(et, xs)))), true
	case "AppendSlice":
		d, s := m.unpackV(args[0]), m.unpackV(args[1])
		return m.packV(m.rvMake(d.t, m.appendTo(d.t, m.rvLoad(d).(SliceV), m.rvLoad(s)))), true
	case "DeepEqual":
		a, b := args[0].(IfaceV), args[1].(IfaceV)
		et := types.NewInterfaceType(nil, nil)
		return m.valEq(et, a, et, b), true
	case "StructOf":
		return m.structOf(args[0]), true
	case "init":
		return nil, true
	}
	return nil, false
}

func (m *Machine) structOf(v Val) Val {
	s := v.(SliceV)
	n := m.mustInt(s.Len, "number of fields")
	ft := m.p.byPth["reflect"].Type("StructField").Type()
	var vars []*types.Var
	var tags []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		a := m.load(Ptr{s.P.O, Add(s.P.Off, I(int64(i)*m.sizeof(ft)))}, ft).(AggV)
		name := m.mustStr(a[0], "field name")
		pkgPath := m.mustStr(a[1], "package")
		if name == "" {
			m.goPanicRT("reflect.StructOf: field " + strconv.Itoa(i) + " has no name")
		}
		if !validFieldName(name) {
			m.goPanicRT("reflect.StructOf: field " + strconv.Itoa(i) + " has invalid name")
		}
		if a[2].(IfaceV).T.O == nil {
			m.goPanicRT("reflect.StructOf: field " + strconv.Itoa(i) + " has no type")
		}
		t := m.typeArg(a[2])
		exp := name[0] >= 'A' && name[0] <= 'Z'
		if !exp && pkgPath == "" {
			m.goPanicRT("reflect.StructOf: field \"" + name + "\" is unexported but missing PkgPath")
		}
		if seen[name] && name != "_" {
			m.goPanicRT("reflect.StructOf: duplicate field " + name)
		}
		seen[name] = true
		var pkg *types.Package
		if pkgPath != "" {
			if p := m.p.byPth[pkgPath]; p != nil {
				pkg = p.Pkg
			} else {
				pkg = types.NewPackage(pkgPath, pkgPath[strings.LastIndex(pkgPath, "/")+1:])
			}
		}
		emb := a[6] == tTrue
		if emb {
			// reflect.StructOf cannot embed some types with methods
			if kindOfT(t) == reflect.Ptr || kindOfT(t) == reflect.Struct {
				if len(m.methods(t)) > 0 && i > 0 {
					m.goPanicRT("reflect: embedded type with methods not implemented if type is not first field")
				}
				if len(m.methods(t)) > 0 && n > 1 && kindOfT(t) == reflect.Ptr {
					m.goPanicRT("reflect: embedded type with methods not implemented if there is more than one field")
				}
			}
		}
		vars = append(vars, types.NewField(0, pkg, name, t, emb))
		tags = append(tags, m.mustStr(a[3], "tag"))
	}
	return m.rtypeIface(types.NewStruct(vars, tags))
}

func validFieldName(s string) bool {
	for i, c := range s {
		if i == 0 && !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c > 127) {
			return false
		}
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c > 127) {
			return false
		}
	}
	return len(s) > 0
}
