package main

import (
	"fmt"
	"go/types"
	"html"
	"math"
	"math/big"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(m *Machine, fn *ssa.Function, args []Val) (Val, bool)

// intrinsic finds the engine's own implementation of a function
func (m *Machine) intrinsic(fn *ssa.Function) intrinsicFn {
	if m.intrK[fn] {
		return m.intr[fn]
	}
	m.intrK[fn] = true
	in := m.findIntrinsic(fn)
	if in != nil {
		m.intr[fn] = in
	}
	return in
}

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	return ""
}

func (m *Machine) findIntrinsic(fn *ssa.Function) intrinsicFn {
	path := pkgOf(fn)
	name := fn.String()
	if fn.Synthetic != "" && fn.Pkg == nil && !strings.HasPrefix(path, "reflect") {
		return nil
	}
	if in, ok := fixedIntr[name]; ok {
		return in
	}
	switch path {
	case specPath:
		if in, ok := specIntr[fn.Name()]; ok && fn.Signature.Recv() == nil {
			return in
		}
	case "reflect":
		if fn.Signature.Recv() != nil {
			r := strings.TrimPrefix(fn.Signature.Recv().Type().String(), "*")
			if r == "reflect.StructTag" || r == "reflect.StructField" || r == "reflect.Method" || r == "reflect.ValueError" || r == "reflect.Kind" {
				if r == "reflect.Kind" {
					return func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
						k := m.asInt2(args[0])
						if !k.small {
							return nil, false
						}
						return m.str(reflect.Kind(k.i64).String()), true
					}
				}
				return nil
			}
		}
		return func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			v, ok := m.reflectFn(fn, args)
			if !ok {
				m.unsup("reflect function " + fn.String())
			}
			return v, true
		}
	case "math":
		if fn.Signature.Recv() == nil {
			return mathIntr
		}
	case "unicode", "strings", "strconv", "html", "unicode/utf8":
		if fn.Signature.Recv() == nil && fn.Object() != nil && fn.Object().Exported() {
			return stdIntr
		}
	case "fmt":
		if fn.Signature.Recv() == nil {
			switch fn.Name() {
			case "Sprintf", "Errorf", "Sprint", "Sprintln":
				return fmtIntr
			case "Println", "Printf", "Print":
				return func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
					return TupV{I(0), IfaceV{nilPtr, nilPtr}}, true
				}
			}
		}
	case "encoding/json":
		if fn.Signature.Recv() == nil && fn.Name() == "Marshal" {
			return jsonIntr
		}
	case "internal/race", "internal/msan", "internal/asan", "internal/godebug":
		if fn.Signature.Results().Len() == 0 {
			return func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) { return nil, true }
		}
		return func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) { return m.zeroResult(fn), true }
	}
	return nil
}

func retVoid(m *Machine, fn *ssa.Function, args []Val) (Val, bool) { return nil, true }

type lockKey struct {
	o   *Obj
	off *Term
}

func (m *Machine) lockState(p Ptr) (map[lockKey]int, lockKey) {
	m.checkNil(p)
	l, ok := m.extra["locks"].(map[lockKey]int)
	if !ok {
		l = map[lockKey]int{}
		m.extra["locks"] = l
	}
	return l, lockKey{p.O, p.Off}
}

func lockOp(mode string) intrinsicFn {
	return func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
		if m.inBase {
			return nil, true
		}
		l, k := m.lockState(m.asPtr(args[0]))
		switch mode {
		case "lock":
			if l[k] != 0 {
				m.fault("deadlock: a mutex is locked while it is held")
			}
			l[k] = -1
		case "unlock":
			if l[k] != -1 {
				m.fault("unlock of an unlocked mutex")
			}
			l[k] = 0
		case "rlock":
			if l[k] < 0 {
				m.fault("deadlock: a mutex is locked for reading while it is held")
			}
			l[k]++
		case "runlock":
			if l[k] <= 0 {
				m.fault("read unlock of an unlocked mutex")
			}
			l[k]--
		}
		return nil, true
	}
}

var fixedIntr map[string]intrinsicFn

func init() {
	fixedIntr = map[string]intrinsicFn{
		"(*sync.Mutex).Lock":      lockOp("lock"),
		"(*sync.Mutex).Unlock":    lockOp("unlock"),
		"(*sync.RWMutex).Lock":    lockOp("lock"),
		"(*sync.RWMutex).Unlock":  lockOp("unlock"),
		"(*sync.RWMutex).RLock":   lockOp("rlock"),
		"(*sync.RWMutex).RUnlock": lockOp("runlock"),
		"(*sync.Pool).Get":        poolGet,
		"(*sync.Pool).Put":        poolPut,
		"runtime.KeepAlive":       retVoid,
		"runtime.SetFinalizer":    retVoid,
		"runtime.GC":              retVoid,
		"internal/abi.NoEscape":   func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) { return args[0], true },
		"internal/abi.Escape":     func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) { return args[0], true },
		"strings.noescape":        func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) { return args[0], true },
		"internal/bytealg.MakeNoZero": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			n := m.asInt2(args[0])
			return m.makeSlice(types.Typ[types.Uint8], n, n), true
		},
		"internal/bytealg.IndexByteString": byteIndex,
		"internal/bytealg.IndexByte":       byteIndex,
		"internal/bytealg.CountString":     byteIndex,
		"internal/bytealg.Count":           byteIndex,
		"internal/bytealg.Equal": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			a, b := args[0].(SliceV), args[1].(SliceV)
			return m.strEq(StrV{a.P, a.Len}, StrV{b.P, b.Len}), true
		},
		"bytes.Equal": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			a, b := args[0].(SliceV), args[1].(SliceV)
			return m.strEq(StrV{a.P, a.Len}, StrV{b.P, b.Len}), true
		},
		"bytes.HasPrefix": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			a, b := args[0].(SliceV), args[1].(SliceV)
			if !m.decide(Le(b.Len, a.Len)) {
				return tFalse, true
			}
			return m.strEq(StrV{a.P, b.Len}, StrV{b.P, b.Len}), true
		},
		"strings.HasPrefix": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			a, b := args[0].(StrV), args[1].(StrV)
			if !m.decide(Le(b.Len, a.Len)) {
				return tFalse, true
			}
			return m.strEq(StrV{a.P, b.Len}, b), true
		},
		"internal/bytealg.Compare":         nil,
		"sync/atomic.AddInt64":             atomicAdd,
		"sync/atomic.AddInt32":             atomicAdd,
		"sync/atomic.AddUint64":            atomicAdd,
		"sync/atomic.AddUint32":            atomicAdd,
		"sync/atomic.LoadInt64":            atomicLoad,
		"sync/atomic.LoadInt32":            atomicLoad,
		"sync/atomic.LoadUint32":           atomicLoad,
		"sync/atomic.LoadUint64":           atomicLoad,
		"sync/atomic.StoreInt64":           atomicStore,
		"sync/atomic.StoreInt32":           atomicStore,
		"sync/atomic.StoreUint32":          atomicStore,
		"sync/atomic.CompareAndSwapInt32":  atomicCAS,
		"sync/atomic.CompareAndSwapInt64":  atomicCAS,
		"sync/atomic.CompareAndSwapUint32": atomicCAS,
		"(*sync.Once).Do": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			p := m.asPtr(args[0])
			m.checkNil(p)
			t := types.Typ[types.Uint32]
			if m.load(p, t) == I(0) {
				m.store(p, t, I(1))
				if f, ok := args[1].(*FuncV); ok && f != nil {
					m.call(f, nil, nil)
				}
			}
			return nil, true
		},
	}
	delete(fixedIntr, "internal/bytealg.Compare")
	specIntr = map[string]intrinsicFn{
		"Fill":   specFill,
		"ghost":  specFill,
		"native": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) { return tFalse, true },
		"Assume": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			m.assumeC(m.boolArg(args[0]))
			return nil, true
		},
		"Assert":    specAssert,
		"AssertAll": specAssertAll,
		"AssumeAll": specAssumeAll,
		"Show": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			if os.Getenv("GOVC_SHOW") != "" {
				i := args[0].(IfaceV)
				if d := m.dynType(i); d != nil {
					v := m.ifaceVal(i, d)
					if s, ok := v.(StrV); ok {
						if b, ok := m.conStr(s); ok {
							fmt.Printf("  SHOW %q\n", b)
							return nil, true
						}
					}
					fmt.Printf("  SHOW %v %v\n", d, v)
				}
			}
			return nil, true
		},
		"Cover": specCover,
		"SameFloat": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			return Same(args[0].(*Term), args[1].(*Term)), true
		},
		"Invariant": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			m.invs = append(m.invs, args[0].(*FuncV))
			return nil, true
		},
		"HintAll":       specHintAll,
		"HintI":         specRel,
		"HintII":        specRel,
		"HintIB":        specRel,
		"MustTerminate": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) { m.vc.mustTerm = true; return nil, true },
		"UnrollScans": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			m.vc.unrollScans = m.mustInt(args[0].(*Term), "unroll")
			return nil, true
		},
		"Unroll": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			m.vc.unroll = m.mustInt(args[0].(*Term), "unroll")
			return nil, true
		},
		"Freeze":       specFreeze,
		"FreezeOthers": specFreezeOthers,
		"Thaw":         func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) { m.readOnly = nil; return nil, true },
		"And": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			return And(m.boolArg(args[0]), m.boolArg(args[1])), true
		},
		"Or": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			return Or(m.boolArg(args[0]), m.boolArg(args[1])), true
		},
		"Implies": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			return Or(Not(m.boolArg(args[0])), m.boolArg(args[1])), true
		},
		"Iff": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			return Iff(m.boolArg(args[0]), m.boolArg(args[1])), true
		},
		"IteInt": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
			return Ite(m.boolArg(args[0]), m.asInt2(args[1]), m.asInt2(args[2])), true
		},
		"Family":   specFamily,
		"Symbolic": func(m *Machine, fn *ssa.Function, args []Val) (Val, bool) { return tTrue, true },
	}
}

func (m *Machine) boolArg(v Val) *Term {
	t, ok := v.(*Term)
	if !ok || t.sort != SBool {
		if p, ok := v.(*Poison); ok {
			m.unsup("condition: " + p.why)
		}
		m.unsup(fmt.Sprintf("condition %T", v))
	}
	return t
}

func poolGet(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	p := m.asPtr(args[0])
	m.checkNil(p)
	k := fmt.Sprintf("pool%p/%d", p.O, p.Off.id)
	if items, ok := m.extra[k].([]Val); ok && len(items) > 0 {
		b := m.fresh("pool", SBool, nil, nil)
		if m.decide(b) {
			m.extra[k] = items[:len(items)-1]
			return items[len(items)-1], true
		}
	}
	// New is the last field
	t := m.p.byPth["sync"].Type("Pool").Type()
	st := t.Underlying().(*types.Struct)
	off := m.offsets(st)[st.NumFields()-1]
	f, _ := m.load(Ptr{p.O, Add(p.Off, I(off))}, st.Field(st.NumFields()-1).Type()).(*FuncV)
	if f == nil {
		return IfaceV{nilPtr, nilPtr}, true
	}
	return m.call(f, nil, nil), true
}

func poolPut(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	p := m.asPtr(args[0])
	m.checkNil(p)
	k := fmt.Sprintf("pool%p/%d", p.O, p.Off.id)
	items, _ := m.extra[k].([]Val)
	m.extra[k] = append(append([]Val{}, items...), args[1])
	return nil, true
}

func atomicType(fn *ssa.Function) types.Type {
	return fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
}

func (m *Machine) atomically(f func()) {
	saved := m.inAtomic
	m.inAtomic = true
	f()
	m.inAtomic = saved
}

func atomicAdd(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	t := atomicType(fn)
	b, s := m.intKind(t)
	v := m.wrap(Add(m.asInt2(m.load(m.asPtr(args[0]), t)), m.asInt2(args[1])), b, s)
	m.atomically(func() { m.store(m.asPtr(args[0]), t, v) })
	return v, true
}
func atomicLoad(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	return m.load(m.asPtr(args[0]), atomicType(fn)), true
}
func atomicStore(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	m.atomically(func() { m.store(m.asPtr(args[0]), atomicType(fn), args[1]) })
	return nil, true
}
func atomicCAS(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	t := atomicType(fn)
	if m.decide(Eq(m.asInt2(m.load(m.asPtr(args[0]), t)), m.asInt2(args[1]))) {
		m.atomically(func() { m.store(m.asPtr(args[0]), t, args[2]) })
		return tTrue, true
	}
	return tFalse, true
}

// byteIndex replaces assembly by the equivalent loops in the specification package
func byteIndex(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	s, ok := args[0].(StrV)
	if !ok {
		b := args[0].(SliceV)
		s = StrV{b.P, b.Len}
	}
	c := m.asInt2(args[1])
	isCount := strings.HasPrefix(fn.Name(), "Count")
	if cs, ok := m.conStr(s); ok && c.small {
		if isCount {
			return I(int64(strings.Count(cs, string(rune(c.i64)))) * b2i(c.i64 < 128)), true
		}
		return I(int64(strings.IndexByte(cs, byte(c.i64)))), true
	}
	name := "indexByte"
	if isCount {
		name = "countByte"
	}
	f := m.p.byPth[specPath].Func(name)
	return m.callFn(f, []Val{s, c}, nil), true
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// allConst turns arguments into Go values, if they are all known
func (m *Machine) allConst(fn *ssa.Function, args []Val) ([]reflect.Value, bool) {
	var out []reflect.Value
	ps := fn.Signature.Params()
	if ps.Len() != len(args) || fn.Signature.Variadic() {
		return nil, false
	}
	for i, a := range args {
		v, ok := m.goValue(ps.At(i).Type(), a)
		if !ok {
			return nil, false
		}
		out = append(out, v)
	}
	return out, true
}

func (m *Machine) goValue(t types.Type, a Val) (reflect.Value, bool) {
	switch x := a.(type) {
	case StrV:
		s, ok := m.conStr(x)
		return reflect.ValueOf(s), ok
	case SliceV:
		st, ok := t.Underlying().(*types.Slice)
		if !ok || !x.Len.small || x.Len.i64 > 4096 {
			return reflect.Value{}, false
		}
		if !isString(st.Elem()) {
			return reflect.Value{}, false
		}
		var ss []string
		for i := int64(0); i < x.Len.i64; i++ {
			s, ok := m.conStr(m.load(Ptr{x.P.O, Add(x.P.Off, I(16*i))}, st.Elem()).(StrV))
			if !ok {
				return reflect.Value{}, false
			}
			ss = append(ss, s)
		}
		return reflect.ValueOf(ss), true
	case *Term:
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return reflect.Value{}, false
		}
		switch {
		case x.sort == SBool && x.lit():
			return reflect.ValueOf(x.isTrue()), true
		case x.op == OFConst:
			if x.sort == SF32 {
				return reflect.ValueOf(float32(x.f)), true
			}
			return reflect.ValueOf(x.f), true
		case x.sort == SInt && x.isConst():
			switch b.Kind() {
			case types.Int:
				return reflect.ValueOf(int(x.n.Int64())), true
			case types.Int64:
				return reflect.ValueOf(x.n.Int64()), true
			case types.Int32:
				return reflect.ValueOf(int32(x.n.Int64())), true
			case types.Uint8:
				return reflect.ValueOf(uint8(x.n.Int64())), true
			case types.Uint64:
				return reflect.ValueOf(x.n.Uint64()), true
			}
		}
	}
	return reflect.Value{}, false
}

func (m *Machine) fromGo(v reflect.Value) (Val, bool) {
	switch v.Kind() {
	case reflect.String:
		return m.strConst(v.String()), true
	case reflect.Bool:
		return B(v.Bool()), true
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return I(v.Int()), true
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return IB(new(big.Int).SetUint64(v.Uint())), true
	case reflect.Float64:
		return F(v.Float()), true
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.String {
			if v.IsNil() {
				return SliceV{nilPtr, I(0), I(0)}, true
			}
			var vs []Val
			for i := 0; i < v.Len(); i++ {
				vs = append(vs, m.strConst(v.Index(i).String()))
			}
			return m.mkSliceOf(types.Typ[types.String], vs), true
		}
	}
	return nil, false
}

// std functions run natively on known arguments, and are uninterpreted functions of unknown ones (trusted: they are functions)
var stdFuncs = map[string]interface{}{
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Title": strings.Title, "strings.Contains": strings.Contains,
	"strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.Split": strings.Split, "strings.Join": strings.Join, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.Replace": strings.Replace, "strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.HasSuffix": strings.HasSuffix, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.Repeat": strings.Repeat, "strings.Count": strings.Count, "strings.Fields": strings.Fields, "strings.EqualFold": strings.EqualFold, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.IndexByte": strings.IndexByte,
	"strings.ContainsAny": strings.ContainsAny, "strings.IndexAny": strings.IndexAny,
	"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatBool": strconv.FormatBool, "strconv.FormatFloat": strconv.FormatFloat, "strconv.Quote": strconv.Quote,
	"strconv.ParseInt": strconv.ParseInt, "strconv.ParseFloat": strconv.ParseFloat, "strconv.ParseBool": strconv.ParseBool, "strconv.Atoi": strconv.Atoi, "strconv.ParseUint": strconv.ParseUint, "strconv.FormatUint": strconv.FormatUint, "strconv.Unquote": strconv.Unquote,
	"html.EscapeString": html.EscapeString, "html.UnescapeString": html.UnescapeString,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.IsNumber": unicode.IsNumber, "unicode.IsPrint": unicode.IsPrint, "unicode.IsControl": unicode.IsControl,
}

// functions that are only ever interpreted when an argument is unknown
var stdInterp = map[string]bool{
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.IndexByte": true,
	"strconv.FormatBool": true,
}

func stdIntr(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	name := fn.String()
	f, ok := stdFuncs[name]
	if !ok {
		return nil, false
	}
	if vs, ok := m.allConst(fn, args); ok {
		rf := reflect.ValueOf(f)
		out := rf.Call(vs)
		if len(out) == 1 {
			return m.fromGo(out[0])
		}
		if len(out) == 2 && out[1].IsNil() {
			if v, ok := m.fromGo(out[0]); ok {
				return TupV{v, IfaceV{nilPtr, nilPtr}}, true
			}
		}
		if len(out) == 2 { // a failure: the error value is built natively
			v, ok := m.fromGo(out[0])
			if ok {
				return TupV{v, m.stdError(name, vs, out[1].Interface().(error))}, true
			}
		}
		return nil, false
	}
	if stdInterp[name] {
		return nil, false
	}
	switch name { // by their definition
	case "strconv.Itoa":
		name, args = "strconv.FormatInt", []Val{args[0], I(10)}
	case "strings.Contains":
		if v, ok := m.ufCall("strings.Index", m.p.byPth["strings"].Func("Index"), args); ok {
			return Le(I(0), v.(*Term)), true
		}
	case "strings.Replace":
		if args[3] == Val(I(-1)) {
			name, args = "strings.ReplaceAll", args[:3]
		}
	}
	return m.ufCall(name, fn, args)
}

func (m *Machine) stdError(name string, vs []reflect.Value, err error) Val {
	ne, ok := err.(*strconv.NumError)
	if !ok {
		m.unsup("error of " + name)
	}
	pkg := m.p.byPth["strconv"]
	g := "ErrSyntax"
	if ne.Err == strconv.ErrRange {
		g = "ErrRange"
	}
	gl := pkg.Var(g)
	m.readGlobal(gl)
	e := m.load(Ptr{m.global(gl), I(0)}, gl.Type().(*types.Pointer).Elem())
	t := pkg.Type("NumError").Type()
	p := m.allocT(t)
	m.store(p, t, AggV{m.str(ne.Func), m.str(ne.Num), e})
	return m.makeIface(types.NewPointer(t), p, true)
}

// identArgs names argument values by terms
func (m *Machine) identArgs(args []Val) ([]*Term, bool) {
	var ts []*Term
	for _, a := range args {
		switch x := a.(type) {
		case *Term:
			ts = append(ts, x)
		case StrV:
			ts = append(ts, m.strIdent(x))
		case SliceV:
			if !x.Len.small || x.P.O == nil {
				if x.Len == I(0) {
					ts = append(ts, I(0))
					continue
				}
				return nil, false
			}
			// a slice of strings
			if x.Len.i64 > 64 {
				return nil, false
			}
			ts = append(ts, x.Len)
			for i := int64(0); i < x.Len.i64; i++ {
				s, ok := m.load(Ptr{x.P.O, Add(x.P.Off, I(16*i))}, types.Typ[types.String]).(StrV)
				if !ok {
					return nil, false
				}
				ts = append(ts, m.strIdent(s))
			}
		default:
			return nil, false
		}
	}
	return ts, true
}

func (m *Machine) ufCall(name string, fn *ssa.Function, args []Val) (Val, bool) {
	for i, a := range args {
		if _, ok := a.(SliceV); ok {
			if st, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Slice); !ok || !isString(st.Elem()) {
				return nil, false
			}
		}
	}
	ts, ok := m.identArgs(args)
	if !ok {
		return nil, false
	}
	m.trusted[name]++
	m.splitSep = false
	if name == "strings.Split" { // with a separator, there is at least one part
		b, ok := m.conStr(args[1].(StrV))
		m.splitSep = ok && len(b) > 0
		m.splitArg = args[0]
	}
	res := fn.Signature.Results()
	var out []Val
	for i := 0; i < res.Len(); i++ {
		nm := fmt.Sprintf("%s.%d", name, i)
		v, ok := m.ufVal(nm, res.At(i).Type(), ts)
		if !ok {
			return nil, false
		}
		out = append(out, v)
	}
	if len(out) == 1 {
		return out[0], true
	}
	return TupV(out), true
}

func (m *Machine) ufVal(nm string, t types.Type, ts []*Term) (Val, bool) {
	switch {
	case isString(t):
		n := symNode(nm, leaf{0, 1, types.Typ[types.Uint8], lkInt}, ts...)
		return m.strOf(n, UF(nm+".len", SInt, big0, pow2(40), ts...)), true
	case isBool(t):
		return UF(nm, SBool, nil, nil, ts...), true
	case isFloat(t):
		if m.sizeof(t) == 4 {
			return UF(nm, SF32, nil, nil, ts...), true
		}
		return UF(nm, SF64, nil, nil, ts...), true
	case isInteger(t):
		b, s := m.intKind(t)
		if s {
			return UF(nm, SInt, bneg(pow2(b-1)), bsub(pow2(b-1), big1), ts...), true
		}
		return UF(nm, SInt, big0, bsub(pow2(b), big1), ts...), true
	}
	if t.String() == "error" {
		if m.decide(UF(nm+".ok", SBool, nil, nil, ts...)) {
			return IfaceV{nilPtr, nilPtr}, true
		}
		return m.newError(m.strOf(symNode(nm, leaf{0, 1, types.Typ[types.Uint8], lkInt}, ts...), UF(nm+".len", SInt, big0, pow2(40), ts...))), true
	}
	if st, ok := t.Underlying().(*types.Slice); ok && isString(st.Elem()) {
		low := big0
		if m.splitSep {
			low = big1
		}
		ln := UF(nm+".n", SInt, low, pow2(40), ts...)
		if m.splitSep && m.decide(Eq(ln, I(1))) { // no separator in the text: the only part is the text
			o := m.newArr(st.Elem(), I(1))
			m.store(Ptr{o, I(0)}, st.Elem(), m.splitArg)
			return SliceV{Ptr{o, I(0)}, I(1), I(1)}, true
		}
		return m.symSlice(st.Elem(), nm, ts, ln), true
	}
	return nil, false
}

func (m *Machine) newError(msg Val) Val {
	t := m.p.byPth["errors"].Type("errorString").Type()
	p := m.allocT(t)
	m.store(p, t, AggV{msg})
	return m.makeIface(types.NewPointer(t), p, true)
}

// symSlice is a slice whose elements are functions of the index
func (m *Machine) symSlice(et types.Type, name string, idxs []*Term, ln *Term) SliceV {
	o := m.newArr(et, ln)
	m.symArr(o, et, name, idxs)
	return SliceV{Ptr{o, I(0)}, ln, ln}
}

func (m *Machine) symArr(o *Obj, et types.Type, name string, idxs []*Term) {
	// per element, the words come from one symbolic value of the element type
	memo := map[*Term][]Val{}
	words := func(idx *Term) []Val {
		if w, ok := memo[idx]; ok {
			return w
		}
		v := m.symVal(et, name, append(append([]*Term{}, idxs...), idx))
		w := m.words(et, v, nil)
		memo[idx] = w
		return w
	}
	defer func() {
		for i, n := range o.arr.nodes {
			if n.kind == NFn {
				n.own = [2]int{o.id, i}
				if m.symNodes == nil {
					m.symNodes = map[[2]int]*Node{}
				}
				m.symNodes[n.own] = n
			}
		}
	}()
	for i, lf := range o.arr.leaves {
		i := i
		switch lf.kind {
		case lkPtr:
			nodeSeq++
			o.arr.nodes[i] = &Node{id: nodeSeq, kind: NFn, lf: lf, memo: map[*Term]Val{}, fn: func(m *Machine, idx *Term) Val { return words(idx)[i] }}
		default:
			if m.scalarLeaf(et, lf.off) {
				o.arr.nodes[i] = symNode(leafName(name, lf.off, len(idxs)), lf, idxs...)
			} else {
				nodeSeq++
				o.arr.nodes[i] = &Node{id: nodeSeq, kind: NFn, lf: lf, memo: map[*Term]Val{}, fn: func(m *Machine, idx *Term) Val { return words(idx)[i] }}
			}
		}
	}
}

func leafName(name string, off int64, depth int) string {
	return fmt.Sprintf("%s@%d", name, off)
}

// scalarLeaf says whether the word at off is a scalar of its own (not the length of a string)
func (m *Machine) scalarLeaf(t types.Type, off int64) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString == 0
	case *types.Struct:
		offs := m.offsets(u)
		for i := u.NumFields() - 1; i >= 0; i-- {
			if offs[i] <= off && m.sizeof(u.Field(i).Type()) > 0 {
				return m.scalarLeaf(u.Field(i).Type(), off-offs[i])
			}
		}
	case *types.Array:
		if s := m.sizeof(u.Elem()); s > 0 {
			return m.scalarLeaf(u.Elem(), off%s)
		}
	}
	return false
}

// symVal is an arbitrary value of a type; its parts are functions of idxs
func (m *Machine) symVal(t types.Type, name string, idxs []*Term) Val {
	return m.symAtOff(t, name, 0, idxs)
}

func (m *Machine) mkSym(nm string, s Sort, lo, hi *big.Int, idxs []*Term) *Term {
	if strings.HasPrefix(nm, "gh") && hi != nil && hi.BitLen() == 63 { // ghost integers are bounded: see GhostInts
		lo, hi = bneg(pow2(42)), pow2(42)
	}
	if len(idxs) == 0 {
		return Var(nm, s, lo, hi)
	}
	return UF(nm, s, lo, hi, idxs...)
}

const maxLen = 40 // lengths of arbitrary strings and slices are below 2^40

func (m *Machine) symAtOff(t types.Type, name string, off int64, idxs []*Term) Val {
	nm := leafName(name, off, len(idxs))
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return m.mkSym(nm, SBool, nil, nil, idxs)
		case u.Info()&types.IsInteger != 0:
			b, s := m.intKind(t)
			lo, hi := big0, bsub(pow2(b), big1)
			if s {
				lo, hi = bneg(pow2(b-1)), bsub(pow2(b-1), big1)
			}
			return m.mkSym(nm, SInt, lo, hi, idxs)
		case u.Kind() == types.Float32:
			return m.mkSym(nm, SF32, nil, nil, idxs)
		case u.Kind() == types.Float64:
			return m.mkSym(nm, SF64, nil, nil, idxs)
		case u.Info()&types.IsString != 0:
			ln := m.mkSym(nm+".len", SInt, big0, pow2(maxLen), idxs)
			return m.strOf(symNode(nm+".b", leaf{0, 1, types.Typ[types.Uint8], lkInt}, idxs...), ln)
		}
	case *types.Struct:
		r := make(AggV, u.NumFields())
		offs := m.offsets(u)
		for i := range r {
			r[i] = m.symAtOff(u.Field(i).Type(), name, off+offs[i], idxs)
		}
		return r
	case *types.Array:
		r := make(AggV, u.Len())
		sz := m.sizeof(u.Elem())
		for i := range r {
			r[i] = m.symAtOff(u.Elem(), name, off+int64(i)*sz, idxs)
		}
		return r
	case *types.Pointer:
		if m.decide(m.mkSym(nm+".nil", SBool, nil, nil, idxs)) {
			return nilPtr
		}
		p := m.allocT(u.Elem())
		m.store(p, u.Elem(), m.symAtOff(u.Elem(), nm+"*", 0, idxs))
		return p
	case *types.Slice:
		ln := m.mkSym(nm+".len", SInt, big0, pow2(maxLen), idxs)
		c := Add(ln, m.mkSym(nm+".spare", SInt, big0, pow2(maxLen), idxs))
		o := m.newArr(u.Elem(), c)
		m.symArr(o, u.Elem(), nm+".e", idxs)
		return SliceV{Ptr{o, I(0)}, ln, c}
	}
	m.unsup("arbitrary value of type " + t.String())
	return nil
}

// modelOf reads the value of an input out of a model; pc grows by what has been fixed
type modeler struct {
	m  *Machine
	pc []*Term
	n  int
}

func (d *modeler) vals(ts ...*Term) []string {
	r, v := d.m.s.check(d.pc, tTrue, ts)
	if r != Sat {
		panic(unsupported{"no model"})
	}
	return v
}

func (d *modeler) fix(t *Term) string {
	d.n++
	if d.n > 20000 {
		panic(unsupported{"model too large"})
	}
	if t.isConst() {
		return t.n.String()
	}
	v := d.vals(t)[0]
	switch t.sort {
	case SBool:
		if v == "true" {
			d.pc = append(d.pc, t)
		} else {
			d.pc = append(d.pc, Not(t))
		}
		return v
	case SInt:
		b, ok := parseInt(v)
		if !ok {
			panic(unsupported{"model value " + v})
		}
		d.pc = append(d.pc, Eq(t, IB(b)))
		return b.String()
	default:
		f, ok := parseFloat(v)
		if !ok {
			panic(unsupported{"model value " + v})
		}
		if t.sort == SF32 {
			d.pc = append(d.pc, Same(t, F32(float32(f))))
		} else {
			d.pc = append(d.pc, Same(t, F(f)))
		}
		if f != f {
			return "NaN"
		}
		return strconv.FormatFloat(f, 'x', -1, 64)
	}
}

func (d *modeler) length(t *Term) int64 {
	if !t.isConst() {
		for _, lim := range []int64{1, 3, 8, 40, 300} {
			if r, _ := d.m.s.check(d.pc, Le(t, I(lim)), nil); r == Sat {
				d.pc = append(d.pc, Le(t, I(lim)))
				break
			}
		}
	}
	n, err := strconv.ParseInt(d.fix(t), 10, 64)
	if err != nil || n > 5000 {
		panic(unsupported{"model with a long string or slice"})
	}
	return n
}

func (d *modeler) tree(t types.Type, name string, off int64, idxs []*Term) interface{} {
	m := d.m
	nm := leafName(name, off, len(idxs))
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			n := d.length(m.mkSym(nm+".len", SInt, big0, pow2(maxLen), idxs))
			bs := []string{}
			for i := int64(0); i < n; i++ {
				bs = append(bs, d.fix(m.symAt(symNode(nm+".b", leaf{0, 1, types.Typ[types.Uint8], lkInt}, idxs...), I(i)).(*Term)))
			}
			return map[string]interface{}{"s": bs}
		}
		return d.fix(m.symAtOff(t, name, off, idxs).(*Term))
	case *types.Struct:
		r := []interface{}{}
		offs := m.offsets(u)
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, d.tree(u.Field(i).Type(), name, off+offs[i], idxs))
		}
		return r
	case *types.Array:
		r := []interface{}{}
		sz := m.sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, d.tree(u.Elem(), name, off+i*sz, idxs))
		}
		return r
	case *types.Pointer:
		if d.fix(m.mkSym(nm+".nil", SBool, nil, nil, idxs)) == "true" {
			return map[string]interface{}{"p": nil}
		}
		return map[string]interface{}{"p": d.tree(u.Elem(), nm+"*", 0, idxs)}
	case *types.Slice:
		n := d.length(m.mkSym(nm+".len", SInt, big0, pow2(maxLen), idxs))
		r := []interface{}{}
		for i := int64(0); i < n; i++ {
			r = append(r, d.tree(u.Elem(), nm+".e", 0, append(append([]*Term{}, idxs...), I(i))))
		}
		spare := int64(0)
		if v, err := strconv.ParseInt(d.fix(m.mkSym(nm+".spare", SInt, big0, pow2(maxLen), idxs)), 10, 64); err == nil {
			spare = v
		}
		if spare > 100 {
			spare = 100
		}
		return map[string]interface{}{"e": r, "c": spare}
	}
	panic(unsupported{"model of " + t.String()})
}

// specFill makes *p an arbitrary value
func specFill(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	i := args[0].(IfaceV)
	d := m.dynType(i)
	pt, ok := d.Underlying().(*types.Pointer)
	if !ok {
		m.unsup("Fill needs a pointer")
	}
	m.symSeq["in"]++
	name := fmt.Sprintf("in%d", m.symSeq["in"])
	if fn.Name() == "ghost" {
		m.symSeq["gh"]++
		name = fmt.Sprintf("gh%d", m.symSeq["gh"])
	} else {
		m.inputs = append(m.inputs, input{typ: pt.Elem(), name: name})
	}
	m.store(m.asPtr(i.D), pt.Elem(), m.symVal(pt.Elem(), name, nil))
	return nil, true
}

func specAssert(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	m.assertC(m.boolArg(args[0]), m.mustStr(args[1], "obligation name"))
	return nil, true
}

func specCover(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	m.vc.covers[m.mustStr(args[0], "name")] = true
	return nil, true
}

func specAssertAll(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	lo, hi, name := m.asInt2(args[0]), m.asInt2(args[1]), m.mustStr(args[3], "obligation name")
	o := m.vc.get(name)
	o.checks++
	k := m.fresh("ak", SInt, bneg(pow2(63)), pow2(63))
	rng := And(Le(lo, k), Lt(k, hi))
	if r, _ := m.s.check(m.pc, Lt(lo, hi), nil); r == Unsat {
		return nil, true
	}
	t, ok := m.evalUnder(rng, args[2].(*FuncV), []Val{k})
	if !ok {
		m.unsup("AssertAll: " + m.lastPure)
	}
	if !m.vc.learning {
		q := []*Term{rng, Not(t)}
		q = append(q, m.instAt(k)...)
		r := m.refute(q)
		switch r {
		case Sat:
			m.fail(o, "the solver found values for which it is false: "+Not(t).str(5), append(append([]*Term{}, m.pc...), q...))
			panic(pathEnd{"assertion failed"})
		case Unknown:
			if o.status == "discharged" {
				o.status, o.detail = "undecided", "solver gave up"
			}
		}
	}
	if !strings.HasPrefix(name, "ghost ") {
		m.foralls = append(m.foralls, &forall{lo: lo, hi: hi, k: k, body: t})
	}
	return nil, true
}

// evalUnder evaluates a closure assuming a condition
func (m *Machine) evalUnder(c *Term, f *FuncV, args []Val) (*Term, bool) {
	had := m.pcSet[c]
	n := len(m.pc)
	saved := map[*Term]bool{}
	for k := range m.pcSet {
		saved[k] = true
	}
	m.addPC(c)
	t, ok := m.evalPure(f, args)
	m.pc = m.pc[:n]
	m.pcSet = saved
	_ = had
	return t, ok
}

func specAssumeAll(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	lo, hi := m.asInt2(args[0]), m.asInt2(args[1])
	k := m.fresh("ak", SInt, bneg(pow2(63)), pow2(63))
	if r, _ := m.s.check(m.pc, Lt(lo, hi), nil); r == Unsat {
		return nil, true
	}
	t, ok := m.evalUnder(And(Le(lo, k), Lt(k, hi)), args[2].(*FuncV), []Val{k})
	if !ok {
		m.unsup("AssumeAll: " + m.lastPure)
	}
	m.foralls = append(m.foralls, &forall{lo: lo, hi: hi, k: k, body: t})
	return nil, true
}

func specRel(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	m.rels = append(m.rels, relHint{fn.Name(), args[0].(*FuncV)})
	return nil, true
}

func specHintAll(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	m.hints = append(m.hints, hint{m.asInt2(args[0]), m.asInt2(args[1]), args[2].(*FuncV)})
	return nil, true
}

// specFamily fills *p ([]F for a func type F) with n closures: element i calls f(i, args...)
func specFamily(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	iv := args[0].(IfaceV)
	n := m.asInt2(args[1])
	mkv := args[2].(IfaceV) // func(i int) F, as interface
	pt := m.dynType(iv).Underlying().(*types.Pointer)
	st := pt.Elem().Underlying().(*types.Slice)
	mk, ok := mkv.D.(*FuncV)
	if !ok {
		m.unsup("Family needs a function")
	}
	o := m.newArr(st.Elem(), n)
	nodeSeq++
	o.arr.nodes[0] = &Node{id: nodeSeq, kind: NFn, lf: o.arr.leaves[0], memo: map[*Term]Val{}, fn: func(m *Machine, idx *Term) Val { return m.call(mk, []Val{idx}, nil) }}
	m.store(m.asPtr(iv.D), pt.Elem(), SliceV{Ptr{o, I(0)}, n, n})
	return nil, true
}

// specFreeze makes everything reachable from the values read-only, under the name of an obligation
func specFreeze(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	name := m.mustStr(args[0], "obligation name")
	m.vc.get(name).checks++
	if m.readOnly == nil {
		m.readOnly = map[interface{}]string{}
	}
	et := types.NewInterfaceType(nil, nil)
	s := args[1].(SliceV)
	n := m.mustInt(s.Len, "number of values")
	for i := 0; i < n; i++ {
		m.freeze(m.load(Ptr{s.P.O, Add(s.P.Off, I(int64(16*i)))}, et), name)
	}
	return nil, true
}

func (m *Machine) freeze(v Val, name string) {
	switch x := v.(type) {
	case Ptr:
		if x.O == nil || x.O.rtype != nil || x.O.itab != nil || x.O.bytes != "" {
			return
		}
		if _, ok := m.readOnly[x.O]; ok {
			return
		}
		m.readOnly[x.O] = name
		for _, c := range x.O.cells {
			m.freeze(c.v, name)
		}
		if x.O.arr != nil {
			for _, n := range x.O.arr.nodes {
				for ; n != nil; n = n.prev {
					if n.val != nil {
						m.freeze(n.val, name)
					}
				}
			}
		}
	case StrV:
		m.freeze(x.P, name)
	case SliceV:
		m.freeze(x.P, name)
	case IfaceV:
		m.freeze(x.D, name)
	case *FuncV:
		if x != nil {
			for _, b := range x.Binds {
				m.freeze(b, name)
			}
		}
	case *MapV:
		if x == nil {
			return
		}
		if _, ok := m.readOnly[x]; ok {
			return
		}
		m.readOnly[x] = name
		for i := range x.keys {
			m.freeze(x.keys[i], name)
			m.freeze(x.vals[i], name)
		}
	case AggV:
		for _, y := range x {
			m.freeze(y, name)
		}
	}
}

// specFreezeOthers makes everything that exists now, and is not reachable from the values, read-only; what is frozen
// already stays frozen and is not followed
func specFreezeOthers(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	name := m.mustStr(args[0], "obligation name")
	m.vc.get(name).checks++
	old := m.readOnly
	m.readOnly = map[interface{}]string{}
	for k, v := range old {
		m.readOnly[k] = v
	}
	et := types.NewInterfaceType(nil, nil)
	s := args[1].(SliceV)
	for i, n := 0, m.mustInt(s.Len, "number of values"); i < n; i++ {
		m.freeze(m.load(Ptr{s.P.O, Add(s.P.Off, I(int64(16*i)))}, et), "")
	}
	allowed := m.readOnly
	m.readOnly = map[interface{}]string{}
	for k, v := range old {
		m.readOnly[k] = v
	}
	ids := make([]int, 0, len(m.byID))
	for id := range m.byID {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := m.byID[id]
		if _, ok := allowed[o]; ok || o.rtype != nil || o.itab != nil || o.bytes != "" {
			continue
		}
		if _, ok := m.readOnly[o]; ok {
			continue
		}
		m.readOnly[o] = name
		for _, c := range o.cells {
			m.freezeMaps(c.v, name, allowed)
		}
		if o.arr != nil {
			for _, n := range o.arr.nodes {
				for ; n != nil; n = n.prev {
					if n.val != nil {
						m.freezeMaps(n.val, name, allowed)
					}
				}
			}
		}
	}
	return nil, true
}

// freezeMaps freezes the maps a value of an object contains
func (m *Machine) freezeMaps(v Val, name string, allowed map[interface{}]string) {
	switch x := v.(type) {
	case IfaceV:
		m.freezeMaps(x.D, name, allowed)
	case *FuncV:
		if x != nil {
			for _, b := range x.Binds {
				m.freezeMaps(b, name, allowed)
			}
		}
	case *MapV:
		if x == nil {
			return
		}
		if _, ok := allowed[x]; ok {
			return
		}
		if _, ok := m.readOnly[x]; ok {
			return
		}
		m.readOnly[x] = name
		for i := range x.keys {
			m.freezeMaps(x.keys[i], name, allowed)
			m.freezeMaps(x.vals[i], name, allowed)
		}
	case AggV:
		for _, y := range x {
			m.freezeMaps(y, name, allowed)
		}
	}
}

func (m *Machine) checkRO(o *Obj, off int64) {
	if len(m.readOnly) == 0 || m.inAtomic {
		return
	}
	if name, ok := m.readOnly[o]; ok {
		m.frameFail(name, "write to "+o.describe())
	}
}

func (m *Machine) checkROMap(x *MapV) {
	if len(m.readOnly) == 0 {
		return
	}
	if name, ok := m.readOnly[x]; ok {
		m.frameFail(name, "write to a map")
	}
}

func (m *Machine) frameFail(name, what string) {
	o := m.vc.get(name)
	o.checks++
	if !m.vc.learning {
		m.fail(o, what, m.pc)
	}
	panic(pathEnd{"frame"})
}

// math

func mathIntr(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	n := fn.Name()
	if len(args) == 0 {
		return nil, false
	}
	t0, ok := args[0].(*Term)
	if !ok {
		return nil, false
	}
	switch n {
	case "Float64bits":
		if t0.op == OFConst {
			return IB(new(big.Int).SetUint64(math.Float64bits(t0.f))), true
		}
		return UF("fbits", SInt, big0, bsub(pow2(64), big1), t0), true
	case "Float32bits":
		if t0.op == OFConst {
			return I(int64(math.Float32bits(float32(t0.f)))), true
		}
		return UF("fbits", SInt, big0, bsub(pow2(32), big1), t0), true
	case "Float64frombits":
		if t0.isConst() {
			return F(math.Float64frombits(t0.n.Uint64())), true
		}
		return UF("bitsf", SF64, nil, nil, t0), true
	case "Inf":
		if t0.small {
			return F(math.Inf(int(t0.i64))), true
		}
	case "IsNaN":
		return Not(FCmp(OFEq, t0, t0)), true
	}
	if t0.sort != SF64 {
		return nil, false
	}
	f1, ok1 := math1[n]
	f2, ok2 := math2[n]
	switch {
	case ok1:
		if t0.op == OFConst {
			return F(f1(t0.f)), true
		}
	case ok2:
		t1 := args[1].(*Term)
		if t0.op == OFConst && t1.op == OFConst {
			return F(f2(t0.f, t1.f)), true
		}
	default:
		return nil, false
	}
	return m.ufCall("math."+n, fn, args)
}

var math1 = map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round, "Sqrt": math.Sqrt, "Abs": math.Abs, "Log": math.Log, "Exp": math.Exp, "Log2": math.Log2, "Log10": math.Log10, "Sin": math.Sin, "Cos": math.Cos, "RoundToEven": math.RoundToEven}
var math2 = map[string]func(a, b float64) float64{"Max": math.Max, "Min": math.Min, "Pow": math.Pow, "Mod": math.Mod}

// fmt: known arguments are formatted, otherwise the text is an opaque function of the arguments
func fmtIntr(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	format := ""
	rest := args[0]
	if fn.Name() == "Sprintf" || fn.Name() == "Errorf" {
		f, ok := m.conStr(args[0].(StrV))
		if !ok {
			f = "?"
		}
		format = f
		rest = args[1]
	}
	et := types.NewInterfaceType(nil, nil)
	s := rest.(SliceV)
	n := m.mustInt(s.Len, "number of arguments")
	var vals []IfaceV
	for i := 0; i < n; i++ {
		v, ok := m.load(Ptr{s.P.O, Add(s.P.Off, I(int64(16*i)))}, et).(IfaceV)
		if !ok {
			v = IfaceV{nilPtr, nilPtr}
		}
		vals = append(vals, v)
	}
	var gos []interface{}
	var ids []*Term
	all := true
	for _, v := range vals {
		g, id, ok := m.fmtArg(v)
		if !ok {
			all = false
		}
		gos = append(gos, g)
		ids = append(ids, id)
	}
	var text StrV
	if all {
		var out string
		switch fn.Name() {
		case "Sprint":
			out = fmt.Sprint(gos...)
		case "Sprintln":
			out = fmt.Sprintln(gos...)
		default:
			out = fmt.Sprintf(strings.ReplaceAll(format, "%w", "%v"), gos...)
		}
		text = m.strConst(out)
	} else {
		nm := "fmt:" + fn.Name() + ":" + format
		if fn.Name() == "Sprint" && n == 1 { // by its definition
			nm = "fmt:Sprintf:%v"
		}
		m.trusted["fmt."+fn.Name()]++
		text = m.strOf(symNode(nm, leaf{0, 1, types.Typ[types.Uint8], lkInt}, ids...), UF(nm+".len", SInt, big0, pow2(40), ids...))
	}
	if fn.Name() != "Errorf" {
		return text, true
	}
	if k := strings.Index(format, "%w"); k >= 0 {
		// which argument
		a := 0
		for i := 0; i < k; i++ {
			if format[i] == '%' {
				if format[i+1] == '%' {
					i++
					continue
				}
				a++
			}
		}
		if a < len(vals) && vals[a].T.O != nil {
			d := m.dynType(vals[a])
			if types.Implements(d, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
				t := m.p.byPth["fmt"].Type("wrapError").Type()
				p := m.allocT(t)
				m.store(p, t, AggV{text, m.ifaceAs(vals[a], types.Universe.Lookup("error").Type())})
				return m.makeIface(types.NewPointer(t), p, true), true
			}
		}
	}
	return m.newError(text), true
}

// json.Marshal is trusted to be a function of the value, followed through pointers
func jsonIntr(m *Machine, fn *ssa.Function, args []Val) (Val, bool) {
	v := args[0].(IfaceV)
	ts, ok := []*Term{I(0)}, true
	if d := m.dynType(v); d != nil {
		ts, ok = m.deepIdent(d, m.ifaceVal(v, d), nil, 0)
		if !ok {
			return nil, false
		}
		ts = append(ts, I(int64(m.rtypeObj(d).id)))
	}
	m.trusted["encoding/json.Marshal"]++
	if !m.decide(UF("json.ok", SBool, nil, nil, ts...)) {
		return TupV{SliceV{nilPtr, I(0), I(0)}, m.newError(m.strOf(symNode("json.err", leaf{0, 1, types.Typ[types.Uint8], lkInt}, ts...), UF("json.err.len", SInt, big0, pow2(40), ts...)))}, true
	}
	return TupV{m.symSlice(types.Typ[types.Uint8], "json.text", ts, UF("json.len", SInt, big0, pow2(40), ts...)), IfaceV{nilPtr, nilPtr}}, true
}

// deepIdent names a value by terms, with what its pointers lead to
func (m *Machine) deepIdent(t types.Type, v Val, ts []*Term, depth int) ([]*Term, bool) {
	if depth > 8 {
		return nil, false
	}
	ok := true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := m.asPtr(v)
		if p.O == nil {
			return append(ts, I(0)), true
		}
		return m.deepIdent(u.Elem(), m.load(p, u.Elem()), append(ts, I(1)), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields() && ok; i++ {
			ts, ok = m.deepIdent(u.Field(i).Type(), v.(AggV)[i], ts, depth+1)
		}
		return ts, ok
	case *types.Slice:
		s := v.(SliceV)
		if !s.Len.small || s.Len.i64 > 64 {
			return nil, false
		}
		nl := int64(0)
		if s.P.O == nil {
			nl = 1
		}
		ts = append(ts, s.Len, I(nl))
		sz := m.sizeof(u.Elem())
		for i := int64(0); i < s.Len.i64 && ok; i++ {
			ts, ok = m.deepIdent(u.Elem(), m.load(Ptr{s.P.O, Add(s.P.Off, I(sz*i))}, u.Elem()), ts, depth+1)
		}
		return ts, ok
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			return append(ts, x), true
		case StrV:
			return append(ts, m.strIdent(x)), true
		}
	}
	return nil, false
}

type rtText string

func (t rtText) String() string { return string(t) }

func (m *Machine) fmtArg(v IfaceV) (interface{}, *Term, bool) {
	d := m.dynType(v)
	if d == nil {
		return nil, I(0), true
	}
	if m.isRType(d) {
		return rtText(rtString(m.typeArg(v.D))), I(int64(m.typeArgID(v.D))), true
	}
	tid := I(int64(m.rtypeObj(d).id))
	if _, ok := d.(*types.Basic); !ok {
		if errT := types.Universe.Lookup("error").Type().Underlying().(*types.Interface); types.Implements(d, errT) {
			f := func() (s string, ok bool) {
				defer func() {
					if x := recover(); x != nil {
						switch x.(type) {
						case unsupported, goPanic:
							ok = false
						default:
							panic(x)
						}
					}
				}()
				cur := m.cur
				defer func() { m.cur = cur }()
				sel := m.p.prog.MethodSets.MethodSet(d).Lookup(nil, "Error")
				r := m.callFn(m.p.prog.MethodValue(sel), []Val{m.ifaceVal(v, d)}, nil)
				return m.conStr(r.(StrV))
			}
			if s, ok := f(); ok {
				return fmt.Errorf("%s", s), tid, true
			}
			return nil, UF("errtext", SInt, nil, nil, tid, m.identOf(v.D)), false
		}
		if _, ok := d.Underlying().(*types.Basic); !ok || len(m.methods(d)) > 0 {
			return nil, UF("obj", SInt, nil, nil, tid, m.identOf(v.D)), false
		}
	}
	x := m.ifaceVal(v, d)
	switch y := x.(type) {
	case StrV:
		if s, ok := m.conStr(y); ok {
			return s, tid, true
		}
		return nil, UF("val", SInt, nil, nil, tid, m.strIdent(y)), false
	case *Term:
		if g, ok := m.goValue(d.Underlying(), y); ok {
			return g.Interface(), tid, true
		}
		if y.isConst() {
			return y.n, tid, true
		}
		return nil, UF("val", SInt, nil, nil, tid, y), false
	}
	return nil, UF("obj", SInt, nil, nil, tid, m.identOf(v.D)), false
}

func (m *Machine) typeArgID(v Val) int { return m.rtypeObj(m.typeArg(v)).id }

func (m *Machine) identOf(v Val) *Term {
	switch x := v.(type) {
	case Ptr:
		if x.O == nil {
			return x.Off
		}
		return UF("addr", SInt, bi(1<<20), bi(1<<47), I(int64(x.O.id)), x.Off)
	case *Term:
		return x
	case *MapV:
		if x != nil {
			return I(int64(x.id))
		}
	}
	return I(-7)
}

var specIntr map[string]intrinsicFn

// rtypeWord is a word of a type descriptor the model does not lay out
func (m *Machine) rtypeWord(o *Obj, off, size int64) Val {
	switch { // internal/abi.Type of go1.23
	case off == 0 && size == 8:
		return I(m.sizeof(o.rtype))
	case off == 23 && size == 1:
		k := int64(kindOfT(o.rtype))
		if direct(o.rtype) {
			k |= 32
		}
		return I(k)
	}
	if off == 24 && size == 8 && !types.Comparable(o.rtype) {
		return (*FuncV)(nil)
	} else if off == 24 && size == 8 {
		return &FuncV{}
	}
	return &Poison{fmt.Sprintf("word %d of a type descriptor", off)}
}
