package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Op is a term constructor
type Op uint8

const (
	OConst Op = iota // integer constant
	OLin             // n + sum co[i]*a[i]
	OVar
	OUF
	OMod // floor modulus by the constant n
	ODiv // floor division by the constant n
	OIte
	OTrue
	OFalse
	ONot
	OAnd
	OOr
	OIff
	OLe0 // a[0] <= 0
	OEq0 // a[0] == 0
	OFConst
	OFLt
	OFLe
	OFEq
	OFNeg
	OSame // identity of two floats
)

// Sort is the SMT sort of a term
type Sort uint8

const (
	SBool Sort = iota
	SInt
	SF64
	SF32
)

func (s Sort) smt() string {
	switch s {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SF64:
		return "Float64"
	}
	return "Float32"
}

// Term is a hash-consed term; two equal terms are the same pointer
type Term struct {
	id     int
	op     Op
	sort   Sort
	a      []*Term
	co     []*big.Int
	n      *big.Int
	i64    int64
	small  bool
	name   string
	f      float64
	lo, hi *big.Int
	atoms  []*Term // bounded atoms below, collected on demand
	atomsK bool
}

var (
	termTab  = map[string]*Term{}
	smallTab = map[int64]*Term{}
	termSeq  = 0
)

var big0, big1 = big.NewInt(0), big.NewInt(1)

func bi(v int64) *big.Int         { return big.NewInt(v) }
func pow2(k uint) *big.Int        { return new(big.Int).Lsh(big1, k) }
func badd(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func bsub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func bmul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func bneg(a *big.Int) *big.Int    { return new(big.Int).Neg(a) }

func fdiv(a, m *big.Int) *big.Int { // floor, m>0
	q, r := new(big.Int).QuoRem(a, m, new(big.Int))
	if r.Sign() < 0 {
		q.Sub(q, big1)
	}
	return q
}
func fmod(a, m *big.Int) *big.Int { return bsub(a, bmul(fdiv(a, m), m)) }

func newTerm(t *Term) *Term {
	termSeq++
	t.id = termSeq
	return t
}

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	t := newTerm(mk())
	termTab[key] = t
	return t
}

// I is an integer constant
func I(v int64) *Term {
	if t, ok := smallTab[v]; ok {
		return t
	}
	b := bi(v)
	t := newTerm(&Term{op: OConst, sort: SInt, n: b, i64: v, small: true, lo: b, hi: b})
	smallTab[v] = t
	return t
}

// IB is an integer constant of any size
func IB(v *big.Int) *Term {
	if v.IsInt64() {
		return I(v.Int64())
	}
	return intern("c"+v.String(), func() *Term { return &Term{op: OConst, sort: SInt, n: v, lo: v, hi: v} })
}

var tTrue = newTerm(&Term{op: OTrue, sort: SBool})
var tFalse = newTerm(&Term{op: OFalse, sort: SBool})

// B is a boolean constant
func B(v bool) *Term {
	if v {
		return tTrue
	}
	return tFalse
}

// F is a float64 constant
func F(v float64) *Term {
	bits := math.Float64bits(v)
	if v != v {
		bits = math.Float64bits(math.NaN())
	}
	return intern("f"+strconv.FormatUint(bits, 16), func() *Term { return &Term{op: OFConst, sort: SF64, f: v} })
}

// F32 is a float32 constant
func F32(v float32) *Term {
	bits := math.Float32bits(v)
	if v != v {
		bits = math.Float32bits(float32(math.NaN()))
	}
	return intern("g"+strconv.FormatUint(uint64(bits), 16), func() *Term { return &Term{op: OFConst, sort: SF32, f: float64(v)} })
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t == tTrue }
func (t *Term) isFalse() bool { return t == tFalse }
func (t *Term) lit() bool {
	return t.op == OConst || t.op == OTrue || t.op == OFalse || t.op == OFConst
}

// Var is a symbol
func Var(name string, s Sort, lo, hi *big.Int) *Term {
	key := "v" + name + "/" + s.smt()
	if lo != nil {
		key += "/" + lo.String()
	}
	if hi != nil {
		key += "/" + hi.String()
	}
	return intern(key, func() *Term { return &Term{op: OVar, sort: s, name: name, lo: lo, hi: hi} })
}

// UF is an application of an uninterpreted function
func UF(name string, s Sort, lo, hi *big.Int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString("u" + name + "/" + s.smt())
	for _, a := range args {
		b.WriteString("," + strconv.Itoa(a.id))
	}
	if lo != nil {
		b.WriteString("/" + lo.String())
	}
	if hi != nil {
		b.WriteString("/" + hi.String())
	}
	return intern(b.String(), func() *Term { return &Term{op: OUF, sort: s, name: name, a: args, lo: lo, hi: hi} })
}

// linear forms

type lin struct {
	n  *big.Int
	a  []*Term
	co []*big.Int
}

func toLin(t *Term) lin {
	switch t.op {
	case OConst:
		return lin{n: t.n}
	case OLin:
		return lin{t.n, t.a, t.co}
	}
	return lin{big0, []*Term{t}, []*big.Int{big1}}
}

func fromLin(l lin) *Term {
	if len(l.a) == 0 {
		return IB(l.n)
	}
	if len(l.a) == 1 && l.n.Sign() == 0 && l.co[0].Cmp(big1) == 0 {
		return l.a[0]
	}
	var b strings.Builder
	b.WriteString("l" + l.n.String())
	for i, a := range l.a {
		b.WriteString("," + l.co[i].String() + "*" + strconv.Itoa(a.id))
	}
	return intern(b.String(), func() *Term {
		lo, hi := l.n, l.n
		for i, a := range l.a {
			x, y := a.lo, a.hi
			if l.co[i].Sign() < 0 {
				x, y = y, x
			}
			if lo != nil && x != nil {
				lo = badd(lo, bmul(l.co[i], x))
			} else {
				lo = nil
			}
			if hi != nil && y != nil {
				hi = badd(hi, bmul(l.co[i], y))
			} else {
				hi = nil
			}
		}
		return &Term{op: OLin, sort: SInt, n: l.n, a: l.a, co: l.co, lo: lo, hi: hi}
	})
}

func linAdd(x, y lin, k *big.Int) lin { // x + k*y
	r := lin{n: badd(x.n, bmul(k, y.n))}
	i, j := 0, 0
	put := func(a *Term, c *big.Int) {
		if c.Sign() != 0 {
			r.a = append(r.a, a)
			r.co = append(r.co, c)
		}
	}
	for i < len(x.a) || j < len(y.a) {
		switch {
		case j >= len(y.a) || (i < len(x.a) && x.a[i].id < y.a[j].id):
			put(x.a[i], x.co[i])
			i++
		case i >= len(x.a) || y.a[j].id < x.a[i].id:
			put(y.a[j], bmul(k, y.co[j]))
			j++
		default:
			put(x.a[i], badd(x.co[i], bmul(k, y.co[j])))
			i++
			j++
		}
	}
	return r
}

// Add adds
func Add(x, y *Term) *Term {
	if x.small && y.small {
		s := x.i64 + y.i64
		if (s > x.i64) == (y.i64 > 0) {
			return I(s)
		}
	}
	return fromLin(linAdd(toLin(x), toLin(y), big1))
}

// Sub subtracts
func Sub(x, y *Term) *Term {
	return fromLin(linAdd(toLin(x), toLin(y), bi(-1)))
}

// Scale multiplies with a constant
func Scale(x *Term, k *big.Int) *Term {
	return fromLin(linAdd(lin{n: big0}, toLin(x), k))
}

// Neg negates
func Neg(x *Term) *Term { return Scale(x, bi(-1)) }

// Mul multiplies; the product of two symbols is uninterpreted (and commutative)
func Mul(x, y *Term) *Term {
	if x.isConst() {
		return Scale(y, x.n)
	}
	if y.isConst() {
		return Scale(x, y.n)
	}
	if x.id > y.id {
		x, y = y, x
	}
	var lo, hi *big.Int
	if x.lo != nil && x.hi != nil && y.lo != nil && y.hi != nil {
		for _, p := range []*big.Int{bmul(x.lo, y.lo), bmul(x.lo, y.hi), bmul(x.hi, y.lo), bmul(x.hi, y.hi)} {
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return UF("mul", SInt, lo, hi, x, y)
}

// within says whether the interval of t lies in [lo,hi]
func within(t *Term, lo, hi *big.Int) bool {
	return t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0
}

// Mod is the floor modulus by a positive constant
func Mod(t *Term, m *big.Int) *Term {
	if t.isConst() {
		return IB(fmod(t.n, m))
	}
	l := toLin(t)
	half := new(big.Int).Rsh(m, 1)
	sym := func(c *big.Int) *big.Int {
		r := fmod(c, m)
		if r.Cmp(half) > 0 {
			r = bsub(r, m)
		}
		return r
	}
	if t.lo != nil && t.hi != nil {
		q := fdiv(t.lo, m)
		if q.Cmp(fdiv(t.hi, m)) == 0 {
			return Sub(t, IB(bmul(q, m)))
		}
	}
	// reduce coefficients and drop inner reductions
	r := lin{n: l.n}
	changed := false
	for i, a := range l.a {
		if a.op == OMod && fmod(a.n, m).Sign() == 0 {
			r = linAdd(r, toLin(a.a[0]), l.co[i])
			changed = true
			continue
		}
		c := sym(l.co[i])
		if c.Cmp(l.co[i]) != 0 {
			changed = true
		}
		if c.Sign() != 0 {
			r = linAdd(r, lin{big0, []*Term{a}, []*big.Int{c}}, big1)
		}
	}
	n := sym(r.n)
	if n.Cmp(r.n) != 0 {
		changed = true
		r = lin{n, r.a, r.co}
	}
	if changed {
		return Mod(fromLin(r), m)
	}
	return intern("m"+m.String()+","+strconv.Itoa(t.id), func() *Term {
		return &Term{op: OMod, sort: SInt, n: m, a: []*Term{t}, lo: big0, hi: bsub(m, big1)}
	})
}

// Div is the floor division by a positive constant
func Div(t *Term, c *big.Int) *Term {
	if t.isConst() {
		return IB(fdiv(t.n, c))
	}
	if c.Cmp(big1) == 0 {
		return t
	}
	if t.lo != nil && t.hi != nil {
		q := fdiv(t.lo, c)
		if q.Cmp(fdiv(t.hi, c)) == 0 {
			return IB(q)
		}
	}
	// pull out multiples of c
	l := toLin(t)
	out, in := lin{n: big0}, lin{n: fmod(l.n, c)}
	out.n = fdiv(l.n, c)
	pulled := out.n.Sign() != 0
	for i, a := range l.a {
		if fmod(l.co[i], c).Sign() == 0 {
			out = linAdd(out, lin{big0, []*Term{a}, []*big.Int{fdiv(l.co[i], c)}}, big1)
			pulled = true
		} else {
			in = linAdd(in, lin{big0, []*Term{a}, []*big.Int{l.co[i]}}, big1)
		}
	}
	if pulled {
		return Add(fromLin(out), Div(fromLin(in), c))
	}
	if t.op == ODiv {
		return Div(t.a[0], bmul(t.n, c))
	}
	if t.op == OMod && fmod(t.n, c).Sign() == 0 { // (x mod kc) div c = (x div c) mod k
		return Mod(Div(t.a[0], c), fdiv(t.n, c))
	}
	return intern("d"+c.String()+","+strconv.Itoa(t.id), func() *Term {
		r := &Term{op: ODiv, sort: SInt, n: c, a: []*Term{t}}
		if t.lo != nil {
			r.lo = fdiv(t.lo, c)
		}
		if t.hi != nil {
			r.hi = fdiv(t.hi, c)
		}
		return r
	})
}

// Ite is if-then-else over any sort
func Ite(c, x, y *Term) *Term {
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.sort == SBool {
		if x.isTrue() && y.isFalse() {
			return c
		}
		if x.isFalse() && y.isTrue() {
			return Not(c)
		}
		return Or(And(c, x), And(Not(c), y))
	}
	return intern("i"+strconv.Itoa(c.id)+","+strconv.Itoa(x.id)+","+strconv.Itoa(y.id), func() *Term {
		r := &Term{op: OIte, sort: x.sort, a: []*Term{c, x, y}}
		if x.lo != nil && y.lo != nil {
			r.lo = x.lo
			if y.lo.Cmp(r.lo) < 0 {
				r.lo = y.lo
			}
		}
		if x.hi != nil && y.hi != nil {
			r.hi = x.hi
			if y.hi.Cmp(r.hi) > 0 {
				r.hi = y.hi
			}
		}
		return r
	})
}

// Not negates
func Not(t *Term) *Term {
	switch t.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return t.a[0]
	case OLe0:
		return Le0(Add(Neg(t.a[0]), I(1)))
	}
	return intern("!"+strconv.Itoa(t.id), func() *Term { return &Term{op: ONot, sort: SBool, a: []*Term{t}} })
}

func nary(op Op, unit, zero *Term, ts []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero || seen[Not(t)] {
			return false
		}
		if t.op == op {
			for _, x := range t.a {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	var b strings.Builder
	b.WriteString("b" + strconv.Itoa(int(op)))
	for _, t := range out {
		b.WriteString("," + strconv.Itoa(t.id))
	}
	return intern(b.String(), func() *Term { return &Term{op: op, sort: SBool, a: out} })
}

// And is the conjunction
func And(ts ...*Term) *Term { return nary(OAnd, tTrue, tFalse, ts) }

// Or is the disjunction
func Or(ts ...*Term) *Term { return nary(OOr, tFalse, tTrue, ts) }

// Iff is the equality of booleans
func Iff(x, y *Term) *Term {
	if x == y {
		return tTrue
	}
	if x.lit() {
		x, y = y, x
	}
	if y.isTrue() {
		return x
	}
	if y.isFalse() {
		return Not(x)
	}
	if x == Not(y) {
		return tFalse
	}
	if x.id > y.id {
		x, y = y, x
	}
	return intern("q"+strconv.Itoa(x.id)+","+strconv.Itoa(y.id), func() *Term { return &Term{op: OIff, sort: SBool, a: []*Term{x, y}} })
}

func gcdOf(l lin) *big.Int {
	g := new(big.Int)
	for _, c := range l.co {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	return g
}

// Le0 is t <= 0
func Le0(t *Term) *Term {
	if t.isConst() {
		return B(t.n.Sign() <= 0)
	}
	if t.hi != nil && t.hi.Sign() <= 0 {
		return tTrue
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return tFalse
	}
	l := toLin(t)
	g := gcdOf(l)
	if g.Cmp(big1) != 0 {
		r := lin{n: bneg(fdiv(bneg(l.n), g)), a: l.a}
		for _, c := range l.co {
			r.co = append(r.co, new(big.Int).Quo(c, g))
		}
		return Le0(fromLin(r))
	}
	return intern("<"+strconv.Itoa(t.id), func() *Term { return &Term{op: OLe0, sort: SBool, a: []*Term{t}} })
}

// Le is x <= y
func Le(x, y *Term) *Term { return Le0(Sub(x, y)) }

// Lt is x < y
func Lt(x, y *Term) *Term { return Le0(Add(Sub(x, y), I(1))) }

// Eq is the equality of integers or booleans
func Eq(x, y *Term) *Term {
	if x == y {
		return tTrue
	}
	if x.sort == SBool {
		return Iff(x, y)
	}
	if x.sort != SInt {
		return Same(x, y)
	}
	if x.small && y.small {
		return B(x.i64 == y.i64)
	}
	t := Sub(x, y)
	if t.isConst() {
		return B(t.n.Sign() == 0)
	}
	if (t.hi != nil && t.hi.Sign() < 0) || (t.lo != nil && t.lo.Sign() > 0) {
		return tFalse
	}
	l := toLin(t)
	g := gcdOf(l)
	if fmod(l.n, g).Sign() != 0 {
		return tFalse
	}
	if l.co[0].Sign() < 0 {
		g = bneg(g)
	}
	if g.Cmp(big1) != 0 {
		r := lin{n: new(big.Int).Quo(l.n, g), a: l.a}
		for _, c := range l.co {
			r.co = append(r.co, new(big.Int).Quo(c, g))
		}
		t = fromLin(r)
	}
	if t.op == OIte && t.sort == SInt { // ite(c,1,0) == 0
		return Ite(t.a[0], Eq(t.a[1], I(0)), Eq(t.a[2], I(0)))
	}
	if t.op == OLin && len(t.a) == 1 && t.a[0].op == OIte && t.a[0].a[1].isConst() && t.a[0].a[2].isConst() {
		i := t.a[0]
		sub := func(v *Term) *Term { return Eq(IB(badd(t.n, bmul(t.co[0], v.n))), I(0)) }
		return Ite(i.a[0], sub(i.a[1]), sub(i.a[2]))
	}
	return intern("="+strconv.Itoa(t.id), func() *Term { return &Term{op: OEq0, sort: SBool, a: []*Term{t}} })
}

// Same is the identity of floats (NaN is identical to NaN, 0 and -0 differ)
func Same(x, y *Term) *Term {
	if x == y {
		return tTrue
	}
	if x.op == OFConst && y.op == OFConst {
		return tFalse
	}
	if x.id > y.id {
		x, y = y, x
	}
	return intern("s"+strconv.Itoa(x.id)+","+strconv.Itoa(y.id), func() *Term { return &Term{op: OSame, sort: SBool, a: []*Term{x, y}} })
}

// FCmp is an IEEE comparison
func FCmp(op Op, x, y *Term) *Term {
	if x.op == OFConst && y.op == OFConst {
		switch op {
		case OFLt:
			return B(x.f < y.f)
		case OFLe:
			return B(x.f <= y.f)
		}
		return B(x.f == y.f)
	}
	if op == OFEq && x.id > y.id {
		x, y = y, x
	}
	return intern("p"+strconv.Itoa(int(op))+","+strconv.Itoa(x.id)+","+strconv.Itoa(y.id), func() *Term { return &Term{op: op, sort: SBool, a: []*Term{x, y}} })
}

// FArith is a float operation: constants are folded, everything else is an uninterpreted function of its operands
func FArith(name string, x, y *Term) *Term {
	if x.op == OFConst && y.op == OFConst {
		var r float64
		if x.sort == SF32 {
			a, b := float32(x.f), float32(y.f)
			var q float32
			switch name {
			case "fadd":
				q = a + b
			case "fsub":
				q = a - b
			case "fmul":
				q = a * b
			default:
				q = a / b
			}
			return F32(q)
		}
		switch name {
		case "fadd":
			r = x.f + y.f
		case "fsub":
			r = x.f - y.f
		case "fmul":
			r = x.f * y.f
		default:
			r = x.f / y.f
		}
		return F(r)
	}
	if (name == "fadd" || name == "fmul") && x.id > y.id {
		x, y = y, x
	}
	if x.sort == SF32 {
		name += "32"
	}
	return UF(name, x.sort, nil, nil, x, y)
}

// FNeg negates a float
func FNeg(x *Term) *Term {
	if x.op == OFConst {
		if x.sort == SF32 {
			return F32(float32(-x.f))
		}
		return F(-x.f)
	}
	if x.op == OFNeg {
		return x.a[0]
	}
	return intern("n"+strconv.Itoa(x.id), func() *Term { return &Term{op: OFNeg, sort: x.sort, a: []*Term{x}} })
}

// Wrap reduces t to a machine integer of the given width
func Wrap(t *Term, bits uint, signed bool) *Term {
	if signed {
		h := pow2(bits - 1)
		if within(t, bneg(h), bsub(h, big1)) {
			return t
		}
		return Sub(Mod(Add(t, IB(h)), pow2(bits)), IB(h))
	}
	if within(t, big0, bsub(pow2(bits), big1)) {
		return t
	}
	return Mod(t, pow2(bits))
}

// boundedAtoms lists the atoms below t that carry bounds
func (t *Term) boundedAtoms() []*Term {
	if t.atomsK {
		return t.atoms
	}
	t.atomsK = true
	seen := map[*Term]bool{}
	if (t.op == OVar || t.op == OUF) && (t.lo != nil || t.hi != nil) && t.sort == SInt {
		seen[t] = true
		t.atoms = append(t.atoms, t)
	}
	for _, x := range t.a {
		for _, y := range x.boundedAtoms() {
			if !seen[y] {
				seen[y] = true
				t.atoms = append(t.atoms, y)
			}
		}
	}
	return t.atoms
}

// contains says whether x occurs in t
func (t *Term) contains(x *Term, seen map[*Term]bool) bool {
	if t == x {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, y := range t.a {
		if y.contains(x, seen) {
			return true
		}
	}
	return false
}

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + bneg(n).String() + ")"
	}
	return n.String()
}

func smtFloat(t *Term) string {
	if t.sort == SF32 {
		b := math.Float32bits(float32(t.f))
		return fmt.Sprintf("(fp #b%01b #b%08b #b%023b)", b>>31, b>>23&0xff, b&0x7fffff)
	}
	b := math.Float64bits(t.f)
	if t.f != t.f {
		return "(_ NaN 11 53)"
	}
	return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", b>>63, b>>52&0x7ff, b&(1<<52-1))
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(depth int) string {
	if depth == 0 {
		return "…"
	}
	switch t.op {
	case OConst:
		return t.n.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		return t.name
	case OFConst:
		return strconv.FormatFloat(t.f, 'g', -1, 64)
	case OLin:
		var p []string
		for i, a := range t.a {
			c := t.co[i].String()
			switch c {
			case "1":
				p = append(p, a.str(depth-1))
			case "-1":
				p = append(p, "-"+a.str(depth-1))
			default:
				p = append(p, c+"*"+a.str(depth-1))
			}
		}
		if t.n.Sign() != 0 {
			p = append(p, t.n.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	case OMod:
		return "(" + t.a[0].str(depth-1) + " mod " + t.n.String() + ")"
	case ODiv:
		return "(" + t.a[0].str(depth-1) + " div " + t.n.String() + ")"
	}
	names := map[Op]string{OIte: "ite", ONot: "not", OAnd: "and", OOr: "or", OIff: "iff", OLe0: "<=0", OEq0: "=0", OFLt: "flt", OFLe: "fle", OFEq: "feq", OFNeg: "fneg", OSame: "same"}
	n := names[t.op]
	if t.op == OUF {
		n = t.name
	}
	var p []string
	for _, a := range t.a {
		p = append(p, a.str(depth-1))
	}
	return n + "(" + strings.Join(p, ", ") + ")"
}

// expandMods writes remainders as t - m*(t div m), so that sums of digits telescope
func expandMods(t *Term, memo map[*Term]*Term) *Term {
	if len(t.a) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.a))
	same := true
	for i, a := range t.a {
		as[i] = expandMods(a, memo)
		if as[i] != a {
			same = false
		}
	}
	r := t
	switch {
	case t.op == OMod:
		r = Sub(as[0], Scale(Div(as[0], t.n), t.n))
	case t.op == ODiv && as[0].op == OLin:
		r = divExpanded(as[0], t.n)
	case !same:
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

// divExpanded divides x - k*(x div k) by c where c divides k: (x div c) - (k/c)*(x div k)
func divExpanded(x *Term, c *big.Int) *Term {
	l := toLin(x)
	if len(l.a) == 2 && l.n.Sign() == 0 {
		for i := 0; i < 2; i++ {
			d, y := l.a[i], l.a[1-i]
			if d.op == ODiv && l.co[1-i].Cmp(big1) == 0 {
				k := bneg(l.co[i])
				if k.Sign() > 0 && fmod(k, c).Sign() == 0 && Div(y, k) == d {
					return Sub(Div(y, c), Scale(d, fdiv(k, c)))
				}
			}
		}
	}
	return Div(x, c)
}
