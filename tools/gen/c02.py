# writes /verif/contracts/zz_vc_c02.go and est/expr/zz_vc_ptr.go
import os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','..','contracts')
kinds='int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 float32 float64 string bool'.split()
num=[k for k in kinds if k not in('string','bool')]
OPS='== != < <= > >='.split()
s='''package velty

import (
	"github.com/viant/velty/internal/vspec"
)

// Pointer operands: a variable, a field of a struct variable or a field of a pointer variable.
var vcPtrForms = []string{"$v#", "$w#.P", "$r#.P"}

// vcPtrTemplate picks the forms of the two operands
func vcPtrTemplate(op string) string {
	k := vspec.Pick(len(vcPtrForms) * len(vcPtrForms))
	return "#set($o.B = " + vcOperand(vcPtrForms[k/3], "0", "") + " " + op + " " + vcOperand(vcPtrForms[k%3], "1", "") + ")"
}

'''
def same(k,a,b):
    return 'vspec.SameFloat(float64(%s), float64(%s))'%(a,b) if k.startswith('float') else '%s == %s'%(a,b)
for k in kinds:
    ops=OPS if k in num else OPS[:2]
    K=k.capitalize()
    s+='''type vcPtr%(K)s struct {
	Pad int32
	P   *%(k)s
	Q   *%(k)s
}

func VC_C02_%(K)s() {
	var a, b, q %(k)s
	vspec.Fill(&a)
	vspec.Fill(&b)
	vspec.Fill(&q)
	a0, b0 := a, b
	ops := []string{%(ops)s}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	vars := func(x, y *%(k)s) []vcVar {
		h0, h1 := vcPtr%(K)s{P: x, Q: &q}, vcPtr%(K)s{P: y, Q: &q}
		return []vcVar{{"o", &o}, {"v0", x}, {"v1", y}, {"w0", h0}, {"w1", h1}, {"r0", &h0}, {"r1", &h1}}
	}
	r := vcNew(vcPtrTemplate(op), vars(&a, &b)...)
	for _, ab := range [][2]*%(k)s{{nil, nil}, {nil, &b}, {&a, nil}} {
		r.fresh(vars(ab[0], ab[1])...)
		r.run()
		if op == "==" && (ab[0] == nil) != (ab[1] == nil) {
			vspec.Assert(!o.B, "nil is not equal to a value")
		}
	}
	r.fresh(vars(&a, &b)...)
	r.run()
	switch op {
%(cases)s	}
	vspec.Assert(vspec.And(%(sa)s, %(sb)s), "the operands keep their values")
	r.fresh(vars(&a, &a)...)
	r.run()
	switch op {
%(acases)s	}
	vspec.Assert(%(sa)s, "the operands keep their values")
}

'''%dict(k=k,K=K,ops=', '.join('"%s"'%o for o in ops),
  cases=''.join('\tcase "%s":\n\t\tvspec.Assert(o.B == (a0 %s b0), "%s %s")\n'%(o,o,k,o) for o in ops),
  acases=''.join('\tcase "%s":\n\t\tvspec.Assert(o.B == (a0 %s a0), "%s %s of one pointer")\n'%(o,o,k,o) for o in ops),
  sa=same(k,'a','a0'),sb=same(k,'b','b0'))
lits={'int':'5','float64':'2.5','string':'"abc"','bool':'true'}
for k in lits:
    ops=OPS if k in num else OPS[:2]
    K=k.capitalize()
    s+='''// VC_C02_Mixed%(K)s compares a pointer with a value
func VC_C02_Mixed%(K)s() {
	var a, b %(k)s
	vspec.Fill(&a)
	vspec.Fill(&b)
	ops := []string{%(ops)s}
	op := ops[vspec.Pick(len(ops))]
	var o vcOut
	right := "$v1"
	if vspec.Pick(2) == 1 {
		b, right = %(lit)s, `%(lit)s`
	}
	left := vspec.Pick(2) == 0
	a0, b0 := a, b
	tmpl := "#set($o.B = $v0 " + op + " " + right + ")"
	if !left {
		tmpl = "#set($o.B = " + right + " " + op + " $v0)"
	}
	vars := func(x *%(k)s) []vcVar { return []vcVar{{"o", &o}, {"v0", x}, {"v1", b}} }
	r := vcNew(tmpl, vars(nil)...)
	r.run()
	if op == "==" {
		vspec.Assert(!o.B, "nil is not equal to a value")
	}
	r.fresh(vars(&a)...)
	r.run()
	x, y := a0, b0
	if !left {
		x, y = b0, a0
	}
	switch op {
%(cases)s	}
	vspec.Assert(%(sa)s, "the operands keep their values")
}

'''%dict(k=k,K=K,lit=lits[k],ops=', '.join('"%s"'%o for o in ops),
  cases=''.join('\tcase "%s":\n\t\tvspec.Assert(o.B == (x %s y), "%s %s")\n'%(o,o,k,o) for o in ops),sa=same(k,'a','a0'))
open(R+'/zz_vc_c02.go','w').write(s)

toks={'==':'EQ','!=':'NEQ','<':'LSS','<=':'LEQ','>':'GTR','>=':'GTE'}
s='''package expr

import (
	"reflect"
	"unsafe"

	"github.com/viant/velty/ast"
	"github.com/viant/velty/est"
	"github.com/viant/velty/est/op"
	"github.com/viant/velty/internal/vspec"
)

// The contract of the comparisons of pointers: whatever computes the operands (nothing is known but that each denotes a
// value or nil), the answer is that of Go for the values, and nothing is dereferenced when an operand is nil.

func vcComparePtr(token ast.Token, rType reflect.Type, x, y unsafe.Pointer) bool {
	z := op.NewSelector("z", "z", vcTypes["B"], nil)
	aNew, err := Binary(token, vcAny(rType, x), vcAny(rType, y), &op.Expression{Selector: z, Type: vcTypes["B"]})
	vspec.Assert(err == nil, "the operator is supported")
	compute, err := aNew(0)
	vspec.Assert(err == nil, "the operator is supported")
	var b, b0 bool
	vspec.Fill(&b)
	b0 = b
	f, t := *(*bool)(est.FalseValuePtr), *(*bool)(est.TrueValuePtr)
	st := &est.State{Mem: &b, MemPtr: unsafe.Pointer(&b)}
	got := *(*bool)(compute(st))
	vspec.Assert(vspec.And(!*(*bool)(est.FalseValuePtr), *(*bool)(est.TrueValuePtr)), "the shared results keep their values")
	vspec.Assert(vspec.And(!f, t), "the shared results keep their values")
	vspec.Assert(vspec.Or(b == b0, b == got), "nothing but the result is written")
	return got
}

'''
for k in kinds:
    ops=OPS if k in num else OPS[:2]
    K=k.capitalize()
    s+='''func VC_C02_Any%(K)s() {
	var a, b %(k)s
	vspec.Fill(&a)
	vspec.Fill(&b)
	a0, b0 := a, b
	t := reflect.TypeOf(&a)
	x, y := unsafe.Pointer(&a), unsafe.Pointer(&b)
	switch vspec.Pick(%(n)d) {
%(cases)s	}
	vspec.Assert(vspec.And(%(sa)s, %(sb)s), "the operands keep their values")
}

'''%dict(k=k,K=K,n=len(ops),sa=same(k,'a','a0'),sb=same(k,'b','b0'),
  cases=''.join('''	case %(i)d:
%(e)s		vcComparePtr(ast.%(t)s, t, nil, nil)
		vspec.Assert(vcComparePtr(ast.%(t)s, t, x, x) == (a0 %(o)s a0), "%(k)s %(o)s of one pointer")
		vspec.Assert(vcComparePtr(ast.%(t)s, t, x, y) == (a0 %(o)s b0), "%(k)s %(o)s")
'''%dict(i=i,o=o,k=k,t=toks[o],e='''		vspec.Assert(!vcComparePtr(ast.EQ, t, nil, y), "nil is not equal to a value")
		vspec.Assert(!vcComparePtr(ast.EQ, t, x, nil), "nil is not equal to a value")
''' if o=='==' else '''		vcComparePtr(ast.%(t)s, t, nil, y)
		vcComparePtr(ast.%(t)s, t, x, nil)
'''%dict(t=toks[o])) for i,o in enumerate(ops)))
open(R+'/est/expr/zz_vc_ptr.go','w').write(s)
os.system('/opt/veriftools/go1.27.3/bin/gofmt -w %s/zz_vc_c02.go %s/est/expr/zz_vc_ptr.go'%(R,R))
