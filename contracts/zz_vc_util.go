package velty

import (
	"reflect"
	"unsafe"

	"github.com/viant/velty/est"
	"github.com/viant/velty/internal/vspec"
)

// vcRun is a compiled template with a state to execute it with.
type vcRun struct {
	p     *Planner
	exec  *est.Execution
	newSt func() *est.State
	st    *est.State
}

type vcVar struct {
	name  string
	value interface{}
}

// vcIface is the value of a variable of type interface{}
type vcIface struct{ v interface{} }

// vcNew compiles a template with the variables, and makes a state that holds their values.
func vcNew(tmpl string, vars ...vcVar) *vcRun {
	return vcNewWith(New(), tmpl, vars...)
}

func vcNewWith(p *Planner, tmpl string, vars ...vcVar) *vcRun {
	for _, v := range vars {
		def := v.value
		if _, ok := def.(vcIface); ok {
			def = reflect.TypeOf((*interface{})(nil)).Elem()
		}
		err := p.DefineVariable(v.name, def)
		vspec.Assert(err == nil, "the variable is defined")
	}
	exec, newState, err := p.Compile([]byte(tmpl))
	vspec.Assert(err == nil, "the template compiles")
	r := &vcRun{p: p, exec: exec, newSt: newState}
	r.fresh(vars...)
	return r
}

// fresh takes a new state with the values
func (r *vcRun) fresh(vars ...vcVar) {
	r.st = r.newSt()
	for _, v := range vars {
		if w, ok := v.value.(vcIface); ok {
			r.set(v.name, w.v)
			continue
		}
		r.set(v.name, v.value)
	}
}

func (r *vcRun) set(name string, value interface{}) {
	err := r.st.SetValue(name, value)
	vspec.Assert(err == nil, "the value is stored")
}

// run executes without an error
func (r *vcRun) run() {
	err := r.exec.Exec(r.st)
	vspec.Assert(err == nil, "no error")
}

// addr is where the state keeps the variable
func (r *vcRun) addr(name string) unsafe.Pointer {
	f, ok := r.st.StateType.ValueAccessor(name)
	vspec.Assert(ok, "the variable has a place")
	return f.Pointer(r.st.MemPtr)
}

func (r *vcRun) out() string { return r.st.Buffer.String() }

// vcOut receives results
type vcOut struct {
	I int
	B bool
	F float64
	S string
}

type vcLeaf struct {
	I int
	F float64
	S string
	B bool
}

// GetI is a method
func (l *vcLeaf) GetI() int     { return l.I }
func (l *vcLeaf) GetF() float64 { return l.F }
func (l *vcLeaf) GetS() string  { return l.S }
func (l *vcLeaf) GetB() bool    { return l.B }

type vcIn struct {
	I int
	F float64
	S string
	B bool
	N vcLeaf
	P *vcLeaf
	L []vcLeaf
	Q []*vcLeaf
}

// vcSame asserts that got is the concatenation of the parts
func vcSame(got string, name string, parts ...string) {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	vspec.Assert(len(got) == n, name+": length")
	n = 0
	for _, p := range parts {
		p, at := p, n
		vspec.AssertAll(0, len(p), func(i int) bool { return got[at+i] == p[i] }, name+": content")
		n += len(p)
	}
}
