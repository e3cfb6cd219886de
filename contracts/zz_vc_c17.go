package velty

import (
	"errors"

	"github.com/viant/velty/est"
	"github.com/viant/velty/internal/vspec"
)

// A state from the pool is clean and has one owner; a reset state executes like a new one (C17).

// vcUse17 leaves output and errors behind
func vcUse17(st *est.State) {
	st.Buffer.AppendString("used")
	st.AddError(errors.New("used"))
}

func vcClean17(st *est.State) {
	vspec.Assert(len(st.Buffer.Bytes()) == 0 && st.Buffer.String() == "", "the output is empty")
	vspec.Assert(len(st.Errors) == 0 && st.IsValid(), "there are no errors")
}

// Every sequence of taking and putting back, for any pool size and whatever sync.Pool keeps.
func VC_C17_Pool() {
	p := New(BufferSize(vspec.Pick(2)))
	_, newState, err := p.Compile([]byte("x"))
	vspec.Assert(err == nil, "the template compiles")
	pool := NewPool(vspec.Int(), newState)
	var owned []*est.State
	take := func() {
		st := pool.State()
		for _, o := range owned {
			vspec.Assert(o != st, "the state has one owner")
		}
		vcClean17(st)
		owned = append(owned, st)
	}
	take()
	for n := 0; n < 5; n++ {
		k := vspec.Pick(3)
		if k == 0 || len(owned) == 0 {
			take()
			continue
		}
		k-- // the first or the last
		if k == 1 {
			k = len(owned) - 1
		}
		st := owned[k]
		vcUse17(st)
		owned = append(append([]*est.State{}, owned[:k]...), owned[k+1:]...)
		pool.Put(st)
	}
	vspec.Cover("a sequence ended")
}

// Whatever states the pool gets from its source, Put hands a state over at most once more: a state that is taken
// stays taken until it is put back.
func VC_C17_Take() {
	p := New()
	_, newState, err := p.Compile([]byte("x"))
	vspec.Assert(err == nil, "the template compiles")
	st := newState()
	vspec.Assert(st.Take(), "a new state can be taken")
	for n := vspec.Pick(3); n > 0; n-- {
		switch vspec.Pick(3) {
		case 0:
			vspec.Assert(!st.Take(), "a taken state cannot be taken")
		case 1:
			vcUse17(st)
		case 2:
			st.Reset()
		}
	}
	vspec.Assert(!st.Take(), "a taken state cannot be taken")
}

// vcFn17 fails when it is told to, and logs
type vcFn17 struct {
	ints []int
	strs []string
}

func (f *vcFn17) G(fail bool, v int) (int, error) {
	if fail {
		return 0, errors.New("g")
	}
	return v, nil
}

func (f *vcFn17) I(v int) string    { f.ints = append(f.ints, v); return "" }
func (f *vcFn17) S(v string) string { f.strs = append(f.strs, v); return "" }

// vcTexts17 keep results, items and new variables in the state
var vcTexts17 = []string{
	"$s",
	"a#if($b)b${s}#end",
	"$f.I($i)#set($i = $i + 1)$f.I($i)",
	"#if($b)#set($y = $i)#end$f.I($y)",
	"#if($b)#set($y = $s)#end$f.S($y)",
	"#if($b)#set($y = $n)#end$f.I($y.I)$f.S($y.S)",
	"#foreach($x in $q)$f.I($x)#end$f.I($x)",
	"#foreach($x in $q)#set($y = $x)#end$f.I($y)",
	"#for($k = $i; $k < 0; $k++)#set($k = 5)#end$f.I($k)",
	"$f.I($f.G($b, $i))",
	"#set($z = $f.G($b, $i))$f.I($z)",
	"#if($f.G($b, $i) > 0)#set($y = 1)#end$f.I($y)",
	"#set($u = $u + 1)#foreach($x in $q)#set($u = $u + $x)#end$f.I($u)",
	"#set($n.I = $i)$f.I($n.I)",
	"#if($b)#set($y = $p)#end$f.I($y.I)",
	"#if($b)#set($y = $i)#evaluate($t)#end$f.I($y)",
}

func vcReset17(from, to int, opts ...Option) {
	text := vcTexts17[from+vspec.Pick(to-from)]
	log := &vcFn17{}
	p := New(opts...)
	def := []vcVar{{"s", ""}, {"b", false}, {"i", 0}, {"u", 0}, {"n", vcLeaf{}}, {"p", &vcLeaf{}}, {"q", []int{}}, {"t", "$f.I($y)"}, {"f", log}}
	r := vcNewWith(p, text, def...)
	vals := func(st *est.State, b bool, i int, s string, q []int) {
		for _, v := range []vcVar{{"s", s}, {"b", b}, {"i", i}, {"u", i}, {"n", vcLeaf{I: i, S: s}}, {"p", &vcLeaf{I: i}}, {"q", q}, {"t", "$f.I($y)"}, {"f", log}} {
			vspec.Assert(st.SetValue(v.name, v.value) == nil, "the value is stored")
		}
	}
	st := r.newSt()
	vals(st, vspec.Bool(), vspec.Int(), "w", []int{vspec.Int()}[vspec.Pick(2):])
	_ = r.exec.Exec(st)
	st.Reset()
	vcClean17(st)
	b, i, s := vspec.Bool(), vspec.Int(), vspec.String()
	q := []int{vspec.Int()}[vspec.Pick(2):]
	other := r.newSt()
	vals(other, b, i, s, q)
	*log = vcFn17{}
	want := r.exec.Exec(other)
	l := *log
	*log = vcFn17{}
	vals(st, b, i, s, q)
	got := r.exec.Exec(st)
	vspec.Assert((got == nil) == (want == nil), "it fails exactly when a new state fails")
	vspec.Assert(len(st.Errors) == len(other.Errors), "the errors are those of a new state")
	vcSame(st.Buffer.String(), "the output is that of a new state", other.Buffer.String())
	vspec.Assert(len(log.ints) == len(l.ints) && len(log.strs) == len(l.strs), "the same calls are made")
	for k := range l.ints {
		vspec.Assert(l.ints[k] == log.ints[k], "the same int is passed")
	}
	for k := range l.strs {
		vspec.Assert(l.strs[k] == log.strs[k], "the same string is passed")
	}
}

// A reset state executes like a new one.
func VC_C17_Reset0() { vcReset17(0, 4) }
func VC_C17_Reset1() { vcReset17(4, 9) }
func VC_C17_Reset2() { vcReset17(9, 12) }
func VC_C17_Reset3() { vcReset17(12, 16) }

// A reset state executes like a new one, where the execution stops at the first error.
func VC_C17_ResetPanic() { vcReset17(9, 12, PanicOnError(true)) }

// What was rendered before is gone, whatever its length.
func VC_C17_ResetOutput() {
	p := New(BufferSize([]int{0, 1, 4}[vspec.Pick(3)]))
	s, old := vspec.String(), vspec.String()
	r := vcNewWith(p, "[$s]", vcVar{"s", s})
	r.st.Buffer.AppendString(old)
	r.st.Reset()
	r.run()
	vcSame(r.out(), "the output is that of the execution", "[", s, "]")
}

// The output of an execution stays as it was when its state is used again.
func VC_C17_Outputs() {
	text := []string{"$s", "a${i}b", "$s$s", "#if($b)x#{else}y#end$i"}[vspec.Pick(4)]
	r := vcNew(text, vcVar{"s", ""}, vcVar{"b", false}, vcVar{"i", 0})
	set := func(s string, i int, b bool) {
		vspec.Assert(r.st.SetValue("s", s) == nil && r.st.SetValue("b", b) == nil && r.st.SetValue("i", i) == nil, "the values are stored")
	}
	set("one", vspec.IntBetween(0, 9), vspec.Bool())
	vspec.Assert(r.exec.Exec(r.st) == nil, "it executes")
	first := r.st.Buffer.String()
	was := append([]byte(nil), first...)
	if vspec.Pick(2) == 0 {
		r.st.Reset()
	} else {
		vspec.Assert(r.exec.Exec(r.st) == nil, "it executes")
	}
	set("other", vspec.IntBetween(0, 9), vspec.Bool())
	vspec.Assert(r.exec.Exec(r.st) == nil, "it executes")
	vspec.Assert(len(first) == len(was), "the first output keeps its length")
	for k := range was {
		vspec.Assert(first[k] == was[k], "the first output is kept")
	}
}
