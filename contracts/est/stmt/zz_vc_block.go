package stmt

import (
	"errors"
	"unsafe"

	"github.com/viant/velty/est"
	"github.com/viant/velty/internal/vspec"
)

// vcSteps are n statements that write down that they ran
func vcSteps(n int, log *[]int, seen *est.State, vals []int) []est.New {
	var r []est.New
	for i := 0; i < n; i++ {
		i := i
		r = append(r, func(control est.Control) (est.Compute, error) {
			return func(state *est.State) unsafe.Pointer {
				vspec.Assert(state == seen, "the statement gets the state of the execution")
				*log = append(*log, i)
				return unsafe.Pointer(&vals[i])
			}, nil
		})
	}
	return r
}

// A block of n statements runs each once, in order, whatever n.
func VC_C08_NewBlock() {
	n := vspec.Pick(41)
	var log []int
	st := &est.State{}
	vals := make([]int, n)
	steps := vcSteps(n, &log, st, vals)
	c, err := NewBlock(steps)(est.Control(0))
	vspec.Assert(err == nil, "the block is made")
	vspec.Assert(len(log) == 0, "making the block runs nothing")
	for k := 0; k < 2; k++ {
		log = nil
		res := c(st)
		vspec.Assert(len(log) == n, "each statement runs once")
		for i := 0; i < n && i < len(log); i++ {
			vspec.Assert(log[i] == i, "the statements run in source order")
		}
		vspec.Assert(n == 0 || res == unsafe.Pointer(&vals[n-1]), "a block's result is its last statement's")
	}
}

// Any number of statements, no bound.
func VC_C08_Long() {
	hi := 3000
	if vspec.Symbolic() {
		hi = 1 << 30
	}
	n := vspec.IntBetween(0, hi)
	count := 0
	st := &est.State{}
	b := &Block{}
	vspec.Family(&b.Stmt, n, func(i int) est.Compute {
		return func(state *est.State) unsafe.Pointer {
			vspec.Assert(state == st, "the statement gets the state of the execution")
			vspec.Assert(count == i, "the i-th statement runs after i others")
			count++
			return nil
		}
	})
	vspec.MustTerminate()
	b.compute(st)
	vspec.Assert(count == n, "every statement runs")
}

// A statement that cannot be made is reported.
func VC_C08_Failing() {
	n := vspec.Pick(20) + 1
	k := vspec.Pick(n)
	var log []int
	st := &est.State{}
	steps := vcSteps(n, &log, st, make([]int, n))
	fail := errors.New("no")
	steps[k] = func(control est.Control) (est.Compute, error) { return nil, fail }
	_, err := NewBlock(steps)(est.Control(0))
	vspec.Assert(err == fail && len(log) == 0, "the failure is reported and nothing runs")
}
