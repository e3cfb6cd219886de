// Package vspec is the language of the contracts. The verifier (govc) gives these functions their logical meaning;
// compiled with the Go compiler they replay a counterexample or try random values on the real code.
package vspec

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"time"
	"unsafe"
)

// Fill makes *p an arbitrary value of its type (the universally quantified variables of a contract).
func Fill(p interface{}) {
	v := reflect.ValueOf(p).Elem()
	if run.values != nil {
		if run.pos >= len(run.values) {
			panic(Skip{"no more values"})
		}
		x := run.values[run.pos]
		run.pos++
		set(v, x)
		return
	}
	random(v, 0)
	if len(run.log) < 100 {
		run.log = append(run.log, fmt.Sprintf("%#v", v.Interface()))
	}
}

func native() bool { return true }

func Int() (v int)         { Fill(&v); return v }
func Int8() (v int8)       { Fill(&v); return v }
func Int16() (v int16)     { Fill(&v); return v }
func Int32() (v int32)     { Fill(&v); return v }
func Int64() (v int64)     { Fill(&v); return v }
func Uint() (v uint)       { Fill(&v); return v }
func Uint8() (v uint8)     { Fill(&v); return v }
func Uint16() (v uint16)   { Fill(&v); return v }
func Uint32() (v uint32)   { Fill(&v); return v }
func Uint64() (v uint64)   { Fill(&v); return v }
func Bool() (v bool)       { Fill(&v); return v }
func Float64() (v float64) { Fill(&v); return v }
func Float32() (v float32) { Fill(&v); return v }
func String() (v string)   { Fill(&v); return v }
func Bytes() (v []byte)    { Fill(&v); return v }

// IntBetween is an arbitrary integer in [lo, hi].
func IntBetween(lo, hi int) int {
	v := Int()
	if native() && run.values == nil {
		v = lo + rand.Intn(hi-lo+1)
	}
	Assume(v >= lo)
	Assume(v <= hi)
	return v
}

// Pick is an arbitrary integer in [0, n), and each is a path of its own.
func Pick(n int) int {
	v := IntBetween(0, n-1)
	for i := 0; i < n-1; i++ {
		if v == i {
			return i
		}
	}
	return n - 1
}

// Assume restricts the quantified values.
func Assume(c bool) {
	if !c {
		panic(Skip{"assumption"})
	}
}

// Assert is an obligation.
func Assert(c bool, name string) {
	run.reached[name] = true
	if !c {
		panic(Failed{name})
	}
}

// AssertAll is the obligation that f holds for every i in [lo, hi).
func AssertAll(lo, hi int, f func(i int) bool, name string) {
	run.reached[name] = true
	for i := lo; i < hi; i++ {
		if !f(i) {
			panic(Failed{name})
		}
	}
}

// AssumeAll assumes f for every i in [lo, hi).
func AssumeAll(lo, hi int, f func(i int) bool) {
	for i := lo; i < hi; i++ {
		Assume(f(i))
	}
}

// Cover names a point the contract has to reach.
func Cover(name string) { run.reached[name] = true }

// SameFloat is identity of floats, NaN being the same as NaN.
func SameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}

// Invariant offers a condition as an invariant of the loops that follow; it is used where it is shown to be inductive.
func Invariant(f func() bool) {}

// HintAll offers "f(i) for every i in [lo, x)" as an invariant, for the bounds x the loops move.
func HintAll(lo, hi int, f func(i int) bool) {}

// HintI, HintII and HintIB offer a relation between the variables a loop changes (tried for every choice of them).
func HintI(f func(a int) bool)          {}
func HintII(f func(a, b int) bool)      {}
func HintIB(f func(a int, b bool) bool) {}

// GhostInts is the sequence of length n+1 with v[0] = first and v[k+1] = step(k, v[k]).
func GhostInts(n, first int, step func(k, prev int) int) []int {
	var v []int
	if native() {
		v = make([]int, n+1)
		v[0] = first
		for k := 0; k < n; k++ {
			v[k+1] = step(k, v[k])
		}
		return v
	}
	ghost(&v)
	Assume(len(v) == n+1)
	Assume(v[0] == first)
	// The verifier takes ghost integers to be within ghostMax. By induction they are: a step changes them by at most one.
	var x int
	ghost(&x)
	Assert(And(n < ghostMax/2, And(first <= ghostMax/2, first >= -ghostMax/2)), "ghost sequence")
	AssertAll(0, n, func(k int) bool { s := step(k, x); return And(s-x <= 1, s-x >= -1) }, "ghost step")
	AssumeAll(0, n, func(k int) bool { return v[k+1] == step(k, v[k]) })
	return v
}

const ghostMax = 1 << 42

// ghost makes an arbitrary value that is not an input.
func ghost(p interface{}) {}

// GhostBools is the sequence of length n+1 with v[0] = first and v[k+1] = step(k, v[k]).
func GhostBools(n int, first bool, step func(k int, prev bool) bool) []bool {
	var v []bool
	if native() {
		v = make([]bool, n+1)
		v[0] = first
		for k := 0; k < n; k++ {
			v[k+1] = step(k, v[k])
		}
		return v
	}
	ghost(&v)
	Assume(len(v) == n+1)
	Assume(v[0] == first)
	AssumeAll(0, n, func(k int) bool { return v[k+1] == step(k, v[k]) })
	return v
}

// Show prints a value (for debugging contracts).
func Show(v interface{}) {}

// MustTerminate makes termination of the loops that follow an obligation.
func MustTerminate() {}

// Unroll sets how many passes of an undetermined loop are followed before it is cut by an invariant.
func Unroll(n int) {}

// UnrollScans does the same for loops that call nothing but functions without calls and loops.
func UnrollScans(n int) {}

// Freeze makes everything reachable from the values read-only; writing to it breaks the obligation.
func Freeze(name string, values ...interface{}) { run.reached[name] = true }

// FreezeOthers makes everything that exists and is not reachable from the values read-only.
func FreezeOthers(name string, values ...interface{}) { run.reached[name] = true }

// Thaw ends all Freeze.
func Thaw() {}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Pass lets what the contract language itself throws go on, in a function that recovers.
func Pass(x interface{}) {
	switch x.(type) {
	case Failed, Skip:
		panic(x)
	}
}

// Symbolic says whether the verifier is running.
func Symbolic() bool { return false }

// Family makes *p (a slice of functions) n functions, the i-th being make(i).
func Family(p interface{}, n int, mk interface{}) {
	v := reflect.ValueOf(p).Elem()
	if n > 5000 {
		panic(Skip{"too many functions"})
	}
	s := reflect.MakeSlice(v.Type(), n, n)
	for i := 0; i < n; i++ {
		s.Index(i).Set(reflect.ValueOf(mk).Call([]reflect.Value{reflect.ValueOf(i)})[0])
	}
	v.Set(s)
}

func indexByte(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func countByte(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

// native execution

// Skip ends a run whose values do not satisfy an assumption
type Skip struct{ Why string }

// Failed is a failed obligation
type Failed struct{ Name string }

var run struct {
	values  []interface{}
	pos     int
	reached map[string]bool
	r       *rand.Rand
	log     []string
}

// Try runs a contract on the given values (random ones if nil): "ok", "skip" or the failed obligation
func Try(f func(), values []interface{}, seed int64) (res string) {
	run.values, run.pos, run.reached = values, 0, map[string]bool{}
	run.r = rand.New(rand.NewSource(seed))
	run.log = nil
	rand.Seed(seed)
	defer func() {
		x := recover()
		switch e := x.(type) {
		case nil:
		case Skip:
			res = "skip"
		case Failed:
			res = "failed " + e.Name
		default:
			res = fmt.Sprintf("failed no-panic: %v", x)
			if os.Getenv("VREPLAY_TRACE") != "" {
				panic(x)
			}
		}
	}()
	f()
	return "ok"
}

// Decode reads the values of a counterexample
func Decode(data []byte) ([]interface{}, error) {
	r := []interface{}{}
	err := json.Unmarshal(data, &r)
	return r, err
}

func set(v reflect.Value, x interface{}) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(x.(string) == "true")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(x.(string), 10, 64)
		if err != nil {
			panic(Skip{err.Error()})
		}
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		n, err := strconv.ParseUint(x.(string), 10, 64)
		if err != nil {
			panic(Skip{err.Error()})
		}
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(x.(string), 64)
		if err != nil {
			panic(Skip{err.Error()})
		}
		v.SetFloat(f)
	case reflect.String:
		bs := x.(map[string]interface{})["s"].([]interface{})
		b := make([]byte, len(bs))
		for i := range bs {
			n, _ := strconv.Atoi(bs[i].(string))
			b[i] = byte(n)
		}
		v.SetString(string(b))
	case reflect.Slice:
		es := x.(map[string]interface{})["e"].([]interface{})
		spare, _ := x.(map[string]interface{})["c"].(float64)
		s := reflect.MakeSlice(v.Type(), len(es), len(es)+int(spare))
		for i := range es {
			set(s.Index(i), es[i])
		}
		v.Set(s)
	case reflect.Array:
		for i, e := range x.([]interface{}) {
			set(v.Index(i), e)
		}
	case reflect.Struct:
		for i, e := range x.([]interface{}) {
			set(field(v, i), e)
		}
	case reflect.Ptr:
		e := x.(map[string]interface{})["p"]
		if e == nil {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		n := reflect.New(v.Type().Elem())
		set(n.Elem(), e)
		v.Set(n)
	default:
		panic(Skip{"value of kind " + v.Kind().String()})
	}
}

func field(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

// BytesFrom is an arbitrary byte slice of at least n bytes.
func BytesFrom(n int) []byte {
	v := Bytes()
	if native() && run.values == nil {
		for len(v) < n {
			v = append(v, byte(len(v)))
		}
	}
	Assume(len(v) >= n)
	return v
}

var someInts = []int64{0, 1, -1, 2, 3, 9, 10, 99, 100, 127, 128, 255, 256, -128, 32767, 65535, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1}
var someFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 2, 3, math.Inf(1), math.Inf(-1), math.NaN(), 1e308, 5e-324, 1.5, 100, 1 << 53}

func random(v reflect.Value, depth int) {
	r := run.r
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := int64(r.Uint64())
		switch r.Intn(3) {
		case 0:
			n = someInts[r.Intn(len(someInts))]
		case 1:
			n = int64(r.Intn(20)) - 5
		}
		v.SetInt(n << (64 - uint(v.Type().Bits())) >> (64 - uint(v.Type().Bits())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		n := r.Uint64()
		if r.Intn(2) == 0 {
			n = uint64(r.Intn(200))
		}
		v.SetUint(n << (64 - uint(v.Type().Bits())) >> (64 - uint(v.Type().Bits())))
	case reflect.Float32, reflect.Float64:
		f := r.NormFloat64() * 1000
		switch r.Intn(3) {
		case 0:
			f = someFloats[r.Intn(len(someFloats))]
		case 1:
			f = float64(r.Intn(10))
		}
		v.SetFloat(f)
	case reflect.String:
		n := r.Intn(12)
		b := make([]byte, n)
		set := "ab01_$#{}()[]\"'\\,. \n\t<&>AZ"
		for i := range b {
			b[i] = set[r.Intn(len(set))]
			if r.Intn(12) == 0 {
				b[i] = byte(r.Intn(256))
			}
		}
		v.SetString(string(b))
	case reflect.Slice:
		n := r.Intn(6)
		s := reflect.MakeSlice(v.Type(), n, n+r.Intn(3))
		if depth < 4 {
			for i := 0; i < n; i++ {
				random(s.Index(i), depth+1)
			}
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			random(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			random(field(v, i), depth+1)
		}
	case reflect.Ptr:
		if r.Intn(3) == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		n := reflect.New(v.Type().Elem())
		random(n.Elem(), depth+1)
		v.Set(n)
	}
}

// Main runs contracts on the real code: -vc NAME -values FILE, or -vc NAME -seed S -n N -ms M for random values
func Main(all map[string]func()) {
	name := flag.String("vc", "", "")
	file := flag.String("values", "", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 1, "")
	ms := flag.Int("ms", 1000, "")
	flag.Parse()
	f := all[*name]
	out := map[string]interface{}{"result": "skip", "contract": *name}
	if *file != "" {
		data, err := os.ReadFile(*file)
		if err != nil {
			panic(err)
		}
		values, err := Decode(data)
		if err != nil {
			panic(err)
		}
		out["result"] = Try(f, values, *seed)
		out["values"] = values
	} else {
		runs := 0
		began := time.Now()
		for i := 0; i < *n && time.Since(began) < time.Duration(*ms)*time.Millisecond; i++ {
			r := Try(f, nil, *seed*1000003+int64(i))
			if r == "ok" {
				out["result"] = r
				runs++
			}
			if len(r) > 5 && r[:6] == "failed" {
				out["result"] = r
				out["seed"] = *seed*1000003 + int64(i)
				out["values"] = fmt.Sprint(run.log)
				break
			}
		}
		out["runs"] = runs
	}
	b, _ := json.Marshal(out)
	fmt.Println("\nRESULT " + string(b))
}
