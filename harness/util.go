package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"unsafe"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
)

// Var is a template variable
type Var struct {
	Name string
	Val  interface{}
	Type reflect.Type
}

// Prog is a compiled template
type Prog struct {
	P    *velty.Planner
	Exec *est.Execution
	New  func() *est.State
	Vars []Var
}

func compile(opts []velty.Option, vars []Var, tpl string, regs ...func(p *velty.Planner) error) (*Prog, error) {
	p := velty.New(opts...)
	for _, r := range regs {
		if err := r(p); err != nil {
			return nil, fmt.Errorf("register: %w", err)
		}
	}
	for _, v := range vars {
		var t interface{} = v.Val
		if v.Type != nil {
			t = v.Type
		}
		if err := p.DefineVariable(v.Name, t); err != nil {
			return nil, fmt.Errorf("define: %w", err)
		}
	}
	e, n, err := p.Compile([]byte(tpl))
	if err != nil {
		return nil, err
	}
	return &Prog{P: p, Exec: e, New: n, Vars: vars}, nil
}

func (p *Prog) state(vars []Var) (*est.State, error) {
	s := p.New()
	for _, v := range vars {
		if err := s.SetValue(v.Name, v.Val); err != nil {
			return nil, err
		}
	}
	return s, nil
}

func (p *Prog) run(vars []Var) (string, *est.State, error) {
	s, err := p.state(vars)
	if err != nil {
		return "", nil, fmt.Errorf("set: %w", err)
	}
	err = p.Exec.Exec(s)
	return s.Buffer.String(), s, err
}

// value reads a variable of a state
func value(s *est.State, name string) (v interface{}, ok bool) {
	f, found := s.StateType.ValueAccessor(name)
	if !found {
		return nil, false
	}
	return reflect.NewAt(f.Type, unsafe.Pointer(uintptr(s.MemPtr)+f.Offset)).Elem().Interface(), true
}

// same compares two scalars bit by bit
func same(a, b interface{}) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y) || (x != x && y != y))
	}
	if x, ok := a.(float32); ok {
		y, ok := b.(float32)
		return ok && (math.Float32bits(x) == math.Float32bits(y) || (x != x && y != y))
	}
	return reflect.DeepEqual(a, b)
}

// render is the reference rendering of a scalar
func render(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case int:
		return strconv.Itoa(x)
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	case bool:
		return strconv.FormatBool(x)
	}
	panic(fmt.Sprintf("render %T", v))
}

func mismatch(what string, got, want interface{}) string {
	return fmt.Sprintf("%s: got %#v, want %#v", what, got, want)
}

var ints = []int{0, 1, -1, 2, -2, 3, 7, 10, 99, 100, 127, 128, -128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1,
	math.MaxUint32, math.MaxUint32 + 1, 1<<53 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}
var floats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1.5, -2.25, 0.1, 3, 100, 1e-300, 1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1 << 53, 1<<53 + 2, 255, 256}
var strs = []string{"", "a", "b", "ab", "aa", "B", "é", "\x00", "a\x00", "ab ", " ", "1", "true", "日本", "abcdefghijklmnopqrstuvwxyz", "\xff"}
var bools = []bool{false, true}

func jsonOf(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}
