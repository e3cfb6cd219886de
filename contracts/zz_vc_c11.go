// Code generated by tools/gen/c11.py; DO NOT EDIT.

package velty

import (
	"unsafe"

	"github.com/viant/velty/internal/vspec"
)

// VcEnd is at the end of the paths
type VcEnd struct {
	A int8
	I int
	H int16
	U uint8
	F float64
	S string
	B bool
	P *int
	L []int
}

func vcMakeEnd() (e VcEnd) {
	e.A = 1
	i := vspec.Int()
	e.P = &i
	vspec.Fill(&e.I)
	vspec.Fill(&e.H)
	vspec.Fill(&e.U)
	vspec.Fill(&e.F)
	vspec.Fill(&e.S)
	vspec.Fill(&e.B)
	vspec.Fill(&e.L)
	return e
}

var vcEndNames = []string{"I", "H", "U", "F", "S", "B", "P", "L"}

// vcSameEnd compares what is stored at p with the field
func vcSameEnd(k int, p unsafe.Pointer, e *VcEnd) bool {
	switch k {
	case 0:
		v := *(*int)(p)
		return v == e.I
	case 1:
		v := *(*int16)(p)
		return v == e.H
	case 2:
		v := *(*uint8)(p)
		return v == e.U
	case 3:
		v := *(*float64)(p)
		return vspec.SameFloat(v, e.F)
	case 4:
		v := *(*string)(p)
		return v == e.S
	case 5:
		v := *(*bool)(p)
		return v == e.B
	case 6:
		v := *(**int)(p)
		return v == e.P
	case 7:
		v := *(*[]int)(p)
		return vcSameHead(unsafe.Pointer(&v), unsafe.Pointer(&e.L))
	}
	return false
}

// VcSrc gives values to functions
type VcSrc struct {
	k    int
	want *VcEnd
	n    int
}

// I takes a int
func (s *VcSrc) I(v int) int {
	vspec.Assert(vcSameEnd(0, unsafe.Pointer(&v), s.want), "a function gets the value of the selector")
	s.n++
	return 0
}

// H takes a int16
func (s *VcSrc) H(v int16) int {
	vspec.Assert(vcSameEnd(1, unsafe.Pointer(&v), s.want), "a function gets the value of the selector")
	s.n++
	return 0
}

// U takes a uint8
func (s *VcSrc) U(v uint8) int {
	vspec.Assert(vcSameEnd(2, unsafe.Pointer(&v), s.want), "a function gets the value of the selector")
	s.n++
	return 0
}

// F takes a float64
func (s *VcSrc) F(v float64) int {
	vspec.Assert(vcSameEnd(3, unsafe.Pointer(&v), s.want), "a function gets the value of the selector")
	s.n++
	return 0
}

// S takes a string
func (s *VcSrc) S(v string) int {
	vspec.Assert(vcSameEnd(4, unsafe.Pointer(&v), s.want), "a function gets the value of the selector")
	s.n++
	return 0
}

// B takes a bool
func (s *VcSrc) B(v bool) int {
	vspec.Assert(vcSameEnd(5, unsafe.Pointer(&v), s.want), "a function gets the value of the selector")
	s.n++
	return 0
}

// P takes a *int
func (s *VcSrc) P(v *int) int {
	vspec.Assert(vcSameEnd(6, unsafe.Pointer(&v), s.want), "a function gets the value of the selector")
	s.n++
	return 0
}

// L takes a []int
func (s *VcSrc) L(v []int) int {
	vspec.Assert(vcSameEnd(7, unsafe.Pointer(&v), s.want), "a function gets the value of the selector")
	s.n++
	return 0
}

// VcMidV leads to the end
type VcMidV struct {
	W int8
	V VcEnd
}

// VcOutVV leads there through V and V
type VcOutVV struct {
	X bool
	M VcMidV
}

// VcOutPV leads there through P and V
type VcOutPV struct {
	X bool
	R *VcMidV
}

// VcOutEV leads there through E and V
type VcOutEV struct {
	X bool
	VcMidV
}

// VcOutQV leads there through Q and V
type VcOutQV struct {
	X bool
	*VcMidV
}

// VcMidP leads to the end
type VcMidP struct {
	W int8
	P *VcEnd
}

// VcOutVP leads there through V and P
type VcOutVP struct {
	X bool
	M VcMidP
}

// VcOutPP leads there through P and P
type VcOutPP struct {
	X bool
	R *VcMidP
}

// VcOutEP leads there through E and P
type VcOutEP struct {
	X bool
	VcMidP
}

// VcOutQP leads there through Q and P
type VcOutQP struct {
	X bool
	*VcMidP
}

// VcMidE leads to the end
type VcMidE struct {
	W int8
	VcEnd
}

// VcOutVE leads there through V and E
type VcOutVE struct {
	X bool
	M VcMidE
}

// VcOutPE leads there through P and E
type VcOutPE struct {
	X bool
	R *VcMidE
}

// VcOutEE leads there through E and E
type VcOutEE struct {
	X bool
	VcMidE
}

// VcOutQE leads there through Q and E
type VcOutQE struct {
	X bool
	*VcMidE
}

// VcMidQ leads to the end
type VcMidQ struct {
	W int8
	*VcEnd
}

// VcOutVQ leads there through V and Q
type VcOutVQ struct {
	X bool
	M VcMidQ
}

// VcOutPQ leads there through P and Q
type VcOutPQ struct {
	X bool
	R *VcMidQ
}

// VcOutEQ leads there through E and Q
type VcOutEQ struct {
	X bool
	VcMidQ
}

// VcOutQQ leads there through Q and Q
type VcOutQQ struct {
	X bool
	*VcMidQ
}

func vcMakeVV() (VcOutVV, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidV{W: 2, V: e}
	o := VcOutVV{X: true, M: m}
	return o, want
}

func (h *vcHolder11) GetVV() VcOutVV  { return h.VV }
func (h *vcHolder11) PtrVV() *VcOutVV { return h.pVV }

func VC_C11_PathVV() {
	path := ".M.V"
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakeVV()
	var none *VcOutVV
	h := &vcHolder11{VV: o, pVV: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutVV{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutVV{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetVV()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrVV()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakeVP() (VcOutVP, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidP{W: 2, P: &e}
	if vspec.Pick(2) == 1 {
		m.P, want = nil, &VcEnd{}
	}
	o := VcOutVP{X: true, M: m}
	return o, want
}

func (h *vcHolder11) GetVP() VcOutVP  { return h.VP }
func (h *vcHolder11) PtrVP() *VcOutVP { return h.pVP }

func VC_C11_PathVP() {
	path := ".M.P"
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakeVP()
	var none *VcOutVP
	h := &vcHolder11{VP: o, pVP: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutVP{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutVP{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetVP()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrVP()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakeVE() (VcOutVE, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidE{W: 2, VcEnd: e}
	o := VcOutVE{X: true, M: m}
	return o, want
}

func (h *vcHolder11) GetVE() VcOutVE  { return h.VE }
func (h *vcHolder11) PtrVE() *VcOutVE { return h.pVE }

func VC_C11_PathVE() {
	path := ".M"
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakeVE()
	var none *VcOutVE
	h := &vcHolder11{VE: o, pVE: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutVE{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutVE{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetVE()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrVE()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakeVQ() (VcOutVQ, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidQ{W: 2, VcEnd: &e}
	if vspec.Pick(2) == 1 {
		m.VcEnd, want = nil, &VcEnd{}
	}
	o := VcOutVQ{X: true, M: m}
	return o, want
}

func (h *vcHolder11) GetVQ() VcOutVQ  { return h.VQ }
func (h *vcHolder11) PtrVQ() *VcOutVQ { return h.pVQ }

func VC_C11_PathVQ() {
	path := ".M"
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakeVQ()
	var none *VcOutVQ
	h := &vcHolder11{VQ: o, pVQ: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutVQ{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutVQ{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetVQ()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrVQ()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakePV() (VcOutPV, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidV{W: 2, V: e}
	o := VcOutPV{X: true, R: &m}
	if vspec.Pick(2) == 1 {
		o.R, want = nil, &VcEnd{}
	}
	return o, want
}

func (h *vcHolder11) GetPV() VcOutPV  { return h.PV }
func (h *vcHolder11) PtrPV() *VcOutPV { return h.pPV }

func VC_C11_PathPV() {
	path := ".R.V"
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakePV()
	var none *VcOutPV
	h := &vcHolder11{PV: o, pPV: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutPV{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutPV{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetPV()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrPV()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakePP() (VcOutPP, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidP{W: 2, P: &e}
	if vspec.Pick(2) == 1 {
		m.P, want = nil, &VcEnd{}
	}
	o := VcOutPP{X: true, R: &m}
	if vspec.Pick(2) == 1 {
		o.R, want = nil, &VcEnd{}
	}
	return o, want
}

func (h *vcHolder11) GetPP() VcOutPP  { return h.PP }
func (h *vcHolder11) PtrPP() *VcOutPP { return h.pPP }

func VC_C11_PathPP() {
	path := ".R.P"
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakePP()
	var none *VcOutPP
	h := &vcHolder11{PP: o, pPP: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutPP{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutPP{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetPP()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrPP()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakePE() (VcOutPE, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidE{W: 2, VcEnd: e}
	o := VcOutPE{X: true, R: &m}
	if vspec.Pick(2) == 1 {
		o.R, want = nil, &VcEnd{}
	}
	return o, want
}

func (h *vcHolder11) GetPE() VcOutPE  { return h.PE }
func (h *vcHolder11) PtrPE() *VcOutPE { return h.pPE }

func VC_C11_PathPE() {
	path := ".R"
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakePE()
	var none *VcOutPE
	h := &vcHolder11{PE: o, pPE: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutPE{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutPE{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetPE()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrPE()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakePQ() (VcOutPQ, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidQ{W: 2, VcEnd: &e}
	if vspec.Pick(2) == 1 {
		m.VcEnd, want = nil, &VcEnd{}
	}
	o := VcOutPQ{X: true, R: &m}
	if vspec.Pick(2) == 1 {
		o.R, want = nil, &VcEnd{}
	}
	return o, want
}

func (h *vcHolder11) GetPQ() VcOutPQ  { return h.PQ }
func (h *vcHolder11) PtrPQ() *VcOutPQ { return h.pPQ }

func VC_C11_PathPQ() {
	path := ".R"
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakePQ()
	var none *VcOutPQ
	h := &vcHolder11{PQ: o, pPQ: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutPQ{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutPQ{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetPQ()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrPQ()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakeEV() (VcOutEV, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidV{W: 2, V: e}
	o := VcOutEV{X: true, VcMidV: m}
	return o, want
}

func (h *vcHolder11) GetEV() VcOutEV  { return h.EV }
func (h *vcHolder11) PtrEV() *VcOutEV { return h.pEV }

func VC_C11_PathEV() {
	path := ".V"
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakeEV()
	var none *VcOutEV
	h := &vcHolder11{EV: o, pEV: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutEV{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutEV{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetEV()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrEV()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakeEP() (VcOutEP, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidP{W: 2, P: &e}
	if vspec.Pick(2) == 1 {
		m.P, want = nil, &VcEnd{}
	}
	o := VcOutEP{X: true, VcMidP: m}
	return o, want
}

func (h *vcHolder11) GetEP() VcOutEP  { return h.EP }
func (h *vcHolder11) PtrEP() *VcOutEP { return h.pEP }

func VC_C11_PathEP() {
	path := ".P"
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakeEP()
	var none *VcOutEP
	h := &vcHolder11{EP: o, pEP: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutEP{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutEP{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetEP()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrEP()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakeEE() (VcOutEE, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidE{W: 2, VcEnd: e}
	o := VcOutEE{X: true, VcMidE: m}
	return o, want
}

func (h *vcHolder11) GetEE() VcOutEE  { return h.EE }
func (h *vcHolder11) PtrEE() *VcOutEE { return h.pEE }

func VC_C11_PathEE() {
	path := ""
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakeEE()
	var none *VcOutEE
	h := &vcHolder11{EE: o, pEE: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutEE{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutEE{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetEE()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrEE()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakeEQ() (VcOutEQ, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidQ{W: 2, VcEnd: &e}
	if vspec.Pick(2) == 1 {
		m.VcEnd, want = nil, &VcEnd{}
	}
	o := VcOutEQ{X: true, VcMidQ: m}
	return o, want
}

func (h *vcHolder11) GetEQ() VcOutEQ  { return h.EQ }
func (h *vcHolder11) PtrEQ() *VcOutEQ { return h.pEQ }

func VC_C11_PathEQ() {
	path := ""
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakeEQ()
	var none *VcOutEQ
	h := &vcHolder11{EQ: o, pEQ: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutEQ{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutEQ{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetEQ()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrEQ()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakeQV() (VcOutQV, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidV{W: 2, V: e}
	o := VcOutQV{X: true, VcMidV: &m}
	if vspec.Pick(2) == 1 {
		o.VcMidV, want = nil, &VcEnd{}
	}
	return o, want
}

func (h *vcHolder11) GetQV() VcOutQV  { return h.QV }
func (h *vcHolder11) PtrQV() *VcOutQV { return h.pQV }

func VC_C11_PathQV() {
	path := ".V"
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakeQV()
	var none *VcOutQV
	h := &vcHolder11{QV: o, pQV: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutQV{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutQV{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetQV()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrQV()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakeQP() (VcOutQP, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidP{W: 2, P: &e}
	if vspec.Pick(2) == 1 {
		m.P, want = nil, &VcEnd{}
	}
	o := VcOutQP{X: true, VcMidP: &m}
	if vspec.Pick(2) == 1 {
		o.VcMidP, want = nil, &VcEnd{}
	}
	return o, want
}

func (h *vcHolder11) GetQP() VcOutQP  { return h.QP }
func (h *vcHolder11) PtrQP() *VcOutQP { return h.pQP }

func VC_C11_PathQP() {
	path := ".P"
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakeQP()
	var none *VcOutQP
	h := &vcHolder11{QP: o, pQP: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutQP{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutQP{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetQP()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrQP()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakeQE() (VcOutQE, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidE{W: 2, VcEnd: e}
	o := VcOutQE{X: true, VcMidE: &m}
	if vspec.Pick(2) == 1 {
		o.VcMidE, want = nil, &VcEnd{}
	}
	return o, want
}

func (h *vcHolder11) GetQE() VcOutQE  { return h.QE }
func (h *vcHolder11) PtrQE() *VcOutQE { return h.pQE }

func VC_C11_PathQE() {
	path := ""
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakeQE()
	var none *VcOutQE
	h := &vcHolder11{QE: o, pQE: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutQE{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutQE{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetQE()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrQE()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

func vcMakeQQ() (VcOutQQ, *VcEnd) {
	e := vcMakeEnd()
	want := &e
	m := VcMidQ{W: 2, VcEnd: &e}
	if vspec.Pick(2) == 1 {
		m.VcEnd, want = nil, &VcEnd{}
	}
	o := VcOutQQ{X: true, VcMidQ: &m}
	if vspec.Pick(2) == 1 {
		o.VcMidQ, want = nil, &VcEnd{}
	}
	return o, want
}

func (h *vcHolder11) GetQQ() VcOutQQ  { return h.QQ }
func (h *vcHolder11) PtrQQ() *VcOutQQ { return h.pQQ }

func VC_C11_PathQQ() {
	path := ""
	k := vspec.Pick(len(vcEndNames))
	o, want := vcMakeQQ()
	var none *VcOutQQ
	h := &vcHolder11{QQ: o, pQQ: &o}
	root, pre, post := "$x", "", ""
	vars := []vcVar{{"pad", int8(3)}}
	switch vspec.Pick(7) {
	case 0:
		vars = append(vars, vcVar{"x", o})
	case 1:
		vars = append(vars, vcVar{"x", &o})
	case 2:
		vars = append(vars, vcVar{"x", none})
		want = &VcEnd{}
	case 3:
		vars = append(vars, vcVar{"l", []VcOutQQ{o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 4:
		vars = append(vars, vcVar{"l", []*VcOutQQ{&o}})
		pre, post = "#foreach($x in $l)", "#end"
	case 5:
		vars = append(vars, vcVar{"h", h})
		root = "$h.GetQQ()"
	case 6:
		vars = append(vars, vcVar{"h", h})
		root = "$h.PtrQQ()"
	}
	vcSelect(root+path, pre, post, k, want, &o, vars)
}

type vcHolder11 struct {
	VV  VcOutVV
	pVV *VcOutVV
	VP  VcOutVP
	pVP *VcOutVP
	VE  VcOutVE
	pVE *VcOutVE
	VQ  VcOutVQ
	pVQ *VcOutVQ
	PV  VcOutPV
	pPV *VcOutPV
	PP  VcOutPP
	pPP *VcOutPP
	PE  VcOutPE
	pPE *VcOutPE
	PQ  VcOutPQ
	pPQ *VcOutPQ
	EV  VcOutEV
	pEV *VcOutEV
	EP  VcOutEP
	pEP *VcOutEP
	EE  VcOutEE
	pEE *VcOutEE
	EQ  VcOutEQ
	pEQ *VcOutEQ
	QV  VcOutQV
	pQV *VcOutQV
	QP  VcOutQP
	pQP *VcOutQP
	QE  VcOutQE
	pQE *VcOutQE
	QQ  VcOutQQ
	pQQ *VcOutQQ
}

// vcSelect reads path+field into a variable and as an argument, twice
func vcSelect(path, pre, post string, k int, want *VcEnd, data interface{}, vars []vcVar) {
	src := &VcSrc{k: k, want: want}
	sel := path + "." + vcEndNames[k]
	r := vcNew(pre+"#set($y = "+sel+")#set($z = $f."+vcEndNames[k]+"("+sel+"))"+post, append(vars, vcVar{"f", src}, vcVar{"z", 0})...)
	vspec.Freeze("reading changes nothing", data)
	r.run()
	vspec.Thaw()
	vspec.Assert(vcSameEnd(k, r.addr("y"), want), "the selector denotes the field")
	vspec.Assert(src.n == 1, "the function is called")
	r.run()
	vspec.Assert(vcSameEnd(k, r.addr("y"), want), "the selector denotes the field again")
	if k > 0 && (k < 3 || k > 5) {
		return
	}
	// as an operand and rendered
	key := []interface{}{want.I, 0, 0, want.F, want.S, want.B}[k]
	tmpl := pre + "#set($y = " + sel + " == $key)" + post
	if k == 4 {
		tmpl = pre + "#set($y = " + sel + " == $key)$" + "{" + sel[1:] + "}" + post
		vars = append(vars[:len(vars):len(vars)], vcVar{"y", false})
	}
	r = vcNewWith(New(BufferSize(len(want.S)+1)), tmpl, append(vars, vcVar{"key", key})...)
	r.run()
	eq := *(*bool)(r.addr("y"))
	vspec.Assert(vspec.Or(eq, want.F != want.F), "an operand has the value of the field")
	if k == 4 {
		vcSame(r.out(), "the field is rendered", want.S)
	}
}

// VcRec leads to itself
type VcRec struct {
	A int8
	I int
	N *VcRec
	S []VcRec
}

// Paths through a recursive type to any of its first seven levels, nil at any of them.
func VC_C11_Recursive() {
	depth, end := vspec.Pick(7), vspec.Pick(8)
	want, path := 0, "$x"
	var head, last *VcRec
	for i := 0; i < end; i++ {
		n := &VcRec{A: int8(i), I: vspec.Int()}
		if i == 0 {
			head = n
		} else {
			last.N = n
		}
		last = n
		if i == depth {
			want = n.I
		}
	}
	for i := 0; i < depth; i++ {
		path += ".N"
	}
	vars := []vcVar{{"pad", int8(3)}, {"x", head}, {"key", want}}
	if vspec.Pick(2) == 1 && head != nil {
		vars[1].value = *head
	}
	r := vcNew("#set($y = "+path+".I)#set($z = "+path+".I == $key)", vars...)
	vspec.Freeze("reading changes nothing", head)
	r.run()
	vspec.Thaw()
	vspec.Assert(*(*int)(r.addr("y")) == want, "the selector denotes the field")
	vspec.Assert(*(*bool)(r.addr("z")), "an operand has the value of the field")
}

// VcHidden has fields that hide those of what it embeds
type VcHidden struct {
	A int8
	VcHid1
	S string
	B bool
}

// VcHid1 is embedded
type VcHid1 struct {
	F float64
	*VcHid2
	I int
}

// VcHid2 is embedded by a pointer
type VcHid2 struct {
	W int8
	VcHid3
	T string
}

// VcHid3 is embedded again
type VcHid3 struct {
	X bool
	Y int
	V vcPair
	Q *vcPair
}

// Fields of structs embedded at several levels, among other fields.
func VC_C11_Embedded() {
	var h VcHidden
	p := vcPair{X: vspec.Int()}
	e := &VcHid2{W: 3, VcHid3: VcHid3{X: true, Y: vspec.Int(), V: vcPair{X: vspec.Int()}, Q: &p}}
	h.VcHid1 = VcHid1{F: 1, I: vspec.Int(), VcHid2: e}
	names := []string{"I", "Y", "V.X", "Q.X"}
	want := []int{h.I, e.Y, e.V.X, p.X}
	switch vspec.Pick(3) {
	case 1:
		e.Q = nil
		want[3] = 0
	case 2:
		h.VcHid2 = nil
		want[1], want[2], want[3] = 0, 0, 0
	}
	k := vspec.Pick(len(names))
	vars := []vcVar{{"pad", int8(3)}, {"x", h}, {"key", want[k]}}
	if vspec.Pick(2) == 1 {
		vars[1].value = &h
	}
	r := vcNew("#set($y = $x."+names[k]+")#set($z = $x."+names[k]+" == $key)", vars...)
	vspec.Freeze("reading changes nothing", &h)
	r.run()
	vspec.Thaw()
	vspec.Assert(*(*int)(r.addr("y")) == want[k], "the selector denotes the field")
	vspec.Assert(*(*bool)(r.addr("z")), "an operand has the value of the field")
}
