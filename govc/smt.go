package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Res is the answer of a solver
type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type level struct {
	t     *Term
	atoms []*Term
}

// Solver drives one SMT process; its assertion stack follows the path condition
type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	w        *bufio.Writer
	out      *bufio.Reader
	defined  map[int]bool
	decl     map[string]bool
	stack    []level
	active   map[int]int
	Queries  int
	Time     time.Duration
	Unknowns int
	timeout  int // ms
	log      io.Writer
	cache    map[string]Res
	memo     map[*Term]*Term
	iv       *ivState
	syms     map[*Term]map[string]bool
	cur      int
	Cheap    int
	bin      string
}

func newSolver(timeoutMS int) *Solver {
	s := &Solver{timeout: timeoutMS, bin: "z3", cache: map[string]Res{}, iv: newIV(), syms: map[*Term]map[string]bool{}}
	if b := os.Getenv("GOVC_Z3"); b != "" {
		s.bin = b
	}
	if f := os.Getenv("GOVC_SMTLOG"); f != "" {
		s.log, _ = os.Create(f)
	}
	s.start()
	return s
}

func (s *Solver) start() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		go s.cmd.Wait()
	}
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.w = bufio.NewWriterSize(s.in, 1<<16)
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "solver:", err)
		os.Exit(2)
	}
	s.defined = map[int]bool{}
	s.decl = map[string]bool{}
	s.active = map[int]int{}
	s.stack = nil
	s.send("(set-option :global-declarations true)\n")
	s.cur = -1
}

func (s *Solver) limit(ms int) {
	if s.cur != ms {
		s.cur = ms
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", ms))
	}
}

func (s *Solver) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.w.WriteString(x)
}

func sym(name string) string { return "|" + name + "|" }

// ref returns the SMT text of t, defining it first
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return smtInt(t.n)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OFConst:
		return smtFloat(t)
	case OVar:
		n := sym(t.name + "#" + strconv.Itoa(t.id))
		if !s.defined[t.id] {
			s.defined[t.id] = true
			s.send("(declare-const " + n + " " + t.sort.smt() + ")\n")
		}
		return n
	}
	n := "t" + strconv.Itoa(t.id)
	if s.defined[t.id] {
		return n
	}
	s.defined[t.id] = true
	args := make([]string, len(t.a))
	for i, a := range t.a {
		args[i] = s.ref(a)
	}
	var b string
	switch t.op {
	case OLin:
		var p []string
		if t.n.Sign() != 0 {
			p = append(p, smtInt(t.n))
		}
		for i := range t.a {
			if t.co[i].Cmp(big1) == 0 {
				p = append(p, args[i])
			} else {
				p = append(p, "(* "+smtInt(t.co[i])+" "+args[i]+")")
			}
		}
		if len(p) == 1 {
			b = p[0]
		} else {
			b = "(+ " + strings.Join(p, " ") + ")"
		}
	case OMod:
		b = "(mod " + args[0] + " " + smtInt(t.n) + ")"
	case ODiv:
		b = "(div " + args[0] + " " + smtInt(t.n) + ")"
	case OIte:
		b = "(ite " + strings.Join(args, " ") + ")"
	case ONot:
		b = "(not " + args[0] + ")"
	case OAnd:
		b = "(and " + strings.Join(args, " ") + ")"
	case OOr:
		b = "(or " + strings.Join(args, " ") + ")"
	case OIff, OSame:
		b = "(= " + strings.Join(args, " ") + ")"
	case OLe0:
		b = "(<= " + args[0] + " 0)"
	case OEq0:
		b = "(= " + args[0] + " 0)"
	case OFLt:
		b = "(fp.lt " + strings.Join(args, " ") + ")"
	case OFLe:
		b = "(fp.leq " + strings.Join(args, " ") + ")"
	case OFEq:
		b = "(fp.eq " + strings.Join(args, " ") + ")"
	case OFNeg:
		b = "(fp.neg " + args[0] + ")"
	case OUF:
		if t.name == "f32to64" {
			b = "((_ to_fp 11 53) RNE " + args[0] + ")"
			break
		}
		var sig []string
		for _, a := range t.a {
			sig = append(sig, a.sort.smt())
		}
		f := sym(t.name + ":" + strings.Join(sig, ",") + ":" + t.sort.smt())
		if !s.decl[f] {
			s.decl[f] = true
			s.send("(declare-fun " + f + " (" + strings.Join(sig, " ") + ") " + t.sort.smt() + ")\n")
		}
		if len(args) == 0 {
			b = f
		} else {
			b = "(" + f + " " + strings.Join(args, " ") + ")"
		}
	}
	s.send("(define-fun " + n + " () " + t.sort.smt() + " " + b + ")\n")
	return n
}

func (s *Solver) push(t *Term) {
	ref := s.ref(t)
	lv := level{t: t}
	s.send("(push 1)\n(assert " + ref + ")\n")
	for _, a := range t.boundedAtoms() {
		if s.active[a.id] > 0 {
			continue
		}
		s.active[a.id]++
		lv.atoms = append(lv.atoms, a)
		r := s.ref(a)
		if a.lo != nil {
			s.send("(assert (<= " + smtInt(a.lo) + " " + r + "))\n")
		}
		if a.hi != nil {
			s.send("(assert (<= " + r + " " + smtInt(a.hi) + "))\n")
		}
	}
	s.stack = append(s.stack, lv)
}

func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	for i := 0; i < n; i++ {
		lv := s.stack[len(s.stack)-1]
		for _, a := range lv.atoms {
			s.active[a.id]--
		}
		s.stack = s.stack[:len(s.stack)-1]
	}
	s.send(fmt.Sprintf("(pop %d)\n", n))
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && s.stack[k].t == pc[k] {
		k++
	}
	s.pop(len(s.stack) - k)
	for ; k < len(pc); k++ {
		s.push(pc[k])
	}
}

func (s *Solver) line() string {
	s.w.Flush()
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "died"
	}
	return strings.TrimSpace(l)
}

// check decides pc and t; with want it also returns the values of the wanted terms of a model
func (s *Solver) check(pc []*Term, t *Term, want []*Term) (Res, []string) {
	if t.isFalse() {
		return Unsat, nil
	}
	e := s.expand(t)
	if e.isFalse() {
		return Unsat, nil
	}
	var key strings.Builder
	for _, c := range pc {
		key.WriteString(strconv.Itoa(c.id) + ",")
	}
	key.WriteString("?" + strconv.Itoa(t.id))
	k := key.String()
	if len(want) == 0 {
		if r, ok := s.cache[k]; ok {
			return r, nil
		}
	}
	if len(want) == 0 {
		switch s.iv.sat(pc, t) {
		case 1:
			s.Cheap++
			return Sat, nil
		case -1:
			s.Cheap++
			return Unsat, nil
		}
		if e != t && s.iv.sat(pc, e) < 0 {
			s.Cheap++
			return Unsat, nil
		}
	}
	began := time.Now()
	s.Queries++
	first := s.timeout / 8
	res, vals := s.query(pc, t, want, first)
	if res == Unknown {
		part := slicePC(pc, t, s.syms)
		if len(want) == 0 && len(part) < len(pc) {
			res, vals = s.query(part, t, want, s.timeout)
		} else {
			res, vals = s.query(pc, t, want, s.timeout)
		}
	}
	d := time.Since(began)
	s.Time += d
	if res == Unknown {
		s.Unknowns++
	}
	if os.Getenv("GOVC_SLOW") != "" && d > 500*time.Millisecond {
		fmt.Fprintln(os.Stderr, "slow query", d, res, t.String())
	}
	if len(want) == 0 {
		s.cache[k] = res
	}
	return res, vals
}

func (s *Solver) query(pc []*Term, t *Term, want []*Term, ms int) (Res, []string) {
	s.limit(ms)
	s.sync(pc)
	s.push(t)
	for _, w := range want {
		s.ref(w)
	}
	s.send("(check-sat)\n")
	ans := s.line()
	if strings.HasPrefix(ans, "(error") { // what it was told is not what was meant: start afresh
		fmt.Fprintln(os.Stderr, "solver:", ans)
		s.start()
		return Unknown, nil
	}
	res := Unknown
	switch ans {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "died":
		s.start()
		return Unknown, nil
	}
	var vals []string
	if res == Sat && len(want) > 0 {
		for _, w := range want {
			s.send("(eval " + s.ref(w) + " :completion true)\n")
			vals = append(vals, s.value())
		}
	}
	s.pop(1)
	return res, vals
}

func (s *Solver) value() string {
	s.w.Flush()
	depth := 0
	var b strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return ""
		}
		if c == '\n' && depth == 0 && strings.TrimSpace(b.String()) != "" {
			return strings.TrimSpace(b.String())
		}
		b.WriteByte(c)
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
		}
	}
}

// parseInt reads an SMT integer value
func parseInt(v string) (*big.Int, bool) {
	v = strings.TrimSpace(v)
	neg := false
	if strings.HasPrefix(v, "(-") {
		neg = true
		v = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(v, "(-"), ")"))
	}
	r, ok := new(big.Int).SetString(v, 10)
	if ok && neg {
		r.Neg(r)
	}
	return r, ok
}

// parseFloat reads an SMT float value
func parseFloat(v string) (float64, bool) {
	v = strings.TrimSpace(v)
	switch {
	case strings.HasPrefix(v, "(_ +oo"):
		return math.Inf(1), true
	case strings.HasPrefix(v, "(_ -oo"):
		return math.Inf(-1), true
	case strings.HasPrefix(v, "(_ NaN"):
		return math.NaN(), true
	case strings.HasPrefix(v, "(_ +zero"):
		return 0, true
	case strings.HasPrefix(v, "(_ -zero"):
		return math.Copysign(0, -1), true
	}
	p := strings.Fields(strings.TrimSuffix(strings.TrimPrefix(v, "("), ")"))
	if len(p) != 4 || p[0] != "fp" {
		return 0, false
	}
	bits := ""
	for _, x := range p[1:] {
		if strings.HasPrefix(x, "#b") {
			bits += x[2:]
		} else if strings.HasPrefix(x, "#x") {
			for _, c := range x[2:] {
				d, err := strconv.ParseUint(string(c), 16, 8)
				if err != nil {
					return 0, false
				}
				bits += fmt.Sprintf("%04b", d)
			}
		}
	}
	if len(bits) == 32 {
		u, err := strconv.ParseUint(bits, 2, 32)
		return float64(math.Float32frombits(uint32(u))), err == nil
	}
	u, err := strconv.ParseUint(bits, 2, 64)
	return math.Float64frombits(u), err == nil
}

// expand writes a condition with telescoping sums
func (s *Solver) expand(t *Term) *Term {
	if s.memo == nil || len(s.memo) > 200000 {
		s.memo = map[*Term]*Term{}
	}
	return expandMods(t, s.memo)
}
