package main

import "math/big"

// Interval reasoning in front of the solver: the bounds that follow from the path condition, kept in step with it.

type iv struct{ lo, hi *big.Int }

type ivTrail struct {
	t   *Term
	old iv
	had bool
}

type ivLevel struct {
	t        *Term
	trail    int
	conflict bool
}

type ivState struct {
	cur      map[*Term]iv
	trail    []ivTrail
	levels   []ivLevel
	conflict bool
	memo     map[*Term]iv
	memoB    map[*Term]int8
	depth    int
}

func newIV() *ivState {
	s := &ivState{cur: map[*Term]iv{}}
	s.fresh()
	return s
}

func (s *ivState) fresh() { s.memo, s.memoB = map[*Term]iv{}, map[*Term]int8{} }

func (s *ivState) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.levels) && s.levels[k].t == pc[k] {
		k++
	}
	s.popTo(k)
	for ; k < len(pc); k++ {
		s.push(pc[k])
	}
}

func (s *ivState) push(t *Term) {
	s.levels = append(s.levels, ivLevel{t, len(s.trail), s.conflict})
	s.fresh()
	s.learn(t)
	s.fresh()
}

func (s *ivState) popTo(k int) {
	if k >= len(s.levels) {
		return
	}
	lv := s.levels[k]
	for i := len(s.trail) - 1; i >= lv.trail; i-- {
		e := s.trail[i]
		if e.had {
			s.cur[e.t] = e.old
		} else {
			delete(s.cur, e.t)
		}
	}
	s.trail = s.trail[:lv.trail]
	s.conflict = lv.conflict
	s.levels = s.levels[:k]
	s.fresh()
}

// learn takes a true fact in
func (s *ivState) learn(t *Term) {
	switch t.op {
	case OFalse:
		s.conflict = true
	case OAnd:
		for _, x := range t.a {
			s.learn(x)
		}
	case OLe0:
		s.below(toLin(t.a[0]), false)
	case OEq0:
		s.below(toLin(t.a[0]), false)
		s.below(toLin(t.a[0]), true)
	case ONot:
		if t.a[0].op == OEq0 {
			l := toLin(t.a[0].a[0])
			if len(l.a) == 1 && l.co[0].CmpAbs(big1) == 0 {
				v := bneg(bmul(l.n, l.co[0]))
				x := s.of(l.a[0])
				if x.lo != nil && x.lo.Cmp(v) == 0 {
					s.tighten(l.a[0], badd(v, big1), nil)
				}
				if x.hi != nil && x.hi.Cmp(v) == 0 {
					s.tighten(l.a[0], nil, bsub(v, big1))
				}
			}
		}
		if t.a[0].op == OOr {
			for _, x := range t.a[0].a {
				s.learn(Not(x))
			}
		}
	case OOr:
		// a single alternative that is left
		var left *Term
		for _, x := range t.a {
			if s.truth(x) < 0 {
				continue
			}
			if left != nil {
				return
			}
			left = x
		}
		if left == nil {
			s.conflict = true
			return
		}
		s.learn(left)
	}
}

// below uses l <= 0 (or -l <= 0)
func (s *ivState) below(l lin, neg bool) {
	if len(l.a) > 12 {
		return
	}
	k := func(i int) *big.Int {
		if neg {
			return bneg(l.co[i])
		}
		return l.co[i]
	}
	n := l.n
	if neg {
		n = bneg(n)
	}
	lows := make([]*big.Int, len(l.a))
	missing := 0
	sum := n
	for i, a := range l.a {
		x := s.of(a)
		c := k(i)
		b := x.lo
		if c.Sign() < 0 {
			b = x.hi
		}
		if b == nil {
			missing++
			continue
		}
		lows[i] = bmul(c, b)
		sum = badd(sum, lows[i])
	}
	if missing > 1 {
		return
	}
	if missing == 0 && sum.Sign() > 0 {
		s.conflict = true
		return
	}
	for i, a := range l.a {
		rest := sum
		if lows[i] != nil {
			if missing > 0 {
				continue
			}
			rest = bsub(sum, lows[i])
		}
		c := k(i)
		// c*a <= -rest
		if c.Sign() > 0 {
			s.tighten(a, nil, fdiv(bneg(rest), c))
		} else {
			// a >= rest/(-c), rounded up
			d := bneg(c)
			s.tighten(a, bneg(fdiv(bneg(rest), d)), nil)
		}
	}
}

func (s *ivState) tighten(t *Term, lo, hi *big.Int) {
	x := s.of(t)
	better := false
	if lo != nil && (x.lo == nil || lo.Cmp(x.lo) > 0) {
		x.lo = lo
		better = true
	}
	if hi != nil && (x.hi == nil || hi.Cmp(x.hi) < 0) {
		x.hi = hi
		better = true
	}
	if !better {
		return
	}
	if x.lo != nil && x.hi != nil && x.lo.Cmp(x.hi) > 0 {
		s.conflict = true
		return
	}
	if t.isConst() {
		return
	}
	old, had := s.cur[t]
	s.trail = append(s.trail, ivTrail{t, old, had})
	s.cur[t] = x
	s.fresh()
	if s.depth > 6 {
		return
	}
	s.depth++
	defer func() { s.depth-- }()
	switch t.op {
	case ODiv:
		var l, h *big.Int
		if x.lo != nil {
			l = bmul(x.lo, t.n)
		}
		if x.hi != nil {
			h = badd(bmul(x.hi, t.n), bsub(t.n, big1))
		}
		s.tighten(t.a[0], l, h)
	case OLin:
		l := lin{t.n, t.a, t.co}
		if x.hi != nil {
			s.below(lin{bsub(l.n, x.hi), l.a, l.co}, false)
		}
		if x.lo != nil {
			s.below(lin{bsub(l.n, x.lo), l.a, l.co}, true)
		}
	case OMod:
		// the argument is inside one period
		y := s.of(t.a[0])
		if y.lo != nil && y.hi != nil {
			q := fdiv(y.lo, t.n)
			if q.Cmp(fdiv(y.hi, t.n)) == 0 {
				o := bmul(q, t.n)
				var l, h *big.Int
				if x.lo != nil {
					l = badd(x.lo, o)
				}
				if x.hi != nil {
					h = badd(x.hi, o)
				}
				s.tighten(t.a[0], l, h)
			}
		}
	case OIte:
		y, z := s.of(t.a[1]), s.of(t.a[2])
		apart := func(y iv) bool {
			return (x.lo != nil && y.hi != nil && y.hi.Cmp(x.lo) < 0) || (x.hi != nil && y.lo != nil && y.lo.Cmp(x.hi) > 0)
		}
		if apart(y) {
			s.learn(Not(t.a[0]))
			s.tighten(t.a[2], x.lo, x.hi)
		} else if apart(z) {
			s.learn(t.a[0])
			s.tighten(t.a[1], x.lo, x.hi)
		}
	}
}

// of is the interval of an integer term
func (s *ivState) of(t *Term) iv {
	if t.isConst() {
		return iv{t.n, t.n}
	}
	if x, ok := s.memo[t]; ok {
		return x
	}
	x := iv{t.lo, t.hi}
	meet := func(lo, hi *big.Int) {
		if lo != nil && (x.lo == nil || lo.Cmp(x.lo) > 0) {
			x.lo = lo
		}
		if hi != nil && (x.hi == nil || hi.Cmp(x.hi) < 0) {
			x.hi = hi
		}
	}
	if y, ok := s.cur[t]; ok {
		meet(y.lo, y.hi)
	}
	switch t.op {
	case OLin:
		lo, hi := t.n, t.n
		for i, a := range t.a {
			y := s.of(a)
			p, q := y.lo, y.hi
			if t.co[i].Sign() < 0 {
				p, q = q, p
			}
			if lo != nil && p != nil {
				lo = badd(lo, bmul(t.co[i], p))
			} else {
				lo = nil
			}
			if hi != nil && q != nil {
				hi = badd(hi, bmul(t.co[i], q))
			} else {
				hi = nil
			}
		}
		meet(lo, hi)
	case ODiv:
		y := s.of(t.a[0])
		var lo, hi *big.Int
		if y.lo != nil {
			lo = fdiv(y.lo, t.n)
		}
		if y.hi != nil {
			hi = fdiv(y.hi, t.n)
		}
		meet(lo, hi)
	case OMod:
		y := s.of(t.a[0])
		if y.lo != nil && y.hi != nil {
			q := fdiv(y.lo, t.n)
			if q.Cmp(fdiv(y.hi, t.n)) == 0 {
				o := bmul(q, t.n)
				meet(bsub(y.lo, o), bsub(y.hi, o))
			}
		}
	case OIte:
		switch s.truth(t.a[0]) {
		case 1:
			y := s.of(t.a[1])
			meet(y.lo, y.hi)
		case -1:
			y := s.of(t.a[2])
			meet(y.lo, y.hi)
		default:
			y, z := s.of(t.a[1]), s.of(t.a[2])
			var lo, hi *big.Int
			if y.lo != nil && z.lo != nil {
				lo = y.lo
				if z.lo.Cmp(lo) < 0 {
					lo = z.lo
				}
			}
			if y.hi != nil && z.hi != nil {
				hi = y.hi
				if z.hi.Cmp(hi) > 0 {
					hi = z.hi
				}
			}
			meet(lo, hi)
		}
	}
	s.memo[t] = x
	return x
}

// truth is 1 for true, -1 for false, 0 for undecided
func (s *ivState) truth(t *Term) int8 {
	switch t.op {
	case OTrue:
		return 1
	case OFalse:
		return -1
	case OLe0, OEq0, OAnd, OOr, ONot, OIff:
	default:
		return 0
	}
	if r, ok := s.memoB[t]; ok {
		return r
	}
	r := int8(0)
	switch t.op {
	case OLe0:
		x := s.of(t.a[0])
		if x.hi != nil && x.hi.Sign() <= 0 {
			r = 1
		} else if x.lo != nil && x.lo.Sign() > 0 {
			r = -1
		}
	case OEq0:
		x := s.of(t.a[0])
		if x.lo != nil && x.hi != nil && x.lo.Sign() == 0 && x.hi.Sign() == 0 {
			r = 1
		} else if (x.lo != nil && x.lo.Sign() > 0) || (x.hi != nil && x.hi.Sign() < 0) {
			r = -1
		}
	case OAnd, OOr:
		win := int8(-1)
		if t.op == OOr {
			win = 1
		}
		r = -win
		for _, x := range t.a {
			v := s.truth(x)
			if v == win {
				r = win
				break
			}
			if v == 0 {
				r = 0
			}
		}
	case ONot:
		r = -s.truth(t.a[0])
	case OIff:
		r = s.truth(t.a[0]) * s.truth(t.a[1])
	}
	s.memoB[t] = r
	return r
}

// sat answers whether t is decided under pc: 1 true, -1 false
func (s *ivState) sat(pc []*Term, t *Term) int8 {
	s.sync(pc)
	if s.conflict {
		return -1
	}
	r := s.truth(t)
	if r != 0 {
		return r
	}
	s.push(t)
	c := s.conflict
	s.popTo(len(s.levels) - 1)
	if c {
		return -1
	}
	return 0
}

// symbols are the names a term depends on
func symbols(t *Term, memo map[*Term]map[string]bool) map[string]bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := map[string]bool{}
	switch t.op {
	case OVar, OUF:
		r[t.name] = true
	}
	for _, a := range t.a {
		for k := range symbols(a, memo) {
			r[k] = true
		}
	}
	memo[t] = r
	return r
}

// slice keeps the conjuncts of pc that share symbols with t, directly or through each other
func slicePC(pc []*Term, t *Term, memo map[*Term]map[string]bool) []*Term {
	in := map[string]bool{}
	for k := range symbols(t, memo) {
		in[k] = true
	}
	used := make([]bool, len(pc))
	for again := true; again; {
		again = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			ss := symbols(c, memo)
			hit := false
			for k := range ss {
				if in[k] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				again = true
				for k := range ss {
					in[k] = true
				}
			}
		}
	}
	var out []*Term
	for i, c := range pc {
		if used[i] {
			out = append(out, c)
		}
	}
	return out
}
