package main

import "sort"

// Queries over a single small variable are decided exactly by set algebra: the
// solutions of every conjunct are computed as ranges and intersected. It gives
// the verdict the SMT solver would, without the round trip.

type span struct{ lo, hi uint64 } // closed

type domEnt struct {
	s  []span
	ok bool
}

type domains struct {
	c    *Ctx
	memo map[*Term]domEnt
}

func newDomains(c *Ctx) *domains { return &domains{c: c, memo: map[*Term]domEnt{}} }

func intersect(a, b []span) []span {
	var out []span
	for i, j := 0, 0; i < len(a) && j < len(b); {
		lo, hi := max(a[i].lo, b[j].lo), min(a[i].hi, b[j].hi)
		if lo <= hi {
			out = append(out, span{lo, hi})
		}
		if a[i].hi < b[j].hi {
			i++
		} else {
			j++
		}
	}
	return out
}

func normSpans(s []span) []span {
	sort.Slice(s, func(i, j int) bool { return s[i].lo < s[j].lo })
	var out []span
	for _, x := range s {
		if n := len(out); n > 0 && (out[n-1].hi == ^uint64(0) || x.lo <= out[n-1].hi+1) {
			out[n-1].hi = max(out[n-1].hi, x.hi)
			continue
		}
		out = append(out, x)
	}
	return out
}

func union(a, b []span) []span {
	return normSpans(append(append([]span{}, a...), b...))
}

func complement(s []span, m uint64) []span {
	var out []span
	next := uint64(0)
	for _, x := range s {
		if x.lo > next {
			out = append(out, span{next, x.lo - 1})
		}
		if x.hi >= m {
			return out
		}
		next = x.hi + 1
	}
	return append(out, span{next, m})
}

// rotate returns {x : x+k mod 2^w in s}.
func rotate(s []span, k uint64, w uint8) []span {
	m := mask(w)
	k &= m
	var out []span
	for _, x := range s {
		lo, hi := (x.lo-k)&m, (x.hi-k)&m
		if lo <= hi {
			out = append(out, span{lo, hi})
		} else {
			out = append(out, span{lo, m}, span{0, hi})
		}
	}
	return normSpans(out)
}

// truth returns the values of the only variable of t for which t holds.
func (d *domains) truth(t *Term) ([]span, bool) {
	if e, ok := d.memo[t]; ok {
		return e.s, e.ok
	}
	v := d.c.vars[t.vars[0]]
	s, ok := d.truth1(t, v)
	if !ok && v.w <= 8 && v.w > 0 {
		s, ok = d.brute(t, v)
	}
	if len(d.memo) > 300000 {
		d.memo = map[*Term]domEnt{}
	}
	d.memo[t] = domEnt{s, ok}
	return s, ok
}

func (d *domains) brute(t, v *Term) ([]span, bool) {
	md := &Model{}
	var out []span
	for x := uint64(0); x <= mask(v.w); x++ {
		md.set(int(v.c), x)
		d.c.NewEval()
		r, ok := d.c.eval(t, md)
		if !ok {
			return nil, false
		}
		if r != 0 {
			if n := len(out); n > 0 && out[n-1].hi+1 == x {
				out[n-1].hi = x
			} else {
				out = append(out, span{x, x})
			}
		}
	}
	return out, true
}

func (d *domains) sub(t *Term, m uint64) ([]span, bool) {
	if t.op == OpConst {
		if t.c != 0 {
			return []span{{0, m}}, true
		}
		return nil, true
	}
	return d.truth(t)
}

func (d *domains) truth1(t, v *Term) ([]span, bool) {
	m := mask(max(v.w, 1))
	switch t.op {
	case OpVar: // Bool
		return []span{{1, 1}}, true
	case OpNot:
		s, ok := d.sub(t.args[0], m)
		return complement(s, m), ok
	case OpAnd, OpOr:
		var acc []span
		for i, a := range t.args {
			s, ok := d.sub(a, m)
			if !ok {
				return nil, false
			}
			switch {
			case i == 0:
				acc = s
			case t.op == OpAnd:
				acc = intersect(acc, s)
			default:
				acc = union(acc, s)
			}
		}
		return acc, true
	case OpIte:
		c, ok1 := d.sub(t.args[0], m)
		a, ok2 := d.sub(t.args[1], m)
		b, ok3 := d.sub(t.args[2], m)
		return union(intersect(c, a), intersect(complement(c, m), b)), ok1 && ok2 && ok3
	case OpInRanges:
		rt := d.c.ranges[t.c]
		var s []span
		for i := range rt.lo {
			lo, hi := rt.lo[i], rt.hi[i]
			if lo < 0 && hi >= 0 {
				s = append(s, span{uint64(uint32(lo)), mask(32)}, span{0, uint64(hi)})
			} else {
				s = append(s, span{uint64(uint32(lo)), uint64(uint32(hi))})
			}
		}
		return d.pre(t.args[0], normSpans(s), m)
	case OpEq, OpULt, OpULe, OpSLt, OpSLe:
		a, b := t.args[0], t.args[1]
		if a.w == sBool || a.w == sFP {
			if a.w == sBool && t.op == OpEq {
				x, ok1 := d.sub(a, m)
				y, ok2 := d.sub(b, m)
				return union(intersect(x, y), intersect(complement(x, m), complement(y, m))), ok1 && ok2
			}
			return nil, false
		}
		mw := mask(a.w)
		var k uint64
		var e *Term
		left := true // e is the left operand
		switch {
		case b.op == OpConst:
			e, k = a, b.c
		case a.op == OpConst:
			e, k, left = b, a.c, false
		default:
			return nil, false
		}
		bias := uint64(0)
		op := t.op
		if op == OpSLt || op == OpSLe {
			bias = (mw >> 1) + 1
			if op == OpSLt {
				op = OpULt
			} else {
				op = OpULe
			}
		}
		k = (k + bias) & mw
		var s []span
		switch {
		case op == OpEq:
			s = []span{{k, k}}
		case op == OpULt && left:
			if k > 0 {
				s = []span{{0, k - 1}}
			}
		case op == OpULe && left:
			s = []span{{0, k}}
		case op == OpULt:
			if k < mw {
				s = []span{{k + 1, mw}}
			}
		default:
			s = []span{{k, mw}}
		}
		if bias != 0 {
			s = rotate(s, bias, a.w)
		}
		return d.pre(e, s, m)
	}
	return nil, false
}

// pre returns the values of the variable for which e lies in s.
func (d *domains) pre(e *Term, s []span, m uint64) ([]span, bool) {
	if len(s) == 0 {
		return nil, true
	}
	switch e.op {
	case OpVar:
		return s, true
	case OpConst:
		for _, x := range s {
			if x.lo <= e.c && e.c <= x.hi {
				return []span{{0, m}}, true
			}
		}
		return nil, true
	case OpZExt:
		return d.pre(e.args[0], intersect(s, []span{{0, mask(e.args[0].w)}}), m)
	case OpSExt:
		x := e.args[0]
		half := mask(x.w) >> 1
		pos := intersect(s, []span{{0, half}})
		lo := mask(e.w) - half // the sign-extended minimum
		for _, y := range intersect(s, []span{{lo, mask(e.w)}}) {
			pos = append(pos, span{y.lo & mask(x.w), y.hi & mask(x.w)})
		}
		return d.pre(x, normSpans(pos), m)
	case OpExtract:
		if e.c&0xff == 0 {
			if _, hi := ubound(e.args[0]); hi <= mask(e.w) {
				return d.pre(e.args[0], s, m)
			}
		}
	case OpAdd:
		if e.args[1].op == OpConst {
			return d.pre(e.args[0], rotate(s, e.args[1].c, e.w), m)
		}
		if e.args[0].op == OpConst {
			return d.pre(e.args[1], rotate(s, e.args[0].c, e.w), m)
		}
	case OpSub:
		if e.args[1].op == OpConst {
			return d.pre(e.args[0], rotate(s, -e.args[1].c, e.w), m)
		}
	case OpIte:
		c, ok1 := d.sub(e.args[0], m)
		a, ok2 := d.pre(e.args[1], s, m)
		b, ok3 := d.pre(e.args[2], s, m)
		return union(intersect(c, a), intersect(complement(c, m), b)), ok1 && ok2 && ok3
	}
	return nil, false
}

// decide answers a conjunction over one variable; ok=false if it cannot.
func (d *domains) decide(q []*Term) (Result, map[int32]uint64, bool) {
	if len(q[0].vars) != 1 {
		return 0, nil, false
	}
	v := d.c.vars[q[0].vars[0]]
	for _, t := range q {
		if len(t.vars) != 1 || t.vars[0] != q[0].vars[0] {
			return 0, nil, false
		}
	}
	var acc []span
	if v.w == sBool {
		acc = []span{{0, 1}}
	} else if v.w <= 64 {
		acc = []span{{0, mask(v.w)}}
	} else {
		return 0, nil, false
	}
	for _, t := range q {
		s, ok := d.truth(t)
		if !ok {
			return 0, nil, false
		}
		acc = intersect(acc, s)
		if len(acc) == 0 {
			return Unsat, nil, true
		}
	}
	return Sat, map[int32]uint64{q[0].vars[0]: acc[0].lo}, true
}

// refutes tells whether the last conjunct of q is false for all values that the
// other conjuncts over single variables leave.
func (d *domains) refutes(q []*Term) bool {
	x := &absEval{d: d, dom: map[int32][]span{}, memo: map[*Term]absVal{}}
	for _, t := range q {
		if len(t.vars) != 1 {
			continue
		}
		s, ok := d.truth(t)
		if !ok {
			continue
		}
		v := t.vars[0]
		if old, ok := x.dom[v]; ok {
			s = intersect(old, s)
		}
		if len(s) == 0 {
			return true
		}
		x.dom[v] = s
	}
	t := q[len(q)-1]
	if len(t.vars) == 1 {
		return false // already intersected
	}
	for _, t := range conjuncts(t, nil) {
		r := x.eval(t)
		if r.hi == 0 {
			return true
		}
	}
	return false
}

type absVal struct{ lo, hi uint64 }

// absEval is an interval evaluator over variable domains.
type absEval struct {
	d    *domains
	dom  map[int32][]span
	memo map[*Term]absVal
}

func (x *absEval) eval(t *Term) absVal {
	if t.op == OpConst {
		return absVal{t.c, t.c}
	}
	if r, ok := x.memo[t]; ok {
		return r
	}
	r := x.eval1(t)
	x.memo[t] = r
	return r
}

func (x *absEval) eval1(t *Term) absVal {
	top := absVal{0, mask(max(t.w, 1))}
	if t.w == sFP {
		return absVal{0, ^uint64(0)}
	}
	if t.w == sBool && len(t.vars) == 1 && t.op != OpVar {
		if dom, ok := x.dom[t.vars[0]]; ok {
			if s, ok := x.d.truth(t); ok {
				in := intersect(dom, s)
				if len(in) == 0 {
					return absVal{0, 0}
				}
				if len(intersect(dom, complement(s, mask(max(x.d.c.vars[t.vars[0]].w, 1))))) == 0 {
					return absVal{1, 1}
				}
			}
		}
		return top
	}
	switch t.op {
	case OpVar:
		if dom, ok := x.dom[int32(t.c)]; ok && len(dom) > 0 {
			return absVal{dom[0].lo, dom[len(dom)-1].hi}
		}
		return top
	case OpNot:
		a := x.eval(t.args[0])
		return absVal{1 - a.hi, 1 - a.lo}
	case OpAnd:
		r := absVal{1, 1}
		for _, a := range t.args {
			v := x.eval(a)
			r.lo, r.hi = min(r.lo, v.lo), min(r.hi, v.hi)
		}
		return r
	case OpOr:
		r := absVal{0, 0}
		for _, a := range t.args {
			v := x.eval(a)
			r.lo, r.hi = max(r.lo, v.lo), max(r.hi, v.hi)
		}
		return r
	case OpIte:
		c := x.eval(t.args[0])
		if c.lo == 1 {
			return x.eval(t.args[1])
		}
		if c.hi == 0 {
			return x.eval(t.args[2])
		}
		a, b := x.eval(t.args[1]), x.eval(t.args[2])
		return absVal{min(a.lo, b.lo), max(a.hi, b.hi)}
	case OpEq, OpULt, OpULe, OpSLt, OpSLe:
		if t.args[0].w == sFP {
			return top
		}
		a, b := x.eval(t.args[0]), x.eval(t.args[1])
		if t.op == OpSLt || t.op == OpSLe {
			half := mask(t.args[0].w) >> 1
			if a.hi > half || b.hi > half {
				return top
			}
		}
		switch t.op {
		case OpEq:
			if a.hi < b.lo || b.hi < a.lo {
				return absVal{0, 0}
			}
			if a.lo == a.hi && a == b {
				return absVal{1, 1}
			}
		case OpULt, OpSLt:
			if a.hi < b.lo {
				return absVal{1, 1}
			}
			if a.lo >= b.hi {
				return absVal{0, 0}
			}
		default:
			if a.hi <= b.lo {
				return absVal{1, 1}
			}
			if a.lo > b.hi {
				return absVal{0, 0}
			}
		}
		return top
	case OpInRanges:
		a := x.eval(t.args[0])
		if a.hi <= 0x7fffffff {
			rt := x.d.c.ranges[t.c]
			i := sort.Search(len(rt.hi), func(i int) bool { return int64(rt.hi[i]) >= int64(a.lo) })
			if i >= len(rt.lo) || int64(rt.lo[i]) > int64(a.hi) {
				return absVal{0, 0}
			}
			if int64(rt.lo[i]) <= int64(a.lo) && int64(rt.hi[i]) >= int64(a.hi) {
				return absVal{1, 1}
			}
		}
		return top
	case OpZExt:
		return x.eval(t.args[0])
	case OpSExt:
		a := x.eval(t.args[0])
		if a.hi <= mask(t.args[0].w)>>1 {
			return a
		}
	case OpExtract:
		a := x.eval(t.args[0])
		if t.c&0xff == 0 && a.hi <= mask(t.w) {
			return a
		}
	case OpAdd:
		a, b := x.eval(t.args[0]), x.eval(t.args[1])
		// a constant "negative" addend
		if t.args[1].op == OpConst && sext(b.lo, t.w) < 0 {
			k := uint64(-sext(b.lo, t.w))
			if a.lo >= k {
				return absVal{a.lo - k, a.hi - k}
			}
			return top
		}
		if hi := a.hi + b.hi; hi >= a.hi && hi <= mask(t.w) {
			return absVal{a.lo + b.lo, hi}
		}
	case OpSub:
		a, b := x.eval(t.args[0]), x.eval(t.args[1])
		if a.lo >= b.hi {
			return absVal{a.lo - b.hi, a.hi - b.lo}
		}
	case OpMul:
		a, b := x.eval(t.args[0]), x.eval(t.args[1])
		if a.hi < 1<<31 && b.hi < 1<<31 && a.hi*b.hi <= mask(t.w) {
			return absVal{a.lo * b.lo, a.hi * b.hi}
		}
	case OpShl:
		a := x.eval(t.args[0])
		if k := t.args[1]; k.op == OpConst && k.c < 32 && a.hi < 1<<31 && a.hi<<k.c <= mask(t.w) {
			return absVal{a.lo << k.c, a.hi << k.c}
		}
	}
	return top
}
