package main

// Symbolic terms: a hash-consed DAG over Bool, BitVec(1..64), Float64, with a
// simplifier, a concrete evaluator and an SMT-LIB2 printer.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota // BV / Bool / FP constant (c holds bits)
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpConcat
	OpExtract // c = hi<<8|lo
	OpZExt
	OpSExt
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpInRanges // arg BV32, c = range table id
	OpU8       // byte #idx of the len-byte UTF-8 encoding of arg (BV32); c = idx<<8|len
	OpFBits    // FP from BV64
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFAbs
	OpFEq
	OpFLt
	OpFLe
	OpFIsNaN
	OpFToS // FP -> signed BV64, Go/amd64 semantics (out of range and NaN -> min)
	OpFromS
	OpFromU
	OpFRound // c: 0 trunc, 1 floor, 2 ceil
	OpFSqrt
	OpUF // uninterpreted FP function name(args)
)

const (
	sBool uint8 = 0
	sFP   uint8 = 65
)

type Term struct {
	op    Op
	w     uint8 // 0 Bool, 1..64 BV, 65 FP
	args  []*Term
	c     uint64
	name  string
	id    int
	vars  []int32 // sorted ids of free variables
	gen   int     // evaluator memo
	val   uint64
	ok    bool
	size  int
	isRng bool
	uf    bool // an uninterpreted function occurs in it
}

type tkey struct {
	op         Op
	w          uint8
	c          uint64
	a0, a1, a2 int
	name       string
}

type rangeTab struct {
	lo, hi []int32
}

type Ctx struct {
	tab     map[tkey]*Term
	next    int
	vars    []*Term // var id -> term
	True    *Term
	False   *Term
	gen     int
	ranges  []rangeTab
	rngKeys map[string]int
	vnames  map[string]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, rngKeys: map[string]int{}, vnames: map[string]*Term{}}
	c.True = c.mk(OpConst, sBool, 1, "")
	c.False = c.mk(OpConst, sBool, 0, "")
	return c
}

func (c *Ctx) mk(op Op, w uint8, k uint64, name string, args ...*Term) *Term {
	key := tkey{op: op, w: w, c: k, a0: -1, a1: -1, a2: -1, name: name}
	for i, a := range args {
		switch i {
		case 0:
			key.a0 = a.id
		case 1:
			key.a1 = a.id
		case 2:
			key.a2 = a.id
		}
	}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, c: k, name: name, id: c.next, args: args, gen: -1, size: 1}
	c.next++
	switch len(args) {
	case 0:
	case 1:
		t.vars = args[0].vars
	default:
		t.vars = unionVars(args)
	}
	t.uf = op == OpUF
	for _, a := range args {
		t.uf = t.uf || a.uf
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	c.tab[key] = t
	return t
}

func unionVars(args []*Term) []int32 {
	res := args[0].vars
	for _, a := range args[1:] {
		res = mergeVars(res, a.vars)
	}
	return res
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset checks
	i, j := 0, 0
	out := make([]int32, 0, len(a)+len(b))
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func (c *Ctx) Var(name string, w uint8) *Term {
	key := tkey{op: OpVar, w: w, a0: -1, a1: -1, a2: -1, name: name}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := c.mk(OpVar, w, 0, name)
	t.c = uint64(len(c.vars)) // var id
	t.vars = []int32{int32(len(c.vars))}
	c.vars = append(c.vars, t)
	c.vnames[name] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (c *Ctx) BV(v uint64, w uint8) *Term { return c.mk(OpConst, w, v&mask(w), "") }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) FP(bits uint64) *Term { return c.mk(OpConst, sFP, bits, "") }

func (t *Term) isConst() bool { return t.op == OpConst }

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OpConst {
		return c.Bool(a.c == 0)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return c.mk(OpNot, sBool, 0, "", a)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a == c.False || b == c.False {
		return c.False
	}
	if a == c.True {
		return b
	}
	if b == c.True || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAnd, sBool, 0, "", a, b)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a == c.True || b == c.True {
		return c.True
	}
	if a == c.False {
		return b
	}
	if b == c.False || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpOr, sBool, 0, "", a, b)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.op == OpConst {
		if cond.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == sBool {
		if a == c.True {
			return c.Or(cond, b)
		}
		if a == c.False {
			return c.And(c.Not(cond), b)
		}
		if b == c.True {
			return c.Or(c.Not(cond), a)
		}
		if b == c.False {
			return c.And(cond, a)
		}
	}
	if cond.op == OpNot {
		return c.Ite(cond.args[0], b, a)
	}
	return c.mk(OpIte, a.w, 0, "", cond, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq: sort mismatch %d %d", a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(a.c == b.c) // FP: structural (=) equality is bit equality here, NaN canonical
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.w == sBool {
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if b.op == OpConst {
		switch a.op {
		case OpIte:
			// push equality with constant into constant branches
			if a.args[1].op == OpConst || a.args[2].op == OpConst {
				return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
			}
		case OpZExt:
			x := a.args[0]
			if b.c&^mask(x.w) != 0 {
				return c.False
			}
			return c.Eq(x, c.BV(b.c, x.w))
		case OpSExt:
			x := a.args[0]
			if uint64(sext(b.c&mask(x.w), x.w))&mask(a.w) != b.c {
				return c.False
			}
			return c.Eq(x, c.BV(b.c, x.w))
		case OpAdd:
			if a.args[1].op == OpConst {
				return c.Eq(a.args[0], c.BV(b.c-a.args[1].c, a.w))
			}
		case OpSub:
			if a.args[1].op == OpConst {
				return c.Eq(a.args[0], c.BV(b.c+a.args[1].c, a.w))
			}
			if a.args[0].op == OpConst {
				return c.Eq(a.args[1], c.BV(a.args[0].c-b.c, a.w))
			}
		case OpBXor:
			if a.args[1].op == OpConst {
				return c.Eq(a.args[0], c.BV(b.c^a.args[1].c, a.w))
			}
		case OpU8:
			idx, ln := a.c>>8, a.c&0xff
			if ln == 1 && idx == 0 {
				// only meaningful when the rune is < 0x80 (path condition); keep exact byte semantics
				return c.Eq(c.Extract(a.args[0], 7, 0), b)
			}
		}
	} else if a.op == OpU8 && b.op == OpU8 && a.c == b.c && a.c == 1 {
		return c.Eq(c.Extract(a.args[0], 7, 0), c.Extract(b.args[0], 7, 0))
	}
	if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, sBool, 0, "", a, b)
}

// bvBin builds a binary bit-vector operation.
func (c *Ctx) bvBin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bvBin %d: width mismatch %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		if v, ok := foldBV(op, a.c, b.c, w); ok {
			return c.BV(v, w)
		}
	}
	switch op {
	case OpAdd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.c == 0 {
				return a
			}
			if a.op == OpAdd && a.args[1].op == OpConst {
				return c.bvBin(OpAdd, a.args[0], c.BV(a.args[1].c+b.c, w))
			}
			if a.op == OpSub && a.args[1].op == OpConst {
				return c.bvBin(OpAdd, a.args[0], c.BV(b.c-a.args[1].c, w))
			}
			if a.op == OpIte && a.args[1].op == OpConst && a.args[2].op == OpConst {
				return c.Ite(a.args[0], c.bvBin(OpAdd, a.args[1], b), c.bvBin(OpAdd, a.args[2], b))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OpSub:
		if a == b {
			return c.BV(0, w)
		}
		if b.op == OpConst {
			return c.bvBin(OpAdd, a, c.BV(-b.c, w))
		}
	case OpMul:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
			if bits.OnesCount64(b.c) == 1 {
				return c.bvBin(OpShl, a, c.BV(uint64(bits.TrailingZeros64(b.c)), w))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OpUDiv:
		if b.op == OpConst && b.c == 1 {
			return a
		}
		if b.op == OpConst && bits.OnesCount64(b.c) == 1 {
			return c.bvBin(OpLShr, a, c.BV(uint64(bits.TrailingZeros64(b.c)), w))
		}
	case OpURem:
		if b.op == OpConst && bits.OnesCount64(b.c) == 1 {
			return c.bvBin(OpBAnd, a, c.BV(b.c-1, w))
		}
	case OpBAnd:
		if a == b {
			return a
		}
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.c == 0 {
				return b
			}
			if b.c == mask(w) {
				return a
			}
			if a.op == OpZExt && b.c&mask(a.args[0].w) == mask(a.args[0].w) {
				return a
			}
			// low-bits mask
			if n := bits.TrailingZeros64(^b.c); bits.OnesCount64(b.c) == n && n > 0 && uint8(n) < w {
				return c.ZExt(c.Extract(a, uint8(n-1), 0), w)
			}
		}
	case OpBOr:
		if a == b {
			return a
		}
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst && b.c == 0 {
			return a
		}
	case OpBXor:
		if a == b {
			return c.BV(0, w)
		}
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst && b.c == 0 {
			return a
		}
	case OpSRem, OpSDiv:
		if op == OpSDiv && b.op == OpConst && b.c == 1 {
			return a
		}
		// a small constant dividend: only divisors up to its size matter
		if a.op == OpConst {
			if k := sext(a.c, w); k >= -64 && k <= 64 {
				lim := max(k, -k)
				r := c.BV(0, w)
				if op == OpSRem {
					r = a
				}
				for t := int64(0); t <= lim; t++ {
					for _, d := range []int64{t, -t} {
						v, _ := foldBV(op, a.c, uint64(d)&mask(w), w)
						r = c.Ite(c.Eq(b, c.BV(uint64(d), w)), c.BV(v, w), r)
					}
				}
				return r
			}
		}
	case OpShl, OpLShr, OpAShr:
		if b.op == OpConst && b.c == 0 {
			return a
		}
		if b.op == OpConst && b.c >= uint64(w) && op != OpAShr {
			return c.BV(0, w)
		}
	}
	return c.mk(op, w, 0, "", a, b)
}

func foldBV(op Op, a, b uint64, w uint8) (uint64, bool) {
	switch op {
	case OpAdd:
		return a + b, true
	case OpSub:
		return a - b, true
	case OpMul:
		return a * b, true
	case OpUDiv:
		if b == 0 {
			return mask(w), true
		}
		return a / b, true
	case OpURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OpSDiv:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			if sa >= 0 {
				return mask(w), true
			}
			return 1, true
		}
		if sb == -1 {
			return uint64(-sa), true
		}
		return uint64(sa / sb), true
	case OpSRem:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			return a, true
		}
		if sb == -1 {
			return 0, true
		}
		return uint64(sa % sb), true
	case OpBAnd:
		return a & b, true
	case OpBOr:
		return a | b, true
	case OpBXor:
		return a ^ b, true
	case OpShl:
		if b >= uint64(w) {
			return 0, true
		}
		return a << b, true
	case OpLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OpAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w) >> b), true
	}
	return 0, false
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.op == OpConst {
		return c.BV(^a.c, a.w)
	}
	return c.mk(OpBNot, a.w, 0, "", a)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.op == OpConst {
		return c.BV(-a.c, a.w)
	}
	if a.op == OpNeg {
		return a.args[0]
	}
	return c.mk(OpNeg, a.w, 0, "", a)
}

func (c *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		return c.BV(a.c>>lo, w)
	case OpZExt, OpSExt:
		x := a.args[0]
		if hi < x.w {
			return c.Extract(x, hi, lo)
		}
		if a.op == OpZExt && lo >= x.w {
			return c.BV(0, w)
		}
		if lo == 0 {
			// hi >= x.w: part of the extension remains
			if a.op == OpZExt {
				return c.ZExt(x, w)
			}
			return c.SExt(x, w)
		}
	case OpExtract:
		l0 := uint8(a.c & 0xff)
		return c.Extract(a.args[0], hi+l0, lo+l0)
	case OpIte:
		if a.args[1].op == OpConst || a.args[2].op == OpConst {
			return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
		}
	case OpAdd, OpSub, OpMul, OpBAnd, OpBOr, OpBXor:
		if lo == 0 {
			return c.bvBin(a.op, c.Extract(a.args[0], hi, 0), c.Extract(a.args[1], hi, 0))
		}
	}
	return c.mk(OpExtract, w, uint64(hi)<<8|uint64(lo), "", a)
}

func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OpConst:
		return c.BV(a.c, w)
	case OpZExt:
		return c.ZExt(a.args[0], w)
	case OpIte:
		if a.args[1].op == OpConst || a.args[2].op == OpConst {
			return c.Ite(a.args[0], c.ZExt(a.args[1], w), c.ZExt(a.args[2], w))
		}
	}
	return c.mk(OpZExt, w, 0, "", a)
}

func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OpConst:
		return c.BV(uint64(sext(a.c, a.w)), w)
	case OpZExt:
		return c.ZExt(a.args[0], w)
	case OpSExt:
		return c.SExt(a.args[0], w)
	case OpIte:
		if a.args[1].op == OpConst || a.args[2].op == OpConst {
			return c.Ite(a.args[0], c.SExt(a.args[1], w), c.SExt(a.args[2], w))
		}
	}
	return c.mk(OpSExt, w, 0, "", a)
}

// Resize converts between integer widths (truncating, or extending by the source's signedness).
func (c *Ctx) Resize(a *Term, w uint8, signed bool) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, w-1, 0)
	}
	if signed {
		return c.SExt(a, w)
	}
	return c.ZExt(a, w)
}

// ubound returns cheap unsigned bounds.
func ubound(t *Term) (lo, hi uint64) {
	switch t.op {
	case OpConst:
		return t.c, t.c
	case OpZExt:
		return ubound(t.args[0])
	case OpIte:
		l1, h1 := ubound(t.args[1])
		l2, h2 := ubound(t.args[2])
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1
	case OpURem:
		if t.args[1].op == OpConst && t.args[1].c > 0 {
			return 0, t.args[1].c - 1
		}
	case OpUDiv:
		if t.args[1].op == OpConst && t.args[1].c > 0 {
			l, h := ubound(t.args[0])
			return l / t.args[1].c, h / t.args[1].c
		}
	case OpLShr:
		if t.args[1].op == OpConst && t.args[1].c < 64 {
			l, h := ubound(t.args[0])
			return l >> t.args[1].c, h >> t.args[1].c
		}
	case OpAdd:
		l1, h1 := ubound(t.args[0])
		l2, h2 := ubound(t.args[1])
		if h1 <= mask(t.w) && h2 <= mask(t.w)-h1 {
			return l1 + l2, h1 + h2
		}
	case OpMul:
		l1, h1 := ubound(t.args[0])
		l2, h2 := ubound(t.args[1])
		if hi, p := bits.Mul64(h1, h2); hi == 0 && p <= mask(t.w) {
			return l1 * l2, p
		}
	case OpBAnd:
		_, h1 := ubound(t.args[0])
		_, h2 := ubound(t.args[1])
		if h2 < h1 {
			h1 = h2
		}
		return 0, h1
	}
	return 0, mask(t.w)
}

func (c *Ctx) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("Cmp: width mismatch")
	}
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(foldCmp(op, a.c, b.c, w))
	}
	if a == b {
		return c.Bool(op == OpULe || op == OpSLe)
	}
	// signed comparison of values whose top bit is provably clear: make unsigned
	if op == OpSLt || op == OpSLe {
		_, ha := ubound(a)
		_, hb := ubound(b)
		half := mask(w) >> 1
		if ha <= half && hb <= half {
			if op == OpSLt {
				op = OpULt
			} else {
				op = OpULe
			}
		} else if ha <= half && b.op == OpConst { // b negative const
			return c.False
		} else if hb <= half && a.op == OpConst { // a negative
			return c.True
		}
	}
	if op == OpULt || op == OpULe {
		la, ha := ubound(a)
		lb, hb := ubound(b)
		if op == OpULt {
			if ha < lb {
				return c.True
			}
			if la >= hb {
				return c.False
			}
		} else {
			if ha <= lb {
				return c.True
			}
			if la > hb {
				return c.False
			}
		}
		// strip zero extensions against constants
		if a.op == OpZExt && b.op == OpConst && b.c <= mask(a.args[0].w) {
			return c.Cmp(op, a.args[0], c.BV(b.c, a.args[0].w))
		}
		if b.op == OpZExt && a.op == OpConst && a.c <= mask(b.args[0].w) {
			return c.Cmp(op, c.BV(a.c, b.args[0].w), b.args[0])
		}
		if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
			return c.Cmp(op, a.args[0], b.args[0])
		}
	}
	// canonical: a<=b  ==>  not (b<a)
	if op == OpULe {
		return c.Not(c.Cmp(OpULt, b, a))
	}
	if op == OpSLe {
		return c.Not(c.Cmp(OpSLt, b, a))
	}
	if a.op == OpIte && b.op == OpConst && (a.args[1].op == OpConst || a.args[2].op == OpConst) {
		return c.Ite(a.args[0], c.Cmp(op, a.args[1], b), c.Cmp(op, a.args[2], b))
	}
	if b.op == OpIte && a.op == OpConst && (b.args[1].op == OpConst || b.args[2].op == OpConst) {
		return c.Ite(b.args[0], c.Cmp(op, a, b.args[1]), c.Cmp(op, a, b.args[2]))
	}
	return c.mk(op, sBool, 0, "", a, b)
}

func foldCmp(op Op, a, b uint64, w uint8) bool {
	switch op {
	case OpULt:
		return a < b
	case OpULe:
		return a <= b
	case OpSLt:
		return sext(a, w) < sext(b, w)
	case OpSLe:
		return sext(a, w) <= sext(b, w)
	}
	panic("foldCmp")
}

func (c *Ctx) RangeID(lo, hi []int32) int {
	key := fmt.Sprint(lo, hi)
	if id, ok := c.rngKeys[key]; ok {
		return id
	}
	c.ranges = append(c.ranges, rangeTab{lo, hi})
	c.rngKeys[key] = len(c.ranges) - 1
	return len(c.ranges) - 1
}

func inRanges(rt *rangeTab, v int32) bool {
	i := sort.Search(len(rt.hi), func(i int) bool { return rt.hi[i] >= v })
	return i < len(rt.lo) && rt.lo[i] <= v
}

// InRanges: signed 32-bit value lies in one of the sorted disjoint closed ranges.
func (c *Ctx) InRanges(a *Term, lo, hi []int32) *Term {
	if a.op != OpConst {
		// drop the ranges the value cannot reach
		if bl, bh := ubound(a); bh <= 0x7fffffff {
			var l2, h2 []int32
			for i := range lo {
				if int64(hi[i]) < int64(bl) || int64(lo[i]) > int64(bh) {
					continue
				}
				if int64(lo[i]) <= int64(bl) && int64(hi[i]) >= int64(bh) {
					return c.True
				}
				l2, h2 = append(l2, lo[i]), append(h2, hi[i])
			}
			lo, hi = l2, h2
		}
	}
	if len(lo) == 0 {
		return c.False
	}
	id := c.RangeID(lo, hi)
	if a.op == OpConst {
		return c.Bool(inRanges(&c.ranges[id], int32(a.c)))
	}
	if len(lo) == 1 && lo[0] == hi[0] {
		return c.Eq(a, c.BV(uint64(uint32(lo[0])), 32))
	}
	return c.mk(OpInRanges, sBool, uint64(id), "", a)
}

func u8byte(r uint32, idx, ln int) uint64 {
	switch ln {
	case 1:
		return uint64(r & 0xff)
	case 2:
		if idx == 0 {
			return uint64(0xC0 | (r>>6)&0x3f)
		}
		return uint64(0x80 | r&0x3F)
	case 3:
		switch idx {
		case 0:
			return uint64(0xE0 | (r>>12)&0x1f)
		case 1:
			return uint64(0x80 | (r>>6)&0x3f)
		}
		return uint64(0x80 | r&0x3f)
	}
	switch idx {
	case 0:
		return uint64(0xF0 | (r>>18)&0xf)
	case 1:
		return uint64(0x80 | (r>>12)&0x3f)
	case 2:
		return uint64(0x80 | (r>>6)&0x3f)
	}
	return uint64(0x80 | r&0x3f)
}

func (c *Ctx) U8(r *Term, idx, ln int) *Term {
	if r.op == OpConst {
		return c.BV(u8byte(uint32(r.c), idx, ln), 8)
	}
	if ln == 1 && r.op == OpZExt && r.args[0].w <= 8 {
		return c.Extract(r, 7, 0)
	}
	return c.mk(OpU8, 8, uint64(idx)<<8|uint64(ln), "", r)
}

// ---- floating point ----

func (c *Ctx) FBits(bv *Term) *Term {
	if bv.op == OpConst {
		return c.FP(canonNaN(bv.c))
	}
	return c.mk(OpFBits, sFP, 0, "", bv)
}

func canonNaN(b uint64) uint64 {
	if f := math.Float64frombits(b); f != f {
		return 0x7ff8000000000001
	}
	return b
}

func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.FP(foldF(op, a.c, b.c))
	}
	if (op == OpFAdd || op == OpFMul) && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, sFP, 0, "", a, b)
}

func foldF(op Op, a, b uint64) uint64 {
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	var r float64
	switch op {
	case OpFAdd:
		r = x + y
	case OpFSub:
		r = x - y
	case OpFMul:
		r = x * y
	case OpFDiv:
		r = x / y
	}
	return canonNaN(math.Float64bits(r))
}

func (c *Ctx) FNeg(a *Term) *Term {
	if a.op == OpConst {
		return c.FP(canonNaN(a.c ^ 1<<63))
	}
	if a.op == OpFNeg {
		return a.args[0]
	}
	return c.mk(OpFNeg, sFP, 0, "", a)
}

func (c *Ctx) FAbs(a *Term) *Term {
	if a.op == OpConst {
		return c.FP(canonNaN(a.c &^ (1 << 63)))
	}
	return c.mk(OpFAbs, sFP, 0, "", a)
}

func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		x, y := math.Float64frombits(a.c), math.Float64frombits(b.c)
		switch op {
		case OpFEq:
			return c.Bool(x == y)
		case OpFLt:
			return c.Bool(x < y)
		case OpFLe:
			return c.Bool(x <= y)
		}
	}
	if op == OpFEq && a.id > b.id {
		a, b = b, a
	}
	if a == b {
		if op == OpFLt {
			return c.False
		}
		return c.Not(c.FIsNaN(a))
	}
	return c.mk(op, sBool, 0, "", a, b)
}

func (c *Ctx) FIsNaN(a *Term) *Term {
	switch a.op {
	case OpFromS, OpFromU:
		return c.False
	case OpFNeg, OpFAbs:
		return c.FIsNaN(a.args[0])
	case OpFMul, OpFDiv:
		// by a finite constant other than zero, only a NaN makes a NaN
		if k := a.args[1]; k.op == OpConst {
			if f := math.Float64frombits(k.c); f != 0 && f-f == 0 {
				return c.FIsNaN(a.args[0])
			}
		}
	}
	if a.op == OpConst {
		f := math.Float64frombits(a.c)
		return c.Bool(f != f)
	}
	return c.mk(OpFIsNaN, sBool, 0, "", a)
}

func goF2I(f float64) int64 {
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(f)
}

func (c *Ctx) FToS(a *Term) *Term {
	if a.op == OpConst {
		return c.BV(uint64(goF2I(math.Float64frombits(a.c))), 64)
	}
	return c.mk(OpFToS, 64, 0, "", a)
}

func (c *Ctx) FromInt(a *Term, signed bool) *Term {
	if a.op == OpConst {
		if signed {
			return c.FP(math.Float64bits(float64(sext(a.c, a.w))))
		}
		return c.FP(math.Float64bits(float64(a.c)))
	}
	if !signed && a.w > 1 {
		if _, hi := ubound(a); hi <= mask(a.w)>>1 {
			signed = true
		}
	}
	if signed {
		return c.mk(OpFromS, sFP, 0, "", a)
	}
	return c.mk(OpFromU, sFP, 0, "", a)
}

func (c *Ctx) FRound(a *Term, mode uint64) *Term {
	if a.op == OpConst {
		return c.FP(canonNaN(math.Float64bits(foldRound(math.Float64frombits(a.c), mode))))
	}
	return c.mk(OpFRound, sFP, mode, "", a)
}

func foldRound(f float64, mode uint64) float64 {
	switch mode {
	case 0:
		return math.Trunc(f)
	case 1:
		return math.Floor(f)
	}
	return math.Ceil(f)
}

func (c *Ctx) FSqrt(a *Term) *Term {
	if a.op == OpConst {
		return c.FP(canonNaN(math.Float64bits(math.Sqrt(math.Float64frombits(a.c)))))
	}
	return c.mk(OpFSqrt, sFP, 0, "", a)
}

func (c *Ctx) UF(name string, args ...*Term) *Term {
	return c.mk(OpUF, sFP, 0, name, args...)
}

// ---- evaluation ----

type Model struct {
	v []uint64
}

func (m *Model) get(id uint64) uint64 {
	if m == nil || id >= uint64(len(m.v)) {
		return 0
	}
	return m.v[id]
}

// NewEval starts a fresh memo generation; call once per model.
func (c *Ctx) NewEval() { c.gen++ }

// nativeUF gives the real functions behind the names the solver leaves uninterpreted.
var nativeUF = map[string]func(a, b float64) float64{"pow": math.Pow, "mod": math.Mod}

// eval returns the value of t under m; ok=false when it depends on an unknown function.
func (c *Ctx) eval(t *Term, m *Model) (uint64, bool) {
	if t.op == OpConst {
		return t.c, true
	}
	if t.gen == c.gen {
		return t.val, t.ok
	}
	v, ok := c.eval1(t, m)
	t.gen, t.val, t.ok = c.gen, v, ok
	return v, ok
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) eval1(t *Term, m *Model) (uint64, bool) {
	switch t.op {
	case OpVar:
		v := m.get(t.c)
		if t.w >= 1 && t.w <= 64 {
			v &= mask(t.w)
		}
		return v, true
	case OpUF:
		fn := nativeUF[t.name]
		if fn == nil || len(t.args) != 2 {
			return 0, false
		}
		a, ok1 := c.eval(t.args[0], m)
		b, ok2 := c.eval(t.args[1], m)
		if !ok1 || !ok2 {
			return 0, false
		}
		return canonNaN(math.Float64bits(fn(math.Float64frombits(a), math.Float64frombits(b)))), true
	case OpAnd, OpOr:
		a, ok1 := c.eval(t.args[0], m)
		if ok1 && (t.op == OpAnd) == (a == 0) {
			return a, true
		}
		b, ok2 := c.eval(t.args[1], m)
		if ok2 && (t.op == OpAnd) == (b == 0) {
			return b, true
		}
		if !ok1 || !ok2 {
			return 0, false
		}
		if t.op == OpAnd {
			return a & b, true
		}
		return a | b, true
	case OpIte:
		cv, ok := c.eval(t.args[0], m)
		if !ok {
			return 0, false
		}
		if cv != 0 {
			return c.eval(t.args[1], m)
		}
		return c.eval(t.args[2], m)
	}
	var a, b uint64
	var ok bool
	if len(t.args) > 0 {
		if a, ok = c.eval(t.args[0], m); !ok {
			return 0, false
		}
	}
	if len(t.args) > 1 {
		if b, ok = c.eval(t.args[1], m); !ok {
			return 0, false
		}
	}
	var aw uint8
	if len(t.args) > 0 {
		aw = t.args[0].w
	}
	fa, fb := math.Float64frombits(a), math.Float64frombits(b)
	switch t.op {
	case OpNot:
		return 1 - a, true
	case OpEq:
		return b2u(a == b), true
	case OpBNot:
		return ^a & mask(t.w), true
	case OpNeg:
		return -a & mask(t.w), true
	case OpConcat:
		return a<<t.args[1].w | b, true
	case OpExtract:
		return (a >> (t.c & 0xff)) & mask(t.w), true
	case OpZExt:
		return a, true
	case OpSExt:
		return uint64(sext(a, aw)) & mask(t.w), true
	case OpULt, OpULe, OpSLt, OpSLe:
		return b2u(foldCmp(t.op, a, b, aw)), true
	case OpInRanges:
		return b2u(inRanges(&c.ranges[t.c], int32(a))), true
	case OpU8:
		return u8byte(uint32(a), int(t.c>>8), int(t.c&0xff)), true
	case OpFBits:
		return canonNaN(a), true
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		return foldF(t.op, a, b), true
	case OpFNeg:
		return canonNaN(a ^ 1<<63), true
	case OpFAbs:
		return canonNaN(a &^ (1 << 63)), true
	case OpFEq:
		return b2u(fa == fb), true
	case OpFLt:
		return b2u(fa < fb), true
	case OpFLe:
		return b2u(fa <= fb), true
	case OpFIsNaN:
		return b2u(fa != fa), true
	case OpFToS:
		return uint64(goF2I(fa)), true
	case OpFromS:
		return math.Float64bits(float64(sext(a, aw))), true
	case OpFromU:
		return math.Float64bits(float64(a)), true
	case OpFRound:
		return canonNaN(math.Float64bits(foldRound(fa, t.c))), true
	case OpFSqrt:
		return canonNaN(math.Float64bits(math.Sqrt(fa))), true
	}
	v, ok := foldBV(t.op, a, b, t.w)
	if !ok {
		panic(fmt.Sprintf("eval: op %d", t.op))
	}
	return v & mask(t.w), true
}

// ---- SMT-LIB printing ----

func sortName(w uint8) string {
	switch w {
	case sBool:
		return "Bool"
	case sFP:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func bvLit(v uint64, w uint8) string {
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

type printer struct {
	c       *Ctx
	sb      *strings.Builder
	done    map[int]bool
	varsOut map[int]bool
	ufs     map[string]bool
}

// emit writes declarations/definitions needed so that ref(t) is usable.
func (p *printer) emit(t *Term) {
	if t.op == OpConst || p.done[t.id] {
		return
	}
	p.done[t.id] = true
	for _, a := range t.args {
		p.emit(a)
	}
	if t.op == OpVar {
		fmt.Fprintf(p.sb, "(declare-const %s %s)\n", p.ref(t), sortName(t.w))
		return
	}
	if t.op == OpUF && !p.ufs[t.name] {
		p.ufs[t.name] = true
		fmt.Fprintf(p.sb, "(declare-fun uf_%s (%s) %s)\n", t.name, strings.TrimSpace(strings.Repeat(sortName(sFP)+" ", len(t.args))), sortName(sFP))
	}
	fmt.Fprintf(p.sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), p.body(t))
}

func (p *printer) ref(t *Term) string {
	switch t.op {
	case OpConst:
		switch t.w {
		case sBool:
			if t.c != 0 {
				return "true"
			}
			return "false"
		case sFP:
			f := math.Float64frombits(t.c)
			if f != f {
				return "(_ NaN 11 53)"
			}
			return fmt.Sprintf("((_ to_fp 11 53) %s)", bvLit(t.c, 64))
		}
		return bvLit(t.c, t.w)
	case OpVar:
		return "v_" + t.name
	}
	return fmt.Sprintf("t%d", t.id)
}

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpConcat: "concat", OpULt: "bvult", OpULe: "bvule", OpSLt: "bvslt", OpSLe: "bvsle",
	OpFNeg: "fp.neg", OpFAbs: "fp.abs", OpFEq: "fp.eq", OpFLt: "fp.lt", OpFLe: "fp.leq", OpFIsNaN: "fp.isNaN",
	OpFAdd: "fp.add RNE", OpFSub: "fp.sub RNE", OpFMul: "fp.mul RNE", OpFDiv: "fp.div RNE", OpFSqrt: "fp.sqrt RNE",
	OpFBits: "(_ to_fp 11 53)", OpFromS: "(_ to_fp 11 53) RNE", OpFromU: "(_ to_fp_unsigned 11 53) RNE",
}

func (p *printer) body(t *Term) string {
	var args []string
	for _, a := range t.args {
		args = append(args, p.ref(a))
	}
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.c>>8, t.c&0xff, args[0])
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, args[0])
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, args[0])
	case OpInRanges:
		rt := &p.c.ranges[t.c]
		var sb strings.Builder
		sb.WriteString("(or false")
		for i := range rt.lo {
			if rt.lo[i] == rt.hi[i] {
				fmt.Fprintf(&sb, " (= %s %s)", args[0], bvLit(uint64(uint32(rt.lo[i])), 32))
			} else {
				fmt.Fprintf(&sb, " (and (bvsle %s %s) (bvsle %s %s))", bvLit(uint64(uint32(rt.lo[i])), 32), args[0], args[0], bvLit(uint64(uint32(rt.hi[i])), 32))
			}
		}
		sb.WriteString(")")
		return sb.String()
	case OpU8:
		idx, ln := int(t.c>>8), int(t.c&0xff)
		if ln == 1 {
			return fmt.Sprintf("((_ extract 7 0) %s)", args[0])
		}
		if idx > 0 {
			lo := 6 * (ln - 1 - idx)
			return fmt.Sprintf("(concat #b10 ((_ extract %d %d) %s))", lo+5, lo, args[0])
		}
		switch ln {
		case 2:
			return fmt.Sprintf("(bvor #xC0 (concat #b00 ((_ extract 11 6) %s)))", args[0])
		case 3:
			return fmt.Sprintf("(bvor #xE0 (concat #b000 ((_ extract 16 12) %s)))", args[0])
		}
		return fmt.Sprintf("(bvor #xF0 (concat #b0000 ((_ extract 21 18) %s)))", args[0])
	case OpFToS:
		x := args[0]
		return fmt.Sprintf("(ite (and (fp.leq ((_ to_fp 11 53) #xC3E0000000000000) %s) (fp.lt %s ((_ to_fp 11 53) #x43E0000000000000))) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", x, x, x)
	case OpFRound:
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", []string{"RTZ", "RTN", "RTP"}[t.c], args[0])
	case OpUF:
		return fmt.Sprintf("(uf_%s %s)", t.name, strings.Join(args, " "))
	}
	return "(" + opNames[t.op] + " " + strings.Join(args, " ") + ")"
}

// conjuncts splits nested Ands.
func conjuncts(t *Term, out []*Term) []*Term {
	if t.op == OpAnd {
		out = conjuncts(t.args[0], out)
		return conjuncts(t.args[1], out)
	}
	return append(out, t)
}
