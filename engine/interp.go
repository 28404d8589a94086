package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"runtime/debug"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type trailEnt struct {
	ptr *V
	old V
	fn  func()
	mp  *Map
}

type Frame struct {
	fn        *Fn
	r         []V
	m         *Machine
	caller    *Frame
	defers    []deferred
	panicking bool
	panicVal  targetPanic
	deferOf   *Frame
	block     int
	cur       *Instr
}

type deferred struct {
	kind uint8
	fn   *Fn
	cl   V
	args []V
	ins  *Instr
}

// targetPanic is a Go panic raised by interpreted code.
type targetPanic struct {
	v  V // an interface value
	rt bool
	at string
}

// pathAbort ends the current path.
type pathAbort struct {
	kind string // "assume", "unsupported", "steps", "depth", "internal", "done", "exit"
	msg  string
}

type Machine struct {
	pools    map[*V][]V // what sync.Pools hold
	released *released
	syncMaps map[*V]*Map
	prog     *Program
	ctx      *Ctx
	sol      *Solver
	globals  []*V
	trailOn  bool
	trail    []trailEnt
	stack    []V
	sp       int
	depth    int
	steps    int64
	maxStep  int64
	cur      *Frame
	initing  bool
	ps       *pathState
	ex       *Explorer
	inited   map[string]bool
	scratch  map[string]any
	frames   []*Frame // one per call depth, reused
	calls    map[*Fn]int64
	meths    map[methKey]*Fn
}

type methKey struct {
	rt   *RT
	meth *types.Func
}

func NewMachine(p *Program, ctx *Ctx, sol *Solver) *Machine {
	return &Machine{prog: p, ctx: ctx, sol: sol, stack: make([]V, 1<<20), maxStep: 1 << 62, inited: map[string]bool{}, scratch: map[string]any{}, calls: map[*Fn]int64{}, meths: map[methKey]*Fn{}}
}

func (m *Machine) global(i int) *V {
	for i >= len(m.globals) {
		m.prog.mu.RLock()
		n := len(m.prog.globRT)
		rts := m.prog.globRT[len(m.globals):n]
		m.prog.mu.RUnlock()
		for _, rt := range rts {
			v := new(V)
			*v = zero(rt)
			m.globals = append(m.globals, v)
		}
	}
	return m.globals[i]
}

func (fr *Frame) get(i int32) V {
	if i >= 0 {
		return fr.r[i]
	}
	if i > globBase {
		return fr.fn.consts[^i]
	}
	return V{p: fr.m.global(int(globBase - i))}
}

func (m *Machine) abort(kind, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if m.cur != nil {
		msg += " in " + m.cur.fn.name
		if m.cur.cur != nil && m.cur.cur.src != nil {
			if pos := m.cur.cur.src.Pos(); pos.IsValid() {
				msg += " at " + m.prog.prog.Fset.Position(pos).String()
			}
		}
		if m.cur.caller != nil {
			msg += " <- " + m.cur.caller.fn.name
			if m.cur.caller.caller != nil {
				msg += " <- " + m.cur.caller.caller.fn.name
			}
		}
	}
	panic(pathAbort{kind, msg})
}

func (m *Machine) unsupported(format string, args ...any) {
	m.abort("unsupported", format, args...)
}

func (m *Machine) where() string {
	s := ""
	for f, n := m.cur, 0; f != nil && n < 6; f, n = f.caller, n+1 {
		if n > 0 {
			s += " <- "
		}
		s += f.fn.name
	}
	return s
}

func (m *Machine) rtPanic(msg string) {
	rt := m.rtErrType()
	panic(targetPanic{v: V{p: &Iface{t: rt, v: mkStr(msg)}}, rt: true, at: m.where()})
}

var rtErrName = "errorString"

func (m *Machine) rtErrType() *RT {
	if pkg := m.prog.prog.ImportedPackage("runtime"); pkg != nil {
		if t := pkg.Type("errorString"); t != nil {
			return rtOf(t.Type())
		}
	}
	return rtOf(types.Typ[types.String])
}

func (m *Machine) set(p *V, v V) {
	if a, ok := v.p.(*Agg); ok {
		if d, ok := p.p.(*Agg); ok && len(d.e) == len(a.e) {
			if d == a {
				return
			}
			for i := range a.e {
				m.set(&d.e[i], a.e[i])
			}
			return
		}
		v = copyVal(v)
	}
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{ptr: p, old: *p})
	}
	*p = v
}

func (m *Machine) rollback(n int) {
	for i := len(m.trail) - 1; i >= n; i-- {
		e := &m.trail[i]
		if e.fn != nil {
			e.fn()
		} else {
			*e.ptr = e.old
		}
		*e = trailEnt{}
	}
	m.trail = m.trail[:n]
}

// ---- symbolic helpers ----

func (m *Machine) term(v V, rt *RT) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	switch rt.kind {
	case KBool:
		return m.ctx.Bool(v.n != 0)
	case KInt, KUint:
		return m.ctx.BV(v.n, rt.w)
	case KF64:
		return m.ctx.FP(canonNaN(v.n))
	}
	m.unsupported("term of kind %d", rt.kind)
	return nil
}

func mkV(t *Term, rt *RT) V {
	if t.op == OpConst {
		if rt.kind == KInt {
			return V{n: uint64(sext(t.c, rt.w))}
		}
		return V{n: t.c}
	}
	return V{p: t}
}

func boolV(t *Term) V {
	if t.op == OpConst {
		return V{n: t.c}
	}
	return V{p: t}
}

func (m *Machine) cond(v V) bool {
	if t, ok := v.p.(*Term); ok {
		return m.branch(t)
	}
	return v.n != 0
}

func (m *Machine) intVal(v V, rt *RT) int64 {
	if t, ok := v.p.(*Term); ok {
		return sext(m.concretize(t), t.w)
	}
	return int64(v.n)
}

// ---- equality ----

func (m *Machine) eq(rt *RT, a, b V) *Term {
	c := m.ctx
	switch rt.kind {
	case KBool, KInt, KUint:
		if a.p == nil && b.p == nil {
			return c.Bool(a.n == b.n)
		}
		return c.Eq(m.term(a, rt), m.term(b, rt))
	case KF64, KF32:
		if a.p == nil && b.p == nil {
			return c.Bool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
		}
		return c.FCmp(OpFEq, m.term(a, rt), m.term(b, rt))
	case KString:
		return m.strEq(a, b)
	case KStruct:
		x, y := a.p.(*Agg), b.p.(*Agg)
		r := c.True
		for i, f := range rt.fields {
			r = c.And(r, m.eq(f, x.e[i], y.e[i]))
			if r == c.False {
				return r
			}
		}
		return r
	case KArray:
		x, y := a.p.(*Agg), b.p.(*Agg)
		r := c.True
		for i := range x.e {
			r = c.And(r, m.eq(rt.elem, x.e[i], y.e[i]))
			if r == c.False {
				return r
			}
		}
		return r
	case KIface:
		if a.p == nil || b.p == nil {
			return c.Bool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if x.t != y.t {
			return c.False
		}
		if !x.t.cmp {
			m.rtPanic("comparing uncomparable type " + types.TypeString(x.t.t, nil))
		}
		return m.eq(x.t, x.v, y.v)
	case KFunc, KSlice, KMap:
		return c.Bool(a.p == nil && b.p == nil)
	}
	return c.Bool(a.p == b.p)
}

// ---- binop ----

func norm(v uint64, rt *RT) uint64 {
	if rt.kind == KInt {
		return uint64(sext(v, rt.w))
	}
	return v & mask(rt.w)
}

func (m *Machine) binop(tok token.Token, rt, rt2 *RT, a, b V) V {
	switch tok {
	case token.EQL:
		if rt != rt2 && (rt.kind == KIface) != (rt2.kind == KIface) {
			m.unsupported("mixed interface comparison")
		}
		return boolV(m.eq(rt, a, b))
	case token.NEQ:
		return boolV(m.ctx.Not(m.eq(rt, a, b)))
	}
	switch rt.kind {
	case KInt, KUint:
		if a.p == nil && b.p == nil {
			return m.intBin(tok, rt, rt2, a.n, b.n)
		}
		return m.symBin(tok, rt, rt2, a, b)
	case KF64, KF32:
		if a.p == nil && b.p == nil {
			x, y := math.Float64frombits(a.n), math.Float64frombits(b.n)
			var r float64
			switch tok {
			case token.ADD:
				r = x + y
			case token.SUB:
				r = x - y
			case token.MUL:
				r = x * y
			case token.QUO:
				r = x / y
			case token.LSS:
				return V{n: b2u(x < y)}
			case token.LEQ:
				return V{n: b2u(x <= y)}
			case token.GTR:
				return V{n: b2u(x > y)}
			case token.GEQ:
				return V{n: b2u(x >= y)}
			}
			if rt.kind == KF32 {
				r = float64(float32(r))
			}
			return V{n: math.Float64bits(r)}
		}
		if rt.kind == KF32 {
			m.unsupported("symbolic float32")
		}
		x, y := m.term(a, rt), m.term(b, rt)
		switch tok {
		case token.ADD:
			return mkV(m.ctx.FBin(OpFAdd, x, y), rt)
		case token.SUB:
			return mkV(m.ctx.FBin(OpFSub, x, y), rt)
		case token.MUL:
			return mkV(m.ctx.FBin(OpFMul, x, y), rt)
		case token.QUO:
			return mkV(m.ctx.FBin(OpFDiv, x, y), rt)
		case token.LSS:
			return boolV(m.ctx.FCmp(OpFLt, x, y))
		case token.LEQ:
			return boolV(m.ctx.FCmp(OpFLe, x, y))
		case token.GTR:
			return boolV(m.ctx.FCmp(OpFLt, y, x))
		case token.GEQ:
			return boolV(m.ctx.FCmp(OpFLe, y, x))
		}
	case KString:
		switch tok {
		case token.ADD:
			return m.strConcat(a, b)
		case token.LSS:
			return boolV(m.strLess(a, b))
		case token.GTR:
			return boolV(m.strLess(b, a))
		case token.LEQ:
			return boolV(m.ctx.Not(m.strLess(b, a)))
		case token.GEQ:
			return boolV(m.ctx.Not(m.strLess(a, b)))
		}
	case KBool:
		x, y := m.term(a, rt), m.term(b, rt)
		switch tok {
		case token.AND, token.LAND:
			return boolV(m.ctx.And(x, y))
		case token.OR, token.LOR:
			return boolV(m.ctx.Or(x, y))
		}
	}
	m.unsupported("binop %s on kind %d", tok, rt.kind)
	return V{}
}

func (m *Machine) intBin(tok token.Token, rt, rt2 *RT, a, b uint64) V {
	signed := rt.kind == KInt
	switch tok {
	case token.ADD:
		return V{n: norm(a+b, rt)}
	case token.SUB:
		return V{n: norm(a-b, rt)}
	case token.MUL:
		return V{n: norm(a*b, rt)}
	case token.QUO:
		if b == 0 {
			m.rtPanic("integer divide by zero")
		}
		if signed {
			if int64(b) == -1 {
				return V{n: norm(-a, rt)}
			}
			return V{n: norm(uint64(int64(a)/int64(b)), rt)}
		}
		return V{n: norm(a/b, rt)}
	case token.REM:
		if b == 0 {
			m.rtPanic("integer divide by zero")
		}
		if signed {
			if int64(b) == -1 {
				return V{}
			}
			return V{n: norm(uint64(int64(a)%int64(b)), rt)}
		}
		return V{n: norm(a%b, rt)}
	case token.AND:
		return V{n: a & b}
	case token.OR:
		return V{n: a | b}
	case token.XOR:
		return V{n: norm(a^b, rt)}
	case token.AND_NOT:
		return V{n: norm(a&^b, rt)}
	case token.SHL:
		if rt2.kind == KInt && int64(b) < 0 {
			m.rtPanic("negative shift amount")
		}
		if b >= 64 {
			return V{}
		}
		return V{n: norm(a<<b, rt)}
	case token.SHR:
		if rt2.kind == KInt && int64(b) < 0 {
			m.rtPanic("negative shift amount")
		}
		if signed {
			if b > 63 {
				b = 63
			}
			return V{n: uint64(int64(a) >> b)}
		}
		if b >= 64 {
			return V{}
		}
		return V{n: a >> b}
	case token.LSS:
		if signed {
			return V{n: b2u(int64(a) < int64(b))}
		}
		return V{n: b2u(a < b)}
	case token.LEQ:
		if signed {
			return V{n: b2u(int64(a) <= int64(b))}
		}
		return V{n: b2u(a <= b)}
	case token.GTR:
		if signed {
			return V{n: b2u(int64(a) > int64(b))}
		}
		return V{n: b2u(a > b)}
	case token.GEQ:
		if signed {
			return V{n: b2u(int64(a) >= int64(b))}
		}
		return V{n: b2u(a >= b)}
	}
	m.unsupported("int binop %s", tok)
	return V{}
}

func (m *Machine) symBin(tok token.Token, rt, rt2 *RT, a, b V) V {
	c := m.ctx
	x := m.term(a, rt)
	signed := rt.kind == KInt
	if tok == token.SHL || tok == token.SHR {
		y := m.term(b, rt2)
		if rt2.kind == KInt {
			if m.branch(c.Cmp(OpSLt, y, c.BV(0, y.w))) {
				m.rtPanic("negative shift amount")
			}
		}
		// bring the count to x's width, saturating
		var cnt *Term
		if y.w > x.w {
			big := c.Cmp(OpULe, c.BV(uint64(x.w), y.w), y)
			cnt = c.Ite(big, c.BV(uint64(x.w), x.w), c.Extract(y, x.w-1, 0))
		} else {
			cnt = c.ZExt(y, x.w)
		}
		op := OpShl
		if tok == token.SHR {
			op = OpLShr
			if signed {
				op = OpAShr
			}
		}
		return mkV(c.bvBin(op, x, cnt), rt)
	}
	y := m.term(b, rt)
	pick := func(s, u Op) Op {
		if signed {
			return s
		}
		return u
	}
	switch tok {
	case token.ADD:
		return mkV(c.bvBin(OpAdd, x, y), rt)
	case token.SUB:
		return mkV(c.bvBin(OpSub, x, y), rt)
	case token.MUL:
		return mkV(c.bvBin(OpMul, x, y), rt)
	case token.QUO, token.REM:
		if m.branch(c.Eq(y, c.BV(0, rt.w))) {
			m.rtPanic("integer divide by zero")
		}
		if tok == token.QUO {
			return mkV(c.bvBin(pick(OpSDiv, OpUDiv), x, y), rt)
		}
		return mkV(c.bvBin(pick(OpSRem, OpURem), x, y), rt)
	case token.AND:
		return mkV(c.bvBin(OpBAnd, x, y), rt)
	case token.OR:
		return mkV(c.bvBin(OpBOr, x, y), rt)
	case token.XOR:
		return mkV(c.bvBin(OpBXor, x, y), rt)
	case token.AND_NOT:
		return mkV(c.bvBin(OpBAnd, x, c.BNot(y)), rt)
	case token.LSS:
		return boolV(c.Cmp(pick(OpSLt, OpULt), x, y))
	case token.LEQ:
		return boolV(c.Cmp(pick(OpSLe, OpULe), x, y))
	case token.GTR:
		return boolV(c.Cmp(pick(OpSLt, OpULt), y, x))
	case token.GEQ:
		return boolV(c.Cmp(pick(OpSLe, OpULe), y, x))
	}
	m.unsupported("symbolic binop %s", tok)
	return V{}
}

// ---- conversions ----

func (m *Machine) convert(v V, from, to *RT) V {
	switch {
	case from.kind == KInt || from.kind == KUint:
		switch to.kind {
		case KInt, KUint:
			if t, ok := v.p.(*Term); ok {
				return mkV(m.ctx.Resize(t, to.w, from.kind == KInt), to)
			}
			return V{n: norm(v.n, to)}
		case KF64, KF32:
			if t, ok := v.p.(*Term); ok {
				if to.kind == KF32 {
					m.unsupported("symbolic float32")
				}
				return mkV(m.ctx.FromInt(t, from.kind == KInt), to)
			}
			var f float64
			if from.kind == KInt {
				f = float64(int64(v.n))
			} else {
				f = float64(v.n)
			}
			if to.kind == KF32 {
				f = float64(float32(f))
			}
			return V{n: math.Float64bits(f)}
		case KString:
			return m.runeToStr(v, from)
		case KUnsafe:
			return v
		}
	case from.kind == KF64 || from.kind == KF32:
		switch to.kind {
		case KF64, KF32:
			if v.p != nil {
				if to.kind == from.kind {
					return v
				}
				m.unsupported("symbolic float32")
			}
			if to.kind == KF32 {
				return V{n: math.Float64bits(float64(float32(math.Float64frombits(v.n))))}
			}
			return v
		case KInt, KUint:
			if t, ok := v.p.(*Term); ok {
				if to.kind == KUint && to.w == 64 {
					m.unsupported("symbolic float to uint64")
				}
				return mkV(m.ctx.Resize(m.ctx.FToS(t), to.w, true), to)
			}
			f := math.Float64frombits(v.n)
			if to.kind == KUint && to.w == 64 {
				return V{n: uint64(f)}
			}
			return V{n: norm(uint64(goF2I(f)), to)}
		}
	case from.kind == KString && to.kind == KSlice:
		if to.elem.kind == KUint && to.elem.w == 8 {
			n := strLen(v)
			s := make([]V, n, roundCap(n, 1))
			for i := 0; i < n; i++ {
				s[i] = m.strByte(v, i)
			}
			return V{p: &Sl{s}}
		}
		if to.elem.w == 32 {
			var s []V
			for i := 0; i < strLen(v); {
				r, w := m.decodeRune(v, i)
				s = append(s, r)
				i += w
			}
			if s == nil {
				s = []V{}
			}
			n := len(s)
			full := make([]V, n, roundCap(n, 4))
			copy(full, s)
			return V{p: &Sl{full}}
		}
	case from.kind == KSlice && to.kind == KString:
		if v.p == nil {
			return V{}
		}
		s := v.p.(*Sl).s
		if from.elem.w == 8 {
			return m.bytesToStr(s)
		}
		if from.elem.w == 32 {
			out := V{}
			allc := true
			for _, e := range s {
				if e.p != nil {
					allc = false
					break
				}
			}
			if allc {
				rs := make([]rune, len(s))
				for i, e := range s {
					rs[i] = rune(int32(e.n))
				}
				return mkStr(string(rs))
			}
			var ts []*Term
			for _, e := range s {
				ts = append(ts, m.strTerms(m.runeToStr(e, from.elem))...)
			}
			out = fromTerms(ts)
			return out
		}
	case from.kind == KPtr || from.kind == KUnsafe || to.kind == KUnsafe:
		return v
	case from.kind == to.kind:
		return v
	}
	m.unsupported("convert %s -> %s", from.t, to.t)
	return V{}
}

func (m *Machine) bytesToStr(s []V) V {
	allc := true
	for i := range s {
		if s[i].p != nil {
			allc = false
			break
		}
	}
	if allc {
		b := make([]byte, len(s))
		for i := range s {
			b[i] = byte(s[i].n)
		}
		return mkStr(string(b))
	}
	ts := make([]*Term, len(s))
	for i := range s {
		if t, ok := s[i].p.(*Term); ok {
			ts[i] = t
		} else {
			ts[i] = m.ctx.BV(s[i].n, 8)
		}
	}
	return fromTerms(ts)
}

// runeToStr encodes a rune, forking on the encoded length when symbolic.
func (m *Machine) runeToStr(v V, from *RT) V {
	t, ok := v.p.(*Term)
	if !ok {
		x := int64(v.n)
		if x < 0 || x > utf8.MaxRune {
			return mkStr("\uFFFD")
		}
		return mkStr(string(rune(x)))
	}
	c := m.ctx
	r := c.Resize(t, 32, from.kind == KInt)
	if t.w > 32 {
		if !m.branch(c.Eq(c.SExt(r, t.w), t)) {
			return mkStr("\uFFFD")
		}
	}
	lt := func(k uint64) *Term { return c.Cmp(OpULt, r, c.BV(k, 32)) }
	n := 0
	switch {
	case m.branch(lt(0x80)):
		n = 1
	case m.branch(lt(0x800)):
		n = 2
	case m.branch(lt(0x10000)):
		if m.branch(c.And(c.Not(lt(0xD800)), lt(0xE000))) {
			return mkStr("\uFFFD")
		}
		n = 3
	case m.branch(lt(0x110000)):
		n = 4
	default:
		return mkStr("\uFFFD")
	}
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = c.U8(r, i, n)
	}
	return fromTerms(ts)
}

// decodeRune decodes at byte offset i, returning a 32-bit rune value and width.
func (m *Machine) decodeRune(v V, i int) (V, int) {
	if s, ok := v.p.(string); ok {
		r, w := utf8.DecodeRuneInString(s[i:])
		return V{n: uint64(int64(r))}, w
	}
	b := v.p.(*SymStr).b
	return m.decodeTerms(b, i)
}

func (m *Machine) decodeTerms(b []*Term, i int) (V, int) {
	c := m.ctx
	t := b[i]
	i32 := rtOf(types.Typ[types.Int32])
	if t.op == OpU8 && t.c>>8 == 0 {
		n := int(t.c & 0xff)
		if i+n <= len(b) {
			ok := true
			for k := 1; k < n; k++ {
				u := b[i+k]
				if u.op != OpU8 || u.args[0] != t.args[0] || int(u.c>>8) != k || int(u.c&0xff) != n {
					ok = false
				}
			}
			if ok {
				return V{p: t.args[0]}, n
			}
		}
	}
	if t.op == OpConst && t.c < 0x80 {
		return V{n: t.c}, 1
	}
	// all-constant sequence
	allc := true
	var buf []byte
	for k := i; k < len(b) && k < i+4; k++ {
		if b[k].op != OpConst {
			allc = k > i && b[i].op == OpConst
			break
		}
		buf = append(buf, byte(b[k].c))
	}
	if t.op == OpConst && allc && (len(buf) == 4 || i+len(buf) == len(b) || utf8.FullRune(buf)) {
		r, w := utf8.DecodeRune(buf)
		return V{n: uint64(int64(r))}, w
	}
	lt := func(x *Term, k uint64) *Term { return c.Cmp(OpULt, x, c.BV(k, 8)) }
	in := func(x *Term, lo, hi uint64) *Term {
		return c.And(c.Cmp(OpULe, c.BV(lo, 8), x), c.Cmp(OpULe, x, c.BV(hi, 8)))
	}
	if m.branch(lt(t, 0x80)) {
		return mkV(c.ZExt(t, 32), i32), 1
	}
	bad := V{n: 0xFFFD}
	rest := len(b) - i
	ext := func(x *Term, hi uint8) *Term { return c.ZExt(c.Extract(x, hi, 0), 32) }
	shl := func(x *Term, k uint64) *Term { return c.bvBin(OpShl, x, c.BV(k, 32)) }
	or := func(x, y *Term) *Term { return c.bvBin(OpBOr, x, y) }
	if m.branch(in(t, 0xC2, 0xDF)) {
		if rest < 2 || !m.branch(in(b[i+1], 0x80, 0xBF)) {
			return bad, 1
		}
		return mkV(or(shl(ext(t, 4), 6), ext(b[i+1], 5)), i32), 2
	}
	if m.branch(in(t, 0xE0, 0xEF)) {
		if rest < 2 {
			return bad, 1
		}
		lo := c.Ite(c.Eq(t, c.BV(0xE0, 8)), c.BV(0xA0, 8), c.BV(0x80, 8))
		hi := c.Ite(c.Eq(t, c.BV(0xED, 8)), c.BV(0x9F, 8), c.BV(0xBF, 8))
		if !m.branch(c.And(c.Cmp(OpULe, lo, b[i+1]), c.Cmp(OpULe, b[i+1], hi))) {
			return bad, 1
		}
		if rest < 3 || !m.branch(in(b[i+2], 0x80, 0xBF)) {
			return bad, 1
		}
		return mkV(or(or(shl(ext(t, 3), 12), shl(ext(b[i+1], 5), 6)), ext(b[i+2], 5)), i32), 3
	}
	if m.branch(in(t, 0xF0, 0xF4)) {
		if rest < 2 {
			return bad, 1
		}
		lo := c.Ite(c.Eq(t, c.BV(0xF0, 8)), c.BV(0x90, 8), c.BV(0x80, 8))
		hi := c.Ite(c.Eq(t, c.BV(0xF4, 8)), c.BV(0x8F, 8), c.BV(0xBF, 8))
		if !m.branch(c.And(c.Cmp(OpULe, lo, b[i+1]), c.Cmp(OpULe, b[i+1], hi))) {
			return bad, 1
		}
		if rest < 3 || !m.branch(in(b[i+2], 0x80, 0xBF)) {
			return bad, 1
		}
		if rest < 4 || !m.branch(in(b[i+3], 0x80, 0xBF)) {
			return bad, 1
		}
		return mkV(or(or(or(shl(ext(t, 2), 18), shl(ext(b[i+1], 5), 12)), shl(ext(b[i+2], 5), 6)), ext(b[i+3], 5)), i32), 4
	}
	return bad, 1
}

// ---- calls ----

func (m *Machine) call(f *Fn, args []V, free []V, deferOf *Frame) V {
	if f.intr != nil {
		return f.intr(m, f, args)
	}
	f = m.prog.resolve(f)
	if f.intr != nil {
		return f.intr(m, f, args)
	}
	return m.callFn(f, args, free, deferOf)
}

func (m *Machine) callFn(f *Fn, args []V, free []V, deferOf *Frame) V {
	if f.ext {
		m.unsupported("external function %s", f.name)
	}
	if f.inScope {
		m.calls[f]++ // statistics only
	}
	m.depth++
	if m.depth > 12000 {
		m.abort("depth", "call depth exceeded")
	}
	sp := m.sp
	if sp+f.nregs > len(m.stack) {
		m.abort("depth", "register stack exhausted")
	}
	regs := m.stack[sp : sp+f.nregs : sp+f.nregs]
	m.sp = sp + f.nregs
	copy(regs, args)
	copy(regs[f.nparams:], free)
	for m.depth >= len(m.frames) {
		m.frames = append(m.frames, new(Frame))
	}
	fr := m.frames[m.depth]
	*fr = Frame{fn: f, r: regs, m: m, caller: m.cur, deferOf: deferOf}
	m.cur = fr
	var ret V
	if f.hasDefer {
		ret = m.runDefer(fr)
	} else {
		ret = m.exec(fr, 0)
	}
	m.cur = fr.caller
	clear(regs)
	m.sp = sp
	m.depth--
	return ret
}

func (m *Machine) asTargetPanic(r any) targetPanic {
	switch x := r.(type) {
	case targetPanic:
		return x
	case pathAbort:
		panic(x)
	case hashPanic:
		return targetPanic{v: V{p: &Iface{t: m.rtErrType(), v: mkStr("hash of unhashable type " + x.t.t.String())}}, rt: true, at: m.where()}
	}
	panic(r)
}

func (m *Machine) runDefer(fr *Frame) (ret V) {
	depth, sp := m.depth, m.sp
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp := m.asTargetPanic(r)
				m.depth, m.sp, m.cur = depth, sp, fr
				fr.panicking, fr.panicVal = true, tp
			}
		}()
		ret = m.exec(fr, 0)
	}()
	if fr.panicking {
		m.runDefers(fr)
		if fr.panicking {
			panic(fr.panicVal)
		}
		if fr.fn.recover >= 0 {
			return m.exec(fr, fr.fn.recover)
		}
		if fr.fn.resRT != nil {
			return zero(fr.fn.resRT)
		}
		return V{}
	}
	return ret
}

func (m *Machine) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth, sp := m.depth, m.sp
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp := m.asTargetPanic(r)
					m.depth, m.sp, m.cur = depth, sp, fr
					fr.panicking, fr.panicVal = true, tp
				}
			}()
			switch d.kind {
			case ICallStatic:
				m.call(d.fn, d.args, nil, fr)
			case ICallDyn:
				m.callClosure(d.cl, d.args, fr)
			case ICallInvoke:
				m.invoke(d.cl, d.ins, d.args, fr)
			case ICallBuiltin:
				m.builtin(fr, d.ins, d.args)
			}
		}()
	}
}

func (m *Machine) callClosure(cl V, args []V, deferOf *Frame) V {
	if cl.p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	c := cl.p.(*Closure)
	if c.nat != nil {
		return c.nat(m, args)
	}
	return m.call(c.fn, args, c.free, deferOf)
}

func (m *Machine) lookupMethod(rt *RT, meth *types.Func) *Fn {
	mk := methKey{rt, meth}
	f := m.meths[mk]
	if f != nil {
		return f
	}
	defer func() { m.meths[mk] = f }()
	key := meth.Id()
	rt.mu.Lock()
	f = rt.meth[key]
	rt.mu.Unlock()
	if f != nil {
		return f
	}
	sf := m.prog.prog.LookupMethod(rt.t, meth.Pkg(), meth.Name())
	if sf == nil {
		m.unsupported("method %s not found on %s", key, rt.t)
	}
	f = m.prog.fn(sf)
	rt.mu.Lock()
	rt.meth[key] = f
	rt.mu.Unlock()
	return f
}

func (m *Machine) invoke(recv V, ins *Instr, args []V, deferOf *Frame) V {
	if recv.p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	ic := recv.p.(*Iface)
	f := m.lookupMethod(ic.t, ins.meth)
	base := m.sp
	top := base + 1 + len(args)
	if top > len(m.stack) {
		m.abort("depth", "register stack exhausted")
	}
	full := m.stack[base:top:top]
	full[0] = ic.v
	copy(full[1:], args)
	m.sp = top
	res := m.call(f, full, nil, deferOf)
	clear(full)
	m.sp = base
	return res
}

func (m *Machine) implements(rt *RT, it *RT) bool {
	it.mu.Lock()
	r, ok := it.impl[rt]
	it.mu.Unlock()
	if ok {
		return r
	}
	r = types.Implements(rt.t, it.t.Underlying().(*types.Interface))
	it.mu.Lock()
	it.impl[rt] = r
	it.mu.Unlock()
	return r
}

func (m *Machine) typeAssert(i *Instr, v V) V {
	to := i.rt2
	var ok bool
	var res V
	if v.p != nil {
		ic := v.p.(*Iface)
		if to.kind == KIface {
			if ok = m.implements(ic.t, to); ok {
				res = v
			}
		} else if ok = ic.t == to; ok {
			res = ic.v
		}
	}
	if i.flag {
		if !ok {
			res = zero(to)
		}
		return V{p: &Tuple{[]V{res, {n: b2u(ok)}}}}
	}
	if !ok {
		m.rtPanic("interface conversion: type assertion failed to " + to.t.String())
	}
	return res
}

func (m *Machine) nilPanic() {
	m.rtPanic("invalid memory address or nil pointer dereference")
}

func (m *Machine) load(p V) V {
	switch x := p.p.(type) {
	case *V:
		v := *x
		if _, ok := v.p.(*Agg); ok {
			return copyVal(v)
		}
		return v
	case *SymPtr:
		for _, e := range x.arr {
			if _, ok := e.p.(*Term); e.p != nil && !ok {
				return m.classLoad(x.arr, x.idx)
			}
		}
		return m.iteLoad(x.arr, x.idx)
	case nil:
		m.nilPanic()
	}
	m.unsupported("load through %T", p.p)
	return V{}
}

// iteLoad reads arr[idx] for scalar elements as an if-then-else chain.
func (m *Machine) iteLoad(arr []V, idx *Term) V {
	c := m.ctx
	var w uint8 = 64
	boolK := false
	// all elements share a type; infer the sort from any symbolic element, else from context stored in scratch
	for _, e := range arr {
		if t, ok := e.p.(*Term); ok {
			w = t.w
			boolK = t.w == sBool
		}
	}
	_ = boolK
	if sw, ok := m.scratch["ptrw"].(uint8); ok {
		w = sw
	}
	cv := func(v V) *Term {
		if t, ok := v.p.(*Term); ok {
			return t
		}
		if w == sBool {
			return c.Bool(v.n != 0)
		}
		if w == sFP {
			return c.FP(canonNaN(v.n))
		}
		return c.BV(v.n, w)
	}
	// group equal consecutive values
	r := cv(arr[len(arr)-1])
	for i := len(arr) - 2; i >= 0; i-- {
		x := cv(arr[i])
		if x == r {
			continue
		}
		r = c.Ite(c.Cmp(OpULe, idx, c.BV(uint64(i), idx.w)), x, r)
	}
	if r.op == OpConst {
		return V{n: r.c}
	}
	return V{p: r}
}

// classes groups the elements of a table that are one and the same value: a
// load at a symbolic index then needs one path per group, not one per index.
// It returns nil when there is nothing to gain, or an element is a struct.
func classes(arr []V) [][]int {
	var out [][]int
	if len(arr) > 1024 {
		return nil
	}
next:
	for i, e := range arr {
		if _, ok := e.p.(*Agg); ok {
			return nil
		}
		for c := range out {
			if sameRef(arr[out[c][0]], e) {
				out[c] = append(out[c], i)
				continue next
			}
		}
		if len(out) == 24 {
			return nil
		}
		out = append(out, []int{i})
	}
	if len(out)*2 > len(arr) {
		return nil
	}
	return out
}

func sameRef(a, b V) bool {
	if a.n != b.n {
		return false
	}
	switch x := a.p.(type) {
	case nil:
		return b.p == nil
	case string:
		y, ok := b.p.(string)
		return ok && x == y
	case *Sl:
		y, ok := b.p.(*Sl)
		return ok && (x == y || len(x.s) == len(y.s) && cap(x.s) == cap(y.s) && cap(x.s) > 0 && &x.s[:1][0] == &y.s[:1][0])
	case *V:
		y, ok := b.p.(*V)
		return ok && x == y
	case *Closure:
		y, ok := b.p.(*Closure)
		return ok && x == y
	}
	return false
}

// classLoad picks a group, most members last, and returns its value.
func (m *Machine) classLoad(arr []V, idx *Term) V {
	cls := classes(arr)
	if cls == nil {
		return arr[m.concretize(idx)]
	}
	c := m.ctx
	big := 0
	for j := range cls {
		if len(cls[j]) > len(cls[big]) {
			big = j
		}
	}
	for j, is := range cls {
		if j == big {
			continue
		}
		cond := c.False
		for a := 0; a < len(is); {
			b := a
			for b+1 < len(is) && is[b+1] == is[b]+1 {
				b++
			}
			lo, hi := c.BV(uint64(is[a]), idx.w), c.BV(uint64(is[b]), idx.w)
			if a == b {
				cond = c.Or(cond, c.Eq(idx, lo))
			} else {
				cond = c.Or(cond, c.And(c.Cmp(OpULe, lo, idx), c.Cmp(OpULe, idx, hi)))
			}
			a = b + 1
		}
		if m.branch(cond) {
			return arr[is[0]]
		}
	}
	return arr[cls[big][0]]
}

func scalarW(rt *RT) (uint8, bool) {
	switch rt.kind {
	case KBool:
		return sBool, true
	case KInt, KUint:
		return rt.w, true
	case KF64:
		return sFP, true
	}
	return 0, false
}

// index resolves an index value against a length, panicking (in the target) when out of range.
func (m *Machine) index(iv V, i *Instr, n int) (int, *Term) {
	if t, ok := iv.p.(*Term); ok {
		t64 := m.ctx.Resize(t, 64, i.flag)
		if !m.branch(m.ctx.Cmp(OpULt, t64, m.ctx.BV(uint64(n), 64))) {
			m.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
		return 0, t64
	}
	if iv.n >= uint64(n) {
		m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.n), n))
	}
	return int(iv.n), nil
}

func (m *Machine) exec(fr *Frame, start int) V {
	fn := fr.fn
	r := fr.r
	blk := fn.blocks[start]
	prev := -1
	var phiTmp [16]V
	for {
		m.steps += int64(len(blk.instrs)) + 1
		if m.steps > m.maxStep {
			m.abort("steps", "step bound exceeded")
		}
		if len(blk.phis) > 0 {
			pi := -1
			for k, p := range blk.preds {
				if p == prev {
					pi = k
					break
				}
			}
			tmp := phiTmp[:0]
			for k := range blk.phis {
				tmp = append(tmp, fr.get(blk.phis[k].srcs[pi]))
			}
			for k := range blk.phis {
				r[blk.phis[k].dst] = tmp[k]
			}
		}
		next := -1
		for k := range blk.instrs {
			i := &blk.instrs[k]
			fr.cur = i
			switch i.op {
			case IAlloc:
				p := new(V)
				*p = zero(i.rt)
				r[i.dst] = V{p: p}
			case IBinOp:
				a, b := fr.get(i.a), fr.get(i.b)
				if a.p == nil && b.p == nil && (i.rt.kind == KInt || i.rt.kind == KUint) && i.tok != token.EQL && i.tok != token.NEQ {
					r[i.dst] = m.intBin(i.tok, i.rt, i.rt2, a.n, b.n)
				} else {
					r[i.dst] = m.binop(i.tok, i.rt, i.rt2, a, b)
				}
			case ICallStatic, ICallDyn, ICallInvoke, ICallBuiltin:
				// arguments live on the register stack for the duration of the call
				base := m.sp
				top := base + len(i.args)
				if top > len(m.stack) {
					m.abort("depth", "register stack exhausted")
				}
				args := m.stack[base:top:top]
				for k, a := range i.args {
					args[k] = fr.get(a)
				}
				m.sp = top
				var res V
				switch i.op {
				case ICallStatic:
					res = m.call(i.fn, args, nil, nil)
				case ICallDyn:
					res = m.callClosure(fr.get(i.a), args, nil)
				case ICallInvoke:
					res = m.invoke(fr.get(i.a), i, args, nil)
				default:
					res = m.builtin(fr, i, args)
				}
				clear(args)
				m.sp = base
				r[i.dst] = res
			case IMove:
				r[i.dst] = fr.get(i.a)
			case IConvert:
				r[i.dst] = m.convert(fr.get(i.a), i.rt2, i.rt)
			case IExtract:
				r[i.dst] = fr.get(i.a).p.(*Tuple).e[i.n]
			case IField:
				r[i.dst] = fr.get(i.a).p.(*Agg).e[i.n]
			case IFieldAddr:
				p, ok := fr.get(i.a).p.(*V)
				if !ok {
					if fr.get(i.a).p != nil {
						m.unsupported("field address through %T", fr.get(i.a).p)
					}
					m.nilPanic()
				}
				ag, ok := p.p.(*Agg)
				if !ok {
					m.unsupported("field address of %T", p.p)
				}
				r[i.dst] = V{p: &ag.e[i.n]}
			case IIf:
				if m.cond(fr.get(i.a)) {
					next = blk.succs[0]
				} else {
					next = blk.succs[1]
				}
			case IJump:
				next = blk.succs[0]
			case IIndex:
				r[i.dst] = m.doIndex(fr, i)
			case IIndexAddr:
				r[i.dst] = m.doIndexAddr(fr, i)
			case ILookup:
				r[i.dst] = m.doLookup(fr, i)
			case IMakeChan:
				r[i.dst] = V{p: &Chan{cap: int(m.intVal(fr.get(i.a), nil))}}
			case IMakeClosure:
				cl := &Closure{fn: i.fn}
				for _, a := range i.args {
					cl.free = append(cl.free, fr.get(a))
				}
				r[i.dst] = V{p: cl}
			case IMakeIface:
				r[i.dst] = V{p: &Iface{t: i.rt2, v: fr.get(i.a)}}
			case IMakeMap:
				r[i.dst] = V{p: newMap(i.rt.key)}
			case IMakeSlice:
				n := m.intVal(fr.get(i.a), nil)
				c := m.intVal(fr.get(i.b), nil)
				if n < 0 || n > 1<<26 {
					m.rtPanic("makeslice: len out of range")
				}
				if c < n || c > 1<<26 {
					m.rtPanic("makeslice: cap out of range")
				}
				s := make([]V, c)
				if k := i.rt.elem.kind; k == KStruct || k == KArray {
					for j := range s {
						s[j] = zero(i.rt.elem)
					}
				}
				r[i.dst] = V{p: &Sl{s[:n]}}
			case IMapUpdate:
				mv := fr.get(i.a)
				if mv.p == nil {
					m.plainPanic("assignment to entry in nil map")
				}
				m.mapSet(mv.p.(*Map), fr.get(i.b), fr.get(i.c))
			case INext:
				r[i.dst] = m.doNext(fr, i)
			case IPanic:
				v := fr.get(i.a)
				panic(targetPanic{v: v, at: m.where()})
			case IRange:
				r[i.dst] = m.doRange(fr, i)
			case IReturn:
				switch len(i.args) {
				case 0:
					return V{}
				case 1:
					return fr.get(i.args[0])
				}
				t := &Tuple{e: make([]V, len(i.args))}
				for j, a := range i.args {
					t.e[j] = fr.get(a)
				}
				return V{p: t}
			case IRunDefers:
				m.runDefers(fr)
				if fr.panicking {
					panic(fr.panicVal)
				}
			case ISlice:
				r[i.dst] = m.doSlice(fr, i)
			case IStore:
				p := fr.get(i.a)
				switch x := p.p.(type) {
				case *V:
					v := fr.get(i.b)
					if _, agg := v.p.(*Agg); agg {
						m.set(x, v)
					} else {
						if m.trailOn {
							m.trail = append(m.trail, trailEnt{ptr: x, old: *x})
						}
						*x = v
					}
				case *SymPtr:
					k := int(m.concretize(x.idx))
					m.set(&x.arr[k], fr.get(i.b))
				default:
					if p.p == nil {
						m.nilPanic()
					}
					m.unsupported("store through %T", p.p)
				}
			case ITypeAssert:
				r[i.dst] = m.typeAssert(i, fr.get(i.a))
			case IUnOp:
				r[i.dst] = m.unop(fr, i)
			case IDefer:
				d := deferred{kind: uint8(i.n), fn: i.fn, ins: i}
				if d.kind == ICallDyn || d.kind == ICallInvoke {
					d.cl = fr.get(i.a)
				}
				for _, a := range i.args {
					d.args = append(d.args, fr.get(a))
				}
				fr.defers = append(fr.defers, d)
			case IGo:
				// a goroutine is run to completion at the point it is started
				var args []V
				for _, a := range i.args {
					args = append(args, fr.get(a))
				}
				switch uint8(i.n) {
				case ICallStatic:
					m.call(i.fn, args, nil, nil)
				case ICallDyn:
					m.callClosure(fr.get(i.a), args, nil)
				case ICallInvoke:
					m.invoke(fr.get(i.a), i, args, nil)
				default:
					m.unsupported("go builtin")
				}
			case ISend:
				ch, ok := fr.get(i.a).p.(*Chan)
				if !ok || ch.closed || len(ch.buf) >= ch.cap {
					m.unsupported("blocking channel send")
				}
				old := ch.buf
				if m.trailOn {
					m.trail = append(m.trail, trailEnt{fn: func() { ch.buf = old }})
				}
				ch.buf = append(append([]V{}, old...), fr.get(i.b))
			default:
				m.unsupported("instruction %s", i.name)
			}
		}
		if next < 0 {
			m.abort("internal", "fell off block")
		}
		prev = blk.idx
		blk = fn.blocks[next]
	}
}

func (m *Machine) plainPanic(msg string) { m.rtPanic(msg) }

func (m *Machine) doIndex(fr *Frame, i *Instr) V {
	x := fr.get(i.a)
	if i.rt2.kind == KString {
		k, t := m.index(fr.get(i.b), i, strLen(x))
		if t == nil {
			return m.strByte(x, k)
		}
		n := strLen(x)
		arr := make([]V, n)
		for j := range arr {
			arr[j] = m.strByte(x, j)
		}
		m.scratch["ptrw"] = uint8(8)
		return m.iteLoad(arr, t)
	}
	a := x.p.(*Agg)
	k, t := m.index(fr.get(i.b), i, len(a.e))
	if t != nil {
		if w, ok := scalarW(i.rt); ok && m.allScalar(a.e) {
			m.scratch["ptrw"] = w
			return mkVn(m.iteLoad(a.e, t), i.rt)
		}
		if len(a.e) > 2 && len(classes(a.e)) > 0 {
			return m.classLoad(a.e, t)
		}
		k = int(m.concretize(t))
	}
	return a.e[k]
}

func mkVn(v V, rt *RT) V {
	if v.p == nil && rt.kind == KInt {
		v.n = uint64(sext(v.n, rt.w))
	}
	return v
}

func (m *Machine) allScalar(arr []V) bool {
	return len(arr) > 0 && len(arr) <= 1024
}

func (m *Machine) doIndexAddr(fr *Frame, i *Instr) V {
	x := fr.get(i.a)
	var arr []V
	switch p := x.p.(type) {
	case *Sl:
		arr = p.s
	case *V:
		a, ok := p.p.(*Agg)
		if !ok {
			m.unsupported("index address of %T", p.p)
		}
		arr = a.e
	case nil:
		if i.rt2.kind != KSlice {
			m.nilPanic()
		}
	default:
		m.unsupported("index address through %T", x.p)
	}
	k, t := m.index(fr.get(i.b), i, len(arr))
	if t != nil {
		if _, ok := scalarW(i.rt); ok && m.allScalar(arr) {
			return V{p: &SymPtr{arr: arr, idx: t}}
		}
		if len(arr) > 2 && len(classes(arr)) > 0 {
			return V{p: &SymPtr{arr: arr, idx: t}}
		}
		k = int(m.concretize(t))
	}
	return V{p: &arr[k]}
}

func (m *Machine) unop(fr *Frame, i *Instr) V {
	x := fr.get(i.a)
	switch i.tok {
	case token.MUL:
		if p, ok := x.p.(*V); ok {
			v := *p
			if _, ok := v.p.(*Agg); ok {
				return copyVal(v)
			}
			return v
		}
		if sp, ok := x.p.(*SymPtr); ok {
			w, ok := scalarW(i.rt)
			if !ok {
				return m.classLoad(sp.arr, sp.idx)
			}
			m.scratch["ptrw"] = w
			return mkVn(m.iteLoad(sp.arr, sp.idx), i.rt)
		}
		return m.load(x)
	case token.SUB:
		if t, ok := x.p.(*Term); ok {
			if i.rt.kind == KF64 {
				return mkV(m.ctx.FNeg(t), i.rt)
			}
			return mkV(m.ctx.Neg(t), i.rt)
		}
		if i.rt.kind == KF64 || i.rt.kind == KF32 {
			return V{n: x.n ^ 1<<63}
		}
		return V{n: norm(-x.n, i.rt)}
	case token.NOT:
		if t, ok := x.p.(*Term); ok {
			return boolV(m.ctx.Not(t))
		}
		return V{n: 1 - x.n}
	case token.XOR:
		if t, ok := x.p.(*Term); ok {
			return mkV(m.ctx.BNot(t), i.rt)
		}
		return V{n: norm(^x.n, i.rt)}
	case token.ARROW:
		ch, ok := x.p.(*Chan)
		if !ok || len(ch.buf) == 0 && !ch.closed {
			m.unsupported("blocking channel receive")
		}
		var v V
		okv := uint64(0)
		if len(ch.buf) > 0 {
			v, okv = ch.buf[0], 1
			old := ch.buf
			if m.trailOn {
				m.trail = append(m.trail, trailEnt{fn: func() { ch.buf = old }})
			}
			ch.buf = ch.buf[1:]
		} else {
			v = zero(i.rt2.elem)
		}
		if i.flag {
			return V{p: &Tuple{[]V{v, {n: okv}}}}
		}
		return v
	}
	m.unsupported("unop %s", i.tok)
	return V{}
}

// ---- slices ----

func (m *Machine) doSlice(fr *Frame, i *Instr) V {
	x := fr.get(i.a)
	none := int32(-1 << 30)
	opt := func(o int32, def int) int {
		if o == none {
			return def
		}
		return int(m.intVal(fr.get(o), nil))
	}
	if i.rt2.kind == KString {
		n := strLen(x)
		lo := opt(i.b, 0)
		hi := opt(i.c, n)
		if lo < 0 || hi < lo || hi > n {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return m.strSlice(x, lo, hi)
	}
	var arr []V
	switch p := x.p.(type) {
	case *Sl:
		arr = p.s
	case *V: // pointer to array
		arr = p.p.(*Agg).e
	case nil:
		if i.rt2.kind == KPtr {
			m.nilPanic()
		}
		lo, hi := opt(i.b, 0), opt(i.c, 0)
		if lo != 0 || hi != 0 {
			m.rtPanic("slice bounds out of range")
		}
		return V{}
	default:
		m.unsupported("slice of %T", x.p)
	}
	lo := opt(i.b, 0)
	hi := opt(i.c, len(arr))
	mx := opt(i.d, cap(arr))
	if lo < 0 || hi < lo || mx < hi || mx > cap(arr) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(arr)))
	}
	return V{p: &Sl{arr[lo:hi:mx]}}
}

func roundCap(n int, es int64) int {
	if n == 0 {
		return 0
	}
	if es == 0 {
		return n
	}
	return int(roundupsize(int64(n)*es) / es)
}

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int64) int64 {
	for _, s := range sizeClasses {
		if n <= s {
			return s
		}
	}
	return (n + 8191) / 8192 * 8192
}

// growCap mirrors runtime.nextslicecap plus size-class rounding.
func growCap(newLen, oldCap int, es int64) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if nc < newLen {
		nc = newLen
	}
	return roundCap(nc, es)
}

func (m *Machine) appendV(s V, add []V, elem *RT) V {
	if len(add) == 0 {
		return s
	}
	var arr []V
	if s.p != nil {
		arr = s.p.(*Sl).s
	}
	n := len(arr)
	if n+len(add) <= cap(arr) {
		out := arr[:n+len(add)]
		for i, v := range add {
			m.set(&out[n+i], v)
		}
		return V{p: &Sl{out}}
	}
	nc := growCap(n+len(add), cap(arr), elem.size)
	out := make([]V, nc)
	for i := range arr {
		out[i] = copyVal(arr[i])
	}
	for i, v := range add {
		out[n+i] = copyVal(v)
	}
	if elem.kind == KStruct || elem.kind == KArray {
		for i := n + len(add); i < nc; i++ {
			out[i] = zero(elem)
		}
	}
	return V{p: &Sl{out[:n+len(add)]}}
}

// ---- maps ----

func (m *Machine) mapFind(mp *Map, k V) *mapEntry {
	key, conc := concKey(mp.kt, k)
	if conc {
		if e, ok := mp.idx[key]; ok {
			return e
		}
		if !mp.hasSym {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.dead || conc && e.key != nil {
			continue
		}
		if m.branch(m.eq(mp.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *Map, k, v V) {
	if e := m.mapFind(mp, k); e != nil {
		m.set(&e.v, v)
		return
	}
	key, conc := concKey(mp.kt, k)
	e := &mapEntry{k: k, v: copyVal(v)}
	oldSym := mp.hasSym
	if conc {
		e.key = key
		mp.idx[key] = e
	} else {
		mp.hasSym = true
	}
	mp.ents = append(mp.ents, e)
	mp.live++
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{mp: mp, fn: func() {
			if conc {
				delete(mp.idx, key)
			}
			mp.hasSym = oldSym
			mp.ents = mp.ents[:len(mp.ents)-1]
			mp.live--
		}})
	}
}

func (m *Machine) mapDelete(mp *Map, k V) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	oldEnts := mp.ents
	ne := make([]*mapEntry, 0, len(mp.ents))
	for _, x := range mp.ents {
		if x != e {
			ne = append(ne, x)
		}
	}
	mp.ents = ne
	e.dead = true
	if e.key != nil {
		delete(mp.idx, e.key)
	}
	mp.live--
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{mp: mp, fn: func() {
			mp.ents = oldEnts
			e.dead = false
			if e.key != nil {
				mp.idx[e.key] = e
			}
			mp.live++
		}})
	}
}

func (m *Machine) doLookup(fr *Frame, i *Instr) V {
	x := fr.get(i.a)
	if i.rt2.kind == KString {
		ii := *i
		ii.flag = true
		k, t := m.index(fr.get(i.b), &ii, strLen(x))
		if t == nil {
			return m.strByte(x, k)
		}
		arr := make([]V, strLen(x))
		for j := range arr {
			arr[j] = m.strByte(x, j)
		}
		m.scratch["ptrw"] = uint8(8)
		return m.iteLoad(arr, t)
	}
	var e *mapEntry
	if x.p != nil {
		e = m.mapFind(x.p.(*Map), fr.get(i.b))
	} else if _, ok := concKey(i.rt2.key, fr.get(i.b)); !ok {
		_ = ok
	}
	var v V
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = zero(i.rt2.elem)
	}
	if i.flag {
		return V{p: &Tuple{[]V{v, {n: b2u(e != nil)}}}}
	}
	return v
}

type rangeIter struct {
	str  V
	pos  int
	ents []*mapEntry
	perm bool
}

func (m *Machine) doRange(fr *Frame, i *Instr) V {
	x := fr.get(i.a)
	it := &rangeIter{}
	if i.rt2.kind == KString {
		it.str = x
	} else if x.p != nil {
		it.ents = append(it.ents, x.p.(*Map).ents...)
		it.perm = (fr.fn.inScope || fr.fn.pkgPath == "maps") && m.ps != nil && m.ps.mapOrder && len(it.ents) > 1
	}
	return V{p: it}
}

func (m *Machine) doNext(fr *Frame, i *Instr) V {
	it := fr.get(i.a).p.(*rangeIter)
	if i.flag {
		if it.pos >= strLen(it.str) {
			return V{p: &Tuple{[]V{{}, {}, {}}}}
		}
		p := it.pos
		r, w := m.decodeRune(it.str, p)
		it.pos += w
		return V{p: &Tuple{[]V{{n: 1}, {n: uint64(p)}, r}}}
	}
	for len(it.ents) > 0 {
		k := 0
		if it.perm && len(it.ents) > 1 {
			k = m.choose(len(it.ents), "maporder")
		}
		e := it.ents[k]
		if it.perm {
			it.ents = append(append([]*mapEntry{}, it.ents[:k]...), it.ents[k+1:]...)
		} else {
			it.ents = it.ents[1:]
		}
		if e.dead {
			continue
		}
		return V{p: &Tuple{[]V{{n: 1}, e.k, copyVal(e.v)}}}
	}
	return V{p: &Tuple{[]V{{}, {}, {}}}}
}

// ---- builtins ----

func (m *Machine) builtin(fr *Frame, i *Instr, args []V) V {
	switch i.name {
	case "len":
		switch x := args[0].p.(type) {
		case nil:
			return V{}
		case *Sl:
			return V{n: uint64(len(x.s))}
		case *Map:
			return V{n: uint64(x.live)}
		case *Agg:
			return V{n: uint64(len(x.e))}
		case *V:
			return V{n: uint64(len(x.p.(*Agg).e))}
		case *Chan:
			return V{n: uint64(len(x.buf))}
		}
		return V{n: uint64(strLen(args[0]))}
	case "cap":
		switch x := args[0].p.(type) {
		case nil:
			return V{}
		case *Sl:
			return V{n: uint64(cap(x.s))}
		case *Agg:
			return V{n: uint64(len(x.e))}
		case *V:
			return V{n: uint64(len(x.p.(*Agg).e))}
		case *Chan:
			return V{n: uint64(x.cap)}
		}
	case "append":
		if i.rt != nil && i.rt.kind == KSlice {
			if len(args) < 2 {
				return args[0]
			}
			var add []V
			switch x := args[1].p.(type) {
			case nil:
			case *Sl:
				add = x.s
				// append(s, s...) aliasing: snapshot
				add = append([]V{}, add...)
			default:
				n := strLen(args[1])
				for k := 0; k < n; k++ {
					add = append(add, m.strByte(args[1], k))
				}
			}
			return m.appendV(args[0], add, i.rt.elem)
		}
	case "copy":
		if args[0].p == nil {
			return V{}
		}
		dst := args[0].p.(*Sl).s
		var src []V
		switch x := args[1].p.(type) {
		case nil:
		case *Sl:
			src = append([]V{}, x.s...)
		default:
			n := strLen(args[1])
			for k := 0; k < n; k++ {
				src = append(src, m.strByte(args[1], k))
			}
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		for k := 0; k < n; k++ {
			src[k] = copyVal(src[k])
		}
		for k := 0; k < n; k++ {
			m.set(&dst[k], src[k])
		}
		return V{n: uint64(n)}
	case "delete":
		if args[0].p != nil {
			m.mapDelete(args[0].p.(*Map), args[1])
		}
		return V{}
	case "clear":
		switch x := args[0].p.(type) {
		case *Map:
			for _, e := range append([]*mapEntry{}, x.ents...) {
				m.mapDelete(x, e.k)
			}
		case *Sl:
			for k := range x.s {
				m.set(&x.s[k], zero(i.rt2.elem))
			}
		}
		return V{}
	case "panic":
		panic(targetPanic{v: args[0], at: m.where()})
	case "recover":
		if d := fr.deferOf; d != nil && d.panicking {
			d.panicking = false
			return d.panicVal.v
		}
		return V{}
	case "print", "println":
		return V{}
	case "min", "max":
		acc := args[0]
		for _, x := range args[1:] {
			var less V
			if i.name == "min" {
				less = m.binop(token.LSS, i.rt2, i.rt2, x, acc)
			} else {
				less = m.binop(token.GTR, i.rt2, i.rt2, x, acc)
			}
			if i.rt2.isScalar() && less.p != nil {
				acc = mkV(m.ctx.Ite(less.p.(*Term), m.term(x, i.rt2), m.term(acc, i.rt2)), i.rt2)
			} else if m.cond(less) {
				acc = x
			}
		}
		return acc
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			m.nilPanic()
		}
		return args[0]
	case "close":
		ch := args[0].p.(*Chan)
		ch.closed = true
		if m.trailOn {
			m.trail = append(m.trail, trailEnt{fn: func() { ch.closed = false }})
		}
		return V{}
	case "String": // unsafe.String
		return m.unsafeString(args)
	case "StringData", "SliceData":
		// keep the whole object as the "pointer"
		return V{p: &dataPtr{args[0]}}
	case "Slice":
		if d, ok := args[0].p.(*dataPtr); ok {
			n := int(m.intVal(args[1], nil))
			if s, ok := d.v.p.(*Sl); ok && n <= cap(s.s) {
				return V{p: &Sl{s.s[:n]}}
			}
			if d.v.p == nil && n == 0 {
				return V{}
			}
			if strLen(d.v) >= n {
				arr := make([]V, n)
				for k := range arr {
					arr[k] = m.strByte(d.v, k)
				}
				return V{p: &Sl{arr}}
			}
		}
	}
	m.unsupported("builtin %s", i.name)
	return V{}
}

type dataPtr struct{ v V }

func (m *Machine) unsafeString(args []V) V {
	n := int(m.intVal(args[1], nil))
	if n == 0 {
		return V{}
	}
	d, ok := args[0].p.(*dataPtr)
	if !ok {
		// &b[0] form: find nothing better than unsupported
		m.unsupported("unsafe.String of %T", args[0].p)
	}
	if s, ok := d.v.p.(*Sl); ok {
		return m.bytesToStr(s.s[:n])
	}
	return m.strSlice(d.v, 0, n)
}

// runGuarded executes f and classifies how it ended.
func (m *Machine) runGuarded(f func()) (ab *pathAbort, tp *targetPanic) {
	sp, depth, cur := m.sp, m.depth, m.cur
	defer func() {
		if r := recover(); r != nil {
			m.sp, m.depth, m.cur = sp, depth, cur
			clear(m.stack[sp:min(len(m.stack), sp+4096)])
			switch x := r.(type) {
			case pathAbort:
				ab = &x
			case targetPanic:
				tp = &x
			case hashPanic:
				t := m.asTargetPanic(x)
				tp = &t
			default:
				st := string(debug.Stack())
				if len(st) > 3000 {
					st = st[:3000]
				}
				ab = &pathAbort{"internal", fmt.Sprintf("%v at %s\n%s", r, m.where(), st)}
			}
		}
	}()
	f()
	return nil, nil
}

func (m *Machine) panicText(tp *targetPanic) string {
	if tp.v.p == nil {
		return "panic(nil)"
	}
	ic := tp.v.p.(*Iface)
	if s, ok := concStr(ic.v); ok && ic.t.kind == KString {
		return s
	}
	return strings.TrimSpace(fmt.Sprintf("panic value of type %s", ic.t.t))
}

var _ = ssa.NaiveForm
