package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// addrOf is the address a pointer-like value has: that of the engine's own object.
func addrOf(v V) uint64 {
	switch p := v.p.(type) {
	case *V:
		return uint64(uintptr(unsafe.Pointer(p)))
	case *Map:
		return uint64(uintptr(unsafe.Pointer(p)))
	case *Chan:
		return uint64(uintptr(unsafe.Pointer(p)))
	case *Closure:
		return uint64(uintptr(unsafe.Pointer(p)))
	case *Sl:
		if cap(p.s) > 0 {
			return uint64(uintptr(unsafe.Pointer(unsafe.SliceData(p.s))))
		}
		return 4096
	}
	return 0
}

type intrinsic func(m *Machine, f *Fn, args []V) V

const (
	modPath    = "verif/harness"
	symPath    = modPath + "/sym"
	symrtPath  = modPath + "/symrt"
	antlrPath  = "github.com/antlr4-go/antlr/v4"
	targetPath = "github.com/bserdar/gojsonpath"
)

var redirects = map[string]string{}

var intrinsics map[string]intrinsic

var denyInit = []string{"runtime", "os", "syscall", "reflect", "internal/", "time", "sync", "io/fs", "log", "path", "fmt", "errors", "unsafe", "testing", "bufio", "context", "vendor/", "crypto", "hash", "encoding", "unique", "iter", "weak"}

func deniedInit(path string) bool {
	if path == "internal/strconv" || path == "internal/bytealg" {
		return false
	}
	for _, d := range denyInit {
		if path == d || strings.HasPrefix(path, d+"/") || strings.HasSuffix(d, "/") && strings.HasPrefix(path, d) {
			return true
		}
	}
	return false
}

func isDeniedInit(f *ssa.Function) bool {
	return f.Name() == "init" && f.Synthetic == "package initializer" && f.Pkg != nil && deniedInit(f.Pkg.Pkg.Path())
}

var (
	rtInt    = func() *RT { return rtOf(types.Typ[types.Int]) }
	rtBool   = func() *RT { return rtOf(types.Typ[types.Bool]) }
	rtF64    = func() *RT { return rtOf(types.Typ[types.Float64]) }
	rtI32    = func() *RT { return rtOf(types.Typ[types.Int32]) }
	rtU8     = func() *RT { return rtOf(types.Typ[types.Uint8]) }
	rtString = func() *RT { return rtOf(types.Typ[types.String]) }
)

func tuple(vs ...V) V { return V{p: &Tuple{e: vs}} }

func nop(m *Machine, f *Fn, args []V) V {
	f = m.prog.resolveSig(f)
	if f.resRT != nil {
		return zero(f.resRT)
	}
	return V{}
}

func (p *Program) resolveSig(f *Fn) *Fn {
	f.once.Do(func() {
		sig := f.f.Signature
		switch sig.Results().Len() {
		case 0:
		case 1:
			f.resRT = rtOf(sig.Results().At(0).Type())
		default:
			f.resRT = rtOf(sig.Results())
		}
	})
	return f
}

// field pointer of a pointer-to-struct
func fieldPtr(p V, i int) *V { return &p.p.(*V).p.(*Agg).e[i] }

func fieldIndex(rt *RT, name string) int {
	st := rt.t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic("no field " + name)
}

func str(m *Machine, v V) string {
	s, ok := concStr(v)
	if !ok {
		m.unsupported("symbolic string where a constant is needed")
	}
	return s
}

func ff(v V) float64 { return math.Float64frombits(v.n) }
func fv(f float64) V { return V{n: math.Float64bits(f)} }
func bv(b bool) V    { return V{n: b2u(b)} }
func iv(i int64) V   { return V{n: uint64(i)} }
func isSym(v V) bool { _, ok := v.p.(*Term); return ok }
func symS(v V) bool  { _, ok := v.p.(*SymStr); return ok }
func anySym(vs ...V) bool {
	for _, v := range vs {
		if isSym(v) || symS(v) {
			return true
		}
	}
	return false
}

// concreteString forks over the values of every symbolic byte.
func (m *Machine) concreteString(v V) string {
	if s, ok := concStr(v); ok {
		return s
	}
	var sb strings.Builder
	for _, t := range v.p.(*SymStr).b {
		sb.WriteByte(byte(m.concretize(t)))
	}
	return sb.String()
}

func mathUnary(native func(float64) float64, symf func(c *Ctx, t *Term) *Term) intrinsic {
	return func(m *Machine, f *Fn, args []V) V {
		if t, ok := args[0].p.(*Term); ok {
			return mkV(symf(m.ctx, t), rtF64())
		}
		return fv(native(ff(args[0])))
	}
}

func mathBinary(name string, native func(a, b float64) float64) intrinsic {
	return func(m *Machine, f *Fn, args []V) V {
		if anySym(args...) {
			x, y := m.term(args[0], rtF64()), m.term(args[1], rtF64())
			if u := m.unit(); u != nil {
				u.mu.Lock()
				if u.stats.Covers == nil {
					u.stats.Covers = map[string]int64{}
				}
				u.stats.Covers["uninterpreted math."+name]++
				u.mu.Unlock()
			}
			return mkV(m.ctx.UF(name, x, y), rtF64())
		}
		return fv(native(ff(args[0]), ff(args[1])))
	}
}

type rset struct{ lo, hi []int32 }

var (
	rsetMu sync.Mutex
	rsets  = map[string]*rset{}
)

func runeSet(name string, pred func(rune) bool) *rset {
	rsetMu.Lock()
	defer rsetMu.Unlock()
	if s := rsets[name]; s != nil {
		return s
	}
	s := &rset{}
	in := false
	for r := rune(0); r <= unicode.MaxRune+1; r++ {
		ok := r <= unicode.MaxRune && pred(r)
		if ok && !in {
			s.lo = append(s.lo, r)
		}
		if !ok && in {
			s.hi = append(s.hi, r-1)
		}
		in = ok
	}
	rsets[name] = s
	return s
}

func unicodePred(name string, pred func(rune) bool) intrinsic {
	return func(m *Machine, f *Fn, args []V) V {
		if t, ok := args[0].p.(*Term); ok {
			s := runeSet(name, pred)
			return boolV(m.ctx.InRanges(t, s.lo, s.hi))
		}
		return bv(pred(rune(int32(args[0].n))))
	}
}

// indexByte returns the first index of c in the terms as a (possibly symbolic) int.
func (m *Machine) indexByte(ts []*Term, c *Term, last bool) V {
	r := m.ctx.BV(^uint64(0), 64)
	if last {
		for i := 0; i < len(ts); i++ {
			r = m.ctx.Ite(m.ctx.Eq(ts[i], c), m.ctx.BV(uint64(i), 64), r)
		}
	} else {
		for i := len(ts) - 1; i >= 0; i-- {
			r = m.ctx.Ite(m.ctx.Eq(ts[i], c), m.ctx.BV(uint64(i), 64), r)
		}
	}
	return mkV(r, rtInt())
}

func (m *Machine) bytesTerms(v V) []*Term {
	if v.p == nil {
		return nil
	}
	if _, ok := v.p.(*Sl); !ok {
		return m.strTerms(v)
	}
	s := v.p.(*Sl).s
	out := make([]*Term, len(s))
	for i := range s {
		out[i] = m.term(s[i], rtU8())
	}
	return out
}

func allConst(ts []*Term) bool {
	for _, t := range ts {
		if t.op != OpConst {
			return false
		}
	}
	return true
}

func constStr(ts []*Term) string {
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = byte(t.c)
	}
	return string(b)
}

// ---- fmt ----

type fmtCtx struct {
	m    *Machine
	syms [][]*Term
}

func (fc *fmtCtx) strv(v V) any {
	if s, ok := concStr(v); ok {
		return s
	}
	fc.syms = append(fc.syms, fc.m.strTerms(v))
	return fmt.Sprintf("\x00<%d>\x00", len(fc.syms)-1)
}

func (m *Machine) findMethod(rt *RT, name string) *Fn {
	ms := m.prog.prog.MethodSets.MethodSet(rt.t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Params().Len() == 0 && sig.Results().Len() == 1 {
				return m.prog.fn(m.prog.prog.MethodValue(s))
			}
		}
	}
	return nil
}

func (fc *fmtCtx) native(rt *RT, v V, depth int) any {
	m := fc.m
	if rt.kind == KIface {
		if v.p == nil {
			return nil
		}
		ic := v.p.(*Iface)
		return fc.native(ic.t, ic.v, depth)
	}
	if depth > 20 {
		return "..."
	}
	if rt.kind != KFunc && rt.kind != KChan {
		for _, name := range []string{"Error", "String"} {
			if fn := m.findMethod(rt, name); fn != nil {
				if rt.kind == KPtr && v.p == nil {
					return "<nil>"
				}
				return fc.strv(m.call(fn, []V{v}, nil, nil))
			}
		}
	}
	switch rt.kind {
	case KBool:
		return m.cond(v)
	case KInt:
		x := m.intVal(v, rt)
		switch rt.w {
		case 8:
			return int8(x)
		case 16:
			return int16(x)
		case 32:
			return int32(x)
		}
		return int(x)
	case KUint:
		x := uint64(m.intVal(v, rt)) & mask(rt.w)
		switch rt.w {
		case 8:
			return uint8(x)
		case 16:
			return uint16(x)
		case 32:
			return uint32(x)
		}
		return x
	case KF64, KF32:
		if isSym(v) {
			m.unsupported("formatting a symbolic float")
		}
		if rt.kind == KF32 {
			return float32(ff(v))
		}
		return ff(v)
	case KString:
		return fc.strv(v)
	case KSlice:
		if v.p == nil {
			return []any{}
		}
		var out []any
		for _, e := range v.p.(*Sl).s {
			out = append(out, fc.native(rt.elem, e, depth+1))
		}
		return out
	case KArray:
		var out []any
		for _, e := range v.p.(*Agg).e {
			out = append(out, fc.native(rt.elem, e, depth+1))
		}
		return out
	case KMap:
		out := map[any]any{}
		if v.p != nil {
			for _, e := range v.p.(*Map).ents {
				out[fc.native(rt.key, e.k, depth+1)] = fc.native(rt.elem, e.v, depth+1)
			}
		}
		return out
	case KStruct:
		var out []any
		for i, e := range v.p.(*Agg).e {
			out = append(out, fc.native(rt.fields[i], e, depth+1))
		}
		s := fmt.Sprint(out...)
		return "{" + strings.Trim(s, "[]") + "}"
	case KPtr:
		if v.p == nil {
			return "<nil>"
		}
		return "0xc000000000"
	}
	return "?"
}

func (fc *fmtCtx) result(s string) V {
	if len(fc.syms) == 0 {
		return mkStr(s)
	}
	var ts []*Term
	for {
		i := strings.Index(s, "\x00<")
		if i < 0 {
			break
		}
		j := strings.Index(s[i:], ">\x00")
		if j < 0 {
			break
		}
		k, err := strconv.Atoi(s[i+2 : i+j])
		if err != nil || k >= len(fc.syms) {
			fc.m.unsupported("formatting a symbolic string with a verb other than %%s or %%v")
		}
		for b := 0; b < i; b++ {
			ts = append(ts, fc.m.ctx.BV(uint64(s[b]), 8))
		}
		ts = append(ts, fc.syms[k]...)
		s = s[i+j+2:]
	}
	for b := 0; b < len(s); b++ {
		ts = append(ts, fc.m.ctx.BV(uint64(s[b]), 8))
	}
	return fromTerms(ts)
}

func (m *Machine) fmtArgs(fc *fmtCtx, v V) []any {
	if v.p == nil {
		return nil
	}
	anyRT := rtOf(types.NewInterfaceType(nil, nil))
	var out []any
	for _, e := range v.p.(*Sl).s {
		out = append(out, fc.native(anyRT, e, 0))
	}
	return out
}

func (m *Machine) errorsNew(msg V) V {
	pkg := m.prog.prog.ImportedPackage("errors")
	return m.call(m.prog.fn(pkg.Func("New")), []V{msg}, nil, nil)
}

func fmtErrorf(m *Machine, f *Fn, args []V) V {
	fc := &fmtCtx{m: m}
	format := str(m, args[0])
	nat := m.fmtArgs(fc, args[1])
	// position of %w among the arguments
	wi := -1
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			if format[i+1] == '%' {
				i++
				continue
			}
			if format[i+1] == 'w' {
				wi = n
			}
			n++
		}
	}
	msg := fc.result(fmt.Sprintf(strings.ReplaceAll(format, "%w", "%v"), nat...))
	if wi >= 0 && args[1].p != nil && wi < len(args[1].p.(*Sl).s) {
		pkg := m.prog.prog.ImportedPackage("fmt")
		if t := pkg.Type("wrapError"); t != nil {
			st := rtOf(t.Type())
			agg := zero(st)
			a := agg.p.(*Agg)
			a.e[0] = msg
			a.e[1] = args[1].p.(*Sl).s[wi]
			p := new(V)
			*p = agg
			return V{p: &Iface{t: rtOf(types.NewPointer(t.Type())), v: V{p: p}}}
		}
	}
	return m.errorsNew(msg)
}

func atomicLoad(m *Machine, f *Fn, args []V) V { return m.load(args[0]) }
func atomicStore(m *Machine, f *Fn, args []V) V {
	m.set(args[0].p.(*V), args[1])
	return V{}
}
func atomicAdd(m *Machine, f *Fn, args []V) V {
	f = m.prog.resolveSig(f)
	p := args[0].p.(*V)
	nv := V{n: norm(p.n+args[1].n, f.resRT)}
	m.set(p, nv)
	return nv
}
func atomicCAS(m *Machine, f *Fn, args []V) V {
	p := args[0].p.(*V)
	if p.n == args[1].n && p.p == args[1].p {
		m.set(p, args[2])
		return V{n: 1}
	}
	return V{}
}
func atomicSwap(m *Machine, f *Fn, args []V) V {
	p := args[0].p.(*V)
	old := *p
	m.set(p, args[1])
	return old
}

// ---- nondeterministic inputs ----

func (m *Machine) inPath() {
	if m.ps == nil {
		m.unsupported("nondeterministic input outside a path")
	}
}

func (m *Machine) newInput(kind, name string, w uint8) *Term {
	m.inPath()
	t := m.newVar(name, w)
	m.ps.inputs = append(m.ps.inputs, Input{Kind: kind, Name: name, term: t})
	return t
}

func symInt(m *Machine, f *Fn, args []V) V {
	return V{p: m.newInput("int", str(m, args[0]), 64)}
}

func (m *Machine) rng(name string, lo, hi int64) V {
	// keep the variable narrow when the range allows it
	if lo == hi {
		m.inPath()
		m.ps.inputs = append(m.ps.inputs, Input{Kind: "int", Name: name, term: m.ctx.BV(uint64(lo), 64)})
		return iv(lo)
	}
	w := uint8(64)
	for _, c := range []uint8{8, 16, 32} {
		if lo >= -(1<<(c-1)) && hi < 1<<(c-1) {
			w = c
			break
		}
	}
	m.inPath()
	v := m.newVar(name, w)
	t := m.ctx.SExt(v, 64)
	m.ps.inputs = append(m.ps.inputs, Input{Kind: "int", Name: name, term: t})
	c := m.ctx
	m.assume(c.And(c.Cmp(OpSLe, c.BV(uint64(lo), w), v), c.Cmp(OpSLe, v, c.BV(uint64(hi), w))))
	return V{p: t}
}

func symRune(m *Machine, name string) *Term {
	v := m.newInput("rune", name, 32)
	c := m.ctx
	lt := func(k uint64) *Term { return c.Cmp(OpULt, v, c.BV(k, 32)) }
	m.assume(lt(0x110000))
	m.assume(c.Or(lt(0xD800), c.Not(lt(0xE000))))
	return v
}

func init() {
	same := func(g intrinsic, names ...string) map[string]intrinsic {
		r := map[string]intrinsic{}
		for _, n := range names {
			r[n] = g
		}
		return r
	}
	intrinsics = map[string]intrinsic{}
	add := func(mm map[string]intrinsic) {
		for k, v := range mm {
			intrinsics[k] = v
		}
	}

	// --- harness API ---
	S := symPath + "."
	add(map[string]intrinsic{
		S + "Int": symInt,
		S + "IntRange": func(m *Machine, f *Fn, args []V) V {
			return m.rng(str(m, args[0]), int64(args[1].n), int64(args[2].n))
		},
		S + "Bool": func(m *Machine, f *Fn, args []V) V {
			return V{p: m.newInput("bool", str(m, args[0]), sBool)}
		},
		S + "Byte": func(m *Machine, f *Fn, args []V) V {
			return V{p: m.newInput("byte", str(m, args[0]), 8)}
		},
		S + "Rune": func(m *Machine, f *Fn, args []V) V { return V{p: symRune(m, str(m, args[0]))} },
		S + "Float64": func(m *Machine, f *Fn, args []V) V {
			return V{p: m.ctx.FBits(m.newInput("float", str(m, args[0]), 64))}
		},
		S + "Choose": func(m *Machine, f *Fn, args []V) V {
			m.inPath()
			n := int(args[1].n)
			k := m.choose(n, "input")
			m.ps.inputs = append(m.ps.inputs, Input{Kind: "choose", Name: str(m, args[0]), term: m.ctx.BV(uint64(k), 64)})
			return V{n: uint64(k)}
		},
		S + "String": func(m *Machine, f *Fn, args []V) V {
			n := int(args[1].n)
			var ts []*Term
			for i := 0; i < n; i++ {
				ts = append(ts, m.newInput("byte", str(m, args[0]), 8))
			}
			return fromTerms(ts)
		},
		S + "ASCII": func(m *Machine, f *Fn, args []V) V {
			n := int(args[1].n)
			var ts []*Term
			for i := 0; i < n; i++ {
				v := m.newVar(str(m, args[0]), 7)
				t := m.ctx.ZExt(v, 8)
				m.ps.inputs = append(m.ps.inputs, Input{Kind: "byte", Name: str(m, args[0]), term: t})
				ts = append(ts, t)
			}
			return fromTerms(ts)
		},
		S + "Runes": func(m *Machine, f *Fn, args []V) V {
			n := int(args[1].n)
			var ts []*Term
			for i := 0; i < n; i++ {
				r := symRune(m, str(m, args[0]))
				ts = append(ts, m.strTerms(m.runeToStr(V{p: r}, rtI32()))...)
			}
			return fromTerms(ts)
		},
		S + "RuneIn": func(m *Machine, f *Fn, args []V) V {
			// one rune constrained to a constant set given as a string
			set := []rune(str(m, args[1]))
			sort.Slice(set, func(i, j int) bool { return set[i] < set[j] })
			var lo, hi []int32
			for _, r := range set {
				if n := len(hi); n > 0 && hi[n-1]+1 >= r {
					hi[n-1] = r
				} else {
					lo, hi = append(lo, r), append(hi, r)
				}
			}
			if len(set) > 0 && set[len(set)-1] < 0x80 {
				m.inPath()
				v := m.newVar(str(m, args[0]), 7)
				t := m.ctx.ZExt(v, 32)
				m.ps.inputs = append(m.ps.inputs, Input{Kind: "rune", Name: str(m, args[0]), term: t})
				cnd := m.ctx.False
				for i := range lo {
					cnd = m.ctx.Or(cnd, m.ctx.And(m.ctx.Cmp(OpULe, m.ctx.BV(uint64(lo[i]), 7), v), m.ctx.Cmp(OpULe, v, m.ctx.BV(uint64(hi[i]), 7))))
				}
				m.assume(cnd)
				return V{p: t}
			}
			v := m.newInput("rune", str(m, args[0]), 32)
			m.assume(m.ctx.InRanges(v, lo, hi))
			return V{p: v}
		},
		S + "Assume": func(m *Machine, f *Fn, args []V) V {
			m.assume(m.term(args[0], rtBool()))
			return V{}
		},
		S + "Assert": func(m *Machine, f *Fn, args []V) V {
			m.assert(m.term(args[0], rtBool()), str(m, args[1]))
			return V{}
		},
		S + "Cover": func(m *Machine, f *Fn, args []V) V {
			u := m.unit()
			u.mu.Lock()
			if u.stats.Covers == nil {
				u.stats.Covers = map[string]int64{}
			}
			u.stats.Covers[str(m, args[0])]++
			u.mu.Unlock()
			return V{}
		},
		S + "Note": func(m *Machine, f *Fn, args []V) V {
			if m.ps != nil {
				if s, ok := concStr(args[0]); ok {
					m.ps.notes = append(m.ps.notes, s)
				}
			}
			return V{}
		},
		// Shared(msg, f, roots...): f(0) and f(1) may run at the same time if
		// neither writes to memory that both can reach.
		S + "Shared": func(m *Machine, f *Fn, args []V) V {
			m.inPath()
			fz := &frozen{cells: map[*V]bool{}, maps: map[*Map]bool{}}
			fz.walk(args[2])
			fz.globals(m)
			mark := len(m.trail)
			m.released = &released{}
			for i := uint64(0); i < 2; i++ {
				m.callClosure(args[1], []V{{n: i}}, nil)
			}
			rel := m.released
			m.released = nil
			late := &frozen{cells: map[*V]bool{}, maps: map[*Map]bool{}}
			late.globals(m)
			if rel.written(m.trail) {
				m.assert(m.ctx.False, str(m, args[0]))
			}
			guarded := false
			for i, e := range m.trail[mark:] {
				before := fz.wrote(e)
				switch {
				case !before && !late.wrote(e):
				case rel.guarded(mark + i), !before && len(rel.locks) > 0:
					// what is new may have been made known under a lock
					guarded = true
				default:
					m.assert(m.ctx.False, str(m, args[0]))
				}
			}
			if guarded {
				// the other goroutine may hold the same lock: replay tells
				if m.ps.pos >= len(m.ps.prefix) {
					m.violation("assert", str(m, args[0])+underLock, nil)
				}
			}
			m.assert(m.ctx.True, str(m, args[0]))
			return V{}
		},
		S + "MapOrder": func(m *Machine, f *Fn, args []V) V {
			m.inPath()
			m.ps.mapOrder = args[0].n != 0
			return V{}
		},
		S + "Tier":   func(m *Machine, f *Fn, args []V) V { return V{n: uint64(tierN())} },
		S + "Native": func(m *Machine, f *Fn, args []V) V { return V{} },
		S + "And": func(m *Machine, f *Fn, args []V) V {
			return boolV(m.ctx.And(m.term(args[0], rtBool()), m.term(args[1], rtBool())))
		},
		S + "Or": func(m *Machine, f *Fn, args []V) V {
			return boolV(m.ctx.Or(m.term(args[0], rtBool()), m.term(args[1], rtBool())))
		},
		S + "Not": func(m *Machine, f *Fn, args []V) V {
			return boolV(m.ctx.Not(m.term(args[0], rtBool())))
		},
		S + "Implies": func(m *Machine, f *Fn, args []V) V {
			return boolV(m.ctx.Or(m.ctx.Not(m.term(args[0], rtBool())), m.term(args[1], rtBool())))
		},
		S + "Iff": func(m *Machine, f *Fn, args []V) V {
			return boolV(m.ctx.Eq(m.term(args[0], rtBool()), m.term(args[1], rtBool())))
		},
		S + "IteInt": func(m *Machine, f *Fn, args []V) V {
			return mkV(m.ctx.Ite(m.term(args[0], rtBool()), m.term(args[1], rtInt()), m.term(args[2], rtInt())), rtInt())
		},
		S + "IteFloat": func(m *Machine, f *Fn, args []V) V {
			return mkV(m.ctx.Ite(m.term(args[0], rtBool()), m.term(args[1], rtF64()), m.term(args[2], rtF64())), rtF64())
		},
		S + "SameFloat": func(m *Machine, f *Fn, args []V) V {
			// bit-for-bit up to NaN payload
			return boolV(m.ctx.Eq(m.term(args[0], rtF64()), m.term(args[1], rtF64())))
		},
		S + "Same":  func(m *Machine, f *Fn, args []V) V { return boolV(m.same(args[0], args[1])) },
		S + "PtrOf": func(m *Machine, f *Fn, args []V) V { return V{} },
		S + "ConcreteInt": func(m *Machine, f *Fn, args []V) V {
			return iv(m.intVal(args[0], rtInt()))
		},
		S + "ConcreteString": func(m *Machine, f *Fn, args []V) V { return mkStr(m.concreteString(args[0])) },
		S + "Itoa":           func(m *Machine, f *Fn, args []V) V { return mkStr(strconv.FormatInt(m.intVal(args[0], rtInt()), 10)) },
	})

	// --- fmt ---
	intrinsics["fmt.Errorf"] = fmtErrorf
	intrinsics["fmt.Sprintf"] = func(m *Machine, f *Fn, args []V) V {
		fc := &fmtCtx{m: m}
		return fc.result(fmt.Sprintf(str(m, args[0]), m.fmtArgs(fc, args[1])...))
	}
	intrinsics["fmt.Sprint"] = func(m *Machine, f *Fn, args []V) V {
		fc := &fmtCtx{m: m}
		return fc.result(fmt.Sprint(m.fmtArgs(fc, args[0])...))
	}
	intrinsics["fmt.Sprintln"] = func(m *Machine, f *Fn, args []V) V {
		fc := &fmtCtx{m: m}
		return fc.result(fmt.Sprintln(m.fmtArgs(fc, args[0])...))
	}
	add(same(nop, "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"))

	// --- sync, runtime ---
	lock := func(m *Machine, f *Fn, args []V) V { m.released.lock(m); return V{} }
	unlock := func(m *Machine, f *Fn, args []V) V { m.released.unlock(m); return V{} }
	add(same(lock, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock"))
	add(same(unlock, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock"))
	add(same(nop, "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"runtime.SetFinalizer", "runtime.GC", "runtime.KeepAlive", "runtime.Gosched"))
	// A pool hands back what was put last: the reuse that is hardest on its users.
	intrinsics["(*sync.Pool).Get"] = func(m *Machine, f *Fn, args []V) V {
		p := args[0].p.(*V)
		if l := m.pools[p]; len(l) > 0 {
			v := l[len(l)-1]
			m.setPool(p, l[:len(l)-1:len(l)-1])
			if m.released != nil {
				m.released.get(v, len(m.trail))
			}
			return v
		}
		a := p.p.(*Agg)
		if mk := a.e[len(a.e)-1]; mk.p != nil {
			return m.callClosure(mk, nil, nil)
		}
		return V{}
	}
	intrinsics["(*sync.Pool).Put"] = func(m *Machine, f *Fn, args []V) V {
		p := args[0].p.(*V)
		if args[1].p == nil {
			return V{}
		}
		m.setPool(p, append(m.pools[p][:len(m.pools[p]):len(m.pools[p])], args[1]))
		if m.released != nil {
			m.released.put(args[1], len(m.trail))
		}
		return V{}
	}
	intrinsics["(*sync.Once).Do"] = func(m *Machine, f *Fn, args []V) V {
		done := m.onceFlag(args[0])
		if done.n == 0 {
			m.released.lock(m)
			m.set(done, V{n: 1})
			m.callClosure(args[1], nil, nil)
			m.released.unlock(m)
		}
		return V{}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+ty] = atomicLoad
		intrinsics["sync/atomic.Store"+ty] = locked(atomicStore)
		intrinsics["sync/atomic.CompareAndSwap"+ty] = locked(atomicCAS)
		intrinsics["sync/atomic.Swap"+ty] = locked(atomicSwap)
		if ty != "Pointer" {
			intrinsics["sync/atomic.Add"+ty] = locked(atomicAdd)
		}
	}
	valueCell := func(args []V) V { return V{p: &args[0].p.(*V).p.(*Agg).e[0]} }
	intrinsics["(*sync/atomic.Value).Load"] = func(m *Machine, f *Fn, args []V) V { return *valueCell(args).p.(*V) }
	intrinsics["(*sync/atomic.Value).Store"] = locked(func(m *Machine, f *Fn, args []V) V {
		return atomicStore(m, f, []V{valueCell(args), args[1]})
	})
	intrinsics["(*sync/atomic.Value).Swap"] = locked(func(m *Machine, f *Fn, args []V) V {
		return atomicSwap(m, f, []V{valueCell(args), args[1]})
	})
	two := func(v V, ok bool) V {
		t := &Tuple{e: []V{v, {}}}
		if ok {
			t.e[1].n = 1
		}
		return V{p: t}
	}
	sm := func(name string, fn func(m *Machine, mp *Map, args []V) V) {
		intrinsics["(*sync.Map)."+name] = locked(func(m *Machine, f *Fn, args []V) V {
			return fn(m, m.syncMap(args[0].p.(*V)), args[1:])
		})
	}
	sm("Load", func(m *Machine, mp *Map, args []V) V {
		if e := m.mapFind(mp, args[0]); e != nil {
			return two(e.v, true)
		}
		return two(V{}, false)
	})
	sm("Store", func(m *Machine, mp *Map, args []V) V {
		m.mapSet(mp, args[0], args[1])
		return V{}
	})
	sm("LoadOrStore", func(m *Machine, mp *Map, args []V) V {
		if e := m.mapFind(mp, args[0]); e != nil {
			return two(e.v, true)
		}
		m.mapSet(mp, args[0], args[1])
		return two(args[1], false)
	})
	sm("LoadAndDelete", func(m *Machine, mp *Map, args []V) V {
		if e := m.mapFind(mp, args[0]); e != nil {
			m.mapDelete(mp, args[0])
			return two(e.v, true)
		}
		return two(V{}, false)
	})
	sm("Delete", func(m *Machine, mp *Map, args []V) V {
		m.mapDelete(mp, args[0])
		return V{}
	})
	sm("Clear", func(m *Machine, mp *Map, args []V) V {
		for len(mp.ents) > 0 {
			m.mapDelete(mp, mp.ents[0].k)
		}
		return V{}
	})
	sm("Range", func(m *Machine, mp *Map, args []V) V {
		for _, e := range append([]*mapEntry{}, mp.ents...) {
			if r := m.callClosure(args[0], []V{e.k, e.v}, nil); r.n == 0 {
				break
			}
		}
		return V{}
	})
	add(same(func(m *Machine, f *Fn, args []V) V { return args[0] }, "internal/stringslite.Clone", "strings.Clone"))
	intrinsics["internal/abi.NoEscape"] = func(m *Machine, f *Fn, args []V) V { return args[0] }
	intrinsics["internal/bytealg.MakeNoZero"] = func(m *Machine, f *Fn, args []V) V {
		n := int(m.intVal(args[0], rtInt()))
		return V{p: &Sl{make([]V, n, roundCap(n, 1))}}
	}

	// --- math ---
	ident := func(m *Machine, f *Fn, args []V) V { return args[0] }
	bits := func(m *Machine, f *Fn, args []V) V {
		if t, ok := args[0].p.(*Term); ok {
			if t.op == OpFBits {
				return V{p: t.args[0]}
			}
			m.unsupported("bits of a computed symbolic float")
		}
		return args[0]
	}
	frombits := func(m *Machine, f *Fn, args []V) V {
		if t, ok := args[0].p.(*Term); ok {
			return V{p: m.ctx.FBits(t)}
		}
		return args[0]
	}
	_ = ident
	add(same(bits, "math.Float64bits", "internal/strconv.float64bits"))
	add(same(frombits, "math.Float64frombits", "internal/strconv.float64frombits"))
	add(same(func(m *Machine, f *Fn, args []V) V {
		return V{n: uint64(math.Float32bits(float32(ff(args[0]))))}
	}, "math.Float32bits", "internal/strconv.float32bits"))
	add(same(func(m *Machine, f *Fn, args []V) V {
		return fv(float64(math.Float32frombits(uint32(args[0].n))))
	}, "math.Float32frombits", "internal/strconv.float32frombits"))
	intrinsics["math.Floor"] = mathUnary(math.Floor, func(c *Ctx, t *Term) *Term { return c.FRound(t, 1) })
	intrinsics["math.Ceil"] = mathUnary(math.Ceil, func(c *Ctx, t *Term) *Term { return c.FRound(t, 2) })
	intrinsics["math.Trunc"] = mathUnary(math.Trunc, func(c *Ctx, t *Term) *Term { return c.FRound(t, 0) })
	intrinsics["math.Sqrt"] = mathUnary(math.Sqrt, func(c *Ctx, t *Term) *Term { return c.FSqrt(t) })
	intrinsics["math.Abs"] = mathUnary(math.Abs, func(c *Ctx, t *Term) *Term { return c.FAbs(t) })
	intrinsics["math.IsNaN"] = func(m *Machine, f *Fn, args []V) V {
		if t, ok := args[0].p.(*Term); ok {
			return boolV(m.ctx.FIsNaN(t))
		}
		return bv(math.IsNaN(ff(args[0])))
	}
	intrinsics["math.IsInf"] = func(m *Machine, f *Fn, args []V) V {
		sign := int64(args[1].n)
		if t, ok := args[0].p.(*Term); ok {
			c := m.ctx
			pos := c.FCmp(OpFEq, t, c.FP(math.Float64bits(math.Inf(1))))
			neg := c.FCmp(OpFEq, t, c.FP(math.Float64bits(math.Inf(-1))))
			switch {
			case sign > 0:
				return boolV(pos)
			case sign < 0:
				return boolV(neg)
			}
			return boolV(c.Or(pos, neg))
		}
		return bv(math.IsInf(ff(args[0]), int(sign)))
	}
	intrinsics["math.Modf"] = func(m *Machine, f *Fn, args []V) V {
		if t, ok := args[0].p.(*Term); ok {
			ip := m.ctx.FRound(t, 0)
			return tuple(V{p: ip}, V{p: m.ctx.FBin(OpFSub, t, ip)})
		}
		a, b := math.Modf(ff(args[0]))
		return tuple(fv(a), fv(b))
	}
	intrinsics["math.Pow"] = mathBinary("pow", math.Pow)
	intrinsics["math.Mod"] = mathBinary("mod", math.Mod)
	intrinsics["math.FMA"] = func(m *Machine, f *Fn, args []V) V {
		if anySym(args...) {
			m.unsupported("symbolic FMA")
		}
		return fv(math.FMA(ff(args[0]), ff(args[1]), ff(args[2])))
	}

	// --- unicode ---
	for name, pred := range map[string]func(rune) bool{
		"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsNumber": unicode.IsNumber, "IsSpace": unicode.IsSpace,
		"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsControl": unicode.IsControl, "IsPunct": unicode.IsPunct,
		"IsPrint": unicode.IsPrint, "IsGraphic": unicode.IsGraphic, "IsMark": unicode.IsMark, "IsSymbol": unicode.IsSymbol,
	} {
		intrinsics["unicode."+name] = unicodePred(name, pred)
	}
	unicodeIs := func(m *Machine, tabs []*V, r V) V {
		tabRange := func(p *V, s *rset) {
			a := p.p.(*Agg)
			for fi := 0; fi < 2; fi++ {
				if a.e[fi].p == nil {
					continue
				}
				for _, e := range a.e[fi].p.(*Sl).s {
					x := e.p.(*Agg).e
					lo, hi, st := int32(x[0].n), int32(x[1].n), int32(x[2].n)
					if st == 1 {
						s.lo, s.hi = append(s.lo, lo), append(s.hi, hi)
					} else {
						for k := lo; k <= hi; k += st {
							s.lo, s.hi = append(s.lo, k), append(s.hi, k)
						}
					}
				}
			}
		}
		t := m.term(r, rtI32())
		res := m.ctx.False
		for _, p := range tabs {
			var s rset
			tabRange(p, &s)
			res = m.ctx.Or(res, m.ctx.InRanges(t, s.lo, s.hi))
		}
		return boolV(res)
	}
	intrinsics["unicode.Is"] = func(m *Machine, f *Fn, args []V) V {
		return unicodeIs(m, []*V{args[0].p.(*V)}, args[1])
	}
	add(same(func(m *Machine, f *Fn, args []V) V {
		var tabs []*V
		if len(args) > 1 && args[1].p != nil {
			for _, e := range args[1].p.(*Sl).s {
				tabs = append(tabs, e.p.(*V))
			}
		}
		return unicodeIs(m, tabs, args[0])
	}, "unicode.In", "unicode.IsOneOf"))

	// --- utf8 ---
	intrinsics["unicode/utf8.DecodeRuneInString"] = func(m *Machine, f *Fn, args []V) V {
		if strLen(args[0]) == 0 {
			return tuple(V{n: utf8.RuneError}, V{})
		}
		r, w := m.decodeRune(args[0], 0)
		return tuple(r, V{n: uint64(w)})
	}
	intrinsics["unicode/utf8.DecodeRune"] = func(m *Machine, f *Fn, args []V) V {
		ts := m.bytesTerms(args[0])
		if len(ts) == 0 {
			return tuple(V{n: utf8.RuneError}, V{})
		}
		r, w := m.decodeTerms(ts, 0)
		return tuple(r, V{n: uint64(w)})
	}
	intrinsics["unicode/utf8.RuneCountInString"] = func(m *Machine, f *Fn, args []V) V {
		n := 0
		for i := 0; i < strLen(args[0]); n++ {
			_, w := m.decodeRune(args[0], i)
			i += w
		}
		return V{n: uint64(n)}
	}
	intrinsics["unicode/utf8.AppendRune"] = func(m *Machine, f *Fn, args []V) V {
		s := m.runeToStr(args[1], rtI32())
		var add []V
		for i := 0; i < strLen(s); i++ {
			add = append(add, m.strByte(s, i))
		}
		return m.appendV(args[0], add, rtU8())
	}

	// --- bytealg / strings ---
	B := "internal/bytealg."
	idx := func(last bool) intrinsic {
		return func(m *Machine, f *Fn, args []V) V {
			ts := m.bytesTerms(args[0])
			if !isSym(args[1]) && allConst(ts) {
				if last {
					return iv(int64(strings.LastIndexByte(constStr(ts), byte(args[1].n))))
				}
				return iv(int64(strings.IndexByte(constStr(ts), byte(args[1].n))))
			}
			return m.indexByte(ts, m.term(args[1], rtU8()), last)
		}
	}
	add(same(idx(false), B+"IndexByteString", B+"IndexByte", "strings.IndexByte", "internal/stringslite.IndexByte"))
	add(same(idx(true), B+"LastIndexByteString", B+"LastIndexByte", "strings.LastIndexByte"))
	add(same(func(m *Machine, f *Fn, args []V) V {
		ts := m.bytesTerms(args[0])
		c := m.term(args[1], rtU8())
		n := m.ctx.BV(0, 64)
		for _, t := range ts {
			n = m.ctx.bvBin(OpAdd, n, m.ctx.Ite(m.ctx.Eq(t, c), m.ctx.BV(1, 64), m.ctx.BV(0, 64)))
		}
		return mkV(n, rtInt())
	}, B+"CountString", B+"Count"))
	add(same(func(m *Machine, f *Fn, args []V) V {
		return boolV(m.strEq(fromTerms(m.bytesTerms(args[0])), fromTerms(m.bytesTerms(args[1]))))
	}, B+"Equal"))
	add(same(func(m *Machine, f *Fn, args []V) V {
		a, b := fromTerms(m.bytesTerms(args[0])), fromTerms(m.bytesTerms(args[1]))
		c := m.ctx
		return mkV(c.Ite(m.strLess(a, b), c.BV(^uint64(0), 64), c.Ite(m.strEq(a, b), c.BV(0, 64), c.BV(1, 64))), rtInt())
	}, B+"Compare", B+"CompareString", "strings.Compare"))
	index := func(m *Machine, f *Fn, args []V) V {
		a, b := m.bytesTerms(args[0]), m.bytesTerms(args[1])
		if allConst(a) && allConst(b) {
			return iv(int64(strings.Index(constStr(a), constStr(b))))
		}
		r := m.ctx.BV(^uint64(0), 64)
		for i := len(a) - len(b); i >= 0; i-- {
			e := m.ctx.True
			for k := range b {
				e = m.ctx.And(e, m.ctx.Eq(a[i+k], b[k]))
			}
			r = m.ctx.Ite(e, m.ctx.BV(uint64(i), 64), r)
		}
		return mkV(r, rtInt())
	}
	add(same(index, B+"IndexString", B+"Index", "strings.Index", "internal/stringslite.Index"))
	intrinsics["strings.Contains"] = func(m *Machine, f *Fn, args []V) V {
		r := index(m, f, args)
		return boolV(m.ctx.Not(m.ctx.Eq(m.term(r, rtInt()), m.ctx.BV(^uint64(0), 64))))
	}
	intrinsics["strings.IndexRune"] = func(m *Machine, f *Fn, args []V) V {
		if s, ok := concStr(args[0]); ok {
			t, symr := args[1].p.(*Term)
			if !symr {
				return iv(int64(strings.IndexRune(s, rune(int32(args[1].n)))))
			}
			c := m.ctx
			r := c.BV(^uint64(0), 64)
			type ir struct {
				i int
				r rune
			}
			var rs []ir
			for i, x := range s {
				rs = append(rs, ir{i, x})
			}
			for k := len(rs) - 1; k >= 0; k-- {
				r = c.Ite(c.Eq(t, c.BV(uint64(uint32(rs[k].r)), 32)), c.BV(uint64(rs[k].i), 64), r)
			}
			return mkV(r, rtInt())
		}
		if !isSym(args[1]) && args[1].n < utf8.RuneSelf {
			return m.indexByte(m.strTerms(args[0]), m.ctx.BV(args[1].n, 8), false)
		}
		for i := 0; i < strLen(args[0]); {
			r, w := m.decodeRune(args[0], i)
			if m.branch(m.ctx.Eq(m.term(r, rtI32()), m.term(args[1], rtI32()))) {
				return iv(int64(i))
			}
			i += w
		}
		return iv(-1)
	}

	// --- strconv: floats go through the real conversion on concrete text ---
	// the real conversion runs as it is on a short symbolic text (its exact case is
	// one division); longer text is made concrete first
	intrinsics["strconv.ParseFloat"] = func(m *Machine, f *Fn, args []V) V {
		f = m.prog.resolveRaw(f)
		if _, ok := concStr(args[0]); !ok && strLen(args[0]) > 8 {
			args = []V{mkStr(m.concreteString(args[0])), args[1]}
		}
		return m.callBody(f, args)
	}

	// --- sort / reflect / errors ---
	sortSlice := func(m *Machine, f *Fn, args []V) V {
		if args[0].p == nil {
			return V{}
		}
		sl, ok := args[0].p.(*Iface).v.p.(*Sl)
		if !ok {
			return V{}
		}
		s := sl.s
		less := args[1]
		// insertion sort through the real comparison closure, swapping in place
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !m.cond(m.callClosure(less, []V{{n: uint64(j)}, {n: uint64(j - 1)}}, nil)) {
					break
				}
				a, b := copyVal(s[j]), copyVal(s[j-1])
				m.set(&s[j], b)
				m.set(&s[j-1], a)
			}
		}
		return V{}
	}
	add(same(sortSlice, "sort.Slice", "sort.SliceStable"))
	// A reflect.Value is its interface value, kept in the pointer word.
	rv := func(v V) *Iface { x, _ := v.p.(*Agg).e[1].p.(*Iface); return x }
	mkRV := func(t *RT, v V) V {
		if t.kind == KIface {
			if v.p == nil {
				return V{p: &Agg{e: []V{{}, {}, {}}}}
			}
			return V{p: &Agg{e: []V{{}, v, {}}}}
		}
		return V{p: &Agg{e: []V{{}, {p: &Iface{t: t, v: v}}, {}}}}
	}
	kindOf := func(x *Iface) reflect.Kind {
		if x == nil {
			return reflect.Invalid
		}
		switch t := x.t.t.Underlying().(type) {
		case *types.Basic:
			if k := t.Kind(); k >= types.Bool && k <= types.Complex128 {
				return reflect.Kind(k-types.Bool) + reflect.Bool
			} else if k == types.String {
				return reflect.String
			}
			return reflect.UnsafePointer
		case *types.Pointer:
			return reflect.Pointer
		case *types.Struct:
			return reflect.Struct
		case *types.Array:
			return reflect.Array
		case *types.Slice:
			return reflect.Slice
		case *types.Map:
			return reflect.Map
		case *types.Signature:
			return reflect.Func
		case *types.Chan:
			return reflect.Chan
		}
		return reflect.Interface
	}
	intrinsics["reflect.ValueOf"] = func(m *Machine, f *Fn, args []V) V {
		return V{p: &Agg{e: []V{{}, args[0], {}}}}
	}
	refl := func(name string, ok func(k reflect.Kind) bool, fn func(m *Machine, x *Iface, args []V) V) {
		intrinsics["(reflect.Value)."+name] = func(m *Machine, f *Fn, args []V) V {
			x := rv(args[0])
			if k := kindOf(x); !ok(k) {
				m.rtPanic("reflect: call of reflect.Value." + name + " on " + k.String() + " Value")
			}
			return fn(m, x, args[1:])
		}
	}
	self := func(m *Machine, x *Iface, args []V) V { return x.v }
	refl("Kind", func(k reflect.Kind) bool { return true }, func(m *Machine, x *Iface, args []V) V { return V{n: uint64(kindOf(x))} })
	refl("IsValid", func(k reflect.Kind) bool { return true }, func(m *Machine, x *Iface, args []V) V { return boolV(m.ctx.Bool(x != nil)) })
	refl("Interface", func(k reflect.Kind) bool { return k != reflect.Invalid }, func(m *Machine, x *Iface, args []V) V { return V{p: x} })
	refl("Bool", func(k reflect.Kind) bool { return k == reflect.Bool }, self)
	refl("Int", func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 }, func(m *Machine, x *Iface, args []V) V {
		if t, ok := x.v.p.(*Term); ok && t.w < 64 {
			return V{p: m.ctx.SExt(t, 64)}
		}
		return x.v
	})
	refl("Float", func(k reflect.Kind) bool { return k == reflect.Float64 }, self)
	refl("Len", func(k reflect.Kind) bool {
		return k == reflect.String || k == reflect.Slice || k == reflect.Map || k == reflect.Array
	}, func(m *Machine, x *Iface, args []V) V {
		switch p := x.v.p.(type) {
		case nil:
			return V{}
		case *Sl:
			return iv(int64(len(p.s)))
		case *Agg:
			return iv(int64(len(p.e)))
		case *Map:
			return iv(int64(p.live))
		}
		return iv(int64(strLen(x.v)))
	})
	refl("IsNil", func(k reflect.Kind) bool {
		return k == reflect.Slice || k == reflect.Map || k == reflect.Pointer || k == reflect.Func || k == reflect.Chan
	}, func(m *Machine, x *Iface, args []V) V { return boolV(m.ctx.Bool(x.v.p == nil)) })
	refl("Index", func(k reflect.Kind) bool { return k == reflect.Slice }, func(m *Machine, x *Iface, args []V) V {
		k := int(m.intVal(args[0], rtInt()))
		sl, _ := x.v.p.(*Sl)
		if sl == nil || k < 0 || k >= len(sl.s) {
			m.rtPanic("reflect: slice index out of range")
		}
		return mkRV(rtOf(x.t.t.Underlying().(*types.Slice).Elem()), copyVal(sl.s[k]))
	})
	intrinsics["(reflect.Value).String"] = func(m *Machine, f *Fn, args []V) V {
		x := rv(args[0])
		switch k := kindOf(x); k {
		case reflect.String:
			return x.v
		case reflect.Invalid:
			return mkStr("<invalid Value>")
		default:
			return mkStr("<" + x.t.t.String() + " Value>")
		}
	}
	// Addresses only have to be equal for the same object and different otherwise.
	refl("Pointer", func(k reflect.Kind) bool {
		return k == reflect.Slice || k == reflect.Map || k == reflect.Pointer || k == reflect.Func || k == reflect.Chan
	}, func(m *Machine, x *Iface, args []V) V { return V{n: addrOf(x.v)} })
	refl("Uint", func(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }, func(m *Machine, x *Iface, args []V) V {
		if t, ok := x.v.p.(*Term); ok && t.w < 64 {
			return V{p: m.ctx.ZExt(t, 64)}
		}
		return x.v
	})
	any_ := func(k reflect.Kind) bool { return true }
	in := func(lo, hi reflect.Kind) func(m *Machine, x *Iface, args []V) V {
		return func(m *Machine, x *Iface, args []V) V { k := kindOf(x); return boolV(m.ctx.Bool(k >= lo && k <= hi)) }
	}
	refl("CanInt", any_, in(reflect.Int, reflect.Int64))
	refl("CanUint", any_, in(reflect.Uint, reflect.Uintptr))
	refl("CanFloat", any_, in(reflect.Float32, reflect.Float64))
	refl("CanInterface", func(k reflect.Kind) bool { return k != reflect.Invalid }, func(m *Machine, x *Iface, args []V) V { return boolV(m.ctx.Bool(true)) })
	refl("Comparable", any_, func(m *Machine, x *Iface, args []V) V { return boolV(m.ctx.Bool(x == nil || x.t.cmp)) })
	refl("MapIndex", func(k reflect.Kind) bool { return k == reflect.Map }, func(m *Machine, x *Iface, args []V) V {
		mt := x.t.t.Underlying().(*types.Map)
		key := rv(args[0])
		mp, _ := x.v.p.(*Map)
		if mp == nil || key == nil {
			return V{p: &Agg{e: []V{{}, {}, {}}}}
		}
		k := key.v
		if rtOf(mt.Key()).kind == KIface {
			k = V{p: key}
		}
		e := m.mapFind(mp, k)
		if e == nil {
			return V{p: &Agg{e: []V{{}, {}, {}}}}
		}
		return mkRV(rtOf(mt.Elem()), copyVal(e.v))
	})
	refl("MapKeys", func(k reflect.Kind) bool { return k == reflect.Map }, func(m *Machine, x *Iface, args []V) V {
		mp, _ := x.v.p.(*Map)
		if mp == nil {
			return V{p: &Sl{s: []V{}}}
		}
		ents := []*mapEntry{}
		for _, e := range mp.ents {
			if !e.dead {
				ents = append(ents, e)
			}
		}
		kt := rtOf(x.t.t.Underlying().(*types.Map).Key())
		out := []V{}
		for len(ents) > 0 {
			k := 0
			if m.ps != nil && m.ps.mapOrder && len(ents) > 1 {
				k = m.choose(len(ents), "maporder")
			}
			out = append(out, mkRV(kt, ents[k].k))
			ents = append(append([]*mapEntry{}, ents[:k]...), ents[k+1:]...)
		}
		return V{p: &Sl{s: out}}
	})
	intrinsics["(reflect.Kind).String"] = func(m *Machine, f *Fn, args []V) V {
		return mkStr(reflect.Kind(m.intVal(args[0], rtInt())).String())
	}
	// A reflect.Type is an *rtype whose cell holds the type; one per type.
	typeOf := func(m *Machine, x *Iface) V {
		pkg := m.prog.prog.ImportedPackage("reflect")
		if x == nil || pkg == nil {
			return V{}
		}
		rt := pkg.Type("rtype")
		if rt == nil {
			m.unsupported("reflect.TypeOf")
		}
		x.t.cellOnce.Do(func() { x.t.cell = &V{p: x.t} })
		return V{p: &Iface{t: rtOf(types.NewPointer(rt.Type())), v: V{p: x.t.cell}}}
	}
	intrinsics["reflect.TypeOf"] = func(m *Machine, f *Fn, args []V) V {
		x, _ := args[0].p.(*Iface)
		return typeOf(m, x)
	}
	intrinsics["(reflect.Value).Type"] = func(m *Machine, f *Fn, args []V) V {
		x := rv(args[0])
		if x == nil {
			m.rtPanic("reflect: call of reflect.Value.Type on zero Value")
		}
		return typeOf(m, x)
	}
	rtype := func(name string, fn func(m *Machine, t *RT) V) {
		intrinsics["(*reflect.rtype)."+name] = func(m *Machine, f *Fn, args []V) V {
			c, _ := args[0].p.(*V)
			if c == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			return fn(m, c.p.(*RT))
		}
	}
	rtype("Kind", func(m *Machine, t *RT) V { return V{n: uint64(kindOf(&Iface{t: t}))} })
	rtype("String", func(m *Machine, t *RT) V {
		return mkStr(types.TypeString(t.t, func(p *types.Package) string { return p.Name() }))
	})
	rtype("Comparable", func(m *Machine, t *RT) V { return boolV(m.ctx.Bool(t.cmp || t.kind == KIface)) })
	intrinsics["reflect.DeepEqual"] = func(m *Machine, f *Fn, args []V) V {
		anyRT := rtOf(types.NewInterfaceType(nil, nil))
		return boolV(m.deepEq(anyRT, args[0], args[1], 0))
	}
	intrinsics["errors.Is"] = func(m *Machine, f *Fn, args []V) V {
		e := args[0]
		errRT := rtOf(types.Universe.Lookup("error").Type())
		for e.p != nil {
			if m.cond(boolV(m.eq(errRT, e, args[1]))) {
				return V{n: 1}
			}
			fn := m.findMethod(e.p.(*Iface).t, "Unwrap")
			if fn == nil {
				break
			}
			e = m.call(fn, []V{e.p.(*Iface).v}, nil, nil)
		}
		return bv(args[1].p == nil && args[0].p == nil)
	}

	// --- ANTLR runtime: set membership as one term, no DFA edge caching for symbolic characters ---
	A := antlrPath + "."
	intrinsics["(*"+A+"IntervalSet).contains"] = func(m *Machine, f *Fn, args []V) V {
		iv := *fieldPtr(args[0], 0)
		if iv.p == nil {
			return V{}
		}
		s := iv.p.(*Sl).s
		if t, ok := args[1].p.(*Term); ok {
			x := t
			if (t.op == OpSExt || t.op == OpZExt) && t.args[0].w <= 32 {
				x = m.ctx.Resize(t.args[0], 32, t.op == OpSExt)
			} else {
				m.unsupported("IntervalSet.contains of a wide term")
			}
			var lo, hi []int32
			for _, e := range s {
				a := e.p.(*Agg).e
				lo = append(lo, int32(a[0].n))
				hi = append(hi, int32(a[1].n)-1)
			}
			sort.Slice(lo, func(i, j int) bool { return lo[i] < lo[j] })
			sort.Slice(hi, func(i, j int) bool { return hi[i] < hi[j] })
			return boolV(m.ctx.InRanges(x, lo, hi))
		}
		x := int64(args[1].n)
		for _, e := range s {
			a := e.p.(*Agg).e
			if x >= int64(a[0].n) && x < int64(a[1].n) {
				return V{n: 1}
			}
		}
		return V{}
	}
	skipIfSym := func(name string, argIdx int, ret func(m *Machine, args []V) V) {
		intrinsics[name] = func(m *Machine, f *Fn, args []V) V {
			if isSym(args[argIdx]) {
				return ret(m, args)
			}
			return m.callBody(m.prog.resolveRaw(f), args)
		}
	}
	skipIfSym("(*"+A+"LexerATNSimulator).getExistingTargetState", 2, func(m *Machine, args []V) V { return V{} })
	intrinsics["(*"+A+"LexerATNSimulator).addDFAEdge"] = func(m *Machine, f *Fn, args []V) V {
		if isSym(args[2]) {
			// same computation, told a character outside the cached range, so no edge is stored
			args = append([]V{}, args...)
			args[2] = V{n: 0x10FFFE}
		}
		return m.callBody(m.prog.resolveRaw(f), args)
	}
}

// onceFlag finds the done word of a sync.Once.
func (m *Machine) onceFlag(p V) *V {
	v := p.p.(*V)
	for {
		a, ok := v.p.(*Agg)
		if !ok {
			return v
		}
		// done is the first scalar-bearing field; skip marker structs
		next := -1
		for i := range a.e {
			if b, ok := a.e[i].p.(*Agg); ok && len(b.e) == 0 {
				continue
			}
			next = i
			break
		}
		v = &a.e[next]
	}
}

// resolveRaw compiles f's own body although f has an intrinsic.
func (p *Program) resolveRaw(f *Fn) *Fn {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.redirect == nil {
		r := &Fn{f: f.f, name: f.name, recover: -1, pkgPath: f.pkgPath, inScope: f.inScope}
		p.compile(r)
		f.redirect = r
	}
	return f.redirect
}

func (m *Machine) callBody(f *Fn, args []V) V { return m.callFn(f, args, nil, nil) }

// same decides whether two document nodes are the same node: identity for
// containers, equality of dynamic type and value for scalars.
func (m *Machine) same(a, b V) *Term {
	c := m.ctx
	if a.p == nil || b.p == nil {
		return c.Bool(a.p == nil && b.p == nil)
	}
	x, y := a.p.(*Iface), b.p.(*Iface)
	if x.t != y.t {
		return c.False
	}
	switch x.t.kind {
	case KMap:
		return c.Bool(x.v.p == y.v.p)
	case KSlice:
		if x.v.p == nil || y.v.p == nil {
			return c.Bool(x.v.p == y.v.p)
		}
		s, t := x.v.p.(*Sl).s, y.v.p.(*Sl).s
		if len(s) != len(t) {
			return c.False
		}
		return c.Bool(len(s) == 0 || &s[0] == &t[0])
	case KF64:
		return c.Eq(m.term(x.v, x.t), m.term(y.v, y.t))
	}
	if !x.t.cmp {
		m.unsupported("Same on %s", x.t.t)
	}
	return m.eq(x.t, x.v, y.v)
}

func (m *Machine) deepEq(rt *RT, a, b V, d int) *Term {
	c := m.ctx
	if d > 100 {
		m.unsupported("DeepEqual depth")
	}
	switch rt.kind {
	case KIface:
		if a.p == nil || b.p == nil {
			return c.Bool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if x.t != y.t {
			return c.False
		}
		return m.deepEq(x.t, x.v, y.v, d+1)
	case KSlice:
		if a.p == nil || b.p == nil {
			return c.Bool(a.p == nil && b.p == nil)
		}
		s, t := a.p.(*Sl).s, b.p.(*Sl).s
		if len(s) != len(t) {
			return c.False
		}
		r := c.True
		for i := range s {
			r = c.And(r, m.deepEq(rt.elem, s[i], t[i], d+1))
		}
		return r
	case KStruct:
		r := c.True
		for i, f := range rt.fields {
			r = c.And(r, m.deepEq(f, a.p.(*Agg).e[i], b.p.(*Agg).e[i], d+1))
		}
		return r
	case KMap:
		if a.p == nil || b.p == nil {
			return c.Bool(a.p == nil && b.p == nil)
		}
		s, t := a.p.(*Map), b.p.(*Map)
		if s == t {
			return c.True
		}
		if s.live != t.live {
			return c.False
		}
		r := c.True
		for _, e := range s.ents {
			o := m.mapFind(t, e.k)
			if o == nil {
				return c.False
			}
			r = c.And(r, m.deepEq(rt.elem, e.v, o.v, d+1))
		}
		return r
	case KPtr:
		if a.p == b.p {
			return c.True
		}
		if a.p == nil || b.p == nil {
			return c.False
		}
		el := rtOf(deref(rt.t))
		return m.deepEq(el, *a.p.(*V), *b.p.(*V), d+1)
	}
	return m.eq(rt, a, b)
}

// locked does an operation that is ordered against the others of its kind.
func locked(fn func(m *Machine, f *Fn, args []V) V) func(m *Machine, f *Fn, args []V) V {
	return func(m *Machine, f *Fn, args []V) V {
		r := m.released
		r.lock(m)
		v := fn(m, f, args)
		r.unlock(m)
		return v
	}
}

// syncMap is the content of a sync.Map.
func (m *Machine) syncMap(p *V) *Map {
	if m.syncMaps == nil {
		m.syncMaps = map[*V]*Map{}
	}
	mp := m.syncMaps[p]
	if mp == nil {
		mp = newMap(rtOf(types.Universe.Lookup("any").Type()))
		m.syncMaps[p] = mp
	}
	return mp
}

func (m *Machine) setPool(p *V, l []V) {
	if m.pools == nil {
		m.pools = map[*V][]V{}
	}
	if m.trailOn {
		old := m.pools[p]
		m.trail = append(m.trail, trailEnt{fn: func() { m.pools[p] = old }})
	}
	m.pools[p] = l
}

// released notes what was put into pools, and from which write to which: no
// one may write to it in between.
type released struct {
	spans []*relSpan
	depth int
	locks [][2]int // stretches of the trail written with a lock held
}

// underLock marks a write another goroutine may be kept from seeing.
const underLock = " (with a lock held)"

func (r *released) lock(m *Machine) {
	if r == nil {
		return
	}
	if r.depth++; r.depth == 1 {
		r.locks = append(r.locks, [2]int{len(m.trail), -1})
	}
}

func (r *released) unlock(m *Machine) {
	if r == nil || r.depth == 0 {
		return
	}
	if r.depth--; r.depth == 0 {
		r.locks[len(r.locks)-1][1] = len(m.trail)
	}
}

func (r *released) guarded(at int) bool {
	for _, l := range r.locks {
		if l[0] <= at && (l[1] < 0 || at < l[1]) {
			return true
		}
	}
	return false
}

type relSpan struct {
	v        V
	mem      *frozen
	from, to int
}

func (r *released) put(v V, at int) {
	s := &relSpan{v: v, mem: &frozen{cells: map[*V]bool{}, maps: map[*Map]bool{}}, from: at, to: -1}
	s.mem.walk(v)
	r.spans = append(r.spans, s)
}

func (r *released) get(v V, at int) {
	for _, s := range r.spans {
		if s.to < 0 && sameIface(s.v, v) {
			s.to = at
		}
	}
}

func sameIface(a, b V) bool {
	x, ok := a.p.(*Iface)
	y, ok2 := b.p.(*Iface)
	return ok && ok2 && (x == y || sameRef(x.v, y.v))
}

func (r *released) written(trail []trailEnt) bool {
	for _, s := range r.spans {
		if s.to < 0 {
			s.to = len(trail)
		}
		for _, e := range trail[s.from:s.to] {
			if s.mem.wrote(e) {
				return true
			}
		}
	}
	return false
}

// frozen is the memory reachable from some values.
type frozen struct {
	cells map[*V]bool
	maps  map[*Map]bool
	slabs map[any]bool
}

func (f *frozen) wrote(e trailEnt) bool {
	return e.ptr != nil && f.cells[e.ptr] || e.mp != nil && f.maps[e.mp]
}

// globals adds the package variables of the code under test.
func (f *frozen) globals(m *Machine) {
	m.prog.mu.RLock()
	var idx []int
	for g, i := range m.prog.globals {
		if i >= 0 && g.Pkg != nil && g.Pkg.Pkg.Path() == targetPath {
			idx = append(idx, i)
		}
	}
	m.prog.mu.RUnlock()
	for _, i := range idx {
		f.cell(m.global(i))
	}
	for _, mp := range m.syncMaps {
		for _, e := range mp.ents {
			f.walk(e.k)
			f.walk(e.v)
		}
	}
}

func (f *frozen) cell(p *V) {
	if p == nil || f.cells[p] {
		return
	}
	f.cells[p] = true
	f.walk(*p)
}

func (f *frozen) walk(v V) {
	if f.slabs == nil {
		f.slabs = map[any]bool{}
	}
	switch x := v.p.(type) {
	case *V:
		f.cell(x)
	case *Agg:
		if !f.slabs[x] {
			f.slabs[x] = true
			for i := range x.e {
				f.cell(&x.e[i])
			}
		}
	case *Tuple:
		for i := range x.e {
			f.walk(x.e[i])
		}
	case *Sl:
		s := x.s[:cap(x.s)]
		for i := range s {
			f.cell(&s[i])
		}
	case *SymPtr:
		for i := range x.arr {
			f.cell(&x.arr[i])
		}
	case *Map:
		if x != nil && !f.maps[x] {
			f.maps[x] = true
			for _, e := range x.ents {
				f.walk(e.k)
				f.cell(&e.v)
			}
		}
	case *Iface:
		if x != nil {
			f.walk(x.v)
		}
	case *Closure:
		if x != nil && !f.slabs[x] {
			f.slabs[x] = true
			for i := range x.free {
				f.walk(x.free[i])
			}
		}
	}
}
