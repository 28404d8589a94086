package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// V is a runtime value. Scalars live in n (sign- or zero-extended to 64 bits,
// bools as 0/1, floats as IEEE bits) unless p holds a *Term, in which case the
// scalar is symbolic. Everything else lives in p:
//
//	string        string | *SymStr (nil = "")
//	pointer       *V | *SymPtr (nil = nil pointer)
//	struct/array  *Agg
//	slice         *Sl (nil = nil slice)
//	map           *Map
//	interface     *Iface (nil = nil interface)
//	func          *Closure
//	chan          *Chan
//	tuple         *Tuple
type V struct {
	n uint64
	p any
}

type Agg struct{ e []V }
type Sl struct{ s []V }
type Tuple struct{ e []V }

type SymPtr struct {
	arr []V
	idx *Term // 64-bit, already known in range
}

// SymStr is a string of known length with symbolic bytes.
type SymStr struct{ b []*Term }

type Iface struct {
	t *RT
	v V
}

type Closure struct {
	fn   *Fn
	free []V
	// native closures (engine-made)
	nat func(m *Machine, args []V) V
}

type Chan struct {
	buf    []V
	cap    int
	closed bool
}

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KUint
	KF64
	KF32
	KString
	KPtr
	KStruct
	KArray
	KSlice
	KMap
	KIface
	KFunc
	KChan
	KTuple
	KUnsafe
	KComplex
	KNil
)

// RT is a canonical runtime type descriptor.
type RT struct {
	t      types.Type
	id     int
	kind   Kind
	w      uint8 // integer width
	elem   *RT
	key    *RT
	fields []*RT
	n      int // array length
	size   int64
	cmp    bool // comparable
	mu     sync.Mutex
	meth   map[string]*Fn
	impl   map[*RT]bool

	cell     *V // what reflection hands out for the type
	cellOnce sync.Once
}

func (rt *RT) isScalar() bool { return rt.kind <= KF32 }
func (rt *RT) signed() bool   { return rt.kind == KInt }

type typeTab struct {
	mu    sync.RWMutex
	quick map[types.Type]*RT
	canon typeutil.Map
	n     int
	sizes types.Sizes
}

var tt = &typeTab{quick: map[types.Type]*RT{}, sizes: types.SizesFor("gc", "amd64")}

func rtOf(t types.Type) *RT {
	tt.mu.RLock()
	r := tt.quick[t]
	tt.mu.RUnlock()
	if r != nil {
		return r
	}
	tt.mu.Lock()
	defer tt.mu.Unlock()
	return rtLocked(t)
}

func rtLocked(t types.Type) *RT {
	if r := tt.quick[t]; r != nil {
		return r
	}
	t0 := t
	t = types.Unalias(t)
	if r, ok := tt.canon.At(t).(*RT); ok {
		tt.quick[t0] = r
		return r
	}
	r := &RT{t: t, id: tt.n, meth: map[string]*Fn{}, impl: map[*RT]bool{}}
	tt.n++
	tt.canon.Set(t, r)
	tt.quick[t0] = r
	r.cmp = types.Comparable(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			r.kind = KBool
		case types.Int, types.Int64, types.UntypedInt:
			r.kind, r.w = KInt, 64
		case types.Int8:
			r.kind, r.w = KInt, 8
		case types.Int16:
			r.kind, r.w = KInt, 16
		case types.Int32, types.UntypedRune:
			r.kind, r.w = KInt, 32
		case types.Uint, types.Uint64, types.Uintptr:
			r.kind, r.w = KUint, 64
		case types.Uint8:
			r.kind, r.w = KUint, 8
		case types.Uint16:
			r.kind, r.w = KUint, 16
		case types.Uint32:
			r.kind, r.w = KUint, 32
		case types.Float64, types.UntypedFloat:
			r.kind = KF64
		case types.Float32:
			r.kind = KF32
		case types.String, types.UntypedString:
			r.kind = KString
		case types.UnsafePointer:
			r.kind = KUnsafe
		case types.UntypedNil:
			r.kind = KNil
		default:
			r.kind = KComplex
		}
	case *types.Pointer:
		r.kind = KPtr
		r.elem = nil // lazily, to avoid deep recursion
	case *types.Struct:
		r.kind = KStruct
		for i := 0; i < u.NumFields(); i++ {
			r.fields = append(r.fields, rtLocked(u.Field(i).Type()))
		}
	case *types.Array:
		r.kind = KArray
		r.n = int(u.Len())
		r.elem = rtLocked(u.Elem())
	case *types.Slice:
		r.kind = KSlice
		r.elem = rtLocked(u.Elem())
	case *types.Map:
		r.kind = KMap
		r.key = rtLocked(u.Key())
		r.elem = rtLocked(u.Elem())
	case *types.Interface:
		r.kind = KIface
	case *types.Signature:
		r.kind = KFunc
	case *types.Chan:
		r.kind = KChan
		r.elem = rtLocked(u.Elem())
	case *types.Tuple:
		r.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, rtLocked(u.At(i).Type()))
		}
	default:
		r.kind = KNil
	}
	if r.kind != KTuple && r.kind != KNil {
		func() {
			defer func() { recover() }()
			r.size = tt.sizes.Sizeof(t)
		}()
	}
	return r
}

func zero(rt *RT) V {
	switch rt.kind {
	case KStruct:
		a := &Agg{e: make([]V, len(rt.fields))}
		for i, f := range rt.fields {
			if f.kind == KStruct || f.kind == KArray {
				a.e[i] = zero(f)
			}
		}
		return V{p: a}
	case KArray:
		a := &Agg{e: make([]V, rt.n)}
		if rt.elem.kind == KStruct || rt.elem.kind == KArray {
			for i := range a.e {
				a.e[i] = zero(rt.elem)
			}
		}
		return V{p: a}
	case KTuple:
		a := &Tuple{e: make([]V, len(rt.fields))}
		for i, f := range rt.fields {
			a.e[i] = zero(f)
		}
		return V{p: a}
	}
	return V{}
}

// copyVal deep-copies aggregates.
func copyVal(v V) V {
	if a, ok := v.p.(*Agg); ok {
		n := &Agg{e: make([]V, len(a.e))}
		for i := range a.e {
			if _, agg := a.e[i].p.(*Agg); agg {
				n.e[i] = copyVal(a.e[i])
			} else {
				n.e[i] = a.e[i]
			}
		}
		return V{p: n}
	}
	return v
}

// ---- maps ----

type mkey any

type cons struct{ a, b any }

type ifaceKey struct {
	t *RT
	k any
}

type mapEntry struct {
	k, v V
	key  any // canonical concrete key, nil if symbolic
	dead bool
}

type Map struct {
	kt     *RT
	idx    map[any]*mapEntry
	ents   []*mapEntry
	live   int
	hasSym bool
}

func newMap(kt *RT) *Map { return &Map{kt: kt, idx: map[any]*mapEntry{}} }

// concKey returns a comparable Go key for a fully concrete V, or nil,false.
func concKey(rt *RT, v V) (any, bool) {
	switch rt.kind {
	case KBool, KInt, KUint, KF64, KF32:
		if v.p != nil {
			return nil, false
		}
		if rt.kind == KF64 {
			if v.n == 1<<63 {
				return uint64(0), true
			}
		}
		return v.n, true
	case KString:
		switch s := v.p.(type) {
		case nil:
			return "", true
		case string:
			return s, true
		}
		return nil, false
	case KIface:
		if v.p == nil {
			return nil2, true
		}
		ic := v.p.(*Iface)
		if !ic.t.cmp {
			panic(hashPanic{ic.t})
		}
		k, ok := concKey(ic.t, ic.v)
		if !ok {
			return nil, false
		}
		return ifaceKey{ic.t, k}, true
	case KStruct, KArray:
		a := v.p.(*Agg)
		var acc any = cons{}
		for i := range a.e {
			et := rt.elem
			if rt.kind == KStruct {
				et = rt.fields[i]
			}
			k, ok := concKey(et, a.e[i])
			if !ok {
				return nil, false
			}
			acc = cons{acc, k}
		}
		return acc, true
	}
	if v.p == nil {
		return nil2, true
	}
	return v.p, true
}

type nil2T struct{}

var nil2 = nil2T{}

type hashPanic struct{ t *RT }

// ---- strings ----

func strLen(v V) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen: %T", v.p))
}

func concStr(v V) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func mkStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{p: s}
}

func (m *Machine) strByte(v V, i int) V {
	switch s := v.p.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *SymStr:
		t := s.b[i]
		if t.op == OpConst {
			return V{n: t.c}
		}
		return V{p: t}
	}
	panic("strByte")
}

func (m *Machine) strTerms(v V) []*Term {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		out := make([]*Term, len(s))
		for i := range out {
			out[i] = m.ctx.BV(uint64(s[i]), 8)
		}
		return out
	case *SymStr:
		return s.b
	}
	panic("strTerms")
}

// fromTerms builds a string value, concrete if possible.
func fromTerms(ts []*Term) V {
	for _, t := range ts {
		if t.op != OpConst {
			return V{p: &SymStr{b: ts}}
		}
	}
	var sb strings.Builder
	for _, t := range ts {
		sb.WriteByte(byte(t.c))
	}
	return mkStr(sb.String())
}

func (m *Machine) strSlice(v V, lo, hi int) V {
	switch s := v.p.(type) {
	case nil:
		return V{}
	case string:
		return mkStr(s[lo:hi])
	case *SymStr:
		return fromTerms(s.b[lo:hi:hi])
	}
	panic("strSlice")
}

func (m *Machine) strConcat(a, b V) V {
	sa, oka := concStr(a)
	sb, okb := concStr(b)
	if oka && okb {
		return mkStr(sa + sb)
	}
	if oka && sa == "" {
		return b
	}
	if okb && sb == "" {
		return a
	}
	ta, tb := m.strTerms(a), m.strTerms(b)
	out := make([]*Term, 0, len(ta)+len(tb))
	out = append(append(out, ta...), tb...)
	return fromTerms(out)
}

func (m *Machine) strEq(a, b V) *Term {
	if strLen(a) != strLen(b) {
		return m.ctx.False
	}
	sa, oka := concStr(a)
	sb, okb := concStr(b)
	if oka && okb {
		return m.ctx.Bool(sa == sb)
	}
	ta, tb := m.strTerms(a), m.strTerms(b)
	r := m.ctx.True
	for i := len(ta) - 1; i >= 0; i-- {
		// whole-rune equality when both sides carry the same encoding annotation
		r = m.ctx.And(m.ctx.Eq(ta[i], tb[i]), r)
		if r == m.ctx.False {
			return r
		}
	}
	return r
}

func (m *Machine) strLess(a, b V) *Term {
	sa, oka := concStr(a)
	sb, okb := concStr(b)
	if oka && okb {
		return m.ctx.Bool(sa < sb)
	}
	ta, tb := m.strTerms(a), m.strTerms(b)
	n := len(ta)
	if len(tb) < n {
		n = len(tb)
	}
	c := m.ctx
	r := c.Bool(len(ta) < len(tb))
	for i := n - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(ta[i], tb[i]), r, c.Cmp(OpULt, ta[i], tb[i]))
	}
	return r
}

// ---- helpers on ssa ----

func isInterface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

var _ = ssa.NaiveForm
