package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const (
	IAlloc uint8 = iota
	IBinOp
	ICallStatic
	ICallDyn
	ICallInvoke
	ICallBuiltin
	IChangeIface
	IMove
	IConvert
	IExtract
	IField
	IFieldAddr
	IIf
	IIndex
	IIndexAddr
	IJump
	ILookup
	IMakeChan
	IMakeClosure
	IMakeIface
	IMakeMap
	IMakeSlice
	IMapUpdate
	INext
	IPanic
	IRange
	IReturn
	IRunDefers
	ISelect
	ISend
	ISlice
	ISliceToArr
	IStore
	ITypeAssert
	IUnOp
	IDefer
	IGo
	IUnsupported
)

const globBase = -(1 << 24)

type Instr struct {
	op   uint8
	tok  token.Token
	flag bool
	dst  int32
	a, b int32
	c, d int32
	n    int
	rt   *RT
	rt2  *RT
	args []int32
	fn   *Fn
	name string
	meth *types.Func
	src  ssa.Instruction
}

type phi struct {
	dst  int32
	srcs []int32
}

type Block struct {
	phis   []phi
	instrs []Instr
	succs  []int
	preds  []int
	idx    int
	loop   bool
}

type Fn struct {
	f        *ssa.Function
	name     string
	nregs    int
	nparams  int
	nfree    int
	blocks   []*Block
	consts   []V
	hasDefer bool
	recover  int
	resRT    *RT
	once     sync.Once
	intr     intrinsic
	redirect *Fn
	pkgPath  string
	inScope  bool // code under test
	ext      bool
	mu       sync.Mutex
}

type Program struct {
	prog    *ssa.Program
	mu      sync.RWMutex
	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]int
	globRT  []*RT
	globSSA []*ssa.Global
	target  string // import path prefix under test
}

func NewProgram(p *ssa.Program, target string) *Program {
	pr := &Program{prog: p, fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]int{}, target: target}
	for _, pkg := range p.AllPackages() {
		for _, mem := range pkg.Members {
			if g, ok := mem.(*ssa.Global); ok {
				pr.globals[g] = -1
			}
		}
	}
	return pr
}

func (p *Program) globIndex(g *ssa.Global) int {
	p.mu.RLock()
	i, ok := p.globals[g]
	p.mu.RUnlock()
	if ok && i >= 0 {
		return i
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	i, ok = p.globals[g]
	if ok && i >= 0 {
		return i
	}
	i = len(p.globRT)
	p.globRT = append(p.globRT, rtOf(deref(g.Type())))
	p.globSSA = append(p.globSSA, g)
	p.globals[g] = i
	return i
}

func (p *Program) fn(f *ssa.Function) *Fn {
	p.mu.RLock()
	r := p.fns[f]
	p.mu.RUnlock()
	if r != nil {
		return r
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if r = p.fns[f]; r != nil {
		return r
	}
	r = &Fn{f: f, name: f.String(), recover: -1}
	if f.Pkg != nil {
		r.pkgPath = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		r.pkgPath = o.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		r.pkgPath = f.Object().Pkg().Path()
	}
	for par := f.Parent(); r.pkgPath == "" && par != nil; par = par.Parent() {
		if par.Pkg != nil {
			r.pkgPath = par.Pkg.Pkg.Path()
		}
	}
	r.inScope = inScopePath(r.pkgPath, p.target)
	key := r.name
	if o := f.Origin(); o != nil && o != f {
		key = o.String()
	}
	if isDeniedInit(f) {
		r.intr = nop
	} else if in, ok := intrinsics[key]; ok {
		r.intr = in
	} else if rd, ok := redirects[key]; ok {
		if pkg := p.prog.ImportedPackage(symrtPath); pkg != nil {
			if g := pkg.Func(rd); g != nil {
				r.redirect = &Fn{f: g} // resolved lazily below
			}
		}
	}
	p.fns[f] = r
	return r
}

func inScopePath(path, target string) bool {
	return path == target || len(path) > len(target) && path[:len(target)+1] == target+"/"
}

// resolve returns the function to actually run, compiled.
func (p *Program) resolve(f *Fn) *Fn {
	if f.redirect != nil {
		f.mu.Lock()
		if f.redirect.name == "" {
			f.redirect = p.fn(f.redirect.f)
		}
		r := f.redirect
		f.mu.Unlock()
		f = r
	}
	f.once.Do(func() { p.compile(f) })
	return f
}

type fnCompiler struct {
	p     *Program
	fn    *Fn
	regs  map[ssa.Value]int32
	cidx  map[*ssa.Const]int32
	fidx  map[*ssa.Function]int32
	bidx  map[*ssa.BasicBlock]int
	binst map[string]int32
}

func (p *Program) compile(fn *Fn) {
	if fn.intr != nil {
		return
	}
	f := fn.f
	sig := f.Signature
	switch sig.Results().Len() {
	case 0:
	case 1:
		fn.resRT = rtOf(sig.Results().At(0).Type())
	default:
		fn.resRT = rtOf(sig.Results())
	}
	if len(f.Blocks) == 0 || fn.pkgPath == "reflect" {
		// what reflection does on real memory is only modelled, never executed
		fn.ext = true
		return
	}
	c := &fnCompiler{p: p, fn: fn, regs: map[ssa.Value]int32{}, cidx: map[*ssa.Const]int32{}, fidx: map[*ssa.Function]int32{}, bidx: map[*ssa.BasicBlock]int{}}
	n := int32(0)
	for _, x := range f.Params {
		c.regs[x] = n
		n++
	}
	fn.nparams = int(n)
	for _, x := range f.FreeVars {
		c.regs[x] = n
		n++
	}
	fn.nfree = int(n) - fn.nparams
	for i, b := range f.Blocks {
		c.bidx[b] = i
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				fn.hasDefer = true
			}
		}
	}
	fn.nregs = int(n)
	if f.Recover != nil {
		fn.recover = c.bidx[f.Recover]
		if fn.recover == 0 && f.Recover != f.Blocks[0] {
			fn.recover = -1
		}
		if _, ok := c.bidx[f.Recover]; !ok {
			// recover block is not in f.Blocks; compile it as an extra block
			fn.recover = len(f.Blocks)
			c.bidx[f.Recover] = fn.recover
			for _, in := range f.Recover.Instrs {
				if v, ok := in.(ssa.Value); ok {
					c.regs[v] = int32(fn.nregs)
					fn.nregs++
				}
			}
		}
	}
	blocks := append([]*ssa.BasicBlock{}, f.Blocks...)
	if fn.recover == len(f.Blocks) {
		blocks = append(blocks, f.Recover)
	}
	for i, b := range blocks {
		fn.blocks = append(fn.blocks, c.block(b, i))
	}
}

func (c *fnCompiler) operand(v ssa.Value) int32 {
	switch v := v.(type) {
	case *ssa.Const:
		if i, ok := c.cidx[v]; ok {
			return i
		}
		c.fn.consts = append(c.fn.consts, constV(v))
		i := ^int32(len(c.fn.consts) - 1)
		c.cidx[v] = i
		return i
	case *ssa.Global:
		return int32(globBase - c.p.globIndex(v))
	case *ssa.Function:
		if i, ok := c.fidx[v]; ok {
			return i
		}
		c.fn.consts = append(c.fn.consts, V{p: &Closure{fn: c.p.fn(v)}})
		i := ^int32(len(c.fn.consts) - 1)
		c.fidx[v] = i
		return i
	case *ssa.Builtin:
		return 0
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("operand %s in %s not found (%T)", v.Name(), c.fn.name, v))
	}
	return r
}

func constV(k *ssa.Const) V {
	rt := rtOf(k.Type())
	if k.Value == nil {
		return zero(rt)
	}
	switch rt.kind {
	case KBool:
		return V{n: b2u(constant.BoolVal(k.Value))}
	case KInt:
		return V{n: uint64(sext(uint64(k.Int64()), rt.w))}
	case KUint:
		return V{n: k.Uint64() & mask(rt.w)}
	case KF64:
		return V{n: math.Float64bits(k.Float64())}
	case KF32:
		return V{n: math.Float64bits(float64(float32(k.Float64())))}
	case KString:
		if k.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(k.Value))
		}
		return mkStr(string(rune(k.Int64())))
	case KIface:
		return V{}
	}
	return V{}
}

func (c *fnCompiler) block(b *ssa.BasicBlock, idx int) *Block {
	out := &Block{idx: idx}
	for _, s := range b.Succs {
		out.succs = append(out.succs, c.bidx[s])
	}
	for _, s := range b.Preds {
		out.preds = append(out.preds, c.bidx[s])
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			ph := phi{dst: c.regs[x]}
			for _, e := range x.Edges {
				ph.srcs = append(ph.srcs, c.operand(e))
			}
			out.phis = append(out.phis, ph)
			continue
		case *ssa.DebugRef:
			continue
		}
		out.instrs = append(out.instrs, c.instr(in))
	}
	return out
}

func (c *fnCompiler) call(i *Instr, cc *ssa.CallCommon) {
	for _, a := range cc.Args {
		i.args = append(i.args, c.operand(a))
	}
	if cc.IsInvoke() {
		i.op = ICallInvoke
		i.a = c.operand(cc.Value)
		i.meth = cc.Method
		i.name = cc.Method.Id()
		return
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		i.op = ICallBuiltin
		i.name = v.Name()
		if len(cc.Args) > 0 {
			i.rt2 = rtOf(cc.Args[0].Type())
		}
	case *ssa.Function:
		i.op = ICallStatic
		i.fn = c.p.fn(v)
	default:
		i.op = ICallDyn
		i.a = c.operand(v)
	}
}

func (c *fnCompiler) instr(in ssa.Instruction) Instr {
	i := Instr{dst: -1, src: in, a: 0, b: 0}
	if v, ok := in.(ssa.Value); ok {
		i.dst = c.regs[v]
		if _, isTuple := v.Type().(*types.Tuple); !isTuple || true {
			i.rt = rtOf(v.Type())
		}
	}
	none := int32(-1 << 30)
	opt := func(v ssa.Value) int32 {
		if v == nil {
			return none
		}
		return c.operand(v)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		i.op = IAlloc
		i.rt = rtOf(deref(x.Type()))
	case *ssa.BinOp:
		i.op = IBinOp
		i.tok = x.Op
		i.a, i.b = c.operand(x.X), c.operand(x.Y)
		i.rt = rtOf(x.X.Type())
		i.rt2 = rtOf(x.Y.Type())
	case *ssa.Call:
		c.call(&i, &x.Call)
	case *ssa.ChangeInterface:
		i.op = IMove
		i.a = c.operand(x.X)
	case *ssa.ChangeType:
		i.op = IMove
		i.a = c.operand(x.X)
	case *ssa.Convert:
		i.op = IConvert
		i.a = c.operand(x.X)
		i.rt2 = rtOf(x.X.Type())
	case *ssa.MultiConvert:
		i.op = IConvert
		i.a = c.operand(x.X)
		i.rt2 = rtOf(x.X.Type())
	case *ssa.Extract:
		i.op = IExtract
		i.a = c.operand(x.Tuple)
		i.n = x.Index
	case *ssa.Field:
		i.op = IField
		i.a = c.operand(x.X)
		i.n = x.Field
	case *ssa.FieldAddr:
		i.op = IFieldAddr
		i.a = c.operand(x.X)
		i.n = x.Field
	case *ssa.If:
		i.op = IIf
		i.a = c.operand(x.Cond)
	case *ssa.Index:
		i.op = IIndex
		i.a, i.b = c.operand(x.X), c.operand(x.Index)
		i.rt2 = rtOf(x.X.Type())
		i.flag = rtOf(x.Index.Type()).kind == KInt
		i.n = int(rtOf(x.Index.Type()).w)
	case *ssa.IndexAddr:
		i.op = IIndexAddr
		i.a, i.b = c.operand(x.X), c.operand(x.Index)
		i.rt2 = rtOf(x.X.Type())
		i.rt = rtOf(deref(x.Type()))
		i.flag = rtOf(x.Index.Type()).kind == KInt
		i.n = int(rtOf(x.Index.Type()).w)
	case *ssa.Jump:
		i.op = IJump
	case *ssa.Lookup:
		i.op = ILookup
		i.a, i.b = c.operand(x.X), c.operand(x.Index)
		i.flag = x.CommaOk
		i.rt2 = rtOf(x.X.Type())
		i.n = int(rtOf(x.Index.Type()).w)
	case *ssa.MakeChan:
		i.op = IMakeChan
		i.a = c.operand(x.Size)
	case *ssa.MakeClosure:
		i.op = IMakeClosure
		i.fn = c.p.fn(x.Fn.(*ssa.Function))
		for _, b := range x.Bindings {
			i.args = append(i.args, c.operand(b))
		}
	case *ssa.MakeInterface:
		i.op = IMakeIface
		i.a = c.operand(x.X)
		i.rt2 = rtOf(x.X.Type())
	case *ssa.MakeMap:
		i.op = IMakeMap
	case *ssa.MakeSlice:
		i.op = IMakeSlice
		i.a, i.b = c.operand(x.Len), c.operand(x.Cap)
	case *ssa.MapUpdate:
		i.op = IMapUpdate
		i.a, i.b, i.c = c.operand(x.Map), c.operand(x.Key), c.operand(x.Value)
		i.rt2 = rtOf(x.Map.Type())
	case *ssa.Next:
		i.op = INext
		i.a = c.operand(x.Iter)
		i.flag = x.IsString
	case *ssa.Panic:
		i.op = IPanic
		i.a = c.operand(x.X)
	case *ssa.Range:
		i.op = IRange
		i.a = c.operand(x.X)
		i.rt2 = rtOf(x.X.Type())
	case *ssa.Return:
		i.op = IReturn
		for _, r := range x.Results {
			i.args = append(i.args, c.operand(r))
		}
	case *ssa.RunDefers:
		i.op = IRunDefers
	case *ssa.Select:
		i.op = IUnsupported
		i.name = "select"
	case *ssa.Send:
		i.op = ISend
		i.a, i.b = c.operand(x.Chan), c.operand(x.X)
	case *ssa.Slice:
		i.op = ISlice
		i.a = c.operand(x.X)
		i.b, i.c, i.d = opt(x.Low), opt(x.High), opt(x.Max)
		i.rt2 = rtOf(x.X.Type())
	case *ssa.SliceToArrayPointer:
		i.op = IUnsupported
		i.name = "slice to array pointer"
	case *ssa.Store:
		i.op = IStore
		i.a, i.b = c.operand(x.Addr), c.operand(x.Val)
	case *ssa.TypeAssert:
		i.op = ITypeAssert
		i.a = c.operand(x.X)
		i.flag = x.CommaOk
		i.rt2 = rtOf(x.AssertedType)
	case *ssa.UnOp:
		i.op = IUnOp
		i.tok = x.Op
		i.a = c.operand(x.X)
		i.flag = x.CommaOk
		i.rt2 = rtOf(x.X.Type())
	case *ssa.Defer:
		var sub Instr
		sub.src = in
		c.call(&sub, &x.Call)
		i = sub
		i.n = int(sub.op)
		i.op = IDefer
		i.dst = -1
	case *ssa.Go:
		var sub Instr
		sub.src = in
		c.call(&sub, &x.Call)
		i = sub
		i.n = int(sub.op)
		i.op = IGo
		i.dst = -1
	default:
		i.op = IUnsupported
		i.name = fmt.Sprintf("%T", in)
	}
	return i
}
