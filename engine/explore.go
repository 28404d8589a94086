package main

// Path exploration: depth-first by re-execution. Every non-constant branch is
// decided by the solver; a feasible other side becomes a job holding the
// decision prefix that leads there.

import (
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Dec struct {
	kind byte // 'b' branch, 'i' implied branch, 'v' value, 'x' value with exclusions, 'c' choice
	v    uint64
	excl []uint64
}

type Job struct {
	unit   int
	prefix []Dec
	model  map[string]uint64
}

type Input struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Val  uint64 `json:"val"`
	term *Term
}

type Violation struct {
	Unit     int
	Harness  string
	Case     int
	CaseDesc string
	Kind     string // assert | panic | hang
	Msg      string
	Where    string
	Inputs   []Input
	Orders   []int
	Notes    []string
	uf       bool
	Replayed bool
	Native   string
	File     string
	Finding  string
}

type pathState struct {
	prefix   []Dec
	pos      int
	decs     []Dec
	pc       []*Term
	pcSet    map[*Term]bool
	model    *Model
	modelOK  bool // the model satisfies every conjunct (no uninterpreted functions involved)
	inputs   []Input
	orders   []int
	names    int
	mapOrder bool
	notes    []string
	asserts  int
	unit     int
}

// Unit is one (harness, case) pair.
type Unit struct {
	h         *HarnessInfo
	c         int
	desc      string
	mu        sync.Mutex
	stats     UnitStats
	viol      map[string]int
	dead      atomic.Bool // enough violations, stop
	confirmed map[string]bool
	tried     map[string]int
	samples   []*Violation
}

type UnitStats struct {
	Paths, Done, Infeasible, Panics, Unsupported, StepLimit, Internal int64
	AssertsConc, AssertsSym, AssertsUnknown                           int64
	BranchUnknown, ConcretizeCut                                      int64
	Steps                                                             int64
	Covers                                                            map[string]int64
	UnsupMsgs                                                         map[string]int64
	MaxPC                                                             int
	Spurious                                                          int64
	Decisions                                                         int64
}

type Explorer struct {
	mu         sync.Mutex
	cond       *sync.Cond
	jobs       map[int][]*Job // forked jobs by unit
	njobs      int
	fresh      []*Job      // units not started yet
	on         map[int]int // workers by unit
	active     int
	stop       bool
	timedOut   bool
	halted     bool
	nConfirmed atomic.Int32
	units      []*Unit
	deadline   time.Time
	violMu     sync.Mutex
	viols      []*Violation
	maxValues  int
	pathSteps  int64
	setupSteps int64
	progress   bool
	domHits    atomic.Int64
	cacheHits  atomic.Int64
	modelHits  atomic.Int64
	fnCount    sync.Map
}

func NewExplorer() *Explorer {
	e := &Explorer{maxValues: 300, pathSteps: 40_000_000, setupSteps: 500_000_000, jobs: map[int][]*Job{}, on: map[int]int{}}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) push(j *Job) {
	e.mu.Lock()
	e.jobs[j.unit] = append(e.jobs[j.unit], j)
	e.njobs++
	e.mu.Unlock()
	e.cond.Signal()
}

// pop prefers a job of the unit the worker already has set up, then a unit
// nobody has started, then a job of the unit with most work per worker.
func (e *Explorer) pop(unit int) *Job {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return nil
		}
		if !e.deadline.IsZero() && time.Now().After(e.deadline) {
			if e.njobs+len(e.fresh) > 0 {
				e.timedOut = true
			}
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		if l := e.jobs[unit]; len(l) > 0 {
			return e.take(unit)
		}
		if n := len(e.fresh); n > 0 {
			j := e.fresh[n-1]
			e.fresh = e.fresh[:n-1]
			e.on[unit]--
			e.on[j.unit]++
			e.active++
			return j
		}
		best, load := -1, 0
		for u, l := range e.jobs {
			if k := len(l) * 64 / (e.on[u] + 1); len(l) > 0 && (best < 0 || k > load || k == load && u < best) {
				best, load = u, k
			}
		}
		if best >= 0 {
			e.on[unit]--
			e.on[best]++
			return e.take(best)
		}
		if e.active == 0 {
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Explorer) take(unit int) *Job {
	l := e.jobs[unit]
	j := l[len(l)-1]
	l[len(l)-1] = nil
	if len(l) == 1 {
		delete(e.jobs, unit)
	} else {
		e.jobs[unit] = l[:len(l)-1]
	}
	e.njobs--
	e.active++
	return j
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && e.njobs+len(e.fresh) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

// ---- per-worker path operations ----

type worker struct {
	m       *Machine
	ex      *Explorer
	cache   map[uint64]cacheEnt
	recent  []*Model
	curUnit int
	dom     *domains
	smtOnly bool // assertions are always put to the SMT solver
	run     V
	mark    int
}

type cacheEnt struct {
	ids []int
	res Result
	m   map[int32]uint64
}

func (m *Machine) modelByName(mm map[string]uint64) *Model {
	md := &Model{}
	for name, v := range mm {
		if t, ok := m.ctx.byName(name); ok {
			md.set(int(t.c), v)
		} else {
			m.scratchModel(name, v)
		}
	}
	return md
}

func (md *Model) set(id int, v uint64) {
	for len(md.v) <= id {
		md.v = append(md.v, 0)
	}
	md.v[id] = v
}

func (md *Model) clone() *Model { return &Model{v: append([]uint64(nil), md.v...)} }

func (c *Ctx) byName(name string) (*Term, bool) {
	t, ok := c.vnames[name]
	return t, ok
}

// values for variables this worker has not created yet
func (m *Machine) scratchModel(name string, v uint64) {
	pm, _ := m.scratch["pending"].(map[string]uint64)
	if pm == nil {
		pm = map[string]uint64{}
		m.scratch["pending"] = pm
	}
	pm[name] = v
}

func (m *Machine) exportModel(md *Model, upd map[int32]uint64) map[string]uint64 {
	out := map[string]uint64{}
	for _, in := range m.ps.inputs {
		if in.term == nil || in.term.op == OpConst {
			continue
		}
		for _, v := range in.term.vars {
			t := m.ctx.vars[v]
			val := md.get(uint64(v))
			if u, ok := upd[v]; ok {
				val = u
			}
			out[t.name] = val
		}
	}
	return out
}

func (m *Machine) newVar(name string, w uint8) *Term {
	ps := m.ps
	full := fmt.Sprintf("%s_%d_%d", cleanName(name), ps.names, w)
	ps.names++
	t := m.ctx.Var(full, w)
	if pm, ok := m.scratch["pending"].(map[string]uint64); ok {
		if v, ok := pm[full]; ok {
			ps.model.set(int(t.c), v)
			delete(pm, full)
		}
	}
	return t
}

func cleanName(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			sb.WriteRune(r)
		}
	}
	if sb.Len() == 0 {
		return "v"
	}
	return sb.String()
}

// slice returns the pc conjuncts that share variables (transitively) with t.
func (m *Machine) slicePC(t *Term) []*Term {
	pc := m.ps.pc
	if len(pc) == 0 {
		return nil
	}
	in := map[int32]bool{}
	for _, v := range t.vars {
		in[v] = true
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				for _, v := range c.vars {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
			}
		}
	}
	var out []*Term
	for i, u := range used {
		if u {
			out = append(out, pc[i])
		}
	}
	return out
}

func (w *worker) check(extra *Term) (Result, map[int32]uint64) {
	m := w.m
	if extra == m.ctx.False {
		return Unsat, nil
	}
	q := append(m.slicePC(extra), extra)
	if !w.smtOnly {
		if res, mm, ok := w.dom.decide(q); ok {
			w.ex.domHits.Add(1)
			return res, mm
		}
		if w.dom.refutes(q) {
			w.ex.domHits.Add(1)
			return Unsat, nil
		}
	}
	ids := make([]int, len(q))
	for i, t := range q {
		ids[i] = t.id
	}
	sort.Ints(ids)
	h := fnv.New64a()
	for _, id := range ids {
		h.Write([]byte{byte(id), byte(id >> 8), byte(id >> 16), byte(id >> 24)})
	}
	key := h.Sum64()
	if ce, ok := w.cache[key]; ok && equalInts(ce.ids, ids) {
		w.ex.cacheHits.Add(1)
		return ce.res, ce.m
	}
	// recent models
	for i := len(w.recent) - 1; i >= 0; i-- {
		md := w.recent[i]
		m.ctx.NewEval()
		ok := true
		for k := len(q) - 1; k >= 0; k-- {
			v, o := m.ctx.eval(q[k], md)
			if !o || v == 0 {
				ok = false
				break
			}
		}
		if ok {
			w.ex.modelHits.Add(1)
			res := map[int32]uint64{}
			for _, t := range q {
				for _, v := range t.vars {
					res[v] = md.get(uint64(v))
				}
			}
			w.cache[key] = cacheEnt{ids, Sat, res}
			return Sat, res
		}
	}
	qx := q
	apps := ufApps(q)
	for _, t := range apps {
		qx = append(qx, m.ctx.ufFacts(t)...)
	}
	res, mm := m.sol.Check(qx)
	if res == Sat && len(apps) > 0 {
		res, mm = w.refine(qx, apps, mm)
	}
	if res == Sat {
		md := &Model{}
		for v, x := range mm {
			md.set(int(v), x)
		}
		w.recent = append(w.recent, md)
		if len(w.recent) > 12 {
			w.recent = w.recent[1:]
		}
		// the solver's model must satisfy the query under our own evaluator
		m.ctx.NewEval()
		for _, t := range q {
			if v, o := m.ctx.eval(t, md); o && v == 0 {
				m.abort("internal", "solver model does not satisfy the query: term %d", t.id)
			}
		}
	}
	if len(w.cache) > 200000 {
		w.cache = map[uint64]cacheEnt{}
	}
	w.cache[key] = cacheEnt{ids, res, mm}
	return res, mm
}

// ufApps lists the applications of uninterpreted functions in q, inner ones first.
func ufApps(q []*Term) []*Term {
	var apps []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.uf || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OpUF {
			apps = append(apps, t)
		}
	}
	for _, t := range q {
		walk(t)
	}
	return apps
}

// ufFacts are documented facts of math.Mod and math.Pow at one application.
func (c *Ctx) ufFacts(t *Term) []*Term {
	x, y := t.args[0], t.args[1]
	num := func(f float64) *Term { return c.FP(math.Float64bits(f)) }
	nan := func(a *Term) *Term { return c.FIsNaN(a) }
	inf := func(a *Term) *Term { return c.FCmp(OpFEq, c.FAbs(a), num(math.Inf(1))) }
	and, or := c.And, c.Or
	switch t.name {
	case "mod":
		isNaN := or(or(nan(x), inf(x)), or(nan(y), c.FCmp(OpFEq, y, num(0))))
		return []*Term{
			c.Eq(nan(t), isNaN),
			or(isNaN, c.FCmp(OpFLe, c.FAbs(t), c.FAbs(x))),
			or(isNaN, c.FCmp(OpFLt, c.FAbs(t), c.FAbs(y))),
		}
	case "pow":
		frac := c.Not(c.FCmp(OpFEq, c.FRound(y, 0), y))
		isNaN := or(or(and(nan(x), c.Not(c.FCmp(OpFEq, y, num(0)))), and(nan(y), c.Not(c.FCmp(OpFEq, x, num(1))))),
			and(and(c.FCmp(OpFLt, x, num(0)), c.Not(inf(x))), and(and(c.Not(nan(y)), c.Not(inf(y))), frac)))
		return []*Term{
			c.Eq(nan(t), isNaN),
			or(c.Not(or(c.FCmp(OpFEq, y, num(0)), c.FCmp(OpFEq, x, num(1)))), c.FCmp(OpFEq, t, num(1))),
		}
	}
	return nil
}

// refine looks for a model of q under the real functions behind the
// uninterpreted ones: their values at the points of the solver's model become
// lemmas until a model stands or the query turns unsat. Every other attempt
// fixes a few input bits at random to move away from round numbers.
func (w *worker) refine(q, apps []*Term, mm map[int32]uint64) (Result, map[int32]uint64) {
	m := w.m
	c := m.ctx
	var vars []int32
	for _, t := range q {
		vars = mergeVars(vars, t.vars)
	}
	var lemmas []*Term
	rng := uint64(len(w.cache))*0x9E3779B97F4A7C15 + 1
	for try := 0; try < 20; try++ {
		md := &Model{}
		for v, x := range mm {
			md.set(int(v), x)
		}
		c.NewEval()
		good := true
		for _, t := range q {
			if v, ok := c.eval(t, md); !ok || v == 0 {
				good = false
				break
			}
		}
		if good {
			return Sat, mm
		}
		for _, t := range apps {
			args := make([]*Term, len(t.args))
			ok := true
			for i, a := range t.args {
				v, o := c.eval(a, md)
				ok = ok && o
				args[i] = c.FP(v)
			}
			if v, o := c.eval(t, md); ok && o {
				lemmas = append(lemmas, c.Eq(c.UF(t.name, args...), c.FP(v)))
			}
		}
		qq := append(append([]*Term{}, q...), lemmas...)
		// keep the arguments, let everything else follow
		pin := append([]*Term{}, qq...)
		for _, t := range apps {
			for _, a := range t.args {
				if v, o := c.eval(a, md); o && a.op != OpConst {
					pin = append(pin, c.Eq(a, c.FP(v)))
				}
			}
		}
		if res, m2 := m.sol.Check(pin); res == Sat {
			mm = m2
			continue
		}
		if try%2 == 0 {
			hint := append([]*Term{}, qq...)
			for _, v := range vars {
				x := c.vars[v]
				rng ^= rng << 13
				rng ^= rng >> 7
				rng ^= rng << 17
				if x.w == 64 && rng&3 != 0 {
					hint = append(hint, c.Eq(c.Extract(x, 2, 0), c.BV(rng>>8&7, 3)))
					if rng>>4&1 == 0 {
						hint = append(hint, c.Eq(c.Extract(x, 59, 54), c.BV(rng>>16&63, 6)))
					}
				}
			}
			if res, m2 := m.sol.Check(hint); res == Sat {
				mm = m2
				continue
			}
		}
		res, m2 := m.sol.Check(qq)
		if res != Sat {
			return res, nil
		}
		mm = m2
	}
	if opt.verbose {
		fmt.Fprintf(os.Stderr, "  no model with the real functions at %s\n", m.where())
	}
	return Unknown, nil
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *Machine) wk() *worker { return m.scratch["worker"].(*worker) }

func (m *Machine) addPC(t *Term) {
	for _, c := range conjuncts(t, nil) {
		if c == m.ctx.True || m.ps.pcSet[c] {
			continue
		}
		m.ps.pcSet[c] = true
		m.ps.pc = append(m.ps.pc, c)
	}
}

func (m *Machine) applyModel(upd map[int32]uint64) {
	m.ps.model = m.ps.model.clone()
	for v, x := range upd {
		m.ps.model.set(int(v), x)
	}
}

func (m *Machine) pushAlt(d Dec, upd map[int32]uint64) {
	ps := m.ps
	if forkLog != nil {
		forkMu.Lock()
		forkLog[m.where()]++
		forkMu.Unlock()
	}
	pre := make([]Dec, len(ps.decs)+1)
	copy(pre, ps.decs)
	pre[len(ps.decs)] = d
	m.ex.push(&Job{unit: ps.unit, prefix: pre, model: m.exportModel(ps.model, upd)})
}

func (m *Machine) unit() *Unit { return m.ex.units[m.ps.unit] }

// known decides t from the path condition syntactically.
func (m *Machine) known(t *Term) (bool, bool) {
	if t.op == OpConst {
		return t.c != 0, true
	}
	if m.ps.pcSet[t] {
		return true, true
	}
	if m.ps.pcSet[m.ctx.Not(t)] {
		return false, true
	}
	return false, false
}

func (m *Machine) branch(t *Term) bool {
	if t.op == OpConst {
		return t.c != 0
	}
	if m.ps == nil {
		m.unsupported("symbolic branch outside a path")
	}
	ps := m.ps
	if v, ok := m.known(t); ok {
		return v
	}
	nt := m.ctx.Not(t)
	if ps.pos < len(ps.prefix) {
		d := ps.prefix[ps.pos]
		if d.kind != 'b' && d.kind != 'i' {
			m.abort("internal", "replay divergence: branch vs %c at decision %d", d.kind, ps.pos)
		}
		ps.pos++
		ps.decs = append(ps.decs, d)
		if ps.modelOK {
			// the carried model satisfies the whole prefix
			m.ctx.NewEval()
			if v, ok := m.ctx.eval(t, ps.model); ok && (v != 0) != (d.v != 0) {
				m.abort("internal", "replay divergence: the carried model contradicts decision %d", ps.pos-1)
			}
		}
		if d.v != 0 {
			m.addPC(t)
			return true
		}
		m.addPC(nt)
		return false
	}
	ps.pos++
	w := m.wk()
	m.ctx.NewEval()
	val, ok := m.ctx.eval(t, ps.model)
	if !ok || !ps.modelOK {
		// uninterpreted: ask the solver about both sides
		r1, m1 := w.check(t)
		r2, m2 := w.check(nt)
		if r1 == Unknown || r2 == Unknown {
			m.bumpBranchUnknown()
		}
		switch {
		case r1 == Sat && r2 == Sat:
			m.pushAlt(Dec{kind: 'b', v: 0}, m2)
			m.applyModel(m1)
			ps.decs = append(ps.decs, Dec{kind: 'b', v: 1})
			m.addPC(t)
			return true
		case r1 == Sat:
			m.applyModel(m1)
			ps.decs = append(ps.decs, Dec{kind: 'b', v: 1})
			m.addPC(t)
			return true
		case r2 == Sat:
			m.applyModel(m2)
			ps.decs = append(ps.decs, Dec{kind: 'b', v: 0})
			m.addPC(nt)
			return false
		}
		m.abort("assume", "branch undecided")
	}
	taken, other := t, nt
	if val == 0 {
		taken, other = nt, t
	}
	res, mm := w.check(other)
	d := Dec{kind: 'b', v: val}
	switch res {
	case Sat:
		m.pushAlt(Dec{kind: 'b', v: 1 - val}, mm)
	case Unsat:
		d.kind = 'i'
	default:
		m.bumpBranchUnknown()
	}
	ps.decs = append(ps.decs, d)
	m.addPC(taken)
	return val != 0
}

func (m *Machine) bumpBranchUnknown() {
	u := m.unit()
	u.mu.Lock()
	u.stats.BranchUnknown++
	u.mu.Unlock()
}

// concretize picks one value for t on this path; the other feasible values become jobs.
func (m *Machine) concretize(t *Term) uint64 {
	if t.op == OpConst {
		return t.c
	}
	if m.ps == nil {
		m.unsupported("concretize outside a path")
	}
	ps := m.ps
	w := m.wk()
	eqv := func(v uint64) *Term {
		if t.w == sBool {
			if v != 0 {
				return t
			}
			return m.ctx.Not(t)
		}
		if t.w == sFP {
			m.unsupported("concretize a float")
		}
		return m.ctx.Eq(t, m.ctx.BV(v, t.w))
	}
	var excl []uint64
	if ps.pos < len(ps.prefix) {
		d := ps.prefix[ps.pos]
		if d.kind == 'v' {
			ps.pos++
			ps.decs = append(ps.decs, d)
			if ps.modelOK {
				m.ctx.NewEval()
				if v, ok := m.ctx.eval(t, ps.model); ok && v != d.v {
					m.abort("internal", "replay divergence: the carried model contradicts value decision %d", ps.pos-1)
				}
			}
			m.addPC(eqv(d.v))
			return d.v
		}
		if d.kind != 'x' {
			m.abort("internal", "replay divergence: value vs %c at decision %d", d.kind, ps.pos)
		}
		excl = d.excl
	}
	ps.pos++
	m.ctx.NewEval()
	v, ok := m.ctx.eval(t, ps.model)
	if !ok {
		m.unsupported("concretize a value of an uninterpreted function")
	}
	excl = append(append([]uint64{}, excl...), v)
	// The exclusions stay out of the path condition: the value picked implies
	// them, and a job replaying 'v' must see the same condition syntactically.
	rest := m.ctx.True
	for _, x := range excl {
		rest = m.ctx.And(rest, m.ctx.Not(eqv(x)))
	}
	if len(excl) < m.ex.maxValues {
		res, mm := w.check(rest)
		switch res {
		case Sat:
			m.pushAlt(Dec{kind: 'x', excl: excl}, mm)
		case Unknown:
			m.bumpBranchUnknown()
		}
	} else if res, _ := w.check(rest); res != Unsat {
		u := m.unit()
		u.mu.Lock()
		u.stats.ConcretizeCut++
		u.mu.Unlock()
	}
	ps.decs = append(ps.decs, Dec{kind: 'v', v: v})
	m.addPC(eqv(v))
	return v
}

func (m *Machine) choose(n int, name string) int {
	if n <= 1 {
		return 0
	}
	if m.ps == nil {
		m.unsupported("choice outside a path")
	}
	ps := m.ps
	if ps.pos < len(ps.prefix) {
		d := ps.prefix[ps.pos]
		if d.kind != 'c' {
			m.abort("internal", "replay divergence: choice vs %c at decision %d", d.kind, ps.pos)
		}
		ps.pos++
		ps.decs = append(ps.decs, d)
		if name == "maporder" {
			ps.orders = append(ps.orders, int(d.v))
		}
		return int(d.v)
	}
	ps.pos++
	for k := n - 1; k >= 1; k-- {
		m.pushAlt(Dec{kind: 'c', v: uint64(k)}, nil)
	}
	ps.decs = append(ps.decs, Dec{kind: 'c', v: 0})
	if name == "maporder" {
		ps.orders = append(ps.orders, 0)
	}
	return 0
}

func (m *Machine) assume(t *Term) {
	if t.op == OpConst {
		if t.c == 0 {
			m.abort("assume", "assumption false")
		}
		return
	}
	ps := m.ps
	if v, ok := m.known(t); ok {
		if !v {
			m.abort("assume", "assumption false")
		}
		return
	}
	// while a prefix is being replayed the carried model satisfies all of its assumptions
	m.ctx.NewEval()
	if v, ok := m.ctx.eval(t, ps.model); ok && v != 0 {
		m.addPC(t)
		return
	} else if ok && ps.pos < len(ps.prefix) {
		// replaying with a model from further down the path: must hold there
		m.abort("internal", "carried model violates an assumption")
	}
	res, mm := m.wk().check(t)
	switch res {
	case Sat:
		m.applyModel(mm)
		m.addPC(t)
	case Unsat:
		m.abort("assume", "assumption infeasible")
	default:
		m.bumpBranchUnknown()
		m.abort("assume", "assumption undecided")
	}
}

func (m *Machine) assert(t *Term, msg string) {
	u := m.unit()
	m.ps.asserts++
	if m.ps.pos < len(m.ps.prefix) {
		// decided by the path this one forked from
		if t.op != OpConst {
			m.addPC(t)
		}
		return
	}
	if v, ok := m.known(t); ok {
		u.mu.Lock()
		u.stats.AssertsConc++
		u.mu.Unlock()
		if !v {
			m.violation("assert", msg, nil)
			m.abort("violated", "%s", msg)
		}
		return
	}
	m.wk().smtOnly = true
	res, mm := m.wk().check(m.ctx.Not(t))
	m.wk().smtOnly = false
	u.mu.Lock()
	u.stats.AssertsSym++
	if res == Unknown {
		u.stats.AssertsUnknown++
	}
	u.mu.Unlock()
	if res == Sat {
		m.violation("assert", msg, mm)
	}
	// continue under the assumption that it held
	m.ctx.NewEval()
	if v, ok := m.ctx.eval(t, m.ps.model); ok && v != 0 {
		m.addPC(t)
		return
	}
	if res == Unsat {
		if m.ps.modelOK {
			if v, ok := m.ctx.eval(t, m.ps.model); ok && v == 0 {
				m.abort("internal", "assertion proved but model refutes it: %s", msg)
			}
		}
		m.addPC(t)
		return
	}
	r2, m2 := m.wk().check(t)
	if r2 != Sat {
		m.abort("violated", "%s", msg)
	}
	// the rest of the path under the assertion: replay-safe because assumptions re-establish the model
	m.applyModel(m2)
	m.addPC(t)
}

func (m *Machine) violation(kind, msg string, upd map[int32]uint64) {
	u := m.unit()
	where := ""
	if kind != "assert" {
		where = msg
	}
	key := kind + "|" + msg
	u.mu.Lock()
	if u.viol == nil {
		u.viol = map[string]int{}
	}
	u.viol[key]++
	n := u.viol[key]
	u.mu.Unlock()
	if n > 40 {
		return
	}
	md := m.ps.model
	if upd != nil {
		md = md.clone()
		for v, x := range upd {
			md.set(int(v), x)
		}
	}
	m.ctx.NewEval()
	v := &Violation{Unit: m.ps.unit, Harness: u.h.Name, Case: u.c, CaseDesc: u.desc, Kind: kind, Msg: msg, Where: where, Notes: append([]string{}, m.ps.notes...), Orders: append([]int{}, m.ps.orders...)}
	for _, in := range m.ps.inputs {
		x := in
		if in.term != nil {
			val, ok := m.ctx.eval(in.term, md)
			if !ok {
				v.uf = true
			}
			x.Val = val
		}
		x.term = nil
		v.Inputs = append(v.Inputs, x)
	}
	m.ex.violMu.Lock()
	m.ex.viols = append(m.ex.viols, v)
	m.ex.violMu.Unlock()
}

// runJob executes one path.
func (w *worker) runJob(j *Job) {
	m := w.m
	u := w.ex.units[j.unit]
	if u.dead.Load() {
		return
	}
	if w.curUnit != j.unit {
		w.setup(j.unit)
	}
	m.rollback(w.mark)
	delete(m.scratch, "pending")
	m.released = nil
	ps := &pathState{prefix: j.prefix, pcSet: map[*Term]bool{}, unit: j.unit, modelOK: true}
	ps.model = &Model{}
	m.ps = ps
	ps.model = m.modelByName(j.model)
	start := m.steps
	m.maxStep = m.steps + w.ex.pathSteps
	ab, tp := m.runGuarded(func() { m.callClosure(w.run, nil, nil) })
	if tp != nil {
		m.violation("panic", m.panicText(tp)+" @ "+tp.at, nil)
	}
	if ab != nil && ab.kind == "steps" {
		m.violation("hang", "step bound exceeded", nil)
	}
	var sample *Violation
	if ab == nil && tp == nil {
		sample = m.sample(u)
	}
	u.mu.Lock()
	if sample != nil {
		u.samples = append(u.samples, sample)
	}
	st := &u.stats
	st.Paths++
	if d := len(ps.decs) - len(ps.prefix); d > 0 {
		st.Decisions += int64(d)
	}
	st.Steps += m.steps - start
	if len(ps.pc) > st.MaxPC {
		st.MaxPC = len(ps.pc)
	}
	switch {
	case tp != nil:
		st.Panics++
	case ab == nil:
		st.Done++
	case ab.kind == "assume":
		st.Infeasible++
	case ab.kind == "violated", ab.kind == "stop":
		st.Done++
	case ab.kind == "steps":
		st.StepLimit++
	case ab.kind == "unsupported" || ab.kind == "depth":
		st.Unsupported++
		if st.UnsupMsgs == nil {
			st.UnsupMsgs = map[string]int64{}
		}
		if len(st.UnsupMsgs) < 20 {
			st.UnsupMsgs[ab.msg]++
		}
	default:
		st.Internal++
		if st.UnsupMsgs == nil {
			st.UnsupMsgs = map[string]int64{}
		}
		if len(st.UnsupMsgs) < 20 {
			st.UnsupMsgs["INTERNAL: "+ab.msg]++
		}
	}
	u.mu.Unlock()
	m.ps = nil
}

// setup brings the machine to the start of the unit's run function.
func (w *worker) setup(unit int) {
	m := w.m
	u := w.ex.units[unit]
	m.ps = nil
	m.rollback(m.base())
	w.curUnit = -1
	m.maxStep = m.steps + w.ex.setupSteps
	ab, tp := m.runGuarded(func() {
		r := m.callClosure(u.h.setup(m), []V{{n: uint64(u.c)}}, nil)
		t := r.p.(*Tuple)
		if s, ok := concStr(t.e[0]); ok {
			u.mu.Lock()
			u.desc = s
			u.mu.Unlock()
		}
		w.run = t.e[1]
	})
	if ab != nil || tp != nil {
		msg := ""
		if ab != nil {
			msg = ab.kind + ": " + ab.msg
		} else {
			msg = "panic: " + m.panicText(tp) + " @ " + tp.at
		}
		w.run = V{p: &Closure{nat: func(m *Machine, args []V) V {
			if tp != nil {
				panic(*tp)
			}
			m.abort(ab.kind, "setup: %s", msg)
			return V{}
		}}}
	}
	w.mark = len(m.trail)
	w.curUnit = unit
}

func (m *Machine) base() int {
	b, _ := m.scratch["base"].(int)
	return b
}

// sample turns the current completed path into a native test case, for a few paths per unit.
func (m *Machine) sample(u *Unit) *Violation {
	u.mu.Lock()
	n, p := len(u.samples), u.stats.Paths
	u.mu.Unlock()
	if n >= 24 || n >= 3 && p%37 != 0 {
		return nil
	}
	m.ctx.NewEval()
	v := &Violation{Unit: m.ps.unit, Harness: u.h.Name, Case: u.c, CaseDesc: u.desc, Kind: "ok", Notes: append([]string{}, m.ps.notes...)}
	for _, in := range m.ps.inputs {
		x := in
		if in.term != nil {
			val, ok := m.ctx.eval(in.term, m.ps.model)
			if !ok {
				return nil
			}
			x.Val = val
		}
		x.term = nil
		v.Inputs = append(v.Inputs, x)
	}
	return v
}

// with $SYMGO_FORKS set, the places where paths fork are printed at the end
var (
	forkMu  sync.Mutex
	forkLog map[string]int
)

func init() {
	if os.Getenv("SYMGO_FORKS") != "" {
		forkLog = map[string]int{}
	}
}

func printForks() {
	var l []string
	for k, n := range forkLog {
		l = append(l, fmt.Sprintf("%6d %s", n, k))
	}
	sort.Sort(sort.Reverse(sort.StringSlice(l)))
	for _, x := range l {
		fmt.Fprintln(os.Stderr, x)
	}
}
