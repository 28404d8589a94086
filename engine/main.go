package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// HarnessInfo names one entry of the harness table props.All.
type HarnessInfo struct {
	Prop, Name string
	idx        int
	tab        *ssa.Global
}

func (h *HarnessInfo) field(m *Machine, name string) V {
	g := m.global(m.prog.globIndex(h.tab))
	sl := g.p.(*Sl)
	rt := rtOf(deref(h.tab.Type())).elem
	return sl.s[h.idx].p.(*Agg).e[fieldIndex(rt, name)]
}

func (h *HarnessInfo) setup(m *Machine) V { return h.field(m, "Setup") }

func fatal(code int, format string, args ...any) {
	fmt.Fprintf(os.Stderr, "symgo: "+format+"\n", args...)
	os.Exit(code)
}

type options struct {
	prop, tier, verif, harness string
	seed                       int
	caseNo                     int
	workers                    int
	budget                     time.Duration
	all, verbose               bool
	timeoutMs, altMs           int
}

var opt options

func load(dir string) (*ssa.Program, *ssa.Package) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./props")
	if err != nil {
		fatal(2, "load: %v", err)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if !bad {
				fmt.Fprintln(os.Stderr, "symgo: load:", e)
			}
			bad = true
		}
	})
	if bad {
		fatal(2, "the harness or the code under test does not compile")
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return prog, spkgs[0]
}

// prepare runs package initialisation and the harness warm-up on a fresh machine.
func prepare(m *Machine, props *ssa.Package) error {
	ab, tp := m.runGuarded(func() { m.call(m.prog.fn(props.Func("init")), nil, nil, nil) })
	if ab != nil {
		return fmt.Errorf("%s: %s", ab.kind, ab.msg)
	}
	if tp != nil {
		return fmt.Errorf("panic: %s @ %s", m.panicText(tp), tp.at)
	}
	m.trailOn = true
	m.trail = m.trail[:0]
	m.scratch["base"] = 0
	if w := props.Func("Warmup"); w != nil {
		// a warm-up that fails is undone: the checks say what is wrong
		m.maxStep = m.steps + 500_000_000
		if ab, tp := m.runGuarded(func() { m.call(m.prog.fn(w), []V{{p: opt.prop}}, nil, nil) }); ab != nil || tp != nil {
			m.rollback(0)
		}
		m.trail = m.trail[:0]
		m.maxStep = 1 << 62
	}
	return nil
}

func main() {
	flag.StringVar(&opt.prop, "prop", "", "property id")
	flag.StringVar(&opt.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&opt.verif, "verif", "/verif", "framework directory")
	flag.StringVar(&opt.harness, "harness", "", "only this harness")
	flag.IntVar(&opt.seed, "seed", 1, "seed")
	flag.IntVar(&opt.caseNo, "case", -1, "only this case")
	flag.IntVar(&opt.workers, "workers", 0, "workers")
	flag.DurationVar(&opt.budget, "budget", 0, "exploration budget")
	flag.BoolVar(&opt.all, "all", false, "keep exploring after a confirmed violation")
	flag.BoolVar(&opt.verbose, "v", false, "verbose")
	flag.IntVar(&opt.timeoutMs, "timeout", 0, "solver timeout per query, ms")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	debug.SetMaxStack(2 << 30)
	debug.SetGCPercent(500)
	debug.SetMemoryLimit(18 << 30)
	if opt.workers == 0 {
		opt.workers = min(8, runtime.NumCPU())
	}
	thorough := opt.tier == "thorough"
	if opt.budget == 0 {
		opt.budget = 150 * time.Second
		if thorough {
			opt.budget = 600 * time.Second
		}
	}
	if opt.timeoutMs == 0 {
		opt.timeoutMs = 3000
		if thorough {
			opt.timeoutMs = 20000
		}
	}
	opt.altMs = opt.timeoutMs
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := run()
	pprof.StopCPUProfile()
	printForks()
	os.Exit(code)
}

func run() int {
	start := time.Now()
	rp := newReplayer(filepath.Join(opt.verif, "harness"))
	rp.start()
	defer rp.cleanup()

	prog, props := load(filepath.Join(opt.verif, "harness"))
	tLoad := time.Since(start)
	pr := NewProgram(prog, targetPath)
	ex := NewExplorer()

	machines := make([]*Machine, opt.workers)
	errs := make([]error, opt.workers)
	var wg sync.WaitGroup
	for i := range machines {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx := NewCtx()
			sol := NewSolver(ctx, opt.timeoutMs, opt.altMs)
			m := NewMachine(pr, ctx, sol)
			m.ex = ex
			errs[i] = prepare(m, props)
			machines[i] = m
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			fatal(2, "initialisation: %v", e)
		}
	}
	tInit := time.Since(start)

	// the harness table, read from interpreted memory
	m0 := machines[0]
	gAll, _ := props.Members["All"].(*ssa.Global)
	if gAll == nil {
		fatal(2, "no harness table")
	}
	tab := m0.global(pr.globIndex(gAll)).p.(*Sl)
	ert := rtOf(deref(gAll.Type())).elem
	var hs []*HarnessInfo
	var err error
	for i := range tab.s {
		h := &HarnessInfo{idx: i, tab: gAll}
		e := tab.s[i].p.(*Agg).e
		h.Prop, _ = concStr(e[fieldIndex(ert, "Prop")])
		h.Name, _ = concStr(e[fieldIndex(ert, "Name")])
		if opt.prop != "" && h.Prop != opt.prop || opt.harness != "" && h.Name != opt.harness {
			continue
		}
		hs = append(hs, h)
		n := 0
		ab, tp := m0.runGuarded(func() {
			v := m0.callClosure(h.field(m0, "Cases"), []V{{n: uint64(tierN())}}, nil)
			n = int(v.n)
		})
		if ab != nil || tp != nil {
			err = fmt.Errorf("cases of %s failed", h.Name)
			break
		}
		for c := 0; c < n; c++ {
			if opt.caseNo >= 0 && c != opt.caseNo {
				continue
			}
			ex.units = append(ex.units, &Unit{h: h, c: c})
		}
	}
	if err != nil {
		fatal(2, "%v", err)
	}
	if len(ex.units) == 0 {
		fatal(2, "no harness for property %q", opt.prop)
	}
	rng := uint64(opt.seed)*0x9E3779B97F4A7C15 + 1
	// the seed permutes the order in which units are taken up; every unit is explored
	order := make([]int, len(ex.units))
	for i := range order {
		order[i] = i
	}
	for i := len(order) - 1; i > 0; i-- {
		rng ^= rng << 13
		rng ^= rng >> 7
		rng ^= rng << 17
		k := int(rng % uint64(i+1))
		order[i], order[k] = order[k], order[i]
	}
	for _, i := range order {
		ex.fresh = append(ex.fresh, &Job{unit: i})
	}
	ex.deadline = time.Now().Add(opt.budget)

	if opt.verbose {
		go func() {
			for {
				time.Sleep(10 * time.Second)
				ex.mu.Lock()
				fmt.Fprintf(os.Stderr, "  [%ds] jobs=%d active=%d paths=%d\n", int(time.Since(start).Seconds()), ex.njobs+len(ex.fresh), ex.active, ex.totalPaths())
				ex.mu.Unlock()
			}
		}()
	}

	// replayer: confirm engine violations natively as they appear
	stopReplay := make(chan struct{})
	replayDone := make(chan struct{})
	go func() {
		defer close(replayDone)
		next, guardedTries := 0, 0
		// A counterexample that does not reproduce says the engine is wrong somewhere: what it
		// says about the same place again and again is not worth a run of the program each time.
		failed := map[string]int{}
		place := func(v *Violation) string {
			msg, _, _ := strings.Cut(v.Msg, " <- ")
			return v.Kind + "|" + msg
		}
		for {
			ex.violMu.Lock()
			n := len(ex.viols)
			ex.violMu.Unlock()
			if next >= n {
				select {
				case <-stopReplay:
					ex.violMu.Lock()
					n = len(ex.viols)
					ex.violMu.Unlock()
					if next >= n {
						return
					}
				case <-time.After(50 * time.Millisecond):
				}
				continue
			}
			ex.violMu.Lock()
			v := ex.viols[next]
			ex.violMu.Unlock()
			next++
			u := ex.units[v.Unit]
			key := v.Kind + "|" + v.Msg
			u.mu.Lock()
			limit := 12
			if strings.HasSuffix(v.Msg, underLock) {
				limit = 1
				if guardedTries++; guardedTries > 40 {
					limit = 0
				}
			}
			if failed[place(v)] >= 60 {
				limit = 1
			}
			if failed[place(v)] >= 200 || time.Since(start) > opt.budget+150*time.Second {
				limit = 0
			}
			skip := u.confirmed[key] || u.tried[key] >= limit
			if u.tried == nil {
				u.tried = map[string]int{}
				u.confirmed = map[string]bool{}
			}
			u.tried[key]++
			if limit == 0 && !u.confirmed[key] {
				u.stats.Spurious++
			}
			u.mu.Unlock()
			if skip || ex.nConfirmed.Load() >= 6 && !opt.all {
				continue
			}
			rp.confirm(v)
			if v.Native != "" && opt.verbose {
				fmt.Fprintf(os.Stderr, "  replay %s[%d] %s: %s -> %s\n", v.Harness, v.Case, v.CaseDesc, v.Msg, v.Native)
			}
			if v.Replayed {
				u.mu.Lock()
				u.confirmed[key] = true
				u.mu.Unlock()
				if matchFinding(v) == "" {
					u.dead.Store(true)
					if ex.nConfirmed.Add(1) >= 3 && !opt.all {
						ex.halt()
					}
				}
			} else {
				failed[place(v)]++
				u.mu.Lock()
				u.stats.Spurious++
				u.mu.Unlock()
			}
		}
	}()

	loadFindings()
	workers := make([]*worker, opt.workers)
	for i, m := range machines {
		w := &worker{m: m, ex: ex, cache: map[uint64]cacheEnt{}, curUnit: -1, dom: newDomains(m.ctx)}
		m.scratch["worker"] = w
		workers[i] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer m.sol.Close()
			for {
				j := ex.pop(w.curUnit)
				if j == nil {
					return
				}
				w.runJob(j)
				ex.done()
			}
		}()
	}
	wg.Wait()
	tExplore := time.Since(start)
	close(stopReplay)
	<-replayDone

	// validate a sample of completed paths against the native build
	validated, disagree := 0, 0
	var samples []*Violation
	for _, u := range ex.units {
		samples = append(samples, u.samples...)
	}
	if ex.nConfirmed.Load() == 0 {
		validated, disagree = rp.validate(samples, ex)
	}
	return report(ex, hs, machines, rp, start, tLoad, tInit, tExplore, validated, disagree, samples)
}

func (e *Explorer) totalPaths() int64 {
	var n int64
	for _, u := range e.units {
		u.mu.Lock()
		n += u.stats.Paths
		u.mu.Unlock()
	}
	return n
}

func (e *Explorer) halt() {
	e.mu.Lock()
	e.stop = true
	e.halted = true
	e.mu.Unlock()
	e.cond.Broadcast()
}

// ---- known findings ----

type finding struct {
	prop, harness, sub, text string
}

var findings []finding

// known-findings.txt lines:
//
//	finding: property=P01 harness=NAME match="substring of case, message or notes" :: what fails
//	fixed: property=P01 <commit> <what failed>      (suppresses nothing)
func loadFindings() {
	b, err := os.ReadFile(filepath.Join(opt.verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		head, text, _ := strings.Cut(l[len("finding: "):], " :: ")
		f := finding{text: text}
		if i := strings.Index(head, "match="); i >= 0 {
			f.sub = strings.Trim(head[i+6:], `" `)
			head = head[:i]
		}
		for _, w := range strings.Fields(head) {
			if k, v, ok := strings.Cut(w, "="); ok {
				switch k {
				case "property":
					f.prop = v
				case "harness":
					f.harness = v
				}
			}
		}
		if f.prop != "" && f.harness != "" && f.sub != "" {
			findings = append(findings, f)
		}
	}
}

func matchFinding(v *Violation) string {
	for _, f := range findings {
		if f.prop != opt.prop || f.harness != v.Harness {
			continue
		}
		hay := v.CaseDesc + "\n" + v.Msg + "\n" + strings.Join(v.Notes, "\n") + "\n" + v.Native
		if strings.Contains(hay, f.sub) {
			return f.text
		}
	}
	return ""
}

// ---- native replay ----

type replayer struct {
	dir  string
	bin  string
	tmp  string
	wg   sync.WaitGroup
	err  error
	n    int
	Time time.Duration
}

func newReplayer(dir string) *replayer { return &replayer{dir: dir} }

func (r *replayer) start() {
	r.tmp, r.err = os.MkdirTemp("", "symgo-replay-")
	if r.err != nil {
		return
	}
	r.bin = filepath.Join(r.tmp, "replay")
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		args := []string{"build", "-o", r.bin, "./cmd/replay"}
		env := os.Environ()
		if raceProps[opt.prop] {
			args = []string{"build", "-race", "-o", r.bin, "./cmd/replay"}
			env = append(env, "CGO_ENABLED=1")
		}
		cmd := exec.Command("go", args...)
		cmd.Env = env
		cmd.Dir = r.dir
		if out, err := cmd.CombinedOutput(); err != nil {
			r.err = fmt.Errorf("building the replay program: %v\n%s", err, out)
		}
	}()
}

func (r *replayer) cleanup() {
	r.wg.Wait()
	if r.tmp != "" && strings.Contains(r.tmp, "symgo-replay-") {
		os.Remove(r.bin)
		os.Remove(filepath.Join(r.tmp, "items.json"))
		os.Remove(r.tmp)
	}
}

// raceProps are replayed under the race detector.
var raceProps = map[string]bool{"P26": true}

// tierN is the tier as the harnesses see it.
func tierN() int {
	if opt.tier == "thorough" {
		return 1
	}
	return 0
}

// item is what the replay program reads.
type item struct {
	Prop    string  `json:"property"`
	Tier    int     `json:"tier"`
	Harness string  `json:"harness"`
	Case    int     `json:"case"`
	Inputs  []Input `json:"inputs"`
	Times   int     `json:"times"`
}

type nativeRes struct {
	I      int    `json:"i"`
	Result string `json:"result"` // ok infeasible violation panic hang
	Msg    string `json:"msg"`
}

func (r *replayer) run(items []item) []nativeRes {
	r.wg.Wait()
	out := make([]nativeRes, len(items))
	for i := range out {
		out[i] = nativeRes{I: i, Result: "none"}
	}
	if r.err != nil {
		return out
	}
	t0 := time.Now()
	defer func() { r.Time += time.Since(t0) }()
	for from := 0; from < len(items); {
		f := filepath.Join(r.tmp, "items.json")
		b, _ := json.Marshal(items[from:])
		if os.WriteFile(f, b, 0o644) != nil {
			return out
		}
		cmd := exec.Command(r.bin, "-batch", f)
		cmd.Stderr = nil
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		kill := time.AfterFunc(10*time.Minute, func() { cmd.Process.Kill() })
		res, _ := cmd.Output()
		kill.Stop()
		n := 0
		for _, l := range strings.Split(string(res), "\n") {
			var nr nativeRes
			if !strings.HasPrefix(l, "{") || json.Unmarshal([]byte(l), &nr) != nil || nr.I != n || from+n >= len(items) {
				continue
			}
			nr.I = from + n
			out[from+n] = nr
			n++
		}
		if from+n >= len(items) {
			break
		}
		// the process died on item from+n
		if n == 0 || out[from+n-1].Result != "hang" {
			out[from+n] = nativeRes{I: from + n, Result: "panic", Msg: "the process died (stack overflow or memory exhausted)"}
			if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 66 {
				out[from+n] = nativeRes{I: from + n, Result: "violation", Msg: "the race detector reports a data race"}
			}
			n++
		}
		from += n
	}
	return out
}

func (v *Violation) item(times int) item {
	return item{opt.prop, tierN(), v.Harness, v.Case, v.Inputs, times}
}

// confirm replays one counterexample against the real code.
func (r *replayer) confirm(v *Violation) {
	times := 1
	if len(v.Orders) > 0 {
		times = 200
	}
	res := r.run([]item{v.item(times)})[0]
	v.Native = res.Result + ": " + res.Msg
	switch res.Result {
	case "violation", "panic", "hang":
		v.Replayed = true
	}
}

// validate replays completed paths; the native run must agree that nothing is violated.
func (r *replayer) validate(samples []*Violation, ex *Explorer) (int, int) {
	var items []item
	for _, s := range samples {
		items = append(items, s.item(1))
	}
	if len(items) == 0 {
		return 0, 0
	}
	n, bad := 0, 0
	for i, res := range r.run(items) {
		s := samples[i]
		s.Native = res.Result + ": " + res.Msg
		switch res.Result {
		case "ok":
			n++
		case "infeasible":
			bad++
			fmt.Fprintf(os.Stderr, "symgo: path witness infeasible natively: %s[%d] %s %v\n", s.Harness, s.Case, s.CaseDesc, s.Inputs)
		case "none":
		default:
			// the native run on the solver's own witness breaks the property
			n++
			bad++
			s.Replayed = true
			s.Kind = "native"
			s.Msg = res.Msg
			ex.viols = append(ex.viols, s)
		}
	}
	return n, bad
}

// ---- report ----

func report(ex *Explorer, hs []*HarnessInfo, ms []*Machine, rp *replayer, start time.Time, tLoad, tInit, tExplore time.Duration, validated, disagree int, samples []*Violation) int {
	var tot UnitStats
	tot.UnsupMsgs = map[string]int64{}
	tot.Covers = map[string]int64{}
	type hstat struct {
		Name                                                       string `json:"harness"`
		Cases, CasesComplete                                       int
		Paths, Infeasible, AssertsConcrete, AssertsSymbolic        int64
		AssertsUnknown, Unsupported, StepLimit, Internal, Spurious int64
	}
	per := map[string]*hstat{}
	var order []string
	pending := map[int]int{}
	for _, j := range ex.fresh {
		pending[j.unit]++
	}
	for u, l := range ex.jobs {
		pending[u] += len(l)
	}
	for i, u := range ex.units {
		s := &u.stats
		tot.Paths += s.Paths
		tot.Done += s.Done
		tot.Infeasible += s.Infeasible
		tot.Panics += s.Panics
		tot.Unsupported += s.Unsupported
		tot.StepLimit += s.StepLimit
		tot.Internal += s.Internal
		tot.AssertsConc += s.AssertsConc
		tot.AssertsSym += s.AssertsSym
		tot.AssertsUnknown += s.AssertsUnknown
		tot.BranchUnknown += s.BranchUnknown
		tot.ConcretizeCut += s.ConcretizeCut
		tot.Steps += s.Steps
		tot.Spurious += s.Spurious
		tot.Decisions += s.Decisions
		if s.MaxPC > tot.MaxPC {
			tot.MaxPC = s.MaxPC
		}
		for k, v := range s.UnsupMsgs {
			tot.UnsupMsgs[k] += v
		}
		for k, v := range s.Covers {
			tot.Covers[u.h.Name+": "+k] += v
		}
		h := per[u.h.Name]
		if h == nil {
			h = &hstat{Name: u.h.Name}
			per[u.h.Name] = h
			order = append(order, u.h.Name)
		}
		h.Cases++
		if pending[i] == 0 && s.Unsupported+s.Internal+s.StepLimit+s.ConcretizeCut+s.BranchUnknown+s.AssertsUnknown+s.Spurious == 0 && s.Paths > 0 && !u.dead.Load() {
			h.CasesComplete++
		}
		h.Paths += s.Paths
		h.Infeasible += s.Infeasible
		h.AssertsConcrete += s.AssertsConc
		h.AssertsSymbolic += s.AssertsSym
		h.AssertsUnknown += s.AssertsUnknown
		h.Unsupported += s.Unsupported
		h.StepLimit += s.StepLimit
		h.Internal += s.Internal
		h.Spurious += s.Spurious
	}
	sort.Strings(order)
	var hl []*hstat
	complete, cases := 0, 0
	for _, n := range order {
		hl = append(hl, per[n])
		complete += per[n].CasesComplete
		cases += per[n].Cases
	}
	q, qs, qu, qk, qa := 0, 0, 0, 0, 0
	var st, mx time.Duration
	for _, m := range ms {
		q += m.sol.Queries
		qs += m.sol.SatN
		qu += m.sol.UnsatN
		qk += m.sol.UnkN
		qa += m.sol.AltN
		st += m.sol.Time
		if m.sol.MaxTime > mx {
			mx = m.sol.MaxTime
		}
	}
	// functions of the code under test that were executed symbolically
	fns := map[string]int64{}
	own, gen := 0, 0
	calls := map[*Fn]int64{}
	for _, m := range ms {
		for f, n := range m.calls {
			calls[f] += n
		}
	}
	for f, n := range calls {
		if n > 0 {
			if strings.HasPrefix(f.pkgPath, targetPath+"/") {
				gen++
			} else {
				own++
				fns[strings.ReplaceAll(f.name, targetPath, "gojsonpath")] = n
			}
		}
	}
	var fnList []string
	for n, c := range fns {
		fnList = append(fnList, fmt.Sprintf("%s (%d calls)", n, c))
	}
	sort.Strings(fnList)

	// violations
	nviol := 0
	known := map[string]bool{}
	seen := map[string]bool{}
	var lines []string
	var unconfirmed []string
	for _, v := range ex.viols {
		if !v.Replayed {
			if v.Native != "" {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s[%d] %s: %s (%s) native=%s inputs=%s notes=%v", v.Harness, v.Case, v.CaseDesc, v.Msg, v.Kind, v.Native, fmtInputs(v.Inputs), v.Notes))
			}
			continue
		}
		if t := matchFinding(v); t != "" {
			known[t] = true
			continue
		}
		key := v.Harness + "|" + v.Kind + "|" + v.Msg
		if seen[key] || nviol >= 5 {
			continue
		}
		seen[key] = true
		nviol++
		file := filepath.Join(opt.verif, "evidence", fmt.Sprintf("replay-%s-%d.json", opt.prop, nviol))
		b, _ := json.MarshalIndent(map[string]any{
			"property": opt.prop, "tier": tierN(), "harness": v.Harness, "case": v.Case, "case_desc": v.CaseDesc,
			"kind": v.Kind, "message": v.Msg, "notes": v.Notes, "inputs": v.Inputs, "map_orders": v.Orders,
			"native": v.Native, "how_to_replay": "/verif/check.sh replay " + file,
		}, "", " ")
		os.MkdirAll(filepath.Dir(file), 0o755)
		os.WriteFile(file, append(b, '\n'), 0o644)
		fmt.Printf("counterexample: %s case %d %s: %s\n  inputs: %s\n  notes: %v\n  native run: %s\n", v.Harness, v.Case, v.CaseDesc, v.Msg, fmtInputs(v.Inputs), v.Notes, v.Native)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", opt.prop, file))
	}
	var ks []string
	for t := range known {
		ks = append(ks, t)
	}
	sort.Strings(ks)
	for _, t := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", opt.prop, t)
	}

	exhaustive := !ex.timedOut && !ex.halted && complete == cases
	var smp []any
	for i, s := range samples {
		if i >= 12 {
			break
		}
		smp = append(smp, map[string]any{"harness": s.Harness, "case": s.CaseDesc, "inputs": fmtInputs(s.Inputs), "notes": s.Notes, "native": s.Native})
	}
	if len(smp) == 0 {
		for _, v := range ex.viols {
			if len(smp) < 3 {
				smp = append(smp, map[string]any{"harness": v.Harness, "case": v.CaseDesc, "inputs": fmtInputs(v.Inputs), "native": v.Native})
			}
		}
	}
	cov := map[string]any{
		"states":                           tot.Decisions + tot.Paths,
		"transitions":                      tot.Steps,
		"states_meaning":                   "symbolic states: decision points reached plus path ends; transitions are SSA instructions executed on symbolic state",
		"traces_validated_against_impl":    validated,
		"disagreements":                    disagree,
		"samples":                          smp,
		"exhaustive":                       exhaustive,
		"deadline_reached":                 ex.timedOut,
		"cases":                            cases,
		"cases_fully_explored":             complete,
		"paths":                            tot.Paths,
		"paths_infeasible":                 tot.Infeasible,
		"assertions_symbolic":              tot.AssertsSym,
		"assertions_constant_on_path":      tot.AssertsConc,
		"assertions_unknown":               tot.AssertsUnknown,
		"branch_unknown":                   tot.BranchUnknown,
		"value_enumerations_cut":           tot.ConcretizeCut,
		"paths_unsupported":                tot.Unsupported,
		"paths_step_limit":                 tot.StepLimit,
		"paths_internal_error":             tot.Internal,
		"unsupported_reasons":              tot.UnsupMsgs,
		"counterexamples_not_reproduced":   unconfirmed,
		"solver_queries":                   q,
		"solver_sat":                       qs,
		"solver_unsat":                     qu,
		"solver_unknown":                   qk,
		"solver_second_opinions":           qa,
		"solver_seconds":                   round2(st.Seconds()),
		"solver_max_query_seconds":         round2(mx.Seconds()),
		"queries_answered_by_cache":        ex.cacheHits.Load(),
		"branch_queries_decided_by_ranges": ex.domHits.Load(),
		"queries_answered_by_known_model":  ex.modelHits.Load(),
		"max_path_condition":               tot.MaxPC,
		"functions_encoded":                fnList,
		"functions_encoded_own":            own,
		"functions_encoded_parser":         gen,
		"harnesses":                        hl,
		"cover_points":                     tot.Covers,
		"bounds":                           boundsText(ms[0], hs),
		"seconds":                          map[string]float64{"load": round2(tLoad.Seconds()), "init": round2((tInit - tLoad).Seconds()), "explore": round2((tExplore - tInit).Seconds()), "native_replay": round2(rp.Time.Seconds())},
	}
	ev := map[string]any{
		"property": opt.prop, "tier": opt.tier, "seed": opt.seed, "level": "model_checking",
		"coverage": cov,
		"assumptions": []string{
			"the go/ssa form of the sources (x/tools v0.52.0) and this engine's interpretation of it agree with the compiled program; a sample of explored paths is replayed natively on every run",
			"unicode tables, fmt, sync and a few byte-search routines of the standard library are modelled by the engine rather than executed",
			"the solvers' unsat answers are trusted",
			"inputs outside the stated bounds are not covered",
		},
		"wall_s": round2(time.Since(start).Seconds()), "violations": nviol,
	}
	if opt.prop != "" && opt.harness == "" && opt.caseNo < 0 {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(opt.verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(opt.verif, "evidence", opt.prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "symgo:", err)
		}
	}

	fmt.Printf("%s tier=%s: %d/%d cases fully explored, %d paths (%d infeasible), asserts %d symbolic + %d constant, %d unknown; queries %d (%d unsat, %d unknown, %.1fs solver), cache %d, model reuse %d; unsupported %d, step-limit %d, internal %d, spurious %d; native-validated %d; load %.1fs init %.1fs explore %.1fs total %.1fs\n",
		opt.prop, opt.tier, complete, cases, tot.Paths, tot.Infeasible, tot.AssertsSym, tot.AssertsConc, tot.AssertsUnknown, q, qu, qk, st.Seconds(), ex.cacheHits.Load(), ex.modelHits.Load(), tot.Unsupported, tot.StepLimit, tot.Internal, tot.Spurious, validated,
		tLoad.Seconds(), (tInit - tLoad).Seconds(), (tExplore - tInit).Seconds(), time.Since(start).Seconds())
	if opt.verbose {
		for _, h := range hl {
			fmt.Printf("  %-28s cases %d/%d paths %d infeasible %d asserts %d/%d unknown %d unsup %d int %d spurious %d\n", h.Name, h.CasesComplete, h.Cases, h.Paths, h.Infeasible, h.AssertsSymbolic, h.AssertsConcrete, h.AssertsUnknown, h.Unsupported, h.Internal, h.Spurious)
		}
		for i, u := range ex.units {
			if pending[i] == 0 && u.stats.AssertsSym+u.stats.AssertsConc == 0 {
				fmt.Printf("  no assertion: %s[%d] %s\n", u.h.Name, u.c, u.desc)
			}
			if st := u.stats; pending[i] > 0 || st.ConcretizeCut+st.BranchUnknown+st.AssertsUnknown > 0 {
				fmt.Printf("  incomplete: %s[%d] %s: %d pending, %d paths, %d values cut, %d branches and %d asserts unknown\n", u.h.Name, u.c, u.desc, pending[i], st.Paths, st.ConcretizeCut, st.BranchUnknown, st.AssertsUnknown)
			}
		}
	}
	for k, n := range tot.UnsupMsgs {
		fmt.Printf("  not explored (%d paths): %s\n", n, k)
	}
	for i, s := range unconfirmed {
		if i < 5 || opt.verbose {
			fmt.Printf("  not reproduced: %s\n", s)
		}
	}
	if rp.err != nil {
		fmt.Fprintln(os.Stderr, "symgo:", rp.err)
		return 2
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if nviol > 0 {
		return 1
	}
	// vacuity: every harness that was explored must have decided assertions
	for _, h := range hl {
		if h.AssertsConcrete+h.AssertsSymbolic == 0 && h.CasesComplete == h.Cases {
			fmt.Fprintf(os.Stderr, "symgo: harness %s reached no assertion\n", h.Name)
			return 2
		}
	}
	return 0
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func fmtInputs(in []Input) string {
	var sb strings.Builder
	for i, x := range in {
		if i > 0 {
			sb.WriteByte(' ')
		}
		switch x.Kind {
		case "int", "choose":
			fmt.Fprintf(&sb, "%s=%d", x.Name, int64(x.Val))
		case "float":
			fmt.Fprintf(&sb, "%s=%v", x.Name, ff(V{n: x.Val}))
		case "rune":
			fmt.Fprintf(&sb, "%s=%q", x.Name, rune(x.Val))
		case "byte":
			fmt.Fprintf(&sb, "%s=%q", x.Name, string([]byte{byte(x.Val)}))
		default:
			fmt.Fprintf(&sb, "%s=%d", x.Name, x.Val)
		}
	}
	return sb.String()
}

// boundsText collects the harnesses' own statement of their bounds.
func boundsText(m *Machine, hs []*HarnessInfo) []string {
	var out []string
	for _, h := range hs {
		if s, ok := concStr(h.field(m, "Bounds")); ok {
			out = append(out, h.Name+": "+s)
		}
	}
	return out
}

var _ = types.Universe
