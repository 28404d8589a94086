package main

// SMT solver processes: one persistent z3 per worker, with a fallback solver
// for queries the first one gives up on.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

// queries over a second are written to $SYMGO_SLOW
var slowLog = func() io.Writer {
	if n := os.Getenv("SYMGO_SLOW"); n != "" {
		f, _ := os.Create(n)
		return f
	}
	return nil
}()

type Solver struct {
	ctx       *Ctx
	bin       string
	args      []string
	p         *proc
	timeoutMs int
	altMs     int
	Queries   int
	SatN      int
	UnsatN    int
	UnkN      int
	AltN      int
	Time      time.Duration
	MaxTime   time.Duration
	dump      io.Writer
}

func NewSolver(ctx *Ctx, timeoutMs, altMs int) *Solver {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	return &Solver{ctx: ctx, bin: bin, args: []string{"-in", "-smt2"}, timeoutMs: timeoutMs, altMs: altMs}
}

func startProc(bin string, args []string) (*proc, error) {
	cmd := exec.Command(bin, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

func (s *Solver) Close() {
	if s.p != nil {
		s.p.in.Close()
		s.p.cmd.Process.Kill()
		s.p.cmd.Wait()
		s.p = nil
	}
}

func (s *Solver) script(asserts []*Term) (string, []*Term) {
	var sb strings.Builder
	p := &printer{c: s.ctx, sb: &sb, done: map[int]bool{}, ufs: map[string]bool{}}
	var vs []int32
	for _, a := range asserts {
		p.emit(a)
		vs = mergeVars(vs, a.vars)
	}
	for _, a := range asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", p.ref(a))
	}
	var vars []*Term
	for _, v := range vs {
		vars = append(vars, s.ctx.vars[v])
	}
	return sb.String(), vars
}

// Check decides the conjunction. On Sat the returned map gives a value for every free variable.
func (s *Solver) Check(asserts []*Term) (Result, map[int32]uint64) {
	start := time.Now()
	s.Queries++
	text, vars := s.script(asserts)
	if s.dump != nil {
		fmt.Fprintf(s.dump, "; query %d\n(push)\n%s(check-sat)\n(pop)\n", s.Queries, text)
	}
	res, m := s.run(text, vars)
	if res == Unknown && s.altMs > 0 {
		s.AltN++
		res, m = s.alt(text, vars)
	}
	d := time.Since(start)
	s.Time += d
	if d > time.Second && slowLog != nil {
		fmt.Fprintf(slowLog, "; %v %v\n%s\n", d, res, text)
	}
	if d > s.MaxTime {
		s.MaxTime = d
	}
	switch res {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnkN++
	}
	return res, m
}

func getValueCmd(vars []*Term) string {
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString("v_" + v.name + " ")
	}
	sb.WriteString("))\n")
	return sb.String()
}

func (s *Solver) run(text string, vars []*Term) (Result, map[int32]uint64) {
	for attempt := 0; attempt < 2; attempt++ {
		if s.p != nil && s.p.n > 4000 {
			s.Close()
		}
		if s.p == nil {
			p, err := startProc(s.bin, s.args)
			if err != nil {
				return Unknown, nil
			}
			s.p = p
			fmt.Fprintf(p.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.timeoutMs)
		}
		s.p.n++
		p := s.p
		wd := time.AfterFunc(time.Duration(s.timeoutMs)*time.Millisecond+10*time.Second, func() { p.cmd.Process.Kill() })
		_, err := io.WriteString(s.p.in, "(push)\n"+text+"(check-sat)\n")
		var line string
		if err == nil {
			line, err = s.p.out.ReadString('\n')
		}
		if err != nil {
			wd.Stop()
			s.Close()
			continue
		}
		line = strings.TrimSpace(line)
		var m map[int32]uint64
		res := Unknown
		switch line {
		case "sat":
			res = Sat
			m = map[int32]uint64{}
			if len(vars) > 0 {
				io.WriteString(s.p.in, getValueCmd(vars))
				sx, e2 := readSexp(s.p.out)
				if e2 != nil || !parseValues(sx, vars, m) {
					res = Unknown
					s.Close()
				}
			}
		case "unsat":
			res = Unsat
		case "unknown":
		default:
			// "(error": the rest of the stream is unreliable
			fmt.Fprintln(os.Stderr, "solver said:", line)
			s.Close()
		}
		wd.Stop()
		if s.p != nil {
			io.WriteString(s.p.in, "(pop)\n")
		}
		return res, m
	}
	return Unknown, nil
}

// alt runs one-shot second solvers.
func (s *Solver) alt(text string, vars []*Term) (Result, map[int32]uint64) {
	q := "(set-logic ALL)\n" + text + "(check-sat)\n"
	if len(vars) > 0 {
		q += getValueCmd(vars)
	}
	type ar struct {
		res Result
		m   map[int32]uint64
	}
	try := func(bin string, args ...string) ar {
		cmd := exec.Command(bin, args...)
		cmd.Stdin = strings.NewReader(q)
		t := time.AfterFunc(time.Duration(s.altMs)*time.Millisecond, func() {
			if cmd.Process != nil {
				cmd.Process.Kill()
			}
		})
		out, _ := cmd.Output()
		t.Stop()
		txt := strings.TrimSpace(string(out))
		if strings.HasPrefix(txt, "unsat") {
			return ar{Unsat, nil}
		}
		if strings.HasPrefix(txt, "sat") {
			m := map[int32]uint64{}
			if len(vars) == 0 || parseValues(strings.TrimPrefix(txt, "sat"), vars, m) {
				return ar{Sat, m}
			}
		}
		return ar{Unknown, nil}
	}
	ch := make(chan ar, 2)
	go func() { ch <- try("cvc5", "--produce-models", "--lang=smt2") }()
	go func() { ch <- try("z3", "-in", "-smt2") }()
	for i := 0; i < 2; i++ {
		r := <-ch
		if r.res != Unknown {
			return r.res, r.m
		}
	}
	return Unknown, nil
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started {
			sb.WriteByte(b)
		}
		if started && depth == 0 {
			// the rest of the line
			if _, err := r.ReadString('\n'); err != nil {
				return "", err
			}
			return sb.String(), nil
		}
	}
}

func parseValues(s string, vars []*Term, m map[int32]uint64) bool {
	s = strings.TrimSpace(s)
	if strings.Contains(s, "error") {
		return false
	}
	byName := map[string]*Term{}
	for _, v := range vars {
		byName["v_"+v.name] = v
	}
	s = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s)
	toks := strings.Fields(s)
	for i := 0; i < len(toks); i++ {
		v, ok := byName[toks[i]]
		if !ok || i+1 >= len(toks) {
			continue
		}
		t := toks[i+1]
		var val uint64
		var err error
		switch {
		case t == "true":
			val = 1
		case t == "false":
			val = 0
		case strings.HasPrefix(t, "#x"):
			val, err = strconv.ParseUint(t[2:], 16, 64)
		case strings.HasPrefix(t, "#b"):
			val, err = strconv.ParseUint(t[2:], 2, 64)
		case t == "(" && i+3 < len(toks) && toks[i+2] == "_" && strings.HasPrefix(toks[i+3], "bv"):
			val, err = strconv.ParseUint(toks[i+3][2:], 10, 64)
		default:
			return false
		}
		if err != nil {
			return false
		}
		m[int32(v.c)] = val
		delete(byName, toks[i])
		i++
	}
	return len(byName) == 0
}
