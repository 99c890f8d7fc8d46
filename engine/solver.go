package main

// SMT-LIB2 back end: one solver process per worker, incremental.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown  int
	Time                          time.Duration
	Restarts                      int
	Fallback, Confirmed, Disagree int
	MaxQuery                      time.Duration
}

type Solver struct {
	ctx    *Ctx
	cmd    *exec.Cmd
	in     *bufio.Writer
	inPipe io.WriteCloser
	out    *bufio.Reader
	gen    int32
	ndefs  int
	stack  []*Expr // asserted literals, one push level each
	vars   map[int32]bool
	Stats  SolverStats
	bin    string
	tmoMS  int
	broken error
	// solvers asked when this one gives no answer in time, and to confirm a
	// sample of its verdicts; they keep their own record of what is defined
	alts    []*Solver
	alt     bool
	closing bool
	// answers thrown away: models that do not satisfy the query
	BadModels int
	defs      map[int32]struct{}
}

func (s *Solver) isDef(e *Expr) bool {
	if s.alt {
		_, ok := s.defs[e.id]
		return ok
	}
	return e.defined == s.gen
}

func (s *Solver) setDef(e *Expr) {
	if s.alt {
		s.defs[e.id] = struct{}{}
		return
	}
	e.defined = s.gen
}

const (
	firstTryMS  = 3000
	confirmEach = 100
)

func NewSolver(ctx *Ctx, bin string, timeoutMS int) *Solver {
	s := &Solver{ctx: ctx, bin: bin, vars: map[int32]bool{}, tmoMS: timeoutMS}
	for _, b := range []string{"z3-new", "cvc5", "z3"} {
		if b == bin {
			continue
		}
		if _, err := exec.LookPath(b); err == nil {
			s.alts = append(s.alts, &Solver{ctx: ctx, bin: b, vars: map[int32]bool{}, tmoMS: timeoutMS, alt: true})
		}
	}
	if len(s.alts) > 0 && s.tmoMS > firstTryMS {
		s.tmoMS = firstTryMS
	}
	return s
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--lang=smt2", "--global-declarations", fmt.Sprintf("--tlimit-per=%d", s.tmoMS)}
	}
	s.cmd = exec.Command(s.bin, args...)
	ip, err := s.cmd.StdinPipe()
	if err != nil {
		s.broken = err
		return
	}
	op, err := s.cmd.StdoutPipe()
	if err != nil {
		s.broken = err
		return
	}
	if err := s.cmd.Start(); err != nil {
		s.broken = err
		return
	}
	s.inPipe = ip
	s.in = bufio.NewWriterSize(ip, 1<<16)
	s.out = bufio.NewReaderSize(op, 1<<16)
	s.gen++
	s.defs = map[int32]struct{}{}
	s.ndefs = 0
	s.stack = s.stack[:0]
	fmt.Fprintln(s.in, "(set-option :global-declarations true)")
	fmt.Fprintln(s.in, "(set-option :produce-models true)")
	if !strings.Contains(s.bin, "cvc5") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.tmoMS)
	}
	fmt.Fprintln(s.in, "(set-logic QF_BV)")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	for _, a := range s.alts {
		if s.closing {
			a.Close()
		}
	}
}

// Shutdown ends the solver and its helpers.
func (s *Solver) Shutdown() {
	s.closing = true
	s.Close()
}

// name returns the SMT name of e, emitting definitions as needed.
func (s *Solver) name(e *Expr) string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.c == 1 {
				return "true"
			}
			return "false"
		}
		if e.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(e.w/4), e.c)
		}
		return fmt.Sprintf("#b%0*b", int(e.w), e.c)
	case OVar:
		n := "v" + strconv.Itoa(int(e.c)) + "_" + strconv.Itoa(int(e.w))
		if !s.isDef(e) {
			s.setDef(e)
			s.ndefs++
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", n, sortName(e.w))
		}
		return n
	}
	n := "e" + strconv.Itoa(int(e.id))
	if s.isDef(e) {
		return n
	}
	var body string
	a := s.name(e.a)
	switch e.op {
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, a)
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, a)
	case OTrunc:
		body = fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, a)
	default:
		body = "(" + opSMT[e.op] + " " + a
		if e.b != nil {
			body += " " + s.name(e.b)
		}
		if e.d != nil {
			body += " " + s.name(e.d)
		}
		body += ")"
	}
	s.setDef(e)
	s.ndefs++
	fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", n, sortName(e.w), body)
	return n
}

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Check decides lits[0..n) plus extra.  On Sat it fills the values of vars.
func (s *Solver) Check(lits []*Expr, extra *Expr, vars []*Expr) (SatResult, []uint64) {
	t0 := time.Now()
	r, m := s.check(lits, extra, vars)
	if r == Unsat && len(s.alts) > 0 && time.Since(t0) > time.Duration(s.tmoMS)*time.Millisecond*7/10 {
		r = Unknown // too close to the time limit to be relied on
	}
	if r == Unknown {
		s.Close() // its state after a timeout is not to be relied on
		for _, a := range s.alts {
			r, m = a.check(lits, extra, vars)
			if r != Unknown {
				s.Stats.Fallback++
				break
			}
			a.Close()
		}
	} else if len(s.alts) > 0 && s.Stats.Queries%confirmEach == 0 && r == Unsat {
		a := s.alts[(s.Stats.Queries/confirmEach)%len(s.alts)]
		switch r2, m2 := a.check(lits, extra, vars); r2 {
		case Unsat:
			s.Stats.Confirmed++
		case Sat:
			s.Stats.Disagree++
			r, m = Unknown, m2
		default:
			a.Close()
		}
	}
	d := time.Since(t0)
	s.Stats.Queries++
	s.Stats.Time += d
	if d > s.Stats.MaxQuery {
		s.Stats.MaxQuery = d
	}
	switch r {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return r, m
}

func (s *Solver) check(lits []*Expr, extra *Expr, vars []*Expr) (SatResult, []uint64) {
	if s.cmd == nil || s.ndefs > 200000 {
		s.stack = s.stack[:0]
		if s.cmd != nil {
			s.Stats.Restarts++
		}
		s.Close()
		s.start()
		if s.broken != nil {
			return Unknown, nil
		}
	}
	// solvers may ignore their own time limit
	proc := s.cmd.Process
	guard := time.AfterFunc(time.Duration(s.tmoMS)*time.Millisecond*3/2+2*time.Second, func() { proc.Kill() })
	defer guard.Stop()
	// synchronise the assertion stack
	k := 0
	for k < len(s.stack) && k < len(lits) && s.stack[k] == lits[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	for _, l := range lits[k:] {
		n := s.name(l)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", n)
		s.stack = append(s.stack, l)
	}
	if extra != nil {
		n := s.name(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", n)
	}
	fmt.Fprintln(s.in, "(check-sat)")
	if err := s.in.Flush(); err != nil {
		return s.fail(err), nil
	}
	line, err := s.readLine()
	if err != nil {
		return s.fail(err), nil
	}
	var res SatResult
	var model []uint64
	switch line {
	case "sat":
		res = Sat
		var names []string
		for _, v := range vars {
			if s.isDef(v) {
				names = append(names, s.name(v))
			}
		}
		model = make([]uint64, len(vars))
		if len(names) > 0 {
			fmt.Fprintf(s.in, "(get-value (%s))\n", strings.Join(names, " "))
			if err := s.in.Flush(); err != nil {
				return s.fail(err), nil
			}
			txt, err := s.readSexp()
			if err != nil {
				return s.fail(err), nil
			}
			if err := parseModel(txt, model); err != nil {
				return s.fail(err), nil
			}
		}
	case "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(line, "(error") || line == "" {
			return s.fail(fmt.Errorf("solver: %s", line)), nil
		}
		res = Unknown
	}
	if extra != nil {
		fmt.Fprintln(s.in, "(pop 1)")
	}
	if res == Sat && !s.satisfies(lits, extra, model) {
		s.BadModels++
		return Unknown, nil
	}
	return res, model
}

// satisfies evaluates the query under the model.  (z3 4.8.12 may answer sat,
// with a wrong model, when its time runs out.)
func (s *Solver) satisfies(lits []*Expr, extra *Expr, model []uint64) bool {
	s.ctx.NewEval()
	defer s.ctx.NewEval()
	for _, l := range lits {
		if s.ctx.Eval(l, model) != 1 {
			return false
		}
	}
	return extra == nil || s.ctx.Eval(extra, model) == 1
}

func (s *Solver) fail(err error) SatResult {
	s.broken = nil
	lastSolverError = err
	s.Close()
	return Unknown
}

var lastSolverError error

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			s.out.ReadString('\n')
			return sb.String(), nil
		}
	}
}

func parseModel(txt string, model []uint64) error {
	if strings.HasPrefix(txt, "(error") {
		return fmt.Errorf("%s", txt)
	}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i+1 < len(f); i += 2 {
		name, val := f[i], f[i+1]
		if name[0] != 'v' {
			return fmt.Errorf("bad model entry %q", name)
		}
		us := strings.IndexByte(name, '_')
		idx, err := strconv.Atoi(name[1:us])
		if err != nil {
			return err
		}
		var v uint64
		switch {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, err = strconv.ParseUint(val[2:], 2, 64)
		default:
			err = fmt.Errorf("bad value %q", val)
		}
		if err != nil {
			return err
		}
		if idx < len(model) {
			model[idx] = v
		}
	}
	return nil
}
