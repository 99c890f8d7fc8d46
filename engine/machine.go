package main

// Symbolic machine state: path condition, decisions, model.

import (
	"fmt"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type trailEntry struct {
	cell Ptr
	old  Value
	undo func()
}

type iv struct{ lo, hi uint64 }

type Input struct {
	kind string
	e    *Expr
}

type Obs struct {
	label string
	vals  []Value
}

type Outcome int

const (
	OutOK Outcome = iota
	OutDiscard
	OutViolation
	OutUnsupported
	OutLimit
	OutInfeasible
	OutEngine
)

var outName = [...]string{"ok", "discarded", "violation", "unsupported", "limit", "infeasible", "engine-error"}

type pathEnd struct {
	out Outcome
	msg string
}

// pending is an unexplored subtree: the decisions leading to it and a model.
type pending struct {
	prefix []int64
	model  []uint64
}

// A decision is tag<<4 | kind.
const (
	dBranch = iota
	dImplied
	dValue
	dChoose
	dAssume
	dAssert
)

type Machine struct {
	prog   *Program
	ctx    *Ctx
	solver *Solver

	trail  []trailEntry
	lits   []*Expr
	facts  map[int32]int8
	ivals  map[int32]iv
	vars   []*Expr
	inputs []Input
	obs    []Obs
	model  []uint64 // nil: unknown

	path     []int64 // decisions taken on this path
	prefix   []int64 // forced decisions
	preModel []uint64
	out      *[]pending // where new pending subtrees go

	subDepth int

	globals  map[*ssa.Global]Ptr
	code     map[*ssa.Function]*fnCode
	capCache map[capKey]int
	methods  map[methodKey]*ssa.Function
	implC    map[implKey]bool
	nextMap  int

	steps      int64 // on the current path
	totalSteps int64
	maxSteps   int64
	lockDepth  int
	mapPerm    bool
	unknown    bool // the current path relies on an undecided query
	depth      int
	frozen     map[Ptr]string
	frozenMaps map[*Map]string
	// lock sets: frozen cells (Ptr or *Map) read without a lock, and written
	// with one; quiet is the depth of accesses ordered by other means
	looseReads, lockedWrites map[interface{}]string
	readLocks, quiet         int
	// what sync.Pool and sync.Map values hold
	pools    map[Ptr][]Value
	syncMaps map[Ptr]*Map
	ready    []spawned // goroutines that have not run yet

	decMemo map[int32]decRec   // first byte expr id -> rune provenance
	encMemo map[encKey][]*Expr // rune expr, size -> bytes
	isMemo  map[isKey]*Expr
	sumMemo map[string]*Expr
	pureC   map[*ssa.Function]int8
	fnTouch map[*ssa.Function]int64
	ufCalls map[string][]ufCall
	h       *HarnessRun
	vfs     map[string]*VFile
	top     *Frame
	curPos  ssa.Instruction

	Stats    MStats
	deadline time.Time
	onceDone map[Ptr]bool
	open     map[Ptr]*openFile
	docs     map[*Value]*jsonDoc
	initDone map[*ssa.Package]int8
	inInit   int
	caught   *targetPanic
}

type MStats struct {
	Decisions, Forks, ByFact, Implied, Asserts, AssertsTrivial, Summaries, SubPaths int64
}

type ufCall struct {
	args []*Expr
	res  *Expr
}

type decRec struct {
	r    *Expr
	rest []*Expr
}
type encKey struct {
	r    int32
	size int
}
type isKey struct {
	tab    interface{}
	r      int32
	lo, hi uint64
}
type methodKey struct {
	t    types.Type
	name string
	pkg  string
}
type implKey struct{ t, i types.Type }

func NewMachine(p *Program, solverBin string, tmoMS int) *Machine {
	ctx := NewCtx()
	m := &Machine{
		prog: p, ctx: ctx, solver: NewSolver(ctx, solverBin, tmoMS),
		facts: map[int32]int8{}, ivals: map[int32]iv{},
		globals: map[*ssa.Global]Ptr{}, code: map[*ssa.Function]*fnCode{},
		capCache: map[capKey]int{}, methods: map[methodKey]*ssa.Function{}, implC: map[implKey]bool{},
		maxSteps: stepLimit(""),
		pureC:    map[*ssa.Function]int8{}, fnTouch: map[*ssa.Function]int64{},
		onceDone: map[Ptr]bool{},
		initDone: map[*ssa.Package]int8{},
	}
	m.resetMemos()
	return m
}

func (m *Machine) resetMemos() {
	m.decMemo = map[int32]decRec{}
	m.encMemo = map[encKey][]*Expr{}
	m.isMemo = map[isKey]*Expr{}
	m.sumMemo = map[string]*Expr{}
}

// gc drops all non-constant terms; only between paths.
func (m *Machine) gc() {
	m.ctx.Reset()
	m.resetMemos()
	m.facts = map[int32]int8{}
	m.ivals = map[int32]iv{}
	m.solver.Shutdown()
}

func (m *Machine) end(o Outcome, f string, args ...interface{}) {
	panic(pathEnd{o, fmt.Sprintf(f, args...)})
}

// ---- model ----

func (m *Machine) ensureModel() bool {
	if m.model != nil {
		return true
	}
	r, mod := m.solver.Check(m.lits, nil, m.vars)
	switch r {
	case Sat:
		m.setModel(mod)
		return true
	case Unsat:
		m.end(OutInfeasible, "path infeasible")
	}
	m.unknown = true
	return false
}

func (m *Machine) setModel(mod []uint64) {
	m.model = mod
	m.ctx.NewEval()
}

func (m *Machine) newVar(w uint8) *Expr {
	v := m.ctx.Var(w, len(m.vars))
	m.vars = append(m.vars, v)
	m.ctx.NewEval()
	return v
}

// feasible asks whether e can hold on the current path.
func (m *Machine) feasible(e *Expr) (SatResult, []uint64) {
	switch m.known(e) {
	case 1:
		if m.ensureModel() {
			return Sat, m.model
		}
		return Unknown, nil
	case 0:
		return Unsat, nil
	}
	if m.model != nil && m.ctx.Eval(e, m.model) == 1 {
		return Sat, m.model
	}
	r, mod := m.solver.Check(m.lits, e, m.vars)
	return r, mod
}

// ---- decisions ----

// forced returns the next prefix decision, if any.
func (m *Machine) forced(kinds ...int64) (tag, kind int64, ok bool) {
	if len(m.path) >= len(m.prefix) {
		return 0, 0, false
	}
	d := m.prefix[len(m.path)]
	k := d & 15
	for _, x := range kinds {
		if x == k {
			m.path = append(m.path, d)
			if len(m.path) == len(m.prefix) && m.preModel != nil {
				m.setModel(m.preModel)
			} else {
				m.model = nil
			}
			return d >> 4, k, true
		}
	}
	m.end(OutUnsupported, "decision replay diverged: want %v have %d at %d", kinds, k, len(m.path))
	return
}

func (m *Machine) record(kind, tag int64) { m.path = append(m.path, tag<<4|kind) }

func (m *Machine) fork(kind, tag int64, model []uint64) {
	p := make([]int64, len(m.path)+1)
	copy(p, m.path)
	p[len(m.path)] = tag<<4 | kind
	*m.out = append(*m.out, pending{p, model})
	m.Stats.Forks++
}

// branch decides a boolean term, forking if both sides are feasible.
func (m *Machine) branch(e *Expr) bool {
	if e.isConst() {
		return e.c == 1
	}
	if t, k, ok := m.forced(dBranch, dImplied); ok {
		if k == dImplied {
			m.learn(e, t == 1)
		} else {
			m.commit(e, t == 1)
		}
		return t == 1
	}
	if k := m.known(e); k >= 0 {
		m.Stats.ByFact++
		m.record(dImplied, int64(k))
		return k == 1
	}
	m.Stats.Decisions++
	ne := m.ctx.Not(e)
	if !m.ensureModel() {
		m.fork(dBranch, 0, nil)
		m.record(dBranch, 1)
		m.commit(e, true)
		return true
	}
	v := m.ctx.Eval(e, m.model) == 1
	other := ne
	tv := int64(1)
	if !v {
		other = e
		tv = 0
	}
	r, mod := m.solver.Check(m.lits, other, m.vars)
	switch r {
	case Unsat:
		m.Stats.Implied++
		m.record(dImplied, tv)
		m.learn(e, v)
		return v
	case Unknown:
		m.unknown = true
		mod = nil
	}
	m.fork(dBranch, 1-tv, mod)
	m.record(dBranch, tv)
	m.commit(e, v)
	return v
}

func (m *Machine) commit(e *Expr, v bool) {
	if v {
		m.addLit(e)
	} else {
		m.addLit(m.ctx.Not(e))
	}
}

// choose forks over n alternatives without constraining any term.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if t, _, ok := m.forced(dChoose); ok {
		return int(t)
	}
	mod := m.model
	for i := n - 1; i >= 1; i-- {
		m.fork(dChoose, int64(i), mod)
	}
	m.record(dChoose, 0)
	return 0
}

const maxConcretize = 300

// concretize forks over the feasible values of e.
func (m *Machine) concretize(e *Expr) uint64 {
	if e.isConst() {
		return e.c
	}
	if t, _, ok := m.forced(dValue); ok {
		m.addLit(m.ctx.Eq(e, m.ctx.Const(e.w, uint64(t))))
		return uint64(t)
	}
	if r := m.rng(e); r.lo == r.hi {
		m.record(dValue, int64(r.lo))
		return r.lo
	}
	if !m.ensureModel() {
		m.end(OutLimit, "cannot concretize under an undecided path")
	}
	v0 := m.ctx.Eval(e, m.model)
	type vm struct {
		v   uint64
		mod []uint64
	}
	vals := []vm{{v0, m.model}}
	block := m.ctx.Not(m.ctx.Eq(e, m.ctx.Const(e.w, v0)))
	for {
		r, mod := m.solver.Check(m.lits, block, m.vars)
		if r == Unsat {
			break
		}
		if r == Unknown {
			m.unknown = true
			m.end(OutLimit, "undecided while enumerating values")
		}
		m.ctx.NewEval()
		v := m.ctx.Eval(e, mod)
		m.ctx.NewEval()
		vals = append(vals, vm{v, mod})
		block = m.ctx.And(block, m.ctx.Not(m.ctx.Eq(e, m.ctx.Const(e.w, v))))
		if len(vals) > maxConcretize {
			m.end(OutLimit, "more than %d values for a size or index", maxConcretize)
		}
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].v < vals[j].v })
	for i := len(vals) - 1; i >= 1; i-- {
		m.fork(dValue, int64(vals[i].v), vals[i].mod)
	}
	m.setModel(vals[0].mod)
	m.record(dValue, int64(vals[0].v))
	m.addLit(m.ctx.Eq(e, m.ctx.Const(e.w, vals[0].v)))
	return vals[0].v
}

// cint concretizes a signed integer.
func (m *Machine) cint(v Value) int64 {
	e := v.(*Expr)
	return signed(m.concretize(e), e.w)
}

// assume restricts the path to e.
func (m *Machine) assume(e *Expr) {
	if e.isTrue() {
		return
	}
	if e.isFalse() {
		m.end(OutDiscard, "assumption")
	}
	if _, _, ok := m.forced(dAssume); ok {
		m.addLit(e)
		return
	}
	r, mod := m.feasible(e)
	switch r {
	case Unsat:
		m.end(OutDiscard, "assumption")
	case Unknown:
		m.unknown = true
		m.model = nil
	case Sat:
		m.setModel(mod)
	}
	m.record(dAssume, 1)
	m.addLit(e)
}

func (m *Machine) modelVals(mod []uint64) []uint64 {
	m.ctx.NewEval()
	out := make([]uint64, len(m.inputs))
	for i, in := range m.inputs {
		out[i] = m.ctx.Eval(in.e, mod)
	}
	m.ctx.NewEval()
	return out
}

func (m *Machine) inputKinds() []string {
	k := make([]string, len(m.inputs))
	for i, in := range m.inputs {
		k[i] = in.kind
	}
	return k
}

type Violation struct {
	Harness string   `json:"harness"`
	Msg     string   `json:"msg"`
	Inputs  []uint64 `json:"inputs"`
	Kinds   []string `json:"kinds"`
	MapPerm bool     `json:"map_perm"`
	Stack   []string `json:"stack"`
	Kind    string   `json:"kind"` // assert | panic | frame | hang
}

func (m *Machine) violation(kind, msg string, mod []uint64) {
	v := &Violation{Harness: m.h.name, Msg: msg, Inputs: m.modelVals(mod), Kinds: m.inputKinds(), MapPerm: m.mapPerm, Kind: kind, Stack: m.stackTrace()}
	m.h.addViolation(v)
}

// assert checks e on every value of the path.
func (m *Machine) assert(e *Expr, msg string) {
	m.Stats.Asserts++
	m.h.noteAssert(msg)
	if e.isTrue() {
		m.Stats.AssertsTrivial++
		return
	}
	if t, _, ok := m.forced(dAssert); ok {
		if t == 1 {
			m.addLit(e)
		} else {
			m.learn(e, true)
		}
		return
	}
	switch m.known(e) {
	case 1:
		m.record(dAssert, 0)
		return
	case 0:
		if m.ensureModel() {
			m.violation("assert", msg, m.model)
			m.end(OutViolation, "%s", msg)
		}
		m.end(OutLimit, "assertion on undecided path")
	}
	ne := m.ctx.Not(e)
	r, mod := m.feasible(ne)
	switch r {
	case Unsat:
		m.record(dAssert, 0)
		m.learn(e, true)
		return
	case Unknown:
		m.unknown = true
		m.h.noteUnknown(msg)
	case Sat:
		m.violation("assert", msg, mod)
		// go on with the values for which it holds
		r2, mod2 := m.feasible(e)
		if r2 != Sat {
			m.end(OutViolation, "%s", msg)
		}
		m.setModel(mod2)
	}
	m.record(dAssert, 1)
	m.addLit(e)
}
