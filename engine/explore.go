package main

// Path exploration: depth-first, several workers, work sharing by decision
// prefixes.

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type sample struct {
	inputs  []uint64
	kinds   []string
	obs     []string
	mapPerm bool
	outcome string
}

type HarnessRun struct {
	name  string
	fn    *ssa.Function
	prog  *Program
	quick bool

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []pending
	idle     int
	workers  int
	stop     bool
	done     bool
	deadline time.Time

	violations []*Violation
	vioSeen    map[string]int
	asserts    map[string]int64
	unknowns   map[string]int64
	reach      map[string]int64
	known      map[string]int64
	outcomes   [8]int64
	outMsgs    map[string]int64
	samples    []sample
	limits     []*Violation // candidate hangs
	paths      int64
	steps      int64
	decisions  int64
	maxPath    int64
	exhausted  bool
	mstats     MStats
	sstats     SolverStats
	fns        map[*ssa.Function]int64
	elapsed    time.Duration
	engineErr  string
	maxSamples int
}

func NewHarnessRun(p *Program, fn *ssa.Function, quick bool) *HarnessRun {
	h := &HarnessRun{name: fn.Name(), fn: fn, prog: p, quick: quick, vioSeen: map[string]int{}, asserts: map[string]int64{},
		unknowns: map[string]int64{}, reach: map[string]int64{}, known: map[string]int64{}, outMsgs: map[string]int64{}, fns: map[*ssa.Function]int64{}, maxSamples: 24}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *HarnessRun) noteAssert(msg string) {
	h.mu.Lock()
	h.asserts[msg]++
	h.mu.Unlock()
}
func (h *HarnessRun) noteUnknown(msg string) {
	h.mu.Lock()
	h.unknowns[msg]++
	h.mu.Unlock()
}
func (h *HarnessRun) noteReach(msg string) {
	h.mu.Lock()
	h.reach[msg]++
	h.mu.Unlock()
}
func (h *HarnessRun) noteKnown(msg string) {
	h.mu.Lock()
	h.known[msg]++
	h.mu.Unlock()
}

func (h *HarnessRun) addViolation(v *Violation) {
	h.mu.Lock()
	defer h.mu.Unlock()
	k := v.Kind + "|" + v.Msg
	h.vioSeen[k]++
	if h.vioSeen[k] <= 4 && len(h.violations) < 40 {
		h.violations = append(h.violations, v)
	}
	total := 0
	for _, n := range h.vioSeen {
		total += n
	}
	if total > 200 {
		h.stop = true
		h.cond.Broadcast()
	}
}

// Run explores the harness with the machines of the pool.
func (h *HarnessRun) Run(ms []*Machine, budget time.Duration) {
	t0 := time.Now()
	h.deadline = t0.Add(budget)
	h.queue = []pending{{}}
	h.workers = len(ms)
	var wg sync.WaitGroup
	timer := time.AfterFunc(budget, func() {
		h.mu.Lock()
		h.stop = true
		h.cond.Broadcast()
		h.mu.Unlock()
	})
	for _, m := range ms {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			h.worker(m)
		}(m)
	}
	wg.Wait()
	timer.Stop()
	h.exhausted = !h.stop
	h.elapsed = time.Since(t0)
	for _, m := range ms {
		s := m.solver.Stats
		h.sstats.Queries += s.Queries
		h.sstats.Sat += s.Sat
		h.sstats.Unsat += s.Unsat
		h.sstats.Unknown += s.Unknown
		h.sstats.Time += s.Time
		h.sstats.Restarts += s.Restarts
		h.sstats.Fallback += s.Fallback
		h.sstats.Confirmed += s.Confirmed
		h.sstats.Disagree += s.Disagree
		if s.MaxQuery > h.sstats.MaxQuery {
			h.sstats.MaxQuery = s.MaxQuery
		}
		m.solver.Stats = SolverStats{}
		a, b := &h.mstats, m.Stats
		a.Decisions += b.Decisions
		a.Forks += b.Forks
		a.ByFact += b.ByFact
		a.Implied += b.Implied
		a.Asserts += b.Asserts
		a.AssertsTrivial += b.AssertsTrivial
		a.Summaries += b.Summaries
		a.SubPaths += b.SubPaths
		m.Stats = MStats{}
		for f, n := range m.fnTouch {
			h.fns[f] += n
		}
		m.fnTouch = map[*ssa.Function]int64{}
	}
}

func (h *HarnessRun) worker(m *Machine) {
	m.h = h
	var local []pending
	for {
		if len(local) == 0 {
			h.mu.Lock()
			h.idle++
			for len(h.queue) == 0 && !h.stop && !h.done {
				if h.idle == h.workers {
					h.done = true
					h.cond.Broadcast()
					break
				}
				h.cond.Wait()
			}
			if h.stop || h.done {
				h.mu.Unlock()
				return
			}
			h.idle--
			local = append(local, h.queue[0])
			h.queue = h.queue[1:]
			h.mu.Unlock()
		}
		p := local[len(local)-1]
		local = local[:len(local)-1]
		h.runPath(m, p, &local)
		// share the oldest subtrees
		if len(local) > 1 {
			h.mu.Lock()
			for h.idle > len(h.queue) && len(local) > 1 {
				h.queue = append(h.queue, local[0])
				local = local[1:]
				h.cond.Signal()
			}
			stop := h.stop
			h.mu.Unlock()
			if stop {
				return
			}
		} else {
			h.mu.Lock()
			stop := h.stop
			h.mu.Unlock()
			if stop {
				return
			}
		}
		if m.ctx.nextID > 4_000_000 || len(m.ctx.tab) > 3_000_000 {
			m.gc()
		}
	}
}

func (m *Machine) resetPath(p pending) {
	m.undoTo(0)
	m.lits = m.lits[:0]
	clear(m.facts)
	clear(m.ivals)
	clear(m.decMemo)
	clear(m.encMemo)
	m.vars, m.inputs, m.obs = nil, nil, nil
	m.path = make([]int64, 0, len(p.prefix)+64)
	m.prefix, m.preModel = p.prefix, p.model
	m.model = nil
	if len(p.prefix) == 0 {
		m.setModel([]uint64{})
	}
	m.steps, m.lockDepth, m.depth, m.subDepth = 0, 0, 0, 0
	m.mapPerm, m.unknown = false, false
	m.frozen, m.frozenMaps = nil, nil
	m.looseReads, m.lockedWrites = nil, nil
	m.readLocks, m.quiet = 0, 0
	m.ufCalls = map[string][]ufCall{}
	m.vfs = map[string]*VFile{}
	m.open = map[Ptr]*openFile{}
	m.docs = map[*Value]*jsonDoc{}
	m.top = nil
	m.caught = nil
	m.ctx.NewEval()
}

// maxLen is how long a slice may grow, or a string.
const maxLen = 1 << 19

// manyLimits is how many paths of a harness may come to a limit.
const manyLimits = 64

// stepLimit is how long a path may be; the harnesses of huge inputs may take
// longer ones.
func stepLimit(harness string) int64 {
	if strings.HasPrefix(harness, "H_huge") {
		return 100_000_000
	}
	return 20_000_000
}

func (h *HarnessRun) runPath(m *Machine, p pending, local *[]pending) {
	m.resetPath(p)
	m.maxSteps = stepLimit(h.name)
	m.out = local
	out, msg := h.exec(m)
	h.mu.Lock()
	h.paths++
	h.steps += m.steps
	h.decisions += int64(len(m.path))
	if m.steps > h.maxPath {
		h.maxPath = m.steps
	}
	h.outcomes[out]++
	if out != OutOK && out != OutDiscard {
		if out == OutEngine && h.engineErr != "" {
			msg = strings.SplitN(msg, "\n", 2)[0]
		}
		h.outMsgs[outName[out]+": "+msg]++
	}
	if out == OutEngine && h.engineErr == "" {
		h.engineErr = msg
	}
	n := h.outcomes[OutOK]
	take := out == OutOK && len(h.samples) < h.maxSamples && (n <= 8 || n&(n-1) == 0 || n%97 == 0)
	h.mu.Unlock()
	m.totalSteps += m.steps
	if (take || out == OutLimit) && !m.unknown {
		func() {
			defer func() { recover() }()
			if m.model == nil || len(m.model) < len(m.vars) {
				r, mod := m.solver.Check(m.lits, nil, m.vars)
				if r != Sat {
					return
				}
				m.setModel(mod)
			}
			if take {
				s := sample{inputs: m.modelVals(m.model), kinds: m.inputKinds(), obs: m.renderObs(m.model), mapPerm: m.mapPerm}
				h.mu.Lock()
				h.samples = append(h.samples, s)
				h.mu.Unlock()
			} else {
				v := &Violation{Harness: h.name, Msg: "does not terminate within bounds: " + msg, Inputs: m.modelVals(m.model), Kinds: m.inputKinds(), Kind: "hang", MapPerm: m.mapPerm}
				h.mu.Lock()
				if h.outcomes[OutLimit] > manyLimits {
					h.stop = true
					h.cond.Broadcast()
				}
				if len(h.limits) < 3 {
					h.limits = append(h.limits, v)
				}
				h.mu.Unlock()
			}
		}()
	}
	m.undoTo(0)
}

func (h *HarnessRun) exec(m *Machine) (out Outcome, msg string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case pathEnd:
			out, msg = x.out, x.msg
		case unsupportedErr:
			where := ""
			if m.top != nil {
				st := m.stackTrace()
				if len(st) > 3 {
					st = st[:3]
				}
				where = fmt.Sprint(" at ", st)
			}
			out, msg = OutUnsupported, x.msg+where
		case *targetPanic:
			out, msg = OutViolation, "panic: "+x.rt
			func() {
				defer func() {
					if r := recover(); r != nil {
						if pe, ok := r.(pathEnd); ok {
							out, msg = pe.out, pe.msg
							return
						}
						panic(r)
					}
				}()
				if m.ensureModel() {
					if len(m.model) < len(m.vars) {
						// complete the model
						if r, mod := m.solver.Check(m.lits, nil, m.vars); r == Sat {
							m.setModel(mod)
						}
					}
					m.violation("panic", x.rt, m.model)
				} else {
					out, msg = OutLimit, "panic on undecided path"
				}
			}()
		default:
			where := fmt.Sprint(m.stackTrace())
			out, msg = OutEngine, fmt.Sprintf("%v at %s\n%s", r, where, debug.Stack())
		}
	}()
	m.callFn(nil, h.fn, nil, nil)
	return OutOK, ""
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
