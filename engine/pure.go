package main

// Summaries of pure scalar functions and of Unicode tables: branch-heavy
// predicates become one term instead of many paths.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

const (
	pureUnknown = iota
	pureYes
	pureNo
	pureBusy
)

func scalarType(t types.Type) bool {
	_, _, ok := intInfo(t)
	return ok
}

// pureFn: static eligibility.
func (m *Machine) pureFn(fn *ssa.Function) bool {
	switch m.pureC[fn] {
	case pureYes:
		return true
	case pureNo:
		return false
	case pureBusy: // recursion
		return false
	}
	m.pureC[fn] = pureBusy
	ok := m.pureCheck(fn)
	if ok {
		m.pureC[fn] = pureYes
	} else {
		m.pureC[fn] = pureNo
	}
	return ok
}

func (m *Machine) pureCheck(fn *ssa.Function) bool {
	if fn.Blocks == nil || len(fn.FreeVars) > 0 || fn.Signature.Results().Len() != 1 {
		return false
	}
	if !scalarType(fn.Signature.Results().At(0).Type()) {
		return false
	}
	if m.prog.isHarnessFn(fn) && !m.prog.isOracleFn(fn) {
		return false
	}
	for _, p := range fn.Params {
		switch under(p.Type()).(type) {
		case *types.Pointer:
		default:
			if !scalarType(p.Type()) {
				return false
			}
		}
	}
	if len(fn.Blocks) > 60 {
		return false
	}
	local := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				if x.Heap {
					return false
				}
				local[x] = true
			case *ssa.Store:
				if !local[x.Addr] {
					return false
				}
			case *ssa.Call:
				f, ok := x.Call.Value.(*ssa.Function)
				if !ok {
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						continue
					}
					return false
				}
				c := m.codeOf(f)
				if c.intr != nil {
					if !pureIntrinsic[f.String()] && !strings.HasPrefix(f.String(), "unicode.") {
						return false
					}
					continue
				}
				if !m.pureFn(f) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Panic, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.MakeChan, *ssa.MakeInterface, *ssa.RunDefers, *ssa.Range, *ssa.Next:
				return false
			}
		}
	}
	return true
}

var pureIntrinsic = map[string]bool{}

// tryPure reports whether a call is worth summarising.
func (m *Machine) tryPure(fn *ssa.Function, args []Value) bool {
	sym := false
	for _, a := range args {
		switch x := a.(type) {
		case *Expr:
			sym = sym || !x.isConst()
		case Ptr:
		default:
			return false
		}
	}
	return sym && m.pureFn(fn) && m.subDepth < 6
}

// summarize explores fn over all values of its arguments inside their current
// intervals and merges the results into one term.
func (m *Machine) summarize(fn *ssa.Function, args []Value) (res Value, ok bool) {
	key := ""
	memo := true
	for _, a := range args {
		switch x := a.(type) {
		case *Expr:
			r := m.rng(x)
			key += fmt.Sprintf("%d:%d-%d,", x.id, r.lo, r.hi)
		default:
			memo = false
		}
	}
	if memo {
		key = fmt.Sprintf("%p|%s", fn, key)
		if e, ok := m.sumMemo[key]; ok {
			if e == nil {
				return nil, false
			}
			return e, true
		}
	}
	m.Stats.Summaries++
	type save struct {
		lits            []*Expr
		facts           map[int32]int8
		ivals           map[int32]iv
		path, prefix    []int64
		preModel, model []uint64
		out             *[]pending
		top             *Frame
		depth           int
		unknown         bool
		trailLen        int
	}
	sv := save{m.lits, m.facts, m.ivals, m.path, m.prefix, m.preModel, m.model, m.out, m.top, m.depth, m.unknown, len(m.trail)}
	var base []*Expr
	fresh := map[int32]iv{}
	for _, a := range args {
		if x, ok := a.(*Expr); ok && !x.isConst() && x.w > 0 {
			r := m.rng(x)
			if r.lo > 0 {
				base = append(base, m.ctx.ULe(m.ctx.Const(x.w, r.lo), x))
			}
			if r.hi < mask(x.w) {
				base = append(base, m.ctx.ULe(x, m.ctx.Const(x.w, r.hi)))
			}
			fresh[x.id] = r
		}
	}
	m.subDepth++
	defer func() {
		m.lits, m.facts, m.ivals = sv.lits, sv.facts, sv.ivals
		m.path, m.prefix, m.preModel = sv.path, sv.prefix, sv.preModel
		m.out, m.top, m.depth, m.unknown = sv.out, sv.top, sv.depth, sv.unknown
		m.setModel(sv.model)
		m.undoTo(sv.trailLen)
		m.subDepth--
		if !ok && memo {
			m.sumMemo[key] = nil
		}
	}()
	stack := []pending{{}}
	type piece struct {
		cond *Expr
		v    *Expr
		path []int64
	}
	var pieces []piece
	for len(stack) > 0 {
		p := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		m.lits = append([]*Expr(nil), base...)
		m.facts = map[int32]int8{}
		m.ivals = map[int32]iv{}
		for k, v := range fresh {
			m.ivals[k] = v
		}
		m.path, m.prefix, m.preModel = nil, p.prefix, p.model
		m.model = nil
		if len(p.prefix) == 0 {
			m.setModel(nil)
		}
		m.out = &stack
		m.unknown = false
		n0 := len(m.lits)
		v, good := m.subRun(fn, args)
		m.Stats.SubPaths++
		if !good || m.unknown {
			return nil, false
		}
		cond := m.ctx.T
		for _, l := range m.lits[n0:] {
			cond = m.ctx.And(cond, l)
		}
		pieces = append(pieces, piece{cond, v, append([]int64(nil), m.path...)})
		if len(pieces) > 300 {
			return nil, false
		}
	}
	// the order in which paths are met depends on the solver's models: the term
	// must not, or replaying a path prefix would meet other terms
	sort.SliceStable(pieces, func(i, j int) bool {
		a, b := pieces[i].path, pieces[j].path
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	r := pieces[len(pieces)-1].v
	for i := len(pieces) - 2; i >= 0; i-- {
		r = m.ctx.Ite(pieces[i].cond, pieces[i].v, r)
	}
	if memo {
		m.sumMemo[key] = r
	}
	return r, true
}

func (m *Machine) subRun(fn *ssa.Function, args []Value) (v *Expr, ok bool) {
	trail := len(m.trail)
	defer func() {
		if r := recover(); r != nil {
			m.undoTo(trail)
			switch x := r.(type) {
			case *targetPanic, unsupportedErr:
				ok = false
			case pathEnd:
				if x.out == OutEngine {
					panic(r)
				}
				ok = false
			default:
				panic(r)
			}
		}
	}()
	c := m.codeOf(fn)
	m.fnTouch[fn]++
	fr := &Frame{fn: fn, code: c, caller: m.top, regs: make([]Value, c.nregs)}
	copy(fr.regs, args)
	m.top = fr
	m.depth++
	m.run(fr)
	m.depth--
	m.top = fr.caller
	e, isE := fr.result.(*Expr)
	m.undoTo(trail)
	return e, isE
}

// ---- piecewise Unicode functions ----

// seg: for r in [lo,hi], value is v (boolean) or r+delta; alt segments
// alternate between the value at lo and the value at lo+1.
type seg struct {
	lo, hi uint32
	alt    bool
	v0, v1 int32 // boolean 0/1, or delta
}

type segTable []seg

var (
	segMu    sync.Mutex
	segCache = map[string]segTable{}
)

func buildSegs(f func(r rune) int32) segTable {
	var raw segTable
	cur := seg{0, 0, false, f(0), 0}
	for r := rune(1); r <= unicode.MaxRune; r++ {
		v := f(r)
		if v == cur.v0 {
			cur.hi = uint32(r)
			continue
		}
		raw = append(raw, cur)
		cur = seg{uint32(r), uint32(r), false, v, 0}
	}
	raw = append(raw, cur)
	// merge alternations of single runes
	var out segTable
	for i := 0; i < len(raw); {
		j := i
		for j+1 < len(raw) && raw[j].lo == raw[j].hi && raw[j+1].lo == raw[j+1].hi && (j == i || raw[j+1].v0 == raw[j-1].v0) {
			j++
		}
		if j-i+1 >= 4 {
			out = append(out, seg{raw[i].lo, raw[j].hi, true, raw[i].v0, raw[i+1].v0})
			i = j + 1
			continue
		}
		out = append(out, raw[i])
		i++
	}
	return out
}

func segsFor(name string, f func(r rune) int32) segTable {
	segMu.Lock()
	defer segMu.Unlock()
	if s, ok := segCache[name]; ok {
		return s
	}
	s := buildSegs(f)
	segCache[name] = s
	return s
}

// piecewise evaluates a segment table at r (32-bit).  leaf maps a segment
// value to a term; out is the value above MaxRune and for negative runes.
func (m *Machine) piecewise(name string, tab segTable, r *Expr, leaf func(v int32) *Expr, out *Expr) *Expr {
	iv := m.rng(r)
	key := isKey{name, r.id, iv.lo, iv.hi}
	if e, ok := m.isMemo[key]; ok {
		return e
	}
	c := m.ctx
	k := func(v uint64) *Expr { return c.Const(32, v) }
	lo, hi := iv.lo, iv.hi
	over := hi > unicode.MaxRune
	if over {
		hi = unicode.MaxRune
	}
	var e *Expr
	if lo > unicode.MaxRune {
		e = out
	} else {
		a := sort.Search(len(tab), func(i int) bool { return uint64(tab[i].hi) >= lo })
		b := sort.Search(len(tab), func(i int) bool { return uint64(tab[i].lo) > hi })
		var build func(a, b int) *Expr
		build = func(a, b int) *Expr {
			if b-a == 1 {
				s := tab[a]
				if !s.alt {
					return leaf(s.v0)
				}
				odd := c.Eq(c.Bin(OBAnd, r, k(1)), k(uint64(s.lo&1)))
				return c.Ite(odd, leaf(s.v0), leaf(s.v1))
			}
			mid := (a + b) / 2
			return c.Ite(c.ULt(r, k(uint64(tab[mid].lo))), build(a, mid), build(mid, b))
		}
		e = build(a, b)
		if over {
			e = c.Ite(c.ULe(r, k(unicode.MaxRune)), e, out)
		}
	}
	m.isMemo[key] = e
	return e
}

func (m *Machine) runePred(name string, f func(r rune) bool, r *Expr) *Expr {
	if r.isConst() {
		return m.ctx.Bool(f(rune(int32(r.c))))
	}
	tab := segsFor(name, func(r rune) int32 {
		if f(r) {
			return 1
		}
		return 0
	})
	return m.piecewise("p:"+name, tab, r, func(v int32) *Expr { return m.ctx.Bool(v == 1) }, m.ctx.F)
}

func (m *Machine) runeMap(name string, f func(r rune) rune, r *Expr) *Expr {
	if r.isConst() {
		return m.ctx.Const(32, uint64(uint32(f(rune(int32(r.c))))))
	}
	tab := segsFor(name, func(r rune) int32 { return int32(f(r) - r) })
	return m.piecewise("m:"+name, tab, r, func(v int32) *Expr {
		return m.ctx.Bin(OAdd, r, m.ctx.Const(32, uint64(uint32(v))))
	}, r)
}

// tableOf converts a *unicode.RangeTable of the target to a host table.
func (m *Machine) tableOf(v Value) *unicode.RangeTable {
	p, ok := v.(Ptr)
	if !ok || p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	s := (*p).(Struct)
	t := &unicode.RangeTable{}
	num := func(v Value) uint64 {
		e := v.(*Expr)
		if !e.isConst() {
			panic(unsupported("symbolic range table"))
		}
		return e.c
	}
	for _, x := range s[0].(Slice) {
		r := x.(Struct)
		t.R16 = append(t.R16, unicode.Range16{Lo: uint16(num(r[0])), Hi: uint16(num(r[1])), Stride: uint16(num(r[2]))})
	}
	for _, x := range s[1].(Slice) {
		r := x.(Struct)
		t.R32 = append(t.R32, unicode.Range32{Lo: uint32(num(r[0])), Hi: uint32(num(r[1])), Stride: uint32(num(r[2]))})
	}
	t.LatinOffset = int(num(s[2]))
	return t
}

func tableName(t *unicode.RangeTable) string {
	h := uint64(14695981039346656037)
	mix := func(v uint64) { h = (h ^ v) * 1099511628211 }
	for _, r := range t.R16 {
		mix(uint64(r.Lo))
		mix(uint64(r.Hi) << 20)
		mix(uint64(r.Stride) << 40)
	}
	mix(7)
	for _, r := range t.R32 {
		mix(uint64(r.Lo))
		mix(uint64(r.Hi) << 1)
		mix(uint64(r.Stride) << 2)
	}
	return fmt.Sprintf("tab%x-%d-%d", h, len(t.R16), len(t.R32))
}

func (m *Machine) unicodeIs(tab Value, r *Expr) *Expr {
	t := m.tableOf(tab)
	return m.runePred(tableName(t), func(c rune) bool { return unicode.Is(t, c) }, r)
}
