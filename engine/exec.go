package main

// Execution of go/ssa code on symbolic values.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	opReg opKind = iota
	opConst
)

type opnd struct {
	k opKind
	i int
	v Value
}

type inst struct {
	in  ssa.Instruction
	dst int
	ops []opnd
}

type phiInst struct {
	dst  int
	edge []opnd
}

type blockCode struct {
	phis  []phiInst
	insts []inst
}

type fnCode struct {
	fn     *ssa.Function
	nregs  int
	blocks []blockCode
	reg    map[ssa.Value]int
	intr   intrinsic
	defers bool
	repo   bool
	free0  int
}

type deferred struct {
	fn   Value // *Closure, NativeFn, or *ssa.Builtin wrapper
	args []Value
	call *ssa.CallCommon
	bi   *ssa.Builtin
}

type Frame struct {
	fn        *ssa.Function
	code      *fnCode
	caller    *Frame
	regs      []Value
	block     int
	prev      int
	defers    []deferred
	result    Value
	cur       ssa.Instruction
	panicking bool
	panicVal  *targetPanic
}

// targetPanic is a panic of the code under test.
type targetPanic struct {
	v  Iface
	rt string // runtime error text
}

func (m *Machine) rtPanic(f string, args ...interface{}) {
	msg := fmt.Sprintf(f, args...)
	panic(&targetPanic{v: Iface{t: m.prog.runtimeErr, v: m.strVal(msg)}, rt: msg})
}

func (m *Machine) stackTrace() []string {
	var out []string
	for f := m.top; f != nil && len(out) < 24; f = f.caller {
		s := f.fn.String()
		if f.cur != nil && f.cur.Pos().IsValid() {
			p := m.prog.fset.Position(f.cur.Pos())
			s += fmt.Sprintf(" (%s:%d)", shortFile(p.Filename), p.Line)
		}
		out = append(out, s)
	}
	return out
}

func shortFile(f string) string {
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		return f[i+1:]
	}
	if i := strings.LastIndex(f, "/src/"); i >= 0 {
		return f[i+5:]
	}
	return f
}

// ---- compilation to operand form ----

func (m *Machine) codeOf(fn *ssa.Function) *fnCode {
	if c, ok := m.code[fn]; ok {
		return c
	}
	c := &fnCode{fn: fn, reg: map[ssa.Value]int{}}
	m.code[fn] = c
	c.intr = m.findIntrinsic(fn)
	c.repo = m.prog.isRepoFn(fn)
	if c.intr != nil || fn.Blocks == nil {
		return c
	}
	m.compile(c)
	return c
}

// compile puts the body of a function into operand form.
func (m *Machine) compile(c *fnCode) {
	fn := c.fn
	n := 0
	for _, p := range fn.Params {
		c.reg[p] = n
		n++
	}
	c.free0 = n
	for _, p := range fn.FreeVars {
		c.reg[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.reg[v] = n
				n++
			}
			switch in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				c.defers = true
			}
		}
	}
	c.nregs = n
	c.blocks = make([]blockCode, len(fn.Blocks))
	var rands [16]*ssa.Value
	for bi, b := range fn.Blocks {
		bc := &c.blocks[bi]
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				p := phiInst{dst: c.reg[x]}
				for _, e := range x.Edges {
					p.edge = append(p.edge, m.operand(c, e))
				}
				bc.phis = append(bc.phis, p)
				continue
			}
			it := inst{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				it.dst = c.reg[v]
			}
			for _, r := range in.Operands(rands[:0]) {
				if *r == nil {
					it.ops = append(it.ops, opnd{k: opConst, v: nil})
					continue
				}
				it.ops = append(it.ops, m.operand(c, *r))
			}
			bc.insts = append(bc.insts, it)
		}
	}
}

func (m *Machine) operand(c *fnCode, v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{k: opConst, v: m.constVal(x)}
	case *ssa.Global:
		return opnd{k: opConst, v: m.global(x)}
	case *ssa.Function:
		return opnd{k: opConst, v: &Closure{fn: x}}
	case *ssa.Builtin:
		return opnd{k: opConst, v: nil}
	}
	r, ok := c.reg[v]
	if !ok {
		panic(unsupported("operand %s (%T) of %s", v.Name(), v, c.fn))
	}
	return opnd{k: opReg, i: r}
}

func (m *Machine) global(g *ssa.Global) Value {
	p, ok := m.globals[g]
	if !ok {
		var v Value = m.zero(g.Type().(*types.Pointer).Elem())
		p = &v
		m.globals[g] = p
	}
	if m.initDone[g.Pkg] != 2 {
		return lazyGlobal{g, p}
	}
	return p
}

// lazyGlobal is the address of a global of a package not yet initialised.
type lazyGlobal struct {
	g *ssa.Global
	p Ptr
}

func (m *Machine) initPkg(pkg *ssa.Package) {
	if pkg == nil || m.initDone[pkg] != 0 {
		return
	}
	m.initDone[pkg] = 1
	saved := *m
	m.trail = nil
	m.lits, m.facts, m.ivals = nil, map[int32]int8{}, map[int32]iv{}
	m.path, m.prefix = nil, nil
	var dummy []pending
	m.out = &dummy
	m.inInit++
	m.frozen, m.frozenMaps = nil, nil
	restore := func() {
		m.trail, m.lits, m.facts, m.ivals = saved.trail, saved.lits, saved.facts, saved.ivals
		m.path, m.prefix, m.out = saved.path, saved.prefix, saved.out
		m.inInit--
		m.frozen, m.frozenMaps = saved.frozen, saved.frozenMaps
		m.top, m.depth = saved.top, saved.depth
		m.steps = saved.steps
	}
	defer func() {
		restore()
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupportedErr:
				m.initDone[pkg] = 3
				m.prog.noteInitFail(pkg.Pkg.Path(), x.msg)
			case *targetPanic:
				m.initDone[pkg] = 3
				m.prog.noteInitFail(pkg.Pkg.Path(), "panic: "+x.rt)
			default:
				panic(r)
			}
		}
	}()
	if f := pkg.Func("init"); f != nil {
		m.callFn(nil, f, nil, nil)
	}
	m.initDone[pkg] = 2
}

func (m *Machine) resolveLazy(l lazyGlobal) Ptr {
	st := m.initDone[l.g.Pkg]
	if st == 0 {
		m.initPkg(l.g.Pkg)
		st = m.initDone[l.g.Pkg]
	}
	if st == 3 {
		if m.prog.initIgnore(l.g) {
			return l.p
		}
		panic(unsupported("global %s of package %s, whose initialisation is not modelled", l.g.Name(), l.g.Pkg.Pkg.Path()))
	}
	return l.p
}

func (m *Machine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	if w, _, ok := intInfo(t); ok {
		if w == 0 {
			return m.ctx.Bool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, exact := constant.Int64Val(v); exact {
			return m.ctx.Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return m.ctx.Const(w, u)
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return m.strVal(constant.StringVal(c.Value))
		}
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(c.Value)
		return Float{f}
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return Complex{}
	}
	panic(unsupported("constant %s of type %s", c, t))
}

// ---- frames ----

func (fr *Frame) get(m *Machine, o *opnd) Value {
	if o.k == opReg {
		return fr.regs[o.i]
	}
	if l, ok := o.v.(lazyGlobal); ok {
		p := m.resolveLazy(l)
		if m.initDone[l.g.Pkg] == 2 {
			o.v = p
		}
		return p
	}
	return o.v
}

const maxDepth = 2000

// callFn runs fn; recursion of the host mirrors recursion of the target.
func (m *Machine) callFn(caller *Frame, fn *ssa.Function, args []Value, free []Value) Value {
	c := m.codeOf(fn)
	if c.intr != nil {
		return c.intr(m, caller, fn, args)
	}
	return m.callBody(caller, c, fn, args, free)
}

func (m *Machine) callBody(caller *Frame, c *fnCode, fn *ssa.Function, args []Value, free []Value) Value {
	if fn.Blocks == nil {
		panic(unsupported("function %s has no body", fn))
	}
	if fn.Synthetic == "package initializer" && m.inInit == 0 {
		return nil
	}
	if fn.Synthetic == "package initializer" && m.initDone[fn.Pkg] != 1 {
		return nil // packages are initialised on demand
	}
	if len(free) == 0 && m.inInit == 0 && m.tryPure(fn, args) {
		if v, ok := m.summarize(fn, args); ok {
			return v
		}
	}
	if m.depth > maxDepth {
		m.end(OutLimit, "recursion deeper than %d", maxDepth)
	}
	m.depth++
	m.fnTouch[fn]++
	fr := &Frame{fn: fn, code: c, caller: caller, regs: make([]Value, c.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[c.free0:], free)
	old := m.top
	m.top = fr
	if c.defers {
		m.runWithDefers(fr)
	} else {
		m.run(fr)
	}
	m.top = old
	m.depth--
	return fr.result
}

func (m *Machine) runWithDefers(fr *Frame) {
	depth := m.depth
	defer func() {
		if !fr.panicking {
			return
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				m.top, m.depth = fr, depth
				fr.panicking, fr.panicVal = true, tp
			}
		}()
		m.run(fr)
	}()
	if !fr.panicking {
		return
	}
	m.runDefers(fr)
	if fr.panicking {
		panic(fr.panicVal)
	}
	// recovered
	if fr.fn.Recover != nil {
		fr.prev, fr.block = -1, fr.fn.Recover.Index
		m.run(fr)
	} else {
		fr.result = m.zeroResult(fr.fn)
	}
}

func (m *Machine) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(r.At(0).Type())
	}
	return m.zero(r)
}

func (m *Machine) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := m.depth
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					m.top, m.depth = fr, depth
					fr.panicking, fr.panicVal = true, tp
				}
			}()
			if d.bi != nil {
				m.builtin(fr, d.call, d.bi, d.args)
				return
			}
			m.callValue(fr, d.fn, d.args)
		}()
	}
}

func (m *Machine) callValue(fr *Frame, f Value, args []Value) Value {
	switch x := f.(type) {
	case *Closure:
		if x == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.callFn(fr, x.fn, args, x.bound)
	case *NativeFn:
		return x.f(m, args)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported("call of %T", f))
}

func (m *Machine) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	pkg := ""
	if meth.Pkg() != nil && !meth.Exported() {
		pkg = meth.Pkg().Path()
	}
	k := methodKey{t, meth.Name(), pkg}
	if f, ok := m.methods[k]; ok {
		return f
	}
	f := m.prog.lookupMethod(t, meth)
	m.methods[k] = f
	return f
}

func (m *Machine) run(fr *Frame) {
	for {
		bc := &fr.code.blocks[fr.block]
		if len(bc.phis) > 0 {
			pi := -1
			for i, p := range fr.fn.Blocks[fr.block].Preds {
				if p.Index == fr.prev {
					pi = i
					break
				}
			}
			if len(bc.phis) == 1 {
				fr.regs[bc.phis[0].dst] = fr.get(m, &bc.phis[0].edge[pi])
			} else {
				var tmp [32]Value
				vals := tmp[:0]
				for i := range bc.phis {
					vals = append(vals, fr.get(m, &bc.phis[i].edge[pi]))
				}
				for i := range bc.phis {
					fr.regs[bc.phis[i].dst] = vals[i]
				}
			}
		}
		m.steps += int64(len(bc.insts))
		if m.steps > m.maxSteps && m.inInit == 0 {
			m.end(OutLimit, "more than %d instructions on one path", m.maxSteps)
		}
		next := -1
		for i := range bc.insts {
			it := &bc.insts[i]
			fr.cur = it.in
			switch x := it.in.(type) {
			case *ssa.If:
				c := fr.get(m, &it.ops[0]).(*Expr)
				if m.branch(c) {
					next = fr.fn.Blocks[fr.block].Succs[0].Index
				} else {
					next = fr.fn.Blocks[fr.block].Succs[1].Index
				}
			case *ssa.Jump:
				next = fr.fn.Blocks[fr.block].Succs[0].Index
			case *ssa.Return:
				switch len(it.ops) {
				case 0:
				case 1:
					fr.result = load(fr.get(m, &it.ops[0]))
				default:
					t := make(Tuple, len(it.ops))
					for j := range it.ops {
						t[j] = load(fr.get(m, &it.ops[j]))
					}
					fr.result = t
				}
				return
			case *ssa.RunDefers:
				m.runDefers(fr)
				if fr.panicking {
					panic(fr.panicVal)
				}
			case *ssa.Panic:
				v := fr.get(m, &it.ops[0]).(Iface)
				panic(&targetPanic{v: v, rt: m.describePanic(v)})
			default:
				m.step(fr, it, x)
			}
		}
		if next < 0 {
			panic(unsupported("block without terminator in %s", fr.fn))
		}
		fr.prev, fr.block = fr.block, next
	}
}

func (m *Machine) describePanic(v Iface) string {
	if v.t == nil {
		return "panic(nil)"
	}
	switch x := v.v.(type) {
	case Str:
		if s, ok := concreteStr(x); ok {
			return s
		}
		return "string panic value"
	case *Expr:
		return v.t.String() + " " + x.String()
	}
	return v.t.String()
}

// ptr turns any pointer-like value into a concrete cell.
func (m *Machine) ptr(v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		return p
	case *SymPtr:
		i := m.concretize(p.idx)
		return &p.cells[i]
	case nil:
		return nil
	}
	panic(unsupported("pointer representation %T", v))
}

// SymPtr is the address of an element at a symbolic (in-range) index.
type SymPtr struct {
	cells []Value
	idx   *Expr
}

func (m *Machine) loadPtr(v Value) Value {
	switch p := v.(type) {
	case Ptr:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if m.frozen != nil {
			m.noteRead(p)
		}
		return load(*p)
	case *SymPtr:
		if m.frozen != nil {
			r := m.rng(p.idx)
			for i := r.lo; i <= r.hi && i < uint64(len(p.cells)); i++ {
				m.noteRead(&p.cells[i])
			}
		}
		if r, ok := m.selectCells(p.cells, p.idx); ok {
			return r
		}
		if r, ok := m.pickCell(p.cells, p.idx); ok {
			return r
		}
		return load(p.cells[m.concretize(p.idx)])
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported("load through %T", v))
}

// sameRef reports that two cells hold the same reference or text.
func sameRef(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case Slice:
		y, ok := b.(Slice)
		return ok && len(x) == len(y) && cap(x) == cap(y) && (x == nil) == (y == nil) && (cap(x) == 0 || sliceData(x) == sliceData(y))
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case Str:
		y, ok := b.(Str)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case *Map:
		y, ok := b.(*Map)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		return ok && (x.t == nil) == (y.t == nil) && (x.t == nil || types.Identical(x.t, y.t) && sameRef(x.v, y.v))
	}
	return false
}

// pickCell forks over the different references in the cells, of which there
// may be far fewer than cells.
func (m *Machine) pickCell(cells []Value, idx *Expr) (Value, bool) {
	r := m.rng(idx)
	lo, hi := r.lo, r.hi
	if hi >= uint64(len(cells)) {
		hi = uint64(len(cells)) - 1
	}
	if hi-lo > 4096 {
		return nil, false
	}
	type group struct {
		rep  Value
		n    int
		runs [][2]uint64
	}
	var gs []*group
	var last *group
	for i := lo; i <= hi; i++ {
		if last == nil || !sameRef(last.rep, cells[i]) {
			last = nil
			for _, g := range gs {
				if sameRef(g.rep, cells[i]) {
					last = g
					break
				}
			}
			if last == nil {
				if len(gs) >= 32 {
					return nil, false
				}
				last = &group{rep: cells[i]}
				gs = append(gs, last)
			}
			last.runs = append(last.runs, [2]uint64{i, i})
		}
		last.n++
		last.runs[len(last.runs)-1][1] = i
	}
	if uint64(len(gs)) > (hi-lo+1)/2 {
		return nil, false
	}
	sort.SliceStable(gs, func(i, j int) bool { return gs[i].n < gs[j].n })
	k := func(v uint64) *Expr { return m.ctx.Const(idx.w, v) }
	for _, g := range gs[:len(gs)-1] {
		in := m.ctx.F
		for _, r := range g.runs {
			c := m.ctx.Eq(idx, k(r[0]))
			if r[0] != r[1] {
				c = m.ctx.And(m.ctx.ULe(k(r[0]), idx), m.ctx.ULe(idx, k(r[1])))
			}
			in = m.ctx.Or(in, c)
		}
		if m.branch(in) {
			return load(g.rep), true
		}
	}
	return load(gs[len(gs)-1].rep), true
}

// selectCells builds an if-then-else tree over scalar cells.
func (m *Machine) selectCells(cells []Value, idx *Expr) (Value, bool) {
	r := m.rng(idx)
	lo, hi := r.lo, r.hi
	if hi >= uint64(len(cells)) {
		hi = uint64(len(cells)) - 1
	}
	if hi-lo > 4096 {
		return nil, false
	}
	var w uint8
	for i := lo; i <= hi; i++ {
		e, ok := cells[i].(*Expr)
		if !ok {
			return nil, false
		}
		w = e.w
	}
	_ = w
	var build func(a, b uint64) *Expr // [a,b]
	build = func(a, b uint64) *Expr {
		first := cells[a].(*Expr)
		same := true
		for i := a + 1; i <= b; i++ {
			if cells[i].(*Expr) != first {
				same = false
				break
			}
		}
		if same {
			return first
		}
		mid := (a + b + 1) / 2
		return m.ctx.Ite(m.ctx.ULt(idx, m.ctx.Const(idx.w, mid)), build(a, mid-1), build(mid, b))
	}
	return build(lo, hi), true
}

func (m *Machine) storePtr(p Value, v Value) {
	if s, ok := p.(*SymPtr); ok {
		if e, ok := v.(*Expr); ok && len(s.cells) <= 256 {
			for i := range s.cells {
				c, ok := s.cells[i].(*Expr)
				if !ok {
					panic(unsupported("symbolic store"))
				}
				hit := m.ctx.Eq(s.idx, m.ctx.Const(s.idx.w, uint64(i)))
				if k := m.known(hit); k == 0 {
					continue
				}
				m.store(&s.cells[i], m.ctx.Ite(hit, e, c))
			}
			return
		}
	}
	c := m.ptr(p)
	if c == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.store(c, v)
}

// boundIndex checks 0 <= idx < n and returns a 64-bit index term.
func (m *Machine) boundIndex(v Value, t types.Type, n int) *Expr {
	e := v.(*Expr)
	_, sg, _ := intInfo(t)
	if e.w < 64 {
		if sg {
			e = m.ctx.SExt(e, 64)
		} else {
			e = m.ctx.ZExt(e, 64)
		}
	}
	if e.isConst() {
		if e.c >= uint64(n) {
			m.rtPanic("index out of range [%d] with length %d", int64(e.c), n)
		}
		return e
	}
	if !m.branch(m.ctx.ULt(e, m.ctx.Const(64, uint64(n)))) {
		m.rtPanic("index out of range [symbolic] with length %d", n)
	}
	return e
}

func (m *Machine) step(fr *Frame, it *inst, in ssa.Instruction) {
	set := func(v Value) { fr.regs[it.dst] = v }
	arg := func(i int) Value { return fr.get(m, &it.ops[i]) }
	switch x := in.(type) {
	case *ssa.Alloc:
		var v Value = m.zero(x.Type().(*types.Pointer).Elem())
		set(Ptr(&v))
	case *ssa.BinOp:
		set(m.binop(x.Op, x.X.Type(), x.Y.Type(), arg(0), arg(1)))
	case *ssa.UnOp:
		set(m.unop(x, arg(0)))
	case *ssa.Call:
		set(m.doCall(fr, it, &x.Call))
	case *ssa.ChangeType:
		set(arg(0))
	case *ssa.Convert:
		set(m.convert(x.X.Type(), x.Type(), arg(0)))
	case *ssa.MultiConvert:
		set(m.convert(x.X.Type(), x.Type(), arg(0)))
	case *ssa.ChangeInterface:
		set(arg(0))
	case *ssa.MakeInterface:
		set(Iface{x.X.Type(), load(arg(0))})
	case *ssa.MakeClosure:
		var bound []Value
		for i := range x.Bindings {
			bound = append(bound, arg(i+1))
		}
		set(&Closure{fn: x.Fn.(*ssa.Function), bound: bound})
	case *ssa.MakeMap:
		m.nextMap++
		set(&Map{idx: map[string]int{}, id: m.nextMap})
	case *ssa.MakeChan:
		n := m.cint(arg(0))
		if n < 0 {
			m.rtPanic("makechan: size out of range")
		}
		m.nextMap++
		set(&Chan{cap: int(n), id: m.nextMap})
	case *ssa.MakeSlice:
		n := m.cint(arg(0))
		c := m.cint(arg(1))
		if n < 0 || n > 1<<40 {
			m.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<40 {
			m.rtPanic("makeslice: cap out of range")
		}
		if c > 4*maxLen {
			m.end(OutLimit, "a slice of capacity over %d", 4*maxLen)
		}
		s := make(Slice, c)
		et := under(x.Type()).(*types.Slice).Elem()
		z := m.zero(et)
		for i := range s {
			s[i] = load(z)
		}
		set(s[:n])
	case *ssa.Slice:
		set(m.sliceOp(x, arg(0), argOr(fr, m, it, 1), argOr(fr, m, it, 2), argOr(fr, m, it, 3)))
	case *ssa.FieldAddr:
		p := m.ptr(arg(0))
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if !ok {
			panic(unsupported("field address of %T", *p))
		}
		set(Ptr(&s[x.Field]))
	case *ssa.Field:
		set(load(arg(0).(Struct)[x.Field]))
	case *ssa.IndexAddr:
		var cells []Value
		switch b := arg(0).(type) {
		case Slice:
			cells = b
		default:
			p := m.ptr(b)
			if p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			cells = (*p).(Array)
		}
		e := m.boundIndex(arg(1), x.Index.Type(), len(cells))
		if e.isConst() {
			set(Ptr(&cells[e.c]))
		} else {
			set(&SymPtr{cells, e})
		}
	case *ssa.Index:
		switch b := arg(0).(type) {
		case Array:
			e := m.boundIndex(arg(1), x.Index.Type(), len(b))
			set(m.loadPtrAt(b, e))
		case Str:
			set(m.strIndex(b, m.boundIndex(arg(1), x.Index.Type(), len(b.b))))
		default:
			panic(unsupported("index of %T", b))
		}
	case *ssa.Lookup:
		switch b := arg(0).(type) {
		case Str:
			set(m.strIndex(b, m.boundIndex(arg(1), x.Index.Type(), len(b.b))))
		case *Map:
			mt := under(x.X.Type()).(*types.Map)
			v, ok := m.mapLookup(mt, b, arg(1))
			if x.CommaOk {
				set(Tuple{v, ok})
			} else {
				set(v)
			}
		default:
			panic(unsupported("lookup in %T", b))
		}
	case *ssa.MapUpdate:
		mt := under(x.Map.Type()).(*types.Map)
		m.mapUpdate(mt, arg(0).(*Map), load(arg(1)), load(arg(2)))
	case *ssa.Range:
		switch b := arg(0).(type) {
		case Str:
			set(&StrIter{s: b})
		case *Map:
			set(m.mapRange(fr, b))
		default:
			panic(unsupported("range over %T", b))
		}
	case *ssa.Next:
		switch b := arg(0).(type) {
		case *StrIter:
			if b.pos >= len(b.s.b) {
				set(Tuple{m.ctx.F, m.ctx.Const(64, 0), m.ctx.Const(32, 0)})
				break
			}
			r, n := m.decodeRune(b.s.b[b.pos:])
			set(Tuple{m.ctx.T, m.ctx.Const(64, uint64(b.pos)), r})
			b.pos += n
		case *MapIter:
			for b.pos < len(b.order) && b.order[b.pos].dead {
				b.pos++
			}
			if b.pos >= len(b.order) {
				tt := x.Type().(*types.Tuple)
				set(Tuple{m.ctx.F, m.zeroOr(tt.At(1).Type()), m.zeroOr(tt.At(2).Type())})
				break
			}
			e := b.order[b.pos]
			b.pos++
			set(Tuple{m.ctx.T, load(e.k), load(e.v)})
		default:
			panic(unsupported("next of %T", b))
		}
	case *ssa.TypeAssert:
		set(m.typeAssert(x, arg(0).(Iface)))
	case *ssa.Extract:
		set(arg(0).(Tuple)[x.Index])
	case *ssa.Store:
		m.storePtr(arg(0), arg(1))
	case *ssa.Defer:
		fr.defers = append(fr.defers, m.prepDefer(fr, it, &x.Call))
	case *ssa.SliceToArrayPointer:
		at := under(x.Type().(*types.Pointer).Elem()).(*types.Array)
		s := arg(0).(Slice)
		if int64(len(s)) < at.Len() {
			m.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", len(s), at.Len())
		}
		panic(unsupported("slice to array pointer"))
	case *ssa.Go:
		m.spawn(m.prepDefer(fr, it, &x.Call))
	case *ssa.Send:
		m.send(fr, arg(0), arg(1))
	case *ssa.Select:
		set(m.selectStmt(fr, x, arg))
	default:
		panic(unsupported("instruction %T", in))
	}
}

func (m *Machine) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return m.zero(t)
}

func argOr(fr *Frame, m *Machine, it *inst, i int) Value {
	if i < len(it.ops) {
		return fr.get(m, &it.ops[i])
	}
	return nil
}

func (m *Machine) loadPtrAt(cells []Value, e *Expr) Value {
	if e.isConst() {
		return load(cells[e.c])
	}
	return m.loadPtr(&SymPtr{cells, e})
}

func (m *Machine) strIndex(s Str, e *Expr) Value {
	if e.isConst() {
		return s.b[e.c]
	}
	cells := make([]Value, len(s.b))
	for i, b := range s.b {
		cells[i] = b
	}
	return m.loadPtr(&SymPtr{cells, e})
}

func (m *Machine) prepDefer(fr *Frame, it *inst, c *ssa.CallCommon) deferred {
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		d := deferred{call: c, bi: bi}
		for i := range c.Args {
			d.args = append(d.args, fr.get(m, &it.ops[i+1]))
		}
		return d
	}
	f, args := m.prepCall(fr, it, c)
	return deferred{fn: f, args: args, call: c}
}

func (m *Machine) prepCall(fr *Frame, it *inst, c *ssa.CallCommon) (Value, []Value) {
	v := fr.get(m, &it.ops[0])
	if c.IsInvoke() {
		ifc, ok := v.(Iface)
		if !ok || ifc.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		args := make([]Value, 0, len(c.Args)+1)
		args = append(args, ifc.v)
		for i := range c.Args {
			args = append(args, load(fr.get(m, &it.ops[i+1])))
		}
		if h, ok := ifc.v.(*HostObj); ok {
			return &NativeFn{name: h.kind + "." + c.Method.Name(), f: h.method(m, c.Method.Name())}, args
		}
		f := m.lookupMethod(ifc.t, c.Method)
		if f == nil {
			panic(unsupported("method %s of %s", c.Method.Name(), ifc.t))
		}
		return &Closure{fn: f}, args
	}
	args := make([]Value, len(c.Args))
	for i := range c.Args {
		args[i] = load(fr.get(m, &it.ops[i+1]))
	}
	return v, args
}

func (m *Machine) doCall(fr *Frame, it *inst, c *ssa.CallCommon) Value {
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(c.Args))
		for i := range c.Args {
			args[i] = fr.get(m, &it.ops[i+1])
		}
		return m.builtin(fr, c, bi, args)
	}
	f, args := m.prepCall(fr, it, c)
	return m.callValue(fr, f, args)
}

// HostObj is an interface value implemented by the engine.
type HostObj struct {
	kind string
	fns  map[string]func(m *Machine, args []Value) Value
}

func (h *HostObj) method(m *Machine, name string) func(*Machine, []Value) Value {
	f := h.fns[name]
	if f == nil {
		panic(unsupported("host method %s.%s", h.kind, name))
	}
	return f
}

func (m *Machine) typeAssert(x *ssa.TypeAssert, v Iface) Value {
	ok := false
	var res Value
	if v.t != nil {
		if it, isI := under(x.AssertedType).(*types.Interface); isI {
			if m.implements(v.t, it) {
				ok, res = true, v
			}
		} else if types.Identical(v.t, x.AssertedType) {
			ok, res = true, load(v.v)
		}
	}
	if !ok {
		if !x.CommaOk {
			m.rtPanic("interface conversion: interface is %v, not %v", v.t, x.AssertedType)
		}
		res = m.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{res, m.ctx.Bool(ok)}
	}
	return res
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := m.implC[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	m.implC[k] = v
	return v
}

func (m *Machine) sliceOp(x *ssa.Slice, v, lo, hi, max Value) Value {
	idx := func(v Value, t types.Type) (int64, bool) {
		if v == nil {
			return 0, false
		}
		e := v.(*Expr)
		_, sg, _ := intInfo(t)
		u := m.concretize(e)
		if sg {
			return signed(u, e.w), true
		}
		return int64(u), true
	}
	// bounds that may be out of range are decided by the panic condition
	// first, so that a huge symbolic bound does not enumerate
	limit := func(v Value, n int) {
		if v == nil {
			return
		}
		e := v.(*Expr)
		if e.isConst() {
			return
		}
		if !m.branch(m.ctx.ULe(e, m.ctx.Const(e.w, uint64(n)))) {
			m.rtPanic("slice bounds out of range [symbolic] with limit %d", n)
		}
	}
	tl := func(e ssa.Value) types.Type {
		if e == nil {
			return nil
		}
		return e.Type()
	}
	switch b := v.(type) {
	case Str:
		limit(lo, len(b.b))
		limit(hi, len(b.b))
		l, _ := idx(lo, tl(x.Low))
		h, ok := idx(hi, tl(x.High))
		if !ok {
			h = int64(len(b.b))
		}
		if h < 0 || h > int64(len(b.b)) {
			m.rtPanic("slice bounds out of range [:%d] with length %d", h, len(b.b))
		}
		if l < 0 || l > h {
			m.rtPanic("slice bounds out of range [%d:%d]", l, h)
		}
		return Str{b.b[l:h:h]}
	default:
		var s Slice
		switch bb := b.(type) {
		case Slice:
			s = bb
		default:
			p := m.ptr(b)
			if p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			s = Slice((*p).(Array))
		}
		limit(lo, cap(s))
		limit(hi, cap(s))
		limit(max, cap(s))
		l, _ := idx(lo, tl(x.Low))
		h, ok := idx(hi, tl(x.High))
		if !ok {
			h = int64(len(s))
		}
		mx, okM := idx(max, tl(x.Max))
		if !okM {
			mx = int64(cap(s))
		}
		if mx < 0 || mx > int64(cap(s)) {
			m.rtPanic("slice bounds out of range [::%d] with capacity %d", mx, cap(s))
		}
		if h < 0 || h > mx {
			m.rtPanic("slice bounds out of range [:%d] with capacity %d", h, cap(s))
		}
		if l < 0 || l > h {
			m.rtPanic("slice bounds out of range [%d:%d]", l, h)
		}
		if s == nil {
			return Slice(nil)
		}
		return s[l:h:mx]
	}
}

// retyped is what a pointer converted by way of unsafe.Pointer reads: a string
// out of a slice of bytes, or the reverse.
func (m *Machine) retyped(t types.Type, v Value) Value {
	switch d := v.(type) {
	case Slice:
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			out := make([]*Expr, len(d))
			for i := range d {
				e, ok := d[i].(*Expr)
				if !ok || e.w != 8 {
					panic(unsupported("string over a slice of other values"))
				}
				out[i] = e
			}
			return Str{out}
		}
	case Str:
		if _, ok := under(t).(*types.Slice); ok {
			out := make(Slice, len(d.b))
			for i, e := range d.b {
				out[i] = e
			}
			return out
		}
	}
	return v
}

func (m *Machine) unop(x *ssa.UnOp, v Value) Value {
	switch x.Op {
	case token.ARROW:
		r, ok := m.recv(m.top, v, under(x.X.Type()).(*types.Chan).Elem())
		if x.CommaOk {
			return Tuple{r, ok}
		}
		return r
	case token.MUL:
		return m.retyped(x.Type(), m.loadPtr(v))
	case token.NOT:
		return m.ctx.Not(v.(*Expr))
	case token.SUB:
		switch e := v.(type) {
		case *Expr:
			return m.ctx.Bin(OSub, m.ctx.Const(e.w, 0), e)
		case Float:
			return Float{-e.f}
		case FracF:
			return FracF{e.u, -e.scale, -e.off}
		}
	case token.XOR:
		e := v.(*Expr)
		return m.ctx.Bin(OBXor, e, m.ctx.Const(e.w, mask(e.w)))
	}
	panic(unsupported("unary %s", x.Op))
}
