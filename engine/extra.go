package main

// Library functions and statements that the code under test does not use
// today, so that changes which bring them in are still decided.

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Chan is a channel; sends beyond its capacity wait in it.
type Chan struct {
	buf    []Value
	cap    int
	closed bool
	id     int
}

// spawned is a goroutine that has not run yet.  It runs to completion when
// the spawning one waits: one of the schedules.
type spawned struct {
	fn   Value
	bi   *ssa.Builtin
	call *ssa.CallCommon
	args []Value
}

func (m *Machine) spawn(d deferred) {
	old := m.ready
	m.ready = append(old[:len(old):len(old)], spawned{d.fn, d.bi, d.call, d.args})
	m.onUndo(func() { m.ready = old })
}

// runReady runs the goroutine spawned first, if there is one.
func (m *Machine) runReady(fr *Frame) bool {
	if len(m.ready) == 0 {
		return false
	}
	old := m.ready
	g := old[0]
	m.ready = old[1:]
	m.onUndo(func() { m.ready = old })
	l, r, q := m.lockDepth, m.readLocks, m.quiet
	m.lockDepth, m.readLocks, m.quiet = 0, 0, 0
	if g.bi != nil {
		m.builtin(fr, g.call, g.bi, g.args)
	} else {
		m.callValue(fr, g.fn, g.args)
	}
	m.lockDepth, m.readLocks, m.quiet = l, r, q
	return true
}

func (m *Machine) setChan(c *Chan, buf []Value, closed bool) {
	ob, oc := c.buf, c.closed
	c.buf, c.closed = buf, closed
	m.onUndo(func() { c.buf, c.closed = ob, oc })
}

func (m *Machine) chanOf(v Value) *Chan {
	c, ok := v.(*Chan)
	if !ok || c == nil {
		panic(unsupported("operation on a nil channel"))
	}
	return c
}

func (m *Machine) send(fr *Frame, v, x Value) {
	c := m.chanOf(v)
	if c.closed {
		m.rtPanic("send on closed channel")
	}
	m.setChan(c, append(c.buf[:len(c.buf):len(c.buf)], load(x)), false)
}

func (m *Machine) recv(fr *Frame, v Value, et types.Type) (Value, *Expr) {
	c := m.chanOf(v)
	for len(c.buf) == 0 && !c.closed {
		if !m.runReady(fr) {
			panic(unsupported("receiving where no goroutine is ready"))
		}
	}
	if len(c.buf) == 0 {
		return m.zero(et), m.ctx.F
	}
	x := c.buf[0]
	m.setChan(c, c.buf[1:], c.closed)
	return x, m.ctx.T
}

func (m *Machine) selectStmt(fr *Frame, x *ssa.Select, arg func(int) Value) Value {
	for {
		for i, st := range x.States {
			cv := arg(2 * i)
			if c, ok := cv.(*Chan); !ok || c == nil {
				continue
			}
			c := cv.(*Chan)
			if st.Dir == types.RecvOnly && len(c.buf) == 0 && !c.closed {
				continue
			}
			if st.Dir == types.SendOnly && !c.closed && c.cap > 0 && len(c.buf) >= c.cap {
				continue
			}
			out := Tuple{m.i64(i), m.ctx.F}
			if st.Dir == types.SendOnly {
				m.send(fr, c, arg(2*i+1))
			}
			for j, s := range x.States {
				if s.Dir != types.RecvOnly {
					continue
				}
				et := under(s.Chan.Type()).(*types.Chan).Elem()
				if j == i {
					v, ok := m.recv(fr, c, et)
					out = append(out, v)
					out[1] = ok
				} else {
					out = append(out, m.zero(et))
				}
			}
			return out
		}
		if !x.Blocking {
			out := Tuple{m.ctx.Const(64, ^uint64(0)), m.ctx.F}
			for _, s := range x.States {
				if s.Dir == types.RecvOnly {
					out = append(out, m.zero(under(s.Chan.Type()).(*types.Chan).Elem()))
				}
			}
			return out
		}
		if !m.runReady(fr) {
			panic(unsupported("selecting where no goroutine is ready"))
		}
	}
}

// unwrapped gives the errors that e wraps.
func (m *Machine) unwrapped(fr *Frame, e Iface) []Iface {
	if e.t == nil {
		return nil
	}
	f := m.prog.lookupMethodName(e.t, "Unwrap")
	if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
		return nil
	}
	switch r := m.callFn(fr, f, []Value{e.v}, nil).(type) {
	case Iface:
		return []Iface{r}
	case Slice:
		var out []Iface
		for _, x := range r {
			if i, ok := x.(Iface); ok {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

func (m *Machine) errorsIs(fr *Frame, e, t Iface) bool {
	if e.t == nil || t.t == nil {
		return e.t == nil && t.t == nil
	}
	if types.Identical(e.t, t.t) && types.Comparable(e.t) && m.branch(m.equals(e.v, t.v)) {
		return true
	}
	if f := m.prog.lookupMethodName(e.t, "Is"); f != nil && f.Signature.Params().Len() == 1 && f.Signature.Results().Len() == 1 {
		if r, ok := m.callFn(fr, f, []Value{e.v, t}, nil).(*Expr); ok && m.branch(r) {
			return true
		}
	}
	for _, u := range m.unwrapped(fr, e) {
		if u.t != nil && m.errorsIs(fr, u, t) {
			return true
		}
	}
	return false
}

func (m *Machine) errorsAs(fr *Frame, e Iface, dst Ptr, t types.Type) bool {
	if e.t == nil {
		return false
	}
	if it, ok := under(t).(*types.Interface); ok {
		if m.implements(e.t, it) {
			m.store(dst, e)
			return true
		}
	} else if types.Identical(e.t, t) {
		m.store(dst, e.v)
		return true
	}
	if m.prog.lookupMethodName(e.t, "As") != nil {
		panic(unsupported("errors.As with a method As"))
	}
	for _, u := range m.unwrapped(fr, e) {
		if m.errorsAs(fr, u, dst, t) {
			return true
		}
	}
	return false
}

// hostStr is the concrete text of s, by forking over its bytes.
func (m *Machine) hostStr(s Str) string {
	b := make([]byte, len(s.b))
	for i, e := range s.b {
		b[i] = byte(m.concretize(e))
	}
	return string(b)
}

// formatAny prints composite values as %v (and %+v) do.
func (m *Machine) formatAny(fr *Frame, t types.Type, v Value, verb byte, flags string, exact bool, depth int) string {
	if depth > 0 && (verb == 'v' || verb == 's') && (types.Implements(t, m.prog.errorIface) || types.Implements(t, m.prog.stringerIface)) {
		return m.hostStr(m.formatVal(fr, verb, flags, Iface{t, v}, exact))
	}
	many := func(n int, at func(int) string) string {
		var p []string
		for i := 0; i < n; i++ {
			p = append(p, at(i))
		}
		return strings.Join(p, " ")
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if s, ok := v.(Str); ok {
			return fmt.Sprintf("%"+flags+string(verb), m.hostStr(s))
		}
		return m.hostStr(m.formatVal(fr, verb, flags, Iface{t, v}, exact))
	case *types.Slice:
		s := v.(Slice)
		return "[" + many(len(s), func(i int) string { return m.formatAny(fr, u.Elem(), s[i], verb, flags, exact, depth+1) }) + "]"
	case *types.Array:
		s := v.(Array)
		return "[" + many(len(s), func(i int) string { return m.formatAny(fr, u.Elem(), s[i], verb, flags, exact, depth+1) }) + "]"
	case *types.Struct:
		s := v.(Struct)
		return "{" + many(len(s), func(i int) string {
			n := ""
			if strings.Contains(flags, "+") {
				n = u.Field(i).Name() + ":"
			}
			return n + m.formatAny(fr, u.Field(i).Type(), s[i], verb, flags, exact, depth+1)
		}) + "}"
	case *types.Interface:
		i, _ := v.(Iface)
		if i.t == nil {
			return "<nil>"
		}
		return m.formatAny(fr, i.t, i.v, verb, flags, exact, depth+1)
	case *types.Pointer:
		p, ok := v.(Ptr)
		if ok && p == nil {
			return "<nil>"
		}
		if ok && depth == 0 {
			switch under(u.Elem()).(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return "&" + m.formatAny(fr, u.Elem(), *p, verb, flags, exact, depth+1)
			}
		}
	case *types.Map:
		mp, _ := v.(*Map)
		if mp == nil {
			return "map[]"
		}
		type kv struct {
			k string
			n int64
			v string
		}
		var l []kv
		_, _, isInt := intInfo(u.Key())
		for _, e := range mp.entries {
			if e.dead {
				continue
			}
			x := kv{k: m.formatAny(fr, u.Key(), e.k, verb, flags, exact, depth+1), v: m.formatAny(fr, u.Elem(), e.v, verb, flags, exact, depth+1)}
			if isInt {
				fmt.Sscan(x.k, &x.n)
			}
			l = append(l, x)
		}
		sort.SliceStable(l, func(i, j int) bool {
			if isInt {
				return l[i].n < l[j].n
			}
			return l[i].k < l[j].k
		})
		return "map[" + many(len(l), func(i int) string { return l[i].k + ":" + l[i].v }) + "]"
	}
	if !exact {
		return "?"
	}
	panic(unsupported("formatting %s with %%%c", t, verb))
}

// sprint formats as fmt.Sprint, or fmt.Sprintln, does.
func (m *Machine) sprint(fr *Frame, args Slice, ln bool) Str {
	var b []*Expr
	for i, v := range args {
		s := m.formatVal(fr, 'v', "", v.(Iface), true)
		if i > 0 {
			// Sprint adds spaces between operands when neither is a string
			_, x := v.(Iface).v.(Str)
			_, y := args[i-1].(Iface).v.(Str)
			if ln || !x && !y {
				b = append(b, m.ctx.bytes[' '])
			}
		}
		b = append(b, s.b...)
	}
	if ln {
		b = append(b, m.ctx.bytes['\n'])
	}
	return Str{b}
}

// write gives text to an io.Writer; files swallow it.
func (m *Machine) write(fr *Frame, w Iface, s Str) Value {
	if w.t != nil && w.t.String() != "*os.File" {
		f := m.prog.lookupMethodName(w.t, "Write")
		if f == nil {
			panic(unsupported("writing to %s", w.t))
		}
		return m.callFn(fr, f, []Value{w.v, m.bytesSlice(s.b)}, nil)
	}
	return Tuple{m.i64(len(s.b)), Iface{}}
}

func initExtra(reg func(f intrinsic, names ...string)) {
	nop := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.zeroResult(fn) }

	// formatting
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.sprint(fr, a[0].(Slice), false)
	}, "fmt.Sprint")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.sprint(fr, a[0].(Slice), true)
	}, "fmt.Sprintln")
	reg(nop, "fmt.Println", "fmt.Printf", "fmt.Print", "log.Printf", "log.Println", "log.Print")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if w := a[0].(Iface); w.t != nil && w.t.String() == "*os.File" {
			return m.zeroResult(fn)
		}
		s, _ := m.format(fr, str(a[1]), a[2].(Slice), true)
		return m.write(fr, a[0].(Iface), s)
	}, "fmt.Fprintf")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if w := a[0].(Iface); w.t != nil && w.t.String() == "*os.File" {
			return m.zeroResult(fn)
		}
		return m.write(fr, a[0].(Iface), m.sprint(fr, a[1].(Slice), fn.Name() == "Fprintln"))
	}, "fmt.Fprint", "fmt.Fprintln")

	// errors
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.ctx.Bool(m.errorsIs(fr, a[0].(Iface), a[1].(Iface)))
	}, "errors.Is")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := a[1].(Iface)
		if t.t == nil {
			m.rtPanic("errors: target cannot be nil")
		}
		pt, ok := under(t.t).(*types.Pointer)
		p, ok2 := t.v.(Ptr)
		if !ok || !ok2 || p == nil {
			m.rtPanic("errors: target must be a non-nil pointer")
		}
		return m.ctx.Bool(m.errorsAs(fr, a[0].(Iface), p, pt.Elem()))
	}, "errors.As")

	// floating-point numbers are concrete
	one := func(name string, f func(float64) float64) {
		reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			x, ok := a[0].(Float)
			if !ok {
				panic(unsupported("math.%s of a random draw", name))
			}
			return Float{f(x.f)}
		}, "math."+name)
	}
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round, "Abs": math.Abs, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Log1p": math.Log1p, "Exp": math.Exp, "sqrt": math.Sqrt, "RoundToEven": math.RoundToEven} {
		one(n, f)
	}
	two := func(name string, f func(a, b float64) float64) {
		reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			x, ok := a[0].(Float)
			y, ok2 := a[1].(Float)
			if !ok || !ok2 {
				panic(unsupported("math.%s of a random draw", name))
			}
			return Float{f(x.f, y.f)}
		}, "math."+name)
	}
	for n, f := range map[string]func(a, b float64) float64{"Pow": math.Pow, "Mod": math.Mod, "Max": math.Max, "Min": math.Min, "Hypot": math.Hypot} {
		two(n, f)
	}
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.ctx.Bool(math.IsNaN(a[0].(Float).f))
	}, "math.IsNaN")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.ctx.Bool(math.IsInf(a[0].(Float).f, int(m.cint(a[1]))))
	}, "math.IsInf")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return Float{math.Inf(int(m.cint(a[0])))}
	}, "math.Inf")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return Float{math.NaN()} }, "math.NaN")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.ctx.Const(64, math.Float64bits(a[0].(Float).f))
	}, "math.Float64bits")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return Float{math.Float64frombits(m.concretize(a[0].(*Expr)))}
	}, "math.Float64frombits")

	// other draws
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return newFrac(m.input("rand", 16))
	}, "math/rand.Float32")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.noteWrite(m.ptr(a[0]))
		return newFrac(m.input("rand", 16))
	}, "(*math/rand.Rand).Float32")
	intn := func(m *Machine, n Value) Value {
		e := n.(*Expr)
		w := e.w
		k := int64(m.concretize(e))
		if w == 32 {
			k = int64(int32(k))
		}
		if k <= 0 {
			m.rtPanic("invalid argument to Intn")
		}
		if k > 1<<30 {
			panic(unsupported("draw below %d", k))
		}
		u := m.ctx.ZExt(m.input("rand", 16), 64)
		r := m.ctx.Bin(OLShr, m.ctx.Bin(OMul, u, m.ctx.Const(64, uint64(k))), m.ctx.Const(64, 16))
		if w < 64 {
			return m.ctx.Trunc(r, w)
		}
		return r
	}
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return intn(m, a[0]) }, "math/rand.Intn", "math/rand.Int31n", "math/rand.Int63n")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.noteWrite(m.ptr(a[0]))
		return intn(m, a[1])
	}, "(*math/rand.Rand).Intn", "(*math/rand.Rand).Int31n", "(*math/rand.Rand).Int63n")

	// waiting for goroutines
	reg(nop, "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "runtime.Gosched", "time.Sleep")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		for m.runReady(fr) {
		}
		return nil
	}, "(*sync.WaitGroup).Wait")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.spawn(deferred{fn: a[1]})
		return nil
	}, "(*sync.WaitGroup).Go")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.i64(8) }, "runtime.NumCPU", "runtime.GOMAXPROCS")
	// the clock stands still
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{m.i64(1700000000), m.ctx.Const(32, 0), m.i64(1000000)}
	}, "time.runtimeNow", "time.now")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.i64(1000000) }, "time.runtimeNano")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.ctx.F }, "time.runtimeIsBubbled")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f, ok := a[0].(Float)
		if !ok {
			panic(unsupported("formatting a symbolic number"))
		}
		return m.strVal(strconv.FormatFloat(f.f, byte(m.cint(a[1])), int(m.cint(a[2])), int(m.cint(a[3]))))
	}, "strconv.FormatFloat")

	// timers never fire, as the clock stands still
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		v := m.zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		v.(Struct)[1] = m.ctx.T // made by this function
		return Ptr(&v)
	}, "time.newTimer")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.ctx.T }, "time.stopTimer", "time.resetTimer")
	reg(nop, "time.syncTimer")
	// conditions: what else there is to run runs while one is waited for
	reg(nop, "(*sync.Cond).Signal", "(*sync.Cond).Broadcast")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if !m.runReady(fr) {
			panic(unsupported("waiting for a condition for ever"))
		}
		return nil
	}, "(*sync.Cond).Wait")
	// hashes of a random seed: any hash will do (FNV-1a here)
	fnv := func(m *Machine, b []*Expr, seed Value) Value {
		h := m.ctx.Bin(OBXor, seed.(*Expr), m.ctx.Const(64, 14695981039346656037))
		for _, x := range b {
			h = m.ctx.Bin(OMul, m.ctx.Bin(OBXor, h, m.ctx.ZExt(x, 64)), m.ctx.Const(64, 1099511628211))
		}
		return h
	}
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		var b []*Expr
		for _, v := range a[0].(Slice) {
			b = append(b, v.(*Expr))
		}
		return fnv(m, b, a[1])
	}, "hash/maphash.rthash")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return fnv(m, a[0].(Str).b, a[1])
	}, "hash/maphash.rthashString")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.ctx.Const(64, 0x9e3779b97f4a7c15) }, "hash/maphash.runtime_rand")

	// values and pointers replaced atomically
	field := func(m *Machine, a Value) Ptr {
		s, ok := (*m.ptr(a)).(Struct)
		if !ok {
			panic(unsupported("atomic value of %T", *m.ptr(a)))
		}
		return &s[len(s)-1]
	}
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.quiet++
		v := m.loadPtr(field(m, a[0]))
		m.quiet--
		return v
	}, "(*sync/atomic.Value).Load")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		x := a[1].(Iface)
		f := field(m, a[0])
		if x.t == nil {
			m.rtPanic("sync/atomic: store of nil value into Value")
		}
		if o, _ := (*f).(Iface); o.t != nil && !types.Identical(o.t, x.t) {
			m.rtPanic("sync/atomic: store of inconsistently typed value into Value")
		}
		m.quiet++
		m.storePtr(f, a[1])
		m.quiet--
		return nil
	}, "(*sync/atomic.Value).Store")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := field(m, a[0])
		m.quiet++
		v := m.loadPtr(f)
		m.storePtr(f, a[1])
		m.quiet--
		return v
	}, "(*sync/atomic.Value).Swap")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := field(m, a[0])
		m.quiet++
		defer func() { m.quiet-- }()
		if m.branch(m.equals(m.loadPtr(f), a[1])) {
			m.storePtr(f, a[2])
			return m.ctx.T
		}
		return m.ctx.F
	}, "(*sync/atomic.Value).CompareAndSwap")
}
