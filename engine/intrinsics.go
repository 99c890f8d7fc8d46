package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, fr *Frame, fn *ssa.Function, args []Value) Value

var intrinsics map[string]intrinsic

func (m *Machine) findIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if i := symIntrinsic(m, fn); i != nil {
		return i
	}
	return nil
}

func (m *Machine) mkError(msg Str) Value {
	var v Value = Struct{msg}
	return Iface{t: m.prog.errorStringPtr, v: Ptr(&v)}
}

func (m *Machine) nilErr() Value { return Iface{} }

func str(v Value) Str { return v.(Str) }

func (m *Machine) mustStr(v Value, what string) string {
	s, ok := concreteStr(str(v))
	if !ok {
		panic(unsupported("symbolic %s", what))
	}
	return s
}

func (m *Machine) i64(n int) *Expr { return m.ctx.Const(64, uint64(n)) }

func bytesOf(v Value) []*Expr {
	switch x := v.(type) {
	case Str:
		return x.b
	case Slice:
		b := make([]*Expr, len(x))
		for i := range x {
			b[i] = x[i].(*Expr)
		}
		return b
	}
	panic(unsupported("bytes of %T", v))
}

// headOf and tailOf are bytesOf for the first and last n bytes.
func headOf(v Value, n int) []*Expr {
	if x, ok := v.(Slice); ok && len(x) > n {
		v = x[:n]
	}
	return bytesOf(v)
}

func tailOf(v Value, n int) []*Expr {
	if x, ok := v.(Slice); ok && len(x) > n {
		v = x[len(x)-n:]
	}
	return bytesOf(v)
}

// byteLen and byteAt look at a string or slice without converting it.
func byteLen(v Value) int {
	if x, ok := v.(Slice); ok {
		return len(x)
	}
	return len(bytesOf(v))
}

func byteAt(v Value, i int) *Expr {
	if x, ok := v.(Slice); ok {
		return x[i].(*Expr)
	}
	return v.(Str).b[i]
}

// indexOf: first position at which sub occurs in s, by forking.
func (m *Machine) indexOf(s Value, sub []*Expr) int {
	n := byteLen(s)
	for i := 0; i+len(sub) <= n; i++ {
		eq := m.ctx.T
		for k, b := range sub {
			if eq = m.ctx.And(eq, m.ctx.Eq(byteAt(s, i+k), b)); eq == m.ctx.F {
				break
			}
		}
		if m.branch(eq) {
			return i
		}
	}
	return -1
}

func init() {
	intrinsics = map[string]intrinsic{}
	reg := func(f intrinsic, names ...string) {
		for _, n := range names {
			intrinsics[n] = f
		}
	}

	// int has no fixed size, so nothing is written (regexp2 relies on this)
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if x, ok := a[2].(Iface); ok && x.t != nil {
			if b, ok := x.t.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Uint) {
				return m.mkError(m.strVal("binary.Write: some values are not fixed-sized in type " + b.Name()))
			}
		}
		panic(unsupported("encoding/binary.Write"))
	}, "encoding/binary.Write")
	nop := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.zeroResult(fn) }

	// unicode
	up := func(name string, f func(rune) bool) {
		reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			return m.runePred(name, f, a[0].(*Expr))
		}, "unicode."+name)
	}
	up("IsSpace", unicode.IsSpace)
	up("IsUpper", unicode.IsUpper)
	up("IsLower", unicode.IsLower)
	up("IsTitle", unicode.IsTitle)
	up("IsLetter", unicode.IsLetter)
	up("IsDigit", unicode.IsDigit)
	up("IsNumber", unicode.IsNumber)
	up("IsPunct", unicode.IsPunct)
	up("IsControl", unicode.IsControl)
	up("IsGraphic", unicode.IsGraphic)
	up("IsPrint", unicode.IsPrint)
	up("IsSymbol", unicode.IsSymbol)
	up("IsMark", unicode.IsMark)
	um := func(name string, f func(rune) rune) {
		reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			return m.runeMap(name, f, a[0].(*Expr))
		}, "unicode."+name)
	}
	um("ToLower", unicode.ToLower)
	um("ToUpper", unicode.ToUpper)
	um("ToTitle", unicode.ToTitle)
	um("SimpleFold", unicode.SimpleFold)
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.unicodeIs(a[0], a[1].(*Expr))
	}, "unicode.Is", "unicode.isExcludingLatin")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		r := m.ctx.F
		for _, t := range a[1].(Slice) {
			r = m.ctx.Or(r, m.unicodeIs(t, a[0].(*Expr)))
		}
		return r
	}, "unicode.In")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		r := m.ctx.F
		for _, t := range a[0].(Slice) {
			r = m.ctx.Or(r, m.unicodeIs(t, a[1].(*Expr)))
		}
		return r
	}, "unicode.IsOneOf")

	// utf8
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		r, n := m.decodeRune(headOf(a[0], 4))
		return Tuple{r, m.i64(n)}
	}, "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune", "unicode/utf8.decodeRuneInStringSlow", "unicode/utf8.decodeRuneSlow")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		r, n := m.decodeLastRune(tailOf(a[0], 4))
		return Tuple{r, m.i64(n)}
	}, "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeLastRune")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := bytesOf(a[0])
		n := 0
		for p := 0; p < len(b); n++ {
			_, k := m.decodeRune(b[p:])
			p += k
		}
		return m.i64(n)
	}, "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := bytesOf(a[0])
		for p := 0; p < len(b); {
			r, k := m.decodeRune(b[p:])
			if k == 1 && r.isConst() && r.c == utf8.RuneError {
				return m.ctx.F
			}
			p += k
		}
		return m.ctx.T
	}, "unicode/utf8.ValidString", "unicode/utf8.Valid")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		r := a[0].(*Expr)
		c := m.ctx
		k := func(v uint64) *Expr { return c.Const(32, v) }
		sur := c.And(c.ULe(k(0xd800), r), c.ULe(r, k(0xdfff)))
		return c.Ite(c.ULt(r, k(0x80)), m.i64(1), c.Ite(c.ULt(r, k(0x800)), m.i64(2),
			c.Ite(c.Or(sur, c.ULt(k(0x10ffff), r)), m.ctx.Const(64, ^uint64(0)), c.Ite(c.ULt(r, k(0x10000)), m.i64(3), m.i64(4)))))
	}, "unicode/utf8.RuneLen")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		bs := m.encodeRune(a[1].(*Expr))
		vals := make([]Value, len(bs))
		for i := range bs {
			vals[i] = bs[i]
		}
		return m.appendSlice(types.Typ[types.Uint8], a[0].(Slice), vals)
	}, "unicode/utf8.AppendRune", "unicode/utf8.appendRuneNonASCII")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		bs := m.encodeRune(a[1].(*Expr))
		dst := a[0].(Slice)
		if len(dst) < len(bs) {
			m.rtPanic("index out of range [%d] with length %d", len(bs)-1, len(dst))
		}
		for i := range bs {
			m.store(&dst[i], bs[i])
		}
		return m.i64(len(bs))
	}, "unicode/utf8.EncodeRune", "unicode/utf8.encodeRuneNonASCII")

	// byte search
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.i64(m.indexOf(a[0], []*Expr{a[1].(*Expr)}))
	}, "internal/bytealg.IndexByteString", "internal/bytealg.IndexByte", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.i64(m.indexOf(a[0], bytesOf(a[1])))
	}, "strings.Index", "bytes.Index", "internal/bytealg.IndexString", "internal/bytealg.Index", "internal/stringslite.Index")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		for i := byteLen(a[0]) - 1; i >= 0; i-- {
			if m.branch(m.ctx.Eq(byteAt(a[0], i), a[1].(*Expr))) {
				return m.i64(i)
			}
		}
		return m.i64(-1)
	}, "internal/bytealg.LastIndexByteString", "internal/bytealg.LastIndexByte", "strings.LastIndexByte")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := m.i64(0)
		for _, b := range bytesOf(a[0]) {
			n = m.ctx.Bin(OAdd, n, m.ctx.Ite(m.ctx.Eq(b, a[1].(*Expr)), m.i64(1), m.i64(0)))
		}
		return m.i64(int(m.concretize(n)))
	}, "internal/bytealg.CountString", "internal/bytealg.Count")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := Str{bytesOf(a[0])}, Str{bytesOf(a[1])}
		return m.strEq(x, y)
	}, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := Str{bytesOf(a[0])}, Str{bytesOf(a[1])}
		return m.ctx.Ite(m.strEq(x, y), m.i64(0), m.ctx.Ite(m.strLess(x, y, false), m.i64(-1), m.i64(1)))
	}, "strings.Compare", "bytes.Compare", "internal/bytealg.Compare", "internal/bytealg.CompareString")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := int(m.cint(a[0]))
		s := make(Slice, n)
		for i := range s {
			s[i] = m.ctx.bytes[0]
		}
		return s
	}, "internal/bytealg.MakeNoZero")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := str(a[0])
		return Str{append([]*Expr(nil), s.b...)}
	}, "strings.Clone", "internal/stringslite.Clone")

	// strings.Builder
	reg(nop, "(*strings.Builder).copyCheck")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return a[0] },
		"internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape")

	// errors and formatting
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, _ := m.format(fr, str(a[0]), a[1].(Slice), true)
		return s
	}, "fmt.Sprintf")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, wrapped := m.format(fr, str(a[0]), a[1].(Slice), false)
		if wrapped.t != nil {
			var v Value = Struct{s, wrapped}
			return Iface{t: m.prog.wrapErrorPtr, v: Ptr(&v)}
		}
		return m.mkError(s)
	}, "fmt.Errorf")
	// random numbers: an arbitrary draw in [0,1) with 16 fractional bits
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return newFrac(m.input("rand", 16))
	}, "math/rand.Float64", "math/rand/v2.Float64")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.noteWrite(m.ptr(a[0])) // a source of its own is not synchronised
		return newFrac(m.input("rand", 16))
	}, "(*math/rand.Rand).Float64")
	reg(nop, "math/rand.Seed")

	// synchronisation: sequential semantics, lock depth for frame conditions
	lock := func(d int) intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.lockDepth += d
			return m.zeroResult(fn)
		}
	}
	reg(lock(1), "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(lock(-1), "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	rlock := func(d int) intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.readLocks += d
			return nil
		}
	}
	reg(rlock(1), "(*sync.RWMutex).RLock")
	reg(rlock(-1), "(*sync.RWMutex).RUnlock")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.lockDepth++
		return m.ctx.T
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		// sync.Once: run at most once, keyed by address through the trail
		p := m.ptr(a[0])
		if m.onceDone[p] {
			return nil
		}
		m.onceDone[p] = true
		if m.inInit == 0 {
			m.onUndo(func() { delete(m.onceDone, p) })
		}
		m.quiet++
		m.callValue(fr, a[1], nil)
		m.quiet--
		return nil
	}, "(*sync.Once).Do")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := m.ptr(a[0])
		if l := m.pools[p]; len(l) > 0 {
			v := l[len(l)-1]
			m.pools[p] = l[:len(l)-1]
			m.onUndo(func() { m.pools[p] = l })
			return v
		}
		s := (*p).(Struct)
		nf := s[len(s)-1]
		if c, ok := nf.(*Closure); ok && c != nil {
			return m.callValue(fr, c, nil)
		}
		return Iface{}
	}, "(*sync.Pool).Get")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := m.ptr(a[0])
		if m.pools == nil {
			m.pools = map[Ptr][]Value{}
		}
		l := m.pools[p]
		m.pools[p] = append(l[:len(l):len(l)], a[1])
		m.onUndo(func() { m.pools[p] = l })
		return nil
	}, "(*sync.Pool).Put")

	// concurrent maps: ordinary ones, whose accesses are ordered
	anyMap := types.NewMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil))
	smap := func(f func(m *Machine, fr *Frame, mp *Map, a []Value) Value) intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			p := m.ptr(a[0])
			mp := m.syncMaps[p]
			if mp == nil {
				if m.syncMaps == nil {
					m.syncMaps = map[Ptr]*Map{}
				}
				m.nextMap++
				mp = &Map{idx: map[string]int{}, id: m.nextMap}
				m.syncMaps[p] = mp
				m.onUndo(func() { delete(m.syncMaps, p) })
			}
			return f(m, fr, mp, a[1:])
		}
	}
	reg(smap(func(m *Machine, fr *Frame, mp *Map, a []Value) Value {
		v, ok := m.mapLookup(anyMap, mp, a[0])
		return Tuple{v, ok}
	}), "(*sync.Map).Load")
	reg(smap(func(m *Machine, fr *Frame, mp *Map, a []Value) Value {
		m.mapUpdate(anyMap, mp, a[0], a[1])
		return nil
	}), "(*sync.Map).Store")
	reg(smap(func(m *Machine, fr *Frame, mp *Map, a []Value) Value {
		v, ok := m.mapLookup(anyMap, mp, a[0])
		if m.branch(ok) {
			return Tuple{v, m.ctx.T}
		}
		m.mapUpdate(anyMap, mp, a[0], a[1])
		return Tuple{a[1], m.ctx.F}
	}), "(*sync.Map).LoadOrStore")
	reg(smap(func(m *Machine, fr *Frame, mp *Map, a []Value) Value {
		v, ok := m.mapLookup(anyMap, mp, a[0])
		m.mapDelete(mp, a[0])
		return Tuple{v, ok}
	}), "(*sync.Map).LoadAndDelete")
	reg(smap(func(m *Machine, fr *Frame, mp *Map, a []Value) Value {
		m.mapDelete(mp, a[0])
		return nil
	}), "(*sync.Map).Delete")
	reg(smap(func(m *Machine, fr *Frame, mp *Map, a []Value) Value {
		for _, e := range append([]*MapEntry(nil), mp.entries...) {
			if !e.dead && !m.branch(m.callValue(fr, a[0], []Value{load(e.k), load(e.v)}).(*Expr)) {
				break
			}
		}
		return nil
	}), "(*sync.Map).Range")
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.quiet++
			v := m.loadPtr(a[0])
			m.quiet--
			return v
		}, "sync/atomic.Load"+w, "internal/runtime/atomic.Load"+w)
		reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.quiet++
			m.storePtr(a[0], a[1])
			m.quiet--
			return nil
		}, "sync/atomic.Store"+w)
		reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.quiet++
			v := m.ctx.Bin(OAdd, m.loadPtr(a[0]).(*Expr), a[1].(*Expr))
			m.storePtr(a[0], v)
			m.quiet--
			return v
		}, "sync/atomic.Add"+w)
		reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.quiet++
			defer func() { m.quiet-- }()
			if m.branch(m.equals(m.loadPtr(a[0]), a[1])) {
				m.storePtr(a[0], a[2])
				return m.ctx.T
			}
			return m.ctx.F
		}, "sync/atomic.CompareAndSwap"+w)
		reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.quiet++
			old := m.loadPtr(a[0])
			m.storePtr(a[0], a[1])
			m.quiet--
			return old
		}, "sync/atomic.Swap"+w)
	}

	// misc runtime
	reg(nop, "runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/godebug.New", "(*internal/godebug.Setting).IncNonDefault", "internal/godebug.setUpdate", "internal/godebug.registerMetric")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return Str{} }, "(*internal/godebug.Setting).Value", "os.Getenv")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.reflectSwapper(a[0].(Iface))
	}, "internal/reflectlite.Swapper", "reflect.Swapper")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		x := a[0].(Iface)
		n := len(x.v.(Slice))
		t := m.reflectSwapper(x)
		_ = t
		return m.i64(n)
	}, "internal/reflectlite.lenOf")
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			x := a[0].(Iface).v.(Slice)
			sw := m.reflectSwapper(a[0].(Iface))
			// insertion sort: stable, one of the orders sort.Slice may produce
			for i := 1; i < len(x); i++ {
				for j := i; j > 0; j-- {
					lt := m.callValue(fr, a[1], []Value{m.i64(j), m.i64(j - 1)}).(*Expr)
					if !m.branch(lt) {
						break
					}
					sw.f(m, []Value{m.i64(j), m.i64(j - 1)})
				}
			}
			return nil
		}, n)
	}
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.deepEqual(a[0], a[1], 0)
	}, "reflect.DeepEqual")

	// bits
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		e := a[0].(*Expr)
		u := m.concretize(e)
		n := 0
		for ; u != 0; u >>= 1 {
			n++
		}
		return m.i64(n)
	}, "math/bits.Len64", "math/bits.Len32", "math/bits.Len", "math/bits.Len8", "math/bits.Len16")

	initFileIntrinsics(reg)
	initExtra(reg)
}

func (m *Machine) reflectSwapper(x Iface) *NativeFn {
	s, ok := x.v.(Slice)
	if !ok {
		panic(unsupported("swapper of %T", x.v))
	}
	return &NativeFn{name: "swapper", f: func(m *Machine, a []Value) Value {
		i, j := m.cint(a[0]), m.cint(a[1])
		vi, vj := load(s[i]), load(s[j])
		m.store(&s[i], vj)
		m.store(&s[j], vi)
		return nil
	}}
}

func (m *Machine) deepEqual(x, y Value, d int) *Expr {
	c := m.ctx
	if d > 60 {
		panic(unsupported("deep comparison too deep"))
	}
	switch a := x.(type) {
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return c.F
		}
		return m.deepEqual(a.v, b.v, d+1)
	case Slice:
		b := y.(Slice)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return c.F
		}
		r := c.T
		for i := range a {
			r = c.And(r, m.deepEqual(a[i], b[i], d+1))
		}
		return r
	case Struct:
		b := y.(Struct)
		r := c.T
		for i := range a {
			r = c.And(r, m.deepEqual(a[i], b[i], d+1))
		}
		return r
	case Array:
		b := y.(Array)
		r := c.T
		for i := range a {
			r = c.And(r, m.deepEqual(a[i], b[i], d+1))
		}
		return r
	case Ptr:
		b, ok := y.(Ptr)
		if !ok {
			return m.equals(x, y)
		}
		if a == b {
			return c.T
		}
		if a == nil || b == nil {
			return c.F
		}
		return m.deepEqual(*a, *b, d+1)
	case *Map:
		b := y.(*Map)
		if a == b {
			return c.T
		}
		if a == nil || b == nil || a.n != b.n {
			return c.F
		}
		if a.nsym > 0 || b.nsym > 0 {
			panic(unsupported("deep comparison of maps with symbolic keys"))
		}
		r := c.T
		for _, e := range a.entries {
			if e.dead {
				continue
			}
			ks, _ := keyString(e.k)
			i, ok := b.idx[ks]
			if !ok {
				return c.F
			}
			r = c.And(r, m.deepEqual(e.v, b.entries[i].v, d+1))
		}
		return r
	}
	return m.equals(x, y)
}

// format implements the verbs the code under test uses.  exact is false for
// error texts, whose numbers may stay symbolic.
func (m *Machine) format(fr *Frame, f Str, args []Value, exact bool) (Str, Iface) {
	var out []*Expr
	var wrapped Iface
	fs, ok := concreteStr(f)
	if !ok {
		panic(unsupported("symbolic format string"))
	}
	ai := 0
	for i := 0; i < len(fs); i++ {
		ch := fs[i]
		if ch != '%' {
			out = append(out, m.ctx.bytes[ch])
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			break
		}
		flags := fs[i+1 : j]
		verb := fs[j]
		i = j
		if verb == '%' {
			out = append(out, m.ctx.bytes['%'])
			continue
		}
		if ai >= len(args) {
			out = append(out, m.strVal("%!"+string(verb)+"(MISSING)").b...)
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == 'w' {
			wrapped = a
			verb = 'v'
		}
		out = append(out, m.formatVal(fr, verb, flags, a, exact).b...)
	}
	return Str{out}, wrapped
}

func (m *Machine) formatVal(fr *Frame, verb byte, flags string, a Iface, exact bool) Str {
	if a.t == nil {
		return m.strVal("<nil>")
	}
	if verb == 'v' || verb == 's' {
		if types.Implements(a.t, m.prog.errorIface) {
			f := m.prog.lookupMethodName(a.t, "Error")
			if f != nil {
				return m.callFn(fr, f, []Value{a.v}, nil).(Str)
			}
		}
		if types.Implements(a.t, m.prog.stringerIface) {
			f := m.prog.lookupMethodName(a.t, "String")
			if f != nil {
				return m.callFn(fr, f, []Value{a.v}, nil).(Str)
			}
		}
	}
	if verb == 'T' {
		return m.strVal(types.TypeString(a.t, func(p *types.Package) string { return p.Name() }))
	}
	switch x := a.v.(type) {
	case Str:
		if flags == "" && (verb == 's' || verb == 'v') {
			return x
		}
		if s, ok := concreteStr(x); ok {
			return m.strVal(fmt.Sprintf("%"+flags+string(verb), s))
		}
		if !exact {
			return m.strVal("?")
		}
	case *Expr:
		w, sg, _ := intInfo(a.t)
		if !x.isConst() && !exact {
			return m.strVal("?")
		}
		u := m.concretize(x)
		f := "%" + flags + string(verb)
		switch {
		case w == 0:
			return m.strVal(fmt.Sprintf(f, u == 1))
		case sg && w == 32:
			return m.strVal(fmt.Sprintf(f, int32(signed(u, w))))
		case sg:
			return m.strVal(fmt.Sprintf(f, signed(u, w)))
		}
		return m.strVal(fmt.Sprintf(f, u))
	case Float:
		return m.strVal(fmt.Sprintf("%"+flags+string(verb), x.f))
	}
	if !exact {
		return m.strVal("?")
	}
	if s, ok := a.v.(Str); ok {
		return m.strVal(fmt.Sprintf("%"+flags+string(verb), m.hostStr(s)))
	}
	return m.strVal(m.formatAny(fr, a.t, a.v, verb, flags, exact, 0))
}
