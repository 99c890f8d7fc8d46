package main

// The harness interface (package zzsym) as seen by the engine, and the
// environment stubs: files and JSON decoding.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type VFile struct {
	data []*Expr
	doc  *jsonDoc
	dir  bool // reading it fails
}

type openFile struct {
	f   *VFile
	pos int
}

// input creates a recorded symbolic input.
func (m *Machine) input(kind string, w uint8) *Expr {
	v := m.newVar(w)
	m.inputs = append(m.inputs, Input{kind, v})
	return v
}

// rangeVar is a 64-bit input in [lo,hi].
func (m *Machine) between(e *Expr, lo, hi uint64) {
	c := m.ctx
	m.assume(c.And(c.ULe(c.Const(e.w, lo), e), c.ULe(e, c.Const(e.w, hi))))
}

const symPkg = "/zzsym"

func symIntrinsic(m *Machine, fn *ssa.Function) intrinsic {
	if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), symPkg) {
		return nil
	}
	switch fn.Name() {
	case "Int":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			lo, hi := m.cint(a[0]), m.cint(a[1])
			v := m.input("int", 64)
			m.assume(m.ctx.And(m.ctx.SLe(m.ctx.Const(64, uint64(lo)), v), m.ctx.SLe(v, m.ctx.Const(64, uint64(hi)))))
			return v
		}
	case "Byte":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.input("byte", 8) }
	case "Bool":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			v := m.input("bool", 8)
			return m.ctx.Eq(m.ctx.Bin(OBAnd, v, m.ctx.Const(8, 1)), m.ctx.Const(8, 1))
		}
	case "Choose":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			n := int(m.cint(a[0]))
			i := m.choose(n)
			e := m.i64(i)
			m.inputs = append(m.inputs, Input{"choose", e})
			return e
		}
	case "RuneW":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			return m.runeOfWidth(int(m.cint(a[0])))
		}
	case "RuneIn":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			lo, hi := uint64(m.cint(a[0])), uint64(m.cint(a[1]))
			v := m.input("rune", 32)
			m.between(v, lo, hi)
			return v
		}
	case "AnyRune":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			v := m.input("rune", 32)
			c := m.ctx
			m.between(v, 0, 0x10ffff)
			m.assume(c.Not(c.And(c.ULe(c.Const(32, 0xd800), v), c.ULe(v, c.Const(32, 0xdfff)))))
			return v
		}
	case "Text":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			// n runes, each of a width chosen in 1..maxWidth
			n, maxw := int(m.cint(a[0])), int(m.cint(a[1]))
			var b []*Expr
			for i := 0; i < n; i++ {
				w := m.choose(maxw)
				m.inputs = append(m.inputs, Input{"choose", m.i64(w)})
				r := m.runeOfWidth(w + 1)
				b = append(b, m.encodeAs(r, w+1)...)
			}
			return Str{b}
		}
	case "Bytes":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			n := int(m.cint(a[0]))
			b := make([]*Expr, n)
			for i := range b {
				b[i] = m.input("byte", 8)
			}
			return Str{b}
		}
	case "Assume":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.assume(a[0].(*Expr))
			return nil
		}
	case "Assert":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.assert(a[0].(*Expr), m.mustStr(a[1], "assertion message"))
			return nil
		}
	case "Branch":
		// decide a condition now (forks); helps to split before a loop
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			return m.ctx.Bool(m.branch(a[0].(*Expr)))
		}
	case "Known":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.h.noteKnown(m.mustStr(a[0], "known-finding label"))
			return nil
		}
	case "Observe":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			o := Obs{label: m.mustStr(a[0], "label")}
			for _, v := range a[1].(Slice) {
				o.vals = append(o.vals, snapshot(v, 0))
			}
			m.obs = append(m.obs, o)
			return nil
		}
	case "Reach":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.h.noteReach(m.mustStr(a[0], "label"))
			return nil
		}
	case "Pred":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			r := m.uf("pred:"+m.mustStr(a[0], "name"), "bool", 8, a[1].(*Expr))
			return m.ctx.Eq(m.ctx.Bin(OBAnd, r, m.ctx.Const(8, 1)), m.ctx.Const(8, 1))
		}
	case "RuneFn":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			name := "fn:" + m.mustStr(a[0], "name")
			n := len(m.ufCalls[name])
			r := m.uf(name, "rune", 32, a[1].(*Expr))
			if len(m.ufCalls[name]) > n {
				c := m.ctx
				m.between(r, 0, 0x10ffff)
				m.assume(c.Not(c.And(c.ULe(c.Const(32, 0xd800), r), c.ULe(r, c.Const(32, 0xdfff)))))
			}
			return r
		}
	case "Quick":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			return m.ctx.Bool(m.h.quick)
		}
	case "Freeze":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			what := m.mustStr(a[0], "label")
			for _, v := range a[1].(Slice) {
				m.freeze(v.(Iface).v, what, 0)
			}
			return nil
		}
	case "Par":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.freezeGlobals()
			m.callValue(fr, a[0], nil)
			m.frozen, m.frozenMaps = nil, nil
			m.looseReads, m.lockedWrites = nil, nil
			return nil
		}
	case "File":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			return m.addFile(&VFile{data: str(a[0]).b})
		}
	case "VocabFile":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			d := &jsonDoc{}
			for _, t := range a[0].(Slice) {
				d.terms = append(d.terms, t.(Str))
			}
			for _, t := range a[1].(Slice) {
				d.ids = append(d.ids, t.(*Expr))
			}
			return m.addFile(&VFile{data: m.strVal("{\"symbolic\":0}").b, doc: d})
		}
	case "Cleanup", "init":
		return nil
	}
	return nil
}

func (m *Machine) addFile(f *VFile) Value {
	name := fmt.Sprintf("/zzvfs/%d", len(m.vfs))
	m.vfs[name] = f
	return m.strVal(name)
}

func (m *Machine) runeOfWidth(w int) *Expr {
	v := m.input("rune", 32)
	c := m.ctx
	switch w {
	case 1:
		m.between(v, 0, 0x7f)
	case 2:
		m.between(v, 0x80, 0x7ff)
	case 3:
		m.between(v, 0x800, 0xffff)
		m.assume(c.Not(c.And(c.ULe(c.Const(32, 0xd800), v), c.ULe(v, c.Const(32, 0xdfff)))))
	case 4:
		m.between(v, 0x10000, 0x10ffff)
	default:
		panic(unsupported("rune width %d", w))
	}
	m.encodeAs(v, w)
	return v
}

// uf applies an uninterpreted function, keeping it functional.
func (m *Machine) uf(name, kind string, w uint8, arg *Expr) *Expr {
	c := m.ctx
	for _, p := range m.ufCalls[name] {
		if m.known(c.Eq(p.args[0], arg)) == 1 {
			m.inputs = append(m.inputs, Input{"drawn", m.i64(0)})
			return p.res
		}
	}
	m.inputs = append(m.inputs, Input{"drawn", m.i64(1)})
	v := m.input(kind, w)
	for _, p := range m.ufCalls[name] {
		same := c.Eq(p.args[0], arg)
		if same.isFalse() {
			continue
		}
		m.assume(c.Or(c.Not(same), c.Eq(p.res, v)))
	}
	m.ufCalls[name] = append(m.ufCalls[name], ufCall{[]*Expr{arg}, v})
	return v
}

// snapshot copies a value graph for later evaluation.
func snapshot(v Value, d int) Value {
	if d > 12 {
		return nil
	}
	switch x := v.(type) {
	case Iface:
		return Iface{x.t, snapshot(x.v, d+1)}
	case Struct:
		y := make(Struct, len(x))
		for i := range x {
			y[i] = snapshot(x[i], d+1)
		}
		return y
	case Array:
		y := make(Array, len(x))
		for i := range x {
			y[i] = snapshot(x[i], d+1)
		}
		return y
	case Slice:
		if x == nil {
			return Slice(nil)
		}
		y := make(Slice, len(x))
		for i := range x {
			y[i] = snapshot(x[i], d+1)
		}
		return y
	case Ptr:
		if x == nil {
			return x
		}
		w := snapshot(*x, d+1)
		return Ptr(&w)
	}
	return v
}

// render prints an observed value under a model, in the format of the native
// side (zzsym.render).
func (m *Machine) render(t types.Type, v Value, mod []uint64, sb *strings.Builder) {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			sb.WriteString("nil")
			return
		}
		m.render(x.t, x.v, mod, sb)
	case *Expr:
		u := m.ctx.Eval(x, mod)
		w, sg, _ := intInfo(t)
		switch {
		case w == 0:
			sb.WriteString(strconv.FormatBool(u == 1))
		case sg:
			sb.WriteString(strconv.FormatInt(signed(u, w), 10))
		default:
			sb.WriteString(strconv.FormatUint(u, 10))
		}
	case Str:
		b := make([]byte, len(x.b))
		for i, e := range x.b {
			b[i] = byte(m.ctx.Eval(e, mod))
		}
		sb.WriteString(fmt.Sprintf("%x", b))
		sb.WriteString("'")
	case Slice:
		et := under(t).(*types.Slice).Elem()
		sb.WriteString("[")
		for i := range x {
			if i > 0 {
				sb.WriteString(" ")
			}
			m.render(et, x[i], mod, sb)
		}
		sb.WriteString("]")
	case Array:
		et := under(t).(*types.Array).Elem()
		sb.WriteString("[")
		for i := range x {
			if i > 0 {
				sb.WriteString(" ")
			}
			m.render(et, x[i], mod, sb)
		}
		sb.WriteString("]")
	case Struct:
		st := under(t).(*types.Struct)
		sb.WriteString("{")
		for i := range x {
			if i > 0 {
				sb.WriteString(" ")
			}
			m.render(st.Field(i).Type(), x[i], mod, sb)
		}
		sb.WriteString("}")
	case Ptr:
		if x == nil {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("&")
		m.render(under(t).(*types.Pointer).Elem(), *x, mod, sb)
	case nil:
		sb.WriteString("nil")
	default:
		sb.WriteString(fmt.Sprintf("?%T", v))
	}
}

func (m *Machine) renderObs(mod []uint64) []string {
	m.ctx.NewEval()
	var out []string
	for _, o := range m.obs {
		var sb strings.Builder
		sb.WriteString(o.label)
		for _, v := range o.vals {
			sb.WriteString("|")
			m.render(nil, v, mod, &sb)
		}
		out = append(out, sb.String())
	}
	m.ctx.NewEval()
	return out
}

// ---- files ----

func (m *Machine) lookupFile(v Value) *VFile {
	s, ok := concreteStr(str(v))
	if !ok {
		panic(unsupported("symbolic file name"))
	}
	if s == "/" {
		return &VFile{dir: true}
	}
	return m.vfs[s]
}

func (m *Machine) bytesSlice(b []*Expr) Slice {
	s := make(Slice, len(b))
	for i := range b {
		s[i] = b[i]
	}
	return s
}

func initFileIntrinsics(reg func(f intrinsic, names ...string)) {
	isDir := func(m *Machine) Value { return m.mkError(m.strVal("read: is a directory")) }
	notExist := func(m *Machine) Value { return m.mkError(m.strVal("open: no such file or directory")) }
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := m.lookupFile(a[0])
		if f == nil {
			return Tuple{Ptr(nil), notExist(m)}
		}
		var cell Value = Struct{nil}
		p := Ptr(&cell)
		m.open[p] = &openFile{f: f}
		return Tuple{p, Iface{}}
	}, "os.Open")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := m.lookupFile(a[0])
		if f == nil {
			return Tuple{Slice(nil), notExist(m)}
		}
		if f.dir {
			return Tuple{Slice(nil), isDir(m)}
		}
		s := m.bytesSlice(f.data)
		if f.doc != nil {
			m.docs[&s[0]] = f.doc
		}
		return Tuple{s, Iface{}}
	}, "os.ReadFile", "io/ioutil.ReadFile")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		r := a[0].(Iface)
		p, ok := r.v.(Ptr)
		of := m.open[p]
		if !ok || of == nil {
			return m.runBody(fr, fn, a)
		}
		if of.f.dir {
			return Tuple{Slice{}, isDir(m)}
		}
		s := m.bytesSlice(of.f.data[of.pos:])
		if of.f.doc != nil && of.pos == 0 {
			m.docs[&s[0]] = of.f.doc
		}
		of.pos = len(of.f.data)
		return Tuple{s, Iface{}}
	}, "io.ReadAll", "io/ioutil.ReadAll")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		of := m.open[m.ptr(a[0])]
		if of == nil {
			return Tuple{m.i64(0), m.mkError(m.strVal("invalid argument"))}
		}
		dst := a[1].(Slice)
		if len(dst) == 0 {
			return Tuple{m.i64(0), Iface{}}
		}
		if of.f.dir {
			return Tuple{m.i64(0), isDir(m)}
		}
		rest := of.f.data[of.pos:]
		if len(rest) == 0 {
			return Tuple{m.i64(0), m.ioEOF()}
		}
		n := len(dst)
		if len(rest) < n {
			n = len(rest)
		}
		for i := 0; i < n; i++ {
			m.store(&dst[i], rest[i])
		}
		of.pos += n
		return Tuple{m.i64(n), Iface{}}
	}, "(*os.File).Read")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := m.ptr(a[0])
		if p == nil || m.open[p] == nil {
			return m.mkError(m.strVal("invalid argument"))
		}
		delete(m.open, p)
		return Iface{}
	}, "(*os.File).Close")
	initJSON(reg)
}

func (m *Machine) ioEOF() Value {
	for _, p := range m.prog.ssa.AllPackages() {
		if p.Pkg.Path() == "io" {
			g := p.Var("EOF")
			v := m.global(g)
			if l, ok := v.(lazyGlobal); ok {
				v = m.resolveLazy(l)
			}
			return *v.(Ptr)
		}
	}
	panic(unsupported("io.EOF"))
}

func (m *Machine) runBody(fr *Frame, fn *ssa.Function, a []Value) Value {
	c := m.codeOf(fn)
	if c.blocks == nil && fn.Blocks != nil {
		m.compile(c)
	}
	return m.callBody(fr, c, fn, a, nil)
}

// freezeGlobals freezes the package variables of the code under test.
func (m *Machine) freezeGlobals() {
	for _, p := range m.prog.repoPkgs {
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok && g.Name() != "init$guard" {
				v := m.global(g)
				if l, ok := v.(lazyGlobal); ok {
					v = m.resolveLazy(l)
				}
				m.freeze(v, "package variable "+p.Pkg.Path()+"."+g.Name(), 0)
			}
		}
	}
}
