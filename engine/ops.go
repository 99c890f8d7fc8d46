package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return m.equals(x, y)
	case token.NEQ:
		return m.ctx.Not(m.equals(x, y))
	}
	switch a := x.(type) {
	case *Expr:
		b := y.(*Expr)
		c := m.ctx
		w, sg, _ := intInfo(xt)
		switch op {
		case token.ADD:
			return c.Bin(OAdd, a, b)
		case token.SUB:
			return c.Bin(OSub, a, b)
		case token.MUL:
			return c.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if b.isConst() {
				if b.c == 0 {
					m.rtPanic("integer divide by zero")
				}
			} else if m.branch(c.Eq(b, c.Const(w, 0))) {
				m.rtPanic("integer divide by zero")
			}
			o := OUDiv
			switch {
			case sg && op == token.QUO:
				o = OSDiv
			case sg:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			if sg {
				half := uint64(1) << (w - 1)
				if m.rng(a).hi < half && m.rng(b).hi < half {
					if op == token.QUO {
						o = OUDiv
					} else {
						o = OURem
					}
				}
			}
			return c.Bin(o, a, b)
		case token.AND:
			if w == 0 {
				return c.And(a, b)
			}
			return c.Bin(OBAnd, a, b)
		case token.OR:
			if w == 0 {
				return c.Or(a, b)
			}
			return c.Bin(OBOr, a, b)
		case token.XOR:
			return c.Bin(OBXor, a, b)
		case token.AND_NOT:
			return c.Bin(OBAnd, a, c.Bin(OBXor, b, c.Const(w, mask(w))))
		case token.SHL, token.SHR:
			o := OShl
			if op == token.SHR {
				o = OLShr
				if sg {
					o = OAShr
				}
			}
			wy, sy, _ := intInfo(yt)
			if sy {
				if b.isConst() {
					if signed(b.c, wy) < 0 {
						m.rtPanic("negative shift amount")
					}
				} else if m.branch(c.SLt(b, c.Const(wy, 0))) {
					m.rtPanic("negative shift amount")
				}
			}
			if b.isConst() {
				k := b.c
				if k >= uint64(w) {
					if o == OAShr {
						k = uint64(w) - 1
					} else {
						return c.Const(w, 0)
					}
				}
				return c.Bin(o, a, c.Const(w, k))
			}
			if wy <= w {
				return c.Bin(o, a, c.ZExt(b, w))
			}
			big := c.ULe(c.Const(wy, uint64(w)), b)
			var over *Expr
			if o == OAShr {
				over = c.Bin(OAShr, a, c.Const(w, uint64(w)-1))
			} else {
				over = c.Const(w, 0)
			}
			return c.Ite(big, over, c.Bin(o, a, c.Trunc(b, w)))
		case token.LSS:
			if sg {
				return c.SLt(a, b)
			}
			return c.ULt(a, b)
		case token.GTR:
			if sg {
				return c.SLt(b, a)
			}
			return c.ULt(b, a)
		case token.LEQ:
			if sg {
				return c.SLe(a, b)
			}
			return c.ULe(a, b)
		case token.GEQ:
			if sg {
				return c.SLe(b, a)
			}
			return c.ULe(b, a)
		}
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			if len(a.b) == 0 {
				return b
			}
			if len(b.b) == 0 {
				return a
			}
			if len(a.b)+len(b.b) > 4*maxLen {
				m.end(OutLimit, "a string longer than %d", 4*maxLen)
			}
			m.steps += int64(len(a.b)+len(b.b)) / 64
			r := make([]*Expr, 0, len(a.b)+len(b.b))
			r = append(r, a.b...)
			r = append(r, b.b...)
			return Str{r}
		case token.LSS:
			return m.strLess(a, b, false)
		case token.LEQ:
			return m.strLess(a, b, true)
		case token.GTR:
			return m.strLess(b, a, false)
		case token.GEQ:
			return m.strLess(b, a, true)
		}
	case Float:
		b, ok := y.(Float)
		if !ok {
			if f, ok := y.(FracF); ok {
				switch op {
				case token.ADD:
					return FracF{f.u, f.scale, f.off + a.f}
				case token.SUB:
					return FracF{f.u, -f.scale, a.f - f.off}
				case token.MUL:
					return FracF{f.u, f.scale * a.f, f.off * a.f}
				}
				return m.fracCmp(f, a.f, flip(op))
			}
			break
		}
		f32 := false
		if bt, ok := under(xt).(*types.Basic); ok && bt.Kind() == types.Float32 {
			f32 = true
		}
		r := func(f float64) Value {
			if f32 {
				f = float64(float32(f))
			}
			return Float{f}
		}
		switch op {
		case token.ADD:
			return r(a.f + b.f)
		case token.SUB:
			return r(a.f - b.f)
		case token.MUL:
			return r(a.f * b.f)
		case token.QUO:
			return r(a.f / b.f)
		case token.LSS:
			return m.ctx.Bool(a.f < b.f)
		case token.LEQ:
			return m.ctx.Bool(a.f <= b.f)
		case token.GTR:
			return m.ctx.Bool(a.f > b.f)
		case token.GEQ:
			return m.ctx.Bool(a.f >= b.f)
		}
	case FracF:
		if b, ok := y.(Float); ok {
			switch op {
			case token.ADD:
				return FracF{a.u, a.scale, a.off + b.f}
			case token.SUB:
				return FracF{a.u, a.scale, a.off - b.f}
			case token.MUL:
				return FracF{a.u, a.scale * b.f, a.off * b.f}
			case token.QUO:
				return FracF{a.u, a.scale / b.f, a.off / b.f}
			}
			return m.fracCmp(a, b.f, op)
		}
	}
	panic(unsupported("binary %s on %T and %T", op, x, y))
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// fracCmp compares a draw with a constant.
func (m *Machine) fracCmp(f FracF, k float64, op token.Token) *Expr {
	c := m.ctx
	if f.scale == 0 {
		return m.binop(op, types.Typ[types.Float64], types.Typ[types.Float64], Float{f.off}, Float{k}).(*Expr)
	}
	if f.off != 0 || f.scale != 1 {
		k = (k - f.off) / f.scale
		if f.scale < 0 {
			op = flip(op)
		}
	}
	s := k * 65536
	w := f.u.w
	maxv := float64(mask(w))
	// u < s  <=>  u < ceil(s)
	lt := func(s float64) *Expr {
		t := math.Ceil(s)
		if !(t > 0) {
			return c.F
		}
		if t > maxv {
			return c.T
		}
		return c.ULt(f.u, c.Const(w, uint64(t)))
	}
	le := func(s float64) *Expr { return lt(math.Floor(s) + 1) }
	if math.IsNaN(k) {
		return c.Bool(op == token.NEQ)
	}
	switch op {
	case token.LSS:
		return lt(s)
	case token.LEQ:
		return le(s)
	case token.GTR:
		return c.Not(le(s))
	case token.GEQ:
		return c.Not(lt(s))
	case token.EQL:
		return c.And(le(s), c.Not(lt(s)))
	}
	panic(unsupported("%s on a random draw", op))
}

func (m *Machine) strLess(a, b Str, orEq bool) *Expr {
	c := m.ctx
	n := len(a.b)
	if len(b.b) < n {
		n = len(b.b)
	}
	var r *Expr
	switch {
	case len(a.b) < len(b.b):
		r = c.T
	case len(a.b) > len(b.b):
		r = c.F
	default:
		r = c.Bool(orEq)
	}
	for i := n - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(a.b[i], b.b[i]), r, c.ULt(a.b[i], b.b[i]))
	}
	return r
}

func (m *Machine) strEq(a, b Str) *Expr {
	if len(a.b) != len(b.b) {
		return m.ctx.F
	}
	r := m.ctx.T
	for i := range a.b {
		e := m.ctx.Eq(a.b[i], b.b[i])
		if e.isFalse() {
			return e
		}
		r = m.ctx.And(r, e)
	}
	return r
}

func (m *Machine) equals(x, y Value) *Expr {
	c := m.ctx
	switch a := x.(type) {
	case *Expr:
		if b, ok := y.(*Expr); ok {
			return c.Eq(a, b)
		}
	case Str:
		return m.strEq(a, y.(Str))
	case Float:
		if b, ok := y.(Float); ok {
			return c.Bool(a.f == b.f)
		}
		if b, ok := y.(FracF); ok {
			return m.fracCmp(b, a.f, token.EQL)
		}
	case FracF:
		if b, ok := y.(Float); ok {
			return m.fracCmp(a, b.f, token.EQL)
		}
	case Struct:
		b := y.(Struct)
		r := c.T
		for i := range a {
			r = c.And(r, m.equals(a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		r := c.T
		for i := range a {
			r = c.And(r, m.equals(a[i], b[i]))
		}
		return r
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			break
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return c.F
		}
		if !types.Comparable(a.t) {
			m.rtPanic("comparing uncomparable type %s", a.t)
		}
		return m.equals(a.v, b.v)
	case Ptr:
		switch b := y.(type) {
		case Ptr:
			return c.Bool(a == b)
		case *SymPtr:
			return c.Bool(a == m.ptr(b))
		case nil:
			return c.Bool(a == nil)
		}
		return c.F
	case *SymPtr:
		return m.equals(m.ptr(a), y)
	case Slice:
		if b, ok := y.(Slice); ok && (a == nil || b == nil) {
			return c.Bool(a == nil && b == nil)
		}
	case *Map:
		if b, ok := y.(*Map); ok {
			return c.Bool(a == b)
		}
	case *Closure:
		if b, ok := y.(*Closure); ok && (a == nil || b == nil) {
			return c.Bool(a == nil && b == nil)
		}
		if _, ok := y.(*NativeFn); ok {
			return c.F
		}
	case *NativeFn:
		if b, ok := y.(*Closure); ok && b == nil {
			return c.F
		}
	case *HostObj:
		return c.Bool(x == y)
	case *Chan:
		return c.Bool(x == y)
	case nil:
		switch b := y.(type) {
		case nil:
			return c.T
		case Ptr:
			return c.Bool(b == nil)
		case *Map:
			return c.Bool(b == nil)
		case Slice:
			return c.Bool(b == nil)
		case *Closure:
			return c.Bool(b == nil)
		case Iface:
			return c.Bool(b.t == nil)
		}
	}
	panic(unsupported("comparison of %T and %T", x, y))
}

func (m *Machine) convert(from, to types.Type, v Value) Value {
	fw, fs, fInt := intInfo(from)
	tw, ts, tInt := intInfo(to)
	if fInt && tInt {
		e := v.(*Expr)
		if tw == fw {
			return e
		}
		if tw < fw {
			return m.ctx.Trunc(e, tw)
		}
		if fs {
			if m.rng(e).hi < uint64(1)<<(fw-1) {
				return m.ctx.ZExt(e, tw)
			}
			return m.ctx.SExt(e, tw)
		}
		return m.ctx.ZExt(e, tw)
	}
	uf, ut := under(from), under(to)
	if fInt && isString(to) {
		e := v.(*Expr)
		if fw > 32 {
			if m.rng(e).hi <= 0x7fffffff {
				e = m.ctx.Trunc(e, 32)
			} else if !fs || fs {
				if m.branch(m.ctx.ULt(m.ctx.Const(64, 0x10ffff), e)) {
					return m.strVal("\uFFFD")
				}
				e = m.ctx.Trunc(e, 32)
			}
		} else if fw < 32 {
			if fs {
				e = m.ctx.SExt(e, 32)
			} else {
				e = m.ctx.ZExt(e, 32)
			}
		}
		return Str{m.encodeRune(e)}
	}
	if fInt && isFloat(to) {
		e := v.(*Expr)
		u := m.concretize(e)
		if fs {
			return Float{float64(signed(u, fw))}
		}
		return Float{float64(u)}
	}
	if isFloat(from) && tInt {
		if r, ok := v.(FracF); ok && r.off == 0 && r.scale >= 0 && r.scale <= 1<<30 && r.scale == math.Trunc(r.scale) {
			u := m.ctx.ZExt(r.u, 64)
			e := m.ctx.Bin(OLShr, m.ctx.Bin(OMul, u, m.ctx.Const(64, uint64(r.scale))), m.ctx.Const(64, 16))
			if tw < 64 {
				e = m.ctx.Trunc(e, tw)
			}
			return e
		}
		f, ok := v.(Float)
		if !ok {
			panic(unsupported("integer conversion of a random draw"))
		}
		if ts {
			return m.ctx.Const(tw, uint64(int64(f.f)))
		}
		return m.ctx.Const(tw, uint64(f.f))
	}
	if isFloat(from) && isFloat(to) {
		if f, ok := v.(Float); ok {
			if b := under(to).(*types.Basic); b.Kind() == types.Float32 {
				return Float{float64(float32(f.f))}
			}
		}
		return v
	}
	if isString(from) && isString(to) {
		return v
	}
	if isString(from) {
		if sl, ok := ut.(*types.Slice); ok {
			s := v.(Str)
			w, _, _ := intInfo(sl.Elem())
			if w == 8 {
				if len(s.b) == 0 {
					return make(Slice, 0)
				}
				c := m.growCap(sl.Elem(), 0, 0, len(s.b))
				r := make(Slice, c)
				for i := range r {
					if i < len(s.b) {
						r[i] = s.b[i]
					} else {
						r[i] = m.ctx.bytes[0]
					}
				}
				return r[:len(s.b)]
			}
			if w == 32 {
				r := Slice{}
				for p := 0; p < len(s.b); {
					c, n := m.decodeRune(s.b[p:])
					r = append(r, c)
					p += n
				}
				c := len(r)
				if c > 0 {
					c = m.growCap(sl.Elem(), 0, 0, c)
				}
				out := make(Slice, c)
				for i := range out {
					if i < len(r) {
						out[i] = r[i]
					} else {
						out[i] = m.ctx.Const(32, 0)
					}
				}
				return out[:len(r)]
			}
		}
	}
	if isString(to) {
		if sl, ok := uf.(*types.Slice); ok {
			w, _, _ := intInfo(sl.Elem())
			s := v.(Slice)
			if w == 8 {
				r := make([]*Expr, len(s))
				for i := range s {
					r[i] = s[i].(*Expr)
				}
				return Str{r}
			}
			if w == 32 {
				var r []*Expr
				for i := range s {
					r = append(r, m.encodeRune(s[i].(*Expr))...)
				}
				return Str{r}
			}
		}
	}
	if _, ok := ut.(*types.Pointer); ok {
		if _, ok := uf.(*types.Pointer); ok {
			return v
		}
	}
	if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if b, ok := uf.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if _, isPtr := ut.(*types.Pointer); isPtr {
			return v
		}
	}
	panic(unsupported("conversion from %s to %s", from, to))
}

// ---- runes ----

func (m *Machine) decodeRune(b []*Expr) (*Expr, int) {
	c := m.ctx
	if len(b) == 0 {
		return c.Const(32, utf8.RuneError), 0
	}
	b0 := b[0]
	if d, ok := m.decMemo[b0.id]; ok && !b0.isConst() && len(d.rest) < len(b) {
		same := true
		for i, e := range d.rest {
			if b[i+1] != e {
				same = false
				break
			}
		}
		if same {
			return d.r, len(d.rest) + 1
		}
	}
	bad := c.Const(32, utf8.RuneError)
	z := func(e *Expr) *Expr { return c.ZExt(e, 32) }
	k8 := func(v uint64) *Expr { return c.Const(8, v) }
	cont := func(e *Expr) *Expr {
		if e.isConst() {
			return c.Bool(e.c&0xc0 == 0x80)
		}
		return c.And(c.ULe(k8(0x80), e), c.ULe(e, k8(0xbf)))
	}
	low6 := func(e *Expr) *Expr { return z(c.Bin(OBAnd, e, k8(0x3f))) }
	remember := func(r *Expr, n int) (*Expr, int) {
		if !r.isConst() {
			if !b0.isConst() {
				m.decMemo[b0.id] = decRec{r, append([]*Expr(nil), b[1:n]...)}
			}
			m.encMemo[encKey{r.id, 0}] = append([]*Expr(nil), b[:n]...)
		}
		return r, n
	}
	if m.branch(c.ULt(b0, k8(0x80))) {
		return remember(z(b0), 1)
	}
	if m.branch(c.ULt(b0, k8(0xc2))) {
		return bad, 1
	}
	if len(b) < 2 {
		return bad, 1
	}
	if m.branch(c.ULt(b0, k8(0xe0))) {
		if !m.branch(cont(b[1])) {
			return bad, 1
		}
		r := c.Bin(OBOr, c.Bin(OShl, z(c.Bin(OBAnd, b0, k8(0x1f))), c.Const(32, 6)), low6(b[1]))
		m.refine(r, 0x80, 0x7ff)
		return remember(r, 2)
	}
	if m.branch(c.ULt(b0, k8(0xf0))) {
		if len(b) < 3 {
			// the shorter prefixes are errors of width 1 as well
			return bad, 1
		}
		lo := c.Ite(c.Eq(b0, k8(0xe0)), k8(0xa0), k8(0x80))
		hi := c.Ite(c.Eq(b0, k8(0xed)), k8(0x9f), k8(0xbf))
		ok := c.And(c.And(c.ULe(lo, b[1]), c.ULe(b[1], hi)), cont(b[2]))
		if !m.branch(ok) {
			return bad, 1
		}
		r := c.Bin(OBOr, c.Bin(OBOr, c.Bin(OShl, z(c.Bin(OBAnd, b0, k8(0x0f))), c.Const(32, 12)),
			c.Bin(OShl, low6(b[1]), c.Const(32, 6))), low6(b[2]))
		m.refine(r, 0x800, 0xffff)
		return remember(r, 3)
	}
	if len(b) < 4 {
		return bad, 1
	}
	if !m.branch(c.ULe(b0, k8(0xf4))) {
		return bad, 1
	}
	lo := c.Ite(c.Eq(b0, k8(0xf0)), k8(0x90), k8(0x80))
	hi := c.Ite(c.Eq(b0, k8(0xf4)), k8(0x8f), k8(0xbf))
	ok := c.And(c.And(c.ULe(lo, b[1]), c.ULe(b[1], hi)), c.And(cont(b[2]), cont(b[3])))
	if !m.branch(ok) {
		return bad, 1
	}
	r := c.Bin(OBOr, c.Bin(OBOr, c.Bin(OShl, z(c.Bin(OBAnd, b0, k8(0x07))), c.Const(32, 18)),
		c.Bin(OShl, low6(b[1]), c.Const(32, 12))), c.Bin(OBOr, c.Bin(OShl, low6(b[2]), c.Const(32, 6)), low6(b[3])))
	m.refine(r, 0x10000, 0x10ffff)
	return remember(r, 4)
}

// decodeLastRune mirrors utf8.DecodeLastRune on the decoder above.
func (m *Machine) decodeLastRune(b []*Expr) (*Expr, int) {
	end := len(b)
	if end == 0 {
		return m.ctx.Const(32, utf8.RuneError), 0
	}
	c := m.ctx
	start := end - 1
	if m.branch(c.ULt(b[start], c.Const(8, 0x80))) {
		return m.decodeRune(b[start:end])
	}
	lim := end - utf8.UTFMax
	if lim < 0 {
		lim = 0
	}
	for start--; start >= lim; start-- {
		isCont := c.And(c.ULe(c.Const(8, 0x80), b[start]), c.ULe(b[start], c.Const(8, 0xbf)))
		if !m.branch(isCont) {
			break
		}
	}
	if start < 0 {
		start = 0
	}
	r, n := m.decodeRune(b[start:end])
	if start+n != end {
		return c.Const(32, utf8.RuneError), 1
	}
	return r, n
}

// encodeRune gives the UTF-8 bytes of string(rune).
func (m *Machine) encodeRune(r *Expr) []*Expr {
	c := m.ctx
	if r.isConst() {
		s := string(rune(int32(r.c)))
		out := make([]*Expr, len(s))
		for i := range out {
			out[i] = c.bytes[s[i]]
		}
		return out
	}
	if b, ok := m.encMemo[encKey{r.id, 0}]; ok {
		return b
	}
	k := func(v uint64) *Expr { return c.Const(32, v) }
	if m.branch(c.ULt(r, k(0x80))) {
		return m.encodeAs(r, 1)
	}
	if m.branch(c.ULt(r, k(0x800))) {
		return m.encodeAs(r, 2)
	}
	if m.branch(c.ULt(r, k(0x10000))) {
		if m.branch(c.And(c.ULe(k(0xd800), r), c.ULe(r, k(0xdfff)))) {
			return m.strVal("\uFFFD").b
		}
		return m.encodeAs(r, 3)
	}
	if !m.branch(c.ULe(r, k(0x10ffff))) {
		return m.strVal("\uFFFD").b
	}
	return m.encodeAs(r, 4)
}

// encodeAs encodes r, known to need n bytes, and remembers the provenance.
func (m *Machine) encodeAs(r *Expr, n int) []*Expr {
	c := m.ctx
	if b, ok := m.encMemo[encKey{r.id, 0}]; ok {
		return b
	}
	t := func(e *Expr) *Expr { return c.Trunc(e, 8) }
	sh := func(k uint64) *Expr { return c.Bin(OLShr, r, c.Const(32, k)) }
	or := func(e *Expr, k uint64) *Expr { return c.Bin(OBOr, e, c.Const(8, k)) }
	low6 := func(e *Expr) *Expr { return or(c.Bin(OBAnd, t(e), c.Const(8, 0x3f)), 0x80) }
	var b []*Expr
	switch n {
	case 1:
		b = []*Expr{t(r)}
		m.refine(b[0], 0, 0x7f)
	case 2:
		b = []*Expr{or(t(sh(6)), 0xc0), low6(r)}
		m.refine(b[0], 0xc2, 0xdf)
	case 3:
		b = []*Expr{or(t(sh(12)), 0xe0), low6(sh(6)), low6(r)}
		m.refine(b[0], 0xe0, 0xef)
	case 4:
		b = []*Expr{or(t(sh(18)), 0xf0), low6(sh(12)), low6(sh(6)), low6(r)}
		m.refine(b[0], 0xf0, 0xf4)
	}
	for _, e := range b[1:] {
		m.refine(e, 0x80, 0xbf)
	}
	m.encMemo[encKey{r.id, 0}] = b
	if !b[0].isConst() {
		m.decMemo[b[0].id] = decRec{r, b[1:]}
	}
	return b
}

// ---- maps ----

func (m *Machine) mapHit(e *MapEntry, key Value) *Expr { return m.equals(e.k, key) }

func (m *Machine) hashable(key Value) {
	if i, ok := key.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		m.rtPanic("runtime error: hash of unhashable type %s", i.t)
	}
}

// rivals are the entries whose keys may be the given one: the keys of a map
// are different from each other, so a key without symbols that is there needs
// no comparison, and one that is not can only be among those with symbols.
func (mp *Map) rivals(key Value) []*MapEntry {
	ks, conc := keyString(key)
	if !conc {
		return mp.entries
	}
	if i, ok := mp.idx[ks]; ok {
		return mp.entries[i : i+1]
	}
	if mp.nsym == 0 {
		return nil
	}
	return mp.syms
}

func (m *Machine) mapLookup(mt *types.Map, mp *Map, key Value) (Value, *Expr) {
	c := m.ctx
	zero := m.zero(mt.Elem())
	m.hashable(key)
	if mp != nil && m.frozenMaps != nil {
		m.noteMapRead(mp)
	}
	if mp == nil || mp.n == 0 {
		return zero, c.F
	}
	if mp.nsym == 0 {
		if ks, ok := keyString(key); ok {
			if i, ok := mp.idx[ks]; ok {
				return load(mp.entries[i].v), c.T
			}
			return zero, c.F
		}
	}
	type cand struct {
		e  *MapEntry
		eq *Expr
	}
	var cs []cand
	scalar := true
	for _, e := range mp.rivals(key) {
		if e.dead {
			continue
		}
		eq := m.mapHit(e, key)
		switch m.known(eq) {
		case 0:
			continue
		case 1:
			return load(e.v), c.T
		}
		if _, ok := e.v.(*Expr); !ok {
			scalar = false
		}
		cs = append(cs, cand{e, eq})
	}
	if len(cs) == 0 {
		return zero, c.F
	}
	if z, ok := zero.(*Expr); ok && scalar {
		v, found := z, c.F
		for i := len(cs) - 1; i >= 0; i-- {
			v = c.Ite(cs[i].eq, cs[i].e.v.(*Expr), v)
			found = c.Or(cs[i].eq, found)
		}
		return v, found
	}
	for _, x := range cs {
		if m.branch(x.eq) {
			return load(x.e.v), c.T
		}
	}
	return zero, c.F
}

func (m *Machine) mapUpdate(mt *types.Map, mp *Map, key, val Value) {
	if mp == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	m.hashable(key)
	m.noteMapWrite(mp)
	set := func(e *MapEntry) {
		old := e.v
		e.v = val
		m.onUndo(func() { e.v = old })
	}
	ks, conc := keyString(key)
	if conc && mp.nsym == 0 {
		if i, ok := mp.idx[ks]; ok {
			set(mp.entries[i])
			return
		}
	} else {
		for _, e := range mp.rivals(key) {
			if !e.dead && m.branch(m.mapHit(e, key)) {
				set(e)
				return
			}
		}
	}
	e := &MapEntry{k: key, v: val}
	mp.entries = append(mp.entries, e)
	mp.n++
	if conc {
		prev, had := mp.idx[ks]
		mp.idx[ks] = len(mp.entries) - 1
		m.onUndo(func() {
			if had {
				mp.idx[ks] = prev
			} else {
				delete(mp.idx, ks)
			}
			mp.entries = mp.entries[:len(mp.entries)-1]
			mp.n--
		})
	} else {
		mp.nsym++
		mp.syms = append(mp.syms, e)
		m.onUndo(func() {
			mp.nsym--
			mp.syms = mp.syms[:len(mp.syms)-1]
			mp.entries = mp.entries[:len(mp.entries)-1]
			mp.n--
		})
	}
}

func (m *Machine) mapDelete(mp *Map, key Value) {
	if mp == nil {
		return
	}
	m.noteMapWrite(mp)
	kill := func(e *MapEntry) {
		e.dead = true
		mp.n--
		ks, conc := keyString(e.k)
		var i int
		if conc {
			i = mp.idx[ks]
			delete(mp.idx, ks)
		} else {
			mp.nsym--
		}
		m.onUndo(func() {
			e.dead = false
			mp.n++
			if conc {
				mp.idx[ks] = i
			} else {
				mp.nsym++
			}
		})
	}
	if ks, conc := keyString(key); conc && mp.nsym == 0 {
		if i, ok := mp.idx[ks]; ok {
			kill(mp.entries[i])
		}
		return
	}
	for _, e := range mp.rivals(key) {
		if !e.dead && m.branch(m.mapHit(e, key)) {
			kill(e)
			return
		}
	}
}

func (m *Machine) mapRange(fr *Frame, mp *Map) *MapIter {
	it := &MapIter{m: mp}
	if mp != nil && m.frozenMaps != nil {
		m.noteMapRead(mp)
	}
	if mp == nil {
		return it
	}
	for _, e := range mp.entries {
		if !e.dead {
			it.order = append(it.order, e)
		}
	}
	n := len(it.order)
	if n < 2 || !fr.code.repo || m.inInit > 0 {
		return it
	}
	m.mapPerm = true
	if n <= 3 {
		perm := append([]*MapEntry(nil), it.order...)
		for i := 0; i < n-1; i++ {
			j := i + m.choose(n-i)
			perm[i], perm[j] = perm[j], perm[i]
		}
		it.order = perm
		return it
	}
	if m.choose(2) == 1 {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			it.order[i], it.order[j] = it.order[j], it.order[i]
		}
	}
	return it
}

// ---- builtins ----

func (m *Machine) builtin(fr *Frame, c *ssa.CallCommon, bi *ssa.Builtin, args []Value) Value {
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return m.ctx.Const(64, uint64(len(x.b)))
		case Slice:
			return m.ctx.Const(64, uint64(len(x)))
		case Array:
			return m.ctx.Const(64, uint64(len(x)))
		case *Map:
			if x == nil {
				return m.ctx.Const(64, 0)
			}
			return m.ctx.Const(64, uint64(x.n))
		case Ptr:
			return m.ctx.Const(64, uint64(len((*x).(Array))))
		case *Chan:
			if x == nil {
				return m.i64(0)
			}
			return m.i64(len(x.buf))
		}
	case "close":
		c := m.chanOf(args[0])
		if c.closed {
			m.rtPanic("close of closed channel")
		}
		m.setChan(c, c.buf, true)
		return nil
	case "cap":
		switch x := args[0].(type) {
		case *Chan:
			if x == nil {
				return m.i64(0)
			}
			return m.i64(x.cap)
		case Slice:
			return m.ctx.Const(64, uint64(cap(x)))
		case Array:
			return m.ctx.Const(64, uint64(len(x)))
		}
	case "append":
		st := under(c.Args[0].Type()).(*types.Slice)
		s := args[0].(Slice)
		var extra []Value
		switch y := args[1].(type) {
		case Slice:
			extra = y
		case Str:
			extra = make([]Value, len(y.b))
			for i, e := range y.b {
				extra[i] = e
			}
		}
		return m.appendSlice(st.Elem(), s, extra)
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		case Str:
			src = make([]Value, len(y.b))
			for i, e := range y.b {
				src[i] = e
			}
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = load(src[i])
		}
		for i := 0; i < n; i++ {
			m.store(&dst[i], tmp[i])
		}
		return m.ctx.Const(64, uint64(n))
	case "delete":
		m.mapDelete(args[0].(*Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range append([]*MapEntry(nil), x.entries...) {
					if !e.dead {
						m.mapDelete(x, e.k)
					}
				}
			}
		case Slice:
			st := under(c.Args[0].Type()).(*types.Slice)
			for i := range x {
				m.store(&x[i], m.zero(st.Elem()))
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for _, a := range args[1:] {
			op := token.LSS
			if bi.Name() == "max" {
				op = token.GTR
			}
			cond := m.binop(op, t, t, a, r).(*Expr)
			if ae, ok := a.(*Expr); ok {
				r = m.ctx.Ite(cond, ae, r.(*Expr))
			} else if m.branch(cond) {
				r = a
			}
		}
		return r
	case "print", "println":
		return nil
	case "recover":
		// fr is the deferred function; its caller is the panicking frame
		if fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			p := fr.caller.panicVal
			m.caught = p
			return p.v
		}
		return Iface{}
	case "panic":
		v := args[0].(Iface)
		panic(&targetPanic{v: v, rt: m.describePanic(v)})
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(m.cint(args[1]))
		switch d := args[0].(type) {
		case *UnsafeData:
			if d.str != nil {
				return Str{d.str.b[:n]}
			}
			out := make([]*Expr, n)
			for i := range out {
				out[i] = d.sl[:n][i].(*Expr)
			}
			return Str{out}
		case Ptr:
			if d != nil && n > 0 {
				out := make([]*Expr, n)
				for i, v := range unsafe.Slice(d, n) { // the cells of a slice lie together
					out[i] = v.(*Expr)
				}
				return Str{out}
			}
		}
		if n == 0 {
			return Str{}
		}
	case "SliceData":
		return &UnsafeData{sl: args[0].(Slice)}
	case "StringData":
		s := args[0].(Str)
		return &UnsafeData{str: &s}
	case "Slice": // unsafe.Slice
		n := int(m.cint(args[1]))
		switch d := args[0].(type) {
		case *UnsafeData:
			if d.str != nil {
				out := make(Slice, n)
				for i := range out {
					out[i] = d.str.b[i]
				}
				return out
			}
			return d.sl[:n:n]
		}
	}
	panic(unsupported("builtin %s on %T", bi.Name(), args))
}

func (m *Machine) appendSlice(elem types.Type, s Slice, extra []Value) Slice {
	if len(extra) == 0 {
		return s
	}
	n := len(s) + len(extra)
	if n <= cap(s) {
		r := s[:n]
		tmp := make([]Value, len(extra))
		for i := range extra {
			tmp[i] = load(extra[i])
		}
		for i := range tmp {
			m.store(&r[len(s)+i], tmp[i])
		}
		return r
	}
	if n > maxLen {
		m.end(OutLimit, "a slice longer than %d", maxLen)
	}
	c := m.growCap(elem, len(s), cap(s), n)
	r := make(Slice, c)
	for i := range s {
		r[i] = load(s[i])
	}
	for i := range extra {
		r[len(s)+i] = load(extra[i])
	}
	if c > n {
		z := m.zero(elem)
		for i := n; i < c; i++ {
			r[i] = load(z)
		}
	}
	return r[:n]
}

// ---- frame conditions ----

func (m *Machine) noteWrite(cell Ptr) {
	if m.frozen != nil {
		if what, ok := m.frozen[cell]; ok {
			m.sharedWrite(cell, what)
		}
	}
}

func (m *Machine) noteMapWrite(mp *Map) {
	if m.frozenMaps != nil {
		if what, ok := m.frozenMaps[mp]; ok {
			m.sharedWrite(mp, what)
		}
	}
}

func (m *Machine) sharedWrite(at interface{}, what string) {
	if m.top != nil && m.prog.ownLocking(m.top.fn) {
		return
	}
	switch {
	case m.quiet > 0:
	case m.lockDepth == 0:
		m.frameViolation(what)
	default:
		if _, ok := m.looseReads[at]; ok {
			m.frameViolation(what)
		}
		if m.lockedWrites == nil {
			m.lockedWrites = map[interface{}]string{}
		}
		m.lockedWrites[at] = what
	}
}

// ownLocking holds of the regular expression engines, which hand their state
// from one call to the next under locks of their own; that is trusted.
func (p *Program) ownLocking(fn *ssa.Function) bool {
	if fn == nil || fn.Pkg == nil {
		return false
	}
	switch fn.Pkg.Pkg.Path() {
	case "regexp", "regexp/syntax", "github.com/dlclark/regexp2", "github.com/dlclark/regexp2/syntax":
		return true
	}
	return false
}

// noteRead records a read of shared state.
func (m *Machine) noteRead(cell Ptr) {
	what, ok := m.frozen[cell]
	if !ok {
		return
	}
	m.sharedRead(cell, what)
	switch x := (*cell).(type) {
	case Struct:
		for i := range x {
			m.noteRead(&x[i])
		}
	case Array:
		for i := range x {
			m.noteRead(&x[i])
		}
	}
}

func (m *Machine) noteMapRead(mp *Map) {
	if what, ok := m.frozenMaps[mp]; ok {
		m.sharedRead(mp, what)
	}
}

func (m *Machine) sharedRead(at interface{}, what string) {
	if m.lockDepth > 0 || m.readLocks > 0 || m.quiet > 0 || m.top != nil && m.prog.ownLocking(m.top.fn) {
		return
	}
	if _, ok := m.lockedWrites[at]; ok {
		m.frameViolation(what)
	}
	if m.looseReads == nil {
		m.looseReads = map[interface{}]string{}
	}
	m.looseReads[at] = what
}

func (m *Machine) frameViolation(what string) {
	if !m.ensureModel() {
		m.end(OutLimit, "write to frozen state on an undecided path")
	}
	m.violation("frame", "unsynchronised write to shared state: "+what, m.model)
	m.end(OutViolation, "frame")
}

// freeze marks everything reachable from v.
func (m *Machine) freeze(v Value, what string, depth int) {
	if m.frozen == nil {
		m.frozen = map[Ptr]string{}
		m.frozenMaps = map[*Map]string{}
	}
	if depth > 200 {
		return
	}
	cells := func(c []Value) {
		for i := range c {
			if _, ok := m.frozen[&c[i]]; !ok {
				m.frozen[&c[i]] = what
				m.freeze(c[i], what, depth+1)
			}
		}
	}
	switch x := v.(type) {
	case Ptr:
		if x == nil {
			return
		}
		if _, ok := m.frozen[x]; ok {
			return
		}
		m.frozen[x] = what
		m.freeze(*x, what, depth+1)
	case Struct:
		cells(x)
	case Array:
		cells(x)
	case Slice:
		cells(x[:cap(x)])
	case Iface:
		m.freeze(x.v, what, depth+1)
	case *Closure:
		if x != nil {
			for _, b := range x.bound {
				m.freeze(b, what, depth+1)
			}
		}
	case *Map:
		if x == nil {
			return
		}
		if _, ok := m.frozenMaps[x]; ok {
			return
		}
		m.frozenMaps[x] = what
		for _, e := range x.entries {
			m.freeze(e.k, what, depth+1)
			m.freeze(e.v, what, depth+1)
		}
	}
}

var _ = fmt.Sprint
