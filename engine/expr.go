package main

// Hash-consed terms over booleans (w == 0) and bit-vectors (w in 1..64).

import (
	"fmt"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd
	OOr
	OIte
	OEq
	OULt
	OULe
	OSLt
	OSLe
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OTrunc // low w bits
)

var opSMT = [...]string{"", "", "not", "and", "or", "ite", "=", "bvult", "bvule", "bvslt", "bvsle",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor",
	"bvshl", "bvlshr", "bvashr", "", "", ""}

type Expr struct {
	op      Op
	w       uint8 // 0 for bool
	n       uint8 // number of args
	id      int32
	c       uint64 // constant value or variable index
	a, b, d *Expr
	hasVar  bool
	defined int32 // solver generation in which this node was defined
	// memoised evaluation
	evGen int32
	evVal uint64
}

func (e *Expr) isConst() bool { return e.op == OConst }
func (e *Expr) isTrue() bool  { return e.op == OConst && e.c == 1 }
func (e *Expr) isFalse() bool { return e.op == OConst && e.c == 0 }

type ekey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d int32
}

type Ctx struct {
	tab    map[ekey]*Expr
	nextID int32
	T, F   *Expr
	bytes  [256]*Expr
	small  [2][4096]*Expr // 32- and 64-bit constants
	vars   []*Expr        // by variable index
	evGen  int32
}

func NewCtx() *Ctx {
	c := &Ctx{tab: make(map[ekey]*Expr, 1<<14)}
	c.F = c.mk(OConst, 0, 0, nil, nil, nil)
	c.T = c.mk(OConst, 0, 1, nil, nil, nil)
	for i := range c.bytes {
		c.bytes[i] = c.mk(OConst, 8, uint64(i), nil, nil, nil)
	}
	return c
}

func eid(e *Expr) int32 {
	if e == nil {
		return -1
	}
	return e.id
}

func (c *Ctx) mk(op Op, w uint8, k uint64, a, b, d *Expr) *Expr {
	key := ekey{op, w, k, eid(a), eid(b), eid(d)}
	if e, ok := c.tab[key]; ok {
		return e
	}
	e := &Expr{op: op, w: w, c: k, a: a, b: b, d: d, id: c.nextID, defined: -1}
	c.nextID++
	if op == OVar {
		e.hasVar = true
	}
	for _, x := range [3]*Expr{a, b, d} {
		if x != nil {
			e.n++
			e.hasVar = e.hasVar || x.hasVar
		}
	}
	c.tab[key] = e
	return e
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) Const(w uint8, v uint64) *Expr {
	if w == 8 {
		return c.bytes[v&0xff]
	}
	v &= mask(w)
	if v < 4096 && w >= 32 && w&31 == 0 {
		k := w>>5 - 1
		if e := c.small[k][v]; e != nil {
			return e
		}
		e := c.mk(OConst, w, v, nil, nil, nil)
		c.small[k][v] = e
		return e
	}
	return c.mk(OConst, w, v&mask(w), nil, nil, nil)
}

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.T
	}
	return c.F
}

// Var returns variable number idx of the given width; variables are created
// per path in order, so that the same index may be reused by another path, but
// only at the same width (the width is part of the key).
func (c *Ctx) Var(w uint8, idx int) *Expr {
	return c.mk(OVar, w, uint64(idx), nil, nil, nil)
}

func signed(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func evalOp(op Op, w uint8, wa uint8, a, b, d uint64) uint64 {
	m := mask(w)
	bo := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case ONot:
		return a ^ 1
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OIte:
		if a == 1 {
			return b
		}
		return d
	case OEq:
		return bo(a == b)
	case OULt:
		return bo(a < b)
	case OULe:
		return bo(a <= b)
	case OSLt:
		return bo(signed(a, wa) < signed(b, wa))
	case OSLe:
		return bo(signed(a, wa) <= signed(b, wa))
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		sa, sb := signed(a, w), signed(b, w)
		if sb == 0 {
			if sa < 0 {
				return 1
			}
			return m
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OSRem:
		sa, sb := signed(a, w), signed(b, w)
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(signed(a, w)>>b) & m
	case OZExt:
		return a
	case OSExt:
		return uint64(signed(a, wa)) & m
	case OTrunc:
		return a & m
	}
	panic("evalOp")
}

func (c *Ctx) Not(a *Expr) *Expr {
	if a.isConst() {
		return c.Bool(a.c == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(ONot, 0, 0, a, nil, nil)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.isConst() {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.F
	}
	return c.mk(OAnd, 0, 0, a, b, nil)
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.isConst() {
		if a.c == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.T
	}
	return c.mk(OOr, 0, 0, a, b, nil)
}

func (c *Ctx) Ite(p, a, b *Expr) *Expr {
	if p.isConst() {
		if p.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if p.op == ONot {
		return c.Ite(p.a, b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(p, b)
		}
		if a.isFalse() {
			return c.And(c.Not(p), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(p), a)
		}
		if b.isFalse() {
			return c.And(p, a)
		}
	}
	if b.op == OIte && b.a == p {
		b = b.d
	}
	if a.op == OIte && a.a == p {
		a = a.b
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, 0, p, a, b)
}

// umax is a cheap syntactic upper bound of the unsigned value.
func umax(e *Expr) uint64 {
	switch e.op {
	case OConst:
		return e.c
	case OZExt:
		return umax(e.a)
	case OBAnd:
		x, y := umax(e.a), umax(e.b)
		if x < y {
			return x
		}
		return y
	case OLShr:
		if e.b.isConst() && e.b.c < 64 {
			return umax(e.a) >> e.b.c
		}
	case OIte:
		x, y := umax(e.b), umax(e.d)
		if x > y {
			return x
		}
		return y
	}
	return mask(e.w)
}

func iteConstLeaves(e *Expr, depth int) bool {
	if e.isConst() {
		return true
	}
	if e.op == OIte && depth > 0 {
		return iteConstLeaves(e.b, depth-1) && iteConstLeaves(e.d, depth-1)
	}
	return false
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.c == b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.c == 1 {
				return a
			}
			return c.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			if b.c > mask(a.a.w) {
				return c.F
			}
			return c.Eq(a.a, c.Const(a.a.w, b.c))
		case OSExt:
			v := b.c & mask(a.a.w)
			if uint64(signed(v, a.a.w))&mask(a.w) != b.c {
				return c.F
			}
			return c.Eq(a.a, c.Const(a.a.w, v))
		case OAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.w, b.c-a.b.c))
			}
		case OBXor:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.w, b.c^a.b.c))
			}
		case OIte:
			if iteConstLeaves(a, 40) {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.d, b))
			}
		case OBAnd, OLShr:
			if b.c > umax(a) {
				return c.F
			}
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, a, b, nil)
}

func (c *Ctx) ULt(a, b *Expr) *Expr {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.c < b.c)
	}
	if b.isConst() {
		if b.c == 0 {
			return c.F
		}
		if umax(a) < b.c {
			return c.T
		}
		if a.op == OZExt {
			return c.ULt(a.a, c.Const(a.a.w, b.c))
		}
		if a.op == OIte && iteConstLeaves(a, 40) {
			return c.Ite(a.a, c.ULt(a.b, b), c.ULt(a.d, b))
		}
	}
	if a.isConst() {
		if umax(b) <= a.c {
			return c.F
		}
		if b.op == OZExt {
			return c.ULt(c.Const(b.a.w, a.c), b.a)
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return c.ULt(a.a, b.a)
	}
	return c.mk(OULt, 0, 0, a, b, nil)
}

func (c *Ctx) ULe(a, b *Expr) *Expr { return c.Not(c.ULt(b, a)) }

func (c *Ctx) SLt(a, b *Expr) *Expr {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(signed(a.c, a.w) < signed(b.c, b.w))
	}
	half := uint64(1) << (a.w - 1)
	// both non-negative: use the unsigned comparison
	an, bn := umax(a) < half, umax(b) < half
	if an && bn {
		return c.ULt(a, b)
	}
	if an && b.isConst() { // b negative constant
		return c.F
	}
	if bn && a.isConst() {
		return c.T
	}
	if a.op == OSExt && b.isConst() {
		sb := signed(b.c, b.w)
		lo, hi := -(int64(1) << (a.a.w - 1)), (int64(1)<<(a.a.w-1))-1
		if sb <= lo {
			return c.F
		}
		if sb > hi {
			return c.T
		}
		return c.SLt(a.a, c.Const(a.a.w, uint64(sb)))
	}
	if b.op == OSExt && a.isConst() {
		sa := signed(a.c, a.w)
		lo, hi := -(int64(1) << (b.a.w - 1)), (int64(1)<<(b.a.w-1))-1
		if sa < lo {
			return c.T
		}
		if sa >= hi {
			return c.F
		}
		return c.SLt(c.Const(b.a.w, uint64(sa)), b.a)
	}
	if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return c.SLt(a.a, b.a)
	}
	return c.mk(OSLt, 0, 0, a, b, nil)
}

func (c *Ctx) SLe(a, b *Expr) *Expr { return c.Not(c.SLt(b, a)) }

func isCommut(op Op) bool {
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		return true
	}
	return false
}

// Bin builds a bit-vector binary operation.
func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(w, evalOp(op, w, w, a.c, b.c, 0))
	}
	if a.isConst() && isCommut(op) {
		a, b = b, a
	}
	if b.isConst() {
		k := b.c
		switch op {
		case OAdd:
			if k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return c.Bin(OAdd, a.a, c.Const(w, a.b.c+k))
			}
		case OSub:
			return c.Bin(OAdd, a, c.Const(w, -k))
		case OMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
			if bits.OnesCount64(k) == 1 {
				return c.Bin(OShl, a, c.Const(w, uint64(bits.TrailingZeros64(k))))
			}
		case OBAnd:
			if k == 0 {
				return b
			}
			if k == mask(w) {
				return a
			}
			if a.op == OBAnd && a.b.isConst() {
				return c.Bin(OBAnd, a.a, c.Const(w, a.b.c&k))
			}
			if bits.OnesCount64(k+1) == 1 && umax(a) <= k { // low mask
				return a
			}
			if a.op == OZExt && k <= mask(a.a.w) {
				return c.ZExt(c.Bin(OBAnd, a.a, c.Const(a.a.w, k)), w)
			}
		case OBOr, OBXor:
			if k == 0 {
				return a
			}
		case OShl, OLShr, OAShr:
			if k == 0 {
				return a
			}
			if op != OAShr && k >= uint64(w) {
				return c.Const(w, 0)
			}
			if op == OLShr && umax(a)>>k == 0 {
				return c.Const(w, 0)
			}
			if op == OAShr && umax(a) < uint64(1)<<(w-1) {
				return c.Bin(OLShr, a, b)
			}
		case OUDiv:
			if k == 1 {
				return a
			}
			if bits.OnesCount64(k) == 1 {
				return c.Bin(OLShr, a, c.Const(w, uint64(bits.TrailingZeros64(k))))
			}
		case OURem:
			if bits.OnesCount64(k) == 1 {
				return c.Bin(OBAnd, a, c.Const(w, k-1))
			}
		case OSDiv, OSRem:
			half := uint64(1) << (w - 1)
			if umax(a) < half && k < half && k > 0 {
				if op == OSDiv {
					return c.Bin(OUDiv, a, b)
				}
				return c.Bin(OURem, a, b)
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return c.Const(w, 0)
		case OBAnd, OBOr:
			return a
		}
	}
	if op == OSub {
		// (x+k1)-(x+k2)
		ba, ka := a, uint64(0)
		if a.op == OAdd && a.b.isConst() {
			ba, ka = a.a, a.b.c
		}
		bb, kb := b, uint64(0)
		if b.op == OAdd && b.b.isConst() {
			bb, kb = b.a, b.b.c
		}
		if ba == bb {
			return c.Const(w, ka-kb)
		}
	}
	if isCommut(op) && !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, w, 0, a, b, nil)
}

func (c *Ctx) ZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.c)
	}
	if a.op == OZExt {
		return c.mk(OZExt, w, 0, a.a, nil, nil)
	}
	if a.op == OIte && iteConstLeaves(a, 6) {
		return c.Ite(a.a, c.ZExt(a.b, w), c.ZExt(a.d, w))
	}
	return c.mk(OZExt, w, 0, a, nil, nil)
}

func (c *Ctx) SExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, uint64(signed(a.c, a.w)))
	}
	if umax(a) < uint64(1)<<(a.w-1) {
		return c.ZExt(a, w)
	}
	return c.mk(OSExt, w, 0, a, nil, nil)
}

func (c *Ctx) Trunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.c)
	}
	switch a.op {
	case OZExt, OSExt:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		if a.op == OZExt {
			return c.ZExt(a.a, w)
		}
		return c.SExt(a.a, w)
	case OBAnd, OBOr, OBXor, OAdd:
		if a.b.isConst() {
			return c.Bin(a.op, c.Trunc(a.a, w), c.Trunc(a.b, w))
		}
	case OIte:
		if iteConstLeaves(a, 6) {
			return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.d, w))
		}
	}
	return c.mk(OTrunc, w, 0, a, nil, nil)
}

// Eval evaluates e under the model (variables missing from it are 0).
// NewEval must be called whenever the model changes.
func (c *Ctx) NewEval() { c.evGen++ }

func (c *Ctx) Eval(e *Expr, model []uint64) uint64 {
	switch e.op {
	case OConst:
		return e.c
	case OVar:
		if int(e.c) < len(model) {
			return model[e.c] & mask(e.w)
		}
		return 0
	}
	if e.evGen == c.evGen {
		return e.evVal
	}
	var v uint64
	switch e.op {
	case OIte:
		if c.Eval(e.a, model) == 1 {
			v = c.Eval(e.b, model)
		} else {
			v = c.Eval(e.d, model)
		}
	case OAnd:
		v = c.Eval(e.a, model)
		if v == 1 {
			v = c.Eval(e.b, model)
		}
	case OOr:
		v = c.Eval(e.a, model)
		if v == 0 {
			v = c.Eval(e.b, model)
		}
	default:
		a := c.Eval(e.a, model)
		var b uint64
		if e.b != nil {
			b = c.Eval(e.b, model)
		}
		v = evalOp(e.op, e.w, e.a.w, a, b, 0)
	}
	e.evGen, e.evVal = c.evGen, v
	return v
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (e *Expr) String() string { return e.str(6) }

func (e *Expr) str(d int) string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			return fmt.Sprint(e.c == 1)
		}
		return fmt.Sprintf("%d", e.c)
	case OVar:
		return fmt.Sprintf("v%d_%d", e.c, e.w)
	}
	if d == 0 {
		return "…"
	}
	s := "(" + opSMT[e.op]
	switch e.op {
	case OZExt:
		s = "(zext"
	case OSExt:
		s = "(sext"
	case OTrunc:
		s = "(trunc"
	}
	for _, x := range [3]*Expr{e.a, e.b, e.d} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}

// Reset drops every term that is not a constant.
func (c *Ctx) Reset() {
	for k, e := range c.tab {
		if e.op != OConst {
			delete(c.tab, k)
		}
	}
	nt := make(map[ekey]*Expr, len(c.tab)*2)
	for k, e := range c.tab {
		nt[k] = e
	}
	c.tab = nt
}
