package main

import (
	"fmt"
	"go/types"
	"reflect"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Scalars are *Expr.  Floats are Float (concrete) or FracF (symbolic draw in [0,1)).
type Float struct{ f float64 }

// FracF is the value scale * u / 2^16 + off, u a 16-bit term.
type FracF struct {
	u          *Expr
	scale, off float64
}

func newFrac(u *Expr) FracF { return FracF{u, 1, 0} }

type Complex struct{ c complex128 }

// Str is a string: concrete length, symbolic bytes.
type Str struct{ b []*Expr }

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value
type Ptr = *Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn    *ssa.Function
	bound []Value
}

// NativeFn is a function value implemented by the engine.
type NativeFn struct {
	name string
	f    func(m *Machine, args []Value) Value
}

// UnsafePtr wraps the result of unsafe.SliceData/StringData.
type UnsafeData struct {
	sl  Slice
	str *Str
}

type MapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	entries []*MapEntry // live and dead, insertion order
	n       int         // live entries
	idx     map[string]int
	nsym    int         // entries with symbolic keys
	syms    []*MapEntry // the entries put in with symbolic keys, dead ones too
	id      int
}

type StrIter struct {
	s   Str
	pos int
}
type MapIter struct {
	m     *Map
	order []*MapEntry
	pos   int
}

var nilIface = Iface{}

func isNilPtr(v Value) bool {
	switch p := v.(type) {
	case nil:
		return true
	case Ptr:
		return p == nil
	}
	return false
}

// under returns the underlying type with type parameters already substituted.
func under(t types.Type) types.Type { return t.Underlying() }

// intInfo reports width and signedness of an integer-like basic type.
func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.UntypedInt, types.Int64:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (m *Machine) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if w, _, ok := intInfo(u); ok {
			return m.ctx.Const(w, 0)
		}
		switch {
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsFloat != 0:
			return Float{0}
		case u.Info()&types.IsComplex != 0:
			return Complex{}
		case u.Kind() == types.UnsafePointer:
			return Ptr(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = m.zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = m.zero(u.At(i).Type())
		}
		return tp
	}
	panic(unsupported("zero value of %s", t))
}

type unsupportedErr struct{ msg string }

func unsupported(f string, args ...interface{}) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, args...)}
}

// load copies aggregate contents out of memory.
func load(v Value) Value {
	switch x := v.(type) {
	case Struct:
		y := make(Struct, len(x))
		for i, e := range x {
			y[i] = load(e)
		}
		return y
	case Array:
		y := make(Array, len(x))
		for i, e := range x {
			y[i] = load(e)
		}
		return y
	}
	return v
}

// store writes v into the cell, keeping sub-cell identities.
func (m *Machine) store(cell Ptr, v Value) {
	switch x := v.(type) {
	case Struct:
		if dst, ok := (*cell).(Struct); ok && len(dst) == len(x) {
			for i := range x {
				m.store(&dst[i], x[i])
			}
			return
		}
		v = load(x)
	case Array:
		if dst, ok := (*cell).(Array); ok && len(dst) == len(x) {
			for i := range x {
				m.store(&dst[i], x[i])
			}
			return
		}
		v = load(x)
	}
	m.noteWrite(cell)
	m.trail = append(m.trail, trailEntry{cell: cell, old: *cell})
	*cell = v
}

// goCap emulates the capacity chosen by append's growslice.
type capKey struct {
	size   int64
	ptrs   bool
	len    int
	cap    int
	newLen int
}

func hasPointers(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (m *Machine) growCap(elem types.Type, oldLen, oldCap, newLen int) int {
	size := m.prog.sizes.Sizeof(elem)
	if size == 0 {
		return newLen
	}
	k := capKey{size, hasPointers(elem), oldLen, oldCap, newLen}
	if c, ok := m.capCache[k]; ok {
		return c
	}
	var et reflect.Type
	if k.ptrs && size%8 == 0 {
		et = reflect.ArrayOf(int(size/8), reflect.TypeOf((*int)(nil)))
	} else if size%8 == 0 {
		et = reflect.ArrayOf(int(size/8), reflect.TypeOf(uint64(0)))
	} else {
		et = reflect.ArrayOf(int(size), reflect.TypeOf(uint8(0)))
	}
	st := reflect.SliceOf(et)
	s := reflect.MakeSlice(st, oldLen, oldCap)
	s = reflect.AppendSlice(s, reflect.MakeSlice(st, newLen-oldLen, newLen-oldLen))
	c := s.Cap()
	m.capCache[k] = c
	return c
}

func sliceData(s Slice) unsafe.Pointer { return unsafe.Pointer(unsafe.SliceData([]Value(s))) }

// keyString canonicalises a concrete value for map indexing.
func keyString(v Value) (string, bool) {
	switch x := v.(type) {
	case *Expr:
		if x.isConst() {
			return fmt.Sprintf("%d:%d", x.w, x.c), true
		}
		return "", false
	case Str:
		buf := make([]byte, 0, len(x.b)+1)
		buf = append(buf, 's')
		for _, e := range x.b {
			if !e.isConst() {
				return "", false
			}
			buf = append(buf, byte(e.c))
		}
		return string(buf), true
	case Float:
		return fmt.Sprintf("f%v", x.f), true
	case Struct:
		s := "{"
		for _, e := range x {
			k, ok := keyString(e)
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%d#%s", len(k), k)
		}
		return s + "}", true
	case Array:
		s := "["
		for _, e := range x {
			k, ok := keyString(e)
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%d#%s", len(k), k)
		}
		return s + "]", true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := keyString(x.v)
		return "i" + x.t.String() + "|" + k, ok
	case Ptr:
		return fmt.Sprintf("p%p", x), true
	case *Map:
		return fmt.Sprintf("m%p", x), true
	}
	return "", false
}

func concreteStr(s Str) (string, bool) {
	buf := make([]byte, len(s.b))
	for i, e := range s.b {
		if !e.isConst() {
			return "", false
		}
		buf[i] = byte(e.c)
	}
	return string(buf), true
}

func (m *Machine) strVal(s string) Str {
	b := make([]*Expr, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = m.ctx.bytes[s[i]]
	}
	return Str{b}
}
