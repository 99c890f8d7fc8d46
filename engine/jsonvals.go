package main

// encoding/json: texts are concrete, or documents of an object whose members
// are symbolic.

import (
	"bytes"
	"encoding/json"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// jsonDoc is an object of symbolic terms and numbers, in order.
type jsonDoc struct {
	terms []Str
	ids   []*Expr
}

// jval is a JSON value.
type jval struct {
	kind byte // n(ull) t(rue/false) s(tring) d(number) a(rray) o(bject)
	b    bool
	s    Str
	num  string
	e    *Expr // a symbolic number
	keys []Str
	vals []*jval
	raw  []byte
}

func (m *Machine) docValue(d *jsonDoc) *jval {
	v := &jval{kind: 'o'}
	for i, t := range d.terms {
		v.keys = append(v.keys, t)
		v.vals = append(v.vals, &jval{kind: 'd', e: d.ids[i]})
	}
	return v
}

// parseJSON reads one value of a valid text.
func (m *Machine) parseJSON(raw []byte) *jval {
	v := &jval{raw: raw}
	t := bytes.TrimLeft(raw, " \t\r\n")
	if len(t) == 0 {
		panic(unsupported("empty JSON value"))
	}
	switch t[0] {
	case 'n':
		v.kind = 'n'
	case 't', 'f':
		v.kind, v.b = 't', t[0] == 't'
	case '"':
		v.kind = 's'
		var x string
		json.Unmarshal(t, &x)
		v.s = m.strVal(x)
	case '[':
		v.kind = 'a'
		var l []json.RawMessage
		json.Unmarshal(t, &l)
		for _, r := range l {
			v.vals = append(v.vals, m.parseJSON(r))
		}
	case '{':
		v.kind = 'o'
		dec := json.NewDecoder(bytes.NewReader(t))
		dec.Token()
		for dec.More() {
			k, err := dec.Token()
			if err != nil {
				break
			}
			var r json.RawMessage
			if dec.Decode(&r) != nil {
				break
			}
			v.keys = append(v.keys, m.strVal(k.(string)))
			v.vals = append(v.vals, m.parseJSON(r))
		}
	default:
		v.kind = 'd'
		v.num = string(bytes.TrimSpace(t))
	}
	return v
}

// jsonInto is the value of type t that v gives in place of old.
func (m *Machine) jsonInto(t types.Type, old Value, v *jval, first *string) Value {
	fail := func(what string) Value {
		if *first == "" {
			*first = "json: cannot unmarshal " + what + " into Go value of type " + t.String()
		}
		return old
	}
	switch t.String() {
	case "encoding/json.RawMessage", "encoding/json/jsontext.Value":
		if v.raw == nil {
			panic(unsupported("raw JSON of a symbolic document"))
		}
		return m.bytesSlice(m.strVal(string(v.raw)).b)
	case "encoding/json.Number":
		if v.kind == 'd' && v.e == nil {
			return m.strVal(v.num)
		}
		if v.kind == 'd' {
			return m.strVal(strconv.FormatInt(int64(m.concretize(v.e)), 10))
		}
	}
	if m.prog.lookupMethodName(types.NewPointer(t), "UnmarshalJSON") != nil || m.prog.lookupMethodName(types.NewPointer(t), "UnmarshalText") != nil {
		panic(unsupported("json.Unmarshal into %s", t))
	}
	if v.kind == 'n' {
		switch under(t).(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			return m.zero(t)
		}
		return old
	}
	switch u := under(t).(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			return fail("value")
		}
		return m.jsonAny(v)
	case *types.Pointer:
		p, _ := old.(Ptr)
		if p == nil {
			cell := m.zero(u.Elem())
			p = Ptr(&cell)
		}
		m.store(p, m.jsonInto(u.Elem(), *p, v, first))
		return p
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if v.kind != 't' {
				return fail("value")
			}
			return m.ctx.Bool(v.b)
		case u.Info()&types.IsString != 0:
			if v.kind != 's' {
				return fail("value")
			}
			return v.s
		case u.Info()&types.IsFloat != 0:
			if v.kind != 'd' {
				return fail("value")
			}
			if v.e != nil {
				return Float{float64(int64(m.concretize(v.e)))}
			}
			f, _ := strconv.ParseFloat(v.num, 64)
			return Float{f}
		case u.Info()&types.IsInteger != 0:
			w, sg, _ := intInfo(u)
			if v.kind != 'd' {
				return fail("value")
			}
			if v.e != nil {
				e := v.e
				if w < 64 {
					low := m.ctx.Trunc(e, w)
					back := m.ctx.ZExt(low, 64)
					if sg {
						back = m.ctx.SExt(low, 64)
					}
					if !m.branch(m.ctx.Eq(back, e)) {
						return fail("number")
					}
					return low
				}
				if !sg && m.branch(m.ctx.SLt(e, m.ctx.Const(64, 0))) {
					return fail("number")
				}
				return e
			}
			if sg {
				n, err := strconv.ParseInt(v.num, 10, int(w))
				if err != nil {
					return fail("number " + v.num)
				}
				return m.ctx.Const(w, uint64(n))
			}
			n, err := strconv.ParseUint(v.num, 10, int(w))
			if err != nil {
				return fail("number " + v.num)
			}
			return m.ctx.Const(w, n)
		}
	case *types.Slice:
		if v.kind != 'a' {
			return fail("value")
		}
		out := make(Slice, len(v.vals))
		for i, x := range v.vals {
			out[i] = m.jsonInto(u.Elem(), m.zero(u.Elem()), x, first)
		}
		return out
	case *types.Map:
		if !isString(u.Key()) {
			panic(unsupported("json.Unmarshal into %s", t))
		}
		if v.kind != 'o' {
			return fail("value")
		}
		mp, _ := old.(*Map)
		if mp == nil {
			m.nextMap++
			mp = &Map{idx: map[string]int{}, id: m.nextMap}
		}
		for i, k := range v.keys {
			// a member of the wrong type is left out, unless it is null
			bad := *first
			*first = ""
			x := m.jsonInto(u.Elem(), m.zero(u.Elem()), v.vals[i], first)
			wrong := *first != ""
			if bad != "" {
				*first = bad
			}
			if wrong && !isComposite(u.Elem()) {
				// encoding/json stores the zero value all the same
				x = m.zero(u.Elem())
			}
			m.mapUpdate(u, mp, k, x)
		}
		return mp
	case *types.Struct:
		if v.kind != 'o' {
			return fail("value")
		}
		s := append(Struct(nil), old.(Struct)...)
		for i, k := range v.keys {
			name := m.mustStr(k, "JSON member of a struct")
			for f := 0; f < u.NumFields(); f++ {
				if !u.Field(f).Exported() {
					continue
				}
				tag := reflect.StructTag(u.Tag(f)).Get("json")
				if j := strings.IndexByte(tag, ','); j >= 0 {
					tag = tag[:j]
				}
				if tag == "-" {
					continue
				}
				if tag == "" {
					tag = u.Field(f).Name()
				}
				if strings.EqualFold(tag, name) {
					s[f] = m.jsonInto(u.Field(f).Type(), s[f], v.vals[i], first)
					break
				}
			}
		}
		return s
	}
	panic(unsupported("json.Unmarshal into %s", t))
}

func isComposite(t types.Type) bool {
	switch under(t).(type) {
	case *types.Map, *types.Slice, *types.Struct, *types.Pointer:
		return true
	}
	return false
}

// jsonAny is what an empty interface gets.
func (m *Machine) jsonAny(v *jval) Value {
	any := types.NewInterfaceType(nil, nil)
	switch v.kind {
	case 't':
		return Iface{types.Typ[types.Bool], m.ctx.Bool(v.b)}
	case 's':
		return Iface{types.Typ[types.String], v.s}
	case 'd':
		f := 0.0
		if v.e != nil {
			f = float64(int64(m.concretize(v.e)))
		} else {
			f, _ = strconv.ParseFloat(v.num, 64)
			if math.IsInf(f, 0) {
				panic(unsupported("JSON number %s", v.num))
			}
		}
		return Iface{types.Typ[types.Float64], Float{f}}
	case 'a':
		out := make(Slice, len(v.vals))
		for i, x := range v.vals {
			out[i] = m.jsonAny(x)
		}
		return Iface{types.NewSlice(any), out}
	case 'o':
		mt := types.NewMap(types.Typ[types.String], any)
		m.nextMap++
		mp := &Map{idx: map[string]int{}, id: m.nextMap}
		for i, k := range v.keys {
			m.mapUpdate(mt, mp, k, m.jsonAny(v.vals[i]))
		}
		return Iface{mt, mp}
	}
	return Iface{}
}

func (m *Machine) jsonUnmarshal(fr *Frame, doc *jsonDoc, data []*Expr, dst Iface, one bool) (Value, int) {
	var v *jval
	used := len(data)
	if doc != nil {
		v = m.docValue(doc)
	} else {
		raw := make([]byte, len(data))
		for i, e := range data {
			if !e.isConst() {
				panic(unsupported("symbolic JSON text"))
			}
			raw[i] = byte(e.c)
		}
		var x json.RawMessage
		if one {
			dec := json.NewDecoder(bytes.NewReader(raw))
			if err := dec.Decode(&x); err != nil {
				if err.Error() == "EOF" {
					return m.ioEOF(), used
				}
				return m.mkError(m.strVal(err.Error())), used
			}
			used = int(dec.InputOffset())
		} else if err := json.Unmarshal(raw, &x); err != nil {
			return m.mkError(m.strVal(err.Error())), used
		}
		v = m.parseJSON(x)
	}
	if dst.t == nil {
		return m.mkError(m.strVal("json: Unmarshal(nil)")), used
	}
	pt, ok := under(dst.t).(*types.Pointer)
	cell, ok2 := dst.v.(Ptr)
	if !ok || !ok2 || cell == nil {
		return m.mkError(m.strVal("json: Unmarshal(non-pointer)")), used
	}
	first := ""
	m.store(cell, m.jsonInto(pt.Elem(), *cell, v, &first))
	if first != "" {
		return m.mkError(m.strVal(first)), used
	}
	return Iface{}, used
}

// source finds the text that a reader has left: its file, or its bytes.
func (m *Machine) source(fr *Frame, r Iface) (*openFile, *jsonDoc, []*Expr) {
	p, _ := r.v.(Ptr)
	if of := m.open[p]; of != nil && p != nil {
		return of, of.f.doc, of.f.data[of.pos:]
	}
	if r.t == nil || p == nil {
		panic(unsupported("json.Decoder on %s", r.t))
	}
	field := func(name string) Value {
		st := under(under(r.t).(*types.Pointer).Elem()).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return (*p).(Struct)[i]
			}
		}
		panic(unsupported("json.Decoder on %s", r.t))
	}
	switch r.t.String() {
	case "*bufio.Reader":
		if m.cint(field("r")) != m.cint(field("w")) {
			panic(unsupported("json.Decoder on a reader that was used"))
		}
		return m.source(fr, field("rd").(Iface))
	case "*bytes.Reader":
		s := field("s").(Slice)
		i := m.cint(field("i"))
		var d *jsonDoc
		if len(s) > 0 && i == 0 {
			d = m.docs[&s[0]]
		}
		return nil, d, bytesOf(s[i:])
	case "*strings.Reader":
		return nil, nil, bytesOf(field("s"))[m.cint(field("i")):]
	}
	panic(unsupported("json.Decoder on %s", r.t))
}

func initJSON(reg func(f intrinsic, names ...string)) {
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		data := a[0].(Slice)
		var doc *jsonDoc
		if len(data) > 0 {
			doc = m.docs[&data[0]]
		}
		e, _ := m.jsonUnmarshal(fr, doc, bytesOf(data), a[1].(Iface), false)
		return e
	}, "encoding/json.Unmarshal")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		data := a[0].(Slice)
		if len(data) > 0 && m.docs[&data[0]] != nil {
			return m.ctx.T
		}
		raw := make([]byte, len(data))
		for i, e := range bytesOf(data) {
			if !e.isConst() {
				panic(unsupported("symbolic JSON text"))
			}
			raw[i] = byte(e.c)
		}
		return m.ctx.Bool(json.Valid(raw))
	}, "encoding/json.Valid")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		var cell Value = Struct{a[0], m.i64(0)}
		return Ptr(&cell)
	}, "encoding/json.NewDecoder")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		d := (*m.ptr(a[0])).(Struct)
		of, doc, data := m.source(fr, d[0].(Iface))
		if doc != nil && m.cint(d[1]) > 0 {
			return m.ioEOF()
		}
		at := 0
		if of == nil { // of a file the position moves
			at = int(m.cint(d[1]))
		}
		e, used := m.jsonUnmarshal(fr, doc, data[at:], a[1].(Iface), true)
		if of != nil {
			of.pos += used
			m.store(&d[1], m.i64(1))
		} else {
			m.store(&d[1], m.i64(at+used))
		}
		return e
	}, "(*encoding/json.Decoder).Decode")
	reg(func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		d := (*m.ptr(a[0])).(Struct)
		of, doc, data := m.source(fr, d[0].(Iface))
		if doc != nil {
			return m.ctx.Bool(m.cint(d[1]) == 0)
		}
		if of == nil {
			data = data[m.cint(d[1]):]
		}
		for _, e := range data {
			switch c := byte(m.concretize(e)); c {
			case ' ', '\t', '\r', '\n':
			case ']', '}':
				return m.ctx.F
			default:
				return m.ctx.T
			}
		}
		return m.ctx.F
	}, "(*encoding/json.Decoder).More")
}
