// Package c02: filter, trim and map keep exact provenance.
package c02

import (
	"unicode"

	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

func keep(r rune) bool   { return sym.Pred("keep", r) }
func mapped(r rune) rune { return sym.RuneFn("map", r) }

func filtered(cs []lib.Ch) []lib.Ch {
	var out []lib.Ch
	for _, c := range cs {
		if keep(c.R) {
			out = append(out, c)
		}
	}
	return out
}

func space(r rune) bool { return unicode.Is(unicode.White_Space, r) }

func trimmed(cs []lib.Ch, left, right bool) []lib.Ch {
	for left && len(cs) > 0 && space(cs[0].R) {
		cs = cs[1:]
	}
	for right && len(cs) > 0 && space(cs[len(cs)-1].R) {
		cs = cs[:len(cs)-1]
	}
	return cs
}

// H_filter: every text, every keep-predicate.
func H_filter() {
	n := sym.Choose(lib.Size(5, 6))
	s := sym.Text(n, 4)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	lib.Check(ns, cs, s, "FromString")
	ns.Filter(keep)
	want := filtered(cs)
	lib.Check(ns, want, s, "Filter")
	if len(want) < len(cs) {
		sym.Reach("something removed")
	}
	if len(want) == 0 {
		sym.Reach("nothing left")
	}
}

// H_filter_twice: two filters, the second on an already edited text.
func H_filter_twice() {
	s := sym.Text(lib.Size(3, 4), 3)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	ns.Filter(keep)
	want := filtered(cs)
	ns.Filter(func(r rune) bool { return sym.Pred("second", r) })
	var w2 []lib.Ch
	for _, c := range want {
		if sym.Pred("second", c.R) {
			w2 = append(w2, c)
		}
	}
	lib.Check(ns, w2, s, "two Filters")
}

// H_map: every text, every mapping.
func H_map() {
	n := sym.Choose(lib.Size(4, 5))
	s := sym.Text(n, 4)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	ns.Map(mapped)
	var want []lib.Ch
	for _, c := range cs {
		want = append(want, lib.With(c, mapped(c.R)))
	}
	lib.Check(ns, want, s, "Map")
}

// H_map_then_filter: widths changed by the mapping, then removal.
func H_map_then_filter() {
	s := sym.Text(2, 4)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	ns.Map(mapped)
	var want []lib.Ch
	for _, c := range cs {
		want = append(want, lib.With(c, mapped(c.R)))
	}
	ns.Filter(keep)
	lib.Check(ns, filtered(want), s, "Map then Filter")
}

// H_case: ToLower and ToUpper are the Unicode mappings.
func H_case() {
	n := sym.Choose(lib.Size(3, 4))
	s := sym.Text(n, 4)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	f := unicode.ToLower
	if sym.Choose(2) == 1 {
		f = unicode.ToUpper
		ns.ToUpper()
	} else {
		ns.ToLower()
	}
	var want []lib.Ch
	for _, c := range cs {
		want = append(want, lib.With(c, f(c.R)))
	}
	lib.Check(ns, want, s, "ToLower/ToUpper")
}

// H_trim: every text, every side.
func H_trim() {
	n := sym.Choose(lib.Size(5, 6))
	s := sym.Text(n, 3)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	var want []lib.Ch
	switch sym.Choose(5) {
	case 0:
		ns.Trim()
		want = trimmed(cs, true, true)
	case 1:
		ns.TrimLeft()
		want = trimmed(cs, true, false)
	case 2:
		ns.TrimRight()
		want = trimmed(cs, false, true)
	case 3:
		ns.TrimLeftRight(false, false)
		want = cs
	case 4:
		ns.TrimLeftRight(true, true)
		want = trimmed(cs, true, true)
	}
	lib.Check(ns, want, s, "Trim")
	if len(want) == 0 && len(cs) > 0 {
		sym.Reach("all white space")
	}
}

// H_long: long texts around a few arbitrary characters.
func H_long() {
	ps := lib.Pads()
	long(lib.Fill(ps[sym.Choose(len(ps))]), 4)
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() {
	s := "  é" + lib.Filler(lib.Huge()) + sym.Text(1, 2) + "b \t"
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	var want []lib.Ch
	switch sym.Choose(4) {
	case 0:
		ns.Filter(func(r rune) bool { return r == 'b' || r > 'z' })
		for _, c := range cs {
			if c.R == 'b' || c.R > 'z' {
				want = append(want, c)
			}
		}
	case 1:
		ns.Trim()
		want = trimmed(cs, true, true)
	case 2:
		up := func(r rune) rune {
			if r == 'b' {
				return 'É'
			}
			return r
		}
		ns.Map(up)
		for _, c := range cs {
			want = append(want, lib.With(c, up(c.R)))
		}
	case 3:
		ns.ToLower()
		for _, c := range cs {
			want = append(want, lib.With(c, unicode.ToLower(c.R)))
		}
	}
	lib.Check(ns, want, s, "huge text")
}

func long(pad string, maxw int) {
	a, b := sym.Text(1, maxw), sym.Text(1, maxw)
	s := a + pad + b
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	var want []lib.Ch
	switch sym.Choose(4) {
	case 3:
		// Everything but one of the ends, or both of them
		ra, rb := cs[0].R, cs[len(cs)-1].R
		f := func(r rune) bool { return r == ra || r == rb }
		ns.Filter(f)
		for _, c := range cs {
			if f(c.R) {
				want = append(want, c)
			}
		}
	case 0:
		ra, rb := cs[0].R, cs[len(cs)-1].R
		f := func(r rune) bool { return r != ra && r != rb && r != 'c' }
		ns.Filter(f)
		for _, c := range cs {
			if f(c.R) {
				want = append(want, c)
			}
		}
	case 1:
		ns.Trim()
		want = trimmed(cs, true, true)
	case 2:
		ns.ToUpper()
		for _, c := range cs {
			want = append(want, lib.With(c, unicode.ToUpper(c.R)))
		}
	}
	lib.Check(ns, want, s, "long text")
}

// H_of_slice: editing a slice of an edited text.
func H_of_slice() {
	s := sym.Text(lib.Size(3, 4), 3)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	ns.Filter(keep)
	want := filtered(cs)
	sym.Assume(len(want) > 1)
	k := len(want[0].T)
	sl, ok := ns.Slice(normalizedstring.NewNormalizedRange(k, ns.Len()))
	sym.Assert(ok, "slice failed")
	if !ok {
		return
	}
	want = want[1:]
	shift := sl.OriginalOffsets().Start
	sl.Trim()
	want = trimmed(want, true, true)
	sym.Assert(sl.Get() == lib.Join(want), "trimmed slice: wrong text")
	sym.Assert(lib.Aligned(sl, want, shift), "trimmed slice: wrong alignment")
}
