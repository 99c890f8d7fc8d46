// Package c06: slices.
package c06

import (
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// check asserts that sl is the part cs of a text whose root is root.
func check(sl *normalizedstring.NormalizedString, cs []lib.Ch, root string) {
	sym.Assert(sl.Get() == lib.Join(cs), "the slice is not the text of the range")
	o := sl.OriginalOffsets()
	sym.Observe("slice", sl.Get(), o.Start, o.End)
	sym.Assert(o.Start >= 0 && o.Start <= o.End && o.End <= len(root), "the slice's offsets are outside the root text")
	sym.Assert(sl.GetOriginal() == root[o.Start:o.End], "the slice's original is not the root text at its offsets")
	sym.Assert(sl.OriginalLen() == o.End-o.Start, "wrong original length")
	sym.Assert(lib.Aligned(sl, cs, o.Start), "characters convert to other absolute ranges than before")
	if len(cs) > 0 {
		sym.Assert(o.Start == cs[0].S, "offsets do not start at the first character's original")
		sym.Assert(o.End == cs[len(cs)-1].E, "offsets do not end at the last character's original")
	}
}

func cut(cs []lib.Ch) (int, int) {
	i := sym.Choose(len(cs) + 1)
	return i, i + sym.Choose(len(cs)+1-i)
}

// byRange slices by the characters [i,j).
func byRange(ns *normalizedstring.NormalizedString, cs []lib.Ch, i, j int, root string) *normalizedstring.NormalizedString {
	sl, ok := ns.Slice(normalizedstring.NewNormalizedRange(lib.Pos(cs, i), lib.Pos(cs, j)))
	sym.Assert(ok, "slicing on character boundaries is unsuccessful")
	if !ok {
		return nil
	}
	check(sl, cs[i:j], root)
	return sl
}

// H_slice: every range on character boundaries.
func H_slice() {
	ns, cs, s := lib.Reachable(sym.Choose(lib.Size(4, 5)), 3)
	i, j := cut(cs)
	byRange(ns, cs, i, j, s)
	lib.Check(ns, cs, s, "sliced string")
	if i == j {
		sym.Reach("empty slice")
	}
}

// H_slices_of_slices: three levels.
func H_slices_of_slices() {
	ns, cs, s := lib.Reachable(lib.Size(3, 4), 2)
	for k := 0; k < lib.Size(2, 3); k++ {
		i, j := cut(cs)
		sl := byRange(ns, cs, i, j, s)
		if sl == nil {
			return
		}
		ns, cs = sl, cs[i:j]
	}
}

// H_edited_between: slice, edit, slice again.
func H_edited_between() {
	ns, cs, s := lib.Reachable(3, 2)
	i, j := cut(cs)
	sl := byRange(ns, cs, i, j, s)
	if sl == nil {
		return
	}
	cs = cs[i:j]
	sl.Filter(func(r rune) bool { return sym.Pred("between", r) })
	var out []lib.Ch
	for _, c := range cs {
		if sym.Pred("between", c.R) {
			out = append(out, c)
		}
	}
	i, j = cut(out)
	byRange(sl, out, i, j, s)
}

// H_any_range: every pair of integers; valid exactly on boundaries in order.
func H_any_range() {
	ns, cs, s := lib.Reachable(sym.Choose(3), 3)
	text := lib.Join(cs)
	a := sym.Int(-1<<40, 1<<40)
	b := sym.Int(-1<<40, 1<<40)
	sl, ok := ns.Slice(normalizedstring.NewNormalizedRange(a, b))
	st := lib.Starts(text)
	i, j := -1, -1
	for k, p := range st {
		if p == a {
			i = k
		}
		if p == b {
			j = k
		}
	}
	valid := i >= 0 && j >= 0 && i <= j
	sym.Assert(ok == valid, "a slice succeeds exactly on ordered character boundaries")
	if ok && valid {
		check(sl, cs[i:j], s)
		sym.Reach("valid")
	} else {
		sym.Assert(sl == nil, "an unsuccessful slice is not nil")
		sym.Reach("invalid")
	}
	lib.Check(ns, cs, s, "sliced string")
}

// H_original_range: ranges of the original text.
func H_original_range() {
	ns, cs, s := lib.Reachable(sym.Choose(lib.Size(3, 4)), lib.Size(2, 3))
	a := sym.Int(-1<<40, 1<<40)
	b := sym.Int(-1<<40, 1<<40)
	byOriginal(ns, cs, s, 0, s, a, b)
}

// H_original_twice: ranges of the original text of an edited slice.
func H_original_twice() {
	s := sym.Text(lib.Size(3, 4), 2)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	i := sym.Choose(2)
	j := lib.Size(3, 4) - sym.Choose(2)
	sl := byRange(ns, cs, i, j, s)
	if sl == nil {
		return
	}
	base, end := cs[i].S, cs[j-1].E
	var out []lib.Ch
	for _, c := range cs[i:j] {
		if sym.Pred("between", c.R) {
			out = append(out, c)
		}
	}
	sl.Filter(func(r rune) bool { return sym.Pred("between", r) })
	a := sym.Choose(end - base + 1)
	b := a + sym.Choose(end-base+1-a)
	byOriginal(sl, out, s, base, s[base:end], a, b)
}

// byOriginal slices by the original range [a,b) a string whose original is
// text, found at base in the root.
func byOriginal(ns *normalizedstring.NormalizedString, cs []lib.Ch, root string, base int, text string, a, b int) {
	sl, ok := ns.Slice(normalizedstring.NewOriginalRange(a, b))
	valid := a <= b && lib.Boundary(text, a) && lib.Boundary(text, b)
	if !valid {
		sym.Assert(!ok, "a slice off character boundaries succeeds")
		sym.Reach("invalid")
		return
	}
	i, j := -1, -1
	for k, c := range cs {
		if c.S < c.E && c.S >= base+a && c.E <= base+b {
			if i < 0 {
				i = k
			}
			j = k + 1
		}
	}
	if i < 0 {
		// nothing of it is left: an empty slice or unsuccessful
		if ok {
			sym.Assert(sl.Get() == "", "a slice of removed text is not empty")
			o := sl.OriginalOffsets()
			sym.Observe("slice", o.Start, o.End)
			sym.Assert(o.Start == base+a && o.End == base+b && sl.GetOriginal() == text[a:b], "a slice of removed text has another original")
		} else {
			sym.Assert(a < b, "an empty original range is unsuccessful")
		}
		sym.Reach("nothing left")
		return
	}
	sym.Assert(ok, "a slice by an original range is unsuccessful")
	if !ok {
		return
	}
	o := sl.OriginalOffsets()
	sym.Assert(sl.Get() == lib.Join(cs[i:j]), "the slice is not the text of the range")
	sym.Assert(o.Start == base+a && o.End == base+b, "the slice's offsets are not the range")
	sym.Assert(sl.GetOriginal() == root[base+a:base+b], "the slice's original is not the root text at its offsets")
	sym.Assert(lib.Aligned(sl, cs[i:j], base+a), "characters convert to other absolute ranges than before")
	sym.Reach("text left")
}

// H_apart: editing a slice or the sliced string does not change the other.
func H_apart() {
	ns, cs, s := lib.Reachable(lib.Size(3, 4), 2)
	i, j := cut(cs)
	sl := byRange(ns, cs, i, j, s)
	if sl == nil {
		return
	}
	part := cs[i:j]
	edit := func(ns *normalizedstring.NormalizedString, cs []lib.Ch) {
		switch sym.Choose(3) {
		case 0:
			cs = lib.Shift(ns, cs)
			lib.Shift(ns, cs)
		case 1:
			ns.Map(func(r rune) rune { return r ^ 1 })
			ns.Append("z")
		case 2:
			ns.Prepend("é")
			ns.Filter(func(r rune) bool { return r == 'é' })
		}
	}
	if sym.Choose(2) == 1 {
		edit(sl, part)
		lib.Check(ns, cs, s, "the string an edited slice was cut from")
	} else {
		edit(ns, cs)
		check(sl, part, s)
	}
}

// H_long: long texts.
func H_long() {
	ps := lib.Pads()
	p := ps[sym.Choose(len(ps))]
	long(p, lib.Fill(p), 3)
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() {
	n := lib.Huge()
	s := lib.Filler(n) + sym.Text(2, 2) + lib.Filler(100)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	i := []int{0, 1, n - 1, n}[sym.Choose(4)]
	sl := byRange(ns, cs, i, len(cs)-90, s)
	if sl == nil {
		return
	}
	cs = cs[i : len(cs)-90]
	byRange(sl, cs, len(cs)-11, len(cs)-1, s)
}

func long(p int, pad string, maxw int) {
	s := sym.Text(1, maxw) + pad + sym.Text(1, maxw) + lib.Filler(p/3)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	if sym.Choose(2) == 1 {
		ns.Prepend("é▁")
		cs = lib.Concat(lib.Inserted("é▁", cs[0].S, cs[0].E), cs)
	}
	at := func(k int) int { return []int{0, 1, k / 2, k - 1, k}[sym.Choose(5)] }
	i, j := at(len(cs)), at(len(cs))
	sym.Assume(i <= j)
	sl := byRange(ns, cs, i, j, s)
	if sl == nil || i == j {
		return
	}
	cs = cs[i:j]
	if sym.Quick() {
		i, j = sym.Choose(2)*(len(cs)/2), len(cs)-sym.Choose(2)*(len(cs)/3)
	} else {
		i, j = at(len(cs)), at(len(cs))
	}
	sym.Assume(i <= j)
	byRange(sl, cs, i, j, s)
}

// H_deep: slices of slices of slices, with insertions in between.
func H_deep() {
	s := sym.Text(1, 2) + "aé▁b–ç" + sym.Text(1, 2)
	ns, cs := normalizedstring.FromString(s), lib.Chars(s)
	for k := 0; k < lib.Size(6, 8); k++ {
		i, j := 0, len(cs)
		switch sym.Choose(3) {
		case 0:
			i = 1
		case 1:
			j--
		}
		if j < i {
			return
		}
		sl := byRange(ns, cs, i, j, s)
		if sl == nil {
			return
		}
		ns, cs = sl, append([]lib.Ch(nil), cs[i:j]...)
		if k%3 == 1 && len(cs) > 0 {
			ns.Prepend("é")
			cs = lib.Concat(lib.Inserted("é", cs[0].S, cs[0].E), cs)
		}
	}
}
