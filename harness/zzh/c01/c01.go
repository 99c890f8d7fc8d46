// Package c01: alignment integrity under any edit history.
package c01

import (
	"unicode"

	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

const nEdits = 12

// edit applies the k-th kind of edit.
func edit(ns *normalizedstring.NormalizedString, kind int, tag string) {
	switch kind {
	case 0:
		ns.Filter(func(r rune) bool { return sym.Pred("keep"+tag, r) })
	case 1:
		ns.Map(func(r rune) rune { return sym.RuneFn("map"+tag, r) })
	case 2:
		ns.TrimLeft()
	case 3:
		ns.TrimRight()
	case 4:
		ns.Trim()
	case 5:
		ns.Prepend(insert())
	case 6:
		ns.Append(insert())
	case 7:
		err := ns.Replace(splitpattern.FromFunc(func(r rune) bool { return sym.Pred("hit"+tag, r) }), replacement())
		sym.Assert(err == nil, "Replace failed")
	case 8:
		ns.ToLower()
	case 9:
		transform(ns, 0, runes(ns.Get()), tag)
	case 10:
		// a range in the middle
		rs := []rune(ns.Get())
		st := lib.Starts(ns.Get())
		i := sym.Choose(len(st))
		j := i + sym.Choose(len(st)-i)
		transformRange(ns, st[i], st[j], rs[i:j])
	case 11:
		ns.ToUpper()
	}
}

// insert is one narrow, one wide or two characters.
func insert() string {
	switch sym.Choose(lib.Size(2, 3)) {
	case 0:
		return string(sym.RuneW(1))
	case 1:
		return string(sym.RuneW(3))
	}
	return string(sym.RuneW(2)) + string(sym.RuneW(1))
}

func replacement() string {
	if sym.Choose(2) == 0 {
		return ""
	}
	return insert()
}

func runes(s string) int { return len([]rune(s)) }

// changes makes a consistent change list for n replaced characters.
func changes(n int) ([]normalizedstring.RuneChange, int) {
	init := sym.Choose(n + 1)
	left := n - init
	var out []normalizedstring.RuneChange
	for len(out) < lib.Size(2, 3) {
		switch sym.Choose(3) {
		case 0: // stop
			return out, init
		case 1: // insertion
			out = append(out, normalizedstring.RuneChange{Rune: sym.RuneW(1 + sym.Choose(2)*2), Change: 1})
		case 2: // replacement, dropping some more
			if left == 0 {
				return out, init
			}
			drop := sym.Choose(left)
			out = append(out, normalizedstring.RuneChange{Rune: sym.RuneW(1 + sym.Choose(2)*2), Change: -drop})
			left -= 1 + drop
		}
	}
	return out, init
}

func transform(ns *normalizedstring.NormalizedString, from, n int, tag string) {
	c, init := changes(n)
	ns.Transform(c, init)
}

func transformRange(ns *normalizedstring.NormalizedString, a, b int, rs []rune) {
	c, init := changes(len(rs))
	ns.TransformRange(normalizedstring.NewNormalizedRange(a, b), c, init)
}

func history(n, maxw, steps int, kinds []int) {
	s := sym.Text(n, maxw)
	ns := normalizedstring.FromString(s)
	for k := 0; k < steps; k++ {
		edit(ns, kinds[sym.Choose(len(kinds))], string(rune('0'+k)))
		sym.Observe("text", ns.Get())
	}
	sym.Assert(ns.OriginalOffsets().Start == 0 && ns.OriginalOffsets().End == len(s), "an edit changed the original offsets")
	sym.Assert(ns.GetOriginal() == s, "an edit changed the original")
	lib.Integrity(ns, s, "after edits")
	if ns.IsEmpty() {
		sym.Reach("empty result")
	} else {
		sym.Reach("text left")
	}
}

var all = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}

// H_one: every single edit.
func H_one() { history(sym.Choose(3), lib.Size(3, 4), 1, all) }

// H_one_more: every single edit of three (four) characters.
func H_one_more() {
	if sym.Quick() {
		history(3, 2, 1, []int{0, 1, 2, 3, 4, 5, 6, 7, 9})
	} else {
		history(4, 2, 1, all)
	}
}

// H_two: every pair of edits.
func H_two() {
	if sym.Quick() {
		history(2, 2, 2, []int{0, 1, 3, 5, 6, 7})
	} else {
		history(2, 3, 2, all[:9])
	}
}

// H_two_transforms: pairs of edits with arbitrary change lists.
func H_two_transforms() { history(lib.Size(1, 2), lib.Size(2, 3), 2, []int{0, 5, 9, 10}) }

// H_three: longer histories of the width-changing edits.
func H_three() {
	if sym.Quick() {
		history(2, 2, 3, []int{0, 5, 7})
	} else {
		history(2, 3, 3, []int{0, 2, 5, 6, 7})
	}
}

// H_four: histories of four edits.
func H_four() {
	if sym.Quick() {
		history(1, 2, 4, []int{0, 5, 7})
	} else {
		history(2, 2, 4, []int{0, 4, 5, 7})
	}
}

// H_slices: edits, a slice, edits of the slice.
func H_slices() {
	s := sym.Text(lib.Size(3, 4), 2)
	ns := normalizedstring.FromString(s)
	edit(ns, []int{0, 4, 5, 7}[sym.Choose(4)], "a")
	before := ns.Get()
	st := lib.Starts(before)
	i := sym.Choose(len(st))
	j := i + sym.Choose(len(st)-i)
	sl, ok := ns.Slice(normalizedstring.NewNormalizedRange(st[i], st[j]))
	sym.Assert(ok, "slicing on character boundaries failed")
	if !ok {
		return
	}
	edit(sl, []int{0, 5, 6, 7}[sym.Choose(4)], "b")
	lib.Integrity(sl, s, "edited slice")
	lib.Integrity(ns, s, "sliced text")
	sym.Assert(ns.Get() == before, "editing a slice changed the sliced text")
}

// H_long: long texts.
func H_long() {
	ps := lib.Pads()
	p := ps[sym.Choose(len(ps))]
	s := sym.Text(1, 4) + lib.Fill(p) + sym.Text(1, 3)
	ns := normalizedstring.FromString(s)
	k := sym.Choose(6)
	switch k {
	case 0:
		ns.Prepend(sym.Text(1, 3))
		ns.TrimLeft()
	case 1:
		ns.Append(sym.Text(1, 3))
		ns.TrimRight()
	case 2:
		err := ns.Replace(splitpattern.FromRune('c'), sym.Text(sym.Choose(3), 2))
		sym.Assert(err == nil, "Replace failed")
	case 3:
		ns.Filter(func(r rune) bool { return r != 'b' && !unicode.IsSpace(r) })
		ns.Append("x")
	case 4:
		ns.ToUpper()
	case 5:
		ns.Trim()
		ns.Prepend(lib.Filler(p + 1))
	}
	sym.Assert(ns.GetOriginal() == s, "an edit changed the original")
	lib.Integrity(ns, s, "after edits of a long text")
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() {
	n := 66000
	s := lib.Filler(n) + sym.Text(2, 2)
	ns := normalizedstring.FromString(s)
	ns.Map(func(r rune) rune { return r })
	sym.Assert(ns.Get() == s, "mapping changes the text")
	for _, k := range []int{0, 255, 256, 32767, 32768, 65535, 65536, n - 1, n} {
		r, ok := ns.CoerceRangeToOriginal(normalizedstring.NewNormalizedRange(k, k+1))
		sym.Assert(ok && r.Start() == k && (r.End() == k+1 || k == n), "range")
	}
}

// H_deep: long histories.
func H_deep() {
	s := sym.Text(lib.Size(2, 3), 2)
	ns := normalizedstring.FromString(s)
	cs := lib.Chars(s)
	from := sym.Choose(6)
	for k := 0; k < lib.Size(6, 12); k++ {
		cs = lib.History(ns, cs, from+6*k, 6)
		sym.Assert(ns.GetOriginal() == s, "an edit changed the original")
		lib.Integrity(ns, s, "long history")
	}
	edit(ns, []int{4, 5, 6, 8}[sym.Choose(4)], "z")
	lib.Integrity(ns, s, "edit after a long history")
}
