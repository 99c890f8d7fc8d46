// Package c09: the inverse alignment.
package c09

import (
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

type span struct{ a, b int }

// inverse gives, for every original byte of [from,to), the normalized bytes
// aligned with its character, or where these were removed.
func inverse(cs []lib.Ch, from, to int) []span {
	out := make([]span, 0, to-from)
	for b := from; b < to; b++ {
		p := 0
		x := span{-1, -1}
		at := 0 // bytes aligned with what comes before b
		for _, c := range cs {
			q := p + len(c.T)
			if c.S <= b && b < c.E {
				if x.a < 0 {
					x.a = p
				}
				x.b = q
			} else if c.E <= b {
				at = q
			}
			p = q
		}
		if x.a < 0 {
			x = span{at, at}
		}
		out = append(out, x)
	}
	return out
}

// check asserts that ns, the part [from,to) of a text, whose characters are
// cs, inverts its alignment.  The ranges are read by giving them to a
// normalized string that goes the other way.
func check(ns *normalizedstring.NormalizedString, cs []lib.Ch, from, to int, what string) {
	got := ns.OriginalAlignments()
	sym.Observe("alignments", got)
	sym.Assert(len(got) == to-from, what+": not one entry per byte of the original")
	if len(got) != to-from {
		return
	}
	other := normalizedstring.New(ns.Get(), ns.GetOriginal(), got, 0)
	want := inverse(cs, from, to)
	for i, w := range want {
		r, ok := other.CoerceRangeToOriginal(normalizedstring.NewNormalizedRange(i, i+1))
		sym.Assert(ok, what+": an entry does not convert")
		sym.Assert(r.Start() == w.a && r.End() == w.b, what+": not the inverse of the alignment")
	}
}

// H_edits: what one edit makes.
func H_edits() {
	ns, cs, s := lib.Reachable(sym.Choose(lib.Size(4, 5)), lib.Size(3, 4))
	check(ns, cs, 0, len(s), "edited")
	lib.Check(ns, cs, s, "after asking")
}

// H_removals: every pattern of removed characters.
func H_removals() {
	s := sym.Text(lib.Size(5, 7), 2)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	ns.Filter(func(r rune) bool { return sym.Pred("keep", r) })
	var out []lib.Ch
	for _, c := range cs {
		if sym.Pred("keep", c.R) {
			out = append(out, c)
		} else {
			sym.Reach("removed")
		}
	}
	check(ns, out, 0, len(s), "filtered")
}

// step makes one more edit.
func step(ns *normalizedstring.NormalizedString, cs []lib.Ch, name string) []lib.Ch {
	switch sym.Choose(5) {
	case 0:
		ns.Filter(func(r rune) bool { return sym.Pred(name, r) })
		var out []lib.Ch
		for _, c := range cs {
			if sym.Pred(name, c.R) {
				out = append(out, c)
			}
		}
		return out
	case 1:
		ns.Prepend("é-")
		if len(cs) > 0 {
			cs = lib.Concat(lib.Inserted("é-", cs[0].S, cs[0].E), cs)
		}
	case 2:
		ns.Append("▁é")
		if len(cs) > 0 {
			l := cs[len(cs)-1]
			cs = lib.Concat(cs, lib.Inserted("▁é", l.S, l.E))
		}
	case 3:
		ns.Map(func(r rune) rune { return 'é' })
		for i, c := range cs {
			cs[i] = lib.With(c, 'é')
		}
	case 4:
		if len(cs) == 0 {
			return cs
		}
		// drop the first character through a change list
		list := []normalizedstring.RuneChange{}
		for _, c := range cs[1:] {
			list = append(list, normalizedstring.RuneChange{Rune: c.R})
		}
		ns.Transform(list, 1)
		return cs[1:]
	}
	return cs
}

// H_histories: several edits.
func H_histories() {
	s := sym.Text(sym.Choose(lib.Size(4, 5)), 2)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	for k := 0; k < lib.Size(2, 3); k++ {
		cs = step(ns, cs, []string{"first", "second", "third"}[k])
	}
	check(ns, cs, 0, len(s), "edited several times")
}

// H_replace: a rune replaced by text of other widths.
func H_replace() {
	s := sym.Text(lib.Size(3, 4), 2)
	cs := lib.Chars(s)
	d := sym.RuneW(1 + sym.Choose(2))
	t := []string{"", "x", "é▁"}[sym.Choose(3)]
	ns := normalizedstring.FromString(s)
	err := ns.Replace(splitpattern.FromRune(d), t)
	sym.Assert(err == nil, "replacing fails")
	var out []lib.Ch
	for _, c := range cs {
		if c.R == d {
			out = append(out, lib.Inserted(t, c.S, c.E)...)
		} else {
			out = append(out, c)
		}
	}
	check(ns, out, 0, len(s), "replaced")
}

// H_slices: slices, and slices edited further.
func H_slices() {
	ns, cs, s := lib.Reachable(lib.Size(3, 4), 2)
	i := sym.Choose(len(cs) + 1)
	j := i + sym.Choose(len(cs)+1-i)
	sl, ok := ns.Slice(normalizedstring.NewNormalizedRange(lib.Pos(cs, i), lib.Pos(cs, j)))
	sym.Assert(ok, "slicing on character boundaries is unsuccessful")
	if !ok {
		return
	}
	part := append([]lib.Ch(nil), cs[i:j]...)
	o := sl.OriginalOffsets()
	check(sl, part, o.Start, o.End, "slice")
	part = step(sl, part, "slice")
	check(sl, part, o.Start, o.End, "edited slice")
	check(ns, cs, 0, len(s), "sliced string")
}

// H_original_slices: slices by the original text keep what was removed.
func H_original_slices() {
	ns, cs, s := lib.Reachable(lib.Size(3, 4), 2)
	st := lib.Starts(s)
	i := sym.Choose(len(st))
	j := i + sym.Choose(len(st)-i)
	sl, ok := ns.Slice(normalizedstring.NewOriginalRange(st[i], st[j]))
	if !ok {
		return
	}
	o := sl.OriginalOffsets()
	// the characters it holds
	text := sl.Get()
	k := 0
	for k < len(cs) && !(cs[k].S >= st[i] && cs[k].E <= st[j] && cs[k].S < cs[k].E) {
		k++
	}
	var part []lib.Ch
	n := 0
	for k < len(cs) && n < len(text) {
		part = append(part, cs[k])
		n += len(cs[k].T)
		k++
	}
	if n != len(text) || lib.Join(part) != text {
		return // C06 tells what the slice holds
	}
	check(sl, part, o.Start, o.End, "slice by the original")
	sym.Reach("slice by the original")
}

// H_long: texts longer than any internal buffer.
func H_long() {
	pads := lib.Pads()
	long(lib.Fill(pads[sym.Choose(len(pads))]), 3)
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() {
	n := lib.Huge()
	x := sym.Text(1, 2)
	s := "bé" + lib.Filler(n) + x + "éc"
	ns := normalizedstring.FromString(s)
	ns.Filter(func(r rune) bool { return r != 'é' })
	got := ns.OriginalAlignments()
	sym.Assert(len(got) == len(s), "huge text: not one entry per byte of the original")
	if len(got) != len(s) {
		return
	}
	gone := 0
	if x == "é" {
		gone = 2
	}
	other := normalizedstring.New(ns.Get(), s, got, 0)
	for i := 0; i < n+5; i++ {
		a, b := i-2, i-1
		switch {
		case i == 0:
			a, b = 0, 1
		case i <= 2:
			a, b = 1, 1
		case i < n+3:
		case i < n+3+len(x) && gone == 0:
			a, b = n+1, n+1+len(x)
		case i == len(s)-1:
			a, b = n+1+len(x)-gone, n+2+len(x)-gone
		default:
			a = n + 1 + len(x) - gone
			b = a
		}
		r, ok := other.CoerceRangeToOriginal(normalizedstring.NewNormalizedRange(i, i+1))
		sym.Assert(ok && r.Start() == a && r.End() == b, "huge text: not the inverse of the alignment")
	}
}

func long(pad string, maxw int) {
	s := pad + sym.Text(1, maxw) + "é" + pad
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	keep := func(r rune) bool { return r != 'b' && !(r >= 'é' && sym.Pred("gone", r)) }
	ns.Filter(keep)
	var out []lib.Ch
	for _, c := range cs {
		if keep(c.R) {
			out = append(out, c)
		}
	}
	check(ns, out, 0, len(s), "long text")
}

// H_deep: after long histories of edits.
func H_deep() {
	s := sym.Text(lib.Size(2, 3), 2)
	ns := normalizedstring.FromString(s)
	cs := lib.Chars(s)
	from := sym.Choose(6)
	for k := 0; k < lib.Size(6, 12); k++ {
		cs = lib.History(ns, cs, from+6*k, 6)
		check(ns, cs, 0, len(s), "long history")
	}
}
