// Package c04: a transform rewrites exactly its range, per its change list.
package c04

import (
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

func start(n, maxw int) (*normalizedstring.NormalizedString, []lib.Ch, string) {
	s := sym.Text(n, maxw)
	return normalizedstring.FromString(s), lib.Chars(s), s
}

func bytePos(cs []lib.Ch, i int) int {
	p := 0
	for _, c := range cs[:i] {
		p += len(c.T)
	}
	return p
}

// H_transform: the whole text.
func H_transform() {
	n := sym.Choose(lib.Size(4, 5))
	ns, cs, s := start(n, lib.Size(3, 4))
	list, init, out := lib.Changes(cs, 0, n, 2, lib.Size(2, 3))
	ns.Transform(list, init)
	lib.Check(ns, out, s, "Transform")
}

// H_longer_list: longer change lists, fewer widths.
func H_longer_list() {
	n := 3
	ns, cs, s := start(n, 2)
	list, init, out := lib.Changes(cs, 0, n, lib.Size(3, 4), 1)
	ns.Transform(list, init)
	lib.Check(ns, out, s, "Transform")
}

// H_range: every range of the normalized text.
func H_range() {
	n := lib.Size(3, 4)
	ns, cs, s := start(n, 2)
	i := sym.Choose(n + 1)
	j := i + sym.Choose(n+1-i)
	list, init, out := lib.Changes(cs, i, j, 2, 2)
	ns.TransformRange(normalizedstring.NewNormalizedRange(bytePos(cs, i), bytePos(cs, j)), list, init)
	lib.Check(ns, lib.Concat(cs[:i], out, cs[j:]), s, "TransformRange")
	if i == j {
		sym.Reach("empty range")
	}
}

// H_range_edited: ranges of either kind on a text edited before.
func H_range_edited() {
	n := lib.Size(3, 4)
	ns, cs, s := start(n, 2)
	drop := sym.Choose(n)
	x := 0
	ns.Filter(func(rune) bool { x++; return x-1 != drop })
	cs = lib.Concat(cs[:drop], cs[drop+1:])
	n--
	i := sym.Choose(n)
	j := i + 1 + sym.Choose(n-i)
	list, init, out := lib.Changes(cs, i, j, 2, 2)
	if sym.Choose(2) == 1 {
		ns.TransformRange(normalizedstring.NewOriginalRange(cs[i].S, cs[j-1].E), list, init)
		sym.Reach("original range")
	} else {
		ns.TransformRange(normalizedstring.NewNormalizedRange(bytePos(cs, i), bytePos(cs, j)), list, init)
	}
	lib.Check(ns, lib.Concat(cs[:i], out, cs[j:]), s, "TransformRange")
}

// H_twice: two transformations in a row.
func H_twice() {
	n := 2
	ns, cs, s := start(n, 3)
	list, init, out := lib.Changes(cs, 0, n, 2, 1)
	ns.Transform(list, init)
	cs = out
	m := len(cs)
	i := sym.Choose(m + 1)
	j := i + sym.Choose(m+1-i)
	list, init, out = lib.Changes(cs, i, j, 1, 2)
	ns.TransformRange(normalizedstring.NewNormalizedRange(bytePos(cs, i), bytePos(cs, j)), list, init)
	lib.Check(ns, lib.Concat(cs[:i], out, cs[j:]), s, "second TransformRange")
}

// H_invalid: a conversion that fails leaves everything alone.
func H_invalid() {
	ns, cs, s := start(2, 3)
	a := sym.Int(0, 8)
	b := sym.Int(0, 8)
	sym.Assume(b < a)
	sym.Assume(a <= len(s))
	ns.TransformRange(normalizedstring.NewOriginalRange(a, b), []normalizedstring.RuneChange{{Rune: 'x', Change: 1}}, 0)
	lib.Check(ns, cs, s, "reversed range")
}

// H_long: long texts, the range somewhere inside.
func H_long() {
	ps := lib.Pads()
	p := ps[sym.Choose(len(ps))]
	long(lib.Fill(p), p, 3)
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() { long(lib.Filler(lib.Huge()), lib.Huge(), 1) }

func long(pad string, p, maxw int) {
	s := pad + sym.Text(2, maxw) + lib.Filler(p/2)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	i := p + sym.Choose(2)
	if sym.Choose(2) == 1 {
		i = p / 2
	}
	j := p + 2
	if sym.Choose(2) == 1 {
		j = len(cs)
	}
	r1, r2 := sym.RuneW(1+sym.Choose(maxw)), sym.RuneW(1)
	list := []normalizedstring.RuneChange{{Rune: r1, Change: -(j - i - 1)}, {Rune: r2, Change: 1}}
	out := []lib.Ch{lib.With(cs[i], r1), lib.With(cs[j-1], r2)}
	ns.TransformRange(normalizedstring.NewNormalizedRange(bytePos(cs, i), bytePos(cs, j)), list, 0)
	lib.Check(ns, lib.Concat(cs[:i], out, cs[j:]), s, "TransformRange in a long text")
}
