// Package c05: range conversion and fetching.
package c05

import (
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

type align struct{ s, e int }

// perByte lists the original range of every byte.
func perByte(cs []lib.Ch) []align {
	var out []align
	for _, c := range cs {
		for range []byte(c.T) {
			out = append(out, align{c.S, c.E})
		}
	}
	return out
}

func bounds(n int) (int, int) {
	a := sym.Int(-1<<40, 1<<40)
	b := sym.Int(-1<<40, 1<<40)
	return a, b
}

// inside decides 0 <= a <= b <= n.
func inside(a, b, n int) bool {
	if a < 0 {
		return false
	}
	if b < a {
		return false
	}
	return b <= n
}

func toOriginal(ns *normalizedstring.NormalizedString, cs []lib.Ch, orig string) {
	text := lib.Join(cs)
	al := perByte(cs)
	a, b := bounds(len(text))
	rng := normalizedstring.NewNormalizedRange(a, b)
	or, ok := ns.CoerceRangeToOriginal(rng)
	switch {
	case a == b:
		sym.Assert(ok, "an empty range does not convert")
		sym.Assert(or.Start() == a && or.End() == b, "an empty range does not convert to itself")
		sym.Reach("empty")
	case a > b:
		sym.Assert(!ok, "a reversed range converts")
		sym.Reach("reversed")
	case !inside(a, b, len(text)):
		sym.Assert(!ok, "a range out of bounds converts")
		sym.Reach("out of bounds")
	default:
		sym.Assert(ok, "a range inside the text does not convert")
		sym.Assert(or.Start() == al[a].s, "wrong original start")
		sym.Assert(or.End() == al[b-1].e, "wrong original end")
		sym.Reach("inside")
	}
	// fetching
	got, ok := ns.GetRange(rng)
	if inside(a, b, len(text)) {
		sym.Assert(ok, "text inside the bounds is not fetched")
		sym.Assert(got == text[a:b], "wrong text fetched")
	} else {
		sym.Assert(!ok, "text out of bounds is fetched")
	}
	got, ok = ns.GetOriginalRange(rng)
	if a < b && inside(a, b, len(text)) {
		x, y := al[a].s, al[b-1].e
		sym.Assert(ok, "original text of a range is not fetched")
		sym.Assert(got == orig[x:y], "wrong original text fetched")
	} else if a == b && inside(a, b, len(text)) {
		if inside(a, b, len(orig)) {
			sym.Assert(ok && got == "", "empty range fetches something")
		} else {
			sym.Assert(!ok, "original text outside the bounds is fetched")
		}
	} else {
		sym.Assert(!ok, "original text of a range out of bounds is fetched")
	}
}

// H_normalized: every pair of bounds in the normalized text.
func H_normalized() {
	ns, cs, s := lib.Reachable(sym.Choose(lib.Size(3, 4)), lib.Size(3, 4))
	toOriginal(ns, cs, s)
}

// H_normalized_more: more characters, fewer widths.
func H_normalized_more() {
	ns, cs, s := lib.Reachable(lib.Size(3, 4), 2)
	toOriginal(ns, cs, s)
}

func toNormalized(ns *normalizedstring.NormalizedString, cs []lib.Ch, orig string) {
	text := lib.Join(cs)
	al := perByte(cs)
	a, b := bounds(len(orig))
	rng := normalizedstring.NewOriginalRange(a, b)
	nr, ok := ns.CoerceRangeToNormalized(rng)
	// the bytes whose non-empty original ranges lie inside
	first, last := -1, -1
	if a < b && inside(a, b, len(orig)) {
		for i, x := range al {
			if x.s == x.e {
				continue
			}
			if x.s >= a && x.e <= b {
				if first < 0 {
					first = i
				}
				last = i + 1
			}
		}
	}
	switch {
	case a == b:
		sym.Assert(ok, "an empty range does not convert")
		sym.Assert(nr.Start() == a && nr.End() == b, "an empty range does not convert to itself")
		sym.Reach("empty")
	case a > b:
		sym.Assert(!ok, "a reversed range converts")
		sym.Reach("reversed")
	case !inside(a, b, len(orig)):
		sym.Assert(!ok, "a range out of bounds converts")
		sym.Reach("out of bounds")
	case first >= 0:
		sym.Assert(ok, "an original range with normalized text does not convert")
		sym.Assert(nr.Start() == first, "wrong normalized start")
		sym.Assert(nr.End() == last, "wrong normalized end")
		sym.Reach("inside")
	default:
		// nothing of it is left: an empty range of the text, or unsuccessful
		if ok {
			sym.Assert(nr.Start() == nr.End(), "a removed original range converts to text")
			sym.Assert(inside(nr.Start(), nr.End(), len(text)), "a removed original range converts outside the text")
		}
		sym.Reach("removed")
	}
	got, gok := ns.GetRange(rng)
	switch {
	case !inside(a, b, len(orig)):
		sym.Assert(!gok, "text of a range out of bounds is fetched")
	case first >= 0:
		sym.Assert(gok, "the normalized text of a range is not fetched")
		sym.Assert(got == text[first:last], "wrong normalized text fetched")
	default:
		sym.Assert(got == "", "text of an empty or removed range is not empty")
		if a == b {
			sym.Assert(gok == inside(a, b, len(text)), "an empty range is fetched exactly when it lies in the text")
		}
	}
	got, gok = ns.GetOriginalRange(rng)
	if inside(a, b, len(orig)) {
		sym.Assert(gok, "original text inside the bounds is not fetched")
		sym.Assert(got == orig[a:b], "wrong original text fetched")
	} else {
		sym.Assert(!gok, "original text out of bounds is fetched")
	}
}

// H_original: every pair of bounds in the original text.
func H_original() {
	ns, cs, s := lib.Reachable(sym.Choose(lib.Size(3, 4)), lib.Size(3, 4))
	toNormalized(ns, cs, s)
}

// H_original_more: more characters, fewer widths.
func H_original_more() {
	ns, cs, s := lib.Reachable(lib.Size(3, 4), 2)
	toNormalized(ns, cs, s)
}

// H_slice: on a slice, everything is relative to it.
func H_slice() {
	ns, cs, s := lib.Reachable(3, lib.Size(1, 2))
	sym.Assume(len(cs) >= 2)
	i := sym.Choose(2)
	j := len(cs) - sym.Choose(2)
	sym.Assume(i < j)
	sl, ok := ns.Slice(normalizedstring.NewNormalizedRange(lib.Pos(cs, i), lib.Pos(cs, j)))
	sym.Assert(ok, "slicing on character boundaries failed")
	if !ok {
		return
	}
	o := sl.OriginalOffsets()
	var rel []lib.Ch
	for _, c := range cs[i:j] {
		c.S -= o.Start
		c.E -= o.Start
		rel = append(rel, c)
	}
	if sym.Choose(2) == 0 {
		toOriginal(sl, rel, s[o.Start:o.End])
	} else {
		toNormalized(sl, rel, s[o.Start:o.End])
	}
}

// H_long: long texts.
func H_long() {
	ps := lib.Pads()
	long(lib.Fill(ps[sym.Choose(len(ps))]), 3)
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() { long(lib.Filler(lib.Huge()*23/22), 1) }

func long(pad string, maxw int) {
	s := sym.Text(1, maxw) + pad + sym.Text(1, maxw)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	ns.Filter(func(r rune) bool { return r != 'b' })
	var out []lib.Ch
	for _, c := range cs {
		if c.R != 'b' {
			out = append(out, c)
		}
	}
	cs = out
	sym.Assume(len(cs) >= 1)
	// ends of the range: near the ends of the text or in the middle
	k := len(cs)
	at := func() int {
		kinds := 5
		if k > 60000 {
			kinds = 3
		}
		switch sym.Choose(kinds) {
		case 0:
			return 0
		case 1:
			return k / 2
		case 2:
			return k - 1
		case 3:
			return (k + 3) / 4
		}
		return k
	}
	i, j := at(), at()
	sym.Assume(i < j)
	a, b := lib.Pos(cs, i), lib.Pos(cs, j)
	x, y := cs[i].S, cs[j-1].E
	or, ok := ns.CoerceRangeToOriginal(normalizedstring.NewNormalizedRange(a, b))
	sym.Assert(ok, "a range inside the text does not convert")
	sym.Assert(or.Start() == x && or.End() == y, "wrong original range in a long text")
	nr, ok := ns.CoerceRangeToNormalized(normalizedstring.NewOriginalRange(x, y))
	sym.Assert(ok, "an original range does not convert")
	sym.Assert(nr.Start() == a && nr.End() == b, "wrong normalized range in a long text")
	got, ok := ns.GetOriginalRange(normalizedstring.NewNormalizedRange(a, b))
	sym.Assert(ok && got == s[x:y], "wrong original text in a long text")
	got, ok = ns.GetRange(normalizedstring.NewOriginalRange(x, y))
	sym.Assert(ok && got == lib.Join(cs[i:j]), "wrong text in a long text")
}

// H_deep: after long histories of edits.
func H_deep() {
	s := sym.Text(lib.Size(1, 2), 2)
	ns := normalizedstring.FromString(s)
	cs := lib.History(ns, lib.Chars(s), sym.Choose(6), lib.Size(12, 30))
	if sym.Choose(2) == 0 {
		toOriginal(ns, cs, s)
	} else {
		toNormalized(ns, cs, s)
	}
}
