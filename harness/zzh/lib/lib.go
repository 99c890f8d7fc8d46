// Package lib holds the oracles shared by the harnesses.  It only uses the
// public interface of the packages under test.
package lib

import (
	"strings"
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// Boundary reports whether i is 0, len(s) or the first byte of a character,
// where a character is what decoding s from its start gives.
func Boundary(s string, i int) bool {
	if i == 0 || i == len(s) {
		return true
	}
	for p := range s {
		if p == i {
			return true
		}
	}
	return false
}

// Starts gives the positions of the characters of s, and len(s).
func Starts(s string) []int {
	out := make([]int, 0, len(s)+1)
	for p := range s {
		out = append(out, p)
	}
	return append(out, len(s))
}

// Filler is n bytes of ASCII letters without any special character.
func Filler(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%23)
	}
	return string(b)
}

// Fill is filler of n characters of a chosen kind: letters, white space, wide
// characters, or a mixture of letters, spaces, punctuation and wide characters.
func Fill(n int) string {
	kind := 0
	switch {
	case n == 0:
	case !sym.Quick():
		kind = sym.Choose(4)
	case n > 255:
		kind = 1 + sym.Choose(2)
	case n > 31:
		kind = 3
	}
	return FillOf(kind, n)
}

// FillOf is filler of the given kind.
func FillOf(kind, n int) string {
	if kind == 0 {
		return Filler(n)
	}
	cycle := [][]string{nil, {" "}, {"é", "中", "\U0001F600", "b", "ß"}, {"a", " ", "é", "d", ",", " ", " ", "中", "E", "-", "3"}}[kind]
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(cycle[i%len(cycle)])
	}
	return sb.String()
}

// Pads are filler lengths around powers of two, where buffers grow.
func Pads() []int {
	if sym.Quick() {
		return []int{0, 31, 64, 258}
	}
	return []int{0, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1023}
}

// Huge is a length sixteen bits cannot count.
func Huge() int { return Size(65540, 131080) }

// RuneLen is the number of bytes the character r occupies once encoded.
func RuneLen(r rune) int {
	n := utf8.RuneLen(r)
	if n < 0 {
		return 3
	}
	return n
}

// Size picks the tier's bound.
func Size(quick, thorough int) int {
	if sym.Quick() {
		return quick
	}
	return thorough
}

// Ch is one character of a normalized text with the absolute original range
// it comes from.
type Ch struct {
	R    rune
	T    string
	S, E int
}

// Chars gives the characters of a text, each aligned with itself.
func Chars(s string) []Ch {
	out := make([]Ch, 0, len(s))
	for i, r := range s {
		_, w := utf8.DecodeRuneInString(s[i:])
		out = append(out, Ch{r, s[i : i+w], i, i + w})
	}
	return out
}

// Join is the text of the characters.
func Join(cs []Ch) string {
	b := make([]byte, 0, 64)
	for _, c := range cs {
		b = append(b, c.T...)
	}
	return string(b)
}

// With is c rewritten to r.
func With(c Ch, r rune) Ch { return Ch{r, string(r), c.S, c.E} }

// Inserted gives the characters of s aligned with [a,b).
func Inserted(s string, a, b int) []Ch {
	out := make([]Ch, 0, len(s))
	for _, r := range s {
		out = append(out, Ch{r, string(r), a, b})
	}
	return out
}

// Concat joins lists.
func Concat(ls ...[]Ch) []Ch {
	var out []Ch
	for _, l := range ls {
		out = append(out, l...)
	}
	return out
}

// Aligned reports whether every byte of ns converts as cs says.
func Aligned(ns *normalizedstring.NormalizedString, cs []Ch, shift int) bool {
	p := 0
	for _, c := range cs {
		for k := 0; k < len(c.T); k++ {
			or, ok := ns.CoerceRangeToOriginal(normalizedstring.NewNormalizedRange(p, p+1))
			if !ok {
				return false
			}
			if or.Start() != c.S-shift {
				return false
			}
			if or.End() != c.E-shift {
				return false
			}
			p++
		}
	}
	return p == ns.Len()
}

// Check asserts that ns is exactly the characters cs of a text whose root is
// orig: text, original, offsets and the alignment of every byte.
func Check(ns *normalizedstring.NormalizedString, cs []Ch, orig string, what string) {
	sym.Observe("ns", ns.Get(), ns.OriginalOffsets().Start, ns.OriginalOffsets().End)
	sym.Assert(ns.Get() == Join(cs), what+": wrong text")
	sym.Assert(ns.Len() == len(ns.Get()), what+": wrong length")
	sym.Assert(ns.GetOriginal() == orig, what+": the original text changed")
	o := ns.OriginalOffsets()
	sym.Assert(o.Start == 0 && o.End == len(orig), what+": the original offsets changed")
	sym.Assert(Aligned(ns, cs, 0), what+": wrong alignment")
}

// Integrity asserts what holds of every normalized string built from a root
// text: alignments inside the original, on its character boundaries, the same
// for all bytes of a character and never going back.
func Integrity(ns *normalizedstring.NormalizedString, root string, what string) {
	o := ns.OriginalOffsets()
	sym.Assert(o.Start >= 0 && o.Start <= o.End && o.End <= len(root), what+": original offsets outside the text")
	sym.Assert(ns.GetOriginal() == root[o.Start:o.End], what+": the original is not the text at its offsets")
	s := ns.Get()
	lastS, lastE := 0, 0
	p := 0
	for i := range s {
		_, w := utf8.DecodeRuneInString(s[i:])
		for k := 0; k < w; k++ {
			or, ok := ns.CoerceRangeToOriginal(normalizedstring.NewNormalizedRange(p, p+1))
			sym.Assert(ok, what+": a byte does not convert")
			a, b := or.Start(), or.End()
			if k > 0 {
				sym.Assert(a == lastS && b == lastE, what+": bytes of one character convert differently")
			} else {
				sym.Assert(a >= lastS && b >= lastE && a <= b, what+": original ranges go backwards")
				sym.Assert(b <= ns.OriginalLen(), what+": original range outside the text")
				sym.Assert(Boundary(root, o.Start+a) && Boundary(root, o.Start+b), what+": original range off character boundaries")
			}
			lastS, lastE = a, b
			p++
		}
	}
	sym.Assert(p == ns.Len(), what+": length does not match the text")
}

// Reachable gives a normalized string as edits make it, its characters and
// the original text: how is the number of kinds of edits to choose from.
func Reachable(n, maxw int) (*normalizedstring.NormalizedString, []Ch, string) {
	s := sym.Text(n, maxw)
	cs := Chars(s)
	ns := normalizedstring.FromString(s)
	switch sym.Choose(6) {
	case 0:
	case 1: // arbitrary removals
		ns.Filter(func(r rune) bool { return sym.Pred("rkeep", r) })
		var out []Ch
		for _, c := range cs {
			if sym.Pred("rkeep", c.R) {
				out = append(out, c)
			}
		}
		cs = out
	case 2: // other widths
		ns.Map(func(r rune) rune { return sym.RuneFn("rmap", r) })
		for i, c := range cs {
			cs[i] = With(c, sym.RuneFn("rmap", c.R))
		}
	case 3: // inserted text at both ends
		if n > 0 {
			ns.Prepend("é-")
			ns.Append("▁")
			a, b := cs[0], cs[len(cs)-1]
			cs = Concat(Inserted("é-", a.S, a.E), cs, Inserted("▁", b.S, b.E))
		}
	case 4: // inserted text with no place in the original
		ns.TransformRange(normalizedstring.NewNormalizedRange(0, 0), []normalizedstring.RuneChange{{Rune: 'é', Change: 1}, {Rune: '-', Change: 1}}, 0)
		cs = Concat(Inserted("é-", 0, 0), cs)
	case 5: // longer in the middle
		if n > 1 {
			w := len(cs[0].T)
			ns.TransformRange(normalizedstring.NewNormalizedRange(w, w), []normalizedstring.RuneChange{{Rune: '▁', Change: 1}}, 0)
			cs = Concat(cs[:1], Inserted("▁", cs[0].S, cs[0].E), cs[1:])
		}
	}
	return ns, cs, s
}

// Pos is the byte position of the i-th character.
func Pos(cs []Ch, i int) int {
	p := 0
	for _, c := range cs[:i] {
		p += len(c.T)
	}
	return p
}

// blocks cut the Unicode scalar values where case mappings, classes and widths
// change much, so that each part is easy to decide.
var blocks = [][2]rune{
	{0, 0x7f}, {0x80, 0xff}, {0x100, 0x17f}, {0x180, 0x24f}, {0x250, 0x36f}, {0x370, 0x3ff}, {0x400, 0x52f},
	{0x530, 0x58f}, {0x590, 0x7ff}, {0x800, 0x109f}, {0x10a0, 0x10ff}, {0x1100, 0x139f}, {0x13a0, 0x13ff},
	{0x1400, 0x1c7f}, {0x1c80, 0x1cbf}, {0x1cc0, 0x1dff}, {0x1e00, 0x1eff}, {0x1f00, 0x1fff}, {0x2000, 0x20ff},
	{0x2100, 0x218f}, {0x2190, 0x24af}, {0x24b0, 0x24ff}, {0x2500, 0x2bff}, {0x2c00, 0x2dff}, {0x2e00, 0xa63f},
	{0xa640, 0xa69f}, {0xa6a0, 0xa71f}, {0xa720, 0xa7ff}, {0xa800, 0xab2f}, {0xab30, 0xabbf}, {0xabc0, 0xd7ff},
	{0xe000, 0xfeff}, {0xff00, 0xffff}, {0x10000, 0x103ff}, {0x10400, 0x104ff}, {0x10500, 0x105ff},
	{0x10600, 0x10c7f}, {0x10c80, 0x10cff}, {0x10d00, 0x10d8f}, {0x10d90, 0x1189f}, {0x118a0, 0x118ff},
	{0x11900, 0x16e3f}, {0x16e40, 0x16e9f}, {0x16ea0, 0x1e8ff}, {0x1e900, 0x1e95f}, {0x1e960, 0x10ffff},
}

// BlockRune is an arbitrary Unicode scalar value, block by block.
func BlockRune() rune {
	b := blocks[sym.Choose(len(blocks))]
	return sym.RuneIn(b[0], b[1])
}

// CasedRune is an arbitrary character of the blocks with the most unusual
// case mappings: widths that differ, several capitals of one letter.
func CasedRune() rune {
	b := blocks[[]int{0, 1, 2, 5, 16, 19, 21, 34}[sym.Choose(8)]]
	return sym.RuneIn(b[0], b[1])
}

// FineRune is an arbitrary Unicode scalar value, forked over small parts.
func FineRune() rune {
	var ps [][2]rune
	for lo := rune(0); lo < 0x20000; {
		hi := lo + 0x3ff
		switch {
		case lo < 0x400:
			hi = lo + 0xff
		case lo == 0x3400 || lo == 0x4e00 || lo == 0xac00:
			hi = map[rune]rune{0x3400: 0x4dff, 0x4e00: 0x9fff, 0xac00: 0xd7ff}[lo]
		case lo == 0x4c00 || lo == 0x9c00:
			hi = lo + 0x1ff
		}
		if lo < 0xd800 && hi >= 0xd800 {
			hi = 0xd7ff
		}
		ps = append(ps, [2]rune{lo, hi})
		lo = hi + 1
		if lo == 0xd800 {
			lo = 0xe000
		}
	}
	ps = append(ps, [2]rune{0x20000, 0x2ffff}, [2]rune{0x30000, 0x3ffff}, [2]rune{0x40000, 0xdffff}, [2]rune{0xe0000, 0xeffff}, [2]rune{0xf0000, 0x10ffff})
	p := ps[sym.Choose(len(ps))]
	return sym.RuneIn(p[0], p[1])
}

// Changes makes an arbitrary consistent change list of at most max changes for
// the characters cs[i:j]: the list, its initial offset and what it gives.
func Changes(cs []Ch, i, j, max, maxw int) ([]normalizedstring.RuneChange, int, []Ch) {
	init := sym.Choose(j - i + 1)
	at := i + init
	var list []normalizedstring.RuneChange
	var out []Ch
	n := sym.Choose(max + 1)
	for k := 0; k < n; k++ {
		r := sym.RuneW(1 + sym.Choose(maxw))
		if at < j && sym.Choose(2) == 1 {
			drop := sym.Choose(j - at)
			list = append(list, normalizedstring.RuneChange{Rune: r, Change: -drop})
			out = append(out, With(cs[at], r))
			at += 1 + drop
			if drop > 0 {
				sym.Reach("dropped characters")
			}
			continue
		}
		list = append(list, normalizedstring.RuneChange{Rune: r, Change: 1})
		c := Ch{R: r, T: string(r)}
		if at > 0 {
			c.S, c.E = cs[at-1].S, cs[at-1].E
		} else {
			sym.Reach("insertion at the very start")
		}
		out = append(out, c)
	}
	return list, init, out
}

// Shift drops the first character and repeats the last one in its width: the
// number of bytes stays and the alignments move.
func Shift(ns *normalizedstring.NormalizedString, cs []Ch) []Ch {
	if len(cs) == 0 {
		return cs
	}
	var list []normalizedstring.RuneChange
	for _, c := range cs[1:] {
		list = append(list, normalizedstring.RuneChange{Rune: c.R})
	}
	first, last := cs[0], cs[len(cs)-1]
	list = append(list, normalizedstring.RuneChange{Rune: first.R, Change: 1})
	ns.Transform(list, 1)
	return Concat(cs[1:], []Ch{{first.R, first.T, last.S, last.E}})
}

// Is reports whether err is target, or wraps it.
func Is(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}
