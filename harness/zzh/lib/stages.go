package lib

import (
	"unicode"
	"unicode/utf8"

	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// What each stage of a pipeline is documented to do, as list functions.

// Lowered is lower-casing.
func Lowered(cs []Ch) []Ch {
	out := make([]Ch, len(cs))
	for i, c := range cs {
		out[i] = With(c, unicode.ToLower(c.R))
	}
	return out
}

// Stripped is stripping white space.
func Stripped(cs []Ch, left, right bool) []Ch {
	for left && len(cs) > 0 && unicode.Is(unicode.White_Space, cs[0].R) {
		cs = cs[1:]
	}
	for right && len(cs) > 0 && unicode.Is(unicode.White_Space, cs[len(cs)-1].R) {
		cs = cs[:len(cs)-1]
	}
	return cs
}

// Ideograph is whether r is in the blocks of CJK ideographs.
func Ideograph(r rune) bool {
	return r >= 0x4e00 && r <= 0x9fff ||
		r >= 0x3400 && r <= 0x4dbf ||
		r >= 0x20000 && r <= 0x2a6df ||
		r >= 0x2a700 && r <= 0x2b73f ||
		r >= 0x2b740 && r <= 0x2b81f ||
		r >= 0x2b820 && r <= 0x2ceaf ||
		r >= 0xf900 && r <= 0xfaff ||
		r >= 0x2f800 && r <= 0x2fa1f
}

// Bert is BERT normalization.
func Bert(cs []Ch, clean, chinese, accents, lower bool) []Ch {
	var out []Ch
	for _, c := range cs {
		if clean {
			r := c.R
			if r == '\t' || r == '\n' || r == '\r' || unicode.Is(unicode.White_Space, r) && !unicode.Is(unicode.Other, r) {
				c = With(c, ' ')
			} else if r == 0 || r == 0xfffd || unicode.Is(unicode.Other, r) {
				continue
			}
		}
		if accents && unicode.Is(unicode.Mn, c.R) {
			continue
		}
		ch := chinese && Ideograph(c.R)
		if lower {
			c = With(c, unicode.ToLower(c.R))
		}
		if ch {
			out = append(out, With(c, ' '), c, With(c, ' '))
		} else {
			out = append(out, c)
		}
	}
	return out
}

// Kinds of characters for a pre-tokenizer that cuts at delimiters.
const (
	Gone = -1 // never in a piece
	Solo = -2 // a piece of its own
	// anything else: in a piece with its neighbours of the same kind
)

// Pieces are the maximal pieces of equal kinds.
func Pieces(cs []Ch, kind func(rune) int) [][]Ch {
	var out [][]Ch
	last := Gone
	for _, c := range cs {
		k := kind(c.R)
		switch {
		case k == Gone:
		case k == last && k != Solo:
			out[len(out)-1] = append(out[len(out)-1], c)
		default:
			out = append(out, []Ch{c})
		}
		last = k
	}
	return out
}

// WhiteKind splits at white space.
func WhiteKind(r rune) int {
	if unicode.Is(unicode.White_Space, r) {
		return Gone
	}
	return 1
}

// BertKind splits at white space and isolates punctuation.
func BertKind(r rune) int {
	switch {
	case unicode.Is(unicode.White_Space, r):
		return Gone
	case unicode.Is(unicode.Punct, r):
		return Solo
	}
	return 1
}

// WordKind: \w is letters, non-spacing marks, decimal digits, connectors and
// the two zero width joiners.
func WordKind(r rune) int {
	switch {
	case unicode.In(r, unicode.L, unicode.Mn, unicode.Nd, unicode.Pc) || r == 0x200c || r == 0x200d:
		return 1
	case unicode.IsSpace(r):
		return Gone
	}
	return 2
}

// RuneKind splits at d.
func RuneKind(d rune) func(rune) int {
	return func(r rune) int {
		if r == d {
			return Gone
		}
		return 1
	}
}

// Meta is meta-space pre-tokenization.
func Meta(cs []Ch, meta rune, prefix bool) [][]Ch {
	if prefix && len(cs) > 0 && cs[0].R != meta {
		cs = Concat(Inserted(string(meta), cs[0].S, cs[0].E), cs)
	}
	var out [][]Ch
	for i, c := range cs {
		if c.R == ' ' {
			c = With(c, meta)
		}
		if i == 0 || c.R == meta {
			out = append(out, nil)
		}
		out[len(out)-1] = append(out[len(out)-1], c)
	}
	return out
}

// byteTable is the documented mapping: printable Latin-1 bytes stand for
// themselves, the others for the characters from U+0100 on, in order.
var byteTable = func() (t [256]rune) {
	n := rune(0x100)
	for b := 0; b < 256; b++ {
		r := rune(b)
		if b <= 0x20 || b >= 0x7f && b <= 0xa0 || b == 0xad {
			r = n
			n++
		}
		t[b] = r
	}
	return
}()

// Spelled gives the byte characters of the characters.
func Spelled(cs []Ch) []Ch {
	var out []Ch
	for _, c := range cs {
		for i := 0; i < len(c.T); i++ {
			out = append(out, With(c, byteTable[c.T[i]]))
		}
	}
	return out
}

// Spaced puts a space before a text that does not start with white space.
func Spaced(cs []Ch) []Ch {
	if len(cs) > 0 && !unicode.Is(unicode.White_Space, cs[0].R) {
		return Concat(Inserted(" ", cs[0].S, cs[0].E), cs)
	}
	return cs
}

// Runs cuts in maximal stretches of one kind.
func Runs(cs []Ch, kind func(rune) int) [][]Ch {
	var out [][]Ch
	last := -1
	for _, c := range cs {
		k := kind(c.R)
		if k == last {
			out[len(out)-1] = append(out[len(out)-1], c)
		} else {
			out = append(out, []Ch{c})
		}
		last = k
	}
	return out
}

// ByteLevelCut says what the default expression of byte-level pre-tokenization
// cuts in a text without apostrophes: stretches of letters, of numbers and of
// other characters, each with one space before it, and what remains of
// stretches of white space.
func ByteLevelCut(cs []Ch) [][]Ch {
	var out [][]Ch
	rs := Runs(cs, func(r rune) int {
		switch {
		case unicode.Is(unicode.White_Space, r):
			return 3
		case unicode.Is(unicode.L, r):
			return 1
		case unicode.Is(unicode.N, r):
			return 2
		}
		return 4
	})
	var space []Ch
	for k, g := range rs {
		if unicode.Is(unicode.White_Space, g[0].R) && k+1 < len(rs) {
			last := g[len(g)-1:]
			if len(g) > 1 {
				out = append(out, g[:len(g)-1])
			}
			if last[0].R == ' ' {
				space = last
			} else {
				out = append(out, last)
			}
			continue
		}
		out = append(out, Concat(space, g))
		space = nil
	}
	return out
}

// SpelledPieces spells every piece.
func SpelledPieces(ps [][]Ch) [][]Ch {
	var out [][]Ch
	for _, p := range ps {
		out = append(out, Spelled(p))
	}
	return out
}

// WordPiece is what a WordPiece model gives for a word: its greedy
// longest-match-first segmentation, or else the unknown token; failed is
// whether there is none.
func WordPiece(t Table, unk, prefix string, limit int, word string) (out []Sym, failed bool) {
	ps := Starts(word)
	unknown := func() ([]Sym, bool) {
		id := t.ID(unk)
		return []Sym{{id, 0, len(word)}}, id < 0
	}
	if utf8.RuneCountInString(word) > limit {
		return unknown()
	}
	for at := 0; at < len(ps)-1; {
		found := false
		for to := len(ps) - 1; to > at && !found; to-- {
			s := word[ps[at]:ps[to]]
			if at > 0 {
				s = prefix + s
			}
			if id := t.ID(s); id >= 0 {
				out = append(out, Sym{id, ps[at], ps[to]})
				at = to
				found = true
			}
		}
		if !found {
			sym.Reach("unknown word")
			return unknown()
		}
	}
	return out, false
}

// BPE is what a BPE model without dropout gives for a word.
func BPE(t Table, rs Rules, c Config, word string) (out []Sym, failed bool) {
	ss, missing, _ := Initial(t, c, word)
	if missing {
		return nil, true
	}
	return Naive(ss, rs), false
}
