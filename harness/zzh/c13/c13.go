// Package c13: byte-level pre-tokenization is reversible.
package c13

import (
	"unicode"
	"unicode/utf8"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// table is the documented mapping: printable Latin-1 bytes stand for
// themselves, the others for the characters from U+0100 on, in order.
var table = func() (t [256]rune) {
	n := rune(0x100)
	for b := 0; b < 256; b++ {
		r := rune(b)
		if b <= 0x20 || b >= 0x7f && b <= 0xa0 || b == 0xad {
			r = n
			n++
		}
		t[b] = r
	}
	return
}()

// spelled gives the byte characters of c.
func spelled(c lib.Ch) []lib.Ch {
	var out []lib.Ch
	for i := 0; i < len(c.T); i++ {
		out = append(out, lib.With(c, table[c.T[i]]))
	}
	return out
}

func spelledAll(cs []lib.Ch) []lib.Ch {
	var out []lib.Ch
	for _, c := range cs {
		out = append(out, spelled(c)...)
	}
	return out
}

func prefixed(cs []lib.Ch, prefix bool) []lib.Ch {
	if prefix && len(cs) > 0 && !unicode.Is(unicode.White_Space, cs[0].R) {
		return lib.Concat(lib.Inserted(" ", cs[0].S, cs[0].E), cs)
	}
	return cs
}

// concat is the text of all pieces.
func concat(pts *pretokenizedstring.PreTokenizedString) string {
	all := ""
	for _, sp := range pts.GetOriginalByteSplits() {
		all += sp.String
	}
	return all
}

// run pre-tokenizes and checks that the pieces are the parts that cut gives
// for the prefixed text, spelled byte by byte.
func run(r *regexp2.Regexp, prefix bool, ns *normalizedstring.NormalizedString, cs []lib.Ch, root string, cut func(cs []lib.Ch) [][]lib.Ch) {
	pts := pretokenizedstring.FromNormalizedString(ns)
	err := bytelevelpretokenizer.New(r, prefix, sym.Choose(2) == 1).PreTokenize(pts)
	sym.Assert(err == nil, "pre-tokenization fails")
	cs = prefixed(cs, prefix)
	sym.Assert(concat(pts) == lib.Join(spelledAll(cs)), "decoding the pieces does not give the text back")
	if cut == nil {
		return
	}
	var parts [][]lib.Ch
	for _, p := range cut(cs) {
		var part []lib.Ch
		for _, c := range p {
			part = append(part, spelled(c)...)
		}
		parts = append(parts, part)
	}
	lib.CheckSplits(pts, parts, root, "byte-level pieces")
}

// runs cuts in maximal stretches of one kind.
func runs(kind func(rune) int) func(cs []lib.Ch) [][]lib.Ch {
	return func(cs []lib.Ch) [][]lib.Ch {
		var out [][]lib.Ch
		last := -1
		for _, c := range cs {
			k := kind(c.R)
			if k == last {
				out[len(out)-1] = append(out[len(out)-1], c)
			} else {
				out = append(out, []lib.Ch{c})
			}
			last = k
		}
		return out
	}
}

// never matches no character.  (A literal prefix would do too, but regexp2
// 1.4.0 panics looking for one in a text with wide characters.)
var never = regexp2.MustCompile(`[^\s\S]`, regexp2.None)

func classes(r rune) int {
	if r >= 'a' && r <= 'm' || r >= 'é' && r <= 'ü' {
		return 1
	}
	return 2
}

// H_text: every text; the expression leaves some of it unmatched.
func H_text() {
	r := regexp2.MustCompile(`[a-mé-ü]+`, regexp2.None)
	s := sym.Text(sym.Choose(lib.Size(4, 5)), lib.Size(3, 4))
	run(r, sym.Choose(2) == 1, normalizedstring.FromString(s), lib.Chars(s), s, runs(classes))
}

// H_wide: characters of every width in one piece.
func H_wide() {
	r := never
	s := "a" + sym.Text(lib.Size(2, 3), 4)
	run(r, sym.Choose(2) == 1, normalizedstring.FromString(s), lib.Chars(s), s, nil)
}

// H_every: every character, one piece.
func H_every() {
	r := never
	s := string(lib.BlockRune())
	run(r, sym.Choose(2) == 1, normalizedstring.FromString(s), lib.Chars(s), s, func(cs []lib.Ch) [][]lib.Ch { return [][]lib.Ch{cs} })
}

// defaultCut says what the default expression cuts: stretches of letters, of
// numbers and of other characters, each with one space before it, and what
// remains of stretches of white space.
func defaultCut(cs []lib.Ch) [][]lib.Ch {
	var out [][]lib.Ch
	rs := runs(func(r rune) int {
		switch {
		case unicode.Is(unicode.White_Space, r):
			return 3
		case unicode.Is(unicode.L, r):
			return 1
		case unicode.Is(unicode.N, r):
			return 2
		}
		return 4
	})(cs)
	var space []lib.Ch
	for k, g := range rs {
		if unicode.Is(unicode.White_Space, g[0].R) && k+1 < len(rs) {
			last := g[len(g)-1:]
			if len(g) > 1 {
				out = append(out, g[:len(g)-1])
			}
			if last[0].R == ' ' {
				space = last
			} else {
				out = append(out, last)
			}
			continue
		}
		out = append(out, lib.Concat(space, g))
		space = nil
	}
	return out
}

// H_default: the default expression, without contractions.
func H_default() {
	s := ""
	n := sym.Choose(lib.Size(3, 4))
	for k := 0; k < n; k++ {
		r := []rune{sym.RuneIn(0, 0x7f), sym.RuneIn(0x80, 0xff)}[sym.Choose(2)]
		sym.Assume(r != '\'')
		s += string(r)
	}
	run(bytelevelpretokenizer.DefaultSplittingRegexp, sym.Choose(2) == 1, normalizedstring.FromString(s), lib.Chars(s), s, defaultCut)
}

// H_contractions: English contractions are pieces of their own.
func H_contractions() {
	a := []string{"", "a", "é ", "1"}[sym.Choose(4)]
	m := []string{"'s", "'t", "'re", "'ve", "'m", "'ll", "'d"}[sym.Choose(7)]
	z := ""
	if sym.Choose(2) == 1 {
		z = string(sym.RuneIn(0, 0x7f))
		sym.Assume(z != "'")
	}
	s := a + m + z
	prefix := sym.Choose(2) == 1
	run(bytelevelpretokenizer.DefaultSplittingRegexp, prefix, normalizedstring.FromString(s), lib.Chars(s), s, func(cs []lib.Ch) [][]lib.Ch {
		// a space just before joins the apostrophe, which then starts nothing
		n := len(cs) - len(lib.Chars(m+z))
		if n > 0 && cs[n-1].R == ' ' {
			w := [][]lib.Ch{}
			w = append(w, defaultCut(cs[:n-1])...)
			w = append(w, cs[n-1:n+1])
			return append(w, defaultCut(cs[n+1:])...)
		}
		w := defaultCut(cs[:n])
		w = append(w, cs[n:n+len(m)])
		return append(w, defaultCut(cs[n+len(m):])...)
	})
}

// H_default_pieces: letters, digits and spaces under the default expression.
func H_default_pieces() {
	s := ""
	n := lib.Size(3, 4)
	for k := 0; k < n; k++ {
		s += []string{"a", "1", " ", "é", "!"}[sym.Choose(5)]
	}
	run(bytelevelpretokenizer.DefaultSplittingRegexp, sym.Choose(2) == 1, normalizedstring.FromString(s), lib.Chars(s), s, defaultCut)
}

// H_bytes: the mapping is one-to-one, and gives neither white space nor
// control characters.
func H_bytes() {
	r := never
	var seen [2]rune
	var bs [2]byte
	for k := range seen {
		bs[k] = sym.Byte()
		s := string([]byte{bs[k]})
		if bs[k] >= utf8.RuneSelf {
			// inside a character of several bytes
			if bs[k] < 0xc0 {
				s = string([]byte{0xc3, bs[k]})
			} else if bs[k] < 0xe0 {
				if bs[k] < 0xc2 {
					return
				}
				s = string([]byte{bs[k], 0x85})
			} else if bs[k] < 0xf0 {
				s = string([]byte{bs[k], 0x9f, 0x85})
			} else {
				if bs[k] > 0xf4 {
					return
				}
				s = string([]byte{bs[k], 0x8f, 0x85, 0x85})
			}
			if bs[k] == 0xf0 {
				s = "\xf0\x9f\x85\x85"
			}
			if bs[k] == 0xe0 {
				s = "\xe0\xaf\x85"
			}
		}
		pts := pretokenizedstring.FromString(s)
		err := bytelevelpretokenizer.New(r, false, false).PreTokenize(pts)
		sym.Assert(err == nil, "pre-tokenization fails")
		at := 0
		if bs[k] >= 0x80 && bs[k] < 0xc0 {
			at = 1
		}
		i := 0
		for _, sp := range pts.GetOriginalByteSplits() {
			for _, c := range sp.String {
				if i == at {
					seen[k] = c
				}
				i++
			}
		}
		sym.Assert(i == len(s), "not one character per byte")
		sym.Assert(seen[k] == table[bs[k]], "wrong character for a byte")
		sym.Assert(!unicode.Is(unicode.White_Space, seen[k]), "a byte becomes white space")
		sym.Assert(!unicode.Is(unicode.Cc, seen[k]), "a byte becomes a control character")
	}
	sym.Assert((seen[0] == seen[1]) == (bs[0] == bs[1]), "the mapping is not one-to-one")
}

// H_edited: normalized texts.
func H_edited() {
	r := regexp2.MustCompile(`[a-mé-ü]+`, regexp2.None)
	ns, cs, s := lib.Reachable(2, 2)
	run(r, sym.Choose(2) == 1, ns, cs, s, runs(classes))
}

// H_splits: every open split is prefixed on its own.
func H_splits() {
	r := regexp2.MustCompile(`[a-mé-ü]+`, regexp2.None)
	s := sym.Text(2, 2)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	pts := pretokenizedstring.FromNormalizedString(ns)
	err := pts.Split(func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
		a, _ := ns.Slice(normalizedstring.NewNormalizedRange(0, len(cs[0].T)))
		b, _ := ns.Slice(normalizedstring.NewNormalizedRange(len(cs[0].T), len(s)))
		return pretokenizedstring.SplitsFromNormalizedStrings([]*normalizedstring.NormalizedString{a, b}), nil
	})
	sym.Assert(err == nil, "splitting fails")
	prefix := sym.Choose(2) == 1
	err = bytelevelpretokenizer.New(r, prefix, true).PreTokenize(pts)
	sym.Assert(err == nil, "pre-tokenization fails")
	var parts [][]lib.Ch
	for k := range cs {
		for _, p := range runs(classes)(prefixed(cs[k:k+1], prefix)) {
			var part []lib.Ch
			for _, c := range p {
				part = append(part, spelled(c)...)
			}
			parts = append(parts, part)
		}
	}
	lib.CheckSplits(pts, parts, s, "pieces of splits")
}

// H_long: texts longer than any internal buffer.
func H_long() {
	r := regexp2.MustCompile(`[–q]+`, regexp2.None)
	pads := lib.Pads()
	pad := lib.Fill(pads[sym.Choose(len(pads))])
	s := pad + sym.Text(1, 3) + "–" + pad
	run(r, sym.Choose(2) == 1, normalizedstring.FromString(s), lib.Chars(s), s, runs(func(r rune) int {
		if r == '–' || r == 'q' {
			return 1
		}
		return 2
	}))
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() {
	r := regexp2.MustCompile("–+", regexp2.None)
	s := lib.Filler(lib.Huge()) + sym.Text(1, 1) + "–é"
	run(r, sym.Choose(2) == 1, normalizedstring.FromString(s), lib.Chars(s), s, runs(func(r rune) int {
		if r == '–' {
			return 1
		}
		return 2
	}))
}

// H_siblings: several pre-tokenizers made one after the other.
func H_siblings() {
	s := sym.Text(2, 2)
	q := regexp2.MustCompile(`[a-mé-ü]+`, regexp2.None)
	a, b := sym.Choose(2) == 1, sym.Choose(2) == 1
	bytelevelpretokenizer.NewDefault()
	run(q, a, normalizedstring.FromString(s), lib.Chars(s), s, runs(classes))
	run(never, b, normalizedstring.FromString(s), lib.Chars(s), s, func(cs []lib.Ch) [][]lib.Ch { return [][]lib.Ch{cs} })
	run(q, a, normalizedstring.FromString(s), lib.Chars(s), s, runs(classes))
}
