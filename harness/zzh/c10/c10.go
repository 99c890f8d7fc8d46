// Package c10: BERT normalization does exactly its four documented steps.
package c10

import (
	"unicode"

	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers/bertnormalizer"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

func dropped(r rune) bool {
	if r == '\t' || r == '\n' || r == '\r' {
		return false
	}
	return r == 0 || r == 0xfffd || unicode.Is(unicode.Other, r)
}

func white(r rune) bool {
	return r == '\t' || r == '\n' || r == '\r' || unicode.Is(unicode.White_Space, r)
}

// ideograph: the blocks of CJK (compatibility) ideographs.
func ideograph(r rune) bool {
	return r >= 0x4e00 && r <= 0x9fff ||
		r >= 0x3400 && r <= 0x4dbf ||
		r >= 0x20000 && r <= 0x2a6df ||
		r >= 0x2a700 && r <= 0x2b73f ||
		r >= 0x2b740 && r <= 0x2b81f ||
		r >= 0x2b820 && r <= 0x2ceaf ||
		r >= 0xf900 && r <= 0xfaff ||
		r >= 0x2f800 && r <= 0x2fa1f
}

type options struct{ clean, chinese, accents, lower bool }

// expected works on one character, as no step looks at its neighbours.
func expected(c lib.Ch, o options) []lib.Ch {
	if o.clean {
		if dropped(c.R) {
			return nil
		}
		if white(c.R) {
			c = lib.With(c, ' ')
		}
	}
	out := []lib.Ch{c}
	if o.chinese && ideograph(c.R) {
		out = []lib.Ch{lib.With(c, ' '), c, lib.With(c, ' ')}
		sym.Reach("ideograph")
	}
	var kept []lib.Ch
	for _, c := range out {
		if o.accents && unicode.Is(unicode.Mn, c.R) {
			sym.Reach("accent")
			continue
		}
		if o.lower {
			c = lib.With(c, unicode.ToLower(c.R))
		}
		kept = append(kept, c)
	}
	return kept
}

func pick() options {
	b := func() bool { return sym.Choose(2) == 1 }
	return options{b(), b(), b(), b()}
}

func check(s string, o options) {
	ns := normalizedstring.FromString(s)
	err := bertnormalizer.NewBertNormalizer(o.clean, o.chinese, o.accents, o.lower).Normalize(ns)
	sym.Assert(err == nil, "normalization fails")
	var out []lib.Ch
	for _, c := range lib.Chars(s) {
		out = append(out, expected(c, o)...)
	}
	lib.Check(ns, out, s, "BERT normalization")
}

// H_every_character: every Unicode scalar value, every combination.
func H_every_character() {
	check(sym.Text(1, 4), pick())
}

// H_default: the default normalizer has every option on.
func H_default() {
	s := sym.Text(1, 4)
	ns := normalizedstring.FromString(s)
	err := bertnormalizer.DefaultBertNormalizer().Normalize(ns)
	sym.Assert(err == nil, "normalization fails")
	lib.Check(ns, expected(lib.Chars(s)[0], options{true, true, true, true}), s, "default BERT normalization")
}

// of gives an arbitrary character of one of the classes that matter.
func of(class int) rune {
	switch class {
	case 0:
		return sym.RuneIn('A', 'z')
	case 1:
		return sym.RuneIn(0, ' ')
	case 2:
		return sym.RuneIn(0x4db0, 0x4e10)
	case 3:
		return sym.RuneIn(0x0300, 0x036f)
	case 4:
		return sym.RuneIn(0x2000, 0x2010)
	case 5:
		return sym.RuneIn(0x2b710, 0x2b830)
	case 6:
		return sym.RuneIn(0x00c0, 0x0140)
	}
	return sym.RuneIn(0xfff0, 0xfffd)
}

// H_neighbours: characters of different classes next to each other.
func H_neighbours() {
	s := ""
	for k := 0; k < lib.Size(2, 3); k++ {
		s += string(of(sym.Choose(8)))
	}
	check(s, pick())
}

// H_between: every character inside a text that every step changes.
func H_between() {
	r := of(sym.Choose(8))
	s := "É\x00\u4e2d" + string(r) + "\u0301\t" + string(r) + "\u2028\U0002b820Ž"
	check(s, pick())
}

// H_edited: a text edited before keeps the original ranges it had.
func H_edited() {
	ns, cs, s := lib.Reachable(lib.Size(1, 2), 2)
	o := pick()
	err := bertnormalizer.NewBertNormalizer(o.clean, o.chinese, o.accents, o.lower).Normalize(ns)
	sym.Assert(err == nil, "normalization fails")
	var out []lib.Ch
	for _, c := range cs {
		out = append(out, expected(c, o)...)
	}
	lib.Check(ns, out, s, "BERT normalization of an edited text")
}

// H_long: texts longer than any internal buffer.
func H_long() {
	pads := lib.Pads()
	pad := lib.Fill(pads[sym.Choose(len(pads))])
	check(pad+string(of(sym.Choose(4)))+"\u4e2d"+pad+"\u0301", options{true, true, true, true})
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() {
	check(lib.Filler(lib.Huge())+string(sym.RuneIn(0xbe, 0xc2))+"\u4e2d\x00\tZ\u0301b", options{true, true, true, true})
}

// H_siblings: several normalizers made one after the other.
func H_siblings() {
	s := string(of(sym.Choose(8)))
	a, b := pick(), pick()
	bertnormalizer.DefaultBertNormalizer()
	check(s, a)
	check(s, b)
	check(s, a)
}
