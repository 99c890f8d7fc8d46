// Package c14: meta-space pre-tokenization replaces spaces and cuts before
// them.
package c14

import (
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/metaspacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// expected gives the pieces.
func expected(cs []lib.Ch, meta rune, prefix bool) [][]lib.Ch {
	if prefix && len(cs) > 0 && cs[0].R != meta {
		cs = lib.Concat(lib.Inserted(string(meta), cs[0].S, cs[0].E), cs)
	}
	var out [][]lib.Ch
	for i, c := range cs {
		if c.R == ' ' {
			c = lib.With(c, meta)
		}
		if i == 0 || c.R == meta {
			out = append(out, nil)
		}
		out[len(out)-1] = append(out[len(out)-1], c)
	}
	return out
}

func run(p *metaspacepretokenizer.MetaSpacePreTokenizer, ns *normalizedstring.NormalizedString, cs []lib.Ch, root string, meta rune, prefix bool) {
	pts := pretokenizedstring.FromNormalizedString(ns)
	err := p.PreTokenize(pts)
	sym.Assert(err == nil, "pre-tokenization fails")
	want := expected(cs, meta, prefix)
	lib.CheckSplits(pts, want, root, "meta-space pieces")
	// the pieces' offsets are ordered and cover the original
	at := 0
	for k, b := range pts.GetOriginalByteSplits() {
		if k > 0 && b.Offsets.Start < at {
			// only a piece that is nothing but the inserted meta-character shares
			// the character it was put before
			sym.Assert(k == 1 && prefix, "original offsets go backwards")
		} else {
			sym.Assert(b.Offsets.Start == at || len(root) != ns.Len(), "original offsets leave a gap")
		}
		at = b.Offsets.End
		n := 0
		for i, r := range b.String {
			if r == meta {
				n++
				sym.Assert(i == 0, "a meta-character inside a piece")
			}
		}
		sym.Assert(n <= 1, "several meta-characters in a piece")
	}
}

// H_text: every text, every meta-character.
func H_text() {
	s := sym.Text(sym.Choose(lib.Size(4, 5)), 2)
	meta := sym.RuneW(1 + sym.Choose(lib.Size(3, 4)))
	prefix := sym.Choose(2) == 1
	run(metaspacepretokenizer.New(meta, prefix), normalizedstring.FromString(s), lib.Chars(s), s, meta, prefix)
}

// H_spaces: texts of spaces, meta-characters and letters.
func H_spaces() {
	s := ""
	n := sym.Choose(lib.Size(6, 8))
	for k := 0; k < n; k++ {
		switch sym.Choose(3) {
		case 0:
			s += " "
		case 1:
			s += "▁"
		case 2:
			s += string(sym.RuneIn('a', 'z'))
		}
	}
	prefix := sym.Choose(2) == 1
	run(metaspacepretokenizer.New('▁', prefix), normalizedstring.FromString(s), lib.Chars(s), s, '▁', prefix)
}

// H_default: the default meta-character and prefix.
func H_default() {
	s := sym.Text(sym.Choose(lib.Size(4, 5)), 3)
	run(metaspacepretokenizer.NewDefault(), normalizedstring.FromString(s), lib.Chars(s), s, '▁', true)
}

// H_wide: characters of every width.
func H_wide() {
	s := sym.Text(2, 4)
	meta := sym.RuneW(1 + sym.Choose(4))
	prefix := sym.Choose(2) == 1
	run(metaspacepretokenizer.New(meta, prefix), normalizedstring.FromString(s), lib.Chars(s), s, meta, prefix)
}

// H_edited: normalized texts.
func H_edited() {
	ns, cs, s := lib.Reachable(2, 2)
	meta := []rune{'▁', '_'}[sym.Choose(2)]
	prefix := sym.Choose(2) == 1
	pts := pretokenizedstring.FromNormalizedString(ns)
	err := metaspacepretokenizer.New(meta, prefix).PreTokenize(pts)
	sym.Assert(err == nil, "pre-tokenization fails")
	lib.CheckSplits(pts, expected(cs, meta, prefix), s, "meta-space pieces of an edited text")
}

// H_splits: every open split on its own.
func H_splits() {
	s := sym.Text(lib.Size(2, 3), 2)
	cs := lib.Chars(s)
	pts := pretokenizedstring.FromString(s)
	err := pts.Split(func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
		a, _ := ns.Slice(normalizedstring.NewNormalizedRange(0, len(cs[0].T)))
		b, _ := ns.Slice(normalizedstring.NewNormalizedRange(len(cs[0].T), len(s)))
		return pretokenizedstring.SplitsFromNormalizedStrings([]*normalizedstring.NormalizedString{a, b}), nil
	})
	sym.Assert(err == nil, "splitting fails")
	prefix := sym.Choose(2) == 1
	err = metaspacepretokenizer.New('▁', prefix).PreTokenize(pts)
	sym.Assert(err == nil, "pre-tokenization fails")
	want := append(expected(cs[:1], '▁', prefix), expected(cs[1:], '▁', prefix)...)
	lib.CheckSplits(pts, want, s, "meta-space pieces of splits")
}

// H_long: texts longer than any internal buffer.
func H_long() {
	pads := lib.Pads()
	pad := lib.Fill(pads[sym.Choose(len(pads))])
	s := pad + sym.Text(1, 2) + " " + pad + sym.Text(1, 2)
	meta := []rune{'▁', '_'}[sym.Choose(2)]
	prefix := sym.Choose(2) == 1
	run(metaspacepretokenizer.New(meta, prefix), normalizedstring.FromString(s), lib.Chars(s), s, meta, prefix)
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() {
	s := lib.Filler(lib.Huge()) + sym.Text(1, 2) + " b▁é"
	prefix := sym.Choose(2) == 1
	run(metaspacepretokenizer.New('▁', prefix), normalizedstring.FromString(s), lib.Chars(s), s, '▁', prefix)
}

// H_siblings: several pre-tokenizers made one after the other.
func H_siblings() {
	s := sym.Text(1, 2) + " a"
	x, y := sym.RuneW(1+sym.Choose(lib.Size(3, 4))), sym.RuneW(1+sym.Choose(lib.Size(3, 4)))
	a := metaspacepretokenizer.New(x, sym.Choose(2) == 1)
	_ = a
	p := sym.Choose(2) == 1
	b := metaspacepretokenizer.New(y, p)
	run(b, normalizedstring.FromString(s), lib.Chars(s), s, y, p)
	run(metaspacepretokenizer.New(x, !p), normalizedstring.FromString(s), lib.Chars(s), s, x, !p)
	run(b, normalizedstring.FromString(s), lib.Chars(s), s, y, p)
}
