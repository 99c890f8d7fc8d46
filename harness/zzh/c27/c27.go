// Package c27: text that is not valid UTF-8.
package c27

import (
	"regexp"
	"unicode"
	"unicode/utf8"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/bertnormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/lowercasenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/stripnormalizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bertpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/metaspacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/runedelimiterpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacesplitpretokenizer"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// text is n arbitrary bytes, alone or among characters of several bytes.
func text(n int) string {
	b := sym.Bytes(n)
	switch sym.Choose(4) {
	case 1:
		return "é" + b
	case 2:
		return b + "▁ a"
	case 3:
		return "𝔾" + b + "é"
	}
	return b
}

// invalid reports whether c is a byte of no character, which an edit passing
// over it may turn into the replacement character.
func invalid(c lib.Ch) bool { return c.R == utf8.RuneError && c.E-c.S == 1 }

// settle is cs with the replacement character where s has it for a byte.
func settle(s string, cs []lib.Ch) []lib.Ch {
	out := make([]lib.Ch, len(cs))
	p := 0
	for i, c := range cs {
		out[i] = c
		if invalid(c) && p+3 <= len(s) && s[p:p+3] == "\uFFFD" {
			out[i].T = "\uFFFD"
		}
		p += len(out[i].T)
	}
	return out
}

// check asserts that ns is cs, the bytes of no character rewritten or not.
func check(ns *normalizedstring.NormalizedString, cs []lib.Ch, orig, what string) {
	lib.Check(ns, settle(ns.Get(), cs), orig, what)
	lib.Integrity(ns, orig, what)
}

// H_as_is: what does not rewrite characters keeps every byte.
func H_as_is() {
	s := text(lib.Size(2, 3))
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	lib.Check(ns, cs, s, "new string")
	lib.Integrity(ns, s, "new string")
	if len(cs) == 0 {
		return
	}
	a, z := cs[0], cs[len(cs)-1]
	switch sym.Choose(4) {
	case 0:
		ns.Prepend("é-")
		cs = lib.Concat(lib.Inserted("é-", a.S, a.E), cs)
	case 1:
		ns.Append("-é")
		cs = lib.Concat(cs, lib.Inserted("-é", z.S, z.E))
	case 2:
		ns.Append("▁")
		ns.Prepend("-")
		ns.Append("é")
		cs = lib.Concat(lib.Inserted("-", a.S, a.E), cs, lib.Inserted("▁é", z.S, z.E))
	case 3:
		// insertion in the middle
		i := sym.Choose(len(cs))
		p := lib.Pos(cs, i+1)
		ns.TransformRange(normalizedstring.NewNormalizedRange(p, p), []normalizedstring.RuneChange{{Rune: '–', Change: 1}}, 0)
		cs = lib.Concat(cs[:i+1], lib.Inserted("–", cs[i].S, cs[i].E), cs[i+1:])
	}
	lib.Check(ns, cs, s, "insertion")
	lib.Integrity(ns, s, "insertion")
}

// H_edits: filters, mappings, trimming.
func H_edits() {
	s := text(lib.Size(2, 3))
	ns := normalizedstring.FromString(s)
	cs := edit(ns, lib.Chars(s), sym.Choose(5))
	check(ns, cs, s, "edit")
}

// H_map: every mapping.
func H_map() {
	s := text(lib.Size(1, 2))
	ns := normalizedstring.FromString(s)
	cs := edit(ns, lib.Chars(s), 5)
	check(ns, cs, s, "map")
}

// H_edit_twice: an edit of an edited text.
func H_edit_twice() {
	s := "é" + sym.Bytes(lib.Size(1, 2)) + "a"
	ns := normalizedstring.FromString(s)
	cs := edit(ns, lib.Chars(s), sym.Choose(5))
	cs = edit(ns, settle(ns.Get(), cs), sym.Choose(5))
	check(ns, cs, s, "second edit")
}

func edit(ns *normalizedstring.NormalizedString, cs []lib.Ch, kind int) []lib.Ch {
	var out []lib.Ch
	switch kind {
	case 0:
		ns.Filter(func(r rune) bool { return sym.Pred("keep", r) })
		for _, c := range cs {
			if sym.Pred("keep", c.R) {
				out = append(out, c)
			}
		}
		return out
	case 1:
		// other widths
		f := func(r rune) rune {
			switch {
			case r == 'a':
				return 'é'
			case r == utf8.RuneError:
				return 'ß'
			case r < 0x80:
				return '▁'
			case r < 0x800:
				return 'b'
			}
			return r
		}
		ns.Map(f)
		for _, c := range cs {
			out = append(out, lib.With(c, f(c.R)))
		}
		return out
	case 2:
		ns.TrimLeft()
		return lib.Stripped(cs, true, false)
	case 3:
		ns.TrimRight()
		return lib.Stripped(cs, false, true)
	case 4:
		ns.Trim()
		return lib.Stripped(cs, true, true)
	case 5:
		ns.Map(func(r rune) rune { return sym.RuneFn("map", r) })
		for _, c := range cs {
			out = append(out, lib.With(c, sym.RuneFn("map", c.R)))
		}
		return out
	}
	return cs
}

// H_replace: replacing characters around and among the invalid bytes.
func H_replace() {
	s := text(lib.Size(2, 3))
	d := []rune{'a', 'é', utf8.RuneError}[sym.Choose(3)]
	cs := lib.Chars(s)
	with := []string{"", "–b"}[sym.Choose(2)]
	ns := normalizedstring.FromString(s)
	err := ns.Replace(splitpattern.FromRune(d), with)
	sym.Assert(err == nil, "replacing fails")
	var out []lib.Ch
	for _, c := range cs {
		if c.R == d {
			out = append(out, lib.Inserted(with, c.S, c.E)...)
			continue
		}
		out = append(out, c)
	}
	lib.Check(ns, out, s, "replacement")
	lib.Integrity(ns, s, "replacement")
}

// H_transform: rewriting some range.
func H_transform() {
	s := text(lib.Size(2, 3))
	cs := lib.Chars(s)
	if len(cs) == 0 {
		return
	}
	i := sym.Choose(len(cs))
	j := i + 1 + sym.Choose(len(cs)-i)
	ns := normalizedstring.FromString(s)
	drop := 0
	if sym.Choose(2) == 1 {
		drop = 1
	}
	var ch []normalizedstring.RuneChange
	out := append([]lib.Ch{}, cs[:i]...)
	if drop < j-i {
		first := cs[i+drop]
		// the first one kept is replaced, and what follows it is removed
		ch = append(ch, normalizedstring.RuneChange{Rune: 'ß', Change: -(j - i - drop - 1)}, normalizedstring.RuneChange{Rune: 'x', Change: 1})
		out = append(out, lib.With(first, 'ß'))
		last := cs[j-1]
		out = append(out, lib.With(last, 'x'))
	}
	out = append(out, cs[j:]...)
	ns.TransformRange(normalizedstring.NewNormalizedRange(lib.Pos(cs, i), lib.Pos(cs, j)), ch, drop)
	lib.Check(ns, out, s, "transform")
	lib.Integrity(ns, s, "transform")
}

// H_normalizers: every normalizer.
func H_normalizers() {
	s := text(lib.Size(1, 2))
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	var n normalizers.Normalizer
	switch sym.Choose(5) {
	case 0:
		n = lowercasenormalizer.NewLowerCaseNormalizer()
		for i, c := range cs {
			if !invalid(c) {
				cs[i] = lib.With(c, unicode.ToLower(c.R))
			}
		}
	case 4:
		ns.ToUpper()
		n = stripnormalizer.NewStripNormalizer(false, false)
		for i, c := range cs {
			if !invalid(c) {
				cs[i] = lib.With(c, unicode.ToUpper(c.R))
			}
		}
	case 1:
		n = stripnormalizer.NewStripNormalizer(true, true)
		cs = lib.Stripped(cs, true, true)
	case 2:
		n = bertnormalizer.DefaultBertNormalizer()
		cs = lib.Bert(cs, true, true, true, true)
	case 3:
		n = bertnormalizer.NewBertNormalizer(false, true, true, false)
		cs = lib.Bert(cs, false, true, true, false)
	}
	sym.Assert(n.Normalize(ns) == nil, "normalizing fails")
	check(ns, cs, s, "normalizer")
}

// H_ranges: conversions, fetching and slicing by every range.
func H_ranges() {
	s := text(lib.Size(2, 3))
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	i := sym.Choose(len(s) + 1)
	j := i + sym.Choose(len(s)+1-i)
	on := lib.Boundary(s, i) && lib.Boundary(s, j)
	for _, r := range []normalizedstring.Range{normalizedstring.NewNormalizedRange(i, j), normalizedstring.NewOriginalRange(i, j)} {
		sym.Assert(strutils.IsRuneBoundary(s, i) == lib.Boundary(s, i), "wrong boundary")
		x, ok := ns.Slice(r)
		sym.Assert(ok == on, "slicing succeeds where it should not, or does not where it should")
		if !on {
			continue
		}
		got, ok := ns.GetRange(r)
		sym.Assert(ok && got == s[i:j], "wrong text of a range")
		got, ok = ns.GetOriginalRange(r)
		sym.Assert(ok && got == s[i:j], "wrong original text of a range")
		if !on || x == nil {
			continue
		}
		var part []lib.Ch
		for _, c := range cs {
			if c.S >= i && c.E <= j {
				part = append(part, c)
			}
		}
		o := x.OriginalOffsets()
		sym.Assert(x.Get() == s[i:j] && x.GetOriginal() == s[i:j], "wrong text of a slice")
		sym.Assert(o.Start == i && o.End == j, "wrong offsets of a slice")
		sym.Assert(lib.Aligned(x, part, i), "wrong alignment in a slice")
		lib.Integrity(x, s, "slice")
	}
	lib.Check(ns, cs, s, "sliced string")
}

// H_inverse: the original alignments of any text and of a filtered one.
func H_inverse() {
	s := text(lib.Size(2, 3))
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	keep := make([]bool, len(cs))
	for i, c := range cs {
		keep[i] = sym.Pred("keep", c.R)
	}
	if sym.Choose(2) == 1 {
		ns.Filter(func(r rune) bool { return sym.Pred("keep", r) })
	} else {
		for i := range keep {
			keep[i] = true
		}
	}
	as := ns.OriginalAlignments()
	sym.Assert(len(as) == len(s), "wrong number of original alignments")
}

// runs are the captures expected of a pattern that matches single characters.
func runs(cs []lib.Ch, match func(rune) bool, joined bool) (out []splitpattern.Capture) {
	for _, c := range cs {
		m := match(c.R)
		if k := len(out); k > 0 && out[k-1].IsMatch == m && (joined || !m) {
			out[k-1].Offsets.End = c.E
			continue
		}
		out = append(out, splitpattern.Capture{Offsets: strutils.ByteOffsets{Start: c.S, End: c.E}, IsMatch: m})
	}
	if len(out) == 0 {
		out = append(out, splitpattern.Capture{})
	}
	return
}

// patterned gives a pattern and the captures expected of it.
func patterned(cs []lib.Ch) (splitpattern.SplitPattern, []splitpattern.Capture) {
	letter := func(r rune) bool { return r >= 'a' && r <= 'm' || r >= 'é' && r <= 'ü' }
	not := func(r rune) bool { return !letter(r) }
	bad := func(r rune) bool { return r == utf8.RuneError }
	switch sym.Choose(8) {
	case 0:
		return splitpattern.FromFunc(func(r rune) bool { return sym.Pred("delim", r) }),
			runs(cs, func(r rune) bool { return sym.Pred("delim", r) }, false)
	case 1:
		return splitpattern.FromRune(utf8.RuneError), runs(cs, bad, false)
	case 2:
		return splitpattern.FromRune('é'), runs(cs, func(r rune) bool { return r == 'é' }, false)
	case 3:
		return splitpattern.FromString("a"), runs(cs, func(r rune) bool { return r == 'a' }, false)
	case 4:
		return splitpattern.FromRegexp(regexp.MustCompile(`[a-mé-ü]+`)), runs(cs, letter, true)
	case 5:
		return splitpattern.FromRegexp(regexp.MustCompile(`[^a-mé-ü]`)), runs(cs, not, false)
	case 6:
		return splitpattern.FromRegexp2(regexp2.MustCompile(`[a-mé-ü]+`, regexp2.None)), runs(cs, letter, true)
	}
	return splitpattern.FromRegexp2(regexp2.MustCompile(`[^a-mé-ü]`, regexp2.None)), runs(cs, not, false)
}

// H_patterns: the captures of every kind of pattern.
func H_patterns() {
	s := text(lib.Size(2, 3))
	p, want := patterned(lib.Chars(s))
	inverted := sym.Choose(2) == 1
	if inverted {
		p = splitpattern.Invert(p)
	}
	got, err := p.FindMatches(s)
	sym.Assert(err == nil, "finding matches fails")
	for _, c := range got {
		sym.Observe("capture", c.Offsets.Start, c.Offsets.End, c.IsMatch)
	}
	sym.Assert(len(got) == len(want), "wrong number of captures")
	if len(got) != len(want) {
		return
	}
	for i, w := range want {
		w.IsMatch = w.IsMatch != inverted
		if len(s) == 0 {
			w.IsMatch = got[i].IsMatch
		}
		sym.Assert(got[i] == w, "wrong capture")
	}
}

// H_split: every behaviour.
func H_split() {
	s := text(lib.Size(2, 3))
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	f := func(r rune) bool { return sym.Pred("delim", r) }
	caps := runs(cs, f, false)
	b := normalizedstring.SplitDelimiterBehavior(sym.Choose(5))
	nss, err := ns.Split(splitpattern.FromFunc(f), b)
	sym.Assert(err == nil, "splitting fails")
	var want []strutils.ByteOffsets
	for k, c := range caps {
		if b == normalizedstring.SplitDelimiterRemoved && c.IsMatch && len(s) > 0 {
			continue
		}
		join := false
		if k > 0 {
			prev := caps[k-1].IsMatch
			switch b {
			case normalizedstring.SplitDelimiterMergedWithPrevious:
				join = !prev && c.IsMatch
			case normalizedstring.SplitDelimiterMergedWithNext:
				join = prev && !c.IsMatch
			case normalizedstring.SplitDelimiterContiguous:
				join = prev == c.IsMatch
			}
		}
		if join {
			want[len(want)-1].End = c.Offsets.End
			continue
		}
		want = append(want, c.Offsets)
	}
	sym.Assert(len(nss) == len(want), "wrong number of pieces")
	if len(nss) != len(want) {
		return
	}
	for k, x := range nss {
		w := want[k]
		sym.Observe("piece", x.Get())
		sym.Assert(x.Get() == s[w.Start:w.End], "wrong text of a piece")
		sym.Assert(x.OriginalOffsets() == w, "wrong offsets of a piece")
		lib.Integrity(x, s, "piece")
	}
	lib.Check(ns, cs, s, "split string")
}

// pre gives a pre-tokenizer and the pieces expected of it.
func pre(cs []lib.Ch, k int) (pretokenizers.PreTokenizer, [][]lib.Ch) {
	switch k {
	case 0:
		return whitespacesplitpretokenizer.New(), lib.Pieces(cs, lib.WhiteKind)
	case 1:
		return runedelimiterpretokenizer.New('é'), lib.Pieces(cs, lib.RuneKind('é'))
	case 2:
		return runedelimiterpretokenizer.New(utf8.RuneError), lib.Pieces(cs, lib.RuneKind(utf8.RuneError))
	case 3:
		return metaspacepretokenizer.NewDefault(), lib.Meta(cs, '▁', true)
	case 4:
		return metaspacepretokenizer.New('_', false), lib.Meta(cs, '_', false)
	case 5:
		return bertpretokenizer.New(), lib.Pieces(cs, lib.BertKind)
	case 6:
		// the mapping alone
		return bytelevelpretokenizer.New(regexp2.MustCompile(`(?s).+`, regexp2.None), true, true),
			lib.SpelledPieces(nonEmpty(lib.Spaced(cs)))
	}
	return bytelevelpretokenizer.New(regexp2.MustCompile(`(?s).`, regexp2.None), false, false), lib.SpelledPieces(single(cs))
}

func nonEmpty(cs []lib.Ch) [][]lib.Ch {
	if len(cs) == 0 {
		return nil
	}
	return [][]lib.Ch{cs}
}

func single(cs []lib.Ch) (out [][]lib.Ch) {
	for _, c := range cs {
		out = append(out, []lib.Ch{c})
	}
	return
}

// H_pretokenizers: every pre-tokenizer keeps the bytes.
func H_pretokenizers() {
	s := text(lib.Size(2, 3))
	p, want := pre(lib.Chars(s), sym.Choose(8))
	pts := pretokenizedstring.FromString(s)
	sym.Assert(p.PreTokenize(pts) == nil, "pre-tokenizing fails")
	lib.CheckSplits(pts, want, s, "pre-tokenizer")
}

// H_tables: those that consult large tables.
func H_tables() {
	b := sym.Bytes(1)
	s := []string{b, "é" + b, " \xf0" + b, "\xe2\x96" + b, b + "\xa9"}[sym.Choose(lib.Size(3, 5))]
	cs := lib.Chars(s)
	pts := pretokenizedstring.FromString(s)
	switch sym.Choose(2) {
	case 0:
		sym.Assert(whitespacepretokenizer.NewDefault().PreTokenize(pts) == nil, "pre-tokenizing fails")
		lib.CheckSplits(pts, lib.Pieces(cs, lib.WordKind), s, "white space")
	case 1:
		for _, c := range cs {
			sym.Assume(c.R != '\'')
		}
		sym.Assert(bytelevelpretokenizer.New(bytelevelpretokenizer.DefaultSplittingRegexp, false, true).PreTokenize(pts) == nil, "pre-tokenizing fails")
		lib.CheckSplits(pts, lib.SpelledPieces(lib.ByteLevelCut(cs)), s, "byte level")
	}
}

// H_wordpiece: a word of any bytes.
func H_wordpiece() {
	s := sym.Bytes(lib.Size(3, 4))
	t := lib.Table{}.Add("[UNK]", "a", "##a", "é", "##é", "##b", "aé")
	limit := lib.Size(2, 3) + sym.Choose(2)
	m := wordpiecemodel.New(t.Vocabulary(), "[UNK]", "##", limit)
	got, err := m.Tokenize(s)
	sym.Assert(err == nil, "tokenizing fails")
	want, _ := lib.WordPiece(t, "[UNK]", "##", limit, s)
	values(t, got, want)
}

func values(t lib.Table, got []models.Token, want []lib.Sym) { lib.SameTokens(t, got, want) }

// H_bpe: a word of any bytes.
func H_bpe() {
	s := sym.Bytes(lib.Size(3, 4))
	t := lib.Table{}.Add("<unk>", "a", "é", "b", "aé", "aa", "<unk>a", "-a", "a.", "-é.")
	id := t.ID
	rs := lib.Rules{
		{A: id("a"), B: id("é"), Rank: 0, ID: id("aé")},
		{A: id("a"), B: id("a"), Rank: 1, ID: id("aa")},
		{A: id("<unk>"), B: id("a"), Rank: 2, ID: id("<unk>a")},
	}
	c := lib.Config{Unk: "<unk>", Fuse: sym.Choose(2) == 1}
	if sym.Choose(2) == 1 {
		c.Prefix, c.Suffix = "-", "."
	}
	got, err := lib.Model(t, rs, c).Tokenize(s)
	sym.Assert(err == nil, "tokenizing fails")
	want, _ := lib.BPE(t, rs, c, s)
	lib.SameTokens(t, got, want)
}

// H_converter: byte to character positions.
func H_converter() {
	s := text(lib.Size(3, 4))
	st := lib.Starts(s)
	i := sym.Choose(len(st))
	j := i + sym.Choose(len(st)-i)
	got := strutils.NewBytesToRuneOffsetConverter(s).Convert(strutils.ByteOffsets{Start: st[i], End: st[j]})
	sym.Assert(got.Start == i && got.End == j, "wrong character positions")
	for p := -1; p <= len(s)+1; p++ {
		sym.Assert(strutils.IsRuneBoundary(s, p) == (p >= 0 && p <= len(s) && lib.Boundary(s, p)), "wrong boundary")
	}
}

// H_pipeline: normalizer, pre-tokenizer, model and encoding.
func H_pipeline() {
	s := text(lib.Size(1, 2))
	ns := normalizedstring.FromString(s)
	switch sym.Choose(3) {
	case 1:
		sym.Assert(bertnormalizer.NewBertNormalizer(false, true, false, true).Normalize(ns) == nil, "normalizing fails")
	case 2:
		ns.Prepend("x")
		ns.Filter(func(r rune) bool { return r != 'a' })
		ns.Append("é")
	}
	pts := pretokenizedstring.FromNormalizedString(ns)
	p, _ := pre(nil, []int{0, 3, 6, 7}[sym.Choose(4)])
	sym.Assert(p.PreTokenize(pts) == nil, "pre-tokenizing fails")
	var m models.Model
	t := lib.Table{}.Add("[UNK]", "a", "##a", "é", "##é", "x")
	if sym.Choose(2) == 0 {
		m = wordpiecemodel.New(t.Vocabulary(), "[UNK]", "##", 100)
	} else {
		m = lib.Model(t, nil, lib.Config{Unk: "[UNK]"})
	}
	err := pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) { return m.Tokenize(ns.Get()) })
	sym.Assert(err == nil, "tokenizing fails")
	e, err := pts.IntoEncoding(-1, 0)
	sym.Assert(err == nil, "encoding fails")
	if e == nil {
		return
	}
	at := 0
	for _, o := range e.Offsets {
		sym.Observe("offsets", o.Start, o.End)
		sym.Assert(o.Start >= 0 && o.Start <= o.End && o.End <= len(s), "offsets outside the text")
		sym.Assert(lib.Boundary(s, o.Start) && lib.Boundary(s, o.End), "offsets off character boundaries")
		sym.Assert(o.Start >= at, "offsets go backwards")
		at = o.Start
	}
}

// H_long: texts longer than any internal buffer.
func H_long() {
	pads := lib.Pads()
	pad := lib.Fill(pads[sym.Choose(len(pads))])
	s := pad + sym.Bytes(1) + "é\xff" + pad
	cs := lib.Chars(s)
	switch sym.Choose(3) {
	case 0:
		ns := normalizedstring.FromString(s)
		ns.Filter(func(r rune) bool { return r != 'é' })
		var out []lib.Ch
		for _, c := range cs {
			if c.R != 'é' {
				out = append(out, c)
			}
		}
		check(ns, out, s, "filter")
	case 1:
		pts := pretokenizedstring.FromString(s)
		p, want := pre(cs, 2)
		sym.Assert(p.PreTokenize(pts) == nil, "pre-tokenizing fails")
		lib.CheckSplits(pts, want, s, "rune delimiter")
	case 2:
		pts := pretokenizedstring.FromString(s)
		p, want := pre(cs, 6)
		sym.Assert(p.PreTokenize(pts) == nil, "pre-tokenizing fails")
		lib.CheckSplits(pts, want, s, "byte level")
	}
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() {
	s := lib.Filler(lib.Huge()) + "\xff" + sym.Bytes(1) + "é\xc3"
	cs := lib.Chars(s)
	if sym.Choose(2) == 0 {
		ns := normalizedstring.FromString(s)
		ns.Filter(func(r rune) bool { return r != 'é' })
		var out []lib.Ch
		for _, c := range cs {
			if c.R != 'é' {
				out = append(out, c)
			}
		}
		lib.Check(ns, settle(ns.Get(), out), s, "filter")
		return
	}
	pts := pretokenizedstring.FromString(s)
	p, want := pre(cs, 2)
	sym.Assert(p.PreTokenize(pts) == nil, "pre-tokenizing fails")
	lib.CheckSplits(pts, want, s, "rune delimiter")
}
