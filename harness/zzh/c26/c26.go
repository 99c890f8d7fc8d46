// Package c26: components keep no state between calls and share none.
package c26

import (
	"regexp"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/bertnormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/lowercasenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/stripnormalizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bertpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/metaspacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/runedelimiterpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacesplitpretokenizer"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// ---- models ----

// setup is a model with all it was made from.
type setup struct {
	m     models.Model
	v     *vocabulary.Vocabulary
	table lib.Table
	mm    *bpemodel.MergeMap
	rules lib.Rules
}

func merged(t lib.Table, rs lib.Rules, a, b, ab string) lib.Rules {
	return append(rs, lib.Rule{A: t.ID(a), B: t.ID(b), Rank: len(rs), ID: t.ID(ab)})
}

const kinds = 5

// make gives a model of some kind.
func build(kind int) setup {
	switch kind {
	case 0:
		t := lib.Table{"[UNK]", "a", "##a", "é", "##é", "aé"}
		v := t.Vocabulary()
		return setup{wordpiecemodel.New(v, "[UNK]", "##", 300), v, t, nil, nil}
	case 1: // no unknown token
		t := lib.Table{"a", "é", "aa", "aé", "aaaé"}
		rs := merged(t, nil, "a", "é", "aé")
		rs = merged(t, rs, "a", "a", "aa")
		rs = merged(t, rs, "aa", "aé", "aaaé")
		v, mm := t.Vocabulary(), rs.Map()
		return setup{bpemodel.New(v, mm, 100, 0, "", "", "", false), v, t, mm, rs}
	case 2: // unknown token, affixes, fused
		t := lib.Table{"<unk>", "a", "##a", "a</w>", "##a</w>", "é", "##é", "##é</w>", "aé"}
		rs := merged(t, nil, "a", "##é", "aé")
		v, mm := t.Vocabulary(), rs.Map()
		return setup{bpemodel.New(v, mm, 100, 0, "<unk>", "##", "</w>", true), v, t, mm, rs}
	case 3: // no cache
		t := lib.Table{"<unk>", "a", "é", "aé"}
		rs := merged(t, nil, "a", "é", "aé")
		v, mm := t.Vocabulary(), rs.Map()
		return setup{bpemodel.New(v, mm, 0, 0, "<unk>", "", "", false), v, t, mm, rs}
	}
	t := lib.Table{"a", "é", "aé"} // the smallest cache
	rs := merged(t, nil, "a", "é", "aé")
	v, mm := t.Vocabulary(), rs.Map()
	return setup{bpemodel.New(v, mm, 1, 0, "", "", "", false), v, t, mm, rs}
}

// intact asserts that what the model was made from is as it was.
func (s setup) intact(extra ...string) {
	sym.Assert(s.v.Size() == len(s.table), "the vocabulary changed size")
	for i, x := range s.table {
		id, ok := s.v.GetID(x)
		sym.Assert(ok && id == i, "a term has another id")
		str, ok := s.v.GetString(i)
		sym.Assert(ok && str == x, "an id has another term")
	}
	for _, x := range extra {
		_, ok := s.v.GetID(x)
		sym.Assert(ok == (s.table.ID(x) >= 0), "a term appeared")
	}
	if s.mm == nil {
		return
	}
	for i := range s.table {
		for j := range s.table {
			v, ok := s.mm.Get(i, j)
			r := s.rules.Of(i, j)
			sym.Assert(ok == (r != nil), "a merge appeared or went")
			if ok && r != nil {
				sym.Assert(v.Rank == r.Rank && v.ID == r.ID, "a merge changed")
			}
		}
	}
}

func copied(ts []models.Token) []models.Token { return append([]models.Token(nil), ts...) }

func sameTokens(a, b []models.Token, ea, eb error, what string) {
	sym.Observe("tokens", a)
	sym.Assert((ea == nil) == (eb == nil), what+": fails once only")
	sym.Assert(len(a) == len(b), what+": other tokens")
	if len(a) == len(b) {
		for i := range a {
			sym.Assert(a[i] == b[i], what+": other tokens")
		}
	}
}

func scribble(ts []models.Token) {
	for i := range ts {
		ts[i] = models.Token{ID: -9, Value: "scribble", Offsets: strutils.ByteOffsets{Start: -9, End: -9}}
	}
	_ = append(ts, models.Token{ID: -9})
	if c := cap(ts); c > len(ts) {
		for i := len(ts); i < c; i++ {
			ts[:c][i] = models.Token{ID: -9}
		}
	}
}

// H_model: a word, another word, the first again.
func H_model() {
	s := build(sym.Choose(kinds))
	w := sym.Text(1+sym.Choose(lib.Size(3, 4)), 2)
	v := sym.Text(1+sym.Choose(lib.Size(2, 3)), 2)
	first, err := s.m.Tokenize(w)
	kept := copied(first)
	s.intact(w, v)
	other, err2 := s.m.Tokenize(v)
	keptOther := copied(other)
	sameTokens(first, kept, err, err, "an earlier result changed")
	again, err3 := s.m.Tokenize(w)
	sameTokens(kept, again, err, err3, "the same word")
	sameTokens(other, keptOther, err2, err2, "an earlier result changed")
	scribble(first)
	sameTokens(again, kept, err, err3, "a result shared with another")
	sameTokens(other, keptOther, err2, err2, "a result shared with another")
	scribble(again)
	scribble(other)
	last, err4 := s.m.Tokenize(w)
	sameTokens(kept, last, err, err4, "the same word after its results were overwritten")
	lastOther, err5 := s.m.Tokenize(v)
	sameTokens(keptOther, lastOther, err2, err5, "the same word after its results were overwritten")
	s.intact(w, v)
}

// H_model_history: any short history of words, over a fresh model each time.
func H_model_history() {
	k := sym.Choose(kinds)
	s := build(k)
	words := []string{"a", "aé", "aaaé", "xéa", "é"}
	n := lib.Size(3, 4)
	for i := 0; i < n; i++ {
		w := words[sym.Choose(len(words))]
		got, err := s.m.Tokenize(w)
		fresh := build(k)
		want, err2 := fresh.m.Tokenize(w)
		sameTokens(got, want, err, err2, "a model that was used before")
		scribble(got)
	}
	s.intact()
}

// H_model_long: words longer than any internal buffer, and others much like
// them: each as a fresh model has it.
func H_model_long() {
	k := sym.Choose(kinds)
	s := build(k)
	pads := lib.Pads()
	n := pads[sym.Choose(len(pads))]
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a'
	}
	tail := sym.Text(1, 2)
	w := string(b) + tail
	x := ""
	switch sym.Choose(4) {
	case 0: // longer
		x = "é" + w
	case 1: // the same length, another end
		x = string(b) + "b"
		if len(tail) == 2 {
			x = string(b) + "é"
		}
	case 2: // another beginning
		b = append(b, 'a')
		b[0] = 'b'
		w = "a" + w
		x = string(b) + tail
	case 3: // another middle
		b = append(b, 'a')
		w = "a" + w
		b[n/2] = 'b'
		x = string(b) + tail
	}
	first, err := s.m.Tokenize(w)
	kept := copied(first)
	other, err2 := s.m.Tokenize(x)
	keptOther := copied(other)
	fresh := build(k)
	wantOther, err6 := fresh.m.Tokenize(x)
	sameTokens(wantOther, other, err6, err2, "a model that was used before")
	sameTokens(first, kept, err, err, "an earlier result changed")
	scribble(other)
	again, err3 := s.m.Tokenize(w)
	sameTokens(kept, again, err, err3, "the same word")
	last, err4 := s.m.Tokenize(x)
	sameTokens(keptOther, last, err2, err4, "the same word after its result was overwritten")
	s.intact()
}

// H_model_frame: tokenizing writes nothing that the model holds.
func H_model_frame() {
	s := build(sym.Choose(kinds))
	w := sym.Text(1+sym.Choose(lib.Size(3, 4)), 2)
	sym.Freeze("the model", s.m, s.v, s.mm)
	sym.Par(func() {
		s.m.Tokenize(w)
		s.m.Tokenize(w)
		s.m.Tokenize("aaaé")
	})
	s.intact(w)
}

// H_dropout_frame: with dropout neither.
func H_dropout_frame() {
	t := lib.Table{"a", "é", "aé", "aa"}
	rs := merged(t, nil, "a", "é", "aé")
	rs = merged(t, rs, "a", "a", "aa")
	v, mm := t.Vocabulary(), rs.Map()
	m := bpemodel.New(v, mm, 10, 0.5, "", "", "", false)
	w := "a" + sym.Text(1, 2) + "é"
	s := setup{m, v, t, mm, rs}
	s.m.Tokenize(w)
	s.intact(w)
	sym.Freeze("the model", m, v, mm)
	sym.Par(func() { m.Tokenize(w) })
	s.intact(w)
}

// ---- patterns ----

const patterns = 6

func pattern(k int) splitpattern.SplitPattern {
	switch k {
	case 0:
		return splitpattern.FromRune('é')
	case 1:
		return splitpattern.FromFunc(func(r rune) bool { return r == 'a' || r == 'é' })
	case 2:
		return splitpattern.FromString("aé")
	case 3:
		return splitpattern.FromRegexp(regexp.MustCompile(`[aé]+|b`))
	case 4:
		return splitpattern.FromRegexp2(regexp2.MustCompile(`[aé]+|b`, regexp2.None))
	}
	return splitpattern.FromRegexp2(regexp2.MustCompile(`é|[a-c]b`, regexp2.RightToLeft))
}

func maybeInverted(p splitpattern.SplitPattern) splitpattern.SplitPattern {
	if sym.Choose(2) == 1 {
		return splitpattern.Invert(p)
	}
	return p
}

func sameCaptures(a, b []splitpattern.Capture, what string) {
	sym.Observe("captures", a)
	sym.Assert(len(a) == len(b), what+": other captures")
	if len(a) == len(b) {
		for i := range a {
			sym.Assert(a[i] == b[i], what+": other captures")
		}
	}
}

// H_pattern: a text, another text, the first again.
func H_pattern() {
	p := maybeInverted(pattern(sym.Choose(patterns)))
	s := sym.Text(sym.Choose(lib.Size(3, 4)), 2)
	t := sym.Text(lib.Size(1, 2), 2) + "é"
	first, err := p.FindMatches(s)
	sym.Assert(err == nil, "matching fails")
	kept := append([]splitpattern.Capture(nil), first...)
	other, err := p.FindMatches(t)
	sym.Assert(err == nil, "matching fails")
	keptOther := append([]splitpattern.Capture(nil), other...)
	sameCaptures(first, kept, "an earlier result changed")
	for i := range first {
		first[i] = splitpattern.Capture{Offsets: strutils.ByteOffsets{Start: -9, End: -9}, IsMatch: !first[i].IsMatch}
	}
	sameCaptures(other, keptOther, "a result shared with another")
	again, err := p.FindMatches(s)
	sym.Assert(err == nil, "matching fails")
	sameCaptures(kept, again, "the same text")
	last, err := p.FindMatches(t)
	sym.Assert(err == nil, "matching fails")
	sameCaptures(keptOther, last, "the same text")
}

// H_pattern_frame: matching writes nothing that the pattern holds.
func H_pattern_frame() {
	p := maybeInverted(pattern(sym.Choose(patterns)))
	s := sym.Text(1+sym.Choose(lib.Size(3, 4)), 2)
	sym.Freeze("the pattern", p)
	sym.Par(func() {
		p.FindMatches(s)
		p.FindMatches("aéb")
	})
}

// ---- pre-tokenizers and normalizers ----

var never = regexp2.MustCompile(`[^\s\S]`, regexp2.None)
var some = regexp2.MustCompile(`[a-mé]+|[^a-mé ]`, regexp2.None)

const cutters = 6

func cutter(k int) pretokenizers.PreTokenizer {
	switch k {
	case 0:
		return bertpretokenizer.New()
	case 1:
		return whitespacesplitpretokenizer.New()
	case 2:
		return runedelimiterpretokenizer.New('é')
	case 3:
		return metaspacepretokenizer.New('▁', true)
	case 4:
		return bytelevelpretokenizer.New(never, true, true)
	}
	return whitespacepretokenizer.New(some)
}

// snap is what can be seen of a pre-tokenized string.
type snap struct {
	text string
	a, b int
	at   []int
}

func view(pts *pretokenizedstring.PreTokenizedString) []snap {
	var out []snap
	for i, b := range pts.GetOriginalByteSplits() {
		out = append(out, snap{b.String, b.Offsets.Start, b.Offsets.End, viewNS(pts.Splits()[i].NormalizedString)})
	}
	return out
}

// viewNS is the alignment of a normalized string.
func viewNS(ns *normalizedstring.NormalizedString) []int {
	var out []int
	for p := 0; p < ns.Len(); p++ {
		or, _ := ns.CoerceRangeToOriginal(normalizedstring.NewNormalizedRange(p, p+1))
		out = append(out, or.Start(), or.End())
	}
	return append(out, ns.OriginalOffsets().Start, ns.OriginalOffsets().End)
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameView(a, b []snap, what string) {
	sym.Observe("view", len(a))
	sym.Assert(len(a) == len(b), what+": other pieces")
	if len(a) != len(b) {
		return
	}
	for i := range a {
		sym.Observe("piece", a[i].text, a[i].at)
		sym.Assert(a[i].text == b[i].text && a[i].a == b[i].a && a[i].b == b[i].b, what+": other pieces")
		sym.Assert(sameInts(a[i].at, b[i].at), what+": another alignment")
	}
}

// H_cutter: strings pre-tokenized one after the other.
func H_cutter() {
	p := cutter(sym.Choose(cutters))
	s := sym.Text(lib.Size(3, 4), 2)
	t := sym.Text(lib.Size(1, 2), 2) + " aé"
	one, two, three := pretokenizedstring.FromString(s), pretokenizedstring.FromString(t), pretokenizedstring.FromString(s)
	sym.Assert(p.PreTokenize(one) == nil, "pre-tokenization fails")
	v1 := view(one)
	sameView(view(two), []snap{{t, 0, len(t), viewNS(normalizedstring.FromString(t))}}, "a string that was not touched")
	sym.Assert(p.PreTokenize(two) == nil, "pre-tokenization fails")
	sameView(view(one), v1, "an earlier string")
	v2 := view(two)
	// overwrite the pieces of the first
	for _, sp := range one.Splits() {
		sp.NormalizedString.Append("zz")
		sp.NormalizedString.Map(func(rune) rune { return 'z' })
	}
	sameView(view(two), v2, "another string")
	sym.Assert(p.PreTokenize(three) == nil, "pre-tokenization fails")
	sameView(view(three), v1, "the same text")
	sameView(view(two), v2, "another string")
}

// H_cutter_frame: pre-tokenizing writes nothing that others can see.
func H_cutter_frame() {
	p := cutter(sym.Choose(cutters))
	s := sym.Text(1+sym.Choose(lib.Size(2, 3)), 2)
	other := pretokenizedstring.FromString("a é" + s)
	p.PreTokenize(other)
	sym.Freeze("the pre-tokenizer", p)
	sym.Freeze("another string", other)
	sym.Par(func() {
		pts := pretokenizedstring.FromString(s)
		p.PreTokenize(pts)
		pts.GetOriginalByteSplits()
		pts.GetNormalizedByteSplits()
		other.GetOriginalByteSplits()
		other.GetNormalizedByteSplits()
	})
}

// H_default_frame: the default pre-tokenizers share their expressions.
func H_default_frame() {
	mk := func() pretokenizers.PreTokenizer { return bytelevelpretokenizer.NewDefault() }
	switch sym.Choose(3) {
	case 1:
		mk = func() pretokenizers.PreTokenizer { return whitespacepretokenizer.NewDefault() }
	case 2:
		mk = func() pretokenizers.PreTokenizer { return metaspacepretokenizer.NewDefault() }
	}
	s := string(sym.RuneIn(0, 0x7f)) + "a"
	p := mk()
	sym.Freeze("the pre-tokenizer", p)
	sym.Par(func() {
		p.PreTokenize(pretokenizedstring.FromString(s))
		mk().PreTokenize(pretokenizedstring.FromString(s))
	})
}

const washers = 4

func washer(k int) normalizers.Normalizer {
	switch k {
	case 0:
		return bertnormalizer.DefaultBertNormalizer()
	case 1:
		return lowercasenormalizer.NewLowerCaseNormalizer()
	case 2:
		return stripnormalizer.NewStripNormalizer(true, true)
	}
	return sequencenormalizer.NewSequenceNormalizer([]normalizers.Normalizer{
		stripnormalizer.NewStripNormalizer(true, false), lowercasenormalizer.NewLowerCaseNormalizer(),
	})
}

func sameNS(ns *normalizedstring.NormalizedString, text string, at []int, what string) {
	sym.Observe("ns", ns.Get())
	sym.Assert(ns.Get() == text, what+": another text")
	sym.Assert(sameInts(viewNS(ns), at), what+": another alignment")
}

func some2(k int) string {
	if k == 0 {
		return string(sym.RuneIn(0, 0x7f))
	}
	return string(sym.RuneIn(0x80, 0x17f))
}

// H_washer: strings normalized one after the other.
func H_washer() {
	n := washer(sym.Choose(washers))
	s := some2(sym.Choose(2)) + " É" + some2(sym.Choose(2))
	t := some2(sym.Choose(2)) + " Aé "
	one, two, three := normalizedstring.FromString(s), normalizedstring.FromString(t), normalizedstring.FromString(s)
	sym.Assert(n.Normalize(one) == nil, "normalization fails")
	t1, a1 := one.Get(), viewNS(one)
	sameNS(two, t, viewNS(normalizedstring.FromString(t)), "a string that was not touched")
	sym.Assert(n.Normalize(two) == nil, "normalization fails")
	sameNS(one, t1, a1, "an earlier string")
	one.Append("zz")
	one.Map(func(rune) rune { return 'z' })
	sym.Assert(n.Normalize(three) == nil, "normalization fails")
	sameNS(three, t1, a1, "the same text")
}

// H_washer_frame: normalizing writes nothing that others can see.
func H_washer_frame() {
	n := washer(sym.Choose(washers))
	s := some2(sym.Choose(2)) + some2(sym.Choose(2)) + " É中"
	other := normalizedstring.FromString(s)
	sym.Freeze("the normalizer", n)
	sym.Freeze("another string", other)
	sym.Par(func() {
		ns := normalizedstring.FromString(s)
		n.Normalize(ns)
		ns.OriginalAlignments()
		other.OriginalAlignments()
		other.Slice(normalizedstring.NewNormalizedRange(0, 1))
		other.GetOriginalRange(normalizedstring.NewNormalizedRange(0, 1))
	})
}

// ---- strings ----

// edit changes ns in some way.
func edit(ns *normalizedstring.NormalizedString) {
	switch sym.Choose(7) {
	case 0:
		ns.Append("zé")
	case 1:
		ns.Prepend("éz")
	case 2:
		ns.Map(func(rune) rune { return '▁' })
	case 3:
		first := true
		ns.Filter(func(rune) bool { f := first; first = false; return !f })
	case 4:
		ns.TransformRange(normalizedstring.NewNormalizedRange(0, 0), []normalizedstring.RuneChange{{Rune: 'x', Change: 1}}, 0)
	case 5:
		ns.TrimLeftRight(true, true)
	case 6:
		// as many bytes, aligned with other characters
		lib.Shift(ns, lib.Chars(ns.Get()))
	}
}

// H_parts: parts of one string and the string itself are independent.
func H_parts() {
	ns, cs, _ := lib.Reachable(lib.Size(2, 3), 2)
	sym.Assume(len(cs) >= 2)
	k := 1 + sym.Choose(len(cs)-1)
	p := lib.Pos(cs, k)
	a, ok1 := ns.Slice(normalizedstring.NewNormalizedRange(0, p))
	b, ok2 := ns.Slice(normalizedstring.NewNormalizedRange(p, ns.Len()))
	sym.Assert(ok1 && ok2, "slicing fails")
	list := []*normalizedstring.NormalizedString{ns, a, b}
	i := sym.Choose(3)
	var text [3]string
	var at [3][]int
	for j, x := range list {
		text[j], at[j] = x.Get(), viewNS(x)
	}
	edit(list[i])
	for j, x := range list {
		if j != i {
			sameNS(x, text[j], at[j], "a part of an edited string")
		}
	}
}

// H_split_parts: the pieces of a split and the string itself are independent.
func H_split_parts() {
	s := sym.Text(lib.Size(2, 3), 2)
	s = "a" + s + "-é"
	ns := normalizedstring.FromString(s)
	parts, err := ns.Split(splitpattern.FromRune('-'), normalizedstring.SplitDelimiterIsolated)
	sym.Assert(err == nil, "splitting fails")
	list := append([]*normalizedstring.NormalizedString{ns}, parts...)
	i := sym.Choose(lib.Size(3, 4))
	sym.Assume(i < len(list))
	var text []string
	var at [][]int
	for _, x := range list {
		text, at = append(text, x.Get()), append(at, viewNS(x))
	}
	edit(list[i])
	for j, x := range list {
		if j != i {
			sameNS(x, text[j], at[j], "a piece of an edited string")
		}
	}
	// and the list that was returned
	for i := range parts {
		parts[i] = nil
	}
	if i != 0 {
		again, err := ns.Split(splitpattern.FromRune('-'), normalizedstring.SplitDelimiterIsolated)
		sym.Assert(err == nil && len(again) == len(parts), "splitting again gives another number of pieces")
		for j, x := range again {
			sameNS(x, text[j+1], at[j+1], "splitting again")
		}
	}
}

// H_inverse: the alignments given out are nobody else's.
func H_inverse() {
	ns, _, _ := lib.Reachable(lib.Size(2, 3), 2)
	text, at := ns.Get(), viewNS(ns)
	x := ns.OriginalAlignments()
	kept := append([]normalizedstring.AlignmentRange(nil), x...)
	for i := range x {
		x[i] = normalizedstring.AlignmentRange{}
	}
	sameNS(ns, text, at, "after overwriting what it gave")
	y := ns.OriginalAlignments()
	sym.Assert(len(y) == len(kept), "other alignments the second time")
	if len(y) == len(kept) {
		for i := range y {
			sym.Assert(y[i] == kept[i], "other alignments the second time")
		}
	}
}

// H_strings: strings of the same text are independent.
func H_strings() {
	s := sym.Text(1+sym.Choose(lib.Size(2, 3)), 3)
	a, b := normalizedstring.FromString(s), normalizedstring.FromString(s)
	at := viewNS(b)
	edit(a)
	edit(a)
	sameNS(b, s, at, "a string of the same text")
	c := normalizedstring.FromString(s)
	sameNS(c, s, at, "a new string of the same text")
}

// H_strings_long: the same for long texts.
func H_strings_long() {
	pads := lib.Pads()
	s := lib.Filler(pads[sym.Choose(len(pads))]) + sym.Text(1, 2)
	a := normalizedstring.FromString(s)
	at := viewNS(a)
	h, ok := a.Slice(normalizedstring.NewNormalizedRange(0, len(s)))
	sym.Assert(ok, "slicing fails")
	b := normalizedstring.FromString(s)
	edit(a)
	sameNS(b, s, at, "a string of the same text")
	sameNS(h, s, at, "a part of it")
	edit(h)
	sameNS(b, s, at, "a string of the same text")
}

// H_strings_frame: editing writes nothing that others can see.
func H_strings_frame() {
	s := sym.Text(2, 2)
	whole := normalizedstring.FromString(s + "é")
	part, _ := whole.Slice(normalizedstring.NewNormalizedRange(0, len(s)))
	sym.Freeze("the string it was cut from", whole)
	sym.Freeze("another part", part)
	kind := sym.Choose(4)
	sym.Par(func() {
		x, ok := whole.Slice(normalizedstring.NewNormalizedRange(0, len(s)))
		if !ok {
			return
		}
		switch kind {
		case 0:
			x.Append("é")
			x.Prepend("é")
		case 1:
			x.Map(func(rune) rune { return 'z' })
		case 2:
			x.Filter(func(r rune) bool { return r != 'a' })
			x.TrimLeftRight(true, true)
		case 3:
			x.Split(splitpattern.FromRune('a'), normalizedstring.SplitDelimiterRemoved)
			x.Replace(splitpattern.FromRune('a'), "é")
		}
	})
}

// H_huge_words: long words that differ in their last characters only, or in
// their first ones.
func H_huge_words() {
	k := sym.Choose(kinds)
	s, fresh := build(k), build(k)
	c := lib.Filler(66000)
	pairs := [][2]string{{c + "é", c + "aé"}, {"é" + c, "x" + c}, {c + "é" + c[:100], c + "x" + c[:100]}}
	p := pairs[sym.Choose(len(pairs))]
	first, err := s.m.Tokenize(p[0])
	scribble(first)
	got, err2 := s.m.Tokenize(p[1])
	want, err3 := fresh.m.Tokenize(p[1])
	_ = err
	sameTokens(got, want, err2, err3, "a model that was used before")
}

// H_model_small: histories longer than a small cache is large.
func H_model_small() {
	t := lib.Table{"<unk>", "a", "é", "aé", "éa"}
	rs := merged(t, nil, "a", "é", "aé")
	rs = merged(t, rs, "é", "a", "éa")
	size := 1 + sym.Choose(lib.Size(2, 3))
	fresh := func() models.Model { return bpemodel.New(t.Vocabulary(), rs.Map(), size, 0, "<unk>", "", "", false) }
	m := fresh()
	words := []string{"aé", "éa", "aéa", "x"}
	n := lib.Size(5, 6)
	for i := 0; i < n; i++ {
		w := words[sym.Choose(len(words))]
		got, err := m.Tokenize(w)
		want, err2 := fresh().Tokenize(w)
		sameTokens(got, want, err, err2, "a model that was used before")
		scribble(got)
	}
}

// H_many_calls: one instance called many times on a few texts.
func H_many_calls() {
	n := lib.Size(70, 300)
	texts := []string{sym.Text(1, 2) + "aé", "b é" + sym.Text(1, 1), "aaé b"}
	switch sym.Choose(4) {
	case 0:
		s := build(sym.Choose(kinds))
		var first [3][]models.Token
		var errs [3]error
		for k := 0; k < n; k++ {
			got, err := s.m.Tokenize(texts[k%3])
			if k < 3 {
				first[k], errs[k] = copied(got), err
			} else {
				sameTokens(got, first[k%3], err, errs[k%3], "a later call")
			}
			scribble(got)
		}
		s.intact()
	case 1:
		p := maybeInverted(pattern(sym.Choose(patterns)))
		var first [3][]splitpattern.Capture
		for k := 0; k < n; k++ {
			got, err := p.FindMatches(texts[k%3])
			sym.Assert(err == nil, "matching fails")
			if k < 3 {
				first[k] = append([]splitpattern.Capture(nil), got...)
			} else {
				sameCaptures(got, first[k%3], "a later call")
			}
			for i := range got {
				got[i] = splitpattern.Capture{}
			}
		}
	case 2:
		p := cutter(sym.Choose(cutters))
		var first [3][]snap
		for k := 0; k < n; k++ {
			pts := pretokenizedstring.FromString(texts[k%3])
			sym.Assert(p.PreTokenize(pts) == nil, "pre-tokenization fails")
			if k < 3 {
				first[k] = view(pts)
			} else {
				sameView(view(pts), first[k%3], "a later call")
			}
		}
	case 3:
		p := washer(sym.Choose(washers))
		texts[0], texts[1] = some2(0)+"Aé", " É"+some2(1)
		var ts [3]string
		var as [3][]int
		for k := 0; k < n; k++ {
			ns := normalizedstring.FromString(texts[k%3])
			sym.Assert(p.Normalize(ns) == nil, "normalization fails")
			if k < 3 {
				ts[k], as[k] = ns.Get(), viewNS(ns)
			} else {
				sameNS(ns, ts[k%3], as[k%3], "a later call")
			}
		}
	}
}
