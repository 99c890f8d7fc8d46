// Package c24: whole pipelines.
package c24

import (
	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/bertnormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/lowercasenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/stripnormalizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bertpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/metaspacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/runedelimiterpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacesplitpretokenizer"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// stages of a pipeline, and what each is to do.
type normalizer struct {
	real normalizers.Normalizer
	spec func([]lib.Ch) []lib.Ch
}

type preTokenizer struct {
	real pretokenizers.PreTokenizer
	spec func([]lib.Ch) [][]lib.Ch
}

type model struct {
	real  models.Model
	table lib.Table
	spec  func(word string) ([]lib.Sym, bool)
}

func lower() normalizer {
	return normalizer{lowercasenormalizer.NewLowerCaseNormalizer(), lib.Lowered}
}

func bert(clean, chinese, accents, lower bool) normalizer {
	return normalizer{bertnormalizer.NewBertNormalizer(clean, chinese, accents, lower), func(cs []lib.Ch) []lib.Ch {
		return lib.Bert(cs, clean, chinese, accents, lower)
	}}
}

func strip(left, right bool) normalizer {
	return normalizer{stripnormalizer.NewStripNormalizer(left, right), func(cs []lib.Ch) []lib.Ch { return lib.Stripped(cs, left, right) }}
}

func sequence(ns ...normalizer) normalizer {
	var real []normalizers.Normalizer
	for _, n := range ns {
		real = append(real, n.real)
	}
	return normalizer{sequencenormalizer.NewSequenceNormalizer(real), func(cs []lib.Ch) []lib.Ch {
		for _, n := range ns {
			cs = n.spec(cs)
		}
		return cs
	}}
}

func byKind(p pretokenizers.PreTokenizer, kind func(rune) int) preTokenizer {
	return preTokenizer{p, func(cs []lib.Ch) [][]lib.Ch { return lib.Pieces(cs, kind) }}
}

func bertCut() preTokenizer  { return byKind(bertpretokenizer.New(), lib.BertKind) }
func whiteCut() preTokenizer { return byKind(whitespacesplitpretokenizer.New(), lib.WhiteKind) }
func wordCut() preTokenizer  { return byKind(whitespacepretokenizer.NewDefault(), lib.WordKind) }
func runeCut(d rune) preTokenizer {
	return byKind(runedelimiterpretokenizer.New(d), lib.RuneKind(d))
}
func metaCut(meta rune, prefix bool) preTokenizer {
	return preTokenizer{metaspacepretokenizer.New(meta, prefix), func(cs []lib.Ch) [][]lib.Ch { return lib.Meta(cs, meta, prefix) }}
}
func byteCut(prefix bool) preTokenizer {
	return preTokenizer{bytelevelpretokenizer.New(bytelevelpretokenizer.DefaultSplittingRegexp, prefix, true), func(cs []lib.Ch) [][]lib.Ch {
		if prefix {
			cs = lib.Spaced(cs)
		}
		return lib.SpelledPieces(lib.ByteLevelCut(cs))
	}}
}

func wordPiece(t lib.Table) model {
	t = t.Add("[UNK]")
	return model{wordpiecemodel.New(t.Vocabulary(), "[UNK]", "##", 100), t, func(w string) ([]lib.Sym, bool) {
		return lib.WordPiece(t, "[UNK]", "##", 100, w)
	}}
}

func bpe(t lib.Table, rs lib.Rules, c lib.Config) model {
	return model{lib.Model(t, rs, c), t, func(w string) ([]lib.Sym, bool) { return lib.BPE(t, rs, c, w) }}
}

// joined adds the merge of two terms.
func joined(t lib.Table, rs lib.Rules, a, b string) (lib.Table, lib.Rules) {
	t = t.Add(a, b, a+b)
	return t, append(rs, lib.Rule{A: t.ID(a), B: t.ID(b), Rank: len(rs), ID: t.ID(a + b)})
}

// run puts s through a pipeline; direct pipelines rewrite no character and
// lose none but delimiters.
func run(s string, n *normalizer, ps []preTokenizer, m model, direct func(rune) bool) *encodings.Encoding {
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	if n != nil {
		sym.Assert(n.real.Normalize(ns) == nil, "normalization fails")
		cs = n.spec(cs)
	}
	pts := pretokenizedstring.FromNormalizedString(ns)
	pieces := [][]lib.Ch{cs}
	for _, p := range ps {
		sym.Assert(p.real.PreTokenize(pts) == nil, "pre-tokenization fails")
		var next [][]lib.Ch
		for _, c := range pieces {
			for _, part := range p.spec(c) {
				if len(part) > 0 {
					next = append(next, part)
				}
			}
		}
		pieces = next
	}
	lib.CheckSplits(pts, pieces, s, "pipeline")
	err := pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
		return m.real.Tokenize(ns.Get())
	})
	sym.Assert(err == nil, "tokenization fails")
	typ := 3
	e, err := pts.IntoEncoding(-1, typ)
	sym.Assert(err == nil, "encoding fails")
	sym.Observe("encoding", e.IDs, e.Tokens, e.Words)
	k := 0
	lastS, lastE := 0, 0
	covered := make([]bool, len(s))
	for w, piece := range pieces {
		text := lib.Join(piece)
		ss, failed := m.spec(text)
		sym.Assert(!failed, "the specification fails")
		for _, t := range ss {
			sym.Assert(k < len(e.IDs), "a token is missing")
			if k >= len(e.IDs) {
				return e
			}
			a, b := -1, -1
			p := 0
			for _, c := range piece {
				if p == t.Start {
					a = c.S
				}
				p += len(c.T)
				if p == t.End {
					b = c.E
				}
			}
			sym.Assert(e.IDs[k] == t.ID && e.Tokens[k] == m.table[t.ID], "wrong token")
			sym.Assert(e.Words[k] == w && e.TypeIDs[k] == typ, "wrong word or type")
			o := e.Offsets[k]
			sym.Observe("offsets", o.Start, o.End)
			sym.Assert(o.Start >= 0 && o.Start <= o.End && o.End <= len(s), "offsets outside the text")
			sym.Assert(lib.Boundary(s, o.Start) && lib.Boundary(s, o.End), "offsets off character boundaries")
			sym.Assert(o.Start >= lastS && o.End >= lastE, "tokens out of order")
			sym.Assert(o.Start == a && o.End == b, "offsets do not point at the source of the token")
			if direct != nil {
				sym.Assert(o.Start >= lastE, "tokens overlap")
				sym.Assert(s[o.Start:o.End] == text[t.Start:t.End], "the text at the offsets is not the token's")
				for i := o.Start; i < o.End; i++ {
					covered[i] = true
				}
			}
			lastS, lastE = o.Start, o.End
			k++
		}
	}
	sym.Assert(k == len(e.IDs), "tokens from nowhere")
	n2 := len(e.IDs)
	sym.Assert(len(e.Offsets) == n2 && len(e.Tokens) == n2 && len(e.Words) == n2 && len(e.TypeIDs) == n2 && len(e.SpecialTokensMask) == n2 && len(e.AttentionMask) == n2, "lists of different lengths")
	if direct != nil {
		for _, c := range lib.Chars(s) {
			if direct(c.R) {
				continue
			}
			for i := c.S; i < c.E; i++ {
				sym.Assert(covered[i], "a character is not covered by any token")
			}
		}
	}
	return e
}

// of is an arbitrary character around those that the stages treat differently.
func of(class int) rune {
	switch class {
	case 0:
		return sym.RuneIn(0, 0x7f)
	case 1:
		return sym.RuneIn(0x80, 0x17f)
	case 2:
		return sym.RuneIn(0x0300, 0x036f)
	case 3:
		return sym.RuneIn(0x2000, 0x206f)
	case 4:
		return sym.RuneIn(0x4dc0, 0x4e20)
	}
	return sym.RuneIn(0x2b810, 0x2b830)
}

var letters = lib.Table{"[UNK]", "a", "##a", "b", "##b", "ab", "##ab", "é", "##é", "e", "##e", "!", "a\u0301", "中", "##中"}

func kindGone(kind func(rune) int) func(rune) bool {
	return func(r rune) bool { return kind(r) == lib.Gone }
}

// H_bert: BERT normalization, pre-tokenization and WordPiece.
func H_bert() {
	s := []string{"aB", "é b", ""}[sym.Choose(3)] + string(of(sym.Choose(6)))
	if !sym.Quick() {
		s += "a" + string(of(sym.Choose(2)))
	}
	s += []string{"É!", "e\u0301 ab", ""}[sym.Choose(3)]
	b := func() bool { return sym.Choose(2) == 1 }
	n := bert(true, b(), b(), b())
	run(s, &n, []preTokenizer{bertCut()}, wordPiece(letters), nil)
}

// H_bert_plain: the same without any normalization.
func H_bert_plain() {
	s := sym.Text(lib.Size(3, 4), 2)
	run(s, nil, []preTokenizer{bertCut()}, wordPiece(letters), kindGone(lib.BertKind))
}

// H_words: stripping, lower-casing, word pre-tokenization and WordPiece.
func H_words() {
	s := []string{" A", "\u3000é", ""}[sym.Choose(lib.Size(2, 3))] + string(of(sym.Choose(lib.Size(2, 4)))) + []string{"-b ", "\u0130\u2028", ""}[sym.Choose(lib.Size(2, 3))]
	b := func() bool { return sym.Choose(2) == 1 }
	n := sequence(strip(b(), b()), lower())
	run(s, &n, []preTokenizer{wordCut()}, wordPiece(letters.Add("-", "ß")), nil)
}

// H_words_plain: word pre-tokenization and WordPiece over any text.
func H_words_plain() {
	s := string(of(sym.Choose(4))) + string(of(sym.Choose(lib.Size(2, 4)))) + "ab"
	run(s, nil, []preTokenizer{wordCut()}, wordPiece(letters), kindGone(lib.WordKind))
}

// H_spaces: white space and BPE with an unknown token.
func H_spaces() {
	var t lib.Table
	var rs lib.Rules
	t, rs = joined(t, rs, "a", "b")
	t, rs = joined(t, rs, "ab", "é")
	t, rs = joined(t, rs, "é", "a")
	t = t.Add("<unk>")
	c := lib.Config{Unk: "<unk>", Fuse: sym.Choose(2) == 1}
	s := []string{"", "ab", "é\u2003"}[sym.Choose(3)] + sym.Text(lib.Size(2, 3), 3) + []string{"", "é a"}[sym.Choose(2)]
	run(s, nil, []preTokenizer{whiteCut()}, bpe(t, rs, c), kindGone(lib.WhiteKind))
}

// H_spaces_lower: the same after lower-casing.
func H_spaces_lower() {
	var t lib.Table
	var rs lib.Rules
	t, rs = joined(t, rs, "a", "i")
	t, rs = joined(t, rs, "ai", "ⱥ")
	t = t.Add("<unk>", "ω")
	s := "Ai" + string(lib.CasedRune()) + "\u0130Ⱥ " + string(of(sym.Choose(2))) + "AI"
	n := lower()
	run(s, &n, []preTokenizer{whiteCut()}, bpe(t, rs, lib.Config{Unk: "<unk>"}), nil)
}

// H_meta: meta-space pre-tokenization and BPE.
func H_meta() {
	var t lib.Table
	var rs lib.Rules
	t, rs = joined(t, rs, "▁", "a")
	t, rs = joined(t, rs, "▁a", "é")
	t, rs = joined(t, rs, "a", "a")
	t = t.Add("<unk>")
	s := []string{"", "a", " é", "▁a"}[sym.Choose(4)] + sym.Text(lib.Size(2, 3), 3) + []string{"", " aé", "  "}[sym.Choose(3)]
	run(s, nil, []preTokenizer{metaCut('▁', sym.Choose(2) == 1)}, bpe(t, rs, lib.Config{Unk: "<unk>", Fuse: sym.Choose(2) == 1}), nil)
}

// H_bytes: byte-level pre-tokenization and BPE.
func H_bytes() {
	t := lib.Table{"<unk>", "1", "Ċ"}
	var rs lib.Rules
	t, rs = joined(t, rs, "Ã", "©")
	t, rs = joined(t, rs, "Ġ", "a")
	t, rs = joined(t, rs, "Ġ", "Ã©")
	s := []string{"", "a", "é a"}[sym.Choose(3)]
	r := of(sym.Choose(2))
	if !sym.Quick() {
		r = of(sym.Choose(6))
	}
	sym.Assume(r != '\'')
	s += string(r) + []string{"", "é", " a é1"}[sym.Choose(3)]
	run(s, nil, []preTokenizer{byteCut(sym.Choose(2) == 1)}, bpe(t, rs, lib.Config{Unk: "<unk>"}), nil)
}

// H_two: two pre-tokenizers one after the other.
func H_two() {
	s := sym.Text(lib.Size(3, 4), 2)
	a := []preTokenizer{whiteCut(), runeCut('-'), bertCut()}
	b := []preTokenizer{metaCut('▁', true), runeCut('a'), bertCut()}
	ps := []preTokenizer{a[sym.Choose(3)], b[sym.Choose(3)]}
	var t lib.Table
	var rs lib.Rules
	t, rs = joined(t, rs, "▁", "a")
	t = t.Add("<unk>", "é")
	run(s, nil, ps, bpe(t, rs, lib.Config{Unk: "<unk>"}), nil)
}

// H_affixes: BPE with a prefix and a suffix of terms.
func H_affixes() {
	c := lib.Config{Unk: "<unk>", Prefix: "##", Suffix: "</w>", Fuse: sym.Choose(2) == 1}
	t := lib.Table{"<unk>", "a", "é", "##a", "##é", "a</w>", "é</w>", "##a</w>", "##é</w>"}
	t = t.Add("aé", "aé</w>")
	rs := lib.Rules{{A: t.ID("a"), B: t.ID("##é"), Rank: 0, ID: t.ID("aé")}, {A: t.ID("a"), B: t.ID("##é</w>"), Rank: 1, ID: t.ID("aé</w>")}}
	s := sym.Text(lib.Size(4, 5), 2)
	run(s, nil, []preTokenizer{runeCut(' ')}, bpe(t, rs, c), kindGone(lib.RuneKind(' ')))
}

// H_long: long texts.
func H_long() {
	pads := lib.Pads()
	pad := lib.Fill(pads[sym.Choose(len(pads))])
	x := string(of(sym.Choose(3)))
	s := pad + " É" + x + pad + "ab"
	switch sym.Choose(3) {
	case 0:
		n := bert(true, true, true, true)
		run(s, &n, []preTokenizer{bertCut()}, wordPiece(letters), nil)
	case 1:
		var t lib.Table
		var rs lib.Rules
		t, rs = joined(t, rs, "a", "b")
		t, rs = joined(t, rs, "ab", "c")
		t = t.Add("<unk>")
		run(s, nil, []preTokenizer{metaCut('▁', true)}, bpe(t, rs, lib.Config{Unk: "<unk>", Fuse: true}), nil)
	case 2:
		run(s, nil, []preTokenizer{whiteCut()}, wordPiece(letters), kindGone(lib.WhiteKind))
	}
}

// H_huge: a text and a word longer than sixteen bits can count.
func H_huge() {
	word := lib.Filler(lib.Huge())
	t := lib.Table{"[UNK]", "a", "##a", "b", "##b", "é", "e"}
	s := word + string(sym.RuneIn(0x1f, 0x22)) + "ab É"
	n := bert(true, true, true, true)
	run(s, &n, []preTokenizer{bertCut()}, wordPiece(t), nil)
}
