// Package c12: delimiter pre-tokenizers cut exactly at their delimiters.
package c12

import (
	"unicode"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bertpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/runedelimiterpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacesplitpretokenizer"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// kinds of characters for a pre-tokenizer.
const (
	gone = -1 // never in a piece
	solo = -2 // a piece of its own
	// anything else: in a piece with its neighbours of the same kind
)

// pieces are the maximal pieces of equal kinds.
func pieces(cs []lib.Ch, kind func(rune) int) [][]lib.Ch {
	var out [][]lib.Ch
	last := gone
	for _, c := range cs {
		k := kind(c.R)
		switch {
		case k == gone:
		case k == last && k != solo:
			out[len(out)-1] = append(out[len(out)-1], c)
		default:
			out = append(out, []lib.Ch{c})
		}
		last = k
	}
	return out
}

func white(r rune) bool { return unicode.Is(unicode.White_Space, r) }

func whiteKind(r rune) int {
	if white(r) {
		return gone
	}
	return 1
}

func bertKind(r rune) int {
	switch {
	case white(r):
		return gone
	case unicode.Is(unicode.Punct, r):
		return solo
	}
	return 1
}

// wordKind: \w is letters, non-spacing marks, decimal digits, connectors and the
// two zero width joiners.
func wordKind(r rune) int {
	switch {
	case unicode.In(r, unicode.L, unicode.Mn, unicode.Nd, unicode.Pc) || r == 0x200c || r == 0x200d:
		return 1
	case unicode.IsSpace(r):
		return gone
	}
	return 2
}

func run(p pretokenizers.PreTokenizer, cs []lib.Ch, ns *normalizedstring.NormalizedString, root string, kind func(rune) int) {
	pts := pretokenizedstring.FromNormalizedString(ns)
	err := p.PreTokenize(pts)
	sym.Assert(err == nil, "pre-tokenization fails")
	lib.CheckSplits(pts, pieces(cs, kind), root, "pieces")
}

func text(s string) (*normalizedstring.NormalizedString, []lib.Ch, string) {
	return normalizedstring.FromString(s), lib.Chars(s), s
}

// H_white: white space split.
func H_white() {
	ns, cs, s := text(sym.Text(sym.Choose(lib.Size(5, 6)), 3))
	run(whitespacesplitpretokenizer.New(), cs, ns, s, whiteKind)
}

// H_white_every: every character between letters.
func H_white_every() {
	ns, cs, s := text("aé" + string(lib.BlockRune()) + "b")
	run(whitespacesplitpretokenizer.New(), cs, ns, s, whiteKind)
}

// H_rune: every delimiter.
func H_rune() {
	ns, cs, s := text(sym.Text(sym.Choose(lib.Size(5, 6)), 2))
	d := sym.RuneW(1 + sym.Choose(lib.Size(3, 4)))
	run(runedelimiterpretokenizer.New(d), cs, ns, s, func(r rune) int {
		if r == d {
			return gone
		}
		return 1
	})
}

// of is an arbitrary character around classes that matter.
func of(class int) rune {
	switch class {
	case 0:
		return sym.RuneIn(0, 0x7f)
	case 1:
		return sym.RuneIn(0x80, 0xbf)
	case 2:
		return sym.RuneIn(0x1ff0, 0x2030)
	}
	return sym.RuneIn(0x10100, 0x10103)
}

// H_bert: BERT pre-tokenization.
func H_bert() {
	s := ""
	n := sym.Choose(lib.Size(4, 5))
	for k := 0; k < n; k++ {
		s += string(of(sym.Choose(3)))
	}
	ns, cs, s := text(s)
	run(bertpretokenizer.New(), cs, ns, s, bertKind)
}

// H_bert_every: every character between letters.
func H_bert_every() {
	ns, cs, s := text("aé" + string(lib.BlockRune()) + "b")
	run(bertpretokenizer.New(), cs, ns, s, bertKind)
}

// H_word: words and punctuation.
func H_word() {
	s := ""
	n := sym.Choose(lib.Size(3, 4))
	for k := 0; k < n; k++ {
		s += string(of(sym.Choose(lib.Size(2, 3))))
	}
	ns, cs, s := text(s)
	run(whitespacepretokenizer.NewDefault(), cs, ns, s, wordKind)
}

// H_word_every: every character between others.
func H_word_every() {
	ns, cs, s := text("a" + string(lib.BlockRune()) + ".")
	run(whitespacepretokenizer.NewDefault(), cs, ns, s, wordKind)
}

// H_word_custom: another expression, cheap to match.
func H_word_custom() {
	r := regexp2.MustCompile(`[a-m]+|[^a-mé ]`, regexp2.None)
	ns, cs, s := text(sym.Text(sym.Choose(lib.Size(4, 5)), 2))
	run(whitespacepretokenizer.New(r), cs, ns, s, func(r rune) int {
		switch {
		case r >= 'a' && r <= 'm':
			return 1
		case r == 'é' || r == ' ':
			return gone
		}
		return solo
	})
}

func any(k int) (pretokenizers.PreTokenizer, func(rune) int) {
	switch k {
	case 0:
		return whitespacesplitpretokenizer.New(), whiteKind
	case 1:
		return bertpretokenizer.New(), bertKind
	}
	return runedelimiterpretokenizer.New('é'), func(r rune) int {
		if r == 'é' {
			return gone
		}
		return 1
	}
}

// H_edited: normalized texts.
func H_edited() {
	p, kind := any(sym.Choose(3))
	ns, cs, s := lib.Reachable(2, 2)
	run(p, cs, ns, s, kind)
}

// H_again: the pieces of one pre-tokenizer through another.
func H_again() {
	p, kind := any(sym.Choose(3))
	q, kind2 := any(sym.Choose(3))
	s := "b" + sym.Text(1, 2) + "é" + sym.Text(1, 2) + "."
	pts := pretokenizedstring.FromString(s)
	sym.Assert(p.PreTokenize(pts) == nil, "pre-tokenization fails")
	sym.Assert(q.PreTokenize(pts) == nil, "pre-tokenization fails")
	var want [][]lib.Ch
	for _, x := range pieces(lib.Chars(s), kind) {
		want = append(want, pieces(x, kind2)...)
	}
	lib.CheckSplits(pts, want, s, "pieces of pieces")
}

// H_tokenized: splits that have tokens are left alone.
func H_tokenized() {
	p, kind := any(sym.Choose(3))
	s := "a b" + sym.Text(1, 2) + ".é"
	pts := pretokenizedstring.FromString(s)
	toks := []models.Token{{ID: 7, Value: "x"}}
	sym.Assert(pts.Tokenize(func(*normalizedstring.NormalizedString) ([]models.Token, error) { return toks, nil }) == nil, "tokenizing fails")
	sym.Assert(p.PreTokenize(pts) == nil, "pre-tokenization fails")
	_ = kind
	sp := pts.GetOriginalByteSplits()
	sym.Assert(len(sp) == 1 && sp[0].String == s && sp[0].Tokens != nil && len(*sp[0].Tokens) == 1, "a tokenized split is touched")
}

// H_long: texts longer than any internal buffer.
func H_long() {
	p, kind := any(sym.Choose(3))
	pads := lib.Pads()
	pad := lib.Fill(pads[sym.Choose(len(pads))])
	ns, cs, s := text(pad + string(of(sym.Choose(3))) + "é," + pad + string(of(0)))
	run(p, cs, ns, s, kind)
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() {
	p, kind := any(sym.Choose(4))
	ns, cs, s := text(lib.Filler(lib.Huge()) + " é," + string(sym.RuneIn(0x1f, 0x21)) + "b")
	run(p, cs, ns, s, kind)
}

// H_siblings: several pre-tokenizers made one after the other.
func H_siblings() {
	s := sym.Text(lib.Size(3, 4), 2)
	d, e := sym.RuneW(1+sym.Choose(lib.Size(3, 4))), sym.RuneW(1+sym.Choose(lib.Size(3, 4)))
	kind := func(d rune) func(r rune) int {
		return func(r rune) int {
			if r == d {
				return gone
			}
			return 1
		}
	}
	a, b := runedelimiterpretokenizer.New(d), runedelimiterpretokenizer.New(e)
	ns, cs, s := text(s)
	run(a, cs, ns, s, kind(d))
	ns, cs, s = text(s)
	run(b, cs, ns, s, kind(e))
	ns, cs, s = text(s)
	run(runedelimiterpretokenizer.New(d), cs, ns, s, kind(d))
}

// H_word_siblings: several expressions used one after the other.
func H_word_siblings() {
	s := sym.Text(2, 2)
	a := whitespacepretokenizer.New(regexp2.MustCompile(`[a-m]+`, regexp2.None))
	b := whitespacepretokenizer.New(regexp2.MustCompile(`[k-zé]+`, regexp2.None))
	ka := func(r rune) int {
		if r >= 'a' && r <= 'm' {
			return 1
		}
		return gone
	}
	kb := func(r rune) int {
		if r >= 'k' && r <= 'z' || r == 'é' {
			return 1
		}
		return gone
	}
	ns, cs, s := text(s)
	run(a, cs, ns, s, ka)
	ns, cs, s = text(s)
	run(b, cs, ns, s, kb)
	ns, cs, s = text(s)
	run(a, cs, ns, s, ka)
}
