// Package c15: WordPiece is greedy longest-match-first and tiles the word.
package c15

import (
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// table is a vocabulary as a list: the id of a term is its place.
type table []string

func (t table) id(s string) int {
	for i, x := range t {
		if x == s {
			return i
		}
	}
	return -1
}

func (t table) add(s string) table {
	if t.id(s) >= 0 {
		return t
	}
	return append(t, s)
}

func (t table) vocabulary() *vocabulary.Vocabulary { return lib.Table(t).Vocabulary() }

type piece struct{ id, start, end int }

// greedy is the longest-match-first segmentation of word, or nil.
func greedy(t table, prefix, word string) []piece {
	out := []piece{}
	ps := lib.Starts(word)
	for at := 0; at < len(ps)-1; {
		found := false
		for to := len(ps) - 1; to > at && !found; to-- {
			s := word[ps[at]:ps[to]]
			if at > 0 {
				s = prefix + s
			}
			if id := t.id(s); id >= 0 {
				out = append(out, piece{id, ps[at], ps[to]})
				at = to
				found = true
			}
		}
		if !found {
			return nil
		}
	}
	return out
}

// check compares the model's tokens of word with the specification.
func check(m models.Model, t table, unk, prefix string, limit int, word string) {
	got, err := m.Tokenize(word)
	var want []piece
	if utf8.RuneCountInString(word) <= limit {
		want = greedy(t, prefix, word)
	}
	if want == nil {
		id := t.id(unk)
		if id < 0 {
			sym.Assert(lib.Is(err, wordpiecemodel.ErrUnknownTokenOutOfVocabulary), "no error for a missing unknown token")
			sym.Assert(got == nil, "tokens in spite of the error")
			return
		}
		want = []piece{{id, 0, len(word)}}
	}
	sym.Observe("tokens", got)
	sym.Assert(err == nil, "tokenizing fails")
	same(t, got, want)
}

func same(t table, got []models.Token, want []piece) {
	sym.Assert(len(got) == len(want), "wrong number of tokens")
	if len(got) != len(want) {
		return
	}
	for i, w := range want {
		sym.Assert(got[i].Offsets.Start == w.start && got[i].Offsets.End == w.end, "wrong offsets of a token")
		sym.Assert(got[i].ID == w.id, "wrong id of a token")
		sym.Assert(got[i].Value == t[w.id], "the value of a token is not the term of its id")
	}
}

func prefix() string { return []string{"##", "", "é"}[sym.Choose(3)] }

// withUnk adds the unknown token, or not.
func withUnk(t table) table {
	if sym.Choose(2) == 0 {
		return t.add("[UNK]")
	}
	return t
}

// H_any: every word and every small vocabulary.
func H_any() {
	p := prefix()
	var t table
	t = t.add(sym.Text(1+sym.Choose(2), 2))
	t = t.add(p + sym.Text(1+sym.Choose(2), 2))
	t = t.add(p + sym.Text(1, 2))
	t = withUnk(t)
	word := sym.Text(sym.Choose(lib.Size(4, 5)), 2)
	check(wordpiecemodel.New(t.vocabulary(), "[UNK]", p, 100), t, "[UNK]", p, 100, word)
}

// H_plain: every vocabulary of plain terms, which without a prefix all
// continue.
func H_plain() {
	var t table
	for k := 0; k < lib.Size(3, 4); k++ {
		t = t.add(sym.Text(1+sym.Choose(2), 2))
	}
	word := sym.Text(lib.Size(3, 4), 2)
	check(wordpiecemodel.New(t.vocabulary(), "?", "", 100), t, "?", "", 100, word)
}

// H_nested: terms that are prefixes of one another, in any combination.
func H_nested() {
	p := prefix()
	var t table
	for _, s := range []string{"a", "aé", "aéb", p + "é", p + "éb", p + "b"} {
		if sym.Choose(2) == 1 {
			t = t.add(s)
		}
	}
	t = t.add("[UNK]")
	word := []string{"aéb", "aébb", "aé", "éb", "a"}[sym.Choose(5)]
	check(wordpiecemodel.New(t.vocabulary(), "[UNK]", p, 100), t, "[UNK]", p, 100, word)
}

// H_limit: words at, below and above the limit, whatever their bytes.
func H_limit() {
	limit := sym.Int(-1<<40, 1<<40)
	word := sym.Text(sym.Choose(lib.Size(5, 6)), 4)
	sym.Assume(limit >= 0 || word != "")
	var t table
	for _, r := range word {
		t = t.add(string(r))
	}
	t = withUnk(t)
	check(wordpiecemodel.New(t.vocabulary(), "[UNK]", "", limit), t, "[UNK]", "", limit, word)
}

// H_every: every character, whole or split in two around it.
func H_every() {
	p := prefix()
	r := string(lib.BlockRune())
	var t table
	t = t.add("a").add(p + r).add(p + "b").add("[UNK]")
	if sym.Choose(2) == 1 {
		t = t.add("a" + r)
	}
	check(wordpiecemodel.New(t.vocabulary(), "[UNK]", p, 3), t, "[UNK]", p, 3, "a"+r+"b")
}

// H_unk: every unknown token, also one that is a term like others.
func H_unk() {
	u := sym.Text(sym.Choose(3), 2)
	var t table
	t = t.add("a").add("b").add("##b")
	if sym.Choose(2) == 1 {
		t = t.add(u)
	}
	word := "a" + sym.Text(1, 2)
	check(wordpiecemodel.New(t.vocabulary(), u, "##", 10), t, u, "##", 10, word)
}

// H_default: the default model has an empty vocabulary.
func H_default() {
	word := sym.Text(sym.Choose(3), 3)
	check(wordpiecemodel.NewDefault(), nil, "[UNK]", "##", 100, word)
}

// H_again: earlier words leave no trace.
func H_again() {
	var t table
	t = t.add("[UNK]").add("a").add("##é").add("##a").add("aé")
	m := wordpiecemodel.New(t.vocabulary(), "[UNK]", "##", 4)
	v, w := sym.Text(sym.Choose(3), 2), sym.Text(2, 2)
	check(m, t, "[UNK]", "##", 4, v)
	check(m, t, "[UNK]", "##", 4, w)
	check(m, t, "[UNK]", "##", 4, v)
}

// H_loaded: terms with any ids, as in a loaded vocabulary.
func H_loaded() {
	p := prefix()
	t := withUnk(table{"a", "aé", p + "é", p + "éb", p + "bcd", "b", p + "c"})
	x := sym.Text(1, 2)
	t = t.add(x).add(p + "b" + x)
	t = table(lib.Table(t).Spread([]int{3, 40}[sym.Choose(2)]))
	word := []string{"aéb", "aébcd", "éb", "bcd"}[sym.Choose(4)] + sym.Text(sym.Choose(3), 2)
	m := wordpiecemodel.New(t.vocabulary(), "[UNK]", p, 100)
	check(m, t, "[UNK]", p, 100, word)
}

// H_added: terms added to the vocabulary of a model.
func H_added() {
	p := prefix()
	t := withUnk(table{"a", p + "b"})
	v := t.vocabulary()
	m := wordpiecemodel.New(v, "[UNK]", p, 100)
	word := "ab" + sym.Text(1, 2) + "ab"
	check(m, t, "[UNK]", p, 100, word)
	for _, s := range []string{p + "b" + sym.Text(1, 2), p + "ab", p + "a", "[UNK]"} {
		t = t.add(s)
		v.AddTerm(s)
		check(m, t, "[UNK]", p, 100, word)
	}
}

// H_long: words longer than any internal buffer.
func H_long() {
	pads := lib.Pads()
	pad := lib.Fill(pads[sym.Choose(len(pads))])
	x := sym.Text(1, 3)
	var t table
	t = t.add("[UNK]").add("a").add("##é").add("##" + x)
	if pad != "" {
		t = t.add(pad).add("##" + pad)
	}
	if sym.Choose(2) == 1 {
		t = t.add(pad + x)
	}
	limit := []int{100, 10000}[sym.Choose(2)]
	m := wordpiecemodel.New(t.vocabulary(), "[UNK]", "##", limit)
	check(m, t, "[UNK]", "##", limit, pad+x+"é"+x)
}

// H_huge: words longer than sixteen bits can count.
func H_huge() {
	n := lib.Huge()
	pad := lib.Filler(n)
	x := sym.Text(1, 2)
	var t table
	t = t.add("[UNK]").add("##é").add("a").add("##" + x)
	limit := n + 2
	switch sym.Choose(3) {
	case 0:
		t = t.add(pad)
	case 1:
		t = t.add("##" + pad[1:])
	case 2:
		t = t.add(pad)
		limit = n + 1 - sym.Choose(2)
	}
	check(wordpiecemodel.New(t.vocabulary(), "[UNK]", "##", limit), t, "[UNK]", "##", limit, pad+x+"é")
}

// H_siblings: several models, made and used one after the other.
func H_siblings() {
	word := sym.Text(2, 2)
	p, q := prefix(), prefix()
	t := withUnk(table{"a"}.add("é").add(p + "é"))
	u := table{"é", "a", "[UNK]"}.add(q + sym.Text(1, 2))
	a := wordpiecemodel.New(t.vocabulary(), "[UNK]", p, 2)
	b := wordpiecemodel.New(u.vocabulary(), "a", q, 100)
	check(a, t, "[UNK]", p, 2, word)
	check(b, u, "a", q, 100, word)
	check(a, t, "[UNK]", p, 2, word)
}

// H_wide: ids of any size and sign.
func H_wide() {
	t := table{"[UNK]", "a", "ab", "##b", "##ab", "é"}
	v, ids := lib.Table(t).Wide()
	limit := []int{100, 2}[sym.Choose(2)]
	m := lib.Narrow{Model: wordpiecemodel.New(v, "[UNK]", "##", limit), IDs: ids}
	for _, w := range []string{"a" + sym.Text(1, 2), "abab", "éa"} {
		check(m, t, "[UNK]", "##", limit, w)
	}
}
