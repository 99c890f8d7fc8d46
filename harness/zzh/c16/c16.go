// Package c16: BPE tokens tile the word and agree with the vocabulary.
package c16

import (
	"strings"

	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// own is the text a term stands for at its place in a word.
func own(v string, c lib.Config, first, last bool) string {
	if !first {
		v = strings.TrimPrefix(v, c.Prefix)
	}
	if last {
		v = strings.TrimSuffix(v, c.Suffix)
	}
	return v
}

// check tokenizes word and asserts what holds whatever the merges do.  Every
// term of the table but the unknown token is spelled as the text it stands for.
func check(m models.Model, t lib.Table, c lib.Config, word string) []models.Token {
	got, err := m.Tokenize(word)
	if word == "" {
		sym.Assert(err == nil && len(got) == 0, "tokens out of nothing")
		return got
	}
	ss, missing, lost := lib.Initial(t, c, word)
	if missing {
		sym.Assert(err == bpemodel.ErrUnknownTokenOutOfVocabulary, "no error for a missing unknown token")
		sym.Assert(got == nil, "tokens in spite of the error")
		return got
	}
	sym.Observe("tokens", got)
	sym.Assert(err == nil, "tokenizing fails")
	at := 0
	for _, k := range got {
		sym.Assert(k.Offsets.Start == at && k.Offsets.End > at, "the offsets of the tokens are not consecutive")
		at = k.Offsets.End
		sym.Assert(k.ID >= 0 && k.ID < len(t) && t[k.ID] == k.Value, "the value of a token is not the term of its id")
	}
	sym.Assert(at <= len(word), "tokens beyond the end of the word")
	if lost {
		// a character is neither a term nor replaced by the unknown token:
		// what remains is read as if it were the word
		rest := ""
		for _, s := range ss {
			rest += word[s.Start:s.End]
		}
		for _, k := range got {
			sym.Assert(own(k.Value, c, k.Offsets.Start == 0, true) == rest[k.Offsets.Start:k.Offsets.End] ||
				own(k.Value, c, false, true) == rest[k.Offsets.Start:k.Offsets.End], "a token is not made of the known characters")
		}
		if len(ss) > 0 {
			sym.Known("bpe-characters-out-of-vocabulary-shift-offsets")
		}
		return got
	}
	sym.Assert(at == len(word), "the tokens do not cover the word")
	for _, k := range got {
		if k.Value == c.Unk {
			continue
		}
		sym.Assert(own(k.Value, c, k.Offsets.Start == 0, k.Offsets.End == len(word)) == word[k.Offsets.Start:k.Offsets.End],
			"the offsets of a token do not locate its characters")
	}
	return got
}

// vocab makes a table out of characters: as they are, in continuation, at the
// end, and joined as the merges say.
func vocab(c lib.Config, as []string) lib.Table {
	var t lib.Table
	for _, a := range as {
		t = t.Add(a, c.Prefix+a, a+c.Suffix, c.Prefix+a+c.Suffix)
	}
	return t
}

// join adds a merge, its result and the places it may stand at.
func join(t lib.Table, rs lib.Rules, c lib.Config, a, b string) (lib.Table, lib.Rules) {
	for _, p := range []string{"", c.Prefix} {
		for _, s := range []string{"", c.Suffix} {
			t = t.Add(p+a, c.Prefix+b+s, p+a+b+s)
			rs = append(rs, lib.Rule{A: t.ID(p + a), B: t.ID(c.Prefix + b + s), Rank: len(rs), ID: t.ID(p + a + b + s)})
			if c.Suffix == "" {
				break
			}
		}
		if c.Prefix == "" {
			break
		}
	}
	return t, rs
}

func config() lib.Config {
	return lib.Config{
		Unk:    []string{"", "<unk>"}[sym.Choose(2)],
		Prefix: []string{"", "##"}[sym.Choose(2)],
		Suffix: []string{"", "</w>"}[sym.Choose(2)],
		Fuse:   sym.Choose(2) == 1,
	}
}

// H_word: every word over terms with merges.
func H_word() {
	c := config()
	t := vocab(c, []string{"a", "é", "▁"})
	var rs lib.Rules
	t, rs = join(t, rs, c, "a", "é")
	t, rs = join(t, rs, c, "aé", "▁")
	t, rs = join(t, rs, c, "▁", "a")
	if c.Unk != "" {
		t = t.Add(c.Unk)
	}
	check(lib.Model(t, rs, c), t, c, sym.Text(sym.Choose(lib.Size(5, 6)), lib.Size(2, 3)))
}

// H_terms: every small vocabulary.
func H_terms() {
	c := lib.Config{Unk: []string{"", "<unk>"}[sym.Choose(2)]}
	x, y := sym.Text(1, 3), sym.Text(1, 2)
	t := vocab(c, []string{x, y})
	var rs lib.Rules
	t, rs = join(t, rs, c, x, y)
	t, rs = join(t, rs, c, y, y)
	if c.Unk != "" {
		t = t.Add(c.Unk)
	}
	check(lib.Model(t, rs, c), t, c, sym.Text(lib.Size(3, 4), 2))
}

// H_every: every character of the word, known or not.
func H_every() {
	c := config()
	r := string(lib.BlockRune())
	as := []string{"a"}
	if sym.Choose(2) == 1 {
		as = append(as, r)
	}
	t := vocab(c, as)
	if c.Unk != "" {
		t = t.Add(c.Unk)
	}
	check(lib.Model(t, nil, c), t, c, "a"+r+"a")
}

// H_bytes: words that are not valid UTF-8.
func H_bytes() {
	c := lib.Config{Unk: []string{"", "<unk>"}[sym.Choose(2)], Fuse: sym.Choose(2) == 1}
	t := vocab(c, []string{"a", "é"})
	var rs lib.Rules
	t, rs = join(t, rs, c, "a", "é")
	if c.Unk != "" {
		t = t.Add(c.Unk)
	}
	check(lib.Model(t, rs, c), t, c, sym.Bytes(sym.Choose(lib.Size(4, 5))))
}

// H_dropout: whatever is dropped.
func H_dropout() {
	c := config()
	c.Dropout = []float64{0.5, 1}[sym.Choose(2)]
	t := vocab(c, []string{"a", "é"})
	var rs lib.Rules
	t, rs = join(t, rs, c, "a", "é")
	t, rs = join(t, rs, c, "aé", "a")
	if c.Unk != "" {
		t = t.Add(c.Unk)
	}
	check(lib.Model(t, rs, c), t, c, "a"+sym.Text(lib.Size(1, 2), 2)+"a")
}

// H_missing: an unknown token that is not a term is an error.
func H_missing() {
	c := lib.Config{Unk: sym.Text(1+sym.Choose(2), 2)}
	t := lib.Table{"a", "b"}
	check(lib.Model(t, nil, c), t, c, sym.Text(sym.Choose(3), 2))
}

// H_again: earlier words leave no trace.
func H_again() {
	c := lib.Config{Unk: "<unk>"}
	t := vocab(c, []string{"a", "é"})
	var rs lib.Rules
	t, rs = join(t, rs, c, "a", "é")
	t = t.Add(c.Unk)
	m := lib.Model(t, rs, c)
	v, w := sym.Text(sym.Choose(3), 2), sym.Text(2, 2)
	check(m, t, c, v)
	check(m, t, c, w)
	check(m, t, c, v)
}

// H_default: the default model knows nothing.
func H_default() {
	check(bpemodel.NewDefault(), nil, lib.Config{}, sym.Text(sym.Choose(3), 3))
}

// H_loaded: terms with any ids, as in a loaded vocabulary.
func H_loaded() {
	c := config()
	t := vocab(c, []string{"a", "é"})
	var rs lib.Rules
	t, rs = join(t, rs, c, "a", "é")
	t, rs = join(t, rs, c, "aé", "a")
	if c.Unk != "" {
		t = t.Add(c.Unk)
	}
	t, rs = lib.Spread(t, rs, []int{1, 7}[sym.Choose(2)])
	check(lib.Model(t, rs, c), t, c, "a"+sym.Text(lib.Size(2, 3), 2)+"a")
}

// H_long: words longer than any internal buffer.
func H_long() {
	c := lib.Config{Unk: "<unk>"}
	pads := lib.Pads()
	n := pads[sym.Choose(len(pads))]
	t := vocab(c, []string{"a", "é", "aa", "aaaa", "aaaaaaaa"})
	var rs lib.Rules
	t, rs = join(t, rs, c, "a", "a")
	t, rs = join(t, rs, c, "aa", "aa")
	t, rs = join(t, rs, c, "aaaa", "aaaa")
	t, rs = join(t, rs, c, "a", "é")
	t = t.Add(c.Unk)
	check(lib.Model(t, rs, c), t, c, strings.Repeat("a", n)+sym.Text(1, 3)+"aé")
}

// H_huge: words longer than sixteen bits can count.
func H_huge() {
	c := lib.Config{Unk: "<unk>", Fuse: sym.Choose(2) == 1}
	t := vocab(c, []string{"a", "b", "c", "d", "é"})
	var rs lib.Rules
	t, rs = join(t, rs, c, "é", "é")
	t, rs = join(t, rs, c, "éé", "a")
	t = t.Add(c.Unk)
	check(lib.Model(t, rs, c), t, c, strings.Repeat("abcd", lib.Huge()/4)+sym.Text(1, 2)+"éa")
}

// H_siblings: several models, made and used one after the other.
func H_siblings() {
	c, d := config(), config()
	word := sym.Text(2, 2)
	t, u := vocab(c, []string{"a", "é"}), vocab(d, []string{"é", "b", "a"})
	var rs, qs lib.Rules
	t, rs = join(t, rs, c, "a", "é")
	u, qs = join(u, qs, d, "é", "a")
	if c.Unk != "" {
		t = t.Add(c.Unk)
	}
	if d.Unk != "" {
		u = u.Add(d.Unk)
	}
	a, b := lib.Model(t, rs, c), lib.Model(u, qs, d)
	check(a, t, c, word)
	check(b, u, d, word)
	check(a, t, c, word)
}

// H_wide: ids of any size and sign.
func H_wide() {
	t := lib.Table{"a", "é", "aé", "aéa", "<unk>"}
	rs := lib.Rules{{A: 0, B: 1, Rank: 1, ID: 2}, {A: 2, B: 0, Rank: 0, ID: 3}}
	c := lib.Config{Unk: []string{"<unk>", ""}[sym.Choose(2)], Fuse: sym.Choose(2) == 1}
	m := lib.WideModel(t, rs, c)
	for _, w := range []string{"a" + sym.Text(1, 2), "aéaa"} {
		check(m, t, c, w)
	}
}
