// Package c19: BPE unknown tokens, prefix and suffix follow the configuration.
package c19

import (
	"strings"

	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// check compares the tokens of a word with its symbols, merged naively.
func check(m models.Model, t lib.Table, rs lib.Rules, c lib.Config, word string) {
	got, err := m.Tokenize(word)
	if word == "" {
		sym.Assert(err == nil && len(got) == 0, "tokens out of nothing")
		return
	}
	ss, missing, lost := lib.Initial(t, c, word)
	if missing {
		sym.Assert(lib.Is(err, bpemodel.ErrUnknownTokenOutOfVocabulary), "no error for a missing unknown token")
		sym.Assert(got == nil, "tokens in spite of the error")
		return
	}
	sym.Assert(err == nil, "tokenizing fails")
	if lost {
		// see C16: offsets are those of the known characters
		at := 0
		for i := range ss {
			n := ss[i].End - ss[i].Start
			ss[i].Start, ss[i].End = at, at+n
			at += n
		}
	}
	lib.SameTokens(t, got, lib.Naive(ss, rs))
}

func affixes(c lib.Config) lib.Config {
	c.Prefix = []string{"", "##"}[sym.Choose(2)]
	c.Suffix = []string{"", "</w>"}[sym.Choose(2)]
	return c
}

// H_terms: characters that are terms in some places and not in others.
func H_terms() {
	c := affixes(lib.Config{Unk: []string{"", "<unk>"}[sym.Choose(2)], Fuse: sym.Choose(2) == 1})
	var t lib.Table
	for _, s := range []string{"a", c.Prefix + "a", "a" + c.Suffix, c.Prefix + "a" + c.Suffix, "é", c.Prefix + "é"} {
		if sym.Choose(2) == 1 {
			t = t.Add(s)
		}
	}
	t = t.Add("<unk>")
	word := ""
	n := lib.Size(3, 4)
	for k := 0; k < n; k++ {
		word += []string{"a", "é"}[sym.Choose(2)]
	}
	check(lib.Model(t, nil, c), t, nil, c, word)
}

// H_word: every word over a small vocabulary.
func H_word() {
	c := affixes(lib.Config{Unk: []string{"", "<unk>"}[sym.Choose(2)], Fuse: sym.Choose(2) == 1})
	var t lib.Table
	t = t.Add("<unk>", "a", c.Prefix+"é", c.Prefix+"a"+c.Suffix, "é"+c.Suffix)
	check(lib.Model(t, nil, c), t, nil, c, sym.Text(sym.Choose(lib.Size(5, 6)), 2))
}

// H_affix: every prefix and suffix.
func H_affix() {
	c := lib.Config{Unk: "<unk>", Fuse: true, Prefix: sym.Text(sym.Choose(3), 2), Suffix: sym.Text(sym.Choose(3), 2)}
	var t lib.Table
	t = t.Add("<unk>", "a", "b", c.Prefix+"a", "b"+c.Suffix, c.Prefix+"b"+c.Suffix)
	check(lib.Model(t, nil, c), t, nil, c, "ab"[:1+sym.Choose(2)]+[]string{"", "b", "a"}[sym.Choose(3)])
}

// H_every: every character, known or not, at every place.
func H_every() {
	c := affixes(lib.Config{Unk: "<unk>", Fuse: sym.Choose(2) == 1})
	r := string(lib.BlockRune())
	var t lib.Table
	t = t.Add("<unk>", "a", c.Prefix+"a", c.Prefix+"a"+c.Suffix)
	if sym.Choose(2) == 1 {
		t = t.Add(r, c.Prefix+r)
	}
	check(lib.Model(t, nil, c), t, nil, c, []string{r + "a", "a" + r + "a", "a" + r, r + r}[sym.Choose(4)])
}

// H_merges: unknown tokens keep their place when neighbours merge, and may
// have merges of their own.
func H_merges() {
	c := lib.Config{Unk: "?", Fuse: sym.Choose(2) == 1}
	var t lib.Table
	t = t.Add("a", "é", "aé", "éa", "?")
	id := t.ID
	rs := lib.Rules{
		{A: id("a"), B: id("é"), Rank: 0, ID: id("aé")},
		{A: id("é"), B: id("a"), Rank: 1, ID: id("éa")},
	}
	if sym.Choose(2) == 1 {
		t = t.Add("?a")
		rs = append(rs, lib.Rule{A: id("?"), B: id("a"), Rank: 2, ID: t.ID("?a")})
	}
	check(lib.Model(t, rs, c), t, rs, c, sym.Text(lib.Size(4, 5), 2))
}

// H_literal: characters that spell the unknown token.
func H_literal() {
	c := lib.Config{Unk: sym.Text(1, 2), Fuse: sym.Choose(2) == 1}
	var t lib.Table
	t = t.Add("a")
	if sym.Choose(2) == 1 {
		t = t.Add(c.Unk)
	}
	check(lib.Model(t, nil, c), t, nil, c, sym.Text(lib.Size(3, 4), 2))
}

// H_again: earlier words leave no trace.
func H_again() {
	c := affixes(lib.Config{Unk: "?", Fuse: true})
	var t lib.Table
	t = t.Add("?", "a", c.Prefix+"a", c.Prefix+"a"+c.Suffix)
	m := lib.Model(t, nil, c)
	v, w := sym.Text(2, 1), sym.Text(sym.Choose(3), 2)
	check(m, t, nil, c, v)
	check(m, t, nil, c, w)
	check(m, t, nil, c, v)
}

// H_loaded: terms with any ids, as in a loaded vocabulary.
func H_loaded() {
	c := affixes(lib.Config{Unk: []string{"", "?"}[sym.Choose(2)], Fuse: sym.Choose(2) == 1})
	var t lib.Table
	t = t.Add("?", "a", c.Prefix+"a", c.Prefix+"é", "é"+c.Suffix, c.Prefix+"a"+c.Suffix)
	t, _ = lib.Spread(t, nil, []int{1, 30}[sym.Choose(2)])
	check(lib.Model(t, nil, c), t, nil, c, "a"+sym.Text(lib.Size(2, 3), 2)+"a")
}

// H_added: terms and merges added to those of a model.
func H_added() {
	c := affixes(lib.Config{Unk: "?", Fuse: sym.Choose(2) == 1})
	t := lib.Table{"a", c.Prefix + "a"}
	if t[1] == t[0] {
		t = t[:1]
	}
	if sym.Choose(2) == 1 {
		t = t.Add("?")
	}
	v := t.Vocabulary()
	mm := bpemodel.NewMergeMap()
	m := bpemodel.New(v, mm, 10, 0, c.Unk, c.Prefix, c.Suffix, c.Fuse)
	word := "aé" + sym.Text(1, 2) + "a"
	check(m, t, nil, c, word)
	for _, s := range []string{"?", c.Prefix + "é", c.Prefix + sym.Text(1, 2), c.Prefix + "a" + c.Suffix} {
		t = t.Add(s)
		v.AddTerm(s)
		check(m, t, nil, c, word)
	}
	t = t.Add("aé")
	v.AddTerm("aé")
	rs := lib.Rules{{A: t.ID("a"), B: t.ID(c.Prefix + "é"), Rank: 0, ID: t.ID("aé")}}
	mm.Set(rs[0].A, rs[0].B, bpemodel.MergeValue{Rank: 0, ID: rs[0].ID})
	check(m, t, rs, c, word)
}

// H_long: words longer than any internal buffer.
func H_long() {
	c := affixes(lib.Config{Unk: "?", Fuse: sym.Choose(2) == 1})
	pads := lib.Pads()
	n := pads[sym.Choose(len(pads))]
	pad := ""
	for k := 0; k < n; k++ {
		pad += []string{"a", "é", "z"}[k%3]
	}
	var t lib.Table
	t = t.Add("?", "a", c.Prefix+"a", c.Prefix+"é")
	check(lib.Model(t, nil, c), t, nil, c, pad+sym.Text(1, 3)+"zz"+pad+"a")
}

// H_huge: words longer than sixteen bits can count.
func H_huge() {
	c := lib.Config{Unk: "?", Prefix: "##", Suffix: "</w>", Fuse: sym.Choose(2) == 1}
	var t lib.Table
	t = t.Add("?", "a", "##a", "##é</w>")
	kind := []string{"z", "a"}[sym.Choose(2)]
	check(lib.Model(t, nil, c), t, nil, c, "a"+strings.Repeat(kind, lib.Huge())+sym.Text(1, 2)+"aé")
}

// H_wide: ids of any size and sign, that of the unknown token among them.
func H_wide() {
	c := affixes(lib.Config{Unk: []string{"<unk>", ""}[sym.Choose(2)], Fuse: sym.Choose(2) == 1})
	var t lib.Table
	t = t.Add("<unk>", "a", c.Prefix+"a", c.Prefix+"é", "ba", "b")
	id := t.ID
	rs := lib.Rules{{A: id("b"), B: id(c.Prefix + "a"), Rank: 0, ID: id("ba")}}
	m := lib.WideModel(t, rs, c)
	for _, w := range []string{"a" + sym.Text(1, 2) + "é", "baxé"} {
		check(m, t, rs, c, w)
	}
}
