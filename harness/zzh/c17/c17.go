// Package c17: BPE applies merges by rank, then position, to exhaustion.
package c17

import (
	"strings"

	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// run merges the symbols and compares with the naive reading.
func run(ss []lib.Sym, rs lib.Rules) {
	w := bpemodel.NewWord()
	for _, s := range ss {
		w.Add(s.ID, s.End-s.Start)
	}
	w.MergeAll(rs.Map(), 0)
	want := lib.Naive(ss, rs)
	sym.Assert(w.Len() == len(want), "wrong number of symbols after merging")
	if w.Len() != len(want) {
		return
	}
	at := 0
	for i, s := range *w {
		sym.Observe("symbol", s.ID, s.Length)
		sym.Assert(s.ID == want[i].ID, "wrong symbol after merging")
		sym.Assert(s.Length == want[i].End-want[i].Start, "wrong length of a symbol")
		at += s.Length
	}
}

// symbols gives n symbols with ids below k and lengths up to 3.
func symbols(n, k int) []lib.Sym {
	var ss []lib.Sym
	at := 0
	for i := 0; i < n; i++ {
		w := sym.Int(1, 3)
		ss = append(ss, lib.Sym{ID: sym.Int(0, k-1), Start: at, End: at + w})
		at += w
	}
	return ss
}

// H_any: every word and every table of few merges.
func H_any() {
	k := lib.Size(4, 5)
	ss := symbols(sym.Choose(lib.Size(5, 6)), k)
	var rs lib.Rules
	for i := 0; i < 2; i++ {
		rs = append(rs, lib.Rule{A: sym.Int(0, k-1), B: sym.Int(0, k-1), Rank: sym.Int(0, 3), ID: sym.Int(0, k)})
	}
	run(ss, rs)
}

// H_ranks: overlapping merges under every order of ranks.
func H_ranks() {
	rs := lib.Rules{
		{A: 0, B: 1, Rank: sym.Int(0, 3), ID: 10},
		{A: 1, B: 2, Rank: sym.Int(0, 3), ID: 11},
		{A: 10, B: 2, Rank: sym.Int(0, 3), ID: 12},
		{A: 0, B: 11, Rank: sym.Int(0, 3), ID: 13},
	}
	if !sym.Quick() {
		rs = append(rs, lib.Rule{A: 2, B: 0, Rank: sym.Int(0, 3), ID: 14})
	}
	run(symbols(lib.Size(4, 5), 3), rs)
}

// H_same: merges of equal rank, or of equal result.
func H_same() {
	id := []int{10, 11}[sym.Choose(2)]
	rs := lib.Rules{
		{A: 0, B: 0, Rank: 0, ID: 10},
		{A: 0, B: 10, Rank: sym.Int(0, 1), ID: id},
		{A: 10, B: 10, Rank: sym.Int(0, 1), ID: id},
	}
	ss := symbols(lib.Size(5, 6), 1)
	run(ss, rs)
}

// H_obsolete: merges that lose their left or right part, and get another one
// with the same result.
func H_obsolete() {
	r := [5]int{}
	for i := range r {
		r[i] = sym.Int(0, 5)
	}
	rs := lib.Rules{
		{A: 0, B: 1, Rank: r[0], ID: 9},
		{A: 1, B: 2, Rank: r[1], ID: 4},
		{A: 0, B: 4, Rank: r[2], ID: 9},
		{A: 4, B: 3, Rank: r[3], ID: 5},
		{A: 2, B: 3, Rank: r[4], ID: 6},
	}
	var ss []lib.Sym
	for i := 0; i < 4; i++ {
		ss = append(ss, lib.Sym{ID: i, Start: i, End: i + 1})
	}
	run(ss, rs)
}

// H_tokenize: the same through a model, on every word.
func H_tokenize() {
	c := lib.Config{Unk: []string{"", "?"}[sym.Choose(2)], Fuse: sym.Choose(2) == 1}
	var t lib.Table
	t = t.Add("a", "é", "b", "aé", "éb", "aéb", "bb", "?")
	id := t.ID
	all := lib.Rules{
		{A: id("a"), B: id("é"), ID: id("aé")},
		{A: id("é"), B: id("b"), ID: id("éb")},
		{A: id("aé"), B: id("b"), ID: id("aéb")},
		{A: id("a"), B: id("éb"), ID: id("aéb")},
		{A: id("b"), B: id("b"), ID: id("bb")},
	}
	var rs lib.Rules
	off := sym.Choose(5)
	for k := range all {
		r := all[(k+off)%5]
		r.Rank = k
		rs = append(rs, r)
	}
	through(t, rs, c, sym.Text(sym.Choose(lib.Size(5, 6)), 2))
}

// through compares a model's tokens of a word with the naive ones.
func through(t lib.Table, rs lib.Rules, c lib.Config, word string) {
	got, err := lib.Model(t, rs, c).Tokenize(word)
	sym.Assert(err == nil, "tokenizing fails")
	ss, _, lost := lib.Initial(t, c, word)
	if lost {
		// see C16: offsets are those of the known characters
		at := 0
		for i := range ss {
			n := ss[i].End - ss[i].Start
			ss[i].Start, ss[i].End = at, at+n
			at += n
		}
	}
	lib.SameTokens(t, got, lib.Naive(ss, rs))
}

// H_loaded: ids and ranks of any size and order.
func H_loaded() {
	c := lib.Config{Unk: []string{"", "?"}[sym.Choose(2)], Fuse: sym.Choose(2) == 1}
	var t lib.Table
	t = t.Add("a", "é", "aé", "éa", "aéa", "aéaé", "?")
	id := t.ID
	rs := lib.Rules{
		{A: id("a"), B: id("é"), ID: id("aé"), Rank: 2},
		{A: id("é"), B: id("a"), ID: id("éa"), Rank: 300},
		{A: id("a"), B: id("éa"), ID: id("aéa"), Rank: 1 << 40},
		{A: id("aé"), B: id("a"), ID: id("aéa"), Rank: 70000},
		{A: id("aé"), B: id("aé"), ID: id("aéaé"), Rank: sym.Int(0, 1<<41)},
	}
	t, rs = lib.Spread(t, rs, []int{1, 50}[sym.Choose(2)])
	word := ""
	for k := sym.Choose(lib.Size(5, 7)); k >= 0; k-- {
		word += []string{"a", "é"}[sym.Choose(2)]
	}
	through(t, rs, c, word+sym.Text(1, 2))
}

// H_wide: ids and ranks that differ only in their high bits, or their signs.
func H_wide() {
	big := []int{1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 40, -4, -1 << 40}[sym.Choose(7)]
	ss := []lib.Sym{{ID: 1, Start: 0, End: 1}, {ID: 2, Start: 1, End: 3}, {ID: 1 + big, Start: 3, End: 4}, {ID: 2, Start: 4, End: 6}, {ID: 2 + big, Start: 6, End: 7}}
	rs := lib.Rules{
		{A: 1, B: 2, Rank: sym.Choose(2) * big, ID: 3},
		{A: 1 + big, B: 2, Rank: 1, ID: 3 + big},
		{A: 2, B: 1 + big, Rank: sym.Choose(2) * 2 * big, ID: 4},
		{A: 3, B: 3 + big, Rank: 5, ID: 5 + big},
		{A: 3 + big, B: 2 + big, Rank: 5 + big, ID: 5},
	}
	if sym.Choose(2) == 1 {
		rs = rs[1:]
	}
	run(ss, rs)
}

// H_long: many merges, far apart.
func H_long() {
	pads := lib.Pads()
	n := pads[sym.Choose(len(pads))] / 4
	var t lib.Table
	t = t.Add("a", "b", "é", "ab", "aba", "bé", "abab", "abababab", "éa")
	id := t.ID
	rs := lib.Rules{
		{A: id("b"), B: id("é"), Rank: 3, ID: id("bé")},
		{A: id("a"), B: id("b"), Rank: 1, ID: id("ab")},
		{A: id("ab"), B: id("ab"), Rank: 2, ID: id("abab")},
		{A: id("abab"), B: id("abab"), Rank: 0, ID: id("abababab")},
		{A: id("ab"), B: id("a"), Rank: 5, ID: id("aba")},
		{A: id("é"), B: id("a"), Rank: 4, ID: id("éa")},
	}
	word := strings.Repeat("ab", n) + sym.Text(1, 2) + strings.Repeat("ab", n) + sym.Text(1, 2)
	c := lib.Config{Unk: "é"}
	got, err := lib.Model(t, rs, c).Tokenize(word)
	sym.Assert(err == nil, "tokenizing fails")
	ss, _, _ := lib.Initial(t, c, word)
	lib.SameTokens(t, got, lib.Naive(ss, rs))
}

// H_huge: more characters than sixteen bits can count, merged at both ends.
func H_huge() {
	var t lib.Table
	t = t.Add("a", "b", "é", "c", "bé", "bbé")
	id := t.ID
	rs := lib.Rules{
		{A: id("b"), B: id("é"), Rank: 1, ID: id("bé")},
		{A: id("b"), B: id("bé"), Rank: 2, ID: id("bbé")},
	}
	word := "bbé" + strings.Repeat("a", lib.Huge()) + []string{"b", "c"}[sym.Choose(2)] + []string{"b", "é"}[sym.Choose(2)] + "é"
	c := lib.Config{Unk: "é"}
	got, err := lib.Model(t, rs, c).Tokenize(word)
	sym.Assert(err == nil, "tokenizing fails")
	ss, _, _ := lib.Initial(t, c, word)
	lib.SameTokens(t, got, lib.Naive(ss, rs))
}

// H_siblings: several tables, used one after the other on the same symbols.
func H_siblings() {
	ss := symbols(3, 3)
	one := lib.Rules{{A: 0, B: 1, Rank: sym.Int(0, 1), ID: 10}, {A: 1, B: 2, Rank: sym.Int(0, 1), ID: 11}}
	other := lib.Rules{{A: 0, B: 1, Rank: sym.Int(0, 1), ID: 20}, {A: 2, B: sym.Int(0, 2), Rank: sym.Int(0, 1), ID: 21}}
	run(ss, one)
	run(ss, other)
	run(ss, one)
}
