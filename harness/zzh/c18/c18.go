// Package c18: BPE dropout only ever skips merges.
package c18

import (
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// built reports whether merges can make the symbol id out of ss.
func built(ss []lib.Sym, rs lib.Rules, id int) bool {
	if len(ss) == 1 {
		return ss[0].ID == id
	}
	for i := range rs {
		if rs[i].ID != id || rs.Of(rs[i].A, rs[i].B) != &rs[i] {
			continue
		}
		for k := 1; k < len(ss); k++ {
			if built(ss[:k], rs, rs[i].A) && built(ss[k:], rs, rs[i].B) {
				return true
			}
		}
	}
	return false
}

// check asserts that the tokens, given as symbols, tile the word and are each
// built by merges.
func check(got, ss []lib.Sym, rs lib.Rules) {
	at := 0
	for _, g := range got {
		n := 0
		for at+n < len(ss) && ss[at+n].Start < g.End {
			n++
		}
		sym.Assert(n > 0 && ss[at].Start == g.Start && ss[at+n-1].End == g.End, "the tokens do not tile the word")
		if n == 0 {
			return
		}
		sym.Assert(built(ss[at:at+n], rs, g.ID), "a token is not built by merges of its characters")
		at += n
	}
	sym.Assert(at == len(ss), "the tokens do not cover the word")
}

func run(ss []lib.Sym, rs lib.Rules, dropout float64) []lib.Sym {
	w := bpemodel.NewWord()
	for _, s := range ss {
		w.Add(s.ID, s.End-s.Start)
	}
	w.MergeAll(rs.Map(), dropout)
	var got []lib.Sym
	at := 0
	for _, s := range *w {
		sym.Observe("symbol", s.ID, s.Length)
		got = append(got, lib.Sym{ID: s.ID, Start: at, End: at + s.Length})
		at += s.Length
	}
	check(got, ss, rs)
	return got
}

func chain(ids ...int) []lib.Sym {
	var ss []lib.Sym
	at := 0
	for k, id := range ids {
		n := 1 + k%3
		ss = append(ss, lib.Sym{ID: id, Start: at, End: at + n})
		at += n
	}
	return ss
}

// H_draws: every outcome of the draws over overlapping merges.
func H_draws() {
	rs := lib.Rules{
		{A: 0, B: 1, Rank: 0, ID: 10},
		{A: 1, B: 2, Rank: 1, ID: 11},
		{A: 10, B: 2, Rank: 2, ID: 12},
		{A: 0, B: 11, Rank: 3, ID: 13},
		{A: 2, B: 0, Rank: 4, ID: 14},
	}
	ids := []int{0, 1, 2, 0}
	if !sym.Quick() {
		ids = append(ids, 1)
	}
	run(chain(ids[sym.Choose(2):]...), rs, 0.5)
}

// H_order: every order of ranks, and every draw.
func H_order() {
	rs := lib.Rules{
		{A: 0, B: 1, Rank: sym.Int(0, 2), ID: 10},
		{A: 1, B: 2, Rank: sym.Int(0, 2), ID: 11},
		{A: 10, B: 2, Rank: sym.Int(0, 2), ID: 12},
		{A: 0, B: 11, Rank: sym.Int(0, 2), ID: 12},
	}
	run(chain(0, 1, 2), rs, 0.3)
}

// H_any: every symbol and every pair of merges.
func H_any() {
	k := 3
	var ids []int
	for i := 0; i < lib.Size(3, 4); i++ {
		ids = append(ids, sym.Int(0, k-1))
	}
	var rs lib.Rules
	for i := 0; i < 2; i++ {
		rs = append(rs, lib.Rule{A: sym.Int(0, k-1), B: sym.Int(0, k-1), Rank: i, ID: sym.Int(0, k)})
	}
	run(chain(ids...), rs, 0.7)
}

// H_runs: the same merge at neighbouring places.
func H_runs() {
	rs := lib.Rules{
		{A: 0, B: 0, Rank: 0, ID: 10},
		{A: 10, B: 0, Rank: sym.Int(0, 2), ID: 11},
		{A: 10, B: 10, Rank: sym.Int(0, 2), ID: 12},
	}
	run(chain(0, 0, 0, 0), rs, 0.5)
}

// H_one: with dropout 1 nothing is merged.
func H_one() {
	k := 3
	var ids []int
	n := sym.Choose(lib.Size(5, 6))
	for i := 0; i < n; i++ {
		ids = append(ids, sym.Int(0, k-1))
	}
	var rs lib.Rules
	for i := 0; i < 2; i++ {
		rs = append(rs, lib.Rule{A: sym.Int(0, k-1), B: sym.Int(0, k-1), Rank: sym.Int(0, 3), ID: sym.Int(0, k)})
	}
	ss := chain(ids...)
	got := run(ss, rs, 1)
	sym.Assert(len(got) == len(ss), "something is merged in spite of dropout 1")
}

// H_model: the same through a model.
func H_model() {
	c := lib.Config{Unk: "?", Fuse: sym.Choose(2) == 1, Dropout: []float64{0.25, 1}[sym.Choose(2)]}
	var t lib.Table
	t = t.Add("a", "é", "aé", "aéa", "éa", "?")
	id := t.ID
	rs := lib.Rules{
		{A: id("a"), B: id("é"), Rank: 1, ID: id("aé")},
		{A: id("é"), B: id("a"), Rank: 0, ID: id("éa")},
		{A: id("aé"), B: id("a"), Rank: 2, ID: id("aéa")},
	}
	word := "aé" + sym.Text(lib.Size(1, 2), 2)
	m := lib.Model(t, rs, c)
	for n := 0; n < 2; n++ {
		toks, err := m.Tokenize(word)
		sym.Assert(err == nil, "tokenizing fails")
		ss, _, _ := lib.Initial(t, c, word)
		var got []lib.Sym
		for _, k := range toks {
			sym.Assert(k.Value == t[k.ID], "the value of a token is not the term of its id")
			got = append(got, lib.Sym{ID: k.ID, Start: k.Offsets.Start, End: k.Offsets.End})
		}
		sym.Observe("tokens", toks)
		check(got, ss, rs)
		if c.Dropout == 1 {
			lib.SameTokens(t, toks, ss)
		}
	}
}

// H_wide: ids that differ only in their high bits, or their signs.
func H_wide() {
	big := []int{1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 40, -4, -1 << 40}[sym.Choose(7)]
	rs := lib.Rules{
		{A: 1, B: 2, Rank: 1, ID: 3 + big},
		{A: 1 + big, B: 2 + big, Rank: big, ID: 3},
		{A: 2, B: 1 + big, Rank: 1 + big, ID: 4},
	}
	ids := []int{1, 2, 1 + big, 2 + big, 1, 2 + big}
	k := sym.Choose(3)
	run(chain(ids[k:k+4]...), rs, []float64{0.5, 1e-9, 0.99999}[sym.Choose(3)])
}
