// Package c28: a word stays a chain of symbols.
package c28

import (
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// check asserts that w is exactly the symbols, each linked with its neighbours.
func check(w *bpemodel.Word, want []lib.Sym, what string) {
	sym.Assert(w.Len() == len(want) && len(*w) == len(want), what+": wrong number of symbols")
	if len(*w) != len(want) {
		return
	}
	for i, s := range *w {
		sym.Observe("symbol", s.ID, s.Length, s.Prev, s.Next)
		sym.Assert(s.ID == want[i].ID, what+": wrong symbol")
		sym.Assert(s.Length == want[i].End-want[i].Start, what+": wrong length")
		sym.Assert(s.Prev == i-1 && s.HasPrev() == (i > 0), what+": wrong previous symbol")
		next := i + 1
		if next == len(want) {
			next = -1
		}
		sym.Assert(s.Next == next && s.HasNext() == (next > 0), what+": wrong next symbol")
	}
}

func add(w *bpemodel.Word, ss []lib.Sym, id, n int) []lib.Sym {
	at := 0
	if len(ss) > 0 {
		at = ss[len(ss)-1].End
	}
	w.Add(id, n)
	return append(ss, lib.Sym{ID: id, Start: at, End: at + n})
}

// built reports whether merges can make the symbol id out of ss.
func built(ss []lib.Sym, rs lib.Rules, id int) bool {
	if len(ss) == 1 {
		return ss[0].ID == id
	}
	for i := range rs {
		if rs[i].ID != id || rs.Of(rs[i].A, rs[i].B) != &rs[i] {
			continue
		}
		for k := 1; k < len(ss); k++ {
			if built(ss[:k], rs, rs[i].A) && built(ss[k:], rs, rs[i].B) {
				return true
			}
		}
	}
	return false
}

// drop merges with dropout, which gives any merged form of the symbols.
func drop(w *bpemodel.Word, ss []lib.Sym, rs lib.Rules) []lib.Sym {
	w.MergeAll(rs.Map(), 0.5)
	var out []lib.Sym
	k, at := 0, 0
	for _, s := range *w {
		n := 0
		for k+n < len(ss) && ss[k+n].End <= at+s.Length {
			n++
		}
		sym.Assert(n > 0 && ss[k+n-1].End == at+s.Length, "dropout: the symbols do not tile the word")
		if n == 0 {
			return out
		}
		sym.Assert(built(ss[k:k+n], rs, s.ID), "dropout: a symbol is not built by merges")
		out = append(out, lib.Sym{ID: s.ID, Start: at, End: at + s.Length})
		at += s.Length
		k += n
	}
	sym.Assert(k == len(ss), "dropout: the symbols do not cover the word")
	return out
}

// tables merge the symbols 0 to 2 in different ways.
func tables() []lib.Rules {
	return []lib.Rules{
		{{A: 0, B: 1, Rank: 0, ID: 10}, {A: 10, B: 2, Rank: 1, ID: 11}, {A: 2, B: 0, Rank: 2, ID: 12}, {A: 10, B: 10, Rank: 3, ID: 13}},
		{{A: 1, B: 2, Rank: 0, ID: 20}, {A: 0, B: 20, Rank: 1, ID: 11}, {A: 11, B: 0, Rank: 2, ID: 21}, {A: 10, B: 0, Rank: 3, ID: 22}, {A: 0, B: 0, Rank: 4, ID: 0}},
	}
}

// H_history: additions and merges in any order.
func H_history() {
	w := bpemodel.NewWord()
	if sym.Choose(2) == 1 {
		w = bpemodel.NewWordWithCapacity(sym.Choose(3))
	}
	ts := tables()
	var ss []lib.Sym
	check(w, ss, "new")
	for k := 0; k < lib.Size(5, 6); k++ {
		switch op := sym.Choose(5); op {
		case 0:
			ss = add(w, ss, sym.Choose(3), 1+k)
			check(w, ss, "add")
		case 1:
			ss = add(w, ss, 0, 2)
			ss = add(w, ss, 1, 1)
			check(w, ss, "add")
		case 2, 3:
			w.MergeAll(ts[op-2].Map(), 0)
			ss = lib.Naive(ss, ts[op-2])
			check(w, ss, "merge")
		case 4:
			if len(ss) > 3 { // too many draws
				continue
			}
			ss = drop(w, ss, ts[0])
			check(w, ss, "dropout")
		}
	}
}

// H_any: any symbols and rules, merged, added to, and merged again.
func H_any() {
	var ss []lib.Sym
	w := bpemodel.NewWord()
	n := 1 + sym.Choose(lib.Size(3, 4))
	for i := 0; i < n; i++ {
		ss = add(w, ss, sym.Int(0, 2), sym.Int(1, 1<<40))
	}
	var rs lib.Rules
	for i := 0; i < 2; i++ {
		rs = append(rs, lib.Rule{A: sym.Int(0, 3), B: sym.Int(0, 3), Rank: i, ID: sym.Int(0, 3)})
	}
	m := rs.Map()
	w.MergeAll(m, 0)
	ss = lib.Naive(ss, rs)
	check(w, ss, "merge")
	ss = add(w, ss, sym.Int(0, 2), sym.Int(1, 4))
	check(w, ss, "add")
	w.MergeAll(m, 0)
	ss = lib.Naive(ss, rs)
	check(w, ss, "merge again")
}

// H_drop: every outcome of the draws, then merged without dropout.
func H_drop() {
	var ss []lib.Sym
	w := bpemodel.NewWord()
	ids := []int{0, 1, 2, 0, 1}[:lib.Size(4, 5)]
	for i, id := range ids {
		ss = add(w, ss, id, 1+i%3)
	}
	ts := tables()
	k := sym.Choose(2)
	ss = drop(w, ss, ts[k])
	check(w, ss, "dropout")
	j := sym.Choose(2)
	w.MergeAll(ts[j].Map(), 0)
	ss = lib.Naive(ss, ts[j])
	check(w, ss, "merge")
}

// H_symbols: merging two symbols by hand.
func H_symbols() {
	a := bpemodel.WordSymbol{Symbol: bpemodel.Symbol{ID: sym.Int(-9, 9), Length: sym.Int(0, 1<<40)}, Prev: sym.Int(-1, 1<<40), Next: sym.Int(-1, 1<<40)}
	b := bpemodel.WordSymbol{Symbol: bpemodel.Symbol{ID: sym.Int(-9, 9), Length: sym.Int(0, 1<<40)}, Prev: sym.Int(-1, 1<<40), Next: sym.Int(-1, 1<<40)}
	x, y := a, b
	id := sym.Int(-1<<40, 1<<40)
	x.MergeWith(&y, id)
	sym.Assert(x.ID == id && x.Length == a.Length+b.Length, "wrong merged symbol")
	sym.Assert(x.Prev == a.Prev && x.Next == b.Next, "wrong links of the merged symbol")
	sym.Assert(y == b, "the other symbol changed")
	sym.Assert(x.HasPrev() == (a.Prev != -1) && x.HasNext() == (b.Next != -1), "wrong neighbours")
}

// H_long: long words, merged a few times.
func H_long() {
	pads := lib.Pads()
	long(pads[sym.Choose(len(pads))])
}

func long(n int) {
	var ss []lib.Sym
	w := bpemodel.NewWord()
	kind := sym.Choose(3)
	ss = add(w, ss, sym.Choose(3), 2)
	for i := 0; i < n; i++ {
		ss = add(w, ss, []int{i % 3, 0, i * i % 3}[kind], 1+i%4)
	}
	ss = add(w, ss, sym.Choose(3), 3)
	ts := tables()
	for k := 0; k < 2; k++ {
		w.MergeAll(ts[k].Map(), 0)
		ss = lib.Naive(ss, ts[k])
		check(w, ss, "long")
		ss = add(w, ss, k, 1)
		check(w, ss, "long, added to")
	}
}

// H_huge: more symbols than sixteen bits can count.
func H_huge() {
	n := lib.Huge()
	w := bpemodel.NewWordWithCapacity(n)
	var ss []lib.Sym
	ss = add(w, ss, 0, 1)
	ss = add(w, ss, 1, 2)
	for i := 0; i < n; i++ {
		ss = add(w, ss, 5, 1)
	}
	ss = add(w, ss, sym.Choose(3), 1)
	ss = add(w, ss, sym.Choose(3), 1)
	rs := tables()[sym.Choose(2)]
	w.MergeAll(rs.Map(), 0)
	ss = lib.Naive(ss, rs)
	check(w, ss, "huge")
	ss = add(w, ss, 2, 1)
	check(w, ss, "huge, added to")
}

// H_wide: ids and ranks that differ only in their high bits, or their signs.
func H_wide() {
	big := []int{1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 40, -4, -1 << 40}[sym.Choose(7)]
	rs := lib.Rules{
		{A: 1, B: 2, Rank: sym.Choose(2) * big, ID: 3},
		{A: 1 + big, B: 2, Rank: 1, ID: 3 + big},
		{A: 2, B: 1 + big, Rank: sym.Choose(2) * 2 * big, ID: 4},
		{A: 3, B: 3 + big, Rank: 5, ID: 5 + big},
		{A: 3 + big, B: 2 + big, Rank: 5 + big, ID: 5},
	}
	var ss []lib.Sym
	w := bpemodel.NewWord()
	for _, id := range []int{1, 2, 1 + big, 2, 2 + big} {
		ss = add(w, ss, id, sym.Int(1, 1<<40))
	}
	check(w, ss, "add")
	for i := 0; i < 2; i++ {
		w.MergeAll(rs.Map(), 0)
		ss = lib.Naive(ss, rs)
		check(w, ss, "merge")
		ss = add(w, ss, 2+big, 1)
		check(w, ss, "add")
	}
}
