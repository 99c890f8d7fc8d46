// Package c29: a cache of words never gives a wrong answer.
package c29

import (
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// word is a word that can be told from others.
func word(id int) *bpemodel.Word {
	w := bpemodel.NewWord()
	w.Add(id, 1)
	w.Add(id+1, 2)
	return w
}

func isWord(w *bpemodel.Word, id int) bool {
	return w.Len() == 2 && (*w)[0].ID == id && (*w)[0].Length == 1 && (*w)[1].ID == id+1 && (*w)[1].Length == 2
}

// store is what was last set.
type store struct {
	keys []string
	ids  []int
}

func (s *store) set(k string, id int) {
	s.keys, s.ids = append(s.keys, k), append(s.ids, id)
}

// ok reports whether w may be the answer for k.
func (s *store) ok(c int, k string, w *bpemodel.Word) bool {
	if w == nil {
		return true
	}
	if c == 0 {
		return false
	}
	for i := len(s.keys) - 1; i >= 0; i-- {
		if s.keys[i] == k {
			return isWord(w, s.ids[i])
		}
	}
	return false
}

func history(c int, cache *bpemodel.WordCache, keys []string, n int) {
	var s store
	id := 0
	get := func() {
		k := keys[sym.Choose(len(keys))]
		w := cache.Get(k)
		sym.Observe("hit", w != nil)
		sym.Assert(s.ok(c, k, w), "the cache gives the word of another key, or an old one")
	}
	for i := 0; i < n; i++ {
		switch sym.Choose(4) {
		case 0:
			k := keys[sym.Choose(len(keys))]
			id += 10
			cache.Set(k, word(id))
			s.set(k, id)
		case 1:
			var ks []string
			var ws []*bpemodel.Word
			for j := 0; j < 2; j++ {
				k := keys[sym.Choose(len(keys))]
				id += 10
				ks, ws = append(ks, k), append(ws, word(id))
				s.set(k, id)
			}
			cache.SetValues(ks, ws)
			ks[0], ws[0] = "?", nil
		case 2:
			get()
		case 3:
			ks := []string{keys[sym.Choose(len(keys))], keys[0], keys[sym.Choose(len(keys))]}
			ws := cache.GetValues(ks)
			sym.Assert(len(ws) == len(ks), "wrong number of words")
			for j, w := range ws {
				sym.Observe("hit", w != nil)
				sym.Assert(s.ok(c, ks[j], w), "the cache gives the word of another key, or an old one")
			}
		}
	}
	for _, k := range keys {
		sym.Assert(s.ok(c, k, cache.Get(k)), "the cache gives the word of another key, or an old one")
	}
	sym.Assert(len(cache.GetValues(nil)) == 0, "words of no keys")
	cache.SetValues(nil, nil)
}

// H_cache: any short history over keys that may be equal.
func H_cache() {
	c := []int{0, 1, 2, 100, -1}[sym.Choose(5)]
	keys := []string{sym.Text(1, 2), sym.Text(1, 1) + "é", "é"}
	history(c, bpemodel.NewCache(c), keys, lib.Size(2, 3))
}

// H_keys: keys that look much alike, and longer histories.
func H_keys() {
	c := []int{0, 1, 3}[sym.Choose(3)]
	keys := [][]string{{"", "a", "b"}, {"a", "á", "A"}, {"ab", "ba", "a"}, {"a", "a\x00", "a "}, {"\xff", "\ufffd", "\xfe"}, {"é", "e\u0301", "E"}}[sym.Choose(6)]
	history(c, bpemodel.NewCache(c), keys, lib.Size(2, 3))
}

// H_long: long keys that differ somewhere.
func H_long() {
	pads := lib.Pads()
	n := pads[sym.Choose(len(pads))]
	x := lib.Filler(n)
	keys := []string{x + sym.Text(1, 2), x + "b", "b" + x, x + "b" + x, x}
	cache := bpemodel.NewDefaultCache()
	var s store
	for i, k := range keys {
		cache.Set(k, word(10*i))
		s.set(k, 10*i)
	}
	for i := range keys {
		sym.Assert(s.ok(1, keys[i], cache.Get(keys[i])), "the cache gives the word of another key, or an old one")
	}
	if n > 0 {
		k := x[:n-1]
		sym.Assert(s.ok(1, k, cache.Get(k)), "the cache gives the word of another key, or an old one")
	}
}

// H_many: more keys than the cache can hold.
func H_many() {
	pads := lib.Pads()
	n := pads[sym.Choose(len(pads))]
	c := []int{1, 7, 64, 100000}[sym.Choose(4)]
	cache := bpemodel.NewCache(c)
	var s store
	for i := 0; i < n; i++ {
		k := string(rune('a'+i%50)) + string(rune('a'+i/50))
		cache.Set(k, word(10*i))
		s.set(k, 10*i)
	}
	k := string(sym.RuneIn('a', 'z')) + "a"
	sym.Assert(s.ok(c, k, cache.Get(k)), "the cache gives the word of another key, or an old one")
	cache.Set("ba", word(5))
	s.set("ba", 5)
	sym.Assert(s.ok(c, k, cache.Get(k)), "the cache gives the word of another key, or an old one")
}

func rules(t lib.Table) lib.Rules {
	id := t.ID
	return lib.Rules{
		{A: id("a"), B: id("é"), Rank: 0, ID: id("aé")},
		{A: id("a"), B: id("a"), Rank: 1, ID: id("aa")},
		{A: id("aa"), B: id("aé"), Rank: 2, ID: id("aaaé")},
	}
}

func model(c int, fuse bool) models.Model {
	var t lib.Table
	t = t.Add("<unk>", "a", "é", "aa", "aé", "aaaé")
	rs := rules(t)
	return bpemodel.New(t.Vocabulary(), rs.Map(), c, 0, "<unk>", "", "", fuse)
}

// H_model: models that differ in their cache alone agree on every word of any
// history.
func H_model() {
	fuse := sym.Choose(2) == 1
	c := []int{1, 2, 10000, -1}[sym.Choose(4)]
	m := model(c, fuse)
	words := []string{sym.Text(2, 2), "a" + sym.Text(1, 2), "aaaé", "éa"}
	n := lib.Size(4, 5)
	for i := 0; i < n; i++ {
		w := words[sym.Choose(lib.Size(3, 4))]
		got, err := m.Tokenize(w)
		want, err2 := model(0, fuse).Tokenize(w)
		same(got, want, err, err2)
		for j := range got { // whatever is done with the result
			got[j] = models.Token{ID: -9}
		}
	}
}

// H_model_errors: the unknown token is not a term; nothing of a failed word
// stays.
func H_model_errors() {
	var t lib.Table
	t = t.Add("a", "b", "ab")
	c := []int{0, 1, 100, -1}[sym.Choose(4)]
	rs := lib.Rules{{A: 0, B: 1, Rank: 0, ID: 2}}
	v := t.Vocabulary()
	m := bpemodel.New(v, rs.Map(), c, 0, "?", "", "", true)
	w := sym.Text(2, 2)
	for i := 0; i < 2; i++ {
		got, err := m.Tokenize(w)
		sym.Assert(err != nil && len(got) == 0, "no error for a missing unknown token")
	}
}

func same(got, want []models.Token, err, err2 error) {
	sym.Observe("tokens", got)
	sym.Assert(err == nil && err2 == nil, "tokenizing fails")
	sym.Assert(len(got) == len(want), "a cache changes the tokens")
	if len(got) == len(want) {
		for i := range want {
			sym.Assert(got[i] == want[i], "a cache changes the tokens")
		}
	}
}

// H_huge: words longer than sixteen bits can count.
func H_huge() {
	m := model(10, true)
	x := lib.Filler(lib.Huge())
	words := []string{x + sym.Text(1, 2), x + "é", "é" + x}
	for i := 0; i < 2; i++ {
		w := words[sym.Choose(3)]
		got, err := m.Tokenize(w)
		want, err2 := model(0, true).Tokenize(w)
		same(got, want, err, err2)
	}
}
