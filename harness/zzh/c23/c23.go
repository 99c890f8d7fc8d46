// Package c23: encodings of tokenized strings.
package c23

import (
	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// entry is what an encoding is expected to hold for one token.
type entry struct {
	id    int
	value string
	word  int
	typ   int
	// the offsets of a token without any text are not settled
	loose bool
	a, b  int
}

// same asserts that e is exactly the entries.
func same(e *encodings.Encoding, want []entry, root, what string) {
	sym.Assert(e != nil, what+": no encoding")
	if e == nil {
		return
	}
	sym.Observe("encoding", e.IDs, e.TypeIDs, e.Tokens, e.Words, e.SpecialTokensMask, e.AttentionMask)
	n := len(want)
	sym.Assert(len(e.IDs) == n, what+": wrong number of ids")
	sym.Assert(len(e.TypeIDs) == n && len(e.Tokens) == n && len(e.Words) == n && len(e.Offsets) == n &&
		len(e.SpecialTokensMask) == n && len(e.AttentionMask) == n, what+": parallel lists of different lengths")
	sym.Assert(len(e.Overflowing) == 0, what+": overflowing encodings from nowhere")
	sym.Assert(e.Len() == n && e.IsEmpty() == (n == 0), what+": wrong length")
	if len(e.IDs) != n || len(e.TypeIDs) != n || len(e.Tokens) != n || len(e.Words) != n || len(e.Offsets) != n ||
		len(e.SpecialTokensMask) != n || len(e.AttentionMask) != n {
		return
	}
	for i, w := range want {
		sym.Assert(e.IDs[i] == w.id, what+": wrong id")
		sym.Assert(e.TypeIDs[i] == w.typ, what+": wrong type id")
		sym.Assert(e.Tokens[i] == w.value, what+": wrong token")
		sym.Assert(e.Words[i] == w.word, what+": wrong word")
		sym.Assert(e.SpecialTokensMask[i] == 0, what+": marked special")
		sym.Assert(e.AttentionMask[i] == 1, what+": masked out")
		o := e.Offsets[i]
		sym.Observe("offsets", o.Start, o.End)
		if w.loose {
			continue
		}
		sym.Assert(0 <= o.Start && o.Start <= o.End && o.End <= len(root), what+": offsets outside the text")
		sym.Assert(o.Start == w.a && o.End == w.b, what+": wrong offsets")
	}
}

// token gives a token of the normalized bytes [a,b) of a split and what is
// expected of it.
func token(cs []lib.Ch, a, b, id int, value string, word, typ int) (models.Token, entry) {
	t := models.Token{ID: id, Value: value, Offsets: strutils.ByteOffsets{Start: a, End: b}}
	w := entry{id: id, value: value, word: word, typ: typ, loose: a == b}
	p := 0
	for _, c := range cs {
		q := p + len(c.T)
		if p <= a && a < q {
			w.a = c.S
		}
		if p < b && b <= q {
			w.b = c.E
		}
		p = q
	}
	return t, w
}

// word is the word index of the given split.
func word(given, split int) int {
	if given >= 0 {
		return given
	}
	return split
}

// parts cuts ns at its k-th character.
func parts(ns *normalizedstring.NormalizedString, cs []lib.Ch, k int) ([]pretokenizedstring.Split, [][]lib.Ch) {
	p := lib.Pos(cs, k)
	x, ok1 := ns.Slice(normalizedstring.NewNormalizedRange(0, p))
	y, ok2 := ns.Slice(normalizedstring.NewNormalizedRange(p, ns.Len()))
	sym.Assert(ok1 && ok2, "the text cannot be cut")
	return []pretokenizedstring.Split{{NormalizedString: x}, {NormalizedString: y}}, [][]lib.Ch{cs[:k], cs[k:]}
}

// H_ranges: every normalized range of every part of an edited text.
func H_ranges() { ranges(2, lib.Size(2, 3)) }

// H_wide: the same for longer characters.
func H_wide() { ranges(lib.Size(1, 2), 4) }

func ranges(n, maxw int) {
	ns, cs, s := lib.Reachable(n, maxw)
	if len(cs) == 0 {
		return
	}
	pts := pretokenizedstring.FromNormalizedString(ns)
	lists := [][]lib.Ch{cs}
	if len(cs) > 1 {
		err := pts.Split(func(int, *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
			sp, l := parts(ns, cs, 1+sym.Choose(len(cs)-1))
			lists = l
			return sp, nil
		})
		sym.Assert(err == nil, "splitting fails")
	}
	given, typ := sym.Int(-1<<40, 1<<40), sym.Int(-1<<40, 1<<40)
	var want []entry
	k := -1
	err := pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
		k++
		n := ns.Len()
		a := sym.Choose(n + 1)
		b := a + sym.Choose(n+1-a)
		id := sym.Int(-1<<40, 1<<40)
		t, w := token(lists[k], a, b, id, "t", word(given, k), typ)
		if b == a {
			sym.Reach("empty token")
		}
		want = append(want, w)
		return []models.Token{t}, nil
	})
	sym.Assert(err == nil, "tokenizing fails")
	e, err := pts.IntoEncoding(given, typ)
	sym.Assert(err == nil, "encoding fails")
	same(e, want, s, "ranges")
}

// H_pairs: two tokens of one part, side by side, apart, overlapping or in the
// other order.
func H_pairs() {
	ns, cs, s := lib.Reachable(3, lib.Size(1, 2))
	n := len(cs)
	if n == 0 {
		return
	}
	pts := pretokenizedstring.FromNormalizedString(ns)
	var want []entry
	err := pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
		var out []models.Token
		for j := 0; j < 2; j++ {
			a := sym.Choose(n)
			b := a + 1 + sym.Choose(n-a)
			t, w := token(cs, lib.Pos(cs, a), lib.Pos(cs, b), 7*j, "t", 0, 1)
			out = append(out, t)
			want = append(want, w)
		}
		return out, nil
	})
	sym.Assert(err == nil, "tokenizing fails")
	e, err := pts.IntoEncoding(-1, 1)
	sym.Assert(err == nil, "encoding fails")
	same(e, want, s, "pairs")
}

// H_lists: any numbers of tokens in several splits, any values.
func H_lists() {
	s := sym.Text(3, lib.Size(2, 3))
	cs := lib.Chars(s)
	pts := pretokenizedstring.FromString(s)
	err := pts.Split(func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
		var out []pretokenizedstring.Split
		p := 0
		for i := range cs {
			x, _ := ns.Slice(normalizedstring.NewNormalizedRange(p, p+len(cs[i].T)))
			p += len(cs[i].T)
			out = append(out, pretokenizedstring.Split{NormalizedString: x})
		}
		return out, nil
	})
	sym.Assert(err == nil, "splitting fails")
	given, typ := sym.Int(-1<<40, 1<<40), sym.Int(-1<<40, 1<<40)
	var want []entry
	k := -1
	err = pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
		k++
		var out []models.Token
		m := sym.Choose(lib.Size(3, 4))
		for j := 0; j < m; j++ {
			value := ""
			if j != 1 {
				value = sym.Text(1, 1)
			}
			t, w := token(cs[k:k+1], 0, ns.Len(), sym.Int(-1<<40, 1<<40), value, word(given, k), typ)
			out = append(out, t)
			want = append(want, w)
		}
		return out, nil
	})
	sym.Assert(err == nil, "tokenizing fails")
	e, err := pts.IntoEncoding(given, typ)
	sym.Assert(err == nil, "encoding fails")
	same(e, want, s, "lists")
	// again, whatever is done to the first result
	for i := range e.IDs {
		e.IDs[i], e.Tokens[i], e.Words[i], e.TypeIDs[i], e.Offsets[i] = -7, "?", -7, -7, strutils.ByteOffsets{Start: -7, End: -7}
		e.SpecialTokensMask[i], e.AttentionMask[i] = -7, -7
	}
	e, err = pts.IntoEncoding(given, typ)
	sym.Assert(err == nil, "encoding fails the second time")
	same(e, want, s, "again")
}

// H_open: any splits that are not tokenized.
func H_open() {
	s := sym.Text(4, 1)
	pts := pretokenizedstring.FromString(s)
	open := false
	n := sym.Choose(5)
	var want []entry
	given := sym.Int(-1, 1)
	err := pts.Split(func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
		var out []pretokenizedstring.Split
		for i := 0; i < n; i++ {
			x, _ := ns.Slice(normalizedstring.NewNormalizedRange(i, i+1))
			sp := pretokenizedstring.Split{NormalizedString: x}
			switch sym.Choose(3) {
			case 0:
				open = true
			case 1:
				sp.Tokens = &[]models.Token{}
			case 2:
				t, w := token([]lib.Ch{lib.Chars(s)[i]}, 0, 1, 5, "v", word(given, i), 2)
				sp.Tokens = &[]models.Token{t}
				want = append(want, w)
			}
			out = append(out, sp)
		}
		return out, nil
	})
	sym.Assert(err == nil, "splitting fails")
	e, err := pts.IntoEncoding(given, 2)
	if open {
		sym.Reach("open")
		sym.Assert(err != nil, "an open split is not an error")
		sym.Assert(e == nil, "an encoding with an error")
		return
	}
	sym.Assert(err == nil, "encoding fails")
	same(e, want, s, "tokenized")
}

// H_empty: the empty text, open or tokenized without tokens.
func H_empty() {
	pts := pretokenizedstring.FromString("")
	switch sym.Choose(3) {
	case 0:
		e, err := pts.IntoEncoding(-1, 0)
		sym.Assert(err != nil && e == nil, "an open split is not an error")
		return
	case 1:
		_ = pts.Tokenize(func(*normalizedstring.NormalizedString) ([]models.Token, error) { return nil, nil })
	case 2:
		_ = pts.Split(func(int, *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) { return nil, nil })
	}
	e, err := pts.IntoEncoding(sym.Int(-1, 1), sym.Int(0, 1))
	sym.Assert(err == nil, "encoding fails")
	same(e, nil, "", "empty")
	same(encodings.NewDefaultEncoding(), nil, "", "default")
	same(encodings.NewEncodingWithCapacity(sym.Choose(3)), nil, "", "capacity")
}

// H_tokens: encodings of plain token lists.
func H_tokens() {
	n := sym.Choose(lib.Size(5, 7))
	var list []encodings.EncodableToken
	var want []entry
	for i := 0; i < n; i++ {
		a := sym.Int(0, 1<<40)
		w := entry{id: sym.Int(-9, 1<<40), value: sym.Text(1, 1), word: sym.Int(-1<<40, 1<<40), typ: sym.Int(-1<<40, 1<<40), a: a, b: a + sym.Int(0, 1<<40), loose: true}
		want = append(want, w)
		list = append(list, encodings.EncodableToken{ID: w.id, Token: w.value, WordIndex: w.word, TypeID: w.typ, Offsets: strutils.ByteOffsets{Start: w.a, End: w.b}})
	}
	e := encodings.EncodingFromEncodableTokens(list)
	same(e, want, "", "tokens")
	offsetsOf := func() {
		for i, w := range want {
			sym.Assert(e.Offsets[i].Start == w.a && e.Offsets[i].End == w.b, "wrong offsets of a token of a list")
		}
	}
	offsetsOf()
	// the same lists, one by one
	var ids, typeIDs, words, special, attention []int
	var tokens []string
	var offsets []strutils.ByteOffsets
	for _, w := range want {
		ids, typeIDs, words = append(ids, w.id), append(typeIDs, w.typ), append(words, w.word)
		special, attention = append(special, 0), append(attention, 1)
		tokens = append(tokens, w.value)
		offsets = append(offsets, strutils.ByteOffsets{Start: w.a, End: w.b})
	}
	e = encodings.NewEncoding(ids, typeIDs, tokens, words, offsets, special, attention, nil)
	same(e, want, "", "lists")
	offsetsOf()
	o := []*encodings.Encoding{e}
	e = encodings.NewEncoding(ids, typeIDs, tokens, words, offsets, special, attention, o)
	sym.Assert(len(e.Overflowing) == 1 && e.Overflowing[0] == o[0] && e.Len() == n, "wrong overflowing encodings")
}

// H_many: many splits with several tokens each, around power-of-two sizes.
func H_many() {
	pads := lib.Pads()
	n := pads[sym.Choose(len(pads))]
	s := lib.Fill(n) + sym.Text(2, 3) + "z"
	cs := lib.Chars(s)
	pts := pretokenizedstring.FromString(s)
	err := pts.Split(func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
		var out []pretokenizedstring.Split
		p := 0
		for i := range cs {
			x, _ := ns.Slice(normalizedstring.NewNormalizedRange(p, p+len(cs[i].T)))
			p += len(cs[i].T)
			out = append(out, pretokenizedstring.Split{NormalizedString: x})
		}
		return out, nil
	})
	sym.Assert(err == nil, "splitting fails")
	given := []int{-1, 0, 70}[sym.Choose(3)]
	var want []entry
	k := -1
	err = pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
		k++
		var out []models.Token
		for j := 0; j < k%4; j++ {
			t, w := token(cs[k:k+1], 0, ns.Len(), k*10+j, ns.Get(), word(given, k), 1)
			out = append(out, t)
			want = append(want, w)
		}
		return out, nil
	})
	sym.Assert(err == nil, "tokenizing fails")
	e, err := pts.IntoEncoding(given, 1)
	sym.Assert(err == nil, "encoding fails")
	same(e, want, s, "many")
}

// H_edits: several edits of the splits before the tokens are made.
func H_edits() {
	ns, cs, s := lib.Reachable(2, lib.Size(2, 3))
	if len(cs) < 2 {
		return
	}
	pts := pretokenizedstring.FromNormalizedString(ns)
	var lists [][]lib.Ch
	err := pts.Split(func(int, *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
		sp, l := parts(ns, cs, 1+sym.Choose(len(cs)-1))
		lists = l
		return sp, nil
	})
	sym.Assert(err == nil, "splitting fails")
	k := -1
	kind := sym.Choose(4)
	err = pts.Normalize(func(ns *normalizedstring.NormalizedString) error {
		k++
		l := lists[k]
		switch kind {
		case 0:
			ns.Prepend("▁é")
			lists[k] = lib.Concat(lib.Inserted("▁é", l[0].S, l[0].E), l)
		case 1:
			ns.Append("é▁")
			z := l[len(l)-1]
			lists[k] = lib.Concat(l, lib.Inserted("é▁", z.S, z.E))
		case 2:
			first := true
			ns.Filter(func(rune) bool { f := first; first = false; return !f })
			lists[k] = l[1:]
		case 3:
			ns.Map(func(r rune) rune { return 'é' })
			lists[k] = nil
			for _, c := range l {
				lists[k] = append(lists[k], lib.With(c, 'é'))
			}
		}
		return nil
	})
	sym.Assert(err == nil, "normalizing fails")
	typ := 4
	var want []entry
	k = -1
	err = pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
		k++
		l := lists[k]
		if len(l) == 0 {
			return nil, nil
		}
		i := sym.Choose(len(l))
		j := i + 1 + sym.Choose(len(l)-i)
		t, w := token(l, lib.Pos(l, i), lib.Pos(l, j), k, "t", k, typ)
		want = append(want, w)
		u, v := token(l, lib.Pos(l, i), lib.Pos(l, i+1), k+9, "u", k, typ)
		want = append(want, v)
		return []models.Token{t, u}, nil
	})
	sym.Assert(err == nil, "tokenizing fails")
	e, err := pts.IntoEncoding(-1, typ)
	sym.Assert(err == nil, "encoding fails")
	same(e, want, s, "edited")
}

// H_huge: more words and tokens than sixteen bits can count.
func H_huge() {
	n := lib.Huge()
	s := lib.Filler(n) + sym.Text(1, 2) + "z"
	cs := lib.Chars(s)
	pts := pretokenizedstring.FromString(s)
	err := pts.Split(func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
		out := make([]pretokenizedstring.Split, 0, len(cs))
		p := 0
		for i := range cs {
			x, _ := ns.Slice(normalizedstring.NewNormalizedRange(p, p+len(cs[i].T)))
			p += len(cs[i].T)
			out = append(out, pretokenizedstring.Split{NormalizedString: x})
		}
		return out, nil
	})
	sym.Assert(err == nil, "splitting fails")
	given := []int{-1, n}[sym.Choose(2)]
	want := make([]entry, 0, n+2)
	k := -1
	err = pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
		k++
		if k == 5 {
			return nil, nil
		}
		t, w := token(cs[k:k+1], 0, ns.Len(), k*3, "t", word(given, k), n)
		want = append(want, w)
		return []models.Token{t}, nil
	})
	sym.Assert(err == nil, "tokenizing fails")
	e, err := pts.IntoEncoding(given, n)
	sym.Assert(err == nil, "encoding fails")
	same(e, want, s, "huge")
}

// H_huge_word: a word of more tokens than sixteen bits can count.
func H_huge_word() {
	n := lib.Huge()
	s := "é" + lib.Filler(n) + sym.Text(1, 2)
	cs := lib.Chars(s)
	pts := pretokenizedstring.FromString(s)
	tokens := make([]models.Token, 0, len(cs))
	want := make([]entry, 0, len(cs))
	p := 0
	for i, c := range cs {
		q := p + len(c.T)
		tokens = append(tokens, models.Token{ID: i, Value: "t", Offsets: strutils.ByteOffsets{Start: p, End: q}})
		want = append(want, entry{id: i, value: "t", word: 0, typ: 1, a: c.S, b: c.E})
		p = q
	}
	err := pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) { return tokens, nil })
	sym.Assert(err == nil, "tokenizing fails")
	e, err := pts.IntoEncoding(-1, 1)
	sym.Assert(err == nil, "encoding fails")
	same(e, want, s, "huge")
}
