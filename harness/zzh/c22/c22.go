// Package c22: splits of a pre-tokenized string.
package c22

import (
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

type fault struct{ n int }

func (f *fault) Error() string { return "fault" }

// split is what the list is expected to hold: which string, whose characters
// are cs of the whole text, and which tokens.
type split struct {
	ns     *normalizedstring.NormalizedString
	tokens *[]models.Token
	cs     []lib.Ch
	whole  bool // of an edited text: the original may hold more
}

// same asserts that pts holds exactly the splits of list.
func same(pts *pretokenizedstring.PreTokenizedString, list []split, root, what string) {
	got := pts.Splits()
	obs := pts.GetOriginalByteSplits()
	nbs := pts.GetNormalizedByteSplits()
	for _, b := range nbs {
		sym.Observe("split", b.String, b.Offsets.Start, b.Offsets.End, b.Tokens == nil)
	}
	sym.Assert(len(got) == len(list), what+": wrong number of splits")
	sym.Assert(len(obs) == len(got) && len(nbs) == len(got), what+": lists of different lengths")
	if len(got) != len(list) || len(obs) != len(got) || len(nbs) != len(got) {
		return
	}
	at := 0
	for i, w := range list {
		sym.Assert(got[i].NormalizedString == w.ns, what+": not the string it was given")
		sym.Assert(got[i].Tokens == w.tokens, what+": not the tokens it was given")
		sym.Assert(obs[i].Tokens == w.tokens && nbs[i].Tokens == w.tokens, what+": tokens missing in the byte splits")
		text := lib.Join(w.cs)
		sym.Assert(w.ns.Get() == text, what+": a split was rewritten")
		sym.Assert(obs[i].String == text && nbs[i].String == text, what+": wrong text of a byte split")
		sym.Assert(nbs[i].Offsets.Start == at && nbs[i].Offsets.End == at+len(text), what+": the byte splits do not tile the text")
		at += len(text)
		sym.Assert(obs[i].Offsets == w.ns.OriginalOffsets(), what+": wrong original offsets")
		if len(w.cs) > 0 && !w.whole {
			sym.Assert(obs[i].Offsets.Start == w.cs[0].S && obs[i].Offsets.End == w.cs[len(w.cs)-1].E, what+": original offsets of another part")
		}
	}
}

// calls records what a function was called with.
type calls struct {
	index []int
	ns    []*normalizedstring.NormalizedString
}

// expected asserts that the calls were those on the open splits up to the
// failing one.
func (c calls) expected(list []split, failing int, indexed bool, what string) {
	n := 0
	for i, s := range list {
		if s.tokens != nil {
			continue
		}
		if n > failing {
			break
		}
		sym.Assert(n < len(c.ns), what+": an open split was left out")
		if n >= len(c.ns) {
			return
		}
		sym.Assert(c.ns[n] == s.ns, what+": called on another split")
		if indexed {
			sym.Assert(c.index[n] == i, what+": wrong index")
		}
		n++
	}
	sym.Assert(n == len(c.ns), what+": called too often")
}

const never = 1 << 20

// cut gives the parts of s at position k of its characters.
func cut(s split, k int) []split {
	p := lib.Pos(s.cs, k)
	var out []split
	for h := 0; h < 2; h++ {
		a, b, cs := 0, p, s.cs[:k]
		if h == 1 {
			a, b, cs = p, s.ns.Len(), s.cs[k:]
		}
		ns, ok := s.ns.Slice(normalizedstring.NewNormalizedRange(a, b))
		sym.Assert(ok, "a part cannot be cut")
		out = append(out, split{ns: ns, cs: cs})
	}
	return out
}

// replacement chooses what splitting s gives.
func replacement(s split, kinds int) []split {
	n := len(s.cs)
	switch sym.Choose(kinds) {
	case 0: // as it is
		return []split{s}
	case 1: // two parts, maybe empty ones
		return cut(s, sym.Choose(n+1))
	case 2: // one part already tokenized
		out := cut(s, sym.Choose(n+1))
		out[sym.Choose(2)].tokens = &[]models.Token{{ID: 1, Value: "x"}}
		return out
	case 3: // nothing
		return nil
	case 4: // parts, with tokens that are an empty list, around an empty part
		out := cut(s, n/2)
		out[0].tokens = &[]models.Token{}
		e, _ := s.ns.Slice(normalizedstring.NewNormalizedRange(0, 0))
		return []split{{ns: e, tokens: &[]models.Token{}}, out[0], {ns: e}, out[1]}
	case 5: // the same string twice
		return []split{s, s}
	}
	return nil
}

// doSplit splits the open splits, failing on the failing-th one.
func doSplit(pts *pretokenizedstring.PreTokenizedString, list []split, failing, kinds int, what string) []split {
	var c calls
	want := []split{}
	problem := &fault{failing}
	i := 0 // next split of the list
	err := pts.Split(func(index int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
		c.index = append(c.index, index)
		c.ns = append(c.ns, ns)
		for i < len(list) && list[i].tokens != nil {
			want = append(want, list[i])
			i++
		}
		if i >= len(list) {
			return nil, nil
		}
		if len(c.ns)-1 == failing {
			return []pretokenizedstring.Split{{NormalizedString: ns}}, problem
		}
		r := replacement(list[i], kinds)
		i++
		var out []pretokenizedstring.Split
		for _, x := range r {
			if len(x.cs) > 0 {
				want = append(want, x)
			} else {
				sym.Reach("empty part")
			}
			out = append(out, pretokenizedstring.Split{NormalizedString: x.ns, Tokens: x.tokens})
		}
		return out, nil
	})
	for i < len(list) && list[i].tokens != nil {
		want = append(want, list[i])
		i++
	}
	c.expected(list, failing, true, what)
	sym.Observe("calls", c.index)
	if failing < len(c.ns) {
		sym.Reach("failed")
		sym.Assert(lib.Is(err, problem), what+": the error is lost")
		return list
	}
	sym.Assert(err == nil, what+": an error without a failure")
	return want
}

// doNormalize rewrites the open splits.
func doNormalize(pts *pretokenizedstring.PreTokenizedString, list []split, failing int, what string) []split {
	var c calls
	problem := &fault{failing}
	open := make([]int, 0, len(list))
	for i, s := range list {
		if s.tokens == nil {
			open = append(open, i)
		}
	}
	want := append([]split(nil), list...)
	err := pts.Normalize(func(ns *normalizedstring.NormalizedString) error {
		n := len(c.ns)
		c.index = append(c.index, 0)
		c.ns = append(c.ns, ns)
		if n == failing {
			return problem
		}
		ns.Map(func(r rune) rune { return 'é' })
		if n < len(open) {
			cs := append([]lib.Ch(nil), want[open[n]].cs...)
			for k, x := range cs {
				cs[k] = lib.With(x, 'é')
			}
			want[open[n]].cs = cs
		}
		return nil
	})
	c.expected(list, failing, false, what)
	if failing < len(c.ns) {
		sym.Assert(lib.Is(err, problem), what+": the error is lost")
	} else {
		sym.Assert(err == nil, what+": an error without a failure")
	}
	return want
}

// doTokenize gives tokens to the open splits; those of splits are what the
// function returned, which may be no tokens at all.
func doTokenize(pts *pretokenizedstring.PreTokenizedString, list []split, failing, kind int, what string) []split {
	var c calls
	problem := &fault{failing}
	open := make([]int, 0, len(list))
	for i, s := range list {
		if s.tokens == nil {
			open = append(open, i)
		}
	}
	want := append([]split(nil), list...)
	var given [][]models.Token
	err := pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
		n := len(c.ns)
		c.index = append(c.index, 0)
		c.ns = append(c.ns, ns)
		if n == failing {
			return []models.Token{{ID: 9}}, problem
		}
		var ts []models.Token
		switch kind {
		case 0:
			ts = []models.Token{{ID: n, Value: ns.Get(), Offsets: strutils.ByteOffsets{Start: 0, End: ns.Len()}}}
		case 1:
			ts = []models.Token{}
		}
		given = append(given, ts)
		return ts, nil
	})
	c.expected(list, failing, false, what)
	if failing < len(c.ns) {
		sym.Assert(lib.Is(err, problem), what+": the error is lost")
	} else {
		sym.Assert(err == nil, what+": an error without a failure")
	}
	now := pts.Splits()
	sym.Assert(len(now) == len(list), what+": the number of splits changed")
	if len(now) != len(list) {
		return want
	}
	for n, i := range open {
		if n >= len(given) {
			break
		}
		sym.Assert(now[i].Tokens != nil, what+": a tokenized split is still open")
		if now[i].Tokens == nil {
			continue
		}
		ts := *now[i].Tokens
		sym.Assert(len(ts) == len(given[n]), what+": wrong number of tokens")
		if len(ts) == 1 && len(given[n]) == 1 {
			sym.Assert(ts[0] == given[n][0], what+": other tokens")
		}
		for k := 0; k < i; k++ {
			sym.Assert(now[k].Tokens != now[i].Tokens, what+": two splits share their tokens")
		}
		want[i].tokens = now[i].Tokens
	}
	return want
}

func start(s string) (*pretokenizedstring.PreTokenizedString, []split) {
	ns := normalizedstring.FromString(s)
	return pretokenizedstring.FromNormalizedString(ns), []split{{ns: ns, cs: lib.Chars(s)}}
}

// failure chooses the call that fails.
func failure(n int) int {
	k := sym.Choose(n + 1)
	if k == n {
		return never
	}
	return k
}

// H_split: splitting twice, then again.
func H_split() {
	s := sym.Text(lib.Size(3, 4), lib.Size(2, 3))
	pts, list := start(s)
	same(pts, list, s, "start")
	list = doSplit(pts, list, failure(1), 5, "split")
	same(pts, list, s, "split")
	list = doSplit(pts, list, failure(2), 5, "split again")
	same(pts, list, s, "split again")
}

// H_string: a pre-tokenized string of a text is one open split.
func H_string() {
	s := sym.Text(sym.Choose(lib.Size(4, 5)), 4)
	pts := pretokenizedstring.FromString(s)
	sp := pts.Splits()
	sym.Assert(len(sp) == 1, "not one split")
	sym.Assert(sp[0].Tokens == nil, "tokens from nowhere")
	lib.Check(sp[0].NormalizedString, lib.Chars(s), s, "split")
	same(pts, []split{{ns: sp[0].NormalizedString, cs: lib.Chars(s)}}, s, "text")
}

// H_normalize: normalizing tokenized and open splits.
func H_normalize() {
	s := sym.Text(lib.Size(3, 4), 2)
	pts, list := start(s)
	list = doSplit(pts, list, never, 5, "split")
	list = doNormalize(pts, list, failure(2), "normalize")
	same(pts, list, s, "normalize")
	list = doSplit(pts, list, never, 3, "split")
	same(pts, list, s, "split after normalizing")
	list = doNormalize(pts, list, failure(3), "normalize again")
	same(pts, list, s, "normalize again")
}

// H_tokenize: tokenizing some splits, then the others.
func H_tokenize() {
	s := sym.Text(lib.Size(3, 4), 2)
	pts, list := start(s)
	list = doSplit(pts, list, never, 5, "split")
	list = doTokenize(pts, list, failure(2), sym.Choose(3), "tokenize")
	same(pts, list, s, "tokenize")
	list = doSplit(pts, list, never, 3, "split")
	same(pts, list, s, "split after tokenizing")
	list = doNormalize(pts, list, never, "normalize")
	list = doTokenize(pts, list, failure(2), sym.Choose(2), "tokenize again")
	same(pts, list, s, "tokenize again")
}

// H_history: operations in any order.
func H_history() {
	s := sym.Text(2, 2)
	pts, list := start(s)
	for k := 0; k < lib.Size(3, 4); k++ {
		switch sym.Choose(3) {
		case 0:
			list = doSplit(pts, list, failure(1), 4, "split")
		case 1:
			list = doNormalize(pts, list, failure(1), "normalize")
		case 2:
			list = doTokenize(pts, list, failure(1), sym.Choose(2), "tokenize")
		}
		same(pts, list, s, "step")
	}
}

// H_many: many splits, each of one character.
func H_many() {
	pads := lib.Pads()
	n := pads[sym.Choose(len(pads))]
	s := lib.Fill(n) + sym.Text(1, 4)
	pts, list := start(s)
	whole := list[0]
	want := []split{}
	err := pts.Split(func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
		var out []pretokenizedstring.Split
		p := 0
		for i := range whole.cs {
			q := p + len(whole.cs[i].T)
			one, ok := ns.Slice(normalizedstring.NewNormalizedRange(p, q))
			sym.Assert(ok, "a part cannot be cut")
			x := split{ns: one, cs: whole.cs[i : i+1]}
			if i%7 == 3 {
				x.tokens = &[]models.Token{}
			}
			want = append(want, x)
			out = append(out, pretokenizedstring.Split{NormalizedString: one, Tokens: x.tokens})
			p = q
		}
		return out, nil
	})
	sym.Assert(err == nil, "an error without a failure")
	list = want
	same(pts, list, s, "many")
	list = doNormalize(pts, list, never, "normalize")
	same(pts, list, s, "normalize")
	last := len(list)
	list = doSplit(pts, list, []int{never, last / 2}[sym.Choose(2)], 1, "split")
	same(pts, list, s, "split")
	list = doTokenize(pts, list, []int{never, last / 2}[sym.Choose(2)], 0, "tokenize")
	same(pts, list, s, "tokenize")
}

// H_given: a pre-tokenized string of an edited string is that very string.
func H_given() {
	ns, cs, s := lib.Reachable(sym.Choose(3), 3)
	pts := pretokenizedstring.FromNormalizedString(ns)
	sp := pts.Splits()
	sym.Assert(len(sp) == 1 && sp[0].NormalizedString == ns && sp[0].Tokens == nil, "not one open split of the string")
	o := pts.GetOriginalByteSplits()
	sym.Assert(len(o) == 1 && o[0].String == lib.Join(cs) && o[0].Offsets.Start == 0 && o[0].Offsets.End == len(s), "wrong original byte split")
	n := pts.GetNormalizedByteSplits()
	sym.Assert(len(n) == 1 && n[0].String == lib.Join(cs) && n[0].Offsets.Start == 0 && n[0].Offsets.End == len(lib.Join(cs)), "wrong normalized byte split")
}

// H_helper: the helper making splits of strings.
func H_helper() {
	n := sym.Choose(4)
	var list []*normalizedstring.NormalizedString
	for i := 0; i < n; i++ {
		list = append(list, normalizedstring.FromString(sym.Text(sym.Choose(2), 2)))
	}
	got := pretokenizedstring.SplitsFromNormalizedStrings(list)
	sym.Assert(len(got) == n, "wrong number of splits")
	for i := range got {
		sym.Assert(got[i].NormalizedString == list[i] && got[i].Tokens == nil, "wrong split")
	}
}

// H_edited: splits of texts edited before: emptied, with inserted characters
// of no place in the original, rewritten in other widths.
func H_edited() {
	ns, cs, s := lib.Reachable(sym.Choose(3), 2)
	pts := pretokenizedstring.FromNormalizedString(ns)
	list := []split{{ns: ns, cs: cs, whole: true}}
	list = doSplit(pts, list, never, 5, "split")
	same(pts, list, s, "split")
	switch sym.Choose(3) {
	case 0:
		list = doSplit(pts, list, failure(2), 3, "split again")
	case 1:
		list = doNormalize(pts, list, failure(2), "normalize")
	case 2:
		list = doTokenize(pts, list, failure(2), sym.Choose(2), "tokenize")
	}
	same(pts, list, s, "step")
}

// H_huge: more splits than sixteen bits can count.
func H_huge() {
	n := lib.Huge()
	s := lib.Filler(n) + sym.Text(1, 2)
	pts, list := start(s)
	whole := list[0]
	tokens := &[]models.Token{{ID: 1}}
	var want []split
	err := pts.Split(func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
		out := make([]pretokenizedstring.Split, 0, n+1)
		p := 0
		for i := range whole.cs {
			q := p + len(whole.cs[i].T)
			one, ok := ns.Slice(normalizedstring.NewNormalizedRange(p, q))
			sym.Assert(ok, "a part cannot be cut")
			x := split{ns: one, cs: whole.cs[i : i+1]}
			if i == n/2 {
				x.tokens = tokens
			}
			want = append(want, x)
			out = append(out, pretokenizedstring.Split{NormalizedString: one, Tokens: x.tokens})
			p = q
		}
		return out, nil
	})
	sym.Assert(err == nil, "an error without a failure")
	same(pts, want, s, "huge")
	k := 0
	err = pts.Split(func(i int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
		if k == n/2 {
			k++
		}
		sym.Assert(i == k && ns == want[k].ns, "not called with each split in turn")
		k++
		return []pretokenizedstring.Split{{NormalizedString: ns}}, nil
	})
	sym.Assert(err == nil && k == n+1, "not called with every split")
	same(pts, want, s, "huge")
}

// H_same: splits of the same string are splits like others.
func H_same() {
	s := sym.Text(2, 2)
	pts, list := start(s)
	list = doSplit(pts, list, never, 6, "split")
	same(pts, list, s, "split")
	list = doSplit(pts, list, failure(2), 6, "split again")
	same(pts, list, s, "split again")
	list = doTokenize(pts, list, failure(2), sym.Choose(2), "tokenize")
	same(pts, list, s, "tokenize")
}

// H_deep: many operations, one of which may fail.
func H_deep() {
	s := sym.Text(1, 2) + "aé▁b"
	pts, list := start(s)
	n := lib.Size(12, 30)
	bad := sym.Choose(n + 1)
	for k := 0; k < n; k++ {
		failing := never
		if k == bad {
			failing = k % 2
		}
		switch k % 4 {
		case 0, 1:
			list = deepSplit(pts, list, failing, k)
		case 2:
			list = doNormalize(pts, list, failing, "normalize")
		case 3:
			if k%8 == 7 {
				list = doTokenize(pts, list, failing, k/8%2, "tokenize")
			}
		}
		same(pts, list, s, "step")
	}
}

// deepSplit takes the first character off every open split, or gives the split
// some tokens.
func deepSplit(pts *pretokenizedstring.PreTokenizedString, list []split, failing, k int) []split {
	var want []split
	for _, x := range list {
		if x.tokens == nil && len(x.cs) > 1 {
			w := len(x.cs[0].T)
			a, ok := x.ns.Slice(normalizedstring.NewNormalizedRange(0, w))
			sym.Assert(ok, "a part cannot be cut")
			b, ok := x.ns.Slice(normalizedstring.NewNormalizedRange(w, x.ns.Len()))
			sym.Assert(ok, "a part cannot be cut")
			if k%2 == 0 {
				want = append(want, split{ns: a, cs: x.cs[:1], tokens: &[]models.Token{{ID: k}}}, split{ns: b, cs: x.cs[1:]})
			} else {
				want = append(want, split{ns: a, cs: x.cs[:1]}, split{ns: b, cs: x.cs[1:]})
			}
			continue
		}
		want = append(want, x)
	}
	problem := &fault{failing}
	called := 0
	at := 0
	err := pts.Split(func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
		called++
		if called-1 == failing {
			return nil, problem
		}
		var out []pretokenizedstring.Split
		for at < len(list) && list[at].tokens != nil {
			at++
		}
		if at >= len(list) {
			return nil, nil
		}
		x := list[at]
		sym.Assert(x.ns == ns, "the function is called on another string")
		at++
		// the pieces of this split among those wanted
		taken := 0
		for _, y := range list[:at-1] {
			taken++
			if y.tokens == nil && len(y.cs) > 1 {
				taken++
			}
		}
		m := 1
		if len(x.cs) > 1 {
			m = 2
		}
		for _, y := range want[taken : taken+m] {
			out = append(out, pretokenizedstring.Split{NormalizedString: y.ns, Tokens: y.tokens})
		}
		return out, nil
	})
	if failing < called {
		sym.Assert(lib.Is(err, problem), "the error is lost")
		return list
	}
	sym.Assert(err == nil, "an error without a failure")
	return want
}
