// Package c30: a pattern that fails makes what uses it fail, cleanly.
package c30

import (
	"strings"
	"unicode/utf8"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// expr takes very many steps on a run of x not followed by y.
const expr = `(x+x+)+y|[a-m]`

const run = "xxxxxxx"

// hasty gives up on anything that takes many steps: a match time that is over
// before it starts. It is looked at every thousand steps only.
func hasty() *regexp2.Regexp {
	r := regexp2.MustCompile(expr, regexp2.None)
	r.MatchTimeout = -1
	return r
}

func calm() *regexp2.Regexp { return regexp2.MustCompile(expr, regexp2.None) }

// fails reports whether a search of the text gives up, and the number of
// matches found until then.
func fails(s string) (bool, int) {
	if s == "" {
		return false, 0
	}
	r := hasty()
	n := 0
	m, err := r.FindStringMatch(s)
	for err == nil && m != nil {
		n++
		m, err = r.FindNextMatch(m)
	}
	return err != nil, n
}

// hard is a text that may have a run of x somewhere.
func hard(before, after, maxw int) string {
	s := sym.Text(sym.Choose(before+1), maxw)
	if sym.Choose(2) == 1 {
		s += run
	}
	return s + sym.Text(sym.Choose(after+1), maxw)
}

// H_find: matches are all found or none is given.
func H_find() {
	s := hard(lib.Size(2, 3), lib.Size(1, 2), 2)
	bad, n := fails(s)
	p, q := splitpattern.SplitPattern(splitpattern.FromRegexp2(hasty())), splitpattern.SplitPattern(splitpattern.FromRegexp2(calm()))
	for k := sym.Choose(3); k > 0; k-- {
		p, q = splitpattern.Invert(p), splitpattern.Invert(q)
	}
	got, err := p.FindMatches(s)
	sym.Observe("failed", err != nil)
	if bad {
		sym.Reach("the search gives up")
		if n > 0 {
			sym.Reach("the search gives up after a match")
		}
	}
	sym.Assert((err != nil) == bad, "the pattern's failure is not told, or there was none")
	if err != nil {
		return
	}
	want, err := q.FindMatches(s)
	sym.Assert(err == nil, "a pattern with time fails")
	sym.Assert(len(got) == len(want), "wrong matches")
	for i := range got {
		sym.Assert(i < len(want) && got[i] == want[i], "wrong matches")
	}
}

var behaviours = []normalizedstring.SplitDelimiterBehavior{
	normalizedstring.SplitDelimiterRemoved,
	normalizedstring.SplitDelimiterIsolated,
	normalizedstring.SplitDelimiterMergedWithPrevious,
	normalizedstring.SplitDelimiterMergedWithNext,
	normalizedstring.SplitDelimiterContiguous,
}

// edited is a normalized string of the text, edited.
func edited(s string, kind int) (*normalizedstring.NormalizedString, []lib.Ch) {
	ns, cs := normalizedstring.FromString(s), lib.Chars(s)
	if kind == 1 && len(cs) > 0 {
		ns.Prepend("é-")
		cs = lib.Concat(lib.Inserted("é-", cs[0].S, cs[0].E), cs)
	}
	return ns, cs
}

func samePieces(a, b []*normalizedstring.NormalizedString, what string) {
	sym.Assert(len(a) == len(b), what+": wrong number of pieces")
	for i := range a {
		ok := i < len(b) && a[i].Get() == b[i].Get() && a[i].GetOriginal() == b[i].GetOriginal() && a[i].OriginalOffsets() == b[i].OriginalOffsets()
		sym.Assert(ok, what+": another piece")
	}
}

// H_split: splitting fails and changes nothing; it can be repeated.
func H_split() {
	s := hard(1, 1, lib.Size(1, 2))
	kind := sym.Choose(2)
	ns, cs := edited(s, kind)
	twin, _ := edited(s, kind)
	bad, _ := fails(ns.Get())
	p, q := splitpattern.SplitPattern(splitpattern.FromRegexp2(hasty())), splitpattern.SplitPattern(splitpattern.FromRegexp2(calm()))
	if sym.Choose(2) == 1 {
		p, q = splitpattern.Invert(p), splitpattern.Invert(q)
	}
	b := behaviours[sym.Choose(len(behaviours))]
	nss, err := ns.Split(p, b)
	sym.Observe("failed", err != nil, len(nss))
	sym.Assert((err != nil) == bad, "splitting hides that its pattern fails, or fails by itself")
	sym.Assert(err == nil || len(nss) == 0, "pieces are returned with an error")
	lib.Check(ns, cs, s, "split string")
	if err == nil {
		return
	}
	nss, err = ns.Split(q, b)
	sym.Assert(err == nil, "splitting by a working pattern fails")
	want, err := twin.Split(q, b)
	sym.Assert(err == nil, "splitting by a working pattern fails")
	samePieces(nss, want, "split again")
}

// H_replace: replacing fails before it replaces anything; it can be repeated.
func H_replace() {
	s := hard(lib.Size(1, 2), 1, lib.Size(1, 2))
	kind := sym.Choose(2)
	ns, cs := edited(s, kind)
	twin, _ := edited(s, kind)
	bad, _ := fails(ns.Get())
	p, q := splitpattern.SplitPattern(splitpattern.FromRegexp2(hasty())), splitpattern.SplitPattern(splitpattern.FromRegexp2(calm()))
	if sym.Choose(2) == 1 {
		p, q = splitpattern.Invert(p), splitpattern.Invert(q)
	}
	t := []string{"é-", ""}[sym.Choose(2)]
	err := ns.Replace(p, t)
	sym.Observe("failed", err != nil)
	sym.Assert((err != nil) == bad, "replacing hides that its pattern fails, or fails by itself")
	if err == nil {
		return
	}
	lib.Check(ns, cs, s, "failed Replace")
	err = ns.Replace(q, t)
	sym.Assert(err == nil, "replacing by a working pattern fails")
	err = twin.Replace(q, t)
	sym.Assert(err == nil, "replacing by a working pattern fails")
	samePieces([]*normalizedstring.NormalizedString{ns}, []*normalizedstring.NormalizedString{twin}, "replaced again")
}

// parts is a pre-tokenized string of three parts, one of which may be hard.
func parts() (string, []string) {
	at := sym.Choose(4)
	var ps []string
	for k := 0; k < 3; k++ {
		t := sym.RuneW(1 + k%2)
		sym.Assume(t != '|')
		p := string(t)
		if k == at {
			if sym.Choose(2) == 1 {
				p = run + p
			} else {
				p += run
			}
		}
		ps = append(ps, p)
	}
	return strings.Join(ps, "|"), ps
}

func cut(s string) *pretokenizedstring.PreTokenizedString {
	pts := pretokenizedstring.FromString(s)
	err := pts.Split(func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
		nss, err := ns.Split(splitpattern.FromRune('|'), normalizedstring.SplitDelimiterRemoved)
		return pretokenizedstring.SplitsFromNormalizedStrings(nss), err
	})
	sym.Assert(err == nil, "cutting fails")
	return pts
}

// same asserts that two pre-tokenized strings have the same splits.
func same(a, b *pretokenizedstring.PreTokenizedString, what string) {
	as, bs := a.Splits(), b.Splits()
	sym.Assert(len(as) == len(bs), what+": wrong number of splits")
	if len(as) != len(bs) {
		return
	}
	for i := range as {
		x, y := as[i].NormalizedString, bs[i].NormalizedString
		sym.Assert((as[i].Tokens == nil) == (bs[i].Tokens == nil), what+": tokens come or go")
		sym.Assert(x.Get() == y.Get() && x.GetOriginal() == y.GetOriginal() && x.OriginalOffsets() == y.OriginalOffsets(), what+": another split")
		if x.Len() != y.Len() {
			continue
		}
		for p := 0; p < x.Len(); p++ {
			c, d := x.CoerceRangeToOriginal(normalizedstring.NewNormalizedRange(p, p+1))
			e, f := y.CoerceRangeToOriginal(normalizedstring.NewNormalizedRange(p, p+1))
			sym.Assert(d == f && (!d || c.Start() == e.Start() && c.End() == e.End()), what+": another alignment")
		}
	}
}

// H_words: the word pre-tokenizer, several splits, the failing one anywhere.
func H_words() {
	s, ps := parts()
	pts, before, twin := cut(s), cut(s), cut(s)
	bad := false
	for _, p := range ps {
		f, _ := fails(p)
		bad = bad || f
	}
	err := whitespacepretokenizer.New(hasty()).PreTokenize(pts)
	sym.Observe("failed", err != nil)
	sym.Assert((err != nil) == bad, "pre-tokenizing hides that its expression fails, or fails by itself")
	if err != nil {
		same(pts, before, "failed pre-tokenization")
		err = whitespacepretokenizer.New(calm()).PreTokenize(pts)
		sym.Assert(err == nil, "pre-tokenizing by a working expression fails")
	}
	err = whitespacepretokenizer.New(calm()).PreTokenize(twin)
	sym.Assert(err == nil, "pre-tokenizing by a working expression fails")
	same(pts, twin, "pre-tokenization")
}

// H_bytes: the byte-level pre-tokenizer; it may leave a prefix.
func H_bytes() {
	s, ps := parts()
	prefix := sym.Choose(2) == 1
	pts, before, twin := cut(s), cut(s), cut(s)
	bad := false
	for _, p := range ps {
		f, _ := fails(p)
		bad = bad || f
	}
	err := bytelevelpretokenizer.New(hasty(), prefix, false).PreTokenize(pts)
	sym.Observe("failed", err != nil)
	sym.Assert((err != nil) == bad, "pre-tokenizing hides that its expression fails, or fails by itself")
	if err != nil {
		if !prefix {
			same(pts, before, "failed pre-tokenization")
		}
		err = bytelevelpretokenizer.New(calm(), prefix, false).PreTokenize(pts)
		sym.Assert(err == nil, "pre-tokenizing by a working expression fails")
	}
	err = bytelevelpretokenizer.New(calm(), prefix, false).PreTokenize(twin)
	sym.Assert(err == nil, "pre-tokenizing by a working expression fails")
	same(pts, twin, "pre-tokenization")
}

type fault struct{}

func (*fault) Error() string { return "fault" }

// picky is a pattern that cuts between characters and fails on some.
type picky struct{ err error }

func (p picky) FindMatches(s string) ([]splitpattern.Capture, error) {
	var cs []splitpattern.Capture
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if p.err != nil && sym.Pred("bad", r) {
			return cs, p.err
		}
		cs = append(cs, splitpattern.Capture{Offsets: strutils.ByteOffsets{Start: i, End: i + w}, IsMatch: len(cs)%2 == 0})
		i += w
	}
	if len(cs) == 0 {
		cs = append(cs, splitpattern.Capture{})
	}
	return cs, nil
}

func anyBad(s string) bool {
	for _, r := range s {
		if sym.Pred("bad", r) {
			return true
		}
	}
	return false
}

// H_picky: a pattern of the caller that gives both matches and an error.
func H_picky() {
	ns, cs, s := lib.Reachable(lib.Size(2, 3), 2)
	p := picky{&fault{}}
	bad := anyBad(ns.Get())
	q := splitpattern.SplitPattern(p)
	if sym.Choose(2) == 1 {
		q = splitpattern.Invert(p)
	}
	var err error
	switch sym.Choose(3) {
	case 0:
		_, err = q.FindMatches(ns.Get())
	case 1:
		var nss []*normalizedstring.NormalizedString
		nss, err = ns.Split(q, behaviours[sym.Choose(len(behaviours))])
		sym.Assert(err == nil || len(nss) == 0, "pieces are returned with an error")
		lib.Check(ns, cs, s, "split string")
	case 2:
		err = ns.Replace(q, "é-")
		if err != nil {
			lib.Check(ns, cs, s, "failed Replace")
		}
	}
	sym.Observe("failed", err != nil)
	sym.Assert((err != nil) == bad, "an error of the pattern is hidden, or there was none")
	sym.Assert(err == nil || lib.Is(err, p.err), "another error than the pattern's")
}

// H_pieces: the same over several splits.
func H_pieces() {
	a, b := sym.Text(1, 2), sym.Text(sym.Choose(2), 2)
	sym.Assume(!strings.Contains(a+b, "|"))
	s := a + "|" + b + "|" + a
	pts, before, twin := cut(s), cut(s), cut(s)
	e := &fault{}
	with := func(p splitpattern.SplitPattern) pretokenizedstring.SplitFunc {
		return func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
			nss, err := ns.Split(p, normalizedstring.SplitDelimiterIsolated)
			if err != nil {
				return nil, err
			}
			return pretokenizedstring.SplitsFromNormalizedStrings(nss), nil
		}
	}
	err := pts.Split(with(picky{e}))
	sym.Observe("failed", err != nil)
	sym.Assert((err != nil) == anyBad(a+b), "an error of the pattern is hidden, or there was none")
	if err != nil {
		sym.Assert(lib.Is(err, e), "another error than the pattern's")
		same(pts, before, "failed split")
		err = pts.Split(with(picky{}))
		sym.Assert(err == nil, "a working pattern fails")
	}
	err = twin.Split(with(picky{}))
	sym.Assert(err == nil, "a working pattern fails")
	same(pts, twin, "split")
}

// H_tokens: a model that cannot tokenize a word fails on it, again and again,
// and on no other word; the splits before it keep their tokens and another
// model can take over.
func H_tokens() {
	kind := sym.Choose(3)
	var m, w models.Model
	if kind == 0 {
		t := lib.Table{"a", "é", "aé", "##a", "##é"}
		m = wordpiecemodel.New(t.Vocabulary(), "[UNK]", "##", 100)
		w = wordpiecemodel.New(append(t, "[UNK]").Vocabulary(), "[UNK]", "##", 100)
	} else {
		t := lib.Table{"a", "é", "[UNK]"}
		rs := lib.Rules{{A: 0, B: 1, Rank: 0, ID: 3}}
		c := []int{0, 100}[kind-1]
		m = bpemodel.New(t.Vocabulary(), rs.Map(), c, 0, "[UNK]", "", "", false)
		w = bpemodel.New(append(t, "aé").Vocabulary(), rs.Map(), c, 0, "[UNK]", "", "", false)
	}
	var ws []string
	for k := 0; k < 3; k++ {
		ws = append(ws, sym.Text(lib.Size(1, 2), 2))
	}
	s := strings.Join(ws, "|")
	sym.Assume(strings.Count(s, "|") == 2)
	bad := -1
	for k := range ws {
		no := strings.Trim(ws[k], "aé") != ""
		if kind > 0 {
			no = strings.Contains(ws[k], "aé")
		}
		if bad < 0 && no {
			bad = k
		}
	}
	pts, twin := cut(s), cut(s)
	run := func(p *pretokenizedstring.PreTokenizedString, m models.Model) error {
		return p.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) { return m.Tokenize(ns.Get()) })
	}
	err := run(pts, m)
	sym.Observe("failed", err != nil)
	sym.Assert((err != nil) == (bad >= 0), "a word that cannot be tokenized is not told, or another is")
	if err != nil {
		for k, x := range pts.Splits() {
			sym.Assert((x.Tokens != nil) == (k < bad), "tokens of the wrong splits")
		}
		_, err = pts.IntoEncoding(-1, 0)
		sym.Assert(err != nil, "an encoding of splits without tokens")
		err = run(pts, m)
		sym.Assert(err != nil, "the same word is tokenized the second time")
		err = run(pts, w)
		sym.Assert(err == nil, "a model that knows everything fails")
	}
	err = run(twin, w)
	sym.Assert(err == nil, "a model that knows everything fails")
	same(pts, twin, "tokenization")
	for k := range pts.Splits() {
		x, y := *pts.Splits()[k].Tokens, *twin.Splits()[k].Tokens
		sym.Assert(len(x) == len(y), "wrong number of tokens")
		for i := range x {
			sym.Assert(i < len(y) && x[i] == y[i], "other tokens after a failure")
		}
	}
}
