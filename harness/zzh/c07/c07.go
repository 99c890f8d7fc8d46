// Package c07: splitting tiles the text as its delimiter behaviour says.
package c07

import (
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

type piece struct {
	i, j  int
	match bool
}

// layout is a pattern that conforms to the interface: contiguous ordered
// captures on character boundaries covering the whole text.
type layout struct{ caps []splitpattern.Capture }

func (l *layout) FindMatches(s string) ([]splitpattern.Capture, error) { return l.caps, nil }

// arbitrary is every conforming pattern over the characters cs: every way of
// cutting them in captures and of flagging these.
func arbitrary(cs []lib.Ch) (*layout, []piece) {
	if len(cs) == 0 {
		m := sym.Choose(2) == 1
		return &layout{[]splitpattern.Capture{{IsMatch: m}}}, []piece{{0, 0, m}}
	}
	var ps []piece
	for i := range cs {
		if i > 0 && sym.Choose(2) == 0 {
			ps[len(ps)-1].j = i + 1
			continue
		}
		ps = append(ps, piece{i, i + 1, sym.Choose(2) == 1})
	}
	l := &layout{}
	for _, p := range ps {
		l.caps = append(l.caps, splitpattern.Capture{
			Offsets: strutils.ByteOffsets{Start: lib.Pos(cs, p.i), End: lib.Pos(cs, p.j)},
			IsMatch: p.match,
		})
	}
	return l, ps
}

var behaviours = []normalizedstring.SplitDelimiterBehavior{
	normalizedstring.SplitDelimiterRemoved,
	normalizedstring.SplitDelimiterIsolated,
	normalizedstring.SplitDelimiterMergedWithPrevious,
	normalizedstring.SplitDelimiterMergedWithNext,
	normalizedstring.SplitDelimiterContiguous,
}

// together reports whether the behaviour puts neighbouring captures in one
// piece.
func together(b normalizedstring.SplitDelimiterBehavior, prev, next bool) bool {
	switch b {
	case normalizedstring.SplitDelimiterMergedWithPrevious:
		return !prev && next
	case normalizedstring.SplitDelimiterMergedWithNext:
		return prev && !next
	case normalizedstring.SplitDelimiterContiguous:
		return prev == next
	}
	return false
}

func expected(ps []piece, b normalizedstring.SplitDelimiterBehavior) []piece {
	var out []piece
	for k, p := range ps {
		if b == normalizedstring.SplitDelimiterRemoved && p.match {
			continue
		}
		if k > 0 && len(out) > 0 && together(b, ps[k-1].match, p.match) {
			out[len(out)-1].j = p.j
			continue
		}
		out = append(out, p)
	}
	return out
}

// check asserts that the pieces are the parts ps of the text.
func check(nss []*normalizedstring.NormalizedString, ps []piece, cs []lib.Ch, root string) {
	sym.Assert(len(nss) == len(ps), "wrong number of pieces")
	if len(nss) != len(ps) {
		return
	}
	for k, ns := range nss {
		part := cs[ps[k].i:ps[k].j]
		o := ns.OriginalOffsets()
		sym.Observe("piece", ns.Get(), o.Start, o.End)
		sym.Assert(ns.Get() == lib.Join(part), "wrong text of a piece")
		sym.Assert(o.Start >= 0 && o.Start <= o.End && o.End <= len(root), "offsets of a piece outside the text")
		sym.Assert(ns.GetOriginal() == root[o.Start:o.End], "the original of a piece is not the text at its offsets")
		sym.Assert(lib.Aligned(ns, part, o.Start), "wrong alignment in a piece")
		if len(part) > 0 {
			sym.Assert(o.Start == part[0].S && o.End == part[len(part)-1].E, "offsets of a piece are not those of its text")
		}
	}
}

// patterned is every layout, every behaviour.
func patterned(ns *normalizedstring.NormalizedString, cs []lib.Ch, s string) {
	p, ps := arbitrary(cs)
	b := behaviours[sym.Choose(len(behaviours))]
	nss, err := ns.Split(p, b)
	sym.Assert(err == nil, "splitting by a conforming pattern fails")
	check(nss, expected(ps, b), cs, s)
	lib.Check(ns, cs, s, "split string")
}

// H_split: every layout of captures over plain texts.
func H_split() {
	n := sym.Choose(lib.Size(5, 6))
	s := sym.Text(n, 2)
	patterned(normalizedstring.FromString(s), lib.Chars(s), s)
}

// H_split_edited: texts edited before.
func H_split_edited() {
	ns, cs, s := lib.Reachable(sym.Choose(lib.Size(3, 4)), 2)
	patterned(ns, cs, s)
}

// H_split_wide: more kinds of characters, fewer of them.
func H_split_wide() {
	n := lib.Size(2, 3)
	s := sym.Text(n, 4)
	patterned(normalizedstring.FromString(s), lib.Chars(s), s)
}

// H_many: more captures than any size is made for.
func H_many() {
	n := lib.Size(6, 9)
	s := sym.Text(n, 1)
	patterned(normalizedstring.FromString(s), lib.Chars(s), s)
}

// H_predicate: a function pattern deciding character by character.
func H_predicate() {
	ns, cs, s := lib.Reachable(lib.Size(3, 4), 2)
	b := behaviours[sym.Choose(len(behaviours))]
	nss, err := ns.Split(splitpattern.FromFunc(func(r rune) bool { return sym.Pred("delim", r) }), b)
	sym.Assert(err == nil, "splitting by a function fails")
	var ps []piece
	for i, c := range cs {
		m := sym.Pred("delim", c.R)
		if !m && len(ps) > 0 && !ps[len(ps)-1].match {
			ps[len(ps)-1].j = i + 1
			continue
		}
		ps = append(ps, piece{i, i + 1, m})
	}
	if len(ps) == 0 {
		ps = append(ps, piece{})
	}
	check(nss, expected(ps, b), cs, s)
	lib.Check(ns, cs, s, "split string")
}

// H_split_twice: splitting the pieces again, with an edit in between.
func H_split_twice() {
	s := sym.Text(3, 2)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	p, ps := arbitrary(cs)
	nss, err := ns.Split(p, normalizedstring.SplitDelimiterMergedWithNext)
	sym.Assert(err == nil, "splitting by a conforming pattern fails")
	ps = expected(ps, normalizedstring.SplitDelimiterMergedWithNext)
	check(nss, ps, cs, s)
	if len(nss) != len(ps) {
		return
	}
	for k, x := range nss {
		part := cs[ps[k].i:ps[k].j]
		x.Prepend("é")
		part = lib.Concat(lib.Inserted("é", part[0].S, part[0].E), part)
		var qs []piece
		for i, c := range part {
			m := c.R == 'é'
			if !m && len(qs) > 0 && !qs[len(qs)-1].match {
				qs[len(qs)-1].j = i + 1
				continue
			}
			qs = append(qs, piece{i, i + 1, m})
		}
		again, err := x.Split(splitpattern.FromRune('é'), normalizedstring.SplitDelimiterMergedWithNext)
		sym.Assert(err == nil, "splitting by a rune fails")
		check(again, expected(qs, normalizedstring.SplitDelimiterMergedWithNext), part, s)
	}
	lib.Check(ns, cs, s, "split string")
}

// H_long: texts longer than any internal buffer.
func H_long() {
	pads := lib.Pads()
	long(lib.Fill(pads[sym.Choose(len(pads))]), 3)
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() { long(lib.Filler(lib.Huge()/2+20), 1) }

func long(pad string, maxw int) {
	mid := sym.Text(2, maxw)
	s := pad + mid + pad
	cs := lib.Chars(s)
	at := utf8.RuneCountInString(pad)
	l := &layout{}
	var ps []piece
	add := func(i, j int, m bool) {
		if i == j {
			return
		}
		ps = append(ps, piece{i, j, m})
		l.caps = append(l.caps, splitpattern.Capture{Offsets: strutils.ByteOffsets{Start: lib.Pos(cs, i), End: lib.Pos(cs, j)}, IsMatch: m})
	}
	add(0, at, false)
	add(at, at+1, true)
	add(at+1, at+2, true)
	add(at+2, len(cs), false)
	b := behaviours[sym.Choose(len(behaviours))]
	ns := normalizedstring.FromString(s)
	nss, err := ns.Split(l, b)
	sym.Assert(err == nil, "splitting by a conforming pattern fails")
	check(nss, expected(ps, b), cs, s)
}

type failing struct{}

func (failing) FindMatches(string) ([]splitpattern.Capture, error) { return nil, errFail }

type failure struct{}

func (failure) Error() string { return "pattern failure" }

var errFail error = failure{}

// H_error: a failing pattern's error is returned and nothing changes.
func H_error() {
	ns, cs, s := lib.Reachable(2, 2)
	nss, err := ns.Split(failing{}, behaviours[sym.Choose(len(behaviours))])
	sym.Assert(lib.Is(err, errFail), "the pattern's error is not returned")
	sym.Assert(len(nss) == 0, "pieces are returned with an error")
	lib.Check(ns, cs, s, "split string")
}

// H_deep: splitting after a long history of edits, and the pieces again.
func H_deep() {
	s := sym.Text(2, 2)
	ns := normalizedstring.FromString(s)
	cs := lib.History(ns, lib.Chars(s), sym.Choose(6), lib.Size(12, 30))
	b := behaviours[sym.Choose(len(behaviours))]
	d := 'é'
	for k := 0; k < 3; k++ {
		var ps []piece
		for i, c := range cs {
			m := c.R == d
			if !m && len(ps) > 0 && !ps[len(ps)-1].match {
				ps[len(ps)-1].j = i + 1
				continue
			}
			ps = append(ps, piece{i, i + 1, m})
		}
		if len(ps) == 0 {
			ps = append(ps, piece{})
		}
		nss, err := ns.Split(splitpattern.FromRune(d), b)
		sym.Assert(err == nil, "splitting by a rune fails")
		ps = expected(ps, b)
		check(nss, ps, cs, s)
		if len(nss) != len(ps) || len(ps) == 0 {
			return
		}
		ns, cs = nss[len(nss)/2], cs[ps[len(nss)/2].i:ps[len(nss)/2].j]
		d = '0'
	}
}
