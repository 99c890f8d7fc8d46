// Package c03: prepend, append and replace insert exactly.
package c03

import (
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// start gives a text that may have been edited before.
func start(n, maxw int) (*normalizedstring.NormalizedString, []lib.Ch, string) {
	s := sym.Text(n, maxw)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	if sym.Choose(2) == 1 && n > 0 {
		ns.Filter(func(r rune) bool { return sym.Pred("before", r) })
		var out []lib.Ch
		for _, c := range cs {
			if sym.Pred("before", c.R) {
				out = append(out, c)
			}
		}
		cs = out
	}
	return ns, cs, s
}

func prepended(cs []lib.Ch, t string) []lib.Ch {
	if len(cs) == 0 {
		return cs
	}
	return lib.Concat(lib.Inserted(t, cs[0].S, cs[0].E), cs)
}

func appended(cs []lib.Ch, t string) []lib.Ch {
	if len(cs) == 0 {
		return cs
	}
	l := cs[len(cs)-1]
	return lib.Concat(cs, lib.Inserted(t, l.S, l.E))
}

// H_prepend: every text, every inserted string.
func H_prepend() {
	ns, cs, s := start(sym.Choose(lib.Size(4, 5)), 4)
	t := sym.Text(sym.Choose(lib.Size(3, 4)), 3)
	ns.Prepend(t)
	lib.Check(ns, prepended(cs, t), s, "Prepend")
	if len(t) == 0 {
		sym.Reach("empty insertion")
	}
}

// H_append: every text, every inserted string.
func H_append() {
	ns, cs, s := start(sym.Choose(lib.Size(4, 5)), 4)
	t := sym.Text(sym.Choose(lib.Size(3, 4)), 3)
	ns.Append(t)
	lib.Check(ns, appended(cs, t), s, "Append")
}

// H_both: insertions at both ends, twice.
func H_both() {
	ns, cs, s := start(1, 4)
	for k := 0; k < 2; k++ {
		t := sym.Text(1, 3)
		if sym.Choose(2) == 1 {
			ns.Prepend(t)
			cs = prepended(cs, t)
		} else {
			ns.Append(t)
			cs = appended(cs, t)
		}
	}
	lib.Check(ns, cs, s, "insertions")
}

// replaced is the oracle for Replace: hit says which characters belong to a
// match, groups of adjacent characters form a match as given by ends.
func replaced(cs []lib.Ch, match []int, t string) []lib.Ch {
	var out []lib.Ch
	i := 0
	for i < len(cs) {
		if match[i] == 0 {
			out = append(out, cs[i])
			i++
			continue
		}
		j := i + match[i]
		out = append(out, lib.Inserted(t, cs[j-1].S, cs[j-1].E)...)
		i = j
	}
	return out
}

// H_replace: every text, every rune predicate, every replacement.
func H_replace() {
	ns, cs, s := start(sym.Choose(lib.Size(4, 5)), 3)
	t := sym.Text(sym.Choose(3), 2)
	hit := func(r rune) bool { return sym.Pred("hit", r) }
	match := make([]int, len(cs))
	for i, c := range cs {
		if hit(c.R) {
			match[i] = 1
			sym.Reach("match")
		}
	}
	err := ns.Replace(splitpattern.FromFunc(hit), t)
	sym.Assert(err == nil, "Replace failed")
	lib.Check(ns, replaced(cs, match, t), s, "Replace")
}

// layout is a conforming pattern with an arbitrary layout of matches.
type layout struct {
	caps []splitpattern.Capture
}

func (l layout) FindMatches(string) ([]splitpattern.Capture, error) { return l.caps, nil }

// H_replace_layout: matches of several characters in any layout.
func H_replace_layout() {
	ns, cs, s := start(lib.Size(4, 5), 2)
	t := sym.Text(sym.Choose(4), 2)
	match := make([]int, len(cs))
	var caps []splitpattern.Capture
	p := 0
	for i := 0; i < len(cs); {
		k := 1 + sym.Choose(len(cs)-i)
		w := 0
		for x := i; x < i+k; x++ {
			w += len(cs[x].T)
		}
		hit := sym.Choose(2) == 1
		if hit {
			match[i] = k
		}
		caps = append(caps, splitpattern.Capture{Offsets: strutils.ByteOffsets{Start: p, End: p + w}, IsMatch: hit})
		p += w
		i += k
	}
	if len(caps) == 0 {
		caps = []splitpattern.Capture{{}}
	}
	err := ns.Replace(layout{caps}, t)
	sym.Assert(err == nil, "Replace failed")
	lib.Check(ns, replaced(cs, match, t), s, "Replace")
}

// H_replace_literal: a literal of two characters.
func H_replace_literal() {
	n := lib.Size(3, 4)
	s := sym.Text(n, 3)
	lit := []string{"a", "aa", "ab", "é", "ab▁", "-.-"}[sym.Choose(lib.Size(4, 6))]
	t := []string{"", "x", "éy"}[sym.Choose(3)]
	cs, ls := lib.Chars(s), []rune(lit)
	match := make([]int, n)
	for i := 0; i+len(ls) <= n; {
		ok := true
		for k := range ls {
			if cs[i+k].R != ls[k] {
				ok = false
				break
			}
		}
		if ok {
			match[i] = len(ls)
			i += len(ls)
			sym.Reach("literal found")
		} else {
			i++
		}
	}
	ns := normalizedstring.FromString(s)
	err := ns.Replace(splitpattern.FromString(lit), t)
	sym.Assert(err == nil, "Replace failed")
	lib.Check(ns, replaced(cs, match, t), s, "Replace literal")
}

type failing struct{ err error }

func (f failing) FindMatches(string) ([]splitpattern.Capture, error) { return nil, f.err }

type boom struct{}

func (boom) Error() string { return "boom" }

// H_replace_error: an error of the pattern is returned, nothing changes.
func H_replace_error() {
	ns, cs, s := start(2, 3)
	e := boom{}
	err := ns.Replace(failing{e}, "x")
	sym.Assert(lib.Is(err, e), "the pattern's error is not returned")
	lib.Check(ns, cs, s, "failed Replace")
}

// H_long: long texts and long insertions.
func H_long() {
	ps := lib.Pads()
	long(lib.Fill(ps[sym.Choose(len(ps))]), 4)
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() {
	f := lib.Filler(lib.Huge())
	s := f + sym.Text(1, 2) + "é"
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	t := string(sym.RuneW(2))
	switch sym.Choose(4) {
	case 0:
		ns.Prepend(t + f)
		cs = prepended(cs, t+f)
	case 1:
		ns.Append(f + t)
		cs = appended(cs, f+t)
	case 2:
		match := make([]int, len(cs))
		match[len(cs)-1] = 1
		if cs[len(cs)-2].R == 'é' {
			match[len(cs)-2] = 1
		}
		err := ns.Replace(splitpattern.FromRune('é'), t)
		sym.Assert(err == nil, "Replace failed")
		cs = replaced(cs, match, t)
	case 3:
		match := make([]int, len(cs))
		match[len(cs)-1] = 1
		match[len(cs)-2] = 1
		p := layout{caps: []splitpattern.Capture{
			{Offsets: strutils.ByteOffsets{Start: 0, End: len(f)}},
			{Offsets: strutils.ByteOffsets{Start: len(f), End: len(s) - 2}, IsMatch: true},
			{Offsets: strutils.ByteOffsets{Start: len(s) - 2, End: len(s)}, IsMatch: true},
		}}
		err := ns.Replace(p, t+"x")
		sym.Assert(err == nil, "Replace failed")
		cs = replaced(cs, match, t+"x")
	}
	lib.Check(ns, cs, s, "huge text")
}

func long(f string, maxw int) {
	s := sym.Text(1, maxw) + f + sym.Text(1, maxw)
	cs := lib.Chars(s)
	ns := normalizedstring.FromString(s)
	c := sym.RuneW(1 + sym.Choose(maxw))
	t := string(c)
	switch sym.Choose(5) {
	case 0:
		ns.Prepend(t + f)
		cs = prepended(cs, t+f)
	case 1:
		ns.Append(f + t)
		cs = appended(cs, f+t)
	case 2, 3, 4:
		match := make([]int, len(cs))
		for i := range cs {
			if cs[i].R == 'd' || cs[i].R == ' ' || cs[i].R == '中' {
				match[i] = 1
			}
		}
		err := ns.Replace(splitpattern.FromFunc(func(r rune) bool { return r == 'd' || r == ' ' || r == '中' }), t)
		sym.Assert(err == nil, "Replace failed")
		cs = replaced(cs, match, t)
	}
	lib.Check(ns, cs, s, "long text")
	_ = utf8.RuneLen(c)
}

// H_deep: a long history of insertions, replacements, removals and mappings.
func H_deep() {
	ns, cs, s := start(2, 2)
	n := lib.Size(6, 15)
	from := sym.Choose(6)
	for k := 0; k < n; k++ {
		cs = lib.History(ns, cs, from+6*k, 6)
		lib.Check(ns, cs, s, "long history")
	}
}
