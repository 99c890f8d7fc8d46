// Package c08: every split pattern covers its text with exact matches.
package c08

import (
	"regexp"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

type span struct{ a, b int }

// expected puts the maximal stretches between the matches around them.
func expected(s string, ms []span, inverted bool) []splitpattern.Capture {
	var out []splitpattern.Capture
	add := func(a, b int, m bool) {
		out = append(out, splitpattern.Capture{Offsets: strutils.ByteOffsets{Start: a, End: b}, IsMatch: m != inverted})
	}
	if len(s) == 0 {
		add(0, 0, false)
		return out
	}
	prev := 0
	for _, m := range ms {
		if prev < m.a {
			add(prev, m.a, false)
		}
		add(m.a, m.b, true)
		prev = m.b
	}
	if prev < len(s) {
		add(prev, len(s), false)
	}
	return out
}

// check asserts that p, and p inverted, find exactly the matches ms in s.
func check(p splitpattern.SplitPattern, s string, ms []span) {
	inverted := sym.Choose(2) == 1
	if inverted {
		p = splitpattern.Invert(p)
	}
	checkAs(p, s, ms, inverted)
}

// checkAs is check where p is inverted already, or not.
func checkAs(p splitpattern.SplitPattern, s string, ms []span, inverted bool) {
	got, err := p.FindMatches(s)
	sym.Assert(err == nil, "finding matches fails")
	at := 0
	for _, c := range got {
		sym.Assert(c.Offsets.Start == at, "captures are not contiguous")
		sym.Assert(c.Offsets.End >= c.Offsets.Start, "captures are not ordered")
		sym.Assert(lib.Boundary(s, c.Offsets.Start) && lib.Boundary(s, c.Offsets.End), "a capture is off character boundaries")
		at = c.Offsets.End
		sym.Observe("capture", c.Offsets.Start, c.Offsets.End, c.IsMatch)
	}
	sym.Assert(at == len(s), "captures do not cover the text")
	want := expected(s, ms, inverted)
	sym.Assert(len(got) == len(want), "wrong number of captures")
	if len(got) != len(want) {
		return
	}
	for i := range want {
		sym.Assert(got[i] == want[i], "wrong capture")
	}
}

func matching(s string, f func(rune) bool) []span {
	var ms []span
	st := lib.Starts(s)
	k := 0
	for _, r := range s {
		if f(r) {
			ms = append(ms, span{st[k], st[k+1]})
		}
		k++
	}
	return ms
}

// H_func: every predicate.
func H_func() {
	s := sym.Text(sym.Choose(lib.Size(5, 6)), lib.Size(3, 4))
	f := func(r rune) bool { return sym.Pred("match", r) }
	check(splitpattern.FromFunc(f), s, matching(s, f))
}

// H_rune: every delimiter.
func H_rune() {
	s := sym.Text(sym.Choose(lib.Size(5, 6)), 3)
	d := sym.RuneW(1 + sym.Choose(lib.Size(3, 4)))
	check(splitpattern.FromRune(d), s, matching(s, func(r rune) bool { return r == d }))
}

// H_rune_invalid: a delimiter that is no character matches nothing.
func H_rune_invalid() {
	d := []rune{-1, 0xd800, 0xdfff, 0x110000, 0x7fffffff, 0xfffd}[sym.Choose(6)]
	s := string(sym.RuneIn(0xfff0, 0xffff)) + string(sym.RuneIn(0, 0x7f))
	if sym.Choose(2) == 1 {
		s = sym.Text(1, 3) + s
	}
	check(splitpattern.FromRune(d), s, matching(s, func(r rune) bool { return r == d }))
}

// H_rune_any: characters of any width.
func H_rune_any() {
	s := sym.Text(lib.Size(2, 3), 4)
	d := sym.AnyRune()
	check(splitpattern.FromRune(d), s, matching(s, func(r rune) bool { return r == d }))
}

// occurrences are found from the left and do not overlap.
func occurrences(s, t string) []span {
	var ms []span
	if len(t) == 0 {
		return nil
	}
	for i := 0; i+len(t) <= len(s); {
		if s[i:i+len(t)] == t {
			ms = append(ms, span{i, i + len(t)})
			i += len(t)
			continue
		}
		i++
	}
	return ms
}

// H_string: every text of few bytes, literals that overlap themselves, are
// special in expressions, or are wide.
func H_string() {
	lits := []string{"", "a", "aa", "aba", ".", "a.", "*", "é", "é–", "\\", "^", "$a", "(", "ab", "a+", "[a]", "\n", "𝔾", "x|y", "{2}"}
	if sym.Quick() {
		lits = lits[:13]
	}
	t := lits[sym.Choose(len(lits))]
	n := sym.Choose(lib.Size(4, 5))
	s := sym.Text(n, 3)
	check(splitpattern.FromString(t), s, occurrences(s, t))
}

// H_string_any: every short literal of few characters in every text of them.
func H_string_any() {
	t := ""
	for n := 1 + sym.Choose(lib.Size(3, 4)); n > 0; n-- {
		t += []string{"a", "b", "é"}[sym.Choose(lib.Size(2, 3))]
	}
	s := ""
	for n := lib.Size(5, 6); n > 0; n-- {
		s += string(sym.RuneIn('a', 'b'))
	}
	if sym.Choose(2) == 1 {
		s = s[:2] + "é" + s[2:]
	}
	check(splitpattern.FromString(t), s, occurrences(s, t))
}

// H_string_planted: the literal's occurrences are planted.
func H_string_planted() {
	lits := []string{"ab", "é–", "aa", "a.b", "▁▁"}
	t := lits[sym.Choose(lib.Size(4, 5))]
	s := ""
	for k := 0; k < lib.Size(3, 4); k++ {
		s += sym.Text(sym.Choose(2), 2)
		if sym.Choose(2) == 1 {
			s += t
		}
	}
	check(splitpattern.FromString(t), s, occurrences(s, t))
}

var exprs = []string{`\s+`, `[a-m]+`, `é|ab`, `a|ab`, `.`, `[^\sa]+`, `a+?b`, `^a`, `b$`, `a*`, `(?:ab)+|–`}

// costly are the expressions whose matching consults large tables.
var costly = []string{`\b`, `(?i)k`, `[^a-z–]+`}

// H_regexp: the standard engine; its own matches tell what is expected.
func H_regexp() {
	k := sym.Choose(len(exprs))
	r := regexp.MustCompile(exprs[k])
	s := sym.Text(sym.Choose(lib.Size(4, 5)), 3)
	var ms []span
	for _, m := range r.FindAllStringIndex(s, -1) {
		ms = append(ms, span{m[0], m[1]})
	}
	check(splitpattern.FromRegexp(r), s, ms)
}

// H_regexp_tables: expressions on Unicode classes.
func H_regexp_tables() {
	r := regexp.MustCompile(costly[sym.Choose(len(costly))])
	s := sym.Text(lib.Size(1, 2), 3)
	if sym.Choose(2) == 1 {
		s = "é" + s + "."
	}
	var ms []span
	for _, m := range r.FindAllStringIndex(s, -1) {
		ms = append(ms, span{m[0], m[1]})
	}
	check(splitpattern.FromRegexp(r), s, ms)
}

// H_regexp_class: an independent definition of the matches of a class.
func H_regexp_class() {
	r := regexp.MustCompile(`[a-mé-ü]+`)
	s := sym.Text(lib.Size(4, 5), 2)
	check(splitpattern.FromRegexp(r), s, runs(s))
}

// H_regexp2_class: the same for the other engine.
func H_regexp2_class() {
	r := regexp2.MustCompile(`[a-mé-ü]+`, regexp2.None)
	s := sym.Text(lib.Size(4, 5), 2)
	check(splitpattern.FromRegexp2(r), s, runs(s))
}

// runs are the maximal stretches of characters in [a-mé-ü].
func runs(s string) []span {
	var ms []span
	for _, m := range matching(s, func(r rune) bool { return r >= 'a' && r <= 'm' || r >= 'é' && r <= 'ü' }) {
		if n := len(ms); n > 0 && ms[n-1].b == m.a {
			ms[n-1].b = m.b
			continue
		}
		ms = append(ms, m)
	}
	return ms
}

var exprs2 = []string{`\s+(?!\S)`, `[a-m]+`, `é|ab`, `.`, `(?<=a)b`, `a+?b`, `^a`, `b$`, `a*`, ` ?[^\sa]+`, `(a)\1`}

var costly2 = []string{`\w+|[^\w\s]+`, `(?i)k`, `\b`, ` ?\p{L}+`}

// matches2 asks the engine, and counts characters to find positions.
func matches2(r *regexp2.Regexp, s string) []span {
	st := lib.Starts(s)
	var ms []span
	m, err := r.FindStringMatch(s)
	sym.Assert(err == nil, "the engine fails")
	for m != nil {
		ms = append(ms, span{st[m.Index], st[m.Index+m.Length]})
		m, err = r.FindNextMatch(m)
		sym.Assert(err == nil, "the engine fails")
	}
	return ms
}

// H_regexp2: the other engine.
func H_regexp2() {
	k := sym.Choose(len(exprs2))
	r := regexp2.MustCompile(exprs2[k], regexp2.None)
	s := sym.Text(sym.Choose(lib.Size(4, 5)), 3)
	check(splitpattern.FromRegexp2(r), s, matches2(r, s))
}

// H_regexp2_tables: expressions on Unicode classes.
func H_regexp2_tables() {
	r := regexp2.MustCompile(costly2[sym.Choose(len(costly2))], regexp2.None)
	s := sym.Text(lib.Size(1, 2), 3)
	if sym.Choose(2) == 1 {
		s = "é" + s + "."
	}
	check(splitpattern.FromRegexp2(r), s, matches2(r, s))
}

// H_regexp2_rtl: matches found from the end come in text order all the same.
func H_regexp2_rtl() {
	es := []string{`[a-m]+`, `é|ab`, `.`, `ab|a`, `a+?b`}
	r := regexp2.MustCompile(es[sym.Choose(lib.Size(4, 5))], regexp2.RightToLeft)
	s := ""
	if sym.Choose(2) == 0 {
		s = sym.Text(sym.Choose(lib.Size(4, 5)), 2)
	} else {
		s = "ab é" + sym.Text(1, 2) + "abéab.abb"
	}
	ms := matches2(r, s)
	for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
		ms[i], ms[j] = ms[j], ms[i]
	}
	check(splitpattern.FromRegexp2(r), s, ms)
}

// H_long: texts longer than any internal buffer.
func H_long() {
	pads := lib.Pads()
	long(lib.Fill(pads[sym.Choose(len(pads))]), 3)
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() {
	s := lib.Filler(lib.Huge()) + sym.Text(1, 1) + "–" + "xy"
	f := func(r rune) bool { return r == '–' }
	ms := matching(s, f)
	switch sym.Choose(5) {
	case 0:
		check(splitpattern.FromFunc(f), s, ms)
	case 1:
		check(splitpattern.FromRune('–'), s, ms)
	case 2:
		check(splitpattern.FromString("–"), s, ms)
	case 3:
		check(splitpattern.FromRegexp(regexp.MustCompile("–")), s, ms)
	case 4:
		check(splitpattern.FromRegexp2(regexp2.MustCompile("–", regexp2.None)), s, ms)
	}
}

func long(pad string, maxw int) {
	s := pad + sym.Text(1, maxw) + "–" + sym.Text(1, 2) + pad
	f := func(r rune) bool { return r == '–' || r == 'q' }
	ms := matching(s, f)
	switch sym.Choose(4) {
	case 0:
		check(splitpattern.FromFunc(f), s, ms)
	case 3:
		check(splitpattern.FromRegexp2(regexp2.MustCompile(`[–q]`, regexp2.RightToLeft)), s, ms)
	case 1:
		check(splitpattern.FromRegexp(regexp.MustCompile(`[–q]`)), s, ms)
	case 2:
		check(splitpattern.FromRegexp2(regexp2.MustCompile(`[–q]`, regexp2.None)), s, ms)
	}
}

// H_siblings: several patterns of a kind, made and used one after the other.
func H_siblings() {
	s := sym.Text(2, 2)
	var a, b splitpattern.SplitPattern
	var ma, mb []span
	switch sym.Choose(4) {
	case 0:
		d, e := sym.RuneW(1+sym.Choose(3)), sym.RuneW(1+sym.Choose(3))
		a, b = splitpattern.FromRune(d), splitpattern.FromRune(e)
		ma, mb = matching(s, func(r rune) bool { return r == d }), matching(s, func(r rune) bool { return r == e })
	case 1:
		lits := []string{"a", "é", "ab", "b"}
		t, u := lits[sym.Choose(4)], lits[sym.Choose(4)]
		a, b = splitpattern.FromString(t), splitpattern.FromString(u)
		ma, mb = occurrences(s, t), occurrences(s, u)
	case 2:
		f := func(r rune) bool { return sym.Pred("one", r) }
		g := func(r rune) bool { return sym.Pred("other", r) }
		a, b = splitpattern.FromFunc(f), splitpattern.FromFunc(g)
		ma, mb = matching(s, f), matching(s, g)
	case 3:
		a, b = splitpattern.FromRegexp(regexp.MustCompile("[a-m]")), splitpattern.FromRegexp(regexp.MustCompile("[k-zé]"))
		ma = matching(s, func(r rune) bool { return r >= 'a' && r <= 'm' })
		mb = matching(s, func(r rune) bool { return r >= 'k' && r <= 'z' || r == 'é' })
	}
	check(a, s, ma)
	check(b, s, mb)
	check(a, s, ma)
}

// H_inverted: patterns inverted several times.
func H_inverted() {
	s := sym.Text(sym.Choose(lib.Size(4, 5)), 2)
	var p splitpattern.SplitPattern
	var ms []span
	switch sym.Choose(3) {
	case 0:
		f := func(r rune) bool { return sym.Pred("match", r) }
		p, ms = splitpattern.FromFunc(f), matching(s, f)
	case 1:
		d := sym.RuneW(1 + sym.Choose(2))
		p, ms = splitpattern.FromRune(d), matching(s, func(r rune) bool { return r == d })
	case 2:
		p, ms = splitpattern.FromString("aé"), occurrences(s, "aé")
	}
	n := []int{0, 1, 2, 3, 8, 9}[sym.Choose(6)]
	for i := 0; i < n; i++ {
		p = splitpattern.Invert(p)
	}
	checkAs(p, s, ms, n%2 == 1)
}
