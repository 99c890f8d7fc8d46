// Package c11: lower-case, strip and sequence normalizers.
package c11

import (
	"unicode"

	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/lowercasenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/stripnormalizer"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

func lowered(cs []lib.Ch) []lib.Ch {
	out := make([]lib.Ch, len(cs))
	for i, c := range cs {
		out[i] = lib.With(c, unicode.ToLower(c.R))
	}
	return out
}

func stripped(cs []lib.Ch, left, right bool) []lib.Ch {
	for left && len(cs) > 0 && unicode.Is(unicode.White_Space, cs[0].R) {
		cs = cs[1:]
	}
	for right && len(cs) > 0 && unicode.Is(unicode.White_Space, cs[len(cs)-1].R) {
		cs = cs[:len(cs)-1]
	}
	return cs
}

func run(n normalizers.Normalizer, ns *normalizedstring.NormalizedString) {
	sym.Assert(n.Normalize(ns) == nil, "normalization fails")
}

// H_lower: every character; lowering again changes nothing.
func H_lower() {
	s := string(lib.BlockRune())
	ns := normalizedstring.FromString(s)
	n := lowercasenormalizer.NewLowerCaseNormalizer()
	run(n, ns)
	want := lowered(lib.Chars(s))
	lib.Check(ns, want, s, "lower-casing")
	run(n, ns)
	lib.Check(ns, want, s, "lower-casing twice")
}

// H_lower_more: several characters.
func H_lower_more() {
	s := string(lib.CasedRune()) + string(lib.CasedRune())
	if !sym.Quick() {
		s += string(lib.CasedRune())
	}
	ns := normalizedstring.FromString(s)
	run(lowercasenormalizer.NewLowerCaseNormalizer(), ns)
	lib.Check(ns, lowered(lib.Chars(s)), s, "lower-casing")
}

// H_strip: every configuration; stripping again changes nothing.
func H_strip() {
	s := sym.Text(sym.Choose(lib.Size(4, 5)), 3)
	ns := normalizedstring.FromString(s)
	left, right := sym.Choose(2) == 1, sym.Choose(2) == 1
	n := stripnormalizer.NewStripNormalizer(left, right)
	run(n, ns)
	want := stripped(lib.Chars(s), left, right)
	lib.Check(ns, want, s, "stripping")
	run(n, ns)
	lib.Check(ns, want, s, "stripping twice")
}

// H_strip_spaces: many spaces around.
func H_strip_spaces() {
	sp := []string{"", " ", "\u3000\t", "\u2028 \u00a0", "\u200b"}
	s := sp[sym.Choose(5)] + sym.Text(sym.Choose(lib.Size(3, 4)), 3) + sp[sym.Choose(5)]
	ns := normalizedstring.FromString(s)
	left, right := sym.Choose(2) == 1, sym.Choose(2) == 1
	run(stripnormalizer.NewStripNormalizer(left, right), ns)
	lib.Check(ns, stripped(lib.Chars(s), left, right), s, "stripping")
}

// H_edited: texts edited before.
func H_edited() {
	if sym.Choose(2) == 0 {
		ns, cs, s := lib.Reachable(1, 2)
		run(lowercasenormalizer.NewLowerCaseNormalizer(), ns)
		lib.Check(ns, lowered(cs), s, "edited text")
	} else {
		ns, cs, s := lib.Reachable(sym.Choose(3), 2)
		left, right := sym.Choose(2) == 1, sym.Choose(2) == 1
		run(stripnormalizer.NewStripNormalizer(left, right), ns)
		lib.Check(ns, stripped(cs, left, right), s, "edited text")
	}
}

type failure struct{ n int }

func (failure) Error() string { return "member failure" }

// member records when and on what it runs, and fails if told to.
type member struct {
	id   int
	log  *[]int
	on   *[]*normalizedstring.NormalizedString
	fail error
	edit int // 1: appends its number, 2: removes everything
}

func (m *member) Normalize(ns *normalizedstring.NormalizedString) error {
	*m.log = append(*m.log, m.id)
	*m.on = append(*m.on, ns)
	switch m.edit {
	case 1:
		ns.Append(string(rune('0' + m.id)))
	case 2:
		ns.Filter(func(rune) bool { return false })
	}
	return m.fail
}

// H_sequence: every length, every failing member.
func H_sequence() { sequence(lib.Size(5, 7), 2, false) }

// H_sequence_emptied: with members that leave nothing of the text.
func H_sequence_emptied() { sequence(lib.Size(4, 6), 3, false) }

// H_sequence_nested: some of the members in a sequence of their own.
func H_sequence_nested() { sequence(lib.Size(4, 5), 2, true) }

func sequence(most, kinds int, nested bool) {
	n := sym.Choose(most)
	var log []int
	var on []*normalizedstring.NormalizedString
	var list []normalizers.Normalizer
	first := -1
	var want error
	s := "é" + sym.Text(1, 2)
	if kinds > 2 && sym.Choose(2) == 1 {
		s = ""
	}
	text := s
	for i := 0; i < n; i++ {
		m := &member{id: i, log: &log, on: &on, edit: sym.Choose(kinds)}
		if sym.Bool() {
			m.fail = failure{i}
			if first < 0 {
				first, want = i, m.fail
			}
		}
		if first < 0 || first == i {
			switch {
			case m.edit == 1 && text != "": // nothing is appended to nothing
				text += string(rune('0' + i))
			case m.edit == 2:
				text = ""
			}
		}
		list = append(list, m)
	}
	ns := normalizedstring.FromString(s)
	seq := sequencenormalizer.NewSequenceNormalizer(list)
	if nested {
		i := sym.Choose(n + 1)
		j := i + sym.Choose(n+1-i)
		inner := sequencenormalizer.NewSequenceNormalizer(append([]normalizers.Normalizer(nil), list[i:j]...))
		if sym.Choose(2) == 1 {
			inner = sequencenormalizer.NewSequenceNormalizer([]normalizers.Normalizer{inner})
		}
		outer := append(append([]normalizers.Normalizer(nil), list[:i]...), inner)
		seq = sequencenormalizer.NewSequenceNormalizer(append(outer, list[j:]...))
	}
	got := seq.Normalize(ns)
	sym.Assert(got == want || want != nil && lib.Is(got, want), "not the first error")
	ran := n
	if first >= 0 {
		ran = first + 1
		sym.Reach("failing member")
	}
	sym.Assert(len(log) == ran, "wrong number of members run")
	for i := range log {
		sym.Assert(log[i] == i, "members run out of order")
		sym.Assert(on[i] == ns, "members run on another string")
	}
	sym.Assert(ns.Get() == text, "wrong text")
	sym.Observe("log", log, ns.Get())
}

// H_sequence_real: the normalizers together, in either order, nested.
func H_sequence_real() {
	s := ""
	for k := 0; k < lib.Size(2, 3); k++ {
		s += string([]rune{sym.RuneIn(0, 'z'), sym.RuneIn(0x1fe0, 0x2012), sym.RuneIn(0x100, 0x14f)}[sym.Choose(3)])
	}
	ns := normalizedstring.FromString(s)
	lower := lowercasenormalizer.NewLowerCaseNormalizer()
	strip := stripnormalizer.NewStripNormalizer(true, false)
	list := []normalizers.Normalizer{lower, strip}
	if sym.Choose(2) == 1 {
		list = []normalizers.Normalizer{strip, lower}
	}
	var seq normalizers.Normalizer = sequencenormalizer.NewSequenceNormalizer(list)
	if sym.Choose(2) == 1 {
		seq = sequencenormalizer.NewSequenceNormalizer([]normalizers.Normalizer{seq, stripnormalizer.NewStripNormalizer(false, true)})
		run(seq, ns)
		lib.Check(ns, stripped(lowered(lib.Chars(s)), true, true), s, "nested sequence")
		return
	}
	run(seq, ns)
	lib.Check(ns, stripped(lowered(lib.Chars(s)), true, false), s, "sequence")
}

// H_sequence_again: members that are in the sequence more than once.
func H_sequence_again() {
	var log []int
	var on []*normalizedstring.NormalizedString
	members := []*member{{id: 0, log: &log, on: &on, edit: 1}, {id: 1, log: &log, on: &on, edit: 1}}
	n := lib.Size(4, 6)
	var list []normalizers.Normalizer
	var order []int
	s := sym.Text(1, 2)
	want := s
	inner := sequencenormalizer.NewSequenceNormalizer([]normalizers.Normalizer{members[0], members[0]})
	for i := 0; i < n; i++ {
		switch sym.Choose(3) {
		case 0:
			list = append(list, members[0])
			order = append(order, 0)
			want += "0"
		case 1:
			list = append(list, members[1])
			order = append(order, 1)
			want += "1"
		default:
			list = append(list, inner)
			order = append(order, 0, 0)
			want += "00"
		}
	}
	ns := normalizedstring.FromString(s)
	run(sequencenormalizer.NewSequenceNormalizer(list), ns)
	sym.Assert(len(log) == len(order), "wrong number of members run")
	for i := range log {
		sym.Assert(log[i] == order[i], "members run out of order")
		sym.Assert(on[i] == ns, "members run on another string")
	}
	sym.Assert(ns.Get() == want, "wrong text")
}

// H_sequence_same: the same normalizer before and after one that undoes it.
func H_sequence_same() {
	lower := lowercasenormalizer.NewLowerCaseNormalizer()
	strip := stripnormalizer.NewStripNormalizer(true, true)
	list := []normalizers.Normalizer{strip, lower, &prefixer{}, strip, lower}
	s := string(sym.RuneIn(0, 'z')) + string(sym.RuneIn('A', 'z'))
	ns := normalizedstring.FromString(s)
	run(sequencenormalizer.NewSequenceNormalizer(list), ns)
	cs := stripped(lowered(lib.Chars(s)), true, true)
	want := ""
	if len(cs) > 0 { // nothing is prepended to nothing
		want = "q" + lib.Join(cs)
	}
	sym.Assert(ns.Get() == want, "wrong text")
}

// prefixer puts something in front that is neither stripped nor lower-case.
type prefixer struct{}

func (prefixer) Normalize(ns *normalizedstring.NormalizedString) error {
	ns.Prepend(" \tQ")
	return nil
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() {
	s := " \u3000É" + lib.Filler(lib.Huge()) + sym.Text(1, 2) + "B \t"
	if sym.Choose(2) == 0 {
		s = lib.FillOf(1, lib.Huge()) + "é" + sym.Text(1, 1) + " b "
	}
	ns := normalizedstring.FromString(s)
	run(stripnormalizer.NewStripNormalizer(true, true), ns)
	want := stripped(lib.Chars(s), true, true)
	if s[1] != ' ' {
		run(lowercasenormalizer.NewLowerCaseNormalizer(), ns)
		want = lowered(want)
	}
	lib.Check(ns, want, s, "huge text")
}

// H_siblings: several normalizers made one after the other.
func H_siblings() {
	s := sym.Text(lib.Size(1, 2), 2) + "É" + sym.Text(lib.Size(1, 2), 2)
	var sides [3][2]bool
	var ns [3]normalizers.Normalizer
	for i := range ns {
		sides[i] = [2]bool{sym.Choose(2) == 1, sym.Choose(2) == 1}
		ns[i] = stripnormalizer.NewStripNormalizer(sides[i][0], sides[i][1])
	}
	for i, n := range ns {
		x := normalizedstring.FromString(s)
		run(n, x)
		lib.Check(x, stripped(lib.Chars(s), sides[i][0], sides[i][1]), s, "stripping by one of several")
	}
}

// H_sequence_many: many members, one of which may fail, in nested sequences.
func H_sequence_many() {
	n := []int{9, 17, 33, 70}[sym.Choose(4)]
	bad := sym.Choose(n + 1)
	deep := sym.Choose(2) == 1
	s := "é" + sym.Text(1, 2)
	var log []int
	var on []*normalizedstring.NormalizedString
	ns := normalizedstring.FromString(s)
	var list []normalizers.Normalizer
	for i := n - 1; i >= 0; i-- {
		m := &member{id: i, log: &log, on: &on}
		if i == bad {
			m.fail = failure{i}
		}
		list = append([]normalizers.Normalizer{m}, list...)
		if deep {
			list = []normalizers.Normalizer{sequencenormalizer.NewSequenceNormalizer(list)}
		}
	}
	got := sequencenormalizer.NewSequenceNormalizer(list).Normalize(ns)
	ran := n
	if bad < n {
		ran = bad + 1
		sym.Assert(lib.Is(got, failure{bad}), "the error is lost")
	} else {
		sym.Assert(got == nil, "an error without a failing member")
	}
	sym.Assert(len(log) == ran, "wrong number of members run")
	for i := range log {
		sym.Assert(log[i] == i && on[i] == ns, "members run out of order")
	}
	sym.Observe("log", len(log), ns.Get())
}
