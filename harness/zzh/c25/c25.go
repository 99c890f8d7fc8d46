// Package c25: byte positions and character positions.
package c25

import (
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

func boundary(s string) {
	i := sym.Int(-1<<40, 1<<40)
	got := strutils.IsRuneBoundary(s, i)
	want := false
	for p := range s {
		if p == i {
			want = true
		}
	}
	if i == len(s) || i == 0 {
		want = true
	}
	sym.Observe("boundary", got)
	sym.Assert(got == want, "IsRuneBoundary is wrong")
	if got {
		sym.Reach("boundary")
	} else {
		sym.Reach("no boundary")
	}
}

// H_boundary: every text of up to n characters, every index.
func H_boundary() {
	n := sym.Choose(lib.Size(4, 6))
	boundary(sym.Text(n, 4))
}

// H_boundary_long: a character next to filler of every length of interest.
func H_boundary_long() {
	ps := lib.Pads()
	p := ps[sym.Choose(len(ps))]
	boundary(lib.Filler(p) + sym.Text(2, 4) + lib.Filler(2))
}

func convert(s string, n int, starts []int) {
	c := strutils.NewBytesToRuneOffsetConverter(s)
	i := sym.Choose(len(starts))
	j := i + sym.Choose(len(starts)-i)
	got := c.Convert(strutils.ByteOffsets{Start: starts[i], End: starts[j]})
	sym.Observe("convert", got.Start, got.End)
	sym.Assert(got.Start == i, "start is not the number of characters before it")
	sym.Assert(got.End == j, "end is not the number of characters before it")
	if i == j {
		sym.Reach("empty range")
	}
	if j == len(starts)-1 {
		sym.Reach("range up to the end")
	}
}

// H_convert: every text, every pair of character boundaries.
func H_convert() {
	n := sym.Choose(lib.Size(4, 6))
	s := sym.Text(n, 4)
	convert(s, n, lib.Starts(s))
}

// H_convert_twice: one converter serves several ranges.
func H_convert_twice() {
	s := sym.Text(3, 4)
	st := lib.Starts(s)
	c := strutils.NewBytesToRuneOffsetConverter(s)
	a := c.Convert(strutils.ByteOffsets{Start: st[1], End: st[2]})
	b := c.Convert(strutils.ByteOffsets{Start: st[0], End: st[3]})
	d := c.Convert(strutils.ByteOffsets{Start: st[1], End: st[2]})
	sym.Assert(a == d, "the same range converts differently the second time")
	sym.Assert(a.Start == 1 && a.End == 2 && b.Start == 0 && b.End == 3, "wrong conversion")
}

// H_convert_long: long texts.
func H_convert_long() {
	ps := lib.Pads()
	p := ps[sym.Choose(len(ps))]
	s := lib.Fill(p) + sym.Text(2, 4) + lib.Filler(3)
	st := lib.Starts(s)
	lo := p - 1
	if lo < 0 {
		lo = 0
	}
	c := strutils.NewBytesToRuneOffsetConverter(s)
	i := lo + sym.Choose(len(st)-lo)
	j := i + sym.Choose(len(st)-i)
	got := c.Convert(strutils.ByteOffsets{Start: st[i], End: st[j]})
	sym.Observe("convert", got.Start, got.End)
	sym.Assert(got.Start == i && got.End == j, "wrong conversion in a long text")
	if i > 0 {
		k := sym.Choose(2) * (i / 2)
		got = c.Convert(strutils.ByteOffsets{Start: st[k], End: st[i]})
		sym.Assert(got.Start == k && got.End == i, "wrong conversion in a long text")
	}
}

// H_huge: texts longer than sixteen bits can count.
func H_huge() {
	n := lib.Huge()
	s := lib.Filler(n) + sym.Text(2, 4) + "éb"
	c := strutils.NewBytesToRuneOffsetConverter(s)
	from := []int{0, 65535, 65536, n}
	at := n
	for k := range s[n:] {
		a := from[at%4]
		got := c.Convert(strutils.ByteOffsets{Start: a, End: n + k})
		sym.Assert(got.Start == a && got.End == at, "wrong conversion in a huge text")
		at++
	}
	got := c.Convert(strutils.ByteOffsets{Start: 65536, End: len(s)})
	sym.Assert(got.Start == 65536 && got.End == at, "wrong conversion in a huge text")
	sym.Assert(strutils.IsRuneBoundary(s, 65536) && !strutils.IsRuneBoundary(s, len(s)-2) && !strutils.IsRuneBoundary(s, len(s)+1), "IsRuneBoundary is wrong")
	i := n - 1 + sym.Choose(14)
	sym.Assert(strutils.IsRuneBoundary(s, i) == lib.Boundary(s, i), "IsRuneBoundary is wrong")
}

// H_convert_many: one converter serves many ranges.
func H_convert_many() {
	s := sym.Text(2, 4) + "aé▁" + sym.Text(1, 4)
	st := lib.Starts(s)
	c := strutils.NewBytesToRuneOffsetConverter(s)
	for k := 0; k < lib.Size(40, 300); k++ {
		i := k * 5 % len(st)
		j := i + k*3%(len(st)-i)
		x := c.Convert(strutils.ByteOffsets{Start: st[i], End: st[j]})
		sym.Assert(x.Start == i && x.End == j, "wrong conversion")
	}
}
