package lib

import (
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// History applies the edits from to from+n-1 of a fixed endless list to ns,
// whose characters are cs, and gives the characters it should have then.
func History(ns *normalizedstring.NormalizedString, cs []Ch, from, n int) []Ch {
	prepend := func(t string) {
		ns.Prepend(t)
		if len(cs) > 0 {
			cs = Concat(Inserted(t, cs[0].S, cs[0].E), cs)
		}
	}
	add := func(t string) {
		ns.Append(t)
		if len(cs) > 0 {
			l := cs[len(cs)-1]
			cs = Concat(cs, Inserted(t, l.S, l.E))
		}
	}
	for k := from; k < from+n; k++ {
		switch k % 6 {
		case 0:
			prepend("é ")
		case 1:
			add("▁x")
		case 2:
			d, t := []rune{'é', 'x', '▁'}[k/6%3], []string{"ab", "", "–"}[k/18%3]
			err := ns.Replace(splitpattern.FromRune(d), t)
			sym.Assert(err == nil, "Replace failed")
			var out []Ch
			for _, c := range cs {
				if c.R == d {
					out = append(out, Inserted(t, c.S, c.E)...)
				} else {
					out = append(out, c)
				}
			}
			cs = out
		case 3:
			keep := func(r rune) bool { return r != 'a' && r != ' ' }
			ns.Filter(keep)
			var out []Ch
			for _, c := range cs {
				if keep(c.R) {
					out = append(out, c)
				}
			}
			cs = out
		case 4:
			f := func(r rune) rune {
				switch r {
				case 'b':
					return 'á'
				case '–':
					return 'b'
				}
				return r
			}
			ns.Map(f)
			out := make([]Ch, len(cs))
			for i, c := range cs {
				out[i] = With(c, f(c.R))
			}
			cs = out
		case 5:
			t := string(rune('0' + k%10))
			prepend(t)
			add(t)
		}
	}
	return cs
}
