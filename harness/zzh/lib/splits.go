package lib

import (
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// Check asserts that the splits of pts are exactly the parts of a text whose
// root is root.
func CheckSplits(pts *pretokenizedstring.PreTokenizedString, parts [][]Ch, root string, what string) {
	obs := pts.GetOriginalByteSplits()
	nbs := pts.GetNormalizedByteSplits()
	for _, b := range obs {
		sym.Observe("split", b.String, b.Offsets.Start, b.Offsets.End)
	}
	sym.Assert(len(obs) == len(parts), what+": wrong number of pieces")
	sym.Assert(len(nbs) == len(obs) && len(pts.Splits()) == len(obs), what+": lists of different lengths")
	if len(obs) != len(parts) {
		return
	}
	at := 0
	for k, part := range parts {
		text := Join(part)
		sym.Assert(obs[k].String == text, what+": wrong text of a piece")
		o := obs[k].Offsets
		sym.Assert(o.Start >= 0 && o.Start <= o.End && o.End <= len(root), what+": offsets outside the text")
		if len(part) > 0 {
			sym.Assert(o.Start == part[0].S && o.End == part[len(part)-1].E, what+": wrong original offsets of a piece")
		}
		sym.Assert(nbs[k].String == text, what+": wrong normalized text of a piece")
		sym.Assert(nbs[k].Offsets.Start == at && nbs[k].Offsets.End == at+len(text), what+": wrong normalized offsets of a piece")
		at += len(text)
		sym.Assert(obs[k].Tokens == nil && nbs[k].Tokens == nil, what+": tokens appear")
		ns := pts.Splits()[k].NormalizedString
		sym.Assert(ns.Get() == text, what+": wrong text of a split")
		sym.Assert(ns.GetOriginal() == root[o.Start:o.End], what+": the original of a split is not the text at its offsets")
		sym.Assert(Aligned(ns, part, o.Start), what+": wrong alignment in a piece")
	}
}
