package lib

import (
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// Table is a vocabulary as a list: the id of a term is its place.
type Table []string

// ID is the place of s, or -1.
func (t Table) ID(s string) int {
	for i, x := range t {
		if x == s {
			return i
		}
	}
	return -1
}

// Add appends a term unless it is there already.
func (t Table) Add(ss ...string) Table {
	for _, s := range ss {
		if t.ID(s) < 0 {
			t = append(t, s)
		}
	}
	return t
}

// hole stands where no term has the id.
const hole = "\x00hole"

// Vocabulary is the table as a vocabulary.  A table with holes is loaded from a
// file.
func (t Table) Vocabulary() *vocabulary.Vocabulary {
	var terms []string
	var ids []int
	for i, s := range t {
		if s != hole {
			terms = append(terms, s)
			ids = append(ids, i)
		}
	}
	if len(terms) < len(t) {
		v, err := vocabulary.FromJSONFile(sym.VocabFile(terms, ids))
		if err != nil {
			panic(err)
		}
		return v
	}
	v := vocabulary.NewVocabulary()
	for _, s := range t {
		v.AddTerm(s)
	}
	return v
}

// Spread gives the terms other ids, with holes, the last ones first.
func (t Table) Spread(gap int) Table {
	out := make(Table, (len(t)+1)*gap)
	for i := range out {
		out[i] = hole
	}
	for i, s := range t {
		out[(len(t)-i)*gap] = s
	}
	return out
}

// Sym is a symbol of a word, or one of its tokens.
type Sym struct{ ID, Start, End int }

// Rule is a merge.
type Rule struct{ A, B, Rank, ID int }

// Rules is a merge table; of rules for the same pair the last one counts.
type Rules []Rule

// Spread gives a table and its rules other ids, as in a loaded vocabulary.
func Spread(t Table, rs Rules, gap int) (Table, Rules) {
	id := func(i int) int { return (len(t) - i) * gap }
	var out Rules
	for _, r := range rs {
		out = append(out, Rule{A: id(r.A), B: id(r.B), Rank: r.Rank, ID: id(r.ID)})
	}
	return t.Spread(gap), out
}

// Of gives the rule for a pair, or nil.
func (rs Rules) Of(a, b int) *Rule {
	for i := len(rs) - 1; i >= 0; i-- {
		if rs[i].A == a && rs[i].B == b {
			return &rs[i]
		}
	}
	return nil
}

// Map is the table as the model takes it.
func (rs Rules) Map() *bpemodel.MergeMap {
	m := bpemodel.NewMergeMap()
	for _, r := range rs {
		m.Set(r.A, r.B, bpemodel.MergeValue{Rank: r.Rank, ID: r.ID})
	}
	return m
}

// Naive applies the merge of lowest rank, leftmost first, until none applies.
func Naive(ss []Sym, rs Rules) []Sym {
	out := append([]Sym(nil), ss...)
	for {
		best := -1
		var rule Rule
		for i := 0; i+1 < len(out); i++ {
			if r := rs.Of(out[i].ID, out[i+1].ID); r != nil {
				if best < 0 || r.Rank < rule.Rank {
					best, rule = i, *r
				}
			}
		}
		if best < 0 {
			return out
		}
		out[best] = Sym{rule.ID, out[best].Start, out[best+1].End}
		out = append(out[:best+1], out[best+2:]...)
	}
}

// Config is how a BPE model is set up.
type Config struct {
	Unk, Prefix, Suffix string
	Fuse                bool
	Dropout             float64
}

// Model is the model of a table, rules and configuration.
func Model(t Table, rs Rules, c Config) *bpemodel.BPEModel {
	return bpemodel.New(t.Vocabulary(), rs.Map(), 100, c.Dropout, c.Unk, c.Prefix, c.Suffix, c.Fuse)
}

// Initial gives the symbols of a word before merging; missing is whether the
// unknown token is not a term, lost whether some character is not there at all.
func Initial(t Table, c Config, word string) (ss []Sym, missing, lost bool) {
	if c.Unk != "" && t.ID(c.Unk) < 0 {
		return nil, true, false
	}
	ps := Starts(word)
	wasUnk := false
	for i := 0; i+1 < len(ps); i++ {
		s := word[ps[i]:ps[i+1]]
		if i > 0 {
			s = c.Prefix + s
		}
		if i+2 == len(ps) {
			s += c.Suffix
		}
		id := t.ID(s)
		switch {
		case id >= 0:
			ss = append(ss, Sym{id, ps[i], ps[i+1]})
		case c.Unk == "":
			lost = true
			continue
		case wasUnk && c.Fuse:
			ss[len(ss)-1].End = ps[i+1]
		default:
			ss = append(ss, Sym{t.ID(c.Unk), ps[i], ps[i+1]})
		}
		wasUnk = id < 0
	}
	return ss, false, lost
}

// SameTokens asserts that the tokens are exactly want.
func SameTokens(t Table, got []models.Token, want []Sym) {
	sym.Observe("tokens", got)
	sym.Assert(len(got) == len(want), "wrong number of tokens")
	if len(got) != len(want) {
		return
	}
	for i, w := range want {
		sym.Assert(got[i].Offsets.Start == w.Start && got[i].Offsets.End == w.End, "wrong offsets of a token")
		sym.Assert(got[i].ID == w.ID, "wrong id of a token")
		sym.Assert(got[i].Value == t[w.ID], "the value of a token is not the term of its id")
	}
}
