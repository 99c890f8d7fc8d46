package lib

import (
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// Wide is a table as a vocabulary with ids of any size and sign, one of them
// arbitrary; ids are those of its places.
func (t Table) Wide() (v *vocabulary.Vocabulary, ids []int) {
	kind := sym.Choose(5)
	for i := range t {
		ids = append(ids, []int{(i + 1) << 32, -1 - i, i + (i%3)<<32, (3 - i) << 40, i<<16 - 1}[kind])
	}
	at := sym.Choose(len(t))
	x := sym.Int(-1<<40, 1<<40)
	for i, id := range ids {
		sym.Assume(i == at || id != x)
	}
	ids[at] = x
	v, err := vocabulary.FromJSONFile(sym.VocabFile(t, ids))
	if err != nil {
		panic(err)
	}
	return v, ids
}

// WideRules gives the rules the ids of the places.
func WideRules(rs Rules, ids []int) Rules {
	var out Rules
	for _, r := range rs {
		out = append(out, Rule{A: ids[r.A], B: ids[r.B], Rank: r.Rank, ID: ids[r.ID]})
	}
	return out
}

// Narrow gives the tokens of a model the places of their ids.
type Narrow struct {
	Model models.Model
	IDs   []int
}

// Tokenize gives -99 to an id of no place.
func (n Narrow) Tokenize(word string) ([]models.Token, error) {
	got, err := n.Model.Tokenize(word)
	var out []models.Token
	for _, t := range got {
		at := -99
		for i, id := range n.IDs {
			if id == t.ID {
				at = i
			}
		}
		t.ID = at
		out = append(out, t)
	}
	return out, err
}

// WideModel is a model of a table with ids of any size and sign.
func WideModel(t Table, rs Rules, c Config) Narrow {
	v, ids := t.Wide()
	return Narrow{bpemodel.New(v, WideRules(rs, ids).Map(), 100, c.Dropout, c.Unk, c.Prefix, c.Suffix, c.Fuse), ids}
}
