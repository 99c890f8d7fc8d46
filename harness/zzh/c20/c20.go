// Package c20: the vocabulary is a two-way association under any history.
package c20

import (
	"strconv"

	"github.com/nlpodyssey/gotokenizers/vocabulary"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// history is what went into a vocabulary: loaded terms with their ids, and
// added terms (id -1, found out at the first look).
type history struct {
	terms []string
	ids   []int
}

func (h *history) find(s string) int {
	for i, t := range h.terms {
		if t == s {
			return i
		}
	}
	return -1
}

// check looks everything up.
func (h *history) check(v *vocabulary.Vocabulary) {
	sym.Assert(v.Size() == len(h.terms), "the size is not the number of distinct terms")
	for i, t := range h.terms {
		id, ok := v.GetID(t)
		sym.Observe("id", id)
		sym.Assert(ok, "a term is not found")
		if h.ids[i] < 0 {
			h.ids[i] = id
			sym.Assert(id >= 0, "a negative id for an added term")
		} else {
			sym.Assert(id == h.ids[i], "the id of a term changes")
		}
		s, ok := v.GetString(id)
		sym.Assert(ok && s == t, "the id of a term gives another one")
		for k := 0; k < i; k++ {
			sym.Assert(h.ids[k] != id, "two terms have the same id")
		}
	}
}

// add adds a term and checks the new vocabulary.
func (h *history) add(v *vocabulary.Vocabulary, s string) {
	v.AddTerm(s)
	if h.find(s) < 0 {
		h.terms = append(h.terms, s)
		h.ids = append(h.ids, -1)
	}
	h.check(v)
}

// absent looks up what is not there.
func (h *history) absent(v *vocabulary.Vocabulary) {
	s := sym.Text(sym.Choose(3), 2)
	if h.find(s) < 0 {
		_, ok := v.GetID(s)
		sym.Assert(!ok, "an absent term is found")
	}
	id := sym.Int(-3, 12)
	for _, x := range h.ids {
		if x == id {
			return
		}
	}
	_, ok := v.GetString(id)
	sym.Assert(!ok, "an absent id is found")
}

// H_adds: any terms into an empty vocabulary get the ids from 0 on.
func H_adds() {
	v := vocabulary.NewVocabulary()
	h := &history{}
	for k := 0; k < lib.Size(4, 5); k++ {
		h.add(v, sym.Text(sym.Choose(3), 1))
		for i, id := range h.ids {
			sym.Assert(id == i, "the ids of added terms are not consecutive from 0")
		}
	}
	h.absent(v)
}

// H_wide: terms of any characters.
func H_wide() {
	v := vocabulary.NewVocabulary()
	h := &history{}
	for k := 0; k < 3; k++ {
		h.add(v, sym.Text(1+sym.Choose(lib.Size(1, 2)), 4))
	}
	h.absent(v)
}

// H_loaded: a file with any distinct ids, then additions.
func H_loaded() {
	var terms []string
	var ids []int
	n := sym.Choose(lib.Size(3, 4))
	for k := 0; k < n; k++ {
		t := []string{"a", "bé", "", "d"}[k]
		id := sym.Int(0, lib.Size(4, 5))
		for _, x := range ids {
			sym.Assume(x != id)
		}
		terms, ids = append(terms, t), append(ids, id)
	}
	v, err := vocabulary.FromJSONFile(sym.VocabFile(terms, ids))
	sym.Assert(err == nil, "loading fails")
	if err != nil {
		return
	}
	h := &history{append([]string(nil), terms...), append([]int(nil), ids...)}
	h.check(v)
	for k := 0; k < 2; k++ {
		h.add(v, sym.Text(sym.Choose(2), 1)+[]string{"", "x"}[sym.Choose(2)])
	}
	h.absent(v)
}

// H_terms: any distinct terms in a file, with far apart and negative ids.
func H_terms() {
	ids := []int{-1, 1, 1 << 40}
	var terms []string
	for range ids {
		t := sym.Text(sym.Choose(3), 2)
		for _, x := range terms {
			sym.Assume(x != t)
		}
		terms = append(terms, t)
	}
	v, err := vocabulary.FromJSONFile(sym.VocabFile(terms, ids))
	sym.Assert(err == nil, "loading fails")
	if err != nil {
		return
	}
	for i, t := range terms {
		id, ok := v.GetID(t)
		sym.Assert(ok && id == ids[i], "a loaded term has another id")
		s, ok := v.GetString(ids[i])
		sym.Assert(ok && s == t, "the id of a loaded term gives another one")
	}
	sym.Assert(v.Size() == 3, "the size is not the number of terms")
	x := sym.Text(1, 2)
	v.AddTerm(x)
	id, ok := v.GetID(x)
	sym.Assert(ok, "an added term is not found")
	for i, t := range terms {
		if t == x {
			sym.Assert(id == ids[i], "re-adding a loaded term changes its id")
			continue
		}
		sym.Assert(id != ids[i], "an added term takes the id of a loaded one")
		s, ok := v.GetString(ids[i])
		sym.Assert(ok && s == t, "adding a term changes a loaded one")
	}
}

// H_files: files in unusual but valid JSON, and invalid ones.
func H_files() {
	content, want := "", map[string]int(nil)
	switch sym.Choose(8) {
	case 0:
		content, want = "null", map[string]int{}
	case 1:
		content, want = "{}", map[string]int{}
	case 2:
		content, want = " {\"a\" : 3,\n\t\"\\u00e9\": 1, \"\": 0}\n", map[string]int{"a": 3, "é": 1, "": 0}
	case 3:
		content, want = "{\"x\\n\\\"\": 5}", map[string]int{"x\n\"": 5}
	case 4:
		content = ""
	case 5:
		content = "{\"a\": 1"
	case 6:
		content = "[1]"
	case 7:
		content = "{\"a\": \"b\"}"
	}
	v, err := vocabulary.FromJSONFile(sym.File(content))
	sym.Assert((err == nil) == (want != nil), "loading fails or succeeds wrongly")
	if err != nil || want == nil {
		return
	}
	h := &history{}
	for _, t := range []string{"a", "é", "", "x\n\""} {
		if id, ok := want[t]; ok {
			h.terms, h.ids = append(h.terms, t), append(h.ids, id)
		}
	}
	h.check(v)
	h.add(v, "new")
	h.add(v, "a")
	h.absent(v)
}

// H_nofile: a file that cannot be read is an error.
func H_nofile() {
	// the second one can be opened, but not read
	v, err := vocabulary.FromJSONFile([]string{"/nonexistent/zzverif", "/"}[sym.Choose(2)])
	sym.Assert(err != nil && v == nil, "no error for a file that cannot be read")
}

// H_long: long histories and long terms.
func H_long() {
	pads := lib.Pads()
	n := pads[sym.Choose(len(pads))]
	if n > 150 {
		n = 150
	}
	v := vocabulary.NewVocabulary()
	for k := 0; k < n; k++ {
		v.AddTerm(strconv.Itoa(k))
	}
	x := lib.Filler(n) + sym.Text(1, 2)
	v.AddTerm(x)
	v.AddTerm("0")
	for k := 0; k < n; k++ {
		s, ok := v.GetString(k)
		sym.Assert(ok && s == strconv.Itoa(k), "an id gives another term")
		id, ok := v.GetID(strconv.Itoa(k))
		sym.Assert(ok && id == k, "a term has another id")
	}
	id, ok := v.GetID(x)
	if n > 1 {
		sym.Assert(ok && id == n && v.Size() == n+1, "a long term is lost")
		s, ok := v.GetString(n)
		sym.Assert(ok && s == x, "a long term is cut")
	}
}

// H_two: vocabularies do not share anything.
func H_two() {
	v, w := vocabulary.NewVocabulary(), vocabulary.NewVocabulary()
	g, h := &history{}, &history{}
	g.add(v, sym.Text(1, 2))
	h.add(w, sym.Text(1, 2))
	g.add(v, sym.Text(1, 2))
	h.check(w)
	g.check(v)
}

// H_huge: more terms than sixteen bits can count.
func H_huge() {
	n := lib.Huge()
	terms := make([]string, n)
	ids := make([]int, n)
	v := vocabulary.NewVocabulary()
	for k := range terms {
		terms[k] = strconv.Itoa(k)
		v.AddTerm(terms[k])
	}
	x := lib.Filler(n) + sym.Text(1, 2)
	v.AddTerm(x)
	v.AddTerm(terms[n-1])
	for k := range terms {
		id, ok := v.GetID(terms[k])
		sym.Assert(ok && id == k, "a term has another id")
		s, ok := v.GetString(k)
		sym.Assert(ok && s == terms[k], "an id gives another term")
		ids[k] = id
	}
	id, ok := v.GetID(x)
	sym.Assert(ok && id == n && v.Size() == n+1, "a long term is lost")
	s, ok := v.GetString(n)
	sym.Assert(ok && s == x, "a long term is cut")
	_, ok = v.GetString(n + 1)
	sym.Assert(!ok, "an id from nowhere")
	_, ok = v.GetID(x[:n])
	sym.Assert(!ok, "a term from nowhere")
}
