// Package c21: merge files are loaded rank by rank or rejected.
package c21

import (
	"strconv"
	"strings"

	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
	"github.com/nlpodyssey/gotokenizers/zzh/lib"
	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

// lines are the lines of a text file; their ends may have a carriage return.
func lines(s string) []string {
	var out []string
	for s != "" {
		l := s
		if i := strings.IndexByte(s, '\n'); i >= 0 {
			l, s = s[:i], s[i+1:]
		} else {
			s = ""
		}
		if len(l) > 0 && l[len(l)-1] == '\r' {
			l = l[:len(l)-1]
		}
		out = append(out, l)
	}
	return out
}

// rules reads a merges file; bad is the number of its first bad line.
func rules(t lib.Table, content string, prefix int) (rs lib.Rules, bad int) {
	for k, l := range lines(content) {
		if strings.HasPrefix(l, "#version") {
			continue
		}
		i := strings.IndexByte(l, ' ')
		if i < 0 || strings.IndexByte(l[i+1:], ' ') >= 0 {
			return nil, k + 1
		}
		a, b := l[:i], l[i+1:]
		if t.ID(a) < 0 || t.ID(b) < 0 || len(b) < prefix || t.ID(a+b[prefix:]) < 0 {
			return nil, k + 1
		}
		rs = append(rs, lib.Rule{A: t.ID(a), B: t.ID(b), Rank: len(rs), ID: t.ID(a + b[prefix:])})
	}
	return rs, 0
}

// names reports whether an error names line n.
func names(err error, n int) bool {
	s := err.Error()
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			continue
		}
		j := i
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if s[i:j] == strconv.Itoa(n) {
			return true
		}
		i = j
	}
	return false
}

func check(t lib.Table, content string, prefix int) {
	m, err := bpemodel.MergeMapFromFile(sym.File(content), t.Vocabulary(), prefix)
	rs, bad := rules(t, content, prefix)
	if bad > 0 {
		sym.Assert(err != nil && m == nil, "a bad line is not an error")
		if err != nil {
			sym.Assert(names(err, bad), "the error does not name the line")
		}
		return
	}
	sym.Assert(err == nil, "loading fails")
	if err != nil {
		return
	}
	n := 0
	for a := range t {
		for b := range t {
			v, ok := m.Get(a, b)
			r := rs.Of(a, b)
			sym.Assert(ok == (r != nil), "a merge is missing or made up")
			if ok && r != nil {
				n++
				sym.Observe("merge", v.Rank, v.ID)
				sym.Assert(v.Rank == r.Rank, "wrong rank of a merge")
				sym.Assert(v.ID == r.ID, "wrong result of a merge")
			}
		}
	}
	sym.Assert(n == len(*m), "merges of other ids")
}

// H_bytes: every short content.
func H_bytes() {
	t := lib.Table{"a", "", "aa", "b"}
	if sym.Choose(2) == 1 {
		t = lib.Table{"a", "aa", "é"}
	}
	check(t, sym.Bytes(sym.Choose(lib.Size(5, 6))), sym.Choose(3))
}

// term is one of the terms, or another word.
func term(ts ...string) string { return ts[sym.Choose(len(ts))] }

// H_lines: several lines of terms, good and bad.
func H_lines() {
	t := lib.Table{"a", "##b", "ab", "b", "a##b", "c", "cc"}
	c := ""
	for k := 0; k < 2; k++ {
		c += term("a", "c", "z") + term(" ", "  ", "") + term("##b", "b", "c", "é", "") + term("\n", "\r\n")
	}
	check(t, c, []int{0, 2}[sym.Choose(2)])
}

// H_version: version lines and what looks like one.
func H_version() {
	t := lib.Table{"a", "b", "ab", "ba", "#version:", "#versiona", "#versio", "#versiob"}
	c := ""
	for k := 0; k < 3; k++ {
		c += term("#version: 0.2", "#version", "#version a", "#versio b", " #version", "a b", "b a") + "\n"
	}
	check(t, c, 0)
}

// H_any: any terms of the vocabulary on the lines.
func H_any() {
	x, y := sym.Text(1, 2), sym.Text(sym.Choose(3), 2)
	var t lib.Table
	t = t.Add(x, y, x+y, y+x)
	u, v := sym.Text(1, 2), sym.Text(1, 2)
	p := sym.Choose(lib.Size(2, 3))
	if p > 0 && len(v) > p {
		t = t.Add(u + v[p:])
	}
	check(t, u+" "+v+"\n"+x+" "+y, p)
}

// H_prefix: any prefix length, at any character.
func H_prefix() {
	b := sym.Text(1+sym.Choose(2), 3)
	t := lib.Table{"a"}
	t = t.Add(b)
	p := sym.Choose(8)
	if p <= len(b) {
		t = t.Add("a" + b[p:])
	}
	check(t, "a "+b+"\na "+b+"\n", p)
}

// H_twice: the same pair again.
func H_twice() {
	t := lib.Table{"a", "b", "ab", "ba", "aa"}
	c := ""
	for k := 0; k < lib.Size(3, 4); k++ {
		c += term("a b", "b a", "a a") + "\n"
	}
	check(t, c, 0)
}

// H_nofile: a file that cannot be read is an error.
func H_nofile() {
	// the second one can be opened, but not read
	m, err := bpemodel.MergeMapFromFile([]string{"/nonexistent/zzverif", "/"}[sym.Choose(2)], lib.Table{"a"}.Vocabulary(), 0)
	sym.Assert(err != nil && m == nil, "no error for a file that cannot be read")
}

// H_long: long files and long lines.
func H_long() {
	pads := lib.Pads()
	n := pads[sym.Choose(len(pads))]
	x := lib.Filler(n)
	t := lib.Table{"a", "b", "ab", "ba"}
	t = t.Add(x, "a"+x)
	c := strings.Repeat("a b\n", n)
	if n > 0 {
		c += "a " + x + "\n"
	}
	check(t, c+sym.Text(1, 2)+" "+sym.Text(1, 1)+term("", "\n"), 0)
}

// H_huge: more lines than sixteen bits can count, and longer ones.
func H_huge() {
	n := lib.Huge()
	t := lib.Table{"a", "b", "ab", "ba", "é"}
	x := lib.Filler(lib.Huge())
	t = t.Add(x, "a"+x)
	c := strings.Repeat("a b\n", n) + "a " + x + "\n"
	end := []string{"\nb a", "\nb", "\nb é"}[sym.Choose(3)]
	c += "b " + string(sym.RuneW(1)) + end + "\n"
	m, err := bpemodel.MergeMapFromFile(sym.File(c), t.Vocabulary(), 0)
	bad := 0
	switch {
	case c[len(c)-len(end)-2] != 'a':
		bad = n + 2
	case end != "\nb a":
		bad = n + 3
	}
	if c[len(c)-len(end)-2] == '\n' {
		bad = n + 2
	}
	if bad > 0 {
		sym.Assert(err != nil && m == nil, "a bad line is not an error")
		if err != nil {
			sym.Assert(names(err, bad), "the error does not name the line")
		}
		return
	}
	sym.Assert(err == nil, "loading fails")
	if err != nil {
		return
	}
	v, ok := m.Get(0, 1)
	sym.Assert(ok && v.Rank == n-1 && v.ID == 2, "wrong merge")
	v, ok = m.Get(0, 5)
	sym.Assert(ok && v.Rank == n && v.ID == 6, "wrong merge")
	v, ok = m.Get(1, 0)
	sym.Assert(ok && v.Rank == n+2 && v.ID == 3, "wrong merge")
	sym.Assert(len(*m) == 3, "merges from nowhere")
}

// H_wide: terms with ids that differ only in their high bits, or their signs.
func H_wide() {
	big := []int{1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 40, -4, -1 << 40}[sym.Choose(7)]
	terms := []string{"a", "b", "ab", "c", "d", "cb", "ad"}
	ids := []int{1, 2, 3, 1 + big, 2 + big, 3 + big, sym.Int(1<<41, 1<<42)}
	v, err := vocabulary.FromJSONFile(sym.VocabFile(terms, ids))
	sym.Assert(err == nil, "loading a vocabulary fails")
	if err != nil {
		return
	}
	lists := [][3]int{{0, 1, 2}, {3, 1, 5}, {0, 4, 6}}
	first := sym.Choose(3)
	content := ""
	for k := range lists {
		l := lists[(first+k)%3]
		content += terms[l[0]] + " " + terms[l[1]] + "\n"
	}
	m, err := bpemodel.MergeMapFromFile(sym.File(content), v, 0)
	sym.Assert(err == nil, "loading fails")
	if err != nil {
		return
	}
	for i, a := range ids {
		for j, b := range ids {
			want, is := bpemodel.MergeValue{}, false
			for k := range lists {
				if l := lists[(first+k)%3]; l[0] == i && l[1] == j {
					want, is = bpemodel.MergeValue{Rank: k, ID: ids[l[2]]}, true
				}
			}
			got, ok := m.Get(a, b)
			sym.Assert(ok == is && got == want, "a wrong merge of wide ids")
		}
	}
}
