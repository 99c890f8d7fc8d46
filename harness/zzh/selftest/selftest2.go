package selftest

import (
	"bufio"
	"container/ring"
	"context"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"io"
	"math/bits"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf16"
	"unicode/utf8"
	"unsafe"

	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

var bufPool = sync.Pool{New: func() interface{} { return new([]rune) }}

func H_pool() {
	s := text()
	p := bufPool.Get().(*[]rune)
	b := (*p)[:0]
	for _, r := range s {
		b = append(b, unicode.ToUpper(r))
	}
	sym.Observe("b", string(b))
	*p = b
	bufPool.Put(p)
	q := bufPool.Get().(*[]rune)
	bufPool.Put(q)
}

func H_syncmap() {
	s := text()
	var m sync.Map
	for i, r := range s {
		m.LoadOrStore(r, i)
	}
	n := 0
	m.Range(func(k, v interface{}) bool { n++; return true })
	v, ok := m.Load('a')
	sym.Observe("m", n, v, ok)
	m.Store('a', 77)
	v, ok = m.Load('a')
	sym.Observe("m2", v, ok)
	m.Delete('a')
	_, ok = m.Load('a')
	sym.Assert(!ok, "deleted")
}

func H_once() {
	s := text()
	var o sync.Once
	n := 0
	for range s {
		o.Do(func() { n++ })
	}
	sym.Assert(n <= 1, "once")
	sym.Observe("n", n)
}

func H_hash() {
	s := text()
	h := fnv.New32a()
	h.Write([]byte(s))
	h64 := fnv.New64()
	io.WriteString(h64, s)
	sym.Observe("h", h.Sum32(), h64.Sum64())
	sym.Observe("crc", crc32.ChecksumIEEE([]byte("abc")))
}

func H_utf16() {
	s := text()
	n := 0
	for _, r := range s {
		if r1, r2 := utf16.EncodeRune(r); r1 != 0xFFFD && r2 != 0xFFFD {
			n += 2
		} else {
			n++
		}
	}
	sym.Observe("n", n)
	sym.Observe("e", len(utf16.Encode([]rune(s))))
	sym.Observe("d", string(utf16.Decode(utf16.Encode([]rune(s)))))
}

func H_ring() {
	r := ring.New(3)
	s := text()
	for _, c := range s {
		r.Value = c
		r = r.Next()
	}
	n := 0
	r.Do(func(v interface{}) {
		if v != nil {
			n++
		}
	})
	sym.Observe("n", n)
}

func H_strings4a() {
	s := sym.Text(2, 2)
	sym.Observe("ff", strings.FieldsFunc(s, func(r rune) bool { return r == 'a' || r == ' ' }))
}

func H_strings4b() {
	s := sym.Text(2, 2)
	sym.Observe("map", strings.Map(func(r rune) rune {
		if r == 'a' {
			return -1
		}
		if r == 'b' {
			return 'é'
		}
		return r
	}, s))
}

func H_strings4c() {
	s := sym.Text(2, 2)
	sym.Observe("rep", strings.NewReplacer("a", "xx", "b", "").Replace(s))
}

func H_strings4d() {
	s := sym.Text(2, 2)
	sym.Observe("idx", strings.IndexFunc(s, unicode.IsSpace), strings.LastIndexByte(s, 'a'), strings.IndexAny(s, "ab"), strings.ContainsAny(s, "xyz"), strings.ContainsRune(s, 'é'))
}

func H_strings4e() {
	s := sym.Text(2, 2)
	sym.Observe("trim", strings.TrimFunc(s, unicode.IsSpace), strings.TrimLeftFunc(s, unicode.IsLetter), strings.TrimRightFunc(s, unicode.IsLetter))
}

func H_strings4f() {
	s := sym.Text(2, 2)
	sym.Observe("sa", strings.SplitAfter(s, "a"), strings.SplitAfterN(s, "a", 2))
}

func H_strings5() {
	s := text()
	sym.Observe("cnt", strings.Count(s, "a"), strings.Count(s, ""))
	sym.Observe("vu", strings.ToValidUTF8(s, "?"))
}

func H_equalfold() {
	s := text()
	sym.Observe("ef", strings.EqualFold(s, "ab"))
}

func H_simplefold() {
	s := text()
	for _, r := range s {
		sym.Observe("sf", unicode.SimpleFold(r))
		sym.Observe("in", unicode.In(r, unicode.Latin, unicode.Han), unicode.IsOneOf([]*unicode.RangeTable{unicode.L, unicode.N}, r))
		sym.Observe("sc", unicode.TurkishCase.ToUpper(r))
		sym.Observe("to", unicode.To(unicode.TitleCase, r))
		break
	}
}

func H_bufreader() {
	s := text()
	br := bufio.NewReader(strings.NewReader(s + "\nx"))
	n := 0
	for {
		r, w, err := br.ReadRune()
		if err == io.EOF {
			break
		}
		sym.Observe("r", r, w)
		n++
	}
	sym.Observe("n", n)
}

func H_readline() {
	br := bufio.NewReader(strings.NewReader("one\ntwo\r\nthree"))
	var out []string
	for {
		l, err := br.ReadString('\n')
		if l != "" {
			out = append(out, l)
		}
		if err != nil {
			break
		}
	}
	sym.Observe("o", out)
	br = bufio.NewReader(strings.NewReader("one\ntwo"))
	b, err := br.ReadBytes('\n')
	sym.Observe("b", string(b), err == nil)
	l, more, err := br.ReadLine()
	sym.Observe("l", string(l), more, err == nil)
}

func H_stringsreader() {
	s := text()
	r := strings.NewReader(s)
	for {
		c, w, err := r.ReadRune()
		if err != nil {
			break
		}
		if c == 'a' {
			r.UnreadRune()
			b, _ := r.ReadByte()
			sym.Observe("b", b)
		}
		sym.Observe("c", c, w, r.Len())
	}
}

func H_sscanf() {
	var a, b int
	n, err := fmt.Sscanf("12 34", "%d %d", &a, &b)
	sym.Observe("s", n, err == nil, a, b)
	var x, y string
	n, err = fmt.Sscan("foo bar", &x, &y)
	sym.Observe("t", n, err == nil, x, y)
}

func H_quote() {
	s := text()
	sym.Observe("q", strconv.Quote("a\"b\n"), strconv.Itoa(len(s)), strconv.FormatInt(int64(len(s)), 16))
	v, err := strconv.Unquote(`"a\tb"`)
	sym.Observe("u", v, err == nil)
	sym.Observe("app", string(strconv.AppendInt(nil, int64(len(s)), 10)))
	sym.Observe("f", strconv.FormatFloat(1.5, 'f', -1, 64))
}

func H_workers() {
	s := text()
	rs := []rune(s)
	out := make([]int, len(rs))
	jobs := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU() && w < 2; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range jobs {
				out[i] = utf8.RuneLen(rs[i])
			}
		}()
	}
	for i := range rs {
		jobs <- i
	}
	close(jobs)
	wg.Wait()
	sum := 0
	for _, v := range out {
		sum += v
	}
	sym.Assert(sum == len(s), "lengths")
	sym.Observe("o", out)
}

func H_errchan() {
	s := text()
	type res struct {
		i   int
		err error
	}
	ch := make(chan res, len(s))
	for i := range s {
		i := i
		go func() { ch <- res{i, nil} }()
	}
	n := 0
	for range s {
		r := <-ch
		if r.err == nil {
			n += r.i
		}
	}
	sym.Observe("n", n)
}

func H_context() {
	ctx, cancel := context.WithCancel(context.Background())
	sym.Observe("e", ctx.Err() == nil)
	cancel()
	sym.Observe("e2", ctx.Err() == context.Canceled)
}

func H_time() {
	t := time.Now()
	d := time.Since(t)
	sym.Assert(d >= 0, "time")
	sym.Observe("x", (2*time.Second).String() == "2s")
}

func H_binary() {
	s := text()
	b := make([]byte, 8)
	binary.LittleEndian.PutUint32(b, uint32(len(s)))
	binary.BigEndian.PutUint16(b[4:], 0x1234)
	sym.Observe("b", b, binary.LittleEndian.Uint64(b))
	n := binary.PutUvarint(b, 300)
	v, k := binary.Uvarint(b[:n])
	sym.Observe("v", v, k)
	sym.Observe("hex", hex.EncodeToString([]byte("az")))
}

func H_bits() {
	s := text()
	n := len(s)
	sym.Observe("b", bits.Len(uint(n)), bits.OnesCount(uint(n)), bits.TrailingZeros(uint(n)|8), bits.RotateLeft32(uint32(n), 3))
}

func H_reflect() {
	s := text()
	rs := []rune(s)
	sym.Observe("r", reflect.DeepEqual(rs, []rune(s)), reflect.DeepEqual([]string{s}, []string{"ab"}))
}

func H_regexp() {
	re := regexp.MustCompile(`a+`)
	sym.Observe("r", re.FindAllStringIndex("baaab a", -1), re.MatchString("zzz"), re.ReplaceAllString("aab", "x"))
}

func H_regexpsym() {
	re := regexp.MustCompile(`[ab]+`)
	s := sym.Text(2, 1)
	sym.Observe("r", re.FindAllStringIndex(s, -1))
}

func H_sort2() {
	s := text()
	rs := []rune(s)
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	sym.Observe("s", string(rs))
	idx := sort.Search(len(rs), func(i int) bool { return rs[i] >= 'b' })
	sym.Observe("i", idx)
	ss := strings.Split(s, "")
	sort.Strings(ss)
	sort.Sort(sort.Reverse(sort.StringSlice(ss)))
	sym.Observe("ss", ss, sort.SearchInts([]int{1, 3, 5}, 3), sort.StringsAreSorted(ss))
}

func H_unsafe() {
	s := text()
	b := []byte(s)
	t := *(*string)(unsafe.Pointer(&b))
	sym.Assert(t == s, "unsafe string")
	sym.Observe("t", t)
}

type node struct {
	kids map[rune]*node
	end  bool
}

func (n *node) add(s string) {
	for _, r := range s {
		if n.kids == nil {
			n.kids = map[rune]*node{}
		}
		k, ok := n.kids[r]
		if !ok {
			k = &node{}
			n.kids[r] = k
		}
		n = k
	}
	n.end = true
}

func H_trie() {
	s := text()
	root := &node{}
	for _, w := range []string{"a", "ab", "abc", "b"} {
		root.add(w)
	}
	best := -1
	n := root
	for i, r := range s {
		k := n.kids[r]
		if k == nil {
			break
		}
		n = k
		if n.end {
			best = i
		}
	}
	sym.Observe("best", best)
}

func H_arrays() {
	s := sym.Text(2, 2)
	var a [256]bool
	var c [8]int
	for i := 0; i < len(s); i++ {
		a[s[i]] = true
		c[s[i]&7]++
	}
	sym.Observe("a", a['a'], a[0xc3], c)
}

func H_arraykeys() {
	s := sym.Text(1, 2)
	m := map[[2]byte]int{}
	for i := 0; i+1 < len(s); i++ {
		m[[2]byte{s[i], s[i+1]}]++
	}
	sym.Observe("m", len(m), m[[2]byte{'a', 'b'}])
	type key struct {
		r rune
		n int
	}
	mm := map[key]string{}
	for i, r := range s {
		mm[key{r, i}] = s[i:]
	}
	sym.Observe("mm", len(mm), mm[key{'a', 0}])
	mi := map[interface{}]int{}
	for _, r := range s {
		mi[r]++
		mi[string(r)]++
	}
	sym.Observe("mi", len(mi))
}

func H_labels() {
	s := text()
	n := 0
outer:
	for i, r := range s {
		switch {
		case r == 'a':
			n += 1
			fallthrough
		case r == 'b':
			n += 10
		case unicode.IsSpace(r):
			continue outer
		case r > 0x2000:
			break outer
		default:
			for j := 0; j < i; j++ {
				if s[j] == 'x' {
					continue outer
				}
			}
			n += 100
		}
	}
	i := 0
loop:
	if i < len(s) {
		if s[i] == 'q' {
			goto done
		}
		i++
		goto loop
	}
done:
	sym.Observe("n", n, i)
}

type shape2 interface{ area() int }
type sq2 struct{ n int }
type rect2 struct {
	sq2
	m int
}

func (s sq2) area() int     { return s.n * s.n }
func (r *rect2) area2() int { return r.n * r.m }

func H_methods() {
	s := text()
	r := &rect2{sq2{len(s)}, 3}
	var sh shape2 = r
	f := r.area
	g := (*rect2).area2
	h := sq2.area
	sym.Observe("m", sh.area(), f(), g(r), h(r.sq2))
	if v, ok := sh.(interface{ area2() int }); ok {
		sym.Observe("a2", v.area2())
	}
}

func H_recover() {
	s := text()
	get := func(i int) (r byte, err error) {
		defer func() {
			if e := recover(); e != nil {
				err = fmt.Errorf("bad: %v", e)
			}
		}()
		return s[i], nil
	}
	b, err := get(1)
	sym.Observe("g", b, err != nil)
}

func H_runtime() {
	runtime.GC()
	sym.Observe("g", runtime.GOMAXPROCS(0) > 0)
}

func H_copyoverlap() {
	s := text()
	rs := append([]rune(s), 'x', 'y')
	copy(rs[1:], rs)
	sym.Observe("r", string(rs))
	rs = append(rs[:1], rs[2:]...)
	sym.Observe("r2", string(rs))
	rs = append(rs, rs...)
	sym.Observe("r3", string(rs))
	b := append([]byte(nil), s...)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	sym.Observe("b", b)
	q := rs[1:2:2]
	q = append(q, 'z')
	sym.Observe("q", string(q), string(rs), cap(q) >= 2)
}

func H_floats() {
	s := text()
	f := float64(len(s)) / 2
	sym.Observe("f", int(f), f > 1.0, uint8(len(s)), int8(len(s)*50), uint32(len(s))<<29)
}

func H_utf8more() {
	s := text()
	b := []byte(s)
	buf := make([]byte, 4)
	for len(b) > 0 {
		r, n := utf8.DecodeRune(b)
		k := utf8.EncodeRune(buf, r)
		sym.Observe("x", k == n, utf8.FullRune(b), utf8.RuneStart(b[0]))
		b = b[n:]
	}
	r, n := utf8.DecodeLastRuneInString(s)
	sym.Observe("last", r, n, utf8.ValidString(s), utf8.RuneCount([]byte(s)))
}

func H_invalid() {
	s := text()
	t := s + "\xff\xc3"
	n := 0
	for i, r := range t {
		if r == utf8.RuneError {
			n += i
		}
	}
	sym.Observe("n", n, utf8.ValidString(t), len([]rune(t)), strings.ToValidUTF8(t, "?"))
}
