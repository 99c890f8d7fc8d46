// Package selftest exercises Go constructs and library functions that the code
// under test may come to use, so that the engine's translation of each is
// compared with the native one.
package selftest

import (
	"bufio"
	"bytes"
	"container/heap"
	"container/list"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"
	"unicode/utf8"

	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

func text() string { return sym.Text(3, 2) }

func H_builder() {
	s := text()
	var b strings.Builder
	b.Grow(10)
	for _, r := range s {
		b.WriteRune(r)
		b.WriteByte('x')
		b.WriteString("yz")
	}
	sym.Assert(b.Len() == len(s)+9, "length")
	sym.Observe("b", b.String())
}

func H_buffer() {
	s := text()
	var b bytes.Buffer
	b.WriteString(s)
	b.WriteByte('x')
	b.WriteRune('é')
	fmt.Fprintf(&b, "%d-%s", 12, "q")
	r, n, err := b.ReadRune()
	sym.Assert(err == nil, "err")
	sym.Observe("b", b.String(), b.Len(), r, n)
	b.Reset()
	sym.Assert(b.Len() == 0, "reset")
}

func H_strings() {
	s := text()
	sym.Observe("1", strings.Split(s, "a"), strings.SplitN(s, "b", 2), strings.Fields(" "+s+" c"))
	sym.Observe("2", strings.Contains(s, "ab"), strings.IndexRune(s, 'é'), strings.LastIndex(s, "a"), strings.Count(s, "a"))
	sym.Observe("3", strings.HasPrefix(s, "a"), strings.HasSuffix(s, "b"), strings.TrimSpace(s), strings.Trim(s, "ab"))
}

func H_strings2() {
	s := text()
	sym.Observe("4", strings.TrimLeft(s, " a"), strings.TrimRight(s, " a"), strings.TrimPrefix(s, "a"), strings.TrimSuffix(s, "a"))
	sym.Observe("5", strings.Repeat(s, 2), strings.Join([]string{s, "x", s}, "-"), strings.ReplaceAll(s, "a", "bc"), strings.Replace(s, "a", "b", 1))
	sym.Observe("6", strings.IndexAny(s, "ab"), strings.ContainsRune(s, 'a'), strings.ContainsAny(s, "xyz"), strings.IndexByte(s, 'a'))
}

func H_strings3() {
	s := text()
	sym.Observe("7", strings.Map(func(r rune) rune {
		if r == 'a' {
			return -1
		}
		return r + 1
	}, s), strings.IndexFunc(s, unicode.IsSpace), strings.LastIndexFunc(s, unicode.IsSpace))
	sym.Observe("8", strings.TrimFunc(s, unicode.IsSpace), strings.TrimLeftFunc(s, unicode.IsSpace), strings.TrimRightFunc(s, unicode.IsSpace), strings.FieldsFunc(s, func(r rune) bool { return r == 'a' }))
}

func H_case() {
	s := string(sym.RuneIn(0, 0x17f)) + "A"
	sym.Observe("1", strings.ToLower(s), strings.ToUpper(s), strings.EqualFold(s, "aA"), strings.Title("ab cd"))
}

func H_cut() {
	s := text()
	a, b, ok := strings.Cut(s, "a")
	sym.Observe("1", a, b, ok, strings.SplitAfter(s, "a"), strings.Compare(s, "b"), s < "b")
}

func H_replacer() {
	s := text()
	sym.Observe("1", strings.NewReplacer("a", "b").Replace(s))
}

func H_replacer_long() {
	s := text()
	sym.Observe("1", strings.NewReplacer("a", "bé", "é", "").Replace(s), strings.NewReplacer("aa", "x", "a", "yy").Replace(s))
}

func H_reader() {
	s := text()
	r := strings.NewReader(s)
	for {
		c, n, err := r.ReadRune()
		if err == io.EOF {
			break
		}
		sym.Assert(err == nil, "err")
		sym.Observe("r", c, n)
	}
}

func H_bytes() {
	b := []byte(text())
	sym.Observe("1", bytes.Contains(b, []byte("a")), bytes.IndexByte(b, 'a'), bytes.HasPrefix(b, []byte("a")), string(bytes.TrimSpace(b)), bytes.Equal(b, []byte("aaa")))
	sym.Observe("2", bytes.IndexRune(b, 'é'), string(bytes.ReplaceAll(b, []byte("a"), []byte("é"))), string(bytes.Map(unicode.ToUpper, []byte("aé"))), len(bytes.Runes(b)), bytes.Count(b, nil))
}

func H_runes() {
	s := text()
	rs := []rune(s)
	for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
		rs[i], rs[j] = rs[j], rs[i]
	}
	sym.Observe("1", string(rs), utf8.RuneCountInString(s), utf8.ValidString(s), utf8.FullRuneInString(s), utf8.RuneStart(s[0]), utf8.ValidRune(rs[0]))
	b := make([]byte, 8)
	n := utf8.EncodeRune(b, rs[0])
	sym.Observe("2", string(b[:n]), utf8.RuneLen(rs[0]))
	b = utf8.AppendRune(nil, rs[0])
	sym.Observe("3", string(b), unicode.Is(unicode.Han, rs[0]), unicode.In(rs[0], unicode.Letter, unicode.Digit))
}

type byLen []string

func (b byLen) Len() int           { return len(b) }
func (b byLen) Less(i, j int) bool { return b[i] < b[j] }
func (b byLen) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

func H_sort() {
	n := []int{sym.Int(0, 5), sym.Int(0, 5), sym.Int(0, 5)}
	sort.Ints(n)
	sym.Assert(n[0] <= n[1] && n[1] <= n[2], "sorted")
	m := []int{3, n[0], 1}
	sort.Slice(m, func(i, j int) bool { return m[i] < m[j] })
	sort.SliceStable(m, func(i, j int) bool { return m[i]/2 < m[j]/2 })
	sym.Observe("m", m)
	k := sort.SearchInts(n, 3)
	sym.Observe("k", k, sort.Search(10, func(i int) bool { return i*i >= n[1]+20 }))
	ss := []string{"b", text(), "a"}
	sort.Strings(ss)
	sort.Sort(byLen(ss))
	sort.Sort(sort.Reverse(sort.IntSlice(n)))
	sort.Stable(byLen(ss))
	sym.Observe("s", ss, n)
}

func H_strconv() {
	n := sym.Int(-12, 12)
	s := strconv.Itoa(n)
	v, err := strconv.Atoi(s)
	sym.Assert(err == nil && v == n, "round trip")
	sym.Observe("1", s, strconv.FormatInt(int64(n), 16), strconv.Quote("a\n"), fmt.Sprint(n), fmt.Sprintf("%03d|%x|%q|%v|%+v|%T", n, n, "é", []int{1, 2}, struct{ A int }{3}, n))
	_, err = strconv.Atoi("x")
	sym.Assert(err != nil, "err")
	u, err := strconv.ParseUint(text(), 10, 32)
	sym.Observe("2", u, err == nil)
}

func H_parse() {
	s := string([]byte{byte('0' + sym.Int(0, 9)), byte(sym.Int(32, 126)), byte('0' + sym.Int(0, 9))})
	v, err := strconv.ParseInt(s, 10, 64)
	sym.Observe("1", v, err == nil)
}

type myErr struct{ n int }

func (e *myErr) Error() string { return "my" + strconv.Itoa(e.n) }

func H_errors() {
	e := &myErr{3}
	w := fmt.Errorf("outer: %w", e)
	var t *myErr
	sym.Assert(errors.As(w, &t) && t == e, "as")
	sym.Assert(errors.Is(w, e), "is")
	sym.Assert(errors.Unwrap(w) == error(e), "unwrap")
	sym.Assert(w.Error() == "outer: my3", "text")
	j := errors.Join(e, errors.New("x"))
	sym.Assert(errors.Is(j, e), "join")
	sym.Observe("j", j.Error())
}

func H_sync() {
	var mu sync.Mutex
	var rw sync.RWMutex
	var once sync.Once
	var m sync.Map
	p := sync.Pool{New: func() interface{} { return new(int) }}
	n := 0
	for i := 0; i < 3; i++ {
		once.Do(func() { n++ })
		mu.Lock()
		n += i
		mu.Unlock()
		rw.RLock()
		n++
		rw.RUnlock()
	}
	x := p.Get().(*int)
	*x = 0
	p.Put(x)
	m.Store("a", n)
	v, ok := m.Load("a")
	sym.Observe("n", n, v.(int), ok)
	a, l := m.LoadOrStore("b", 4)
	sym.Observe("m", a.(int), l)
}

func H_atomic() {
	var a int64
	atomic.AddInt64(&a, 3)
	sym.Assert(atomic.LoadInt64(&a) == 3, "add")
	var v atomic.Value
	sym.Assert(v.Load() == nil, "empty")
	v.Store([]int{1, 2})
	sym.Assert(len(v.Load().([]int)) == 2, "value")
	var i atomic.Int32
	i.Add(2)
	i.Store(i.Load() + 1)
	sym.Assert(i.CompareAndSwap(3, 5) && i.Load() == 5, "int")
	var b atomic.Bool
	b.Store(true)
	sym.Assert(b.Load(), "bool")
}

func H_goroutines() {
	var wg sync.WaitGroup
	out := make([]int, 3)
	for i := range out {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out[i] = i * 2
		}(i)
	}
	wg.Wait()
	sym.Assert(out[2] == 4, "all done")
}

func H_channels() {
	c := make(chan int, 3)
	c <- 1
	c <- 2
	close(c)
	n := 0
	for v := range c {
		n += v
	}
	v, ok := <-c
	sym.Assert(n == 3 && v == 0 && !ok, "sum")
	d := make(chan string)
	go func() {
		for _, s := range []string{"a", "b"} {
			d <- s
		}
		close(d)
	}()
	s := ""
	for x := range d {
		s += x
	}
	sym.Assert(s == "ab", "unbuffered")
	select {
	case <-c:
	default:
		sym.Assert(false, "closed channel")
	}
}

type intHeap []int

func (h intHeap) Len() int            { return len(h) }
func (h intHeap) Less(i, j int) bool  { return h[i] < h[j] }
func (h intHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *intHeap) Push(x interface{}) { *h = append(*h, x.(int)) }
func (h *intHeap) Pop() interface{} {
	o := *h
	v := o[len(o)-1]
	*h = o[:len(o)-1]
	return v
}

func H_containers() {
	h := &intHeap{sym.Int(0, 3), 2, sym.Int(0, 3)}
	heap.Init(h)
	heap.Push(h, 1)
	sym.Observe("h", heap.Pop(h).(int), heap.Pop(h).(int), h.Len())
	l := list.New()
	l.PushBack(1)
	l.PushFront(2)
	for e := l.Front(); e != nil; e = e.Next() {
		sym.Observe("e", e.Value.(int))
	}
}

func H_math() {
	n := sym.Int(0, 100)
	sym.Observe("1", math.MaxInt32, math.MinInt64, int64(math.MaxInt64))
	sym.Observe("2", int(math.Sqrt(16)), math.Abs(-2) == 2, math.Max(1, 2) == 2, math.Inf(1) > 3, int(math.Floor(2.5)), int(math.Ceil(2.5)), math.IsNaN(math.NaN()))
	f := float64(n) / 4
	sym.Observe("3", f > 3, int(f))
	sym.Observe("4", n/7, n%7, -n/7, -n%7, n<<2, n>>1, n&^3, n^5, uint8(n), int8(n*3))
}

func H_defer() {
	out := []int{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				out = append(out, 9)
			}
		}()
		for i := 0; i < 3; i++ {
			defer func(i int) { out = append(out, i) }(i)
		}
		var p *myErr
		p.n++
	}()
	sym.Assert(len(out) == 4 && out[0] == 2 && out[3] == 9, "deferred calls")
	f := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("recovered %v", r)
			}
		}()
		panic("x")
	}
	sym.Assert(f() != nil && f().Error() == "recovered x", "named result")
	g := func() (n int) {
		defer func() { recover(); n = 7 }()
		return []int{1}[sym.Int(0, 3)]
	}
	sym.Assert(g() == 7, "index panic")
}

type shape interface{ area() int }
type sq struct{ n int }
type rect struct {
	sq
	m int
}

func (s sq) area() int    { return s.n * s.n }
func (r *rect) area() int { return r.n * r.m }

func H_types() {
	r := &rect{sq{sym.Int(1, 3)}, 4}
	var s shape = r
	f := s.area
	g := (*rect).area
	h := sq.area
	sym.Observe("1", f(), g(r), h(r.sq), r.sq.area())
	switch x := s.(type) {
	case sq:
		sym.Assert(false, "type")
	case *rect:
		sym.Observe("2", x.m)
	}
	_, ok := s.(fmt.Stringer)
	sym.Assert(!ok, "assertion")
	a := [3]int{1, 2, 3}
	b := a
	b[0] = 5
	sym.Assert(a != b && a[0] == 1, "arrays")
	p := &a
	p[1]++
	for i := range p {
		p[i] *= 2
	}
	sym.Observe("3", a[:], struct{ x, y int }{1, 2} == struct{ x, y int }{1, 2})
	var e interface{} = 3
	sym.Assert(e == 3 && e != "3" && e != nil, "interfaces")
}

func H_maps() {
	k := sym.Int(0, 3)
	m := map[int]string{0: "a", 1: "b"}
	m[k] = "c"
	v, ok := m[2]
	sym.Observe("1", v, ok, len(m))
	delete(m, k)
	n := 0
	for range m {
		n++
	}
	sym.Assert(n == len(m), "range")
	type key struct {
		s string
		i int
	}
	t := map[key][]int{}
	t[key{text(), k}] = append(t[key{text(), k}], 1)
	t[key{"a", 1}] = nil
	sym.Observe("2", len(t))
	z := map[interface{}]int{1: 2, "a": 3}
	sym.Observe("3", z["a"], z[1], z[1.0])
	var nilm map[string]int
	sym.Assert(nilm["x"] == 0 && len(nilm) == 0, "nil map")
	set := map[rune]struct{}{'a': {}}
	_, in := set[rune(k+'a')]
	sym.Observe("4", in)
	mm := map[string]map[string]int{"x": {"y": 1}}
	mm["x"]["z"]++
	sym.Observe("5", len(mm["x"]), mm["q"]["r"])
	arr := map[[2]int]int{{1, 2}: 3}
	sym.Observe("6", arr[[2]int{1, k}])
}

func H_slices() {
	a := []int{1, 2, 3, 4, 5}
	k := sym.Int(0, 5)
	b := append(a[:k:k], 9)
	sym.Observe("1", b, a, len(a[k:]), cap(a[k:]))
	copy(a[1:], a)
	sym.Observe("2", a)
	c := append([]byte("ab"), "cd"...)
	sym.Observe("3", string(c))
	d := append([]int(nil), a...)
	d = append(d[:1], d[2:]...)
	sym.Observe("4", d)
	x := make([]int, k, 10)
	sym.Observe("5", len(x), cap(x), x == nil)
	grid := make([][]rune, 2)
	for i := range grid {
		grid[i] = []rune("ab")
	}
	grid[1][0] = 'z'
	sym.Observe("6", string(grid[0])+string(grid[1]))
}

func H_control() {
	n := 0
outer:
	for i := 0; i < 5; i++ {
		for j := 0; ; j++ {
			switch {
			case j == i:
				continue outer
			case i == 4:
				break outer
			case j == 1:
				n += 10
				fallthrough
			default:
				n++
			}
		}
	}
	i := 0
loop:
	if i < 3 {
		i++
		goto loop
	}
	sym.Observe("n", n, i)
	var fs []func() int
	for i := 0; i < 3; i++ {
		fs = append(fs, func() int { i++; return i })
	}
	sym.Observe("closures", fs[0](), fs[2]())
	var fib func(int) int
	fib = func(n int) int {
		if n < 2 {
			return n
		}
		return fib(n-1) + fib(n-2)
	}
	sym.Observe("fib", fib(7))
	v := variadic(1, 2, 3) + variadic() + variadic([]int{4}...)
	sym.Observe("v", v)
}

func variadic(xs ...int) (n int) {
	for _, x := range xs {
		n += x
	}
	return
}

func H_scanner() {
	sc := bufio.NewScanner(strings.NewReader(text() + "\nab\r\n"))
	for sc.Scan() {
		sym.Observe("line", sc.Text())
	}
	sym.Assert(sc.Err() == nil, "err")
	br := bufio.NewReader(strings.NewReader("ab\ncd"))
	l, err := br.ReadString('\n')
	sym.Observe("l", l, err == nil)
	l, err = br.ReadString('\n')
	sym.Observe("l", l, err == io.EOF)
	all, err := io.ReadAll(strings.NewReader("xyz"))
	sym.Observe("all", string(all), err == nil)
	ws := bufio.NewScanner(strings.NewReader("ab cd\n e"))
	ws.Split(bufio.ScanWords)
	n := 0
	for ws.Scan() {
		n++
	}
	sym.Observe("words", n)
}

func H_sprint() {
	s := text()
	sym.Observe("1", fmt.Sprintf("%s-%s", s, "x"), fmt.Sprintf("%s%d", s, 3), fmt.Sprint(s, 1, 2, "x"), fmt.Sprintln("a", 1))
	sym.Observe("2", fmt.Sprintf("%c|%U", 'é', 'é'), fmt.Sprintf("%5s|%-5s|", "ab", "cd"), fmt.Sprintf("%v %v", true, nil), fmt.Sprintf("%v", [2]int{1, 2}), fmt.Sprintf("%v", map[string]int{"a": 1}), fmt.Sprintf("%v", &myErr{2}))
}

// H_lines: ways of reading a file by lines.
func H_lines() {
	name := sym.File("ab " + string([]byte{sym.Byte()}) + "\ncd\r\n\nlast")
	n := sym.Choose(5)
	f, err := os.Open(name)
	sym.Assert(err == nil, "open")
	defer f.Close()
	switch n {
	case 0:
		r := bufio.NewReader(f)
		for {
			l, err := r.ReadString('\n')
			sym.Observe("l", l, err == nil)
			if err != nil {
				break
			}
		}
	case 1:
		r := bufio.NewReader(f)
		for {
			l, more, err := r.ReadLine()
			sym.Observe("l", string(l), more, err == nil)
			if err == io.EOF {
				break
			}
		}
	case 2:
		s := bufio.NewScanner(f)
		s.Buffer(make([]byte, 4), 100)
		for s.Scan() {
			sym.Observe("l", s.Text(), len(s.Bytes()))
		}
	case 3:
		b, err := ioutil.ReadAll(bufio.NewReader(f))
		sym.Assert(err == nil, "read")
		sym.Observe("l", strings.Split(string(b), "\n"))
	case 4:
		b, err := os.ReadFile(name)
		sym.Assert(err == nil, "read")
		s := bufio.NewScanner(bytes.NewReader(b))
		for s.Scan() {
			var a, c string
			k, _ := fmt.Sscanf("x y", "%s %s", &a, &c)
			sym.Observe("l", strings.Fields(s.Text()), k)
		}
	}
}

// H_json: ways of reading a vocabulary.
func H_json() {
	name := sym.VocabFile([]string{text(), "q"}, []int{sym.Int(0, 5), 9})
	out := map[string]int{}
	switch sym.Choose(5) {
	case 0:
		b, err := os.ReadFile(name)
		sym.Assert(err == nil, "read")
		sym.Assert(json.Unmarshal(b, &out) == nil, "parse")
	case 1:
		f, err := os.Open(name)
		sym.Assert(err == nil, "open")
		defer f.Close()
		sym.Assert(json.NewDecoder(f).Decode(&out) == nil, "parse")
	case 2:
		f, err := os.Open(name)
		sym.Assert(err == nil, "open")
		sym.Assert(json.NewDecoder(bufio.NewReader(f)).Decode(&out) == nil, "parse")
	case 3:
		b, err := ioutil.ReadFile(name)
		sym.Assert(err == nil, "read")
		sym.Assert(json.NewDecoder(bytes.NewReader(b)).Decode(&out) == nil, "parse")
	case 4:
		b, err := ioutil.ReadFile(name)
		sym.Assert(err == nil, "read")
		m := map[string]int32{}
		sym.Assert(json.Unmarshal(b, &m) == nil, "parse")
		for k, v := range m {
			out[k] = int(v)
		}
	}
	sym.Observe("n", len(out), out["q"])
}

// H_json_any: values of any type.
func H_json_any() {
	name := sym.File(`{"a": 1, "b": [1, "x"], "c": {"d": null}}`)
	b, err := os.ReadFile(name)
	sym.Assert(err == nil, "read")
	var m map[string]interface{}
	sym.Assert(json.Unmarshal(b, &m) == nil, "parse")
	_, ok := m["a"].(float64)
	sym.Assert(ok && len(m) == 3, "any")
	var r map[string]json.RawMessage
	sym.Assert(json.Unmarshal(b, &r) == nil && len(r) == 3, "raw")
	sym.Assert(json.Valid(b), "valid")
}
