package selftest

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"hash/maphash"
	"io"
	"log"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"
	"unsafe"

	sym "github.com/nlpodyssey/gotokenizers/zzsym"
)

func H_maphash() {
	s := text()
	var h maphash.Hash
	h.WriteString(s)
	a := h.Sum64()
	h.Reset()
	h.WriteString(s)
	sym.Observe("eq", a == h.Sum64())
	m := map[uint64]string{a: s}
	sym.Observe("m", m[a])
}

func H_readbytes() {
	s := text() + "\n" + "ab\ncd"
	r := bufio.NewReader(strings.NewReader(s))
	b, err := r.ReadBytes('\n')
	sym.Observe("b", b, err == nil)
	t, err := r.ReadString('\n')
	sym.Observe("t", t, err == nil)
	c, n, err := r.ReadRune()
	sym.Observe("c", c, n, err == nil)
	r.UnreadRune()
	p, err := r.Peek(1)
	sym.Observe("p", p, err == nil)
	t, err = r.ReadString('\n')
	sym.Observe("t2", t, err == io.EOF)
}

func H_scannersplit() {
	s := text() + " x"
	sc := bufio.NewScanner(strings.NewReader(s))
	sc.Buffer(make([]byte, 0, 16), 1<<20)
	sc.Split(bufio.ScanRunes)
	n := 0
	for sc.Scan() {
		n += len(sc.Text())
	}
	sym.Observe("n", n, sc.Err() == nil)
	sc = bufio.NewScanner(strings.NewReader(s))
	sc.Split(func(data []byte, eof bool) (int, []byte, error) {
		if eof && len(data) == 0 {
			return 0, nil, nil
		}
		if i := bytes.IndexByte(data, ' '); i >= 0 {
			return i + 1, data[:i], nil
		}
		if eof {
			return len(data), data, nil
		}
		return 0, nil, nil
	})
	for sc.Scan() {
		sym.Observe("w", sc.Text())
	}
}

func H_cutprefix() {
	s := text()
	a, ok := strings.CutPrefix(s, "a")
	sym.Observe("a", a, ok)
	a, ok = strings.CutSuffix(s, "é")
	sym.Observe("b", a, ok)
	x, y, ok := bytes.Cut([]byte(s), []byte("a"))
	sym.Observe("c", x, y, ok)
	sym.Observe("f", len(bytes.Fields([]byte(s))), len(bytes.Split([]byte(s), []byte("a"))))
	sym.Observe("t", bytes.TrimRight([]byte(s), "a "), bytes.TrimFunc([]byte(s), unicode.IsSpace))
	sym.Observe("clone", strings.Clone(s), strings.ContainsFunc(s, unicode.IsUpper))
	sym.Observe("h", bytes.HasSuffix([]byte(s), []byte("a")), bytes.LastIndex([]byte(s), []byte("a")), bytes.Compare([]byte(s), []byte("b")))
	sym.Observe("j", bytes.Join([][]byte{[]byte(s), []byte("x")}, []byte("-")))
}

func H_oncefunc() {
	n := 0
	f := sync.OnceFunc(func() { n++ })
	f()
	f()
	sym.Observe("n", n)
	var mu sync.Mutex
	c := sync.NewCond(&mu)
	done := false
	go func() {
		mu.Lock()
		done = true
		mu.Unlock()
		c.Broadcast()
	}()
	mu.Lock()
	for !done {
		c.Wait()
	}
	mu.Unlock()
	sym.Observe("d", done)
}

func H_timeout() {
	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
	defer cancel()
	select {
	case <-ctx.Done():
		sym.Observe("x", 1)
	default:
		sym.Observe("x", 2)
	}
}

type bad struct{ n int }

func (b *bad) Error() string { return "bad " + strconv.Itoa(b.n) }

func H_errwrap() {
	s := text()
	var e error = &bad{len(s)}
	w := fmt.Errorf("x %q: %w", "a", e)
	var b *bad
	sym.Observe("w", errors.As(w, &b), errors.Is(w, e), w.Error())
	l := log.New(io.Discard, "", 0)
	l.Printf("%v", s)
	sym.Observe("p", filepath.Base("/a/b.c"), filepath.Ext("x.json"))
	fmt.Fprintln(io.Discard, s)
}

func H_decode() {
	s := text()
	var out []rune
	for b := []byte(s); len(b) > 0; {
		r, n := utf8.DecodeLastRune(b)
		out = append(out, r)
		b = b[:len(b)-n]
	}
	sym.Observe("o", string(out))
	buf := strconv.AppendQuoteRune(nil, 'é')
	buf = strconv.AppendUint(buf, uint64(len(s)), 2)
	sym.Observe("b", buf)
	x, err := strconv.ParseFloat("0.25", 64)
	sym.Observe("x", x == 0.25, err == nil)
	y, err := strconv.ParseBool("true")
	sym.Observe("y", y, err == nil)
}

func H_teereader() {
	s := text()
	var w bytes.Buffer
	r := io.TeeReader(io.LimitReader(strings.NewReader(s+"xyz"), 4), &w)
	b, err := io.ReadAll(r)
	sym.Observe("b", b, err == nil, w.String())
	m := io.MultiReader(strings.NewReader(s), bytes.NewReader([]byte("q")))
	n, err := io.Copy(&w, m)
	sym.Observe("n", n, err == nil, w.String())
	bw := bufio.NewWriter(&w)
	bw.WriteString(s)
	bw.WriteRune('é')
	bw.WriteByte('x')
	bw.Flush()
	sym.Observe("w", w.String())
}

type entry struct {
	k string
	v int
}

func H_atomicpointer() {
	var p unsafe.Pointer
	sym.Observe("nil", atomic.LoadPointer(&p) == nil)
	a, b := &entry{"a", 1}, &entry{text(), 2}
	atomic.StorePointer(&p, unsafe.Pointer(a))
	sym.Observe("a", (*entry)(atomic.LoadPointer(&p)).v)
	ok := atomic.CompareAndSwapPointer(&p, unsafe.Pointer(a), unsafe.Pointer(b))
	sym.Observe("b", ok, (*entry)(atomic.LoadPointer(&p)).k)
	t := time.NewTimer(time.Hour)
	select {
	case <-t.C:
		sym.Observe("t", 1)
	default:
		sym.Observe("t", 2)
	}
	sym.Observe("s", t.Stop())
}
