// Package zzsym is the harness interface.  Under the symbolic engine every
// function below is intercepted; compiled natively it replays a concrete input
// vector, so that the same harness confirms a counterexample on the real code.
package zzsym

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
)

type state struct {
	vec     []uint64
	pos     int
	failed  []string
	obs     []string
	known   []string
	discard bool
	bad     string
	quick   bool
	files   int
	dir     string
	preds   map[string]map[rune]uint64
}

var st state

type stopErr struct{}

// Start loads an input vector (native replay only).
func Start(vec []uint64, quick bool, dir string) {
	st = state{vec: vec, quick: quick, dir: dir, preds: map[string]map[rune]uint64{}}
}

// Result of a native replay.
type Result struct {
	Failed  []string `json:"failed"`
	Obs     []string `json:"obs"`
	Known   []string `json:"known"`
	Discard bool     `json:"discard"`
	Bad     string   `json:"bad"`
	Panic   string   `json:"panic"`
}

// Finish reports the replay.
func Finish() Result {
	return Result{Failed: st.failed, Obs: st.obs, Known: st.known, Discard: st.discard, Bad: st.bad}
}

// Run executes one harness natively.
func Run(f func()) (r Result) {
	p := ""
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(stopErr); ok {
					return
				}
				p = fmt.Sprint(x)
			}
		}()
		f()
	}()
	r = Finish()
	r.Panic = p
	return r
}

func next() uint64 {
	if st.pos >= len(st.vec) {
		if len(st.failed) > 0 {
			// the symbolic path ends where an assertion fails
			panic(stopErr{})
		}
		st.bad = "input vector exhausted"
		panic(stopErr{})
	}
	st.pos++
	return st.vec[st.pos-1]
}

// NextFrac is the replayed value of math/rand.Float64.
func NextFrac() float64 { return float64(next()&0xffff) / 65536 }

// Int is an arbitrary integer in [lo,hi].
func Int(lo, hi int) int { return int(next()) }

// Byte is an arbitrary byte.
func Byte() byte { return byte(next()) }

// Bool is an arbitrary boolean.
func Bool() bool { return next()&1 == 1 }

// Choose forks over 0..n-1.
func Choose(n int) int { return int(next()) }

// RuneW is an arbitrary valid rune whose UTF-8 encoding has w bytes.
func RuneW(w int) rune { return rune(next()) }

// RuneIn is an arbitrary rune in [lo,hi].
func RuneIn(lo, hi rune) rune { return rune(next()) }

// AnyRune is an arbitrary Unicode scalar value.
func AnyRune() rune { return rune(next()) }

// Text is an arbitrary valid UTF-8 string of n runes, each of at most maxw bytes.
func Text(n, maxw int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		next()
		sb.WriteRune(rune(next()))
	}
	return sb.String()
}

// Bytes is an arbitrary string of n bytes, valid UTF-8 or not.
func Bytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(ok bool) {
	if !ok {
		st.discard = len(st.failed) == 0
		panic(stopErr{})
	}
}

// Assert states the property.
func Assert(ok bool, msg string) {
	if !ok {
		for _, m := range st.failed {
			if m == msg {
				return
			}
		}
		st.failed = append(st.failed, msg)
	}
}

// Branch decides a condition.
func Branch(ok bool) bool { return ok }

// Known labels a path that shows an already recorded finding.
func Known(label string) { st.known = append(st.known, label) }

// Reach is a reachability witness.
func Reach(label string) {}

// Observe records values that the engine and the real code must agree on.
func Observe(label string, vals ...interface{}) {
	var sb strings.Builder
	sb.WriteString(label)
	for _, v := range vals {
		sb.WriteString("|")
		render(reflect.ValueOf(v), &sb)
	}
	st.obs = append(st.obs, sb.String())
}

func render(v reflect.Value, sb *strings.Builder) {
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.String:
		sb.WriteString(fmt.Sprintf("%x'", v.String()))
	case reflect.Slice, reflect.Array:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			render(v.Index(i), sb)
		}
		sb.WriteString("]")
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			render(v.Field(i), sb)
		}
		sb.WriteString("}")
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("&")
		render(v.Elem(), sb)
	case reflect.Interface:
		render(v.Elem(), sb)
	default:
		sb.WriteString("?" + v.Kind().String())
	}
}

// Pred is an arbitrary predicate, the same for the same rune.
func Pred(name string, r rune) bool { return functional("pred:"+name, r)&1 == 1 }

// RuneFn is an arbitrary function from runes to valid runes.
func RuneFn(name string, r rune) rune { return rune(functional("fn:"+name, r)) }

// Draws are keyed by the value of the argument.  The engine draws whenever it
// cannot prove the argument equal to an earlier one, so it passes, before each
// draw, whether a draw took place.
func functional(name string, r rune) uint64 {
	m := st.preds[name]
	if m == nil {
		m = map[rune]uint64{}
		st.preds[name] = m
	}
	if next() == 0 {
		v, ok := m[r]
		if !ok {
			st.bad = "uninterpreted function desynchronised"
		}
		return v
	}
	v := next()
	m[r] = v
	return v
}

// Quick tells which tier is being explored.
func Quick() bool { return st.quick }

// Freeze declares state that nobody may write from now on without a lock.
func Freeze(what string, v ...interface{}) {}

// Par runs f; natively it runs several copies concurrently, for the race
// detector.
func Par(f func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < 3; k++ {
				f()
			}
		}()
	}
	if ParHook != nil {
		ParHook(true)
		defer ParHook(false)
	}
	close(start)
	wg.Wait()
}

// ParHook is called around concurrent runs, where nothing is replayed.
var ParHook func(on bool)

// File makes a readable file with the given content and returns its name.
func File(content string) string {
	st.files++
	name := filepath.Join(st.dir, fmt.Sprintf("f%d", st.files))
	if err := os.WriteFile(name, []byte(content), 0o600); err != nil {
		panic(err)
	}
	return name
}

// VocabFile makes a JSON file with the given object members, in order.
func VocabFile(terms []string, ids []int) string {
	var sb strings.Builder
	sb.WriteString("{")
	for i, t := range terms {
		if i > 0 {
			sb.WriteString(",")
		}
		k, err := json.Marshal(t)
		if err != nil {
			panic(err)
		}
		sb.Write(k)
		sb.WriteString(":")
		sb.WriteString(strconv.Itoa(ids[i]))
	}
	sb.WriteString("}")
	return File(sb.String())
}
