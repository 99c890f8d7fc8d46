package main

// Native replay: the harness compiled against the real code, fed with the
// solver's assignment.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type Native struct {
	bin  string
	dir  string
	race bool
	prog *Program
}

type replayReq struct {
	Harness string   `json:"harness"`
	Inputs  []uint64 `json:"inputs"`
}

type replayRes struct {
	Failed  []string `json:"failed"`
	Obs     []string `json:"obs"`
	Known   []string `json:"known"`
	Discard bool     `json:"discard"`
	Bad     string   `json:"bad"`
	Panic   string   `json:"panic"`
	// set by the driver
	Hang  bool   `json:"hang"`
	Crash string `json:"crash"`
	Race  bool   `json:"race"`
}

// buildNative compiles the harness package with a generated main.
func buildNative(p *Program, repo, pkgDir, work string, race, quick bool) (*Native, error) {
	ov := map[string]string{}
	for k, v := range p.overlay {
		ov[k] = v
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n\t\"math/rand\"\n\t\"syscall\"\n")
	fmt.Fprintf(&sb, "\th %q\n\t\"%s/zzsym\"\n)\n\n", p.harness.Pkg.Path(), p.modPath)
	sb.WriteString("var all = map[string]func(){\n")
	for _, f := range p.harnesses() {
		fmt.Fprintf(&sb, "\t%q: h.%s,\n", f.Name(), f.Name())
	}
	fmt.Fprintf(&sb, `}

type req struct {
	Harness string   %[1]sjson:"harness"%[1]s
	Inputs  []uint64 %[1]sjson:"inputs"%[1]s
}

func main() {
	// a runaway is a crash of this process, not of others
	if !%[3]v {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 10 << 30, Max: 10 << 30})
	}
	rand.ZZHook = zzsym.NextFrac
	zzsym.ParHook = func(on bool) {
		rand.ZZHook = zzsym.NextFrac
		if on {
			rand.ZZHook = nil
		}
	}
	dec := json.NewDecoder(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	for {
		var r req
		if err := dec.Decode(&r); err != nil {
			return
		}
		zzsym.Start(r.Inputs, %[2]v, os.Args[1])
		enc.Encode(zzsym.Run(all[r.Harness]))
	}
}
`, "`", quick, race)
	mainFile := filepath.Join(work, "main.go")
	if err := os.WriteFile(mainFile, []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	mainDir := "zzmain"
	ov[filepath.Join(repo, mainDir, "main.go")] = mainFile
	// the replayed source of randomness
	out, err := goCmd(repo, "env", "GOROOT")
	if err != nil {
		return nil, err
	}
	rsrc := filepath.Join(strings.TrimSpace(out), "src/math/rand/rand.go")
	b, err := os.ReadFile(rsrc)
	if err != nil {
		return nil, err
	}
	const sig = "func (r *Rand) Float64() float64 {"
	if !bytes.Contains(b, []byte(sig)) {
		return nil, fmt.Errorf("math/rand: method Float64 not found")
	}
	nb := bytes.Replace(b, []byte(sig), []byte(sig+"\n\tif ZZHook != nil {\n\t\treturn ZZHook()\n\t}"), 1)
	for _, f := range []string{"Intn(n int) int", "Int31n(n int32) int32", "Int63n(n int64) int64"} {
		sig := "func (r *Rand) " + f + " {"
		t := f[strings.LastIndex(f, " ")+1:]
		nb = bytes.Replace(nb, []byte(sig), []byte(sig+"\n\tif ZZHook != nil && n > 0 {\n\t\treturn "+t+"(ZZHook() * float64(n))\n\t}"), 1)
	}
	nb = append(nb, []byte("\n// ZZHook replays recorded draws.\nvar ZZHook func() float64\n")...)
	rdst := filepath.Join(work, "rand.go")
	if err := os.WriteFile(rdst, nb, 0o644); err != nil {
		return nil, err
	}
	ov[rsrc] = rdst
	oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(work, "overlay.json")
	if err := os.WriteFile(ovf, oj, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(work, "native")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./"+mainDir)
	if out, err := goCmd(repo, args...); err != nil {
		return nil, fmt.Errorf("native build: %v: %s", err, out)
	}
	return &Native{bin: bin, dir: work, race: race, prog: p}, nil
}

func goCmd(dir string, args ...string) (string, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = goEnv()
	out, err := c.CombinedOutput()
	return string(out), err
}

// one runs a single request in its own process.
func (n *Native) one(r replayReq, tmo time.Duration) replayRes {
	res := n.batch([]replayReq{r}, tmo)
	return res[0]
}

// batch runs requests until the process ends; a request on which the process
// dies or hangs is reported as such and the rest go to a new process.
func (n *Native) batch(rs []replayReq, tmo time.Duration) []replayRes {
	var out []replayRes
	for len(out) < len(rs) {
		todo := rs[len(out):]
		files := filepath.Join(n.dir, "files")
		os.MkdirAll(files, 0o755)
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, r := range todo {
			enc.Encode(r)
		}
		ctx, cancel := context.WithTimeout(context.Background(), tmo)
		c := exec.CommandContext(ctx, n.bin, files)
		c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=2GiB")
		c.Stdin = &in
		var so, se bytes.Buffer
		c.Stdout, c.Stderr = &so, &se
		err := c.Run()
		hang := ctx.Err() != nil
		cancel()
		dec := json.NewDecoder(&so)
		got := 0
		for {
			var r replayRes
			if dec.Decode(&r) != nil {
				break
			}
			out = append(out, r)
			got++
		}
		os.RemoveAll(files)
		if len(out) < len(rs) {
			r := replayRes{Hang: hang}
			if err != nil && !hang {
				r.Crash = firstLines(se.String(), 6)
				r.Race = strings.Contains(se.String(), "DATA RACE")
			} else if !hang {
				r.Crash = "process ended early"
			}
			out = append(out, r)
		}
	}
	return out
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "; ")
}

// confirm replays a violation; it tells whether the real code shows it.
func (n *Native) confirm(v *Violation) (bool, string) {
	tries := 1
	if v.MapPerm {
		tries = 60
	}
	if v.Kind == "frame" {
		tries = 5
	}
	tmo := 20 * time.Second
	var last replayRes
	for i := 0; i < tries; i++ {
		r := n.one(replayReq{v.Harness, v.Inputs}, tmo)
		last = r
		switch {
		case r.Hang:
			return true, "does not terminate (20 s)"
		case r.Race:
			return true, "data race: " + r.Crash
		case r.Crash != "":
			if !strings.Contains(r.Crash, "zzsym") || strings.Contains(r.Crash, "fatal error") {
				return true, "crash: " + r.Crash
			}
		case r.Bad != "" || r.Discard:
		case r.Panic != "":
			return true, "panic: " + r.Panic
		case len(r.Failed) > 0:
			return true, "assertion failed: " + strings.Join(r.Failed, "; ")
		}
	}
	b, _ := json.Marshal(last)
	return false, string(b)
}
