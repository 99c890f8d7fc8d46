package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type CheckCfg struct {
	Pkg         string   `json:"pkg"`
	Bounds      string   `json:"bounds"`
	Outside     string   `json:"outside"`
	Assumptions []string `json:"assumptions"`
	Solver      string   `json:"solver,omitempty"`
	QuickS      int      `json:"quick_s"`
	ThoroughS   int      `json:"thorough_s"`
	Race        bool     `json:"race"`
}

var (
	flProp    = flag.String("prop", "", "property id")
	flTier    = flag.String("tier", "quick", "quick or thorough")
	flRepo    = flag.String("repo", "/repo", "repository")
	flVerif   = flag.String("verif", "/verif", "verification directory")
	flOnly    = flag.String("only", "", "only harnesses whose name contains this")
	flWorkers = flag.Int("j", 0, "workers")
	flSolver  = flag.String("solver", "", "solver binary")
	flReplay  = flag.String("replay", "", "replay file")
	flVerbose = flag.Bool("v", false, "verbose")
	flBudget  = flag.Int("budget", 0, "total exploration seconds")
	flSetup   = flag.Bool("setup", false, "check that the solvers answer, and stop")
	flFirst   = flag.Bool("first", false, "stop after the first harness that finds a violation (for trying out changes)")
	flOut     = flag.String("evidence", "", "evidence file")
)

func fatal(f string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "ERROR: "+f+"\n", args...)
	os.Exit(2)
}

// knownFindings reads the committed list: lines
//
//	finding: property=C16 label=<label> <text>
func knownFindings(verif string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var prop, label string
		f := strings.Fields(strings.TrimPrefix(l, "finding:"))
		rest := []string{}
		for _, w := range f {
			switch {
			case strings.HasPrefix(w, "property=") && prop == "":
				prop = w[9:]
			case strings.HasPrefix(w, "label=") && label == "":
				label = w[6:]
			default:
				rest = append(rest, w)
			}
		}
		out[prop+"/"+label] = strings.Join(rest, " ")
	}
	return out
}

func main() {
	flag.Parse()
	if p := os.Getenv("VERIF_CPUPROFILE"); p != "" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	if *flSetup {
		for _, s := range []string{"z3", "z3-new", "cvc5"} {
			if _, err := exec.LookPath(s); err != nil {
				fmt.Fprintln(os.Stderr, "ERROR:", err)
				os.Exit(2)
			}
		}
		return
	}
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(14 << 30)
	t0 := time.Now()
	cfgs := map[string]CheckCfg{}
	b, err := os.ReadFile(filepath.Join(*flVerif, "checks.json"))
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(b, &cfgs); err != nil {
		fatal("checks.json: %v", err)
	}
	if *flReplay != "" {
		doReplay(cfgs)
		return
	}
	cfg, ok := cfgs[*flProp]
	if !ok {
		fatal("unknown property %q", *flProp)
	}
	quick := *flTier != "thorough"
	if *flSolver == "" {
		*flSolver = "z3"
		if cfg.Solver != "" {
			*flSolver = cfg.Solver
		}
	}
	budget := cfg.QuickS
	if !quick {
		budget = cfg.ThoroughS
	}
	if budget == 0 {
		budget = 60
	}
	if *flBudget > 0 {
		budget = *flBudget
	}
	p, err := Load(*flRepo, *flVerif, cfg.Pkg)
	if err != nil {
		fatal("%v", err)
	}
	tLoad := time.Since(t0)
	work, err := os.MkdirTemp("", "zzverif")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(work)
	type nb struct {
		n   *Native
		err error
	}
	nch := make(chan nb, 1)
	go func() {
		n, err := buildNative(p, *flRepo, cfg.Pkg, work, cfg.Race, quick)
		nch <- nb{n, err}
	}()
	nw := *flWorkers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	tmo := 10000
	if !quick {
		tmo = 60000
	}
	var ms []*Machine
	for i := 0; i < nw; i++ {
		ms = append(ms, NewMachine(p, *flSolver, tmo))
	}
	var runs []*HarnessRun
	hs := p.harnesses()
	var sel []int
	for i, f := range hs {
		if *flOnly == "" || strings.Contains(f.Name(), *flOnly) {
			sel = append(sel, i)
		}
	}
	deadline := time.Now().Add(time.Duration(budget) * time.Second)
	for k, i := range sel {
		left := time.Until(deadline)
		// a harness may use most of what is left, the others keep a little
		share := left - time.Duration(len(sel)-k-1)*3*time.Second
		if fair := left * 6 / 10; share > fair && k < len(sel)-1 {
			share = fair
		}
		if share < 3*time.Second {
			share = 3 * time.Second
		}
		h := NewHarnessRun(p, hs[i], quick)
		h.Run(ms, share)
		runs = append(runs, h)
		if *flVerbose {
			printRun(h)
		}
		if h.engineErr != "" && *flVerbose {
			fmt.Println("engine:", h.engineErr)
		}
		if *flFirst && len(h.violations)+len(h.limits) > 0 {
			break
		}
	}
	for _, m := range ms {
		m.solver.Shutdown()
	}
	nbr := <-nch
	if nbr.err != nil {
		os.RemoveAll(work)
		fatal("%v", nbr.err)
	}
	code := report(cfg, p, runs, nbr.n, quick, t0, tLoad)
	os.RemoveAll(work)
	pprof.StopCPUProfile()
	os.Exit(code)
}

func printRun(h *HarnessRun) {
	fmt.Printf("%s: paths=%d (ok %d, discarded %d, violation %d, unsupported %d, limit %d) exhausted=%v steps=%d maxpath=%d time=%.1fs queries=%d solver=%.1fs(cpu) forks=%d implied=%d byfact=%d summaries=%d asserts=%d\n",
		h.name, h.paths, h.outcomes[OutOK], h.outcomes[OutDiscard], h.outcomes[OutViolation], h.outcomes[OutUnsupported], h.outcomes[OutLimit],
		h.exhausted, h.steps, h.maxPath, h.elapsed.Seconds(), h.sstats.Queries, h.sstats.Time.Seconds(), h.mstats.Forks, h.mstats.Implied, h.mstats.ByFact, h.mstats.Summaries, h.mstats.Asserts)
	for _, k := range sortedKeys(h.outMsgs) {
		fmt.Printf("    %d x %s\n", h.outMsgs[k], k)
	}
	for _, k := range sortedKeys(h.known) {
		fmt.Printf("    known %d x %s\n", h.known[k], k)
	}
	for i, v := range h.violations {
		if i >= 6 {
			fmt.Printf("    ... %d more\n", len(h.violations)-i)
			break
		}
		fmt.Printf("    candidate: %s %q inputs=%v\n      %s\n", v.Kind, v.Msg, v.Inputs, strings.Join(v.Stack, "\n      "))
	}
}

type confirmed struct {
	v    *Violation
	text string
	path string
}

func report(cfg CheckCfg, p *Program, runs []*HarnessRun, nat *Native, quick bool, t0 time.Time, tLoad time.Duration) int {
	prop := *flProp
	known := knownFindings(*flVerif)
	outDir := filepath.Join(*flVerif, "evidence")
	repDir := filepath.Join(outDir, "replay")
	os.MkdirAll(repDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(repDir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}

	// translator validation on samples
	var reqs []replayReq
	var smp []*sample
	var smpH []string
	for _, h := range runs {
		for i := range h.samples {
			reqs = append(reqs, replayReq{h.name, h.samples[i].inputs})
			smp = append(smp, &h.samples[i])
			smpH = append(smpH, h.name)
		}
	}
	validated, mismatched := 0, 0
	var mism []string
	res := nat.batch(reqs, 120*time.Second)
	for i, r := range res {
		ok := r.Bad == "" && !r.Discard && r.Panic == "" && r.Crash == "" && !r.Hang && len(r.Failed) == 0 && eqStrings(r.Obs, smp[i].obs)
		if !ok && smp[i].mapPerm {
			for k := 0; k < 40 && !ok; k++ {
				r = nat.one(reqs[i], 20*time.Second)
				ok = r.Bad == "" && !r.Discard && r.Panic == "" && r.Crash == "" && len(r.Failed) == 0 && eqStrings(r.Obs, smp[i].obs)
			}
		}
		if ok {
			validated++
		} else {
			mismatched++
			rj, _ := json.Marshal(r)
			mism = append(mism, fmt.Sprintf("%s inputs=%v engine=%v native=%s", smpH[i], smp[i].inputs, smp[i].obs, rj))
		}
	}

	// violations
	var conf []confirmed
	var unconf []string
	seen := map[string]int{}
	for _, h := range runs {
		cand := append(append([]*Violation(nil), h.violations...), h.limits...)
		for _, v := range cand {
			k := v.Harness + "|" + v.Kind + "|" + digits.ReplaceAllString(v.Msg, "#")
			if seen[k] > 0 || len(conf) >= 12 {
				continue
			}
			ok, text := nat.confirm(v)
			if !ok {
				if v.Kind != "hang" {
					unconf = append(unconf, fmt.Sprintf("%s: %s inputs=%v: %s", v.Harness, v.Msg, v.Inputs, text))
				}
				continue
			}
			seen[k]++
			path := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", prop, len(conf)+1))
			rj, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "violation": v, "native": text, "tier": *flTier,
				"command": fmt.Sprintf("bash %s/run.sh -replay %s", *flVerif, path)}, "", " ")
			os.WriteFile(path, rj, 0o644)
			conf = append(conf, confirmed{v, text, path})
		}
	}
	// a native failure on a sample is a violation as well: the engine thought
	// the path was fine, the real code disagrees
	for i, r := range res {
		if len(conf) >= 12 {
			break
		}
		if r.Bad != "" || r.Discard {
			continue
		}
		if r.Panic != "" || len(r.Failed) > 0 || r.Crash != "" {
			v := &Violation{Harness: smpH[i], Msg: "replayed path fails natively", Inputs: smp[i].inputs, Kinds: smp[i].kinds, Kind: "replay", MapPerm: smp[i].mapPerm}
			k := v.Harness + "|native"
			if seen[k] > 0 {
				continue
			}
			seen[k]++
			ok, text := nat.confirm(v)
			if !ok {
				continue
			}
			path := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", prop, len(conf)+1))
			rj, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "violation": v, "native": text, "tier": *flTier,
				"command": fmt.Sprintf("bash %s/run.sh -replay %s", *flVerif, path)}, "", " ")
			os.WriteFile(path, rj, 0o644)
			conf = append(conf, confirmed{v, text, path})
		}
	}

	// known findings
	var knownSeen []string
	labels := map[string]int64{}
	for _, h := range runs {
		for l, n := range h.known {
			labels[l] += n
		}
	}
	for _, l := range sortedKeys(labels) {
		if txt, ok := known[prop+"/"+l]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, l, txt)
			knownSeen = append(knownSeen, l)
		} else {
			conf = append(conf, confirmed{&Violation{Msg: "unlisted finding " + l}, "finding label not in known-findings.txt", ""})
		}
	}

	// evidence
	var paths, okPaths, disc, uns, lim, steps, decisions, asserts, trivial, forks, implied, byfact, summaries, subPaths int64
	var q, sat, unsat, unk int
	var fallb, confd, disag int
	var stime, maxQ time.Duration
	exhausted := true
	incomplete := []string{}
	fns := map[string]int64{}
	perH := []map[string]interface{}{}
	assertMsgs := map[string]int64{}
	reach := map[string]int64{}
	for _, h := range runs {
		paths += h.paths
		okPaths += h.outcomes[OutOK]
		disc += h.outcomes[OutDiscard]
		uns += h.outcomes[OutUnsupported] + h.outcomes[OutEngine]
		lim += h.outcomes[OutLimit]
		steps += h.steps
		decisions += h.decisions
		asserts += h.mstats.Asserts
		trivial += h.mstats.AssertsTrivial
		forks += h.mstats.Forks
		implied += h.mstats.Implied
		byfact += h.mstats.ByFact
		summaries += h.mstats.Summaries
		subPaths += h.mstats.SubPaths
		q += h.sstats.Queries
		sat += h.sstats.Sat
		unsat += h.sstats.Unsat
		unk += h.sstats.Unknown
		stime += h.sstats.Time
		fallb += h.sstats.Fallback
		confd += h.sstats.Confirmed
		disag += h.sstats.Disagree
		if h.sstats.MaxQuery > maxQ {
			maxQ = h.sstats.MaxQuery
		}
		if !h.exhausted {
			exhausted = false
			incomplete = append(incomplete, h.name+": time budget ended before all paths were explored")
		}
		for _, k := range sortedKeys(h.outMsgs) {
			if !strings.HasPrefix(k, "violation") {
				incomplete = append(incomplete, fmt.Sprintf("%s: %d paths ended with %s", h.name, h.outMsgs[k], k))
			}
		}
		for k, n := range h.unknowns {
			incomplete = append(incomplete, fmt.Sprintf("%s: assertion %q undecided on %d paths", h.name, k, n))
		}
		if h.outcomes[OutOK] == 0 {
			incomplete = append(incomplete, h.name+": no path completed")
		}
		if h.sstats.Disagree > 0 {
			incomplete = append(incomplete, h.name+": solvers disagree")
		}
		for f, n := range h.fns {
			if p.isRepoFn(f) {
				fns[f.String()] += n
			}
		}
		for k, n := range h.asserts {
			assertMsgs[k] += n
		}
		for k, n := range h.reach {
			reach[k] += n
		}
		perH = append(perH, map[string]interface{}{"harness": h.name, "paths": h.paths, "completed": h.outcomes[OutOK], "discarded": h.outcomes[OutDiscard],
			"exhausted": h.exhausted, "instructions": h.steps, "queries": h.sstats.Queries, "solver_cpu_s": round(h.sstats.Time), "wall_s": round(h.elapsed)})
	}
	if uns > 0 || lim > 0 || unk > 0 {
		exhausted = false
	}
	var fnList []string
	for f := range fns {
		fnList = append(fnList, f)
	}
	sort.Strings(fnList)
	var samples []interface{}
	for i, s := range smp {
		if i < 12 || i%10 == 0 {
			samples = append(samples, map[string]interface{}{"harness": smpH[i], "inputs": clipAny(s.inputs), "observed": clipList(s.obs)})
		}
		if len(samples) >= 30 {
			break
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none: no path completed")
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"states":                        paths,
		"transitions":                   decisions,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"exhaustive":                    exhausted,
		"explanation":                   "states = symbolic paths explored (each stands for all values satisfying its path condition); transitions = symbolic decisions on them; traces_validated_against_impl = completed paths whose solver model was replayed on the natively compiled code with identical observations",
		"bounds":                        cfg.Bounds,
		"outside_bounds":                cfg.Outside,
		"completed_paths":               okPaths,
		"discarded_paths":               disc,
		"unsupported_paths":             uns,
		"limit_paths":                   lim,
		"incomplete":                    incomplete,
		"ssa_instructions":              steps,
		"assertions_checked":            asserts,
		"assertions_constant":           trivial,
		"assertion_sites":               assertMsgs,
		"reachability_witnesses":        reach,
		"forks":                         forks,
		"decisions_implied_by_solver":   implied,
		"decisions_by_interval_facts":   byfact,
		"function_summaries":            summaries,
		"summary_paths":                 subPaths,
		"solver":                        map[string]interface{}{"binary": *flSolver, "queries": q, "sat": sat, "unsat": unsat, "unknown": unk, "cpu_s": round(stime), "max_query_s": round(maxQ), "answered_by_second_solver": fallb, "unsat_confirmed_by_second_solver": confd, "solver_disagreements": disag},
		"functions_encoded":             fnList,
		"harnesses":                     perH,
		"translator_mismatches":         clipList(mism),
		"unconfirmed_candidates":        clipList(unconf),
		"known_findings":                knownSeen,
		"init_not_modelled":             p.initFail,
		"load_s":                        round(tLoad),
	}
	ev := map[string]interface{}{
		"property": prop, "tier": *flTier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": cfg.Assumptions, "wall_s": round(time.Since(t0)), "violations": len(conf),
	}
	ef := *flOut
	if ef == "" {
		ef = filepath.Join(outDir, prop+".json")
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(ef, append(eb, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths (%d completed, %d discarded), exhausted=%v, %d assertions, %d queries (%d sat, %d unsat, %d unknown, %.1f s cpu), %d/%d replays agree, wall %.1f s\n",
		prop, *flTier, len(runs), paths, okPaths, disc, exhausted, asserts, q, sat, unsat, unk, stime.Seconds(), validated, len(smp), time.Since(t0).Seconds())
	for _, s := range incomplete {
		fmt.Println("INCOMPLETE:", s)
	}
	for _, s := range mism {
		fmt.Println("MISMATCH:", clip(s, 4000))
	}
	for _, s := range unconf {
		fmt.Println("UNCONFIRMED:", clip(s, 4000))
	}
	if len(conf) > 0 {
		for _, c := range conf {
			fmt.Printf("  %s %s: %s [%s]\n", c.v.Harness, c.v.Kind, clip(c.v.Msg, 400), clip(c.text, 1000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, c.path)
		}
		return 1
	}
	if okPaths == 0 {
		fmt.Println("ERROR: nothing was explored")
		return 2
	}
	return 0
}

// clip shortens a text for a report.
func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return fmt.Sprintf("%s… (%d bytes)", strings.ToValidUTF8(s[:n], "?"), len(s))
}

// clipList shortens a list of texts for a report.
func clipList(l []string) []string {
	out := []string{}
	for i, s := range l {
		if i == 60 {
			return append(out, fmt.Sprintf("… (%d entries)", len(l)))
		}
		out = append(out, clip(s, 300))
	}
	return out
}

// clipAny shortens a list of numbers.
func clipAny(l []uint64) interface{} {
	if len(l) <= 200 {
		return l
	}
	return map[string]interface{}{"first": l[:200], "count": len(l)}
}

// digits tells messages apart only by their text.
var digits = regexp.MustCompile(`[0-9]+`)

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func round(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }

func doReplay(cfgs map[string]CheckCfg) {
	b, err := os.ReadFile(*flReplay)
	if err != nil {
		fatal("%v", err)
	}
	var r struct {
		Property  string     `json:"property"`
		Tier      string     `json:"tier"`
		Violation *Violation `json:"violation"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	cfg := cfgs[r.Property]
	p, err := Load(*flRepo, *flVerif, cfg.Pkg)
	if err != nil {
		fatal("%v", err)
	}
	work, _ := os.MkdirTemp("", "zzverif")
	defer os.RemoveAll(work)
	n, err := buildNative(p, *flRepo, cfg.Pkg, work, cfg.Race, r.Tier != "thorough")
	if err != nil {
		fatal("%v", err)
	}
	ok, text := n.confirm(r.Violation)
	fmt.Printf("%s: reproduced=%v: %s\n", r.Violation.Harness, ok, text)
	os.RemoveAll(work)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, *flReplay)
		os.Exit(1)
	}
}
