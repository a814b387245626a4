package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

// finding is one entry of known_findings.txt:
//
//	finding: property=C01 harness=Name match=<text of the failure> # what fails
//	fixed: property=C01 <commit> <what failed>
type finding struct {
	prop, harness, match, text string
}

func readFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		f := finding{}
		if i := strings.Index(l, " # "); i >= 0 {
			f.text = strings.TrimSpace(l[i+3:])
			l = l[:i]
		}
		if i := strings.Index(l, " match="); i >= 0 {
			f.match = strings.TrimSpace(l[i+7:])
			l = l[:i]
		}
		for _, w := range strings.Fields(l) {
			if strings.HasPrefix(w, "property=") {
				f.prop = w[9:]
			}
			if strings.HasPrefix(w, "harness=") {
				f.harness = w[8:]
			}
		}
		if f.prop != "" && f.harness != "" && f.match != "" {
			out = append(out, f)
		}
	}
	return out
}

type hreport struct {
	Harness     string         `json:"harness"`
	Bounds      string         `json:"bounds"`
	Paths       int            `json:"paths"`
	Complete    int            `json:"paths_complete"`
	Pruned      int            `json:"paths_pruned_by_assumption"`
	Stopped     map[string]int `json:"paths_stopped,omitempty"`
	Left        int            `json:"paths_left_when_budget_ended"`
	Undecided   int            `json:"undecided_queries"`
	Unsupported map[string]int `json:"unsupported,omitempty"`
	Exhaustive  bool           `json:"exhaustive_within_bounds"`
	Forks       int            `json:"forks"`
	Queries     int            `json:"solver_queries"`
	Sat         int            `json:"sat"`
	Unsat       int            `json:"unsat"`
	Fast        int            `json:"queries_decided_by_byte_domain"`
	Cached      int            `json:"queries_cached"`
	XChecks     int            `json:"byte_domain_verdicts_cross_checked_by_solver"`
	AssertQ     int            `json:"assertion_queries"`
	AssertFold  int            `json:"assertions_true_by_simplification"`
	Asserts     map[string]int `json:"assertions"`
	Reached     map[string]int `json:"reached,omitempty"`
	Unreached   []string       `json:"unreached,omitempty"`
	SolverS     float64        `json:"solver_s"`
	MaxQueryS   float64        `json:"longest_query_s"`
	Steps       uint64         `json:"ssa_steps"`
	Candidates  int            `json:"candidates"`
	Spurious    []string       `json:"unconfirmed_candidates,omitempty"`
	Validated   int            `json:"paths_replayed_natively"`
	Mismatch    []string       `json:"replay_mismatches,omitempty"`
	WallS       float64        `json:"wall_s"`
	MaxDepth    int            `json:"max_decisions"`
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	root := fs.String("root", "/verif", "verif directory")
	bin := fs.String("replay", "", "native replay binary")
	only := fs.String("only", "", "run one harness")
	budget := fs.Float64("budget", 0, "seconds for the whole property")
	nw := fs.Int("workers", 0, "workers")
	seed := fs.Int64("seed", 1, "seed")
	samples := fs.Int("samples", 0, "paths replayed natively per harness")
	verbose := fs.Bool("v", false, "progress")
	fs.Parse(args)
	t0 := time.Now()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(14 << 30)
	if *nw == 0 {
		*nw = runtime.NumCPU()
		if *nw > 8 {
			*nw = 8
		}
	}
	if *budget == 0 {
		*budget = 240
		if *tier == "thorough" {
			*budget = 660
		}
	}
	if *samples == 0 {
		*samples = 200
		if *tier == "thorough" {
			*samples = 1000
		}
	}
	all, err := listHarnesses(*bin)
	if err != nil {
		fmt.Fprintln(os.Stderr, "list:", err)
		return 2
	}
	var hs []harnessInfo
	for _, h := range all {
		if h.Prop != *prop || (*only != "" && h.Name != *only) {
			continue
		}
		if h.Tier == 1 && *tier == "thorough" || h.Tier == 2 && *tier == "quick" {
			continue
		}
		hs = append(hs, h)
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		return 2
	}
	P, order, err := loadProgram(filepath.Join(*root, "harness"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	loadS := time.Since(t0).Seconds()
	known := readFindings(filepath.Join(*root, "known_findings.txt"))
	nat := &native{bin: *bin, deep: *tier == "thorough"}
	defer nat.close()

	ex := &explorer{P: P, tier: *tier, seed: *seed, nworkers: *nw, sampleN: *samples, maxSteps: 20_000_000,
		solverBin: []string{"z3-new", "-in"}}
	if _, err := os.Stat("/usr/local/bin/z3-new"); err != nil {
		if !inPath("z3-new") {
			ex.solverBin = []string{"z3", "-in"}
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < *nw; i++ {
		ex.workers = append(ex.workers, newWorker(ex, i))
	}
	for _, w := range ex.workers {
		wg.Add(1)
		go func(w *worker) { defer wg.Done(); w.baseInit(order) }(w)
	}
	wg.Wait()
	for p, e := range ex.workers[0].in.initErr {
		if P.isModule(p) || *verbose {
			fmt.Fprintf(os.Stderr, "init of %s: %s\n", p, e)
		}
	}
	initS := time.Since(t0).Seconds() - loadS

	printed := map[string]bool{}
	var violations []*violation
	var spurious []string
	knownHit := map[string]bool{}
	var curSpur []string
	var confMu sync.Mutex
	confirm := func(r *run, v *violation) bool {
		confMu.Lock()
		defer confMu.Unlock()
		res := nat.run(v.Harness, v.Inputs)
		switch res.Outcome {
		case "panic", "assert", "hang", "crash":
			v.Confirmed = true
			v.NativeOut = res.Outcome + ": " + res.Msg
			if res.Outcome == "panic" {
				v.NativeOut += panicSite(res.Stack)
			}
			for _, k := range known {
				if k.prop == *prop && k.harness == v.Harness && strings.Contains(v.NativeOut, k.match) {
					v.Key = k.match
					if !knownHit[k.harness+k.match] {
						knownHit[k.harness+k.match] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
					}
					return false
				}
			}
			r.mu.Lock()
			r.viol = append(r.viol, v)
			r.mu.Unlock()
			violations = append(violations, v)
			return true
		default:
			s := fmt.Sprintf("%s: %s inputs=%v native=%s %s", v.Harness, v.Msg, v.Inputs, res.Outcome, res.Msg)
			if len(curSpur) < 10 {
				curSpur = append(curSpur, s)
				spurious = append(spurious, s)
			}
			if *verbose {
				fmt.Fprintln(os.Stderr, "unconfirmed:", s)
				fmt.Fprintln(os.Stderr, v.Trace)
			}
			return false
		}
	}
	ex.onCandidate = confirm

	var reports []hreport
	fns := map[string]int{}
	var sampleOut []any
	tot := hreport{}
	vacuous := []string{}
	deadline := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	sp := ssaProps(P)
	for i, h := range hs {
		fn := sp.Func(h.Name)
		if fn == nil {
			fmt.Fprintln(os.Stderr, "harness function not found:", h.Func)
			return 2
		}
		curSpur = nil
		remain := time.Until(deadline)
		share := remain / time.Duration(len(hs)-i)
		if len(hs)-i > 1 {
			share = share * 2
			if share > remain*7/10 {
				share = remain * 7 / 10
			}
		}
		if share < time.Second {
			share = time.Second
		}
		r := ex.explore(h.Name, *prop, fn, share)
		// native replay of sampled complete paths
		val := 0
		var mism []string
		for _, s := range r.samples {
			if len(violations) > 0 {
				break
			}
			res := nat.run(h.Name, s.inputs)
			val++
			switch {
			case res.Outcome == "panic" || res.Outcome == "assert" || res.Outcome == "hang" || res.Outcome == "crash":
				v := &violation{Harness: h.Name, Msg: "native replay of a path the engine completed", Inputs: s.inputs}
				mism = append(mism, fmt.Sprintf("native %s %s inputs=%v", res.Outcome, res.Msg, s.inputs))
				// what depends on the order of a map, which the engine does not
				// vary, is a mismatch but no counterexample
				stable := true
				for i := 0; i < 4 && stable && res.Outcome != "hang"; i++ {
					stable = nat.run(h.Name, s.inputs).Outcome == res.Outcome
				}
				if stable {
					confirm(r, v)
				}
			case res.Outcome != "ok":
				mism = append(mism, fmt.Sprintf("native %s %s inputs=%v", res.Outcome, res.Msg, s.inputs))
			default:
				if a, b := strings.Join(s.obs, " "), strings.Join(res.Obs, " "); a != b {
					mism = append(mism, fmt.Sprintf("observations differ: engine [%s] native [%s] inputs=%v", a, b, s.inputs))
				}
			}
		}
		for k, v := range r.fns {
			fns[k] += v
		}
		rep := hreport{Harness: h.Name, Bounds: h.Doc, Paths: r.paths, Complete: r.complete, Pruned: r.pruned, Stopped: r.stops, Left: r.leftover, Undecided: r.incomplete,
			Unsupported: r.unsupportedM, Forks: r.forks, Queries: r.queries, Sat: r.qsat, Unsat: r.qunsat, Fast: r.fast, Cached: r.cached, XChecks: r.xchecks,
			AssertQ: r.assertQ, AssertFold: r.assertFold, Asserts: r.asserts, Reached: r.reach, SolverS: r.solverDur.Seconds(), MaxQueryS: r.maxQ.Seconds(), Steps: r.steps,
			Candidates: len(r.cands), Spurious: curSpur, Validated: val, Mismatch: mism, WallS: r.wall.Seconds(), MaxDepth: r.maxDepth}
		if len(mism) > 5 {
			rep.Mismatch = mism[:5]
		}
		rep.Exhaustive = r.leftover == 0 && r.incomplete == 0 && len(r.unsupportedM) == 0 && len(curSpur) == 0 && len(mism) == 0 && r.stopNow == 0
		for _, t := range reachTags(fn) {
			if r.reach[t] == 0 {
				rep.Unreached = append(rep.Unreached, t)
			}
		}
		reports = append(reports, rep)
		tot.Paths += rep.Paths
		tot.Complete += rep.Complete
		tot.Forks += rep.Forks
		tot.Queries += rep.Queries
		tot.Sat += rep.Sat
		tot.Unsat += rep.Unsat
		tot.Fast += rep.Fast
		tot.Cached += rep.Cached
		tot.XChecks += rep.XChecks
		tot.AssertQ += rep.AssertQ
		tot.AssertFold += rep.AssertFold
		tot.SolverS += rep.SolverS
		tot.Validated += rep.Validated
		tot.Steps += rep.Steps
		for k, s := range r.samples {
			if k < 3 {
				sampleOut = append(sampleOut, map[string]any{"harness": h.Name, "inputs": s.inputs, "observed": s.obs})
			}
		}
		if (r.complete == 0 || len(r.asserts) == 0) && len(r.viol) == 0 {
			vacuous = append(vacuous, h.Name)
		}
		if *verbose || len(mism) > 0 || len(r.unsupportedM) > 0 || len(curSpur) > 0 || r.incomplete > 0 || r.leftover > 0 || len(rep.Unreached) > 0 {
			fmt.Fprintf(os.Stderr, "%s %s: %.1fs paths=%d complete=%d pruned=%d stops=%v panics=%d left=%d undecided=%d queries=%d (sat %d unsat %d) fast=%d cached=%d solver=%.1fs maxq=%.2fs asserts=%d/%d validated=%d mismatch=%d spurious=%d unreached=%v unsupported=%v\n", *prop, h.Name, r.wall.Seconds(), r.paths, r.complete, r.pruned, r.stops, r.panics, r.leftover, r.incomplete,
				r.queries, r.qsat, r.qunsat, r.fast, r.cached, r.solverDur.Seconds(), r.maxQ.Seconds(), r.assertQ, r.assertFold, val, len(mism), len(curSpur), rep.Unreached, r.unsupportedM)
			for k, m := range mism {
				if k < 5 {
					fmt.Fprintln(os.Stderr, "  mismatch:", m)
				}
			}
		}
		if len(violations) > 0 {
			break
		}
	}
	exhaustive := len(violations) == 0
	for _, r := range reports {
		exhaustive = exhaustive && r.Exhaustive
	}
	var fnNames []string
	for k := range fns {
		if strings.Contains(k, "direct-connect/go-dc") {
			fnNames = append(fnNames, k)
		}
	}
	sort.Strings(fnNames)
	if sampleOut == nil {
		sampleOut = []any{}
	}
	cov := map[string]any{
		"states":                        tot.Paths,
		"transitions":                   tot.Forks + tot.Paths,
		"traces_validated_against_impl": tot.Validated,
		"samples":                       sampleOut,
		"exhaustive":                    false,
		"exhaustive_within_bounds":      exhaustive,
		"meaning":                       "states are feasible path conditions of the real code's SSA; transitions are symbolic branch outcomes; each validated trace is a completed path whose solver model was run through the natively compiled code with equal observations",
		"functions_encoded":             fnNames,
		"functions_encoded_total":       len(fns),
		"harnesses":                     reports,
		"solver":                        strings.Join(ex.solverBin, " ") + ", fallback cvc5",
		"queries_discharged":            tot.Queries,
		"queries_sat":                   tot.Sat,
		"queries_unsat":                 tot.Unsat,
		"queries_by_byte_domain":        tot.Fast,
		"queries_cached":                tot.Cached,
		"byte_domain_cross_checks":      tot.XChecks,
		"assertion_queries":             tot.AssertQ,
		"assertions_folded_true":        tot.AssertFold,
		"solver_s":                      round2(tot.SolverS),
		"load_s":                        round2(loadS),
		"init_s":                        round2(initS),
		"ssa_steps":                     tot.Steps,
		"unconfirmed_candidates":        spurious,
	}
	ev := map[string]any{"property": *prop, "tier": *tier, "seed": *seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions(fns), "wall_s": round2(time.Since(t0).Seconds()), "violations": len(violations)}
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if *only == "" {
		if err := os.WriteFile(filepath.Join(*root, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for i, v := range violations {
		dir := filepath.Join(*root, "replays")
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, *prop+"-"+v.Harness+"-"+strconv.Itoa(i)+".json")
		b, _ := json.MarshalIndent(map[string]any{"Property": *prop, "Harness": v.Harness, "Inputs": v.Inputs, "Names": v.Names, "Thorough": *tier == "thorough",
			"Message": v.Msg, "Native": v.NativeOut, "Trace": strings.Split(v.Trace, "\n"), "Run": "bash /verif/replay.sh " + f}, "", " ")
		os.WriteFile(f, append(b, '\n'), 0o644)
		if !printed[v.Harness] {
			printed[v.Harness] = true
			fmt.Printf("%s: %s (%s)\n", v.Harness, v.Msg, v.NativeOut)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, f)
		}
	}
	if len(violations) > 0 {
		return 1
	}
	if enginePanics.Load() > 0 && os.Getenv("SYMRETRY") == "" && time.Since(t0) < 300*time.Second {
		// an engine fault leaves part of the space undecided: once more
		fmt.Fprintln(os.Stderr, "engine fault, starting again")
		os.Setenv("SYMRETRY", "1")
		nat.close()
		if exe, err := os.Executable(); err == nil {
			syscall.Exec(exe, os.Args, os.Environ())
		}
	}
	if len(vacuous) > 0 {
		fmt.Fprintln(os.Stderr, "nothing was decided by:", vacuous)
		if len(vacuous) == len(reports) {
			return 2
		}
	}
	fmt.Printf("%s: held (%s) paths=%d queries=%d assertions=%d validated=%d exhaustive-within-bounds=%v %.1fs\n", *prop, *tier, tot.Paths, tot.Queries+tot.Fast+tot.Cached,
		tot.AssertQ+tot.AssertFold, tot.Validated, exhaustive, time.Since(t0).Seconds())
	return 0
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func inPath(b string) bool {
	for _, d := range filepath.SplitList(os.Getenv("PATH")) {
		if _, err := os.Stat(filepath.Join(d, b)); err == nil {
			return true
		}
	}
	return false
}

func ssaProps(P *Program) *ssa.Package {
	return P.prog.ImportedPackage("verif/harness/props")
}

// reachTags lists the constant tags of sym.Reach calls in a harness.
func reachTags(fn *ssa.Function) []string {
	var out []string
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.String() == "verif/harness/sym.Reach" && len(c.Call.Args) == 1 {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						out = append(out, strings.Trim(k.Value.ExactString(), "\""))
					}
				}
			}
		}
	}
	return out
}

// panicSite extracts the first frame of the code under test.
func panicSite(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/direct-connect/go-dc/") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				return " in " + strings.TrimPrefix(l[:i], "github.com/direct-connect/go-dc/")
			}
		}
	}
	return ""
}

func assumptions(fns map[string]int) []string {
	out := []string{
		"bounds per harness as listed under coverage.harnesses[].bounds; nothing is claimed outside them",
		"Go memory model: single goroutine; 64-bit int; allocation never fails",
		"engine semantics of go/ssa (golang.org/x/tools v0.52.0) for go1.26.10, cross-checked by native replay of sampled paths",
		"bytes/strings search and compare kernels (internal/bytealg assembly), strings.Replacer, fmt verbs, reflect, sync and sync/atomic are engine models",
	}
	has := func(s string) bool {
		for k := range fns {
			if strings.Contains(k, s) {
				return true
			}
		}
		return false
	}
	if has("models.NewZlib") || has("models.zlib") || has("models.Zlib") {
		out = append(out, "compress/zlib is replaced by a matched token-frame codec that reads its input byte by byte and stops at the end of its stream")
	}
	if has("models.uf") {
		out = append(out, "Tiger and SHA-256 compression are uninterpreted functions (equal inputs, equal outputs); counterexamples are replayed with the real hashes")
	}
	return out
}
