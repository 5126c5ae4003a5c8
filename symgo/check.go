package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type knownFinding struct {
	property, harness, label, text string
}

// readKnown parses known_findings.txt. Lines:
//
//	known: property=<id> harness=<name> label="<label>" <what fails>
//	fixed: property=<id> <commit> <what failed>     (suppresses nothing)
func readKnown() (ks []knownFinding) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) label="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			ks = append(ks, knownFinding{m[1], m[2], m[3], m[4]})
		}
	}
	return
}

type harnessEv struct {
	Harness     string         `json:"harness"`
	Bound       string         `json:"bound,omitempty"`
	Complete    bool           `json:"complete_within_bound"`
	Paths       int            `json:"paths"`
	Infeasible  int            `json:"infeasible_prefixes"`
	Asserts     int            `json:"assertions_checked"`
	Structural  int            `json:"assertions_decided_by_term_simplification"`
	Queries     int            `json:"solver_queries"`
	Unsat       int            `json:"unsat"`
	Sat         int            `json:"sat"`
	Unknown     int            `json:"unknown"`
	SolverS     float64        `json:"solver_s"`
	MaxQueryS   float64        `json:"max_query_s"`
	Fallbacks   int            `json:"portfolio_fallbacks,omitempty"`
	WallS       float64        `json:"wall_s"`
	Goroutines  int            `json:"max_goroutines,omitempty"`
	Covers      map[string]int `json:"reached,omitempty"`
	Unsupported map[string]int `json:"unsupported,omitempty"`
	Unexplored  int            `json:"unexplored_prefixes,omitempty"`
	Validated   int            `json:"traces_validated"`
	Mismatch    []string       `json:"trace_mismatches,omitempty"`
	Unconfirmed []string       `json:"candidates_not_reproduced,omitempty"`
}

func round2(x float64) float64 { return float64(int(x*100+0.5)) / 100 }

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "property id")
	tierS := fs.String("tier", "", "quick or thorough")
	only := fs.String("harness", "", "only harnesses with that prefix")
	fs.Parse(args)
	tier := 0
	if *tierS == "" {
		*tierS = os.Getenv("VERIF_TIER")
	}
	if *tierS == "thorough" {
		tier = 1
	} else {
		*tierS = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	total := 80 * time.Second
	if tier == 1 {
		total = 600 * time.Second
	}
	p, err := load(filepath.Join(verifDir(), "harness"), false)
	if err != nil {
		fmt.Println("ERROR cannot encode the current tree:", err)
		os.Exit(2)
	}
	var names []string
	for _, n := range sortedKeys(p.harness) {
		if strings.HasPrefix(n, *prop+"_") && strings.HasPrefix(n, *only) {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		fmt.Println("ERROR no harness for", *prop)
		os.Exit(2)
	}
	known := readKnown()
	nat := newNative()
	// the native replay binary is built while the engine works
	go nat.bin(false)

	var (
		mu       sync.Mutex
		evs      []harnessEv
		funcs    = map[string]int{}
		blocks   = map[string][2]int{}
		samples  []any
		nviol    int
		violTxt  []string
		reduced  []string
		states   int
		trans    int64
		trunc    bool
		knownHit = map[string]bool{}
	)
	finish := func() {
		mu.Lock()
		defer mu.Unlock()
		writeEvidence(*prop, *tierS, seed, time.Since(t0), evs, funcs, blocks, samples, states, trans, nviol, violTxt, reduced)
		nat.close()
		for _, r := range reduced {
			fmt.Println("REDUCED-BOUND", r)
		}
		_ = trunc
		if nviol > 0 {
			os.Exit(1)
		}
		os.Exit(0)
	}
	limit := 280 * time.Second
	if tier == 1 {
		limit = 850 * time.Second
	}
	go func() {
		time.Sleep(limit)
		mu.Lock()
		reduced = append(reduced, "the check stopped at its own time limit")
		mu.Unlock()
		finish()
	}()

	for i, n := range names {
		cfg := configFor(p.doc[n], tier)
		left := total - time.Since(t0)
		if left < 3*time.Second {
			mu.Lock()
			reduced = append(reduced, n+": not run, time budget used up")
			mu.Unlock()
			continue
		}
		share := left
		if rest := len(names) - i; rest > 1 {
			share = left * 2 / time.Duration(rest+1)
		}
		if cfg.Budget > share {
			cfg.Budget = share
		}
		e := p.engine(p.harness[n], cfg)
		r := e.Run()
		ev := harnessEv{Harness: n, Bound: strings.TrimSpace(directives(p.doc[n])["bound"]), Paths: r.Paths, Infeasible: r.Infeasible,
			Asserts: r.Asserts, Structural: r.Structural, Queries: r.Solver.Queries, Unsat: r.Solver.UnsatN, Sat: r.Solver.SatN, Unknown: r.Solver.UnknownN,
			SolverS: round2(r.Solver.Time.Seconds()), MaxQueryS: round2(r.Solver.MaxQuery.Seconds()), Fallbacks: r.Solver.Fallbacks,
			WallS: round2(r.Wall.Seconds()), Covers: r.Covers, Unsupported: r.Unsup, Unexplored: r.Leftover}
		if r.Goroutines > 1 {
			ev.Goroutines = r.Goroutines
		}
		var red []string
		if r.Leftover > 0 {
			red = append(red, fmt.Sprintf("%d prefixes unexplored at the time limit", r.Leftover))
		}
		if r.Unknowns > 0 {
			red = append(red, fmt.Sprintf("%d assertions undecided by the solvers", r.Unknowns))
		}
		for _, u := range sortedKeys(r.Unsup) {
			red = append(red, fmt.Sprintf("%d paths cut: %s", r.Unsup[u], clip1(u, 200)))
		}
		for _, f := range r.Fatal {
			red = append(red, "engine: "+clip1(f, 300))
		}
		for _, c := range strings.Fields(directives(p.doc[n])["cover"]) {
			if r.Covers[c] == 0 {
				red = append(red, "no path reached "+c)
			}
		}
		if r.Paths == 0 && len(r.Fatal) == 0 {
			red = append(red, "no path completed")
		}
		// candidates: only what the real code reproduces is reported
		type lk struct{ label, kind string }
		tried := map[lk]int{}
		confirmed := map[lk]bool{}
		for _, v := range append(append([]*violation{}, r.Viols...), r.Hangs...) {
			k := lk{v.Label, v.Kind}
			lim := 8
			if v.Kind == "hang" || v.Kind == "deadlock" || v.Kind == "race" {
				lim = 3
			}
			if confirmed[k] || tried[k] >= lim {
				continue
			}
			tried[k]++
			ok, out := nat.confirm(n, tier, v)
			if !ok {
				if tried[k] == 1 {
					b, _ := json.Marshal(v.Inputs)
					ev.Unconfirmed = append(ev.Unconfirmed, clip1(fmt.Sprintf("%s [%s] %s: %s", v.Label, v.Kind, b, out), 600))
				}
				continue
			}
			confirmed[k] = true
			if kf := matchKnown(known, *prop, n, v.Label); kf != nil {
				if !knownHit[kf.text] {
					knownHit[kf.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, kf.text)
				}
				continue
			}
			mu.Lock()
			path := writeReplay(*prop, n, tier, v, out)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			fmt.Printf("  %s: %s [%s]\n  real code: %s\n", n, v.Label, v.Kind, out)
			nviol++
			violTxt = append(violTxt, fmt.Sprintf("%s: %s (%s) replay %s", n, v.Label, v.Kind, path))
			mu.Unlock()
		}
		// sampled path models are replayed and compared with the real code
		good, bad, msgs := nat.validate(n, tier, r.Samples)
		ev.Validated = good
		ev.Mismatch = msgs
		if bad > 0 {
			red = append(red, fmt.Sprintf("%d sampled traces differ from the real code", bad))
		}
		ev.Complete = len(red) == 0 && len(r.Viols) == 0
		mu.Lock()
		for _, x := range red {
			reduced = append(reduced, n+": "+x)
		}
		evs = append(evs, ev)
		for f, c := range r.Funcs {
			funcs[f] += c
		}
		for f, b := range r.BlocksSeen {
			o := blocks[f]
			if b[0] > o[0] {
				o[0] = b[0]
			}
			o[1] = b[1]
			blocks[f] = o
		}
		for k := 0; k < len(r.Samples) && k < 2; k++ {
			samples = append(samples, map[string]any{"harness": n, "inputs": r.Samples[k].Inputs, "observed": r.Samples[k].Observes})
		}
		states += r.Decisions
		trans += r.Steps
		mu.Unlock()
		fmt.Printf("%s: %d paths, %d assertions, %d queries (%.1fs solver), %d traces agree, %.1fs\n", n, r.Paths, r.Asserts, r.Solver.Queries, r.Solver.Time.Seconds(), good, r.Wall.Seconds())
		for _, u := range ev.Unconfirmed {
			fmt.Println("  not reproduced by the real code, not reported:", u)
		}
		for _, m := range msgs {
			fmt.Println("  trace differs:", clip1(m, 500))
		}
		if nviol > 0 {
			break
		}
	}
	finish()
}

func clip1(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func matchKnown(ks []knownFinding, prop, harness, label string) *knownFinding {
	for i := range ks {
		if ks[i].property == prop && ks[i].harness == harness && ks[i].label == label {
			return &ks[i]
		}
	}
	return nil
}

func writeReplay(prop, harness string, tier int, v *violation, out string) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0755)
	clean := regexp.MustCompile(`[^A-Za-z0-9]+`).ReplaceAllString(v.Label, "_")
	if len(clean) > 40 {
		clean = clean[:40]
	}
	f := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", harness, v.Kind, clean))
	ri := replayInput{Property: prop, Harness: harness, Tier: tier, Label: v.Label, Kind: v.Kind, Where: v.Where, Inputs: v.Inputs,
		HowTo: "cd /verif && ./check.sh replay " + f}
	b, _ := json.MarshalIndent(ri, "", " ")
	os.WriteFile(f, append(b, '\n'), 0644)
	return f
}

func cmdReplay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var ri replayInput
	if err := json.Unmarshal(b, &ri); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	nat := newNative()
	ok, out := nat.confirm(ri.Harness, ri.Tier, &violation{Label: ri.Label, Kind: ri.Kind, Inputs: ri.Inputs})
	nat.close()
	fmt.Println(out)
	if ok {
		fmt.Println("reproduced:", ri.Label)
		os.Exit(1)
	}
	fmt.Println("not reproduced")
}

func writeEvidence(prop, tier string, seed int, wall time.Duration, evs []harnessEv, funcs map[string]int, blocks map[string][2]int, samples []any, states int, trans int64, nviol int, viols, reduced []string) {
	type fnEv struct {
		n string
		c int
	}
	var fl []fnEv
	for n, c := range funcs {
		fl = append(fl, fnEv{n, c})
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].n < fl[j].n })
	fm := map[string]string{}
	for _, f := range fl {
		b := blocks[f.n]
		fm[strings.ReplaceAll(f.n, "github.com/rom1mouret/ml-essentials/", "")] = fmt.Sprintf("%d instrs, %d/%d blocks", f.c, b[0], b[1])
	}
	q, us, sa, un, as, st, val, paths := 0, 0, 0, 0, 0, 0, 0, 0
	sol := 0.0
	for _, e := range evs {
		q += e.Queries
		us += e.Unsat
		sa += e.Sat
		un += e.Unknown
		as += e.Asserts
		st += e.Structural
		sol += e.SolverS
		val += e.Validated
		paths += e.Paths
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if samples == nil {
		samples = []any{}
	}
	if len(reduced) > 20 {
		reduced = reduced[:20]
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round2(wall.Seconds()),
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples,
			"states_are":        "symbolic execution states at which a decision over symbolic inputs, map order, schedule or random choice was taken or a path ended",
			"transitions_are":   "SSA instructions of the real code and its dependencies executed symbolically",
			"paths_completed":   paths,
			"queries":           map[string]any{"total": q, "unsat": us, "sat": sa, "unknown": un, "solver_s": round2(sol)},
			"assertions":        map[string]int{"checked": as, "decided_by_term_simplification": st},
			"functions_encoded": fm,
			"harnesses":         evs,
			"reduced_bounds":    reduced,
		},
		"assumptions": []string{
			"Go semantics as implemented by symgo over golang.org/x/tools/go/ssa (no memory-model weak behaviours; NaN payloads not distinguished)",
			"standard-library calls listed as intrinsics or shims in symgo/intrinsics.go and harness/shim behave as documented (sort, rand, os files, fmt, strconv floats, encoding/json)",
			"values outside the bounds stated per harness are not covered",
		},
	}
	if len(viols) > 0 {
		ev["violations"] = nviol
		ev["coverage"].(map[string]any)["violations_found"] = viols
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	write := func() []byte {
		b, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			fmt.Println("ERROR evidence:", err)
		}
		return b
	}
	b := write()
	if len(b) > 60000 {
		ev["coverage"].(map[string]any)["samples"] = samples[:1]
		b = write()
	}
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0644)
}
