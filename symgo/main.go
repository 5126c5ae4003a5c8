package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo check|run|list|selftest ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2])
	case "run":
		cmdRun(os.Args[2:])
	case "list":
		p, err := load(filepath.Join(verifDir(), "harness"), false)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, n := range sortedKeys(p.harness) {
			fmt.Println(n)
		}
	case "selftest":
		cmdSelftest(os.Args[2:])
	default:
		os.Exit(2)
	}
}

// directives parses "sym: key=value ..." lines of a harness comment.
func directives(doc string) map[string]string {
	m := map[string]string{}
	for _, l := range strings.Split(doc, "\n") {
		l = strings.TrimSpace(l)
		if t, ok := strings.CutPrefix(l, "sym:"); ok {
			for _, kv := range strings.Fields(t) {
				k, v, _ := strings.Cut(kv, "=")
				m[k] = v
			}
		}
		if t, ok := strings.CutPrefix(l, "bound:"); ok {
			m["bound"] += strings.TrimSpace(t) + " "
		}
		if t, ok := strings.CutPrefix(l, "cover:"); ok {
			m["cover"] += " " + t
		}
	}
	return m
}

func configFor(doc string, tier int) Config {
	d := directives(doc)
	c := Config{Tier: tier, Solver: "z3", TimeoutMs: 3000, Steps: 400000, Budget: 45 * time.Second, Workers: 8, Samples: 4}
	if tier == 1 {
		c.Budget = 240 * time.Second
		c.TimeoutMs = 15000
		c.Steps = 4000000
		c.Samples = 12
	}
	if v, ok := d["solver"]; ok {
		c.Solver = v
	}
	num := func(k string, p *int) {
		if v, ok := d[k]; ok {
			if n, err := strconv.Atoi(v); err == nil {
				*p = n
			}
		}
	}
	num("steps", &c.Steps)
	num("samples", &c.Samples)
	num("timeout", &c.TimeoutMs)
	if v, ok := d["budget"]; ok {
		if n, err := strconv.Atoi(v); err == nil {
			c.Budget = time.Duration(n) * time.Second
			if tier == 1 {
				c.Budget *= 6
			}
		}
	}
	return c
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	name := fs.String("harness", "", "harness name or prefix")
	tier := fs.Int("tier", 0, "0 quick, 1 thorough")
	workers := fs.Int("workers", 8, "workers")
	budget := fs.Int("budget", 0, "seconds")
	prof := fs.String("prof", "", "cpu profile")
	nonative := fs.Bool("nonative", false, "skip native replay")
	per := fs.Int("per", 1, "candidates replayed per label")
	maxPaths := fs.Int("paths", 0, "stop after that many paths")
	fs.Parse(args)
	t0 := time.Now()
	p, err := load(filepath.Join(verifDir(), "harness"), false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, n := range sortedKeys(p.harness) {
		if !strings.HasPrefix(n, *name) {
			continue
		}
		cfg := configFor(p.doc[n], *tier)
		cfg.Workers = *workers
		cfg.MaxPaths = *maxPaths
		if *budget > 0 {
			cfg.Budget = time.Duration(*budget) * time.Second
		}
		e := p.engine(p.harness[n], cfg)
		r := e.Run()
		printReport(r)
		for u := range e.uninit {
			fmt.Println("  uses uninitialised global", u)
		}
		if *nonative {
			for _, v := range append(r.Viols, r.Hangs...) {
				b, _ := json.Marshal(v.Inputs)
				fmt.Printf("  CANDIDATE %s [%s] %s\n     %s\n", v.Label, v.Kind, b, v.Where)
			}
			continue
		}
		nat := newNative()
		shown := map[string]int{}
		for _, v := range append(append([]*violation{}, r.Viols...), r.Hangs...) {
			if shown[v.Label]++; shown[v.Label] > *per {
				continue
			}
			b, _ := json.Marshal(v.Inputs)
			ok, out := nat.confirm(n, *tier, v)
			fmt.Printf("  CANDIDATE confirmed=%v %s [%s] %s\n     at %s\n     native: %s\n", ok, v.Label, v.Kind, clip1(compact(v.Inputs), 300), clip1(v.Where, 300), clip1(out, 400))
			_ = b
		}
		good, bad, msgs := nat.validate(n, *tier, r.Samples)
		fmt.Printf("  traces: %d agree, %d differ %v\n", good, bad, msgs)
		nat.close()
	}
}

func printReport(r *Report) {
	fmt.Printf("%s: paths=%d infeasible=%d left=%d decisions=%d steps=%d asserts=%d (structural %d) queries=%d (sat %d unsat %d unknown %d fallback %d) solver=%.1fs max=%.2fs wall=%.1fs unknowns=%d maybeInf=%d gor=%d\n",
		r.Harness, r.Paths, r.Infeasible, r.Leftover, r.Decisions, r.Steps, r.Asserts, r.Structural, r.Solver.Queries, r.Solver.SatN, r.Solver.UnsatN, r.Solver.UnknownN, r.Solver.Fallbacks, r.Solver.Time.Seconds(), r.Solver.MaxQuery.Seconds(), r.Wall.Seconds(), r.Unknowns, r.MaybeInf, r.Goroutines)
	for _, k := range sortedKeys(r.Unsup) {
		fmt.Printf("  unsupported x%d: %s\n", r.Unsup[k], k)
	}
	for _, f := range r.Fatal {
		fmt.Println("  FATAL", f)
	}
	var cs []string
	for k, v := range r.Covers {
		cs = append(cs, fmt.Sprintf("%s:%d", k, v))
	}
	sort.Strings(cs)
	fmt.Println("  covers", cs)
}

func cmdSelftest(args []string) {
	p, err := load(filepath.Join(verifDir(), "harness"), true)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	pat := ""
	if len(args) > 0 {
		pat = args[0]
	}
	ok, bad, uns := 0, 0, 0
	seen := map[string]bool{}
	for _, n := range sortedKeys(p.tests) {
		if seen[n] || !strings.Contains(n, pat) {
			continue
		}
		seen[n] = true
		e := p.engine(p.tests[n], Config{Solver: "z3", TimeoutMs: 3000, Steps: 50000000, Budget: 60 * time.Second, Workers: 1})
		r := e.Run()
		switch {
		case len(r.Viols) > 0:
			bad++
			fmt.Println("FAIL", n, r.Viols[0].Label, r.Viols[0].Where)
		case len(r.Unsup) > 0 || len(r.Fatal) > 0 || r.Paths == 0:
			uns++
			fmt.Println("UNSUPPORTED", n, sortedKeys(r.Unsup), r.Fatal)
		default:
			ok++
			fmt.Println("ok", n, r.Steps)
		}
	}
	fmt.Printf("selftest: %d agree, %d differ, %d unsupported\n", ok, bad, uns)
	if bad > 0 {
		os.Exit(1)
	}
}

// compact prints an assignment on one line.
func compact(m map[string]inputVal) string {
	var sb strings.Builder
	for _, k := range sortedKeys(m) {
		v := m[k].Val
		if m[k].Kind == "int" {
			if u, err := strconv.ParseUint(v, 10, 64); err == nil {
				v = strconv.FormatInt(int64(u), 10)
			}
		}
		sb.WriteString(k + "=" + v + " ")
	}
	return sb.String()
}
