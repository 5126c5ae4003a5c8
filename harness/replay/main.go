//go:debug randseednop=0

// Command replay runs one harness natively on a recorded assignment.
// Exit: 0 held, 3 property violated, 4 assumption not met, 5 inputs missing,
// 2 uncaught panic or deadlock (Go runtime), 66 data race (-race builds).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"

	"verifharness/h"
	"verifharness/sym"
)

func main() {
	input := flag.String("input", "", "replay file")
	iters := flag.Int("iters", 1, "repetitions (random choices, map orders and schedules vary)")
	flag.Parse()
	b, err := os.ReadFile(*input)
	if err != nil {
		fmt.Println(err)
		os.Exit(7)
	}
	var f struct {
		Harness string          `json:"harness"`
		Tier    int             `json:"tier"`
		Inputs  json.RawMessage `json:"inputs"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		os.Exit(7)
	}
	fn, ok := h.All[f.Harness]
	if !ok {
		fmt.Println("no harness", f.Harness)
		os.Exit(7)
	}
	for i := 0; i < *iters; i++ {
		if err := sym.LoadJSON(f.Inputs, f.Tier); err != nil {
			fmt.Println(err)
			os.Exit(7)
		}
		rand.Seed(int64(i))
		sym.SetBase(runtime.NumGoroutine())
		code := one(fn)
		sym.Cleanup()
		if code != 0 {
			os.Exit(code)
		}
		if i == 0 {
			for _, o := range sym.Observed() {
				fmt.Println("OBS", o)
			}
		}
		if m := sym.Missing(); len(m) > 0 {
			fmt.Println("MISSING", m)
			os.Exit(5)
		}
	}
}

func one(fn func()) (code int) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case sym.AssertionFailed:
			fmt.Println("ASSERTION FAILED:", r.Label)
			code = 3
		case sym.AssumptionFailed:
			fmt.Println("assumption not met")
			code = 4
		default:
			if len(sym.Missing()) > 0 {
				fmt.Println("MISSING", sym.Missing())
				code = 5
				return
			}
			panic(r)
		}
	}()
	fn()
	return 0
}
