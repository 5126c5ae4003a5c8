package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// native builds and runs the harnesses compiled as ordinary Go against /repo.
type native struct {
	dir  string
	bins map[string]string
	err  map[string]string
}

func newNative() *native {
	d, _ := os.MkdirTemp("", "symgo-native")
	return &native{dir: d, bins: map[string]string{}, err: map[string]string{}}
}

func (n *native) close() { os.RemoveAll(n.dir) }

func (n *native) bin(race bool) (string, error) {
	key := "plain"
	if race {
		key = "race"
	}
	if b, ok := n.bins[key]; ok {
		return b, nil
	}
	if e, ok := n.err[key]; ok {
		return "", fmt.Errorf("%s", e)
	}
	out := filepath.Join(n.dir, key)
	args := []string{"build", "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./replay")
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(verifDir(), "harness")
	cmd.Env = os.Environ()
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	if b, err := cmd.CombinedOutput(); err != nil {
		n.err[key] = string(b)
		return "", fmt.Errorf("%s", b)
	}
	n.bins[key] = out
	return out, nil
}

type replayInput struct {
	Property string              `json:"property,omitempty"`
	Harness  string              `json:"harness"`
	Tier     int                 `json:"tier"`
	Label    string              `json:"label,omitempty"`
	Kind     string              `json:"kind,omitempty"`
	Where    string              `json:"where,omitempty"`
	Inputs   map[string]inputVal `json:"inputs"`
	HowTo    string              `json:"how_to,omitempty"`
}

func (n *native) run(ri replayInput, race bool, iters int, timeout time.Duration) (code int, out string) {
	b, err := n.bin(race)
	if err != nil {
		return -1, "native build failed: " + short(err.Error())
	}
	j, _ := json.Marshal(ri)
	f := filepath.Join(n.dir, "in.json")
	os.WriteFile(f, j, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	args := []string{b, "-input", f, "-iters", fmt.Sprint(iters)}
	if v, ok := ri.Inputs["#numcpu"]; ok {
		var k int
		fmt.Sscan(v.Val, &k)
		args = append([]string{"taskset", "-c", fmt.Sprintf("0-%d", k)}, args...)
	}
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Dir = n.dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "TMPDIR="+n.dir)
	cmd.WaitDelay = time.Second
	o, err := cmd.CombinedOutput()
	out = string(o)
	if ctx.Err() != nil {
		return 124, out + " (timed out)"
	}
	if err == nil {
		return 0, out
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), out
	}
	return -1, err.Error()
}

// confirm replays a candidate against the real code.
func (n *native) confirm(harness string, tier int, v *violation) (bool, string) {
	ri := replayInput{Harness: harness, Tier: tier, Label: v.Label, Inputs: v.Inputs}
	race := v.Kind == "race"
	tries := 60
	to := 20 * time.Second
	if race {
		tries = 300
		to = 60 * time.Second
	}
	if v.Kind == "hang" || v.Kind == "deadlock" {
		to = 10 * time.Second
	}
	code, out := n.run(ri, race, tries, to)
	switch code {
	case 3, 2, 66:
		return true, clip(out)
	case 124:
		// a long run is only evidence of a hang when the engine says so
		if v.Kind == "hang" || v.Kind == "deadlock" {
			return true, clip(out)
		}
	}
	return false, fmt.Sprintf("exit %d: %s", code, clip(out))
}

func clip(s string) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > 12 {
		ls = ls[:12]
	}
	r := strings.Join(ls, " | ")
	if len(r) > 900 {
		r = r[:900]
	}
	return r
}

// validate replays path models and compares what the harness observed.
func (n *native) validate(harness string, tier int, ss []sample) (good, bad int, msgs []string) {
	for _, s := range ss {
		ri := replayInput{Harness: harness, Tier: tier, Inputs: s.Inputs}
		code, out := n.run(ri, false, 1, 30*time.Second)
		if code != 0 {
			bad++
			b, _ := json.Marshal(s.Inputs)
			msgs = append(msgs, fmt.Sprintf("exit %d %s on %s", code, clip(out), b))
			continue
		}
		var got []string
		for _, l := range strings.Split(out, "\n") {
			if t, ok := strings.CutPrefix(l, "OBS "); ok {
				got = append(got, t)
			}
		}
		if strings.Join(got, "\n") != strings.Join(s.Observes, "\n") {
			bad++
			b, _ := json.Marshal(s.Inputs)
			msgs = append(msgs, fmt.Sprintf("model %v real %v on %s", s.Observes, got, b))
			continue
		}
		good++
	}
	if len(msgs) > 3 {
		msgs = msgs[:3]
	}
	return
}
