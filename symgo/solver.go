package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Fallbacks, Restarts int
	Time                                                 time.Duration
	MaxQuery                                             time.Duration
}

func (a *SolverStats) add(b SolverStats) {
	a.Queries += b.Queries
	a.SatN += b.SatN
	a.UnsatN += b.UnsatN
	a.UnknownN += b.UnknownN
	a.Fallbacks += b.Fallbacks
	a.Restarts += b.Restarts
	a.Time += b.Time
	if b.MaxQuery > a.MaxQuery {
		a.MaxQuery = b.MaxQuery
	}
}

// Solver drives one incremental solver process whose assertion stack mirrors a
// list of path constraints.
type Solver struct {
	kind    string // z3 | cvc5
	tb      *Table
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	defined map[*Term]bool
	stack   []*Term
	ndef    int
	timeout int // ms
	fbTime  int // ms for one-shot fallbacks
	Stats   SolverStats
	log     *os.File
	lastErr string
}

func NewSolver(kind string, tb *Table, timeoutMs int) *Solver {
	return &Solver{kind: kind, tb: tb, timeout: timeoutMs, fbTime: timeoutMs * 4}
}

func (s *Solver) args(kind string, ms int, incremental bool) (string, []string) {
	switch kind {
	case "cvc5":
		a := []string{"--lang=smt2", fmt.Sprintf("--tlimit-per=%d", ms), "--produce-models"}
		if incremental {
			a = append(a, "--incremental")
		}
		return "cvc5", a
	case "z3old":
		return "z3", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)}
	default:
		return "z3-new", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)}
	}
}

func (s *Solver) start() error {
	s.kill()
	name, args := s.args(s.kind, s.timeout, true)
	cmd := exec.Command(name, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.inPipe = cmd, in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[*Term]bool{}
	s.stack = nil
	s.ndef = 0
	s.w("(set-option :global-declarations true)\n")
	s.w("(set-option :produce-models true)\n")
	s.w("(set-logic ALL)\n")
	return nil
}

func (s *Solver) kill() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) w(x string) {
	s.in.WriteString(x)
}

func smtName(n string) string { return "|" + n + "|" }

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constSMT(t)
	case OVar:
		return smtName(t.name)
	}
	return "t" + strconv.Itoa(int(t.id))
}

// define emits definitions for all sub-terms of t.
func (s *Solver) define(t *Term) {
	defineTo(t, s.defined, s.w, s.ref, &s.ndef)
}

func defineTo(t *Term, defined map[*Term]bool, w func(string), ref func(*Term) string, ndef *int) {
	if t.op == OConst || defined[t] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || defined[f.t] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OConst && !defined[a] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		if x.op == OVar {
			w("(declare-const " + smtName(x.name) + " " + x.sort.smt() + ")\n")
		} else {
			w("(define-fun t" + strconv.Itoa(int(x.id)) + " () " + x.sort.smt() + " " + exprSMT(x, ref) + ")\n")
		}
		defined[x] = true
		*ndef++
		st = st[:len(st)-1]
	}
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.w(fmt.Sprintf("(pop %d)\n", n))
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		s.define(pc[k])
		s.w("(push 1)\n(assert " + s.ref(pc[k]) + ")\n")
		s.stack = append(s.stack, pc[k])
	}
}

func (s *Solver) readLine(d time.Duration) (string, error) {
	type res struct {
		l string
		e error
	}
	ch := make(chan res, 1)
	go func() {
		l, e := s.out.ReadString('\n')
		ch <- res{strings.TrimSpace(l), e}
	}()
	select {
	case r := <-ch:
		return r.l, r.e
	case <-time.After(d):
		return "", fmt.Errorf("timeout")
	}
}

// Check decides pc ∧ extra. On Sat a model over all variables is returned.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, Model) {
	t0 := time.Now()
	s.Stats.Queries++
	r, m := s.check1(pc, extra)
	if r == Unknown {
		s.Stats.Fallbacks++
		if d := os.Getenv("SYMGO_DUMP"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, time.Now().UnixNano()), []byte("; "+s.lastErr+"\n"+s.script(sliceQuery(pc, extra), extra, nil)), 0o644)
		}
		r, m = s.oneShot(pc, extra)
	}
	d := time.Since(t0)
	s.Stats.Time += d
	if d > s.Stats.MaxQuery {
		s.Stats.MaxQuery = d
	}
	switch r {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
	return r, m
}

func (s *Solver) check1(pc []*Term, extra *Term) (Result, Model) {
	if s.cmd == nil || s.ndef > 200000 {
		if s.cmd != nil {
			s.Stats.Restarts++
		}
		if err := s.start(); err != nil {
			s.lastErr = err.Error()
			return Unknown, nil
		}
	}
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.w("(push 1)\n(assert " + s.ref(extra) + ")\n")
	}
	s.w("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.kill()
		return Unknown, nil
	}
	var r Result
	for {
		l, err := s.readLine(time.Duration(s.timeout)*time.Millisecond*2 + 5*time.Second)
		if err != nil {
			s.lastErr = err.Error()
			s.kill()
			return Unknown, nil
		}
		if l == "" {
			continue
		}
		switch {
		case l == "sat":
			r = Sat
		case l == "unsat":
			r = Unsat
		case l == "unknown" || l == "timeout":
			r = Unknown
		default:
			// any error line: inconclusive
			s.lastErr = l
			s.kill()
			return Unknown, nil
		}
		break
	}
	var m Model
	if r == Sat {
		vars := varsOf(append(append([]*Term(nil), pc...), extra))
		var ok bool
		m, ok = s.getModel(vars)
		if !ok {
			s.kill()
			return Unknown, nil
		}
		if !s.validModel(pc, extra, m) {
			s.lastErr = "model does not satisfy the query"
			s.kill()
			return Unknown, nil
		}
	}
	if extra != nil && s.cmd != nil {
		s.w("(pop 1)\n")
	}
	return r, m
}

// validModel re-evaluates the query natively: guards against solver or
// printer errors on the sat side.
func (s *Solver) validModel(pc []*Term, extra *Term, m Model) bool {
	s.tb.gen++
	for _, c := range pc {
		if s.tb.ev(c, m) != 1 {
			return false
		}
	}
	return extra == nil || s.tb.ev(extra, m) == 1
}

func varsOf(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var st []*Term
	for _, t := range ts {
		if t != nil {
			st = append(st, t)
		}
	}
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[t] {
			continue
		}
		seen[t] = true
		if t.op == OVar {
			out = append(out, t)
		}
		st = append(st, t.args...)
	}
	return out
}

func (s *Solver) getModel(vars []*Term) (Model, bool) {
	m := Model{}
	if len(vars) == 0 {
		return m, true
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(smtName(v.name))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.w(sb.String())
	if s.in.Flush() != nil {
		return nil, false
	}
	txt, err := readSexp(s.out)
	if err != nil {
		return nil, false
	}
	return m, parseModel(txt, vars, m)
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	inq := false
	started := false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		if b == '|' {
			inq = !inq
		}
		if !inq {
			if b == '(' {
				depth++
				started = true
			} else if b == ')' {
				depth--
			}
		}
		if started || b > ' ' {
			sb.WriteByte(b)
		}
		if started && depth == 0 {
			// consume rest of line
			r.ReadString('\n')
			return sb.String(), nil
		}
		if !started && b == '\n' && sb.Len() > 0 {
			return "", fmt.Errorf("unexpected %s", sb.String())
		}
	}
}

func parseModel(txt string, vars []*Term, m Model) bool {
	if strings.HasPrefix(txt, "(error") {
		return false
	}
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.name] = v
	}
	i := 0
	next := func() string {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t' || txt[i] == '\r') {
			i++
		}
		if i >= len(txt) {
			return ""
		}
		if txt[i] == '(' || txt[i] == ')' {
			i++
			return txt[i-1 : i]
		}
		if txt[i] == '|' {
			j := i + 1
			for j < len(txt) && txt[j] != '|' {
				j++
			}
			r := txt[i : j+1]
			i = j + 1
			return r
		}
		j := i
		for j < len(txt) && !strings.ContainsRune(" ()\n\t\r", rune(txt[j])) {
			j++
		}
		r := txt[i:j]
		i = j
		return r
	}
	if next() != "(" {
		return false
	}
	n := 0
	for {
		t := next()
		if t == ")" || t == "" {
			break
		}
		if t != "(" {
			return false
		}
		name := strings.Trim(next(), "|")
		v := byName[name]
		val := next()
		var u uint64
		var err error
		switch {
		case val == "true":
			u = 1
		case val == "false":
			u = 0
		case strings.HasPrefix(val, "#x"):
			u, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			u, err = strconv.ParseUint(val[2:], 2, 64)
		case val == "(":
			eb, sb := uint(11), uint(53)
			if v != nil && v.sort.W == 32 {
				eb, sb = 8, 24
			}
			if next() == "fp" {
				for _, w := range []uint{1, eb, sb - 1} {
					x := next()
					var part uint64
					if strings.HasPrefix(x, "#x") {
						part, err = strconv.ParseUint(x[2:], 16, 64)
					} else if strings.HasPrefix(x, "#b") {
						part, err = strconv.ParseUint(x[2:], 2, 64)
					} else {
						return false
					}
					if err != nil {
						return false
					}
					u = u<<w | part
				}
				next()
				break
			}
			bv := next()
			inf := (uint64(1)<<eb - 1) << (sb - 1)
			switch bv {
			case "NaN":
				u = inf | 1<<(sb-2)
				if eb == 11 {
					u |= 1 // the engine's NaN
				}
				next()
			case "+oo":
				u = inf
				next()
			case "-oo":
				u = inf | 1<<(eb+sb-1)
				next()
			case "+zero":
				next()
			case "-zero":
				u = 1 << (eb + sb - 1)
				next()
			default:
				u, err = strconv.ParseUint(strings.TrimPrefix(bv, "bv"), 10, 64)
			}
			next()
			next()
		default:
			return false
		}
		if err != nil || v == nil {
			return false
		}
		m[v] = u
		n++
		if next() != ")" {
			return false
		}
	}
	return n == len(vars)
}

// script builds a standalone query.
func (s *Solver) script(pc []*Term, extra *Term, vars []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	defined := map[*Term]bool{}
	n := 0
	w := func(x string) { sb.WriteString(x) }
	for _, c := range pc {
		defineTo(c, defined, w, s.ref, &n)
		w("(assert " + s.ref(c) + ")\n")
	}
	if extra != nil {
		defineTo(extra, defined, w, s.ref, &n)
		w("(assert " + s.ref(extra) + ")\n")
	}
	w("(check-sat)\n")
	if len(vars) > 0 {
		w("(get-value (")
		for _, v := range vars {
			w(smtName(v.name) + " ")
		}
		w("))\n")
	}
	return sb.String()
}

// slice keeps only constraints connected (via shared variables) to extra. The
// path condition itself is known to be satisfiable, so this preserves the verdict.
func sliceQuery(pc []*Term, extra *Term) []*Term {
	if extra == nil {
		return pc
	}
	cv := make([][]*Term, len(pc))
	for i, c := range pc {
		cv[i] = varsOf([]*Term{c})
	}
	in := map[*Term]bool{}
	for _, v := range varsOf([]*Term{extra}) {
		in[v] = true
	}
	used := make([]bool, len(pc))
	for ch := true; ch; {
		ch = false
		for i := range pc {
			if used[i] {
				continue
			}
			for _, v := range cv[i] {
				if in[v] {
					used[i] = true
					ch = true
					for _, u := range cv[i] {
						in[u] = true
					}
					break
				}
			}
		}
	}
	var out []*Term
	for i, c := range pc {
		if used[i] {
			out = append(out, c)
		}
	}
	return out
}

// oneShot runs a portfolio of solvers on the standalone query.
func (s *Solver) oneShot(pc0 []*Term, extra *Term) (Result, Model) {
	pc := sliceQuery(pc0, extra)
	vars := varsOf(append(append([]*Term(nil), pc...), extra))
	script := s.script(pc, extra, vars)
	kinds := []string{"cvc5", "z3", "z3old"}
	type res struct {
		r Result
		m Model
	}
	ch := make(chan res, len(kinds))
	var cmds []*exec.Cmd
	started := 0
	for _, k := range kinds {
		name, args := s.args(k, s.fbTime, false)
		cmd := exec.Command(name, args...)
		cmd.Stdin = strings.NewReader(script)
		out, err := cmd.StdoutPipe()
		if err != nil || cmd.Start() != nil {
			continue
		}
		cmds = append(cmds, cmd)
		started++
		go func() {
			rd := bufio.NewReader(out)
			l, err := rd.ReadString('\n')
			l = strings.TrimSpace(l)
			r := res{}
			if err == nil && l == "unsat" {
				r.r = Unsat
			} else if err == nil && l == "sat" {
				m := Model{}
				ok := true
				if len(vars) > 0 {
					txt, e := readSexp(rd)
					ok = e == nil && parseModel(txt, vars, m)
				}
				if ok {
					r.r, r.m = Sat, m
				}
			}
			io.Copy(io.Discard, rd)
			ch <- r
		}()
	}
	dl := time.After(time.Duration(s.fbTime)*time.Millisecond + 5*time.Second)
	var ans res
loop:
	for i := 0; i < started; i++ {
		select {
		case r := <-ch:
			if r.r == Sat {
				// fill the rest of the path condition from the last model lazily: the caller re-evaluates
				if !s.validModel(pc, extra, r.m) {
					continue
				}
			}
			if r.r != Unknown {
				ans = r
				break loop
			}
		case <-dl:
			break loop
		}
	}
	for _, c := range cmds {
		c.Process.Kill()
	}
	go func() {
		for _, c := range cmds {
			c.Wait()
		}
	}()
	return ans.r, ans.m
}
