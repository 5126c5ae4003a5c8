package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Engine runs one harness: a shared work queue of decision prefixes and a set
// of workers, each an interpreter with its own term table and solver.
type Engine struct {
	prog      *ssa.Program
	shimPkg   *ssa.Package
	redirects map[string]string
	rtErrT    types.Type
	inits     []*ssa.Function
	inited    map[*ssa.Package]bool
	harness   *ssa.Function
	cfg       Config
	deadline  time.Time

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []*workItem
	idle    int
	workers int
	stop    bool

	res    Report
	uninit map[string]bool
}

// Config of one harness run.
type Config struct {
	Tier      int
	Solver    string
	TimeoutMs int
	Steps     int
	Budget    time.Duration
	MaxPaths  int
	Workers   int
	Samples   int
	KeepGoing bool // do not stop at the first violation candidate
}

type workItem struct {
	prefix   []dec
	model    map[string]uint64
	maybeInf bool
	decided  int // assertions (by ordinal) decided before this item was queued
}

type violation struct {
	Label  string              `json:"label"`
	Kind   string              `json:"kind"`
	Where  string              `json:"where"`
	Inputs map[string]inputVal `json:"inputs"`
	Order  []string            `json:"order"`
	Trace  []dec               `json:"trace,omitempty"`
}

type inputVal struct {
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

type sample struct {
	Inputs   map[string]inputVal `json:"inputs"`
	Order    []string            `json:"order"`
	Observes []string            `json:"observes"`
}

// Report is what one harness run produced.
type Report struct {
	Harness     string
	Paths       int
	Infeasible  int
	Decisions   int
	Steps       int64
	Asserts     int
	Structural  int
	Covers      map[string]int
	Unsup       map[string]int
	Unknowns    int
	MaybeInf    int
	Hangs       []*violation
	Viols       []*violation
	Leftover    int // unexplored work items at the end of the budget
	Samples     []sample
	Solver      SolverStats
	Funcs       map[string]int
	BlocksSeen  map[string][2]int
	MaxQueryLen int
	Wall        time.Duration
	Goroutines  int
	Fatal       []string
}

func (e *Engine) rtErr(in *Interp) *TI { return in.ti(e.rtErrT) }

func (e *Engine) expired() bool { return time.Now().After(e.deadline) || e.stop }

func (e *Engine) Run() *Report {
	e.cond = sync.NewCond(&e.mu)
	e.res = Report{Harness: e.harness.Name(), Covers: map[string]int{}, Unsup: map[string]int{}, Funcs: map[string]int{}, BlocksSeen: map[string][2]int{}}
	e.queue = []*workItem{{}}
	e.workers = e.cfg.Workers
	e.idle, e.stop = 0, false
	t0 := time.Now()
	e.deadline = t0.Add(e.cfg.Budget)
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			e.worker(id)
		}(i)
	}
	wg.Wait()
	e.res.Leftover += len(e.queue)
	e.res.Wall = time.Since(t0)
	return &e.res
}

type localQ struct{ items []*workItem }

func (e *Engine) take(l *localQ) *workItem {
	if n := len(l.items); n > 0 {
		// share with idle workers
		e.mu.Lock()
		if e.stop || e.expired() || (e.cfg.MaxPaths > 0 && e.res.Paths >= e.cfg.MaxPaths) {
			e.res.Leftover += n
			l.items = nil
			e.stop = true
			e.cond.Broadcast()
			e.mu.Unlock()
			return nil
		}
		if e.idle > 0 && len(e.queue) == 0 && n > 1 {
			k := (n + 1) / 2
			e.queue = append(e.queue, l.items[:k]...)
			l.items = append([]*workItem(nil), l.items[k:]...)
			e.cond.Broadcast()
		}
		e.mu.Unlock()
		n = len(l.items)
		it := l.items[n-1]
		l.items = l.items[:n-1]
		return it
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.idle++
	for {
		if e.stop || e.expired() {
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		if n := len(e.queue); n > 0 {
			it := e.queue[n-1]
			e.queue = e.queue[:n-1]
			e.idle--
			return it
		}
		if e.idle == e.workers {
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) worker(id int) {
	// do not start an interpreter until there is work for it
	l := &localQ{}
	it := e.take(l)
	if it == nil {
		return
	}
	in := NewInterp(e)
	in.solver = NewSolver(e.cfg.Solver, in.tb, e.cfg.TimeoutMs)
	in.local = l
	defer in.solver.kill()
	if err := in.runInits(); err != "" {
		e.mu.Lock()
		e.res.Fatal = append(e.res.Fatal, err)
		e.stop = true
		e.cond.Broadcast()
		e.mu.Unlock()
		return
	}
	for it != nil {
		in.runPath(it)
		if in.tb.nodes > 3000000 {
			in.tb = NewTable()
			in.solver.kill()
			in.solver.tb = in.tb
		}
		it = e.take(l)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.res.Solver.add(in.solver.Stats)
	for _, fi := range in.fns {
		if fi.inRepo && fi.total > 0 {
			name := strings.TrimPrefix(fi.fn.String(), "")
			e.res.Funcs[name] += fi.total
			n, s := 0, 0
			for _, b := range fi.blocks {
				n++
				if b.seen {
					s++
				}
			}
			old := e.res.BlocksSeen[name]
			if s > old[0] {
				old[0] = s
			}
			old[1] = n
			e.res.BlocksSeen[name] = old
		}
	}
}

func (in *Interp) runInits() (errs string) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("SYMGO_DEBUG") != "" {
				panic(r)
			}
			errs = fmt.Sprintf("init: %v %s", r, in.fatal)
		}
		in.initing = false
	}()
	in.resetPath(&workItem{})
	in.initing = true
	in.stepLimit = 200000000
	for _, f := range in.eng.inits {
		g := &G{id: 0}
		in.cur = g
		in.gs = []*G{g}
		in.pushCall(g, f, nil, nil, -1)
		in.runG(g)
		if !g.done {
			return "init blocked: " + f.String()
		}
		if in.viol != nil {
			return "init panicked: " + f.String() + " " + in.viol.Label
		}
	}
	return ""
}

func (in *Interp) resetPath(it *workItem) {
	in.gs = in.gs[:0]
	in.steps = 0
	in.stepLimit = in.eng.cfg.Steps
	in.pc = in.pc[:0]
	in.known = map[*Term]bool{}
	in.prefix = it.prefix
	in.trace = append([]dec(nil), it.prefix...)
	in.dpos = 0
	in.model = Model{}
	in.itemModel = it.model
	in.maybeInf = it.maybeInf
	in.decided = it.decided
	in.sinceFlush = 0
	in.pending = in.pending[:0]
	in.names = map[string]int{}
	in.inputs = in.inputs[:0]
	in.observes = in.observes[:0]
	in.covers = map[string]bool{}
	in.nAsserts = 0
	in.structural = 0
	in.raceOn = false
	in.multiG = false
	in.schedAll = false
	in.preempt = 0
	in.preemptLim = 2
	in.mapOrder = 0
	in.mapToggle = false
	in.numCPU = 2
	in.randMode = 0
	in.randCtr = 0
	in.stdout = nil
	in.stdoutOn = false
	in.mergeIf = true
	in.side = map[any]any{}
	in.spec = nil
	in.viol = nil
	in.noMerge = map[*ssa.BasicBlock]int{}
	in.knownLog = nil
	in.storeT = nil
	in.nextG = nil
	in.unknowns = 0
	in.fatal = ""
	in.mapIDs = 0
	in.exitFlag = false
}

func (in *Interp) rollback() {
	for i := len(in.undo) - 1; i >= 0; i-- {
		in.undo[i].c.v = in.undo[i].v
	}
	in.undo = in.undo[:0]
	for i := len(in.undoMaps) - 1; i >= 0; i-- {
		u := in.undoMaps[i]
		u.m.ents, u.m.idx, u.m.n, u.m.nsym, u.m.ndead = u.old.ents, u.old.idx, u.old.n, u.old.nsym, u.old.ndead
		u.m.base = true
	}
	in.undoMaps = in.undoMaps[:0]
	for _, c := range in.accCells {
		c.acc = nil
	}
	for _, c := range in.accMaps {
		c.acc = nil
	}
	in.accCells, in.accMaps = nil, nil
}

func (in *Interp) runPath(it *workItem) {
	in.resetPath(it)
	e := in.eng
	kind := abDone
	msg := ""
	q0 := in.solver.Stats.Queries
	func() {
		defer func() {
			if r := recover(); r != nil {
				a, ok := r.(pathAbort)
				if !ok {
					if os.Getenv("SYMGO_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "FATAL", in.fatal)
						panic(r)
					}
					kind, msg = abUnsup, fmt.Sprintf("engine failure %v %s", r, in.fatal)
					return
				}
				kind, msg = a.kind, a.msg
			}
		}()
		main := &G{id: 0}
		in.gs = append(in.gs, main)
		in.cur = main
		in.pushCall(main, e.harness, nil, nil, -1)
		in.schedule()
	}()
	// pending assertions are always checked, whatever ended the path
	var sm *sample
	if kind != abViolation && kind != abAssume {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if a, ok := r.(pathAbort); ok {
						if a.kind == abViolation {
							kind = abViolation
						} else {
							in.unknowns++
						}
						return
					}
					panic(r)
				}
			}()
			in.flush()
		}()
	}
	if kind == abDone && in.nAsserts > 0 && in.solver.Stats.Queries == q0 && (len(in.pc) > 0 || e.res.Paths < 256) {
		// nothing on this path needed the solver: at least have it confirm that
		// the path exists, so that its assertions are not vacuous
		if r, _ := in.solver.Check(in.pc, in.tb.T); r == Unsat {
			kind = abAssume
		}
	}
	if kind == abDone && !in.maybeInf {
		sm = in.mkSample()
	}
	for _, fi := range in.touched {
		fi.total += fi.count
		fi.count = 0
	}
	in.touched = in.touched[:0]
	e.mu.Lock()
	r := &e.res
	r.Steps += int64(in.steps)
	r.Decisions += len(in.trace) - len(it.prefix) + 1
	r.Unknowns += in.unknowns
	r.Asserts += in.nAsserts
	r.Structural += in.structural
	if in.maybeInf {
		r.MaybeInf++
	}
	if len(in.gs) > r.Goroutines {
		r.Goroutines = len(in.gs)
	}
	switch kind {
	case abAssume:
		r.Infeasible++
	case abDone:
		r.Paths++
		for c := range in.covers {
			r.Covers[c]++
		}
		if sm != nil {
			in.keepSample(r, *sm)
		}
	case abViolation:
		r.Paths++
		if in.viol != nil {
			in.viol.Trace = append([]dec(nil), in.trace...)
			e.addViol(in.viol)
		}
	case abSteps:
		r.Paths++
		in.noteModel()
		v := in.mkViolation("does not terminate within the step limit", "hang", msg)
		if v != nil && len(r.Hangs) < 20 {
			r.Hangs = append(r.Hangs, v)
		}
		r.Unsup["step limit: "+short(msg)]++
	case abTime:
		r.Leftover++
	default:
		r.Paths++
		r.Unsup[short(msg)]++
	}
	e.mu.Unlock()
	in.rollback()
}

func short(s string) string {
	if len(s) > 400 {
		return s[:400]
	}
	return s
}

func (e *Engine) addViol(v *violation) {
	// keep a few per label: each label may fail for different reasons
	n := 0
	for _, o := range e.res.Viols {
		if o.Label == v.Label && o.Kind == v.Kind {
			n++
		}
	}
	if n < 8 {
		e.res.Viols = append(e.res.Viols, v)
	}
	if len(e.res.Viols) >= 40 && !e.cfg.KeepGoing {
		e.stop = true
		e.cond.Broadcast()
	}
}

// keepSample keeps a spread of path models (reservoir by path count).
func (in *Interp) keepSample(r *Report, s sample) {
	n := in.eng.cfg.Samples
	if len(r.Samples) < n {
		r.Samples = append(r.Samples, s)
		return
	}
	if n == 0 {
		return
	}
	// deterministic-ish reservoir
	k := (r.Paths * 2654435761) % r.Paths
	if k < n {
		r.Samples[k] = s
	}
}

// ---- decisions ----

func (in *Interp) setKnown(c *Term, val bool) {
	if c.op == ONot {
		in.setKnown(c.args[0], !val)
		return
	}
	if _, ok := in.known[c]; ok {
		return
	}
	in.known[c] = val
	if in.knownLog != nil {
		*in.knownLog = append(*in.knownLog, c)
	}
	if c.op == OAnd && val {
		in.setKnown(c.args[0], true)
		in.setKnown(c.args[1], true)
	}
	if c.op == OOr && !val {
		in.setKnown(c.args[0], false)
		in.setKnown(c.args[1], false)
	}
}

// simp simplifies a boolean term with what the path already decided.
func (in *Interp) simp(c *Term) *Term {
	if c.op == OConst || len(in.known) == 0 {
		return c
	}
	if v, ok := in.known[c]; ok {
		return in.tb.Bool(v)
	}
	switch c.op {
	case ONot:
		x := in.simp(c.args[0])
		if x != c.args[0] {
			return in.tb.Not(x)
		}
	case OAnd:
		if c.size < 200 {
			x, y := in.simp(c.args[0]), in.simp(c.args[1])
			if x != c.args[0] || y != c.args[1] {
				return in.tb.And(x, y)
			}
		}
	case OOr:
		if c.size < 200 {
			x, y := in.simp(c.args[0]), in.simp(c.args[1])
			if x != c.args[0] || y != c.args[1] {
				return in.tb.Or(x, y)
			}
		}
	}
	return c
}

func (in *Interp) addPC(c *Term) {
	if c.op == OConst {
		return
	}
	in.pc = append(in.pc, c)
	in.setKnown(c, true)
}

func (in *Interp) holds(c *Term) bool { return in.tb.Eval(c, in.model) == 1 }

func (in *Interp) merged(m Model) Model {
	r := make(Model, len(in.model)+len(m))
	for k, v := range in.model {
		r[k] = v
	}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (in *Interp) enqueue(d int64, m Model, maybeInf bool) {
	p := make([]dec, in.dpos+1)
	copy(p, in.trace[:in.dpos])
	p[in.dpos] = dec{d, in.decTag()}
	it := &workItem{prefix: p, maybeInf: maybeInf, decided: in.decided}
	it.model = make(map[string]uint64, len(m))
	for k, v := range m {
		it.model[k.name] = v
	}
	in.local.items = append(in.local.items, it)
}

// dec is one recorded decision; tag identifies the deciding instruction so that
// a replay that diverges is noticed.
type dec struct {
	V   int64
	Tag uint32
}

func (in *Interp) decTag() uint32 {
	g := in.cur
	if g == nil || g.fr == nil {
		return 1
	}
	f := g.fr
	return uint32(f.blk.b.Index)*1024 + uint32(f.pc) + uint32(f.depth)<<20 + uint32(g.id)<<28
}

func (in *Interp) replay() int64 {
	d := in.prefix[in.dpos]
	if d.Tag != in.decTag() {
		panic(pathAbort{abUnsup, "replay diverged in " + in.stack(in.cur.fr, 5)})
	}
	in.dpos++
	return d.V
}

func (in *Interp) record(d int64) {
	in.trace = append(in.trace, dec{d, in.decTag()})
	in.dpos++
}

// branch decides a boolean term on this path, queueing the other outcome.
func (in *Interp) branch(c *Term) bool {
	c = in.simp(c)
	if c.op == OConst {
		return c.val == 1
	}
	if in.spec != nil {
		panic(specFail{})
	}
	if in.dpos < len(in.prefix) {
		d := in.replay()
		if d == 1 {
			in.addPC(c)
		} else {
			in.addPC(in.tb.Not(c))
		}
		return d == 1
	}
	dir := in.holds(c)
	lit, alt := c, in.tb.Not(c)
	d := int64(1)
	if !dir {
		lit, alt = alt, lit
		d = 0
	}
	r, m := in.solver.Check(in.pc, alt)
	switch r {
	case Sat:
		in.enqueue(1-d, in.merged(m), in.maybeInf)
	case Unknown:
		in.enqueue(1-d, in.model, true)
	}
	if r == Unsat {
		// implied: no decision, but the trace must stay aligned
		in.record(d)
		in.setKnown(lit, true)
		return dir
	}
	in.record(d)
	in.addPC(lit)
	return dir
}

// choose is an unconstrained n-way decision.
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if in.spec != nil {
		panic(specFail{})
	}
	if in.dpos < len(in.prefix) {
		return int(in.replay())
	}
	for i := n - 1; i >= 1; i-- {
		in.enqueue(int64(i), in.model, in.maybeInf)
	}
	in.record(0)
	return 0
}

// concretize forks over every feasible value of t.
func (in *Interp) concretize(t *Term, lo, hi int64) int64 {
	if t.op == OConst {
		return sext(t.val, t.sort.W)
	}
	if in.spec != nil {
		panic(specFail{})
	}
	val := func(v int64) *Term { return in.tb.Eq(t, in.tb.Const(t.sort, uint64(v))) }
	if in.dpos < len(in.prefix) {
		d := in.replay()
		in.addPC(val(d))
		return d
	}
	cur := sext(in.tb.Eval(t, in.model), t.sort.W)
	ex := in.tb.Not(val(cur))
	n := 0
	for {
		r, m := in.solver.Check(in.pc, ex)
		if r == Unsat {
			break
		}
		if r == Unknown {
			in.unknowns++
			break
		}
		mm := in.merged(m)
		v := sext(in.tb.Eval(t, mm), t.sort.W)
		in.enqueue(v, mm, in.maybeInf)
		ex = in.tb.And(ex, in.tb.Not(val(v)))
		if n++; n > 128 {
			// too many values: the rest is outside the bound
			in.tooMany = true
			in.unknowns++
			break
		}
	}
	in.record(cur)
	in.addPC(val(cur))
	return cur
}

func (in *Interp) assume(c *Term) {
	in.flush()
	c = in.simp(c)
	if c == in.tb.T {
		return
	}
	if c == in.tb.F {
		panic(pathAbort{abAssume, ""})
	}
	if in.spec != nil {
		panic(specFail{})
	}
	if !in.holds(c) {
		r, m := in.solver.Check(in.pc, c)
		switch r {
		case Unsat:
			panic(pathAbort{abAssume, ""})
		case Sat:
			in.model = in.merged(m)
		case Unknown:
			in.maybeInf = true
		}
	}
	in.addPC(c)
}

func (in *Interp) assert(c *Term, label string) {
	if in.spec != nil {
		panic(specFail{})
	}
	in.nAsserts++
	in.sinceFlush++
	c0 := c
	c = in.simp(c)
	if c == in.tb.T {
		if c0 == c {
			in.structural++
		}
	} else {
		in.pending = append(in.pending, assertion{c, label, in.nAsserts})
		if !in.maybeInf && !in.holds(c) {
			in.viol = in.mkViolation(label, "assert", "")
			panic(pathAbort{abViolation, label})
		}
	}
	// not by len(pending): when assertions are decided must not depend on
	// anything that may differ in a replay of this path
	if in.sinceFlush > 64 {
		in.flush()
	}
}

// flush decides all pending assertions in one query (then one by one if that
// query is undecided).
func (in *Interp) flush() {
	in.sinceFlush = 0
	if len(in.pending) == 0 {
		return
	}
	all := in.pending
	in.pending = nil
	var pend []assertion
	for _, a := range all {
		// the path that queued this prefix may have decided it already
		if a.ord > in.decided {
			pend = append(pend, a)
		}
	}
	in.decided = max(in.decided, in.nAsserts)
	if len(pend) == 0 {
		for _, a := range all {
			in.setKnown(a.c, true)
		}
		return
	}
	// the current model first: no query needed when it already refutes one
	if !in.maybeInf {
		for _, a := range pend {
			if !in.holds(a.c) {
				in.viol = in.mkViolation(a.label, "assert", "")
				panic(pathAbort{abViolation, a.label})
			}
		}
	}
	bad := in.tb.F
	for _, a := range pend {
		bad = in.tb.Or(bad, in.tb.Not(a.c))
	}
	r, m := in.solver.Check(in.pc, bad)
	if r == Unknown && len(pend) > 1 {
		r = Unsat
		for _, a := range pend {
			r1, m1 := in.solver.Check(in.pc, in.tb.Not(a.c))
			if r1 == Sat {
				r, m = Sat, m1
				break
			}
			if r1 == Unknown {
				in.unknowns++
				in.noteUnknown(a.label)
			}
		}
	} else if r == Unknown {
		in.unknowns++
		in.noteUnknown(pend[0].label)
	}
	if r == Sat {
		in.model = in.merged(m)
		in.maybeInf = false
		for _, a := range pend {
			if !in.holds(a.c) {
				in.viol = in.mkViolation(a.label, "assert", "")
				panic(pathAbort{abViolation, a.label})
			}
		}
		in.unknowns++
		return
	}
	for _, a := range all {
		in.setKnown(a.c, true)
	}
}

func (in *Interp) noteUnknown(label string) {
	e := in.eng
	e.mu.Lock()
	e.res.Unsup["undecided assertion: "+label]++
	e.mu.Unlock()
}

// noteModel makes sure in.model satisfies the path condition.
func (in *Interp) noteModel() bool {
	ok := true
	in.tb.gen++
	for _, c := range in.pc {
		if in.tb.ev(c, in.model) != 1 {
			ok = false
			break
		}
	}
	if ok {
		return true
	}
	r, m := in.solver.Check(in.pc, nil)
	if r == Sat {
		in.model = m
		return true
	}
	return false
}

func (in *Interp) mkViolation(label, kind, where string) *violation {
	if !in.noteModel() {
		in.unknowns++
		return nil
	}
	v := &violation{Label: label, Kind: kind, Where: where}
	v.Inputs, v.Order = in.inputVals()
	if where == "" && in.cur != nil && in.cur.fr != nil {
		v.Where = in.stack(in.cur.fr, 10)
	}
	return v
}

func (in *Interp) inputVals() (map[string]inputVal, []string) {
	out := map[string]inputVal{}
	var order []string
	for _, i := range in.inputs {
		var s string
		switch {
		case i.kind == "string":
			bs, _ := in.strTerms(i.val)
			b := make([]byte, len(bs))
			for k, t := range bs {
				b[k] = byte(in.tb.Eval(t, in.model))
			}
			s = fmt.Sprintf("%x", b)
		case i.t != nil:
			s = fmt.Sprint(in.tb.Eval(i.t, in.model))
		default:
			s = fmt.Sprint(i.val.u)
		}
		out[i.name] = inputVal{i.kind, s}
		order = append(order, i.name)
	}
	return out, order
}

func (in *Interp) mkSample() *sample {
	if in.eng.cfg.Samples == 0 || !in.noteModel() {
		return nil
	}
	s := &sample{}
	s.Inputs, s.Order = in.inputVals()
	for _, o := range in.observes {
		if o.kind == "string" {
			b := make([]byte, len(o.s))
			for i, t := range o.s {
				b[i] = byte(in.tb.Eval(t, in.model))
			}
			s.Observes = append(s.Observes, fmt.Sprintf("%s=s%x", o.label, b))
		} else {
			v := in.tb.Eval(o.v, in.model)
			if o.kind == "bool" {
				v &= 1
			}
			s.Observes = append(s.Observes, fmt.Sprintf("%s=%s%x", o.label, o.kind[:1], v))
		}
	}
	return s
}

func (in *Interp) uniq(name string) string {
	k := in.names[name]
	in.names[name] = k + 1
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, k)
}

// newVar creates a symbolic input.
func (in *Interp) newVar(s Sort, name string, lo, hi int64, ranged bool) *Term {
	vn := name
	if ranged {
		vn = fmt.Sprintf("%s@%d:%d", name, lo, hi)
	}
	if s.K == KFP {
		vn += "$f"
	}
	vn = fmt.Sprintf("%s$%d", vn, s.W)
	t := in.tb.Var(s, vn, lo, hi, ranged)
	if v, ok := in.itemModel[vn]; ok {
		in.model[t] = v
	} else if ranged {
		if _, ok := in.model[t]; !ok {
			in.model[t] = uint64(lo) & maskW(s.W)
		}
	}
	if ranged {
		in.pc = append(in.pc, in.tb.rawRange(t, lo, hi))
	}
	return t
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (in *Interp) noSpec() {
	if in.spec != nil {
		panic(specFail{})
	}
}

type specFail struct{}
