package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// VC is a vector clock indexed by goroutine id.
type VC []int32

func (a VC) get(i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func joinVC(a *VC, b VC) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

func cloneVC(a VC) VC { return append(VC(nil), a...) }

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

// Access records the last accesses of a memory cell for race detection.
type Access struct {
	wg, wc int32
	wfn    string
	reads  VC
}

func (in *Interp) raceRead(c *Cell) {
	if !in.multiG || in.initing || in.cur == nil {
		return
	}
	a := c.acc
	if a == nil {
		a = &Access{wg: -1}
		c.acc = a
		if c.base {
			in.accCells = append(in.accCells, c)
		}
	}
	in.raceR(a)
}

func (in *Interp) raceWrite(c *Cell) {
	if !in.multiG || in.initing || in.cur == nil {
		return
	}
	a := c.acc
	if a == nil {
		a = &Access{wg: -1}
		c.acc = a
		if c.base {
			in.accCells = append(in.accCells, c)
		}
	}
	in.raceW(a)
}

func (in *Interp) mapAcc(m *MapObj) *Access {
	if m.acc == nil {
		m.acc = &Access{wg: -1}
		if m.base {
			in.accMaps = append(in.accMaps, m)
		}
	}
	return m.acc
}

func (in *Interp) raceMapRead(m *MapObj) {
	if in.multiG && !in.initing {
		in.raceR(in.mapAcc(m))
	}
}

func (in *Interp) raceMapWrite(m *MapObj) {
	if in.multiG && !in.initing {
		in.raceW(in.mapAcc(m))
	}
}

func (in *Interp) raceR(a *Access) {
	g := in.cur
	if a.wg >= 0 && int(a.wg) != g.id && a.wc > g.vc.get(int(a.wg)) {
		in.race("read", "write", a)
	}
	for len(a.reads) <= g.id {
		a.reads = append(a.reads, 0)
	}
	a.reads[g.id] = g.vc.get(g.id)
}

func (in *Interp) raceW(a *Access) {
	g := in.cur
	if a.wg >= 0 && int(a.wg) != g.id && a.wc > g.vc.get(int(a.wg)) {
		in.race("write", "write", a)
	}
	for i, c := range a.reads {
		if i != g.id && c > g.vc.get(i) {
			in.race("write", "read", a)
		}
	}
	a.wg, a.wc = int32(g.id), g.vc.get(g.id)
}

func (in *Interp) race(x, y string, a *Access) {
	in.noSpec()
	in.flush()
	in.viol = in.mkViolation("data race: "+x+" conflicts with an unordered "+y, "race", "")
	panic(pathAbort{abViolation, "race"})
}

// ---- goroutines ----

func (in *Interp) spawn(g *G, fv Value, args []Value) {
	ng := &G{id: len(in.gs)}
	f, ok := fv.r.(*FuncV)
	if !ok {
		in.strPanic("go of nil func value")
	}
	g.tick()
	ng.vc = cloneVC(g.vc)
	ng.tick()
	in.gs = append(in.gs, ng)
	in.multiG = true
	fi := in.fnInfo(f.fn)
	if fi.intr != nil {
		in.unsup("go of intrinsic " + f.fn.String())
	}
	in.pushCall(ng, f.fn, args, f.env, -1)
}

func (in *Interp) runnable(g *G) bool {
	if g.done {
		return false
	}
	if g.ready != nil {
		return g.ready()
	}
	return true
}

// schedule runs goroutines until the harness goroutine finished and the
// others finished or are blocked.
func (in *Interp) schedule() {
	main := in.gs[0]
	cur := main
	for {
		cur.ready = nil
		in.runG(cur)
		if in.exitFlag {
			return
		}
		var run []*G
		// round robin, starting after the current goroutine
		n := len(in.gs)
		for k := 1; k <= n; k++ {
			g := in.gs[(cur.id+k)%n]
			if in.runnable(g) {
				run = append(run, g)
			}
		}
		if len(run) == 0 {
			if main.done {
				return
			}
			in.flush()
			in.cur = main
			where := ""
			for _, g := range in.gs {
				if !g.done {
					where += fmt.Sprintf("g%d: %s\n", g.id, in.stack(g.fr, 5))
				}
			}
			in.viol = in.mkViolation("deadlock: every goroutine is blocked", "deadlock", where)
			panic(pathAbort{abViolation, "deadlock"})
		}
		if in.nextG != nil {
			cur = in.nextG
			in.nextG = nil
			continue
		}
		if in.schedAll && len(run) > 1 {
			cur = run[in.choose(len(run))]
		} else {
			cur = run[0]
		}
	}
}

// syncPoint is called before a visible operation: in exploring mode it may
// switch to another goroutine first. Returns true when the operation must be
// retried later.
func (in *Interp) syncPoint(g *G) bool {
	if in.spec != nil {
		panic(specFail{})
	}
	if !in.schedAll || g.atSync || in.initing {
		return false
	}
	g.atSync = true
	return in.maybeSwitch(g)
}

func (in *Interp) maybeSwitch(g *G) bool {
	if in.preempt >= in.preemptLim {
		return false
	}
	var others []*G
	for _, o := range in.gs {
		if o != g && in.runnable(o) {
			others = append(others, o)
		}
	}
	if len(others) == 0 {
		return false
	}
	k := in.choose(len(others) + 1)
	if k == 0 {
		return false
	}
	in.preempt++
	in.nextG = others[k-1]
	return true
}

// yieldPoint follows a go statement.
func (in *Interp) yieldPoint(g *G) bool {
	if !in.schedAll {
		return false
	}
	return in.maybeSwitch(g)
}

func (in *Interp) onExit(g *G) {}

func (in *Interp) uncaught(g *G, pr *panicRec) {
	if in.initing {
		in.viol = &violation{Label: "panic: " + in.panicText(pr.v)}
		return
	}
	in.flush()
	txt := in.panicText(pr.v)
	in.viol = in.mkViolation("panic: "+txt, "panic", pr.where)
	panic(pathAbort{abViolation, "panic"})
}

func (in *Interp) panicText(v Value) string {
	i, ok := v.r.(*IfaceV)
	if !ok {
		return "nil"
	}
	if s, ok := strConc(i.v); ok && (i.t.k == TString) {
		return s
	}
	if p, ok := i.v.r.(*Cell); ok && len(p.sub) > 0 {
		if s, ok := strConc(p.sub[0].v); ok {
			return i.t.t.String() + ": " + s
		}
	}
	return i.t.t.String()
}

// ---- channels ----

func (in *Interp) chanOf(v Value) *ChanObj {
	c, _ := v.r.(*ChanObj)
	return c
}

func (in *Interp) send(g *G, cv, v Value) bool {
	c := in.chanOf(cv)
	if c == nil {
		g.ready = func() bool { return false }
		return false
	}
	if g.pend != nil {
		// resumed after a rendezvous (or the channel was closed)
		p := g.pend
		if p.done {
			g.pend = nil
			joinVC(&g.vc, p.vc)
			return true
		}
		if c.closed {
			g.pend = nil
			in.strPanicErr("send on closed channel")
		}
		g.ready = func() bool { return p.done || c.closed }
		return false
	}
	if c.closed {
		in.strPanicErr("send on closed channel")
	}
	g.tick()
	if c.cap > 0 {
		if len(c.buf) < c.cap {
			c.buf = append(c.buf, chanMsg{v, cloneVC(g.vc)})
			joinVC(&g.vc, c.slotVC)
			return true
		}
		g.ready = func() bool { return len(c.buf) < c.cap || c.closed }
		return false
	}
	p := &pendSend{g: g, v: v, vc: cloneVC(g.vc)}
	c.sendq = append(c.sendq, p)
	g.pend = p
	g.ready = func() bool { return p.done || c.closed }
	return false
}

func (in *Interp) strPanicErr(msg string) {
	panic(goPanic{in.mkRTErr(msg)})
}

func (in *Interp) canRecv(c *ChanObj) bool {
	return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed
}

func (in *Interp) doRecv(g *G, c *ChanObj) (Value, bool) {
	g.tick()
	if len(c.buf) > 0 {
		m := c.buf[0]
		c.buf = append([]chanMsg(nil), c.buf[1:]...)
		joinVC(&g.vc, m.vc)
		joinVC(&c.slotVC, g.vc)
		return m.v, true
	}
	if len(c.sendq) > 0 {
		p := c.sendq[0]
		c.sendq = append([]*pendSend(nil), c.sendq[1:]...)
		joinVC(&g.vc, p.vc)
		p.done = true
		p.vc = cloneVC(g.vc)
		return p.v, true
	}
	joinVC(&g.vc, c.closeV)
	return in.zero(c.el), false
}

func (in *Interp) recv(g *G, cv Value, commaOk bool) (Value, bool) {
	c := in.chanOf(cv)
	if c == nil {
		g.ready = func() bool { return false }
		return Value{}, false
	}
	if !in.canRecv(c) {
		g.ready = func() bool { return in.canRecv(c) }
		return Value{}, false
	}
	v, ok := in.doRecv(g, c)
	if commaOk {
		return Value{r: &AggV{f: []Value{v, mkBool(ok)}}}, true
	}
	return v, true
}

func (in *Interp) closeChan(g *G, cv Value) {
	c := in.chanOf(cv)
	if c == nil {
		in.strPanicErr("close of nil channel")
	}
	if c.closed {
		in.strPanicErr("close of closed channel")
	}
	g.tick()
	c.closed = true
	c.closeV = cloneVC(g.vc)
}

func (in *Interp) selectOp(g *G, f *Frame, ci *cInstr, x *ssa.Select) (Value, bool) {
	// operands: for each state Chan, Send(or nil)
	type st struct {
		c   *ChanObj
		v   Value
		dir bool // send
	}
	var sts []st
	k := 0
	for _, s := range x.States {
		cv := f.get(&ci.ops[k])
		sv := f.get(&ci.ops[k+1])
		k += 2
		sts = append(sts, st{in.chanOf(cv), sv, s.Send != nil})
	}
	can := func(s st) bool {
		if s.c == nil {
			return false
		}
		if s.dir {
			if s.c.closed {
				return true
			}
			if s.c.cap == 0 {
				in.unsup("select send on unbuffered channel")
			}
			return len(s.c.buf) < s.c.cap
		}
		return in.canRecv(s.c)
	}
	var en []int
	for i, s := range sts {
		if can(s) {
			en = append(en, i)
		}
	}
	res := func(idx int, recvOk bool, rv Value) Value {
		t := ci.t
		a := &AggV{f: make([]Value, len(t.fields))}
		a.f[0] = Value{u: uint64(int64(idx))}
		a.f[1] = mkBool(recvOk)
		j := 2
		for i, s := range sts {
			if !s.dir {
				a.f[j] = in.zero(t.fields[j])
				if i == idx {
					a.f[j] = rv
				}
				j++
			}
		}
		return Value{r: a}
	}
	if len(en) == 0 {
		if !x.Blocking {
			return res(-1, false, Value{}), true
		}
		g.ready = func() bool {
			for _, s := range sts {
				if can(s) {
					return true
				}
			}
			return false
		}
		return Value{}, false
	}
	i := en[0]
	if in.schedAll && len(en) > 1 {
		i = en[in.choose(len(en))]
	}
	s := sts[i]
	if s.dir {
		if !in.send(g, Value{r: s.c}, s.v) {
			in.unsup("select send")
		}
		return res(i, false, Value{}), true
	}
	v, ok := in.doRecv(g, s.c)
	return res(i, ok, v), true
}
