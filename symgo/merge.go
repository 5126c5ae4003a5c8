package main

import (
	"golang.org/x/tools/go/ssa"
)

// If-conversion: a branch on a symbolic condition whose two sides are small,
// acyclic and free of irreversible effects is executed on both sides and the
// results merged with ite terms, instead of forking the path.

type mergeInfo struct {
	ok   bool
	join *ssa.BasicBlock // nil: function exit
}

type specWrite struct {
	c *Cell
	t *TI
}

type specState struct {
	log   []undoRec
	types map[*Cell]*TI
	frame *Frame
	join  *ssa.BasicBlock
	vals  []Value // phi values at the join, or the returned value
	limit int
	hit   bool
}

var exitBlock = &ssa.BasicBlock{}

func (in *Interp) mergeInfoOf(b *ssa.BasicBlock) *mergeInfo {
	if mi, ok := in.mergeInf[b]; ok {
		return mi
	}
	mi := computeMerge(b)
	in.mergeInf[b] = mi
	return mi
}

// postdoms computes immediate post-dominators ignoring panicking blocks.
func computeMerge(b *ssa.BasicBlock) *mergeInfo {
	fn := b.Parent()
	bad := &mergeInfo{}
	n := len(fn.Blocks)
	// pdom sets as bitsets over n+1 nodes (n = exit)
	if n > 200 {
		return bad
	}
	full := make([]bool, n+1)
	for i := range full {
		full[i] = true
	}
	pd := make([][]bool, n+1)
	for i := 0; i < n; i++ {
		pd[i] = append([]bool(nil), full...)
	}
	pd[n] = make([]bool, n+1)
	pd[n][n] = true
	succs := func(x *ssa.BasicBlock) []int {
		var r []int
		for _, s := range x.Succs {
			r = append(r, s.Index)
		}
		if len(x.Instrs) > 0 {
			if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
				r = append(r, n)
			}
		}
		return r
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			ss := succs(fn.Blocks[i])
			nw := append([]bool(nil), full...)
			if len(ss) == 0 {
				// panicking block: post-dominated by everything (ignored)
			} else {
				for k := range nw {
					for _, s := range ss {
						if !pd[s][k] {
							nw[k] = false
							break
						}
					}
				}
			}
			nw[i] = true
			for k := range nw {
				if nw[k] != pd[i][k] {
					pd[i] = nw
					ch = true
					break
				}
			}
		}
	}
	// immediate: the strict post-dominator with the largest set
	best, bestN := -1, -1
	for k := 0; k <= n; k++ {
		if k == b.Index || !pd[b.Index][k] {
			continue
		}
		c := 0
		for _, x := range pd[k] {
			if x {
				c++
			}
		}
		if c > bestN {
			best, bestN = k, c
		}
	}
	if best < 0 {
		return bad
	}
	var join *ssa.BasicBlock
	if best < n {
		join = fn.Blocks[best]
	}
	// region check
	state := map[*ssa.BasicBlock]int{}
	count := 0
	var dfs func(x *ssa.BasicBlock) bool
	dfs = func(x *ssa.BasicBlock) bool {
		if x == join {
			return true
		}
		if x == b || state[x] == 1 {
			return false // cycle
		}
		if state[x] == 2 {
			return true
		}
		state[x] = 1
		if count++; count > 14 {
			return false
		}
		for _, ins := range x.Instrs {
			switch ins.(type) {
			case *ssa.Panic, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Send, *ssa.MapUpdate, *ssa.RunDefers, *ssa.MakeChan:
				return false
			case *ssa.Return:
				if join != nil {
					return false
				}
			}
		}
		for _, s := range x.Succs {
			if !dfs(s) {
				return false
			}
		}
		state[x] = 2
		return true
	}
	for _, s := range b.Succs {
		if !dfs(s) {
			return bad
		}
	}
	return &mergeInfo{true, join}
}

// tryMerge attempts to execute the If at the end of f.blk on both sides.
// merged: the state now is after the join. stop: an enclosing speculation
// reached its own join.
func (in *Interp) tryMerge(g *G, f *Frame, c *Term) (merged, stop bool) {
	c = in.simp(c)
	if c.op == OConst {
		return false, false
	}
	b := f.blk.b
	if in.noMerge[b] > 1 || f.unwind != nil {
		return false, false
	}
	mi := in.mergeInfoOf(b)
	if !mi.ok || (mi.join == nil && (len(f.defers) > 0 || f.isDefer || f.caller == nil)) {
		return false, false
	}
	outer := in.spec
	blk, pc, prev := f.blk, f.pc, f.prev
	nphi := 0
	if mi.join != nil {
		nphi = f.fi.blocks[mi.join.Index].nphi
	}
	fail := func() (bool, bool) {
		in.spec = outer
		f.blk, f.pc, f.prev = blk, pc, prev
		g.fr = f
		in.noMerge[b]++
		return false, false
	}
	type sideRes struct {
		vals   []Value
		writes map[*Cell]Value
		order  []*Cell
		types  map[*Cell]*TI
	}
	var res [2]sideRes
	for s := 0; s < 2; s++ {
		sp := &specState{frame: f, join: mi.join, types: map[*Cell]*TI{}, limit: in.steps + 4000}
		in.spec = sp
		oldKnownLog := in.knownLog
		var kl []*Term
		in.knownLog = &kl
		in.setKnown(c, s == 0)
		ok := in.runSide(g, f, blk, s)
		for _, k := range kl {
			delete(in.known, k)
		}
		in.knownLog = oldKnownLog
		r := sideRes{vals: sp.vals, writes: map[*Cell]Value{}, types: sp.types}
		for _, u := range sp.log {
			if _, done := r.writes[u.c]; !done {
				r.order = append(r.order, u.c)
			}
			r.writes[u.c] = u.c.v
		}
		for i := len(sp.log) - 1; i >= 0; i-- {
			sp.log[i].c.v = sp.log[i].v
		}
		if !ok {
			return fail()
		}
		res[s] = r
		f.blk, f.pc, f.prev = blk, pc, prev
		g.fr = f
	}
	in.spec = outer
	// merge values
	mv := make([]Value, len(res[0].vals))
	for i := range mv {
		var t *TI
		if mi.join != nil {
			t = in.ti(f.fi.blocks[mi.join.Index].ins[i].ins.(*ssa.Phi).Type())
		} else {
			t = in.resultTI(f.fi.fn)
		}
		var ok bool
		mv[i], ok = in.mergeVal(t, c, res[0].vals[i], res[1].vals[i])
		if !ok {
			return fail()
		}
	}
	type wr struct {
		c *Cell
		v Value
		t *TI
	}
	var ws []wr
	add := func(c1 *Cell, t *TI) bool {
		a, ok1 := res[0].writes[c1]
		b2, ok2 := res[1].writes[c1]
		if !ok1 {
			a = c1.v
		}
		if !ok2 {
			b2 = c1.v
		}
		var v Value
		var ok bool
		if t != nil {
			v, ok = in.mergeVal(t, c, a, b2)
		} else {
			v, ok = in.merge(c, a, b2)
		}
		if !ok {
			return false
		}
		ws = append(ws, wr{c1, v, t})
		return true
	}
	for _, cc := range res[0].order {
		if !add(cc, res[0].types[cc]) {
			return fail()
		}
	}
	for _, cc := range res[1].order {
		if _, ok := res[0].writes[cc]; ok {
			continue
		}
		if !add(cc, res[1].types[cc]) {
			return fail()
		}
	}
	for _, w := range ws {
		in.storeT = w.t
		in.store(w.c, w.v)
	}
	in.storeT = nil
	if mi.join == nil {
		var v Value
		if len(mv) > 0 {
			v = mv[0]
		}
		if in.spec != nil && in.spec.join == nil && in.spec.frame == f {
			in.spec.vals = mv
			in.spec.hit = true
			return true, true
		}
		in.ret(g, f, v)
		return true, false
	}
	if in.spec != nil && in.spec.join == mi.join && in.spec.frame == f {
		in.spec.vals = mv
		in.spec.hit = true
		return true, true
	}
	jb := f.fi.blocks[mi.join.Index]
	for i := 0; i < nphi; i++ {
		f.regs[jb.ins[i].dst] = mv[i]
	}
	f.prev = blk.b
	f.blk = jb
	f.pc = nphi
	if f.fi.inRepo {
		jb.seen = true
	}
	return true, false
}

func (in *Interp) resultTI(fn *ssa.Function) *TI {
	r := fn.Signature.Results()
	if r.Len() == 1 {
		return in.ti(r.At(0).Type())
	}
	return in.ti(r)
}

// mergeVal merges two values of known type (aggregates element-wise).
func (in *Interp) mergeVal(t *TI, c *Term, a, b Value) (Value, bool) {
	if t.k == TTuple || t.k == TStruct {
		x, ok1 := a.r.(*AggV)
		y, ok2 := b.r.(*AggV)
		if ok1 && ok2 {
			r := &AggV{f: make([]Value, len(x.f))}
			for i := range x.f {
				m, ok := in.mergeVal(t.fields[i], c, x.f[i], y.f[i])
				if !ok {
					return Value{}, false
				}
				r.f[i] = m
			}
			return Value{r: r}, true
		}
		return Value{}, false
	}
	if t.k == TString && a.r == nil && b.r == nil {
		return Value{}, true
	}
	return in.mergeT(t, c, a, b)
}

// runSide executes one side until the join. Returns false on anything that
// cannot be speculated.
func (in *Interp) runSide(g *G, f *Frame, blk *cBlock, s int) (ok bool) {
	sp := in.spec
	defer func() {
		if r := recover(); r != nil {
			if _, isSpec := r.(specFail); isSpec {
				ok = false
				in.spec = sp
				return
			}
			if a, isAb := r.(pathAbort); isAb && (a.kind == abUnsup || a.kind == abSteps) {
				ok = false
				in.spec = sp
				return
			}
			panic(r)
		}
	}()
	to := blk.b.Succs[s]
	if to == sp.join {
		in.arrive(f, blk.b)
		return true
	}
	in.jump(f, to)
	in.step(g)
	return sp.hit
}

// arrive records the phi values for entering the join from block from.
func (in *Interp) arrive(f *Frame, from *ssa.BasicBlock) {
	sp := in.spec
	sp.hit = true
	cb := f.fi.blocks[sp.join.Index]
	if cb.nphi == 0 {
		return
	}
	k := -1
	for i, p := range sp.join.Preds {
		if p == from {
			k = i
			break
		}
	}
	for i := 0; i < cb.nphi; i++ {
		sp.vals = append(sp.vals, f.get(&cb.ins[i].ops[k]))
	}
}
