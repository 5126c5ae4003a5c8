package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// ---- path aborts (host panics) ----

type abortKind int

const (
	abAssume abortKind = iota // assumption infeasible
	abUnsup
	abSteps
	abDone
	abViolation
	abTime
	abUnknown
)

type pathAbort struct {
	kind abortKind
	msg  string
}

func (p pathAbort) Error() string { return p.msg }

// goPanic is a Go-level panic raised by an operation.
type goPanic struct{ v Value }

type opnd struct {
	k   uint8 // 0 reg 1 const 2 global
	idx int
	v   Value
}

type cInstr struct {
	ins ssa.Instruction
	dst int
	ops []opnd
	t   *TI // result or relevant type
	t2  *TI
	x   any
}

type cBlock struct {
	ins  []cInstr
	nphi int
	b    *ssa.BasicBlock
	seen bool
}

type FnInfo struct {
	fn     *ssa.Function
	blocks []*cBlock
	nregs  int
	regs   map[ssa.Value]int
	intr   intrinsic
	redir  *ssa.Function
	ready  bool
	inRepo bool
	count  int
	total  int
}

type deferred struct {
	fn   Value
	args []Value
	inv  *ssa.CallCommon
}

type Frame struct {
	fi       *FnInfo
	regs     []Value
	blk      *cBlock
	prev     *ssa.BasicBlock
	pc       int
	defers   []deferred
	caller   *Frame
	dst      int // register of caller receiving the result
	env      []Value
	unwind   *panicRec // non-nil: this frame runs its defers because of a panic
	forPanic *panicRec // this frame is a deferred call run while panicking
	isDefer  bool      // result discarded, return to RunDefers/unwind
	depth    int
}

type panicRec struct {
	v         Value
	recovered bool
	exit      bool
	where     string
}

type G struct {
	id     int
	fr     *Frame
	done   bool
	ready  func() bool // nil = runnable
	vc     VC
	panics []*panicRec
	pend   *pendSend
	result Value
	wake   bool
	atSync bool
}

type Interp struct {
	prog     *ssa.Program
	eng      *Engine
	sizes    types.Sizes
	tb       *Table
	tiByPtr  map[types.Type]*TI
	tiCanon  typeutil.Map
	fns      map[*ssa.Function]*FnInfo
	globals  map[*ssa.Global]*Cell
	methods  map[methKey]*ssa.Function
	impl     map[[2]*TI]bool
	initing  bool
	undo     []undoRec
	undoMaps []undoMap
	spec     *specState

	// per path
	gs            []*G
	cur           *G
	steps         int
	stepLimit     int
	pc            []*Term
	known         map[*Term]bool
	prefix        []dec
	trace         []dec
	itemModel     map[string]uint64
	local         *localQ
	nextG         *G
	accCells      []*Cell
	accMaps       []*MapObj
	touched       []*FnInfo
	knownLog      *[]*Term
	mergeInf      map[*ssa.BasicBlock]*mergeInfo
	storeT        *TI
	exitFlag      bool
	tooMany       bool
	dpos          int
	model         Model
	modelOK       bool
	maybeInf      bool
	pending       []assertion
	decided       int // assertions up to this ordinal are decided
	sinceFlush    int
	names         map[string]int
	inputs        []inputRec
	observes      []obsRec
	covers        map[string]bool
	nAsserts      int
	structural    int
	raceOn        bool
	multiG        bool
	schedAll      bool
	preempt       int
	preemptLim    int
	mapOrder      int
	mapToggle     bool
	numCPU        int
	randMode      int // 0 fixed, 1 symbolic
	randSeed      string
	randCtr       int
	stdout        []Value
	stdoutOn      bool
	mergeIf       bool
	side          map[any]any
	noReplayTrace bool
	mapIDs        int
	pathDepth     int
	curFrame      *Frame
	unknowns      int
	solver        *Solver
	viol          *violation
	tested        []string
	noMerge       map[*ssa.BasicBlock]int
	fatal         string
}

type assertion struct {
	c     *Term
	label string
	ord   int
}

type inputRec struct {
	name string
	t    *Term // symbolic
	val  Value // or concrete decision
	kind string
}

type obsRec struct {
	label string
	kind  string
	v     *Term
	s     []*Term
}

type methKey struct {
	t *TI
	f *types.Func
}

func NewInterp(e *Engine) *Interp {
	in := &Interp{eng: e, prog: e.prog, tb: NewTable(), tiByPtr: map[types.Type]*TI{}, fns: map[*ssa.Function]*FnInfo{},
		globals: map[*ssa.Global]*Cell{}, methods: map[methKey]*ssa.Function{}, impl: map[[2]*TI]bool{}}
	in.sizes = types.SizesFor("gc", "amd64")
	in.noMerge = map[*ssa.BasicBlock]int{}
	in.mergeInf = map[*ssa.BasicBlock]*mergeInfo{}
	return in
}

func (in *Interp) unsup(msg string) {
	where := ""
	if in.cur != nil && in.cur.fr != nil {
		where = " in " + in.stack(in.cur.fr, 6)
	}
	panic(pathAbort{abUnsup, msg + where})
}

func (in *Interp) stack(f *Frame, n int) string {
	var sb strings.Builder
	for ; f != nil && n > 0; f, n = f.caller, n-1 {
		pos := ""
		if f.blk != nil && f.pc >= 0 && f.pc < len(f.blk.ins) {
			p := in.prog.Fset.Position(f.blk.ins[f.pc].ins.Pos())
			if p.IsValid() {
				pos = fmt.Sprintf("(%s:%d)", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line)
			}
		}
		sb.WriteString(f.fi.fn.String() + pos + " < ")
	}
	return sb.String()
}

func (in *Interp) rtPanic(msg string) {
	panic(goPanic{in.mkRTErr("runtime error: " + msg)})
}

func (in *Interp) mkRTErr(msg string) Value {
	return Value{r: &IfaceV{t: in.eng.rtErr(in), v: mkString(msg)}}
}

func (in *Interp) strPanic(msg string) {
	panic(goPanic{Value{r: &IfaceV{t: in.ti(types.Typ[types.String]), v: mkString(msg)}}})
}

// ---- compilation of functions ----

func (in *Interp) fnInfo(fn *ssa.Function) *FnInfo {
	fi := in.fns[fn]
	if fi == nil {
		fi = &FnInfo{fn: fn}
		in.fns[fn] = fi
		name := fn.String()
		if o := fn.Origin(); o != nil {
			name = o.String()
		}
		if i, ok := intrinsics[name]; ok {
			fi.intr = i
		} else if s, ok := in.eng.redirects[name]; ok && fn.Pkg != in.eng.shimPkg {
			fi.redir = in.eng.shimPkg.Func(s)
			if fi.redir == nil {
				panic("missing shim " + s)
			}
		}
		if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && !in.eng.inited[fn.Pkg] {
			fi.intr = noop
		}
		if p := fnPkgPath(fn); strings.HasPrefix(p, "github.com/rom1mouret/ml-essentials") {
			fi.inRepo = true
		}
	}
	return fi
}

func fnPkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

var buildMu sync.Mutex

func (in *Interp) compile(fi *FnInfo) {
	fn := fi.fn
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
	fi.ready = true
	regs := map[ssa.Value]int{}
	fi.regs = regs
	n := 0
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		regs[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	fi.nregs = n
	fi.blocks = make([]*cBlock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &cBlock{b: b}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cInstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			if _, ok := ins.(*ssa.Phi); ok {
				cb.nphi++
			}
			for _, op := range ins.Operands(nil) {
				if *op == nil {
					ci.ops = append(ci.ops, opnd{k: 1})
					continue
				}
				ci.ops = append(ci.ops, in.operand(fi, *op))
			}
			in.prep(&ci)
			cb.ins = append(cb.ins, ci)
		}
		fi.blocks[i] = cb
	}
}

func (in *Interp) operand(fi *FnInfo, v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{k: 1, v: in.constVal(x)}
	case *ssa.Global:
		return opnd{k: 1, v: Value{r: in.global(x)}}
	case *ssa.Function:
		return opnd{k: 1, v: Value{r: &FuncV{fn: x}}}
	case *ssa.Builtin:
		return opnd{k: 1, v: Value{r: &FuncV{bi: x}}}
	}
	i, ok := fi.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %v", v, fi.fn))
	}
	return opnd{k: 0, idx: i}
}

func (in *Interp) global(g *ssa.Global) *Cell {
	c := in.globals[g]
	if c == nil {
		if g.Pkg != nil && !in.eng.inited[g.Pkg] {
			in.eng.mu.Lock()
			in.eng.uninit[g.String()] = true
			in.eng.mu.Unlock()
		}
		old := in.initing
		in.initing = true
		c = in.newCell(in.ti(g.Type().Underlying().(*types.Pointer).Elem()))
		in.initing = old
		in.globals[g] = c
	}
	return c
}

func (in *Interp) constVal(c *ssa.Const) Value {
	t := in.ti(c.Type())
	if c.Value == nil {
		return in.zero(t)
	}
	switch t.k {
	case TString:
		if c.Value.Kind() == constant.String {
			return mkString(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkString(string(rune(i)))
	case TScalar:
		switch {
		case t.sort == SBool:
			return mkBool(constant.BoolVal(c.Value))
		case t.isFlt:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			if t.sort.W == 32 {
				f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
				return Value{u: uint64(math.Float32bits(f32))}
			}
			return mkFloat(f)
		default:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return Value{u: uint64(i) & maskW(t.sort.W)}
			}
			u, _ := constant.Uint64Val(v)
			return Value{u: u & maskW(t.sort.W)}
		}
	case TOther:
		return Value{}
	case TIface:
		// constants converted to interface do not occur
	case TUnsafe:
		return Value{}
	}
	if c.Type().Underlying() == nil {
		return Value{}
	}
	return Value{}
}

// prep precomputes type information.
func (in *Interp) prep(ci *cInstr) {
	switch x := ci.ins.(type) {
	case *ssa.Alloc:
		ci.t = in.ti(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		ci.t = in.ti(x.X.Type())
		ci.t2 = in.ti(x.Y.Type())
	case *ssa.UnOp:
		ci.t = in.ti(x.X.Type())
	case *ssa.Convert:
		ci.t = in.ti(x.X.Type())
		ci.t2 = in.ti(x.Type())
	case *ssa.MultiConvert:
		ci.t = in.ti(x.X.Type())
		ci.t2 = in.ti(x.Type())
	case *ssa.MakeInterface:
		ci.t = in.ti(x.X.Type())
	case *ssa.TypeAssert:
		ci.t = in.ti(x.AssertedType)
	case *ssa.MakeMap:
	case *ssa.MakeSlice:
		ci.t = in.ti(x.Type()).elem
		if ci.t == nil {
			ci.t = in.ti(coreSlice(x.Type()))
		}
	case *ssa.MakeChan:
		ci.t = in.ti(x.Type().Underlying().(*types.Chan).Elem())
	case *ssa.MapUpdate:
		ci.t = in.ti(x.Map.Type().Underlying())
		if ci.t.k != TMap {
			ci.t = in.ti(x.Map.Type())
		}
	case *ssa.Lookup:
		ci.t = in.ti(x.X.Type())
	case *ssa.Range:
		ci.t = in.ti(x.X.Type())
	case *ssa.IndexAddr:
		ci.t = in.ti(x.X.Type())
		ci.t2 = in.ti(x.Index.Type())
		pt := x.Type().Underlying().(*types.Pointer).Elem()
		ci.x = in.ti(pt)
	case *ssa.Index:
		ci.t = in.ti(x.X.Type())
		ci.t2 = in.ti(x.Index.Type())
	case *ssa.Slice:
		ci.t = in.ti(x.X.Type())
	case *ssa.Next:
		ci.t = in.ti(x.Type())
	case *ssa.Field:
		ci.t = in.ti(x.Type())
	case *ssa.FieldAddr:
		ci.t = in.ti(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Select:
		ci.t = in.ti(x.Type())
	case *ssa.Store:
		ci.t = in.ti(x.Val.Type())
	}
}

func coreSlice(t types.Type) types.Type {
	return t.Underlying().(*types.Slice).Elem()
}

func (f *Frame) get(o *opnd) Value {
	if o.k == 0 {
		return f.regs[o.idx]
	}
	return o.v
}

// ---- calls ----

func (in *Interp) pushCall(g *G, fn *ssa.Function, args, env []Value, dst int) *Frame {
	fi := in.fnInfo(fn)
	for fi.redir != nil {
		fi = in.fnInfo(fi.redir)
	}
	if !fi.ready {
		in.compile(fi)
	}
	if len(fi.blocks) == 0 {
		in.unsup("external function " + fn.String())
	}
	in.countFn(fi)
	f := &Frame{fi: fi, regs: make([]Value, fi.nregs), blk: fi.blocks[0], caller: g.fr, dst: dst, env: env}
	if g.fr != nil {
		f.depth = g.fr.depth + 1
		if f.depth > 5000 {
			in.unsup("stack overflow")
		}
	}
	if fi.inRepo {
		fi.blocks[0].seen = true
	}
	copy(f.regs, args)
	copy(f.regs[len(fi.fn.Params):], env)
	g.fr = f
	return f
}

type ctl int

const (
	ctlRet    ctl = iota
	ctlBlock      // g.ready set; retry later
	ctlPushed     // a frame was pushed; its result is this call's result
)

type intrinsic func(in *Interp, g *G, args []Value, fn *ssa.Function, dst int) (Value, ctl)

func (in *Interp) countFn(fi *FnInfo) {
	if fi.inRepo {
		if fi.count == 0 {
			in.touched = append(in.touched, fi)
		}
		fi.count++
	}
}

// invoke calls a function value from the current frame. Returns false if the
// instruction must be retried (blocked).
func (in *Interp) call(g *G, fv Value, args []Value, dst int) (done bool, res Value, pushed bool) {
	f, ok := fv.r.(*FuncV)
	if !ok {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	fn := f.fn
	fi := in.fnInfo(fn)
	if fi.intr != nil {
		v, c := fi.intr(in, g, args, fn, dst)
		switch c {
		case ctlRet:
			in.countFn(fi)
			return true, v, false
		case ctlBlock:
			return false, Value{}, false
		default:
			return true, Value{}, true
		}
	}
	in.pushCall(g, fn, args, f.env, dst)
	return true, Value{}, true
}

func (in *Interp) resolveInvoke(recv Value, m *types.Func) (*ssa.Function, Value) {
	i, ok := recv.r.(*IfaceV)
	if !ok {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	k := methKey{i.t, m}
	fn := in.methods[k]
	if fn == nil {
		buildMu.Lock()
		fn = in.prog.LookupMethod(i.t.t, m.Pkg(), m.Name())
		buildMu.Unlock()
		if fn == nil {
			in.unsup("method " + m.String() + " on " + i.t.t.String())
		}
		in.methods[k] = fn
	}
	return fn, i.v
}

// ---- main loop ----

func (in *Interp) covBlock(f *Frame) {
	if f.fi.inRepo {
		f.blk.seen = true
	}
}

// runG runs goroutine g until it blocks, finishes, or a schedule point switches.
func (in *Interp) runG(g *G) {
	in.cur = g
	for {
		if in.step(g) {
			return
		}
	}
}

// step runs instructions of g until a switch is needed (returns true).
func (in *Interp) step(g *G) (ret bool) {
	defer func() {
		if r := recover(); r != nil {
			gp, ok := r.(goPanic)
			if !ok {
				_, isAb := r.(pathAbort)
				_, isSp := r.(specFail)
				if !isAb && !isSp && in.cur != nil && in.cur.fr != nil {
					in.fatal = fmt.Sprintf("%v at %s", r, in.stack(in.cur.fr, 8))
				}
				panic(r)
			}
			where := ""
			if in.spec == nil {
				where = in.stack(g.fr, 10)
			}
			in.startPanic(g, &panicRec{v: gp.v, where: where})
			ret = false
		}
	}()
	for {
		f := g.fr
		if f == nil {
			g.done = true
			return true
		}
		if in.steps++; in.steps > in.stepLimit {
			panic(pathAbort{abSteps, "step limit in " + in.stack(f, 6)})
		}
		if in.spec != nil && in.steps > in.spec.limit {
			panic(specFail{})
		}
		if in.steps&0xfff == 0 && in.eng.expired() {
			panic(pathAbort{abTime, "time"})
		}
		ci := &f.blk.ins[f.pc]
		switch x := ci.ins.(type) {
		case *ssa.Alloc:
			f.regs[ci.dst] = Value{r: in.newCell(ci.t)}
		case *ssa.BinOp:
			f.regs[ci.dst] = in.binop(x.Op, ci.t, ci.t2, f.get(&ci.ops[0]), f.get(&ci.ops[1]))
		case *ssa.UnOp:
			v := f.get(&ci.ops[0])
			switch x.Op {
			case token.MUL:
				if c, ok := v.r.(*Cell); ok && c.sub == nil && !in.raceOn {
					f.regs[ci.dst] = c.v
				} else {
					f.regs[ci.dst] = in.loadPtr(v)
				}
			case token.ARROW:
				if in.syncPoint(g) {
					return true
				}
				r, ok := in.recv(g, v, x.CommaOk)
				if !ok {
					return true
				}
				f.regs[ci.dst] = r
				g.atSync = false
			default:
				f.regs[ci.dst] = in.unop(x.Op, ci.t, v)
			}
		case *ssa.Call:
			if in.doCall(g, f, ci, x.Common(), ci.dst) {
				if g.fr == f && f.blk.ins[f.pc].ins == ci.ins && g.ready != nil {
					return true
				}
				if g.wake {
					g.wake = false
					return true
				}
				continue
			}
		case *ssa.ChangeInterface:
			f.regs[ci.dst] = f.get(&ci.ops[0])
		case *ssa.ChangeType:
			f.regs[ci.dst] = f.get(&ci.ops[0])
		case *ssa.Convert:
			f.regs[ci.dst] = in.convert(ci.t, ci.t2, f.get(&ci.ops[0]))
		case *ssa.MultiConvert:
			f.regs[ci.dst] = in.convert(ci.t, ci.t2, f.get(&ci.ops[0]))
		case *ssa.Defer:
			d := deferred{}
			c := x.Common()
			fv, args := in.callTarget(f, ci, c)
			d.fn, d.args = fv, args
			in.noSpec()
			f.defers = append(f.defers, d)
		case *ssa.Extract:
			f.regs[ci.dst] = f.get(&ci.ops[0]).r.(*AggV).f[x.Index]
		case *ssa.Field:
			f.regs[ci.dst] = f.get(&ci.ops[0]).r.(*AggV).f[x.Field]
		case *ssa.FieldAddr:
			p := f.get(&ci.ops[0])
			switch c := p.r.(type) {
			case *Cell:
				if c.sub == nil {
					in.unsup("field address of opaque cell")
				}
				f.regs[ci.dst] = Value{r: c.sub[x.Field]}
			case *SymPtr:
				sc := make([]*Cell, len(c.c))
				for i := range sc {
					sc[i] = c.c[i].sub[x.Field]
				}
				f.regs[ci.dst] = Value{r: &SymPtr{sc, c.idx, ci.t}}
			case nil:
				in.rtPanic("invalid memory address or nil pointer dereference")
			default:
				in.unsup(fmt.Sprintf("field of %T", p.r))
			}
		case *ssa.Go:
			in.noSpec()
			fv, args := in.callTarget(f, ci, x.Common())
			in.spawn(g, fv, args)
			if in.schedAll {
				f.pc++
				if in.yieldPoint(g) {
					return true
				}
				continue
			}
		case *ssa.If:
			c := f.get(&ci.ops[0])
			var taken int
			if t, ok := c.r.(*Term); ok {
				if in.mergeIf {
					merged, stop := in.tryMerge(g, f, t)
					if stop {
						return true
					}
					if merged {
						continue
					}
				}
				if in.branch(t) {
					taken = 0
				} else {
					taken = 1
				}
			} else if c.u == 0 {
				taken = 1
			}
			to := f.blk.b.Succs[taken]
			if in.spec != nil && to == in.spec.join && f == in.spec.frame {
				in.arrive(f, f.blk.b)
				return true
			}
			in.jump(f, to)
			continue
		case *ssa.Index:
			f.regs[ci.dst] = in.index(ci, f.get(&ci.ops[0]), f.get(&ci.ops[1]))
		case *ssa.IndexAddr:
			f.regs[ci.dst] = in.indexAddr(ci, f.get(&ci.ops[0]), f.get(&ci.ops[1]))
		case *ssa.Jump:
			if in.spec != nil && f.blk.b.Succs[0] == in.spec.join && f == in.spec.frame {
				in.arrive(f, f.blk.b)
				return true
			}
			in.jump(f, f.blk.b.Succs[0])
			continue
		case *ssa.Lookup:
			f.regs[ci.dst] = in.lookup(ci, x.CommaOk, f.get(&ci.ops[0]), f.get(&ci.ops[1]), in.ti(x.Index.Type()))
		case *ssa.MakeChan:
			n := in.concInt(f.get(&ci.ops[0]), 0, 64)
			if n < 0 {
				in.strPanic("makechan: size out of range")
			}
			f.regs[ci.dst] = Value{r: &ChanObj{cap: int(n), el: ci.t}}
		case *ssa.MakeClosure:
			env := make([]Value, len(ci.ops)-1)
			for i := range env {
				env[i] = f.get(&ci.ops[i+1])
			}
			f.regs[ci.dst] = Value{r: &FuncV{fn: x.Fn.(*ssa.Function), env: env}}
		case *ssa.MakeInterface:
			f.regs[ci.dst] = Value{r: &IfaceV{ci.t, f.get(&ci.ops[0])}}
		case *ssa.MakeMap:
			m := newMap(in.initing)
			in.mapIDs++
			m.id = in.mapIDs
			f.regs[ci.dst] = Value{r: m}
		case *ssa.MakeSlice:
			n := in.concInt(f.get(&ci.ops[0]), -1, 4096)
			c := in.concInt(f.get(&ci.ops[1]), -1, 4096)
			if n < 0 || n > 1<<26 {
				in.rtPanic("makeslice: len out of range")
			}
			if c < n || c > 1<<26 {
				in.rtPanic("makeslice: cap out of range")
			}
			cs := in.newCells(int(c), ci.t)
			f.regs[ci.dst] = Value{r: &SliceV{cs[:n]}}
		case *ssa.MapUpdate:
			m, _ := f.get(&ci.ops[0]).r.(*MapObj)
			in.mapSet(ci.t, m, f.get(&ci.ops[1]), f.get(&ci.ops[2]))
		case *ssa.Next:
			f.regs[ci.dst] = in.next(x, f.get(&ci.ops[0]))
		case *ssa.Panic:
			panic(goPanic{f.get(&ci.ops[0])})
		case *ssa.Phi:
			in.unsup("phi in body")
		case *ssa.Range:
			v := f.get(&ci.ops[0])
			it := &IterV{}
			if ci.t.k == TString {
				it.str = v
			} else if m, ok := v.r.(*MapObj); ok {
				it.m = m
				if in.raceOn {
					in.raceMapRead(m)
				}
				it.ents = in.orderEnts(m)
			}
			f.regs[ci.dst] = Value{r: it}
		case *ssa.Return:
			var v Value
			switch len(ci.ops) {
			case 0:
			case 1:
				v = f.get(&ci.ops[0])
			default:
				a := &AggV{f: make([]Value, len(ci.ops))}
				for i := range ci.ops {
					a.f[i] = f.get(&ci.ops[i])
				}
				v = Value{r: a}
			}
			if in.spec != nil && f == in.spec.frame {
				if in.spec.join != nil {
					panic(specFail{})
				}
				if len(ci.ops) > 0 {
					in.spec.vals = []Value{v}
				}
				in.spec.hit = true
				return true
			}
			in.ret(g, f, v)
			continue
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				if !in.runDeferred(g, f, d, nil) {
					f.defers = append(f.defers, d)
					return true
				}
				if g.wake {
					g.wake = false
					return true
				}
				continue
			}
		case *ssa.Select:
			if in.syncPoint(g) {
				return true
			}
			r, ok := in.selectOp(g, f, ci, x)
			if !ok {
				return true
			}
			g.atSync = false
			f.regs[ci.dst] = r
		case *ssa.Send:
			if in.syncPoint(g) {
				return true
			}
			if !in.send(g, f.get(&ci.ops[0]), f.get(&ci.ops[1])) {
				return true
			}
			g.atSync = false
		case *ssa.Slice:
			f.regs[ci.dst] = in.slice(ci, x, f)
		case *ssa.SliceToArrayPointer:
			in.unsup("slice to array pointer")
		case *ssa.Store:
			p := f.get(&ci.ops[0])
			if in.spec != nil {
				in.storeT = ci.t
			}
			in.storePtr(p, f.get(&ci.ops[1]))
			in.storeT = nil
		case *ssa.TypeAssert:
			f.regs[ci.dst] = in.typeAssert(x, ci.t, f.get(&ci.ops[0]))
		default:
			in.unsup(fmt.Sprintf("instruction %T", x))
		}
		f.pc++
	}
}

func (in *Interp) orderEnts(m *MapObj) []*mapEnt {
	var out []*mapEnt
	for _, e := range m.ents {
		if !e.dead {
			out = append(out, e)
		}
	}
	rev := false
	switch in.mapOrder {
	case 1:
		rev = true
	case 2:
		in.mapToggle = !in.mapToggle
		rev = in.mapToggle
	}
	if rev {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func (in *Interp) jump(f *Frame, to *ssa.BasicBlock) {
	from := f.blk.b
	cb := f.fi.blocks[to.Index]
	if cb.nphi > 0 {
		k := -1
		for i, p := range to.Preds {
			if p == from {
				k = i
				break
			}
		}
		if cb.nphi == 1 {
			ci := &cb.ins[0]
			f.regs[ci.dst] = f.get(&ci.ops[k])
		} else {
			var tmp [16]Value
			t := tmp[:0]
			for i := 0; i < cb.nphi; i++ {
				t = append(t, f.get(&cb.ins[i].ops[k]))
			}
			for i := 0; i < cb.nphi; i++ {
				f.regs[cb.ins[i].dst] = t[i]
			}
		}
	}
	f.prev = from
	f.blk = cb
	f.pc = cb.nphi
	if f.fi.inRepo {
		cb.seen = true
	}
}

func (in *Interp) callTarget(f *Frame, ci *cInstr, c *ssa.CallCommon) (Value, []Value) {
	if c.IsInvoke() {
		// ops[0] is the receiver value
		fn, recv := in.resolveInvoke(f.get(&ci.ops[0]), c.Method)
		args := make([]Value, 0, len(c.Args)+1)
		args = append(args, recv)
		for i := range c.Args {
			args = append(args, f.get(&ci.ops[i+1]))
		}
		return Value{r: &FuncV{fn: fn}}, args
	}
	args := make([]Value, len(c.Args))
	for i := range c.Args {
		args[i] = f.get(&ci.ops[i+1])
	}
	return f.get(&ci.ops[0]), args
}

// doCall returns true when control moved (frame pushed or blocked).
func (in *Interp) doCall(g *G, f *Frame, ci *cInstr, c *ssa.CallCommon, dst int) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		args := make([]Value, len(c.Args))
		for i := range c.Args {
			args[i] = f.get(&ci.ops[i+1])
		}
		r := in.builtin(g, f, b, c, args)
		if dst >= 0 {
			f.regs[dst] = r
		}
		return false
	}
	fv, args := in.callTarget(f, ci, c)
	pc := f.pc
	f.pc++ // frames pushed return to the next instruction
	done, v, pushed := in.callSafe(g, f, pc, fv, args, dst)
	if !done {
		f.pc = pc
		return true
	}
	if pushed {
		return true
	}
	if dst >= 0 {
		f.regs[dst] = v
	}
	f.pc = pc
	if g.wake { // intrinsic asked for a reschedule after completion
		f.pc++
		return true
	}
	return false
}

func (in *Interp) callSafe(g *G, f *Frame, pc int, fv Value, args []Value, dst int) (bool, Value, bool) {
	return in.call(g, fv, args, dst)
}

func (in *Interp) ret(g *G, f *Frame, v Value) {
	g.fr = f.caller
	if f.isDefer {
		caller := f.caller
		if f.forPanic != nil {
			in.afterDefer(g, caller, f.forPanic)
		}
		return
	}
	if g.fr == nil {
		g.result = v
		g.done = true
		in.onExit(g)
		return
	}
	if f.dst >= 0 {
		g.fr.regs[f.dst] = v
	}
}

// runDeferred starts a deferred call. Returns false if blocked (retry).
func (in *Interp) runDeferred(g *G, f *Frame, d deferred, pr *panicRec) bool {
	fv := d.fn.r.(*FuncV)
	if fv == nil {
		in.rtPanic("nil deferred function")
	}
	if fv.bi != nil {
		in.builtin(g, f, fv.bi, nil, d.args)
		if pr != nil {
			in.afterDefer(g, f, pr)
		}
		return true
	}
	fi := in.fnInfo(fv.fn)
	if fi.intr != nil {
		_, c := fi.intr(in, g, d.args, fv.fn, -1)
		switch c {
		case ctlBlock:
			return false
		case ctlPushed:
			g.fr.isDefer = true
			g.fr.forPanic = pr
		default:
			if pr != nil {
				in.afterDefer(g, f, pr)
			}
		}
		return true
	}
	nf := in.pushCall(g, fv.fn, d.args, fv.env, -1)
	nf.isDefer = true
	nf.forPanic = pr
	return true
}

func (in *Interp) startPanic(g *G, pr *panicRec) {
	if in.spec != nil {
		panic(specFail{})
	}
	in.unwindFrom(g, g.fr, pr)
}

// unwindFrom continues panicking with f as the top frame.
func (in *Interp) unwindFrom(g *G, f *Frame, pr *panicRec) {
	for f != nil {
		g.fr = f
		f.unwind = pr
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			func() {
				defer func() {
					if r := recover(); r != nil {
						if gp, ok := r.(goPanic); ok {
							in.unwindFrom(g, g.fr, &panicRec{v: gp.v})
							return
						}
						panic(r)
					}
				}()
				if !in.runDeferred(g, f, d, pr) {
					in.unsup("blocking deferred intrinsic while panicking")
				}
			}()
			return
		}
		// a deferred call that panics replaces the earlier panic of its parent frame
		f = f.caller
	}
	g.fr = nil
	g.done = true
	if pr.exit {
		in.onExit(g)
		return
	}
	in.uncaught(g, pr)
}

// afterDefer is called when a deferred function run while panicking returned to f.
func (in *Interp) afterDefer(g *G, f *Frame, pr *panicRec) {
	if !pr.recovered {
		in.unwindFrom(g, f, pr)
		return
	}
	// run remaining defers, then return from f normally via the recover block
	f.unwind = nil
	g.fr = f
	if rb := f.fi.fn.Recover; rb != nil {
		cb := f.fi.blocks[rb.Index]
		f.blk = cb
		f.pc = 0
		// remaining defers run first: the recover block is a plain return, so
		// emulate by running them through a synthetic loop
		if len(f.defers) > 0 {
			in.runRest(g, f, cb)
		}
		return
	}
	if len(f.defers) > 0 {
		in.unsup("recover with remaining defers and no recover block")
	}
	in.ret(g, f, in.zeroResult(f.fi.fn))
}

func (in *Interp) runRest(g *G, f *Frame, cb *cBlock) {
	// Jump into a block that ends in RunDefers; Return if one exists, else unsupported.
	for _, b := range f.fi.blocks {
		n := len(b.ins)
		if n >= 2 {
			if _, ok := b.ins[n-1].ins.(*ssa.Return); ok {
				for i := range b.ins {
					if _, ok := b.ins[i].ins.(*ssa.RunDefers); ok && i+1 < n {
						// execute RunDefers then the recover block's return values
						nb := &cBlock{b: cb.b}
						nb.ins = append(nb.ins, b.ins[i])
						nb.ins = append(nb.ins, cb.ins...)
						f.blk = nb
						f.pc = 0
						return
					}
				}
			}
		}
	}
	in.unsup("recover with remaining defers")
}

func (in *Interp) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return Value{}
	case 1:
		return in.zero(in.ti(r.At(0).Type()))
	}
	return in.zero(in.ti(r))
}

// ---- operations ----

func (in *Interp) concInt(v Value, lo, hi int64) int64 {
	if t, ok := v.r.(*Term); ok {
		return in.concretize(t, lo, hi)
	}
	return int64(v.u)
}

func (in *Interp) index64(t *TI, v Value) Value {
	if x, ok := v.r.(*Term); ok {
		if x.sort.W == 64 {
			return v
		}
		op := OZExt
		if t.signed {
			op = OSExt
		}
		return in.fromTerm(in.tb.Un(op, SBV(64), 0, x))
	}
	if t.sort.W < 64 && t.signed {
		return Value{u: uint64(sext(v.u, t.sort.W))}
	}
	return v
}

// boundsCheck forks on idx < n and panics on the out-of-range side.
func (in *Interp) boundsCheck(idx *Term, n int) {
	if idx.lo >= 0 && idx.hi < int64(n) {
		return
	}
	c := in.tb.And(in.tb.Cmp(OSle, in.tb.Const(idx.sort, 0), idx), in.tb.Cmp(OSlt, idx, in.tb.Const(idx.sort, uint64(n))))
	if !in.branch(c) {
		in.rtPanic(fmt.Sprintf("index out of range [sym] with length %d", n))
	}
}

func (in *Interp) indexAddr(ci *cInstr, x, iv Value) Value {
	iv = in.index64(ci.t2, iv)
	var cs []*Cell
	switch p := x.r.(type) {
	case *SliceV:
		cs = p.c
	case *Cell:
		cs = p.sub
	case nil:
		if ci.t.k == TPtr {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
	case *SymPtr:
		cs = in.concPtr(p).sub
	default:
		in.unsup(fmt.Sprintf("index of %T", x.r))
	}
	if t, ok := iv.r.(*Term); ok {
		in.boundsCheck(t, len(cs))
		return Value{r: &SymPtr{cs, t, ci.x.(*TI)}}
	}
	i := int64(iv.u)
	if i < 0 || i >= int64(len(cs)) {
		in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(cs)))
	}
	return Value{r: cs[i]}
}

func (in *Interp) index(ci *cInstr, x, iv Value) Value {
	iv = in.index64(ci.t2, iv)
	if ci.t.k == TString {
		return in.strIndex(x, iv)
	}
	a := x.r.(*AggV)
	if t, ok := iv.r.(*Term); ok {
		in.boundsCheck(t, len(a.f))
		return a.f[in.concretize(t, 0, int64(len(a.f)-1))]
	}
	i := int64(iv.u)
	if i < 0 || i >= int64(len(a.f)) {
		in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(a.f)))
	}
	return a.f[i]
}

func (in *Interp) strIndex(s, iv Value) Value {
	n := strLen(s)
	if t, ok := iv.r.(*Term); ok {
		in.boundsCheck(t, n)
		b, _ := in.strTerms(s)
		acc := b[n-1]
		for i := n - 2; i >= 0; i-- {
			acc = in.tb.Ite(in.tb.Eq(t, in.tb.Const(t.sort, uint64(i))), b[i], acc)
		}
		return in.fromTerm(acc)
	}
	i := int64(iv.u)
	if i < 0 || i >= int64(n) {
		in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return in.strAt(s, int(i))
}

func (in *Interp) lookup(ci *cInstr, commaOk bool, x, k Value, kt *TI) Value {
	if ci.t.k == TString {
		return in.strIndex(x, in.index64(kt, k))
	}
	m, _ := x.r.(*MapObj)
	if m != nil && in.raceOn {
		in.raceMapRead(m)
	}
	t := ci.t
	// symbolic key against scalar values: build an ite chain instead of forking
	if m != nil {
		_, conc := in.keyStr(t.key, k)
		if (!conc || m.nsym > 0) && t.elem.k == TScalar {
			if e := in.mapKnown(t, m, k); e == nil {
				acc := in.zero(t.elem)
				okT := in.tb.F
				for i := len(m.ents) - 1; i >= 0; i-- {
					e := m.ents[i]
					if e.dead {
						continue
					}
					c := in.simp(in.eq(t.key, k, e.key))
					if c == in.tb.F {
						continue
					}
					acc = in.mergeScalar(c, t.elem.sort, e.val, acc)
					okT = in.tb.Or(okT, c)
				}
				if commaOk {
					return Value{r: &AggV{f: []Value{acc, in.fromTerm(okT)}}}
				}
				return acc
			}
		}
	}
	e := in.mapFind(t, m, k)
	if !commaOk {
		if e == nil {
			return in.zero(t.elem)
		}
		return e.val
	}
	if e == nil {
		return Value{r: &AggV{f: []Value{in.zero(t.elem), mkBool(false)}}}
	}
	return Value{r: &AggV{f: []Value{e.val, mkBool(true)}}}
}

// mapKnown finds an entry whose key is already known equal.
func (in *Interp) mapKnown(t *TI, m *MapObj, k Value) *mapEnt {
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if in.simp(in.eq(t.key, k, e.key)) == in.tb.T {
			return e
		}
	}
	return nil
}

func (in *Interp) next(x *ssa.Next, v Value) Value {
	it := v.r.(*IterV)
	in.noSpec()
	if x.IsString {
		n := strLen(it.str)
		if it.i >= n {
			return Value{r: &AggV{f: []Value{mkBool(false), mkInt(0), mkInt(0)}}}
		}
		if s, ok := strConc(it.str); ok {
			r, w := utf8.DecodeRuneInString(s[it.i:])
			res := Value{r: &AggV{f: []Value{mkBool(true), mkInt(it.i), Value{u: uint64(uint32(r))}}}}
			it.i += w
			return res
		}
		b := in.strAt(it.str, it.i)
		t := in.term(b, SBV(8))
		if !in.branch(in.tb.Cmp(OUlt, t, in.tb.Const(SBV(8), 0x80))) {
			r, w := in.decodeRune(it.str, it.i, t)
			res := Value{r: &AggV{f: []Value{mkBool(true), mkInt(it.i), in.fromTerm(r)}}}
			it.i += w
			return res
		}
		res := Value{r: &AggV{f: []Value{mkBool(true), mkInt(it.i), in.fromTerm(in.tb.Un(OZExt, SBV(32), 0, t))}}}
		it.i++
		return res
	}
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if e.dead {
			continue
		}
		return Value{r: &AggV{f: []Value{mkBool(true), e.key, e.val}}}
	}
	tt := in.ti(x.Type())
	return Value{r: &AggV{f: []Value{mkBool(false), in.zero(tt.fields[1]), in.zero(tt.fields[2])}}}
}

// decodeRune decodes the non-ASCII sequence at i, forking on its form.
func (in *Interp) decodeRune(s Value, i int, b0 *Term) (*Term, int) {
	k := func(v uint64) *Term { return in.tb.Const(SBV(8), v) }
	between := func(t *Term, lo, hi uint64) *Term {
		return in.tb.And(in.tb.Not(in.tb.Cmp(OUlt, t, k(lo))), in.tb.Not(in.tb.Cmp(OUlt, k(hi), t)))
	}
	bits := func(t *Term, mask, shift uint64) *Term {
		w := in.tb.Un(OZExt, SBV(32), 0, in.tb.Bin(OBAnd, t, k(mask)))
		return in.tb.Bin(OShl, w, in.tb.Const(SBV(32), shift))
	}
	bad := in.tb.Const(SBV(32), utf8.RuneError)
	n := strLen(s)
	at := func(j int) *Term { return in.term(in.strAt(s, i+j), SBV(8)) }
	cont := func(j int) bool { return i+j < n && in.branch(between(at(j), 0x80, 0xbf)) }
	or := func(a, b *Term) *Term { return in.tb.Bin(OBOr, a, b) }
	if in.branch(between(b0, 0xc2, 0xdf)) {
		if !cont(1) {
			return bad, 1
		}
		return or(bits(b0, 0x1f, 6), bits(at(1), 0x3f, 0)), 2
	}
	if in.branch(between(b0, 0xe0, 0xef)) {
		if !cont(1) {
			return bad, 1
		}
		if in.branch(in.tb.Or(in.tb.And(in.tb.Eq(b0, k(0xe0)), in.tb.Cmp(OUlt, at(1), k(0xa0))),
			in.tb.And(in.tb.Eq(b0, k(0xed)), in.tb.Cmp(OUlt, k(0x9f), at(1))))) || !cont(2) {
			return bad, 1
		}
		return or(or(bits(b0, 0xf, 12), bits(at(1), 0x3f, 6)), bits(at(2), 0x3f, 0)), 3
	}
	if in.branch(between(b0, 0xf0, 0xf4)) {
		if !cont(1) {
			return bad, 1
		}
		if in.branch(in.tb.Or(in.tb.And(in.tb.Eq(b0, k(0xf0)), in.tb.Cmp(OUlt, at(1), k(0x90))),
			in.tb.And(in.tb.Eq(b0, k(0xf4)), in.tb.Cmp(OUlt, k(0x8f), at(1))))) || !cont(2) || !cont(3) {
			return bad, 1
		}
		return or(or(bits(b0, 7, 18), bits(at(1), 0x3f, 12)), or(bits(at(2), 0x3f, 6), bits(at(3), 0x3f, 0))), 4
	}
	return bad, 1
}

func (in *Interp) slice(ci *cInstr, x *ssa.Slice, f *Frame) Value {
	v := f.get(&ci.ops[0])
	var n, c int
	var cs []*Cell
	isStr := ci.t.k == TString
	switch p := v.r.(type) {
	case *SliceV:
		cs = p.c
		n, c = len(cs), cap(cs)
	case *Cell:
		cs = p.sub
		n, c = len(cs), len(cs)
	case *SymPtr:
		cs = in.concPtr(p).sub
		n, c = len(cs), len(cs)
	case string, *SymStr:
		n = strLen(v)
		c = n
	case nil:
		if ci.t.k == TPtr {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
	default:
		in.unsup(fmt.Sprintf("slice of %T", v.r))
	}
	lo, hi, mx := 0, n, c
	get := func(o *opnd, e ssa.Value) int {
		val := in.index64(in.ti(e.Type()), f.get(o))
		if t, ok := val.r.(*Term); ok {
			if !in.branch(in.tb.And(in.tb.Cmp(OSle, in.tb.Const(t.sort, 0), t), in.tb.Cmp(OSle, t, in.tb.Const(t.sort, uint64(c))))) {
				in.rtPanic("slice bounds out of range")
			}
			return int(in.concretize(t, 0, int64(c)))
		}
		i := int64(val.u)
		if i < -1 || i > 1<<40 {
			in.rtPanic("slice bounds out of range")
		}
		return int(i)
	}
	// operands: X Low High Max
	if x.Low != nil {
		lo = get(&ci.ops[1], x.Low)
	}
	if x.High != nil {
		hi = get(&ci.ops[2], x.High)
	}
	if x.Max != nil {
		mx = get(&ci.ops[3], x.Max)
	}
	if lo < 0 || hi < lo || mx < hi || mx > c {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, c))
	}
	if isStr {
		return in.substr(v, lo, hi)
	}
	if v.r == nil {
		return Value{}
	}
	return Value{r: &SliceV{cs[lo:hi:mx]}}
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, t *TI, v Value) Value {
	i, _ := v.r.(*IfaceV)
	ok := false
	var res Value
	if i != nil {
		if t.k == TIface {
			ok = in.implements(i.t, t)
			res = v
		} else {
			ok = i.t == t
			res = i.v
		}
	}
	if x.CommaOk {
		if !ok {
			res = in.zero(t)
		}
		return Value{r: &AggV{f: []Value{res, mkBool(ok)}}}
	}
	if !ok {
		dyn := "nil"
		if i != nil {
			dyn = i.t.t.String()
		}
		panic(goPanic{in.mkRTErr("interface conversion: interface is " + dyn + ", not " + t.t.String())})
	}
	return res
}

func (in *Interp) implements(t, it *TI) bool {
	k := [2]*TI{t, it}
	if b, ok := in.impl[k]; ok {
		return b
	}
	b := types.Implements(t.t, it.t.Underlying().(*types.Interface))
	in.impl[k] = b
	return b
}

func (in *Interp) unop(op token.Token, t *TI, v Value) Value {
	x, sym := v.r.(*Term)
	switch op {
	case token.NOT:
		if sym {
			return in.fromTerm(in.tb.Not(x))
		}
		return mkBool(v.u == 0)
	case token.SUB:
		o := ONeg
		if t.isFlt {
			o = OFNeg
		}
		if sym {
			if !t.isFlt {
				return in.fromTerm(in.tb.Bin(OSub, in.tb.Const(t.sort, 0), x))
			}
			return in.fromTerm(in.tb.Un(o, t.sort, 0, x))
		}
		return Value{u: evalOp(o, t.sort, 0, t.sort, v.u, 0)}
	case token.XOR:
		if sym {
			return in.fromTerm(in.tb.Un(OBNot, t.sort, 0, x))
		}
		return Value{u: ^v.u & maskW(t.sort.W)}
	}
	in.unsup("unop " + op.String())
	return Value{}
}

func (in *Interp) binop(op token.Token, t, t2 *TI, a, b Value) Value {
	switch op {
	case token.EQL:
		return in.fromTerm(in.eq(t, a, b))
	case token.NEQ:
		return in.fromTerm(in.tb.Not(in.eq(t, a, b)))
	}
	if t.k == TString {
		return in.strBinop(op, a, b)
	}
	if t.k != TScalar {
		in.unsup("binop " + op.String() + " on " + t.t.String())
	}
	conc := a.r == nil && b.r == nil
	s := t.sort
	if op == token.SHL || op == token.SHR {
		return in.shift(op, t, t2, a, b)
	}
	if t.isFlt {
		var o Op
		swap := false
		switch op {
		case token.ADD:
			o = OFAdd
		case token.SUB:
			o = OFSub
		case token.MUL:
			o = OFMul
		case token.QUO:
			o = OFDiv
		case token.LSS:
			o = OFLt
		case token.LEQ:
			o = OFLe
		case token.GTR:
			o, swap = OFLt, true
		case token.GEQ:
			o, swap = OFLe, true
		default:
			in.unsup("float op " + op.String())
		}
		if swap {
			a, b = b, a
		}
		rs := s
		if o == OFLt || o == OFLe {
			rs = SBool
		}
		if conc {
			return Value{u: evalOp(o, rs, 0, s, a.u, b.u)}
		}
		x, y := in.term(a, s), in.term(b, s)
		if rs == SBool {
			if x == y && o == OFLt {
				return mkBool(false)
			}
			return in.fromTerm(in.tb.Cmp(o, x, y))
		}
		return in.fromTerm(in.tb.Bin(o, x, y))
	}
	if s == SBool {
		x, y := in.term(a, s), in.term(b, s)
		switch op {
		case token.AND, token.LAND:
			return in.fromTerm(in.tb.And(x, y))
		case token.OR, token.LOR:
			return in.fromTerm(in.tb.Or(x, y))
		case token.XOR:
			return in.fromTerm(in.tb.Not(in.tb.Eq(x, y)))
		}
		in.unsup("bool op")
	}
	var o Op
	cmp := false
	swap := false
	switch op {
	case token.ADD:
		o = OAdd
	case token.SUB:
		o = OSub
	case token.MUL:
		o = OMul
	case token.QUO, token.REM:
		if op == token.QUO {
			o = OUDiv
			if t.signed {
				o = OSDiv
			}
		} else {
			o = OURem
			if t.signed {
				o = OSRem
			}
		}
		if y, ok := b.r.(*Term); ok {
			if in.branch(in.tb.Eq(y, in.tb.Const(s, 0))) {
				in.rtPanic("integer divide by zero")
			}
		} else if b.u == 0 {
			in.rtPanic("integer divide by zero")
		}
	case token.AND:
		o = OBAnd
	case token.OR:
		o = OBOr
	case token.XOR:
		o = OBXor
	case token.AND_NOT:
		if conc {
			return Value{u: a.u &^ b.u}
		}
		return in.fromTerm(in.tb.Bin(OBAnd, in.term(a, s), in.tb.Un(OBNot, s, 0, in.term(b, s))))
	case token.LSS, token.GTR:
		o = OUlt
		if t.signed {
			o = OSlt
		}
		cmp, swap = true, op == token.GTR
	case token.LEQ, token.GEQ:
		o = OUle
		if t.signed {
			o = OSle
		}
		cmp, swap = true, op == token.GEQ
	default:
		in.unsup("int op " + op.String())
	}
	if swap {
		a, b = b, a
	}
	if conc {
		return Value{u: evalOp(o, s, 0, s, a.u, b.u)}
	}
	x, y := in.term(a, s), in.term(b, s)
	if cmp {
		return in.fromTerm(in.tb.Cmp(o, x, y))
	}
	return in.fromTerm(in.tb.Bin(o, x, y))
}

func (in *Interp) shift(op token.Token, t, t2 *TI, a, b Value) Value {
	s := t.sort
	o := OShl
	if op == token.SHR {
		o = OLShr
		if t.signed {
			o = OAShr
		}
	}
	if y, ok := b.r.(*Term); ok {
		if t2.signed && y.lo < 0 {
			if in.branch(in.tb.Cmp(OSlt, y, in.tb.Const(y.sort, 0))) {
				in.rtPanic("negative shift amount")
			}
		}
		x := in.term(a, s)
		if y.sort.W == s.W {
			return in.fromTerm(in.tb.Bin(o, x, y))
		}
		if y.sort.W < s.W {
			return in.fromTerm(in.tb.Bin(o, x, in.tb.Un(OZExt, s, 0, y)))
		}
		big := in.tb.Cmp(OUle, in.tb.Const(y.sort, uint64(s.W)), y)
		yt := in.tb.Un(OTrunc, s, 0, y)
		over := in.tb.Const(s, 0)
		if o == OAShr {
			over = in.tb.Bin(OAShr, x, in.tb.Const(s, uint64(s.W-1)))
		}
		return in.fromTerm(in.tb.Ite(big, over, in.tb.Bin(o, x, yt)))
	}
	n := b.u
	if t2.signed && sext(n, t2.sort.W) < 0 {
		in.rtPanic("negative shift amount")
	}
	if n > 255 {
		n = 255
	}
	if a.r == nil {
		return Value{u: evalOp(o, s, 0, s, a.u, n)}
	}
	if n >= uint64(s.W) {
		if o == OAShr {
			n = uint64(s.W) - 1
		} else {
			return Value{}
		}
	}
	return in.fromTerm(in.tb.Bin(o, in.term(a, s), in.tb.Const(s, n)))
}

func (in *Interp) strBinop(op token.Token, a, b Value) Value {
	x, ok1 := strConc(a)
	y, ok2 := strConc(b)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return mkString(x + y)
		case token.LSS:
			return mkBool(x < y)
		case token.LEQ:
			return mkBool(x <= y)
		case token.GTR:
			return mkBool(x > y)
		case token.GEQ:
			return mkBool(x >= y)
		}
	}
	xs, _ := in.strTerms(a)
	ys, _ := in.strTerms(b)
	switch op {
	case token.ADD:
		return in.mkStr(append(append([]*Term(nil), xs...), ys...))
	case token.LSS:
		return in.fromTerm(in.strLess(xs, ys, false))
	case token.LEQ:
		return in.fromTerm(in.strLess(xs, ys, true))
	case token.GTR:
		return in.fromTerm(in.strLess(ys, xs, false))
	case token.GEQ:
		return in.fromTerm(in.strLess(ys, xs, true))
	}
	in.unsup("string op")
	return Value{}
}

func (in *Interp) strLess(x, y []*Term, orEq bool) *Term {
	n := min(len(x), len(y))
	var r *Term
	if orEq {
		r = in.tb.Bool(len(x) <= len(y))
	} else {
		r = in.tb.Bool(len(x) < len(y))
	}
	for i := n - 1; i >= 0; i-- {
		r = in.tb.Or(in.tb.Cmp(OUlt, x[i], y[i]), in.tb.And(in.tb.Eq(x[i], y[i]), r))
	}
	return r
}

func (in *Interp) convert(from, to *TI, v Value) Value {
	if from.k == TScalar && to.k == TScalar {
		return in.convScalar(from, to, v)
	}
	switch {
	case to.k == TString && from.k == TSlice:
		if from.elem.sort.W == 8 {
			return in.bytesToStr(cells(v))
		}
		cs := cells(v)
		var sb strings.Builder
		for _, c := range cs {
			if c.v.r != nil {
				in.unsup("symbolic rune to string")
			}
			sb.WriteRune(rune(int32(c.v.u)))
		}
		return mkString(sb.String())
	case to.k == TSlice && from.k == TString:
		if to.elem.sort.W == 8 {
			n := strLen(v)
			cs := in.newCells(n, to.elem)
			for i := range cs {
				cs[i].v = in.strAt(v, i)
			}
			return Value{r: &SliceV{cs}}
		}
		s, ok := strConc(v)
		if !ok {
			in.unsup("symbolic string to runes")
		}
		rs := []rune(s)
		cs := in.newCells(len(rs), to.elem)
		for i := range cs {
			cs[i].v = Value{u: uint64(uint32(rs[i]))}
		}
		return Value{r: &SliceV{cs}}
	case to.k == TString && from.k == TScalar:
		if t, ok := v.r.(*Term); ok {
			if in.branch(in.tb.Cmp(OUlt, t, in.tb.Const(t.sort, 0x80))) {
				return in.mkStr([]*Term{in.tb.Un(OTrunc, SBV(8), 0, t)})
			}
			lt := func(n uint64) bool { return in.branch(in.tb.Cmp(OUlt, t, in.tb.Const(t.sort, n))) }
			part := func(shift, mask, lead uint64) *Term {
				b := in.tb.Un(OTrunc, SBV(8), 0, in.tb.Bin(OLShr, t, in.tb.Const(t.sort, shift)))
				return in.tb.Bin(OBOr, in.tb.Bin(OBAnd, b, in.tb.Const(SBV(8), mask)), in.tb.Const(SBV(8), lead))
			}
			switch {
			case lt(0x800):
				return in.mkStr([]*Term{part(6, 0x1f, 0xc0), part(0, 0x3f, 0x80)})
			case lt(0xd800) || !lt(0xe000) && lt(0x10000):
				return in.mkStr([]*Term{part(12, 0xf, 0xe0), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)})
			case !lt(0x10000) && lt(0x110000):
				return in.mkStr([]*Term{part(18, 7, 0xf0), part(12, 0x3f, 0x80), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)})
			}
			return mkString("\uFFFD")
		}
		r := sext(v.u, from.sort.W)
		if !from.signed {
			r = int64(v.u)
		}
		if r < 0 || r > utf8.MaxRune {
			r = utf8.RuneError
		}
		return mkString(string(rune(r)))
	case to.k == TString && from.k == TString, to.k == from.k:
		return v
	case to.k == TUnsafe || from.k == TUnsafe:
		if to.k == TScalar || from.k == TScalar {
			return v // uintptr <-> unsafe.Pointer kept as an opaque value
		}
		return v
	}
	in.unsup("convert " + from.t.String() + " to " + to.t.String())
	return Value{}
}

func (in *Interp) convScalar(from, to *TI, v Value) Value {
	fs, ts := from.sort, to.sort
	t, sym := v.r.(*Term)
	switch {
	case !from.isFlt && !to.isFlt:
		if ts.W == fs.W {
			return v
		}
		op := OTrunc
		if ts.W > fs.W {
			op = OZExt
			if from.signed {
				op = OSExt
			}
		}
		if !sym {
			return Value{u: evalOp(op, ts, 0, fs, v.u, 0)}
		}
		return in.fromTerm(in.tb.Un(op, ts, 0, t))
	case !from.isFlt && to.isFlt:
		op := OFFromU
		if from.signed {
			op = OFFromS
		}
		if !sym {
			return Value{u: evalOp(op, ts, 0, fs, v.u, 0)}
		}
		return in.fromTerm(in.tb.Un(op, ts, 0, t))
	case from.isFlt && to.isFlt:
		if fs == ts {
			return v
		}
		if !sym {
			return Value{u: evalOp(OFCvt, ts, 0, fs, v.u, 0)}
		}
		return in.fromTerm(in.tb.Un(OFCvt, ts, 0, t))
	default:
		if !sym {
			if to.signed {
				return Value{u: evalOp(OFToS, ts, 0, fs, v.u, 0)}
			}
			f := math.Float64frombits(v.u)
			if fs.W == 32 {
				f = float64(math.Float32frombits(uint32(v.u)))
			}
			return Value{u: uint64(f) & maskW(ts.W)}
		}
		if !to.signed || ts.W != 64 {
			in.unsup("symbolic float to " + to.t.String())
		}
		if fs.W == 32 {
			t = in.tb.Un(OFCvt, SFP64, 0, t) // exact
		}
		r := in.tb.Un(OFToS, ts, 0, t)
		if r.op != OFToS {
			return in.fromTerm(r)
		}
		lim := in.tb.Const(SFP64, math.Float64bits(9223372036854775808.0))
		nlim := in.tb.Const(SFP64, math.Float64bits(-9223372036854775808.0))
		ok := in.tb.And(in.tb.Cmp(OFLe, nlim, t), in.tb.Cmp(OFLt, t, lim))
		return in.fromTerm(in.tb.Ite(ok, r, in.tb.Const(ts, 1<<63)))
	}
}

// ---- builtins ----

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen int, el *TI) int {
	nc := newLen
	dbl := oldCap * 2
	if newLen <= dbl {
		if oldCap < 256 {
			nc = dbl
		} else {
			nc = oldCap
			for nc < newLen {
				nc += (nc + 3*256) >> 2
			}
		}
	}
	sz := el.size
	if sz == 0 {
		return nc
	}
	bytes := int64(nc) * sz
	hdr := int64(0)
	if el.hasPtr && bytes > 512 {
		hdr = 8
	}
	if bytes <= 32768-1024 {
		for _, c := range sizeClasses {
			if c >= bytes+hdr {
				bytes = c - hdr
				break
			}
		}
	} else {
		bytes = (bytes + 8191) / 8192 * 8192
	}
	return int(bytes / sz)
}

func (in *Interp) appendCells(cs []*Cell, vals []Value, el *TI) []*Cell {
	n := len(cs)
	need := n + len(vals)
	if need > cap(cs) {
		in.noSpec()
		nc := growCap(cap(cs), need, el)
		if nc < need {
			nc = need
		}
		ncs := in.newCells(nc, el)
		for i, c := range cs {
			in.store(ncs[i], in.load(c))
		}
		cs = ncs[:n]
	}
	cs = cs[:need]
	for i, v := range vals {
		in.storeT = el
		in.store(cs[n+i], v)
	}
	in.storeT = nil
	return cs
}

func (in *Interp) builtin(g *G, f *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].r.(type) {
		case nil:
			return Value{}
		case string:
			return mkInt(len(x))
		case *SymStr:
			return mkInt(len(x.b))
		case *SliceV:
			return mkInt(len(x.c))
		case *MapObj:
			if in.raceOn {
				in.raceMapRead(x)
			}
			return mkInt(x.n)
		case *ChanObj:
			return mkInt(len(x.buf))
		case *Cell:
			return mkInt(len(x.sub))
		case *AggV:
			return mkInt(len(x.f))
		}
	case "cap":
		switch x := args[0].r.(type) {
		case nil:
			return Value{}
		case *SliceV:
			return mkInt(cap(x.c))
		case *ChanObj:
			return mkInt(x.cap)
		case *Cell:
			return mkInt(len(x.sub))
		}
	case "append":
		el := in.ti(b.Type().(*types.Signature).Results().At(0).Type()).elem
		var vals []Value
		switch x := args[1].r.(type) {
		case nil:
			return args[0]
		case string, *SymStr:
			n := strLen(args[1])
			for i := 0; i < n; i++ {
				vals = append(vals, in.strAt(args[1], i))
			}
		case *SliceV:
			vals = make([]Value, len(x.c))
			for i, cc := range x.c {
				vals[i] = in.load(cc)
			}
		}
		if len(vals) == 0 {
			return args[0]
		}
		return Value{r: &SliceV{in.appendCells(cells(args[0]), vals, el)}}
	case "copy":
		dst := cells(args[0])
		var vals []Value
		switch x := args[1].r.(type) {
		case string, *SymStr:
			n := min(strLen(args[1]), len(dst))
			for i := 0; i < n; i++ {
				vals = append(vals, in.strAt(args[1], i))
			}
		case *SliceV:
			n := min(len(x.c), len(dst))
			vals = make([]Value, n)
			for i := 0; i < n; i++ {
				vals[i] = in.load(x.c[i])
			}
		}
		for i, v := range vals {
			in.store(dst[i], v)
		}
		return mkInt(len(vals))
	case "delete":
		t := in.ti(b.Type().(*types.Signature).Params().At(0).Type())
		m, _ := args[0].r.(*MapObj)
		in.mapDelete(t, m, args[1])
		return Value{}
	case "clear":
		switch x := args[0].r.(type) {
		case *MapObj:
			in.noSpec()
			in.mapWriteBarrier(x)
			x.ents, x.idx, x.n, x.nsym, x.ndead = nil, map[string]*mapEnt{}, 0, 0, 0
		case *SliceV:
			el := in.ti(b.Type().(*types.Signature).Params().At(0).Type()).elem
			for _, cc := range x.c {
				in.store(cc, in.zero(el))
			}
		}
		return Value{}
	case "close":
		in.noSpec()
		in.closeChan(g, args[0])
		return Value{}
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		if f.forPanic != nil && !f.forPanic.recovered && !f.forPanic.exit {
			f.forPanic.recovered = true
			return f.forPanic.v
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		t := in.ti(b.Type().(*types.Signature).Params().At(0).Type())
		acc := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if t.isFlt && (acc.r != nil || a.r != nil) {
				in.unsup("min/max on symbolic floats")
			}
			c := in.binop(op, t, t, a, acc)
			m, ok := in.mergeT(t, in.term(c, SBool), a, acc)
			if !ok {
				in.unsup("min/max")
			}
			acc = m
		}
		return acc
	case "String": // unsafe.String(ptr, len)
		n := int(in.concInt(args[1], 0, 4096))
		switch p := args[0].r.(type) {
		case *SlicePtr:
			if p.c != nil {
				return in.bytesToStr(p.c[:n])
			}
			return in.substr(p.s, 0, n)
		case nil:
			return Value{}
		case *Cell:
			if n == 1 {
				return in.bytesToStr([]*Cell{p})
			}
		}
	case "StringData":
		return Value{r: &SlicePtr{s: args[0]}}
	case "SliceData":
		if args[0].r == nil {
			return Value{}
		}
		return Value{r: &SlicePtr{c: cells(args[0])}}
	case "Slice":
		n := int(in.concInt(args[1], 0, 4096))
		switch p := args[0].r.(type) {
		case *SlicePtr:
			if p.c != nil {
				return Value{r: &SliceV{p.c[:n:n]}}
			}
			cs := in.newCells(n, in.ti(types.Typ[types.Uint8]))
			for i := range cs {
				cs[i].v = in.strAt(p.s, i)
			}
			return Value{r: &SliceV{cs}}
		case nil:
			return Value{}
		}
	case "ssa:wrapnilchk":
		if args[0].r == nil {
			in.rtPanic("value method called using nil pointer")
		}
		return args[0]
	}
	in.unsup("builtin " + b.Name())
	return Value{}
}
