package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const symPath = "verifharness/sym."
const shimPath = "verifharness/shim."

func ret(v Value) (Value, ctl) { return v, ctlRet }

func noop(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
	return in.zeroResult(fn), ctlRet
}

var intrinsics map[string]intrinsic

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func (in *Interp) leaf(v Value) *Cell {
	c, ok := v.r.(*Cell)
	if !ok {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	return nthLeaf(c, 0)
}

// nthLeaf returns the n-th scalar cell of a struct.
func nthLeaf(c *Cell, n int) *Cell {
	var found *Cell
	var walk func(c *Cell)
	walk = func(c *Cell) {
		if found != nil {
			return
		}
		if c.sub == nil {
			if n == 0 {
				found = c
			}
			n--
			return
		}
		for _, s := range c.sub {
			walk(s)
		}
	}
	walk(c)
	return found
}

func (in *Interp) setLeaf(c *Cell, u uint64) {
	if c.base && !in.initing {
		in.undo = append(in.undo, undoRec{c, c.v})
	}
	c.v = Value{u: u}
}

type syncVC struct {
	vc  VC // released by writers
	rvc VC // released by readers
}

func (in *Interp) syncObj(c *Cell) *syncVC {
	s, ok := in.side[c].(*syncVC)
	if !ok {
		s = &syncVC{}
		in.side[c] = s
	}
	return s
}

func mathUn(op Op, extra uint64) intrinsic {
	return func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if t, ok := a[0].r.(*Term); ok {
			rs := SFP64
			if op == OFIsNaN || op == OFSignBit {
				rs = SBool
			}
			return ret(in.fromTerm(in.tb.Un(op, rs, extra, t)))
		}
		rs := SFP64
		if op == OFIsNaN || op == OFSignBit {
			rs = SBool
		}
		return ret(Value{u: evalOp(op, rs, extra, SFP64, a[0].u, 0)})
	}
}

func mathNative1(f func(float64) float64, exact bool) intrinsic {
	return func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if t, ok := a[0].r.(*Term); ok && dd(t) > 0 {
			return ret(in.fromTerm(in.tb.ddUn(t, func(x *Term) *Term {
				return in.tb.Const(SFP64, math.Float64bits(f(math.Float64frombits(x.val))))
			})))
		}
		if a[0].r != nil {
			in.unsup("symbolic argument of " + fn.String())
		}
		return ret(mkFloat(f(math.Float64frombits(a[0].u))))
	}
}

// mathNative2 computes f on concrete arguments and, leaf by leaf, on values of
// finite support; otherwise the Go source of the function is executed.
func mathNative2(f func(a, b float64) float64) intrinsic {
	return func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if a[0].r == nil && a[1].r == nil {
			return ret(mkFloat(f(math.Float64frombits(a[0].u), math.Float64frombits(a[1].u))))
		}
		x, y := in.term(a[0], SFP64), in.term(a[1], SFP64)
		if ddOK(x, y) {
			r := in.tb.ddBin(x, y, func(x, y *Term) *Term {
				return in.tb.Const(SFP64, math.Float64bits(f(math.Float64frombits(x.val), math.Float64frombits(y.val))))
			})
			if r != nil {
				return ret(in.fromTerm(r))
			}
		}
		return Value{}, in.pushReal(g, fn, a, dst)
	}
}

func (in *Interp) getName(v Value) string {
	s, ok := strConc(v)
	if !ok {
		in.unsup("symbolic name")
	}
	return s
}

func (in *Interp) addInput(name, kind string, t *Term, val Value) {
	in.inputs = append(in.inputs, inputRec{name: name, t: t, val: val, kind: kind})
}

func (in *Interp) symInt(name string, s Sort, lo, hi int64, ranged bool) Value {
	in.noSpec()
	n := in.uniq(name)
	if ranged && lo == hi {
		v := Value{u: uint64(lo) & maskW(s.W)}
		in.addInput(n, "int", nil, v)
		return v
	}
	t := in.newVar(s, n, lo, hi, ranged)
	in.addInput(n, "int", t, Value{})
	return Value{r: t}
}

func (in *Interp) decision(name string, n int) int {
	in.noSpec()
	nm := in.uniq(name)
	k := in.choose(n)
	in.addInput(nm, "choice", nil, mkInt(k))
	return k
}

func init() {
	intrinsics = map[string]intrinsic{}
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		x, _ := a[0].r.(*SliceV)
		y, _ := a[1].r.(*SliceV)
		if x == nil || y == nil || len(x.c) == 0 || len(y.c) == 0 {
			in.rtPanic("index out of range")
		}
		for i, c := range x.c {
			if c == y.c[0] {
				return mkInt(i), ctlRet
			}
		}
		for i, c := range y.c {
			if c == x.c[0] {
				return mkInt(-i), ctlRet
			}
		}
		return mkInt(1 << 40), ctlRet
	}, "gonum.org/v1/gonum/mat.offset", "gonum.org/v1/gonum/mat.offsetComplex")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		i, ok := a[0].r.(*IfaceV)
		if !ok {
			in.unsup("binary.Size")
		}
		var size func(t *TI) int
		size = func(t *TI) int {
			switch t.k {
			case TScalar:
				return int(in.sizes.Sizeof(t.t))
			case TStruct:
				n := 0
				for _, f := range t.fields {
					n += size(f)
				}
				return n
			case TArray:
				return t.n * size(t.elem)
			}
			in.unsup("binary.Size")
			return 0
		}
		return mkInt(size(i.t)), ctlRet
	}, "encoding/binary.Size")

	// ---- sym API ----
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(in.symInt(in.getName(a[0]), SBV(64), 0, 0, false))
	}, symPath+"Int")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(in.symInt(in.getName(a[0]), SBV(64), int64(a[1].u), int64(a[2].u), true))
	}, symPath+"IntRange")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(in.symInt(in.getName(a[0]), SBV(8), 0, 0, false))
	}, symPath+"Byte")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		n := in.uniq(in.getName(a[0]))
		t := in.newVar(SBool, n, 0, 0, false)
		in.addInput(n, "bool", t, Value{})
		return ret(Value{r: t})
	}, symPath+"Bool")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		n := in.uniq(in.getName(a[0]))
		t := in.newVar(SFP64, n, 0, 0, false)
		in.addInput(n, "float", t, Value{})
		return ret(Value{r: t})
	}, symPath+"Float64")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		n := in.uniq(in.getName(a[0]))
		k := int(in.concInt(a[1], 0, 64))
		bs := make([]*Term, k)
		for i := range bs {
			bs[i] = in.newVar(SBV(8), fmt.Sprintf("%s.%d", n, i), 0, 0, false)
		}
		v := in.mkStr(bs)
		in.addInput(n, "string", nil, v)
		return ret(v)
	}, symPath+"Bytes")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		// OneOf(name, values...): symbolic index into a table of floats
		in.noSpec()
		n := in.uniq(in.getName(a[0]))
		cs := cells(a[1])
		if len(cs) == 0 {
			in.unsup("OneOf without values")
		}
		t := in.newVar(SBV(64), n, 0, int64(len(cs)-1), true)
		in.addInput(n, "int", t, Value{})
		acc := in.term(cs[len(cs)-1].v, SFP64)
		for i := len(cs) - 2; i >= 0; i-- {
			acc = in.tb.Ite(in.tb.Eq(t, in.tb.Const(t.sort, uint64(i))), in.term(cs[i].v, SFP64), acc)
		}
		return ret(in.fromTerm(acc))
	}, symPath+"OneOf")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(mkInt(in.decision(in.getName(a[0]), int(in.concInt(a[1], 0, 64)))))
	}, symPath+"Choose")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		in.assume(in.term(a[0], SBool))
		return ret(Value{})
	}, symPath+"Assume")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		in.assert(in.term(a[0], SBool), in.getName(a[1]))
		return ret(Value{})
	}, symPath+"Assert")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		in.covers[in.getName(a[0])] = true
		return ret(Value{})
	}, symPath+"Cover")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		lab := in.getName(a[0])
		i, ok := a[1].r.(*IfaceV)
		if !ok {
			in.observes = append(in.observes, obsRec{label: lab, kind: "nil", v: in.tb.Const(SBV(64), 0)})
			return ret(Value{})
		}
		switch i.t.k {
		case TString:
			bs, _ := in.strTerms(i.v)
			in.observes = append(in.observes, obsRec{label: lab, kind: "string", s: bs})
		case TScalar:
			k := "int"
			if i.t.isFlt {
				k = "float"
			} else if i.t.sort == SBool {
				k = "bool"
			}
			t := in.term(i.v, i.t.sort)
			if k == "int" && i.t.sort.W < 64 {
				op := OZExt
				if i.t.signed {
					op = OSExt
				}
				t = in.tb.Un(op, SBV(64), 0, t)
			}
			in.observes = append(in.observes, obsRec{label: lab, kind: k, v: t})
		default:
			in.unsup("observe of " + i.t.t.String())
		}
		return ret(Value{})
	}, symPath+"Observe")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(in.fromTerm(in.tb.And(in.term(a[0], SBool), in.term(a[1], SBool))))
	}, symPath+"And")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(in.fromTerm(in.tb.Or(in.term(a[0], SBool), in.term(a[1], SBool))))
	}, symPath+"Or")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(in.fromTerm(in.tb.Ite(in.term(a[0], SBool), in.term(a[1], SBV(64)), in.term(a[2], SBV(64)))))
	}, symPath+"IfInt")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(in.fromTerm(in.tb.Ite(in.term(a[0], SBool), in.term(a[1], SFP64), in.term(a[2], SFP64))))
	}, symPath+"IfFloat")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(in.fromTerm(in.tb.Eq(in.term(a[0], SFP64), in.term(a[1], SFP64))))
	}, symPath+"Same")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		in.mapOrder = int(in.concInt(a[0], 0, 3))
		return ret(Value{})
	}, symPath+"setMapOrder")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		in.randMode = int(in.concInt(a[0], 0, 3))
		return ret(Value{})
	}, symPath+"SymbolicRand")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		n := in.decision("#numcpu", int(in.concInt(a[0], 1, 64))) + 1
		in.numCPU = n
		return ret(mkInt(n))
	}, symPath+"NumCPU")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		in.numCPU = int(a[0].u)
		return ret(Value{})
	}, symPath+"SetNumCPU")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		in.schedAll = true
		in.preemptLim = int(a[0].u)
		return ret(Value{})
	}, symPath+"AllSchedules")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		in.schedAll = false
		return ret(Value{})
	}, symPath+"OneSchedule")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		in.raceOn = true
		return ret(Value{})
	}, symPath+"DetectRaces")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		in.mergeIf = a[0].u == 1
		return ret(Value{})
	}, symPath+"Merge")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(mkInt(in.eng.cfg.Tier))
	}, symPath+"Tier")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		// first let the others run until they finish or block for good
		in.noSpec()
		settled := func() bool {
			for _, x := range in.gs {
				if x != g && in.runnable(x) {
					return false
				}
			}
			return true
		}
		if !settled() {
			g.ready = settled
			return Value{}, ctlBlock
		}
		n := 0
		for _, x := range in.gs {
			if x != g && !x.done {
				n++
			}
		}
		return ret(mkInt(n))
	}, symPath+"liveGoroutines")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(mkBool(true))
	}, symPath+"Symbolic")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		in.steps = 0
		in.stepLimit = int(a[0].u)
		return ret(Value{})
	}, symPath+"stepLimit")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		in.stdout = nil
		in.stdoutOn = true
		return ret(Value{})
	}, symPath+"startCapture")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.stdoutOn = false
		v := Value{}
		for _, s := range in.stdout {
			v = in.strBinop(token.ADD, v, s)
		}
		return ret(v)
	}, symPath+"stopCapture")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		src, _ := a[0].r.(*IfaceV)
		d, _ := a[1].r.(*IfaceV)
		sc, _ := src.v.r.(*Cell)
		dc, _ := d.v.r.(*Cell)
		if sc == nil || dc == nil {
			in.unsup("JSONRoundTrip of nil")
		}
		t := in.ti(src.t.t.Underlying().(*types.Pointer).Elem())
		v, bad := in.jsonCopy(t, in.load(sc), in.load(dc))
		if bad {
			return ret(mkBool(false))
		}
		in.store(dc, v)
		return ret(mkBool(true))
	}, symPath+"jsonRoundTrip")

	// ---- shim helpers ----
	scan := func(in *Interp, n int, at func(i int) Value, c Value) (Value, ctl) {
		if c.r != nil {
			return ret(mkInt(-2))
		}
		for i := 0; i < n; i++ {
			v := at(i)
			if v.r != nil {
				return ret(mkInt(-2))
			}
			if byte(v.u) == byte(c.u) {
				return ret(mkInt(i))
			}
		}
		return ret(mkInt(-1))
	}
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		cs := cells(a[0])
		return scan(in, len(cs), func(i int) Value { return in.load(cs[i]) }, a[1])
	}, shimPath+"scanBytes")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return scan(in, strLen(a[0]), func(i int) Value { return in.strAt(a[0], i) }, a[1])
	}, shimPath+"scanString")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(mkInt(in.randIntn(int(in.concInt(a[0], 1, 64)))))
	}, shimPath+"RandIntn")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		// swap elements i, j of a slice held in an interface
		in.noSpec()
		i, _ := a[0].r.(*IfaceV)
		cs := cells(i.v)
		x, y := in.concInt(a[1], 0, 0), in.concInt(a[2], 0, 0)
		vx, vy := in.load(cs[x]), in.load(cs[y])
		in.store(cs[x], vy)
		in.store(cs[y], vx)
		return ret(Value{})
	}, shimPath+"swapAny")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		i, _ := a[0].r.(*IfaceV)
		return ret(mkInt(len(cells(i.v))))
	}, shimPath+"lenAny")

	// ---- math ----
	reg(mathUn(OFAbs, 0), "math.Abs")
	reg(mathUn(OFSqrt, 0), "math.Sqrt", "math.sqrt")
	reg(mathUn(OFRTI, 0), "math.Floor", "math.floor")
	reg(mathUn(OFRTI, 1), "math.Ceil", "math.ceil")
	reg(mathUn(OFRTI, 2), "math.Trunc", "math.trunc")
	reg(mathUn(OFRTI, 3), "math.RoundToEven")
	reg(mathUn(OFRTI, 4), "math.Round")
	reg(mathUn(OFIsNaN, 0), "math.IsNaN")
	reg(mathUn(OFSignBit, 0), "math.Signbit")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if t, ok := a[0].r.(*Term); ok {
			if dd(t) > 0 && a[1].r == nil {
				return ret(in.fromTerm(in.tb.ddUn(t, func(x *Term) *Term {
					return in.tb.Bool(math.IsInf(math.Float64frombits(x.val), int(int64(a[1].u))))
				})))
			}
			return Value{}, in.pushReal(g, fn, a, dst)
		}
		return ret(mkBool(math.IsInf(math.Float64frombits(a[0].u), int(int64(a[1].u)))))
	}, "math.IsInf")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if t, ok := a[0].r.(*Term); ok {
			// fresh bit-vector constrained to be the bits of t (NaN canonical)
			return ret(in.floatBits(t))
		}
		return ret(a[0])
	}, "math.Float64bits")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if t, ok := a[0].r.(*Term); ok {
			return ret(in.fromTerm(in.tb.Un(OFFromBits, SFP64, 0, t)))
		}
		return ret(a[0])
	}, "math.Float64frombits")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if a[0].r != nil {
			in.unsup("Float32bits of symbolic value")
		}
		return ret(a[0])
	}, "math.Float32bits", "math.Float32frombits")
	for n, f := range map[string]func(a, b float64) float64{"math.Pow": math.Pow, "math.pow": math.Pow, "math.Mod": math.Mod, "math.Hypot": math.Hypot,
		"math.Max": math.Max, "math.Min": math.Min, "math.Remainder": math.Remainder, "math.Dim": math.Dim, "math.Nextafter": math.Nextafter,
		"math.Copysign": math.Copysign, "math.Atan2": math.Atan2} {
		reg(mathNative2(f), n)
	}
	for n, f := range map[string]func(float64) float64{"math.Exp": math.Exp, "math.Exp2": math.Exp2, "math.Expm1": math.Expm1, "math.Tanh": math.Tanh, "math.Tan": math.Tan, "math.Atan": math.Atan, "math.Log": math.Log, "math.Log2": math.Log2, "math.Log10": math.Log10, "math.Log1p": math.Log1p,
		"math.archExp": math.Exp, "math.Sin": math.Sin, "math.Cos": math.Cos, "math.Cbrt": math.Cbrt} {
		reg(mathNative1(f, false), n)
	}
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		// assembly on amd64: run the portable body
		return Value{}, in.pushReal(g, fn.Pkg.Func(strings.ToLower(strings.TrimPrefix(fn.Name(), "arch"))), a, dst)
	}, "math.archMax", "math.archMin", "math.archHypot")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if a[0].r != nil || a[1].r != nil || a[2].r != nil {
			in.unsup("symbolic FMA")
		}
		return ret(mkFloat(math.FMA(math.Float64frombits(a[0].u), math.Float64frombits(a[1].u), math.Float64frombits(a[2].u))))
	}, "math.FMA")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if a[0].r != nil || a[1].r != nil {
			return Value{}, in.pushReal(g, fn, a, dst)
		}
		hi, lo := bits.Mul64(a[0].u, a[1].u)
		return ret(Value{r: &AggV{f: []Value{{u: hi}, {u: lo}}}})
	}, "math/bits.Mul64")

	// ---- sync ----
	lock := func(w bool) intrinsic {
		return func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
			in.noSpec()
			if in.syncPoint(g) {
				g.wake = true
				return Value{}, ctlBlock
			}
			c := in.leaf(a[0])
			// state: bit 0 write-locked, upper bits: readers
			if c.v.u&1 != 0 || (w && c.v.u != 0) {
				g.ready = func() bool { return c.v.u&1 == 0 && (!w || c.v.u == 0) }
				return Value{}, ctlBlock
			}
			if w {
				in.setLeaf(c, 1)
			} else {
				in.setLeaf(c, c.v.u+2)
			}
			s := in.syncObj(c)
			joinVC(&g.vc, s.vc)
			if w {
				joinVC(&g.vc, s.rvc)
			}
			g.atSync = false
			return ret(Value{})
		}
	}
	unlock := func(w bool) intrinsic {
		return func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
			in.noSpec()
			c := in.leaf(a[0])
			if (w && c.v.u != 1) || (!w && c.v.u < 2) {
				in.fatalThrow("sync: unlock of unlocked mutex")
			}
			g.tick()
			s := in.syncObj(c)
			if w {
				in.setLeaf(c, 0)
				joinVC(&s.vc, g.vc)
			} else {
				in.setLeaf(c, c.v.u-2)
				joinVC(&s.rvc, g.vc)
			}
			return ret(Value{})
		}
	}
	reg(lock(true), "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(lock(false), "(*sync.RWMutex).RLock")
	reg(unlock(true), "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(unlock(false), "(*sync.RWMutex).RUnlock")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		c := in.leaf(a[0])
		if c.v.u != 0 {
			return ret(mkBool(false))
		}
		in.setLeaf(c, 1)
		joinVC(&g.vc, in.syncObj(c).vc)
		return ret(mkBool(true))
	}, "(*sync.Mutex).TryLock")
	wgAdd := func(in *Interp, g *G, wg Value, d int64) {
		in.noSpec()
		c := in.leaf(wg)
		n := int64(c.v.u) + d
		if n < 0 {
			in.strPanic("sync: negative WaitGroup counter")
		}
		g.tick()
		if d < 0 {
			joinVC(&in.syncObj(c).vc, g.vc)
		}
		in.setLeaf(c, uint64(n))
	}
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if in.syncPoint(g) {
			g.wake = true
			return Value{}, ctlBlock
		}
		wgAdd(in, g, a[0], int64(in.concInt(a[1], 0, 64)))
		g.atSync = false
		return ret(Value{})
	}, "(*sync.WaitGroup).Add")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if in.syncPoint(g) {
			g.wake = true
			return Value{}, ctlBlock
		}
		wgAdd(in, g, a[0], -1)
		g.atSync = false
		return ret(Value{})
	}, "(*sync.WaitGroup).Done")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		if in.syncPoint(g) {
			g.wake = true
			return Value{}, ctlBlock
		}
		c := in.leaf(a[0])
		if c.v.u != 0 {
			g.ready = func() bool { return c.v.u == 0 }
			return Value{}, ctlBlock
		}
		joinVC(&g.vc, in.syncObj(c).vc)
		g.atSync = false
		return ret(Value{})
	}, "(*sync.WaitGroup).Wait")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		c, _ := a[0].r.(*Cell)
		// the New func field is the last one
		nf := c.sub[len(c.sub)-1]
		if nf.v.r == nil {
			return ret(Value{})
		}
		f := nf.v.r.(*FuncV)
		in.pushCall(g, f.fn, nil, f.env, dst)
		return Value{}, ctlPushed
	}, "(*sync.Pool).Get")
	reg(noop, "(*sync.Pool).Put")
	// sync/atomic on plain cells
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
			in.noSpec()
			if in.syncPoint(g) {
				g.wake = true
				return Value{}, ctlBlock
			}
			g.atSync = false
			c := in.leaf(a[0])
			joinVC(&g.vc, in.syncObj(c).vc)
			return ret(c.v)
		}, "sync/atomic.Load"+ty, "internal/runtime/atomic.Load"+ty)
		reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
			in.noSpec()
			if in.syncPoint(g) {
				g.wake = true
				return Value{}, ctlBlock
			}
			g.atSync = false
			c := in.leaf(a[0])
			g.tick()
			joinVC(&in.syncObj(c).vc, g.vc)
			in.rawStore(c, a[1])
			return ret(Value{})
		}, "sync/atomic.Store"+ty)
		reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
			in.noSpec()
			if in.syncPoint(g) {
				g.wake = true
				return Value{}, ctlBlock
			}
			g.atSync = false
			c := in.leaf(a[0])
			g.tick()
			s := in.syncObj(c)
			joinVC(&g.vc, s.vc)
			joinVC(&s.vc, g.vc)
			nv := Value{u: (c.v.u + a[1].u) & maskW(w)}
			if c.v.r != nil || a[1].r != nil {
				nv = in.fromTerm(in.tb.Bin(OAdd, in.term(c.v, SBV(int(w))), in.term(a[1], SBV(int(w)))))
			}
			in.rawStore(c, nv)
			return ret(nv)
		}, "sync/atomic.Add"+ty)
		reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
			in.noSpec()
			if in.syncPoint(g) {
				g.wake = true
				return Value{}, ctlBlock
			}
			g.atSync = false
			c := in.leaf(a[0])
			g.tick()
			s := in.syncObj(c)
			joinVC(&g.vc, s.vc)
			joinVC(&s.vc, g.vc)
			if c.v == a[1] {
				in.rawStore(c, a[2])
				return ret(mkBool(true))
			}
			return ret(mkBool(false))
		}, "sync/atomic.CompareAndSwap"+ty)
	}
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		c := in.leaf(a[0])
		return ret(c.v)
	}, "sync/atomic.LoadPointer")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		c := in.leaf(a[0])
		in.rawStore(c, a[1])
		return ret(Value{})
	}, "sync/atomic.StorePointer")

	// ---- runtime, time, log, fmt ----
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(mkInt(in.numCPU))
	}, "runtime.NumCPU", "runtime.GOMAXPROCS")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		if in.syncPoint(g) {
			g.wake = true
			return Value{}, ctlBlock
		}
		g.atSync = false
		return ret(Value{})
	}, "runtime.Gosched")
	reg(noop, "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "time.Now", "time.Since", "time.Sleep", "log.Printf", "log.Println", "log.Print", "log.SetOutput", "log.SetFlags",
		"(*strings.Builder).copyCheck", "internal/race.Enable", "internal/race.Disable", "internal/godebug.New", "(time.Duration).String",
		"internal/msan.Read", "internal/asan.Read", "os.Exit_", "(*testing.common).Helper", "(*testing.common).Log", "(*testing.common).Logf", "(*testing.common).Parallel",
		"(time.Time).Sub", "(time.Duration).Seconds", "(time.Duration).Milliseconds", "math/rand.init#never")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(a[0])
	}, "internal/abi.NoEscape", "internal/abi.Escape", "internal/stringslite.Clone")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		n := int(in.concInt(a[0], 0, 4096))
		return ret(Value{r: &SliceV{in.newCells(n, in.ti(types.Typ[types.Uint8]))}})
	}, "internal/bytealg.MakeNoZero")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		s, ok := in.format(a[0], a[1])
		if !ok {
			return Value{}, in.pushReal(g, in.eng.shimPkg.Func("sprintf"), a, dst)
		}
		return ret(mkString(s))
	}, "fmt.Sprintf")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.unsup("text of a symbolic value")
		return ret(Value{})
	}, shimPath+"unsup")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		s, ok := in.format(a[0], a[1])
		if in.stdoutOn {
			if !ok {
				in.unsup("Printf of symbolic value")
			}
			in.stdout = append(in.stdout, mkString(s))
		}
		return ret(in.zeroResult(fn))
	}, "fmt.Printf")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		if in.stdoutOn {
			args, ok := in.hostArgs(a[0])
			if !ok {
				in.unsup("Println of symbolic value")
			}
			in.stdout = append(in.stdout, mkString(fmt.Sprintln(args...)))
		}
		return ret(in.zeroResult(fn))
	}, "fmt.Println")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		if in.stdoutOn {
			args, ok := in.hostArgs(a[0])
			if !ok {
				in.unsup("Print of symbolic value")
			}
			in.stdout = append(in.stdout, mkString(fmt.Sprint(args...)))
		}
		return ret(in.zeroResult(fn))
	}, "fmt.Print")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		args, ok := in.hostArgs(a[0])
		if !ok {
			return Value{}, in.pushReal(g, in.eng.shimPkg.Func("sprint"), a, dst)
		}
		return ret(mkString(fmt.Sprint(args...)))
	}, "fmt.Sprint")

	// ---- math/rand ----
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		in.randSeed = fmt.Sprint(in.concInt(a[0], 0, 0))
		in.randCtr = 0
		return ret(Value{})
	}, "math/rand.Seed")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(mkInt(in.randIntn(int(in.concInt(a[0], 1, 64)))))
	}, "math/rand.Intn", "math/rand.Int31n", "math/rand.Int63n")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		return ret(Value{u: in.lcg() >> 32})
	}, "math/rand.Uint32", "math/rand.Int31")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		return ret(Value{u: in.lcg() >> 1})
	}, "math/rand.Uint64", "math/rand.Int63", "math/rand.Int")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		vals := []float64{0.5, -0.25, 1, -1.5, 0.75, 2, -0.5, 0.125}
		if in.randMode == 1 {
			return ret(in.randOneOf(vals[:3]))
		}
		return ret(mkFloat(vals[in.lcg()>>61]))
	}, "math/rand.NormFloat64")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		return ret(mkFloat(float64(in.lcg()>>60) / 16))
	}, "math/rand.Float64")

	// ---- reflect (only what the repository uses) ----
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.side["reflect"] = a[0]
		z := in.zeroResult(fn)
		in.side[z.r] = a[0]
		return ret(z)
	}, "reflect.ValueOf")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		src, _ := in.side[a[0].r].(Value)
		i, _ := src.r.(*IfaceV)
		k := reflect.Invalid
		if i != nil {
			k = reflKind(i.t)
		}
		return ret(mkInt(int(k)))
	}, "(reflect.Value).Kind")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		return ret(in.fromTerm(in.deepEq(a[0], a[1])))
	}, "reflect.DeepEqual")

	// ---- testing (self test) ----
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.noSpec()
		in.assert(in.tb.F, "test failed in "+in.stack(g.fr, 4))
		return ret(Value{})
	}, "(*testing.common).Fatal", "(*testing.common).Fatalf", "(*testing.common).FailNow")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		in.fatalThrow("log.Fatal or os.Exit called")
		return ret(Value{})
	}, "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit")

	// sort.Ints on symbolic values: a branch-free sorting network
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		cs := cells(a[0])
		sym := false
		for _, c := range cs {
			if c.v.r != nil {
				sym = true
			}
		}
		if !sym || in.raceOn || len(cs) > 8 {
			return Value{}, in.pushReal(g, fn, a, dst)
		}
		in.noSpec()
		v := make([]*Term, len(cs))
		for i, c := range cs {
			v[i] = in.term(c.v, SBV(64))
		}
		for i := range v {
			for j := 0; j+1 < len(v)-i; j++ {
				c := in.tb.Cmp(OSle, v[j], v[j+1])
				v[j], v[j+1] = in.tb.Ite(c, v[j], v[j+1]), in.tb.Ite(c, v[j+1], v[j])
			}
		}
		for i, c := range cs {
			in.store(c, in.fromTerm(v[i]))
		}
		return ret(Value{})
	}, "sort.Ints")
}

func reflKind(t *TI) reflect.Kind {
	switch t.k {
	case TPtr:
		return reflect.Ptr
	case TSlice:
		return reflect.Slice
	case TMap:
		return reflect.Map
	case TString:
		return reflect.String
	case TStruct:
		return reflect.Struct
	case TFunc:
		return reflect.Func
	case TArray:
		return reflect.Array
	case TScalar:
		b, _ := t.t.Underlying().(*types.Basic)
		switch b.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int64:
			return reflect.Int64
		case types.Int32:
			return reflect.Int32
		case types.Float64:
			return reflect.Float64
		case types.Float32:
			return reflect.Float32
		case types.Uint8:
			return reflect.Uint8
		}
		return reflect.Uint
	}
	return reflect.Interface
}

func (in *Interp) rawStore(c *Cell, v Value) {
	if c.base && !in.initing {
		in.undo = append(in.undo, undoRec{c, c.v})
	}
	c.v = v
}

func (in *Interp) fatalThrow(msg string) {
	in.noSpec()
	in.flush()
	in.viol = in.mkViolation("fatal: "+msg, "panic", "")
	panic(pathAbort{abViolation, msg})
}

// pushReal interprets the body of fn instead of its intrinsic.
func (in *Interp) pushReal(g *G, fn *ssa.Function, a []Value, dst int) ctl {
	in.pushCall(g, fn, a, nil, dst)
	return ctlPushed
}

func (in *Interp) lcg() uint64 {
	in.randCtr++
	x := uint64(in.randCtr) * 0x9E3779B97F4A7C15
	for _, b := range []byte(in.randSeed) {
		x = (x ^ uint64(b)) * 0x100000001b3
	}
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

// randOneOf is a symbolic choice among floats, the same for the same seed and
// counter.
func (in *Interp) randOneOf(vals []float64) Value {
	key := ""
	if in.randSeed != "" {
		key = fmt.Sprintf("randf:%s:%d", in.randSeed, in.randCtr)
	}
	in.randCtr++
	if v, ok := in.side[key].(Value); ok {
		return v
	}
	t := in.newVar(SBV(64), in.uniq("#norm"), 0, int64(len(vals)-1), true)
	acc := in.tb.Const(SFP64, math.Float64bits(vals[len(vals)-1]))
	for i := len(vals) - 2; i >= 0; i-- {
		acc = in.tb.Ite(in.tb.Eq(t, in.tb.Const(t.sort, uint64(i))), in.tb.Const(SFP64, math.Float64bits(vals[i])), acc)
	}
	v := in.fromTerm(acc)
	if key != "" {
		in.side[key] = v
	}
	return v
}

// randIntn returns the next random choice: an explored decision in symbolic
// mode (the same decision for the same seed and counter), fixed otherwise.
func (in *Interp) randIntn(n int) int {
	in.noSpec()
	if n <= 0 {
		in.strPanic("invalid argument to Intn")
	}
	if in.randMode == 1 && n <= 8 {
		if in.randSeed != "" {
			key := fmt.Sprintf("rand:%s:%d", in.randSeed, in.randCtr)
			in.randCtr++
			if v, ok := in.side[key].(int); ok && v < n {
				return v
			}
			k := in.choose(n)
			in.side[key] = k
			return k
		}
		in.randCtr++
		return in.choose(n)
	}
	return int(in.lcg() % uint64(n))
}

func (in *Interp) floatBits(t *Term) Value {
	in.noSpec()
	if b, ok := in.side[t].(*Term); ok {
		return Value{r: b}
	}
	if t.op == OFFromBits {
		// NaN payloads are not preserved; the usual non-NaN case is exact
		if in.branch(in.tb.Un(OFIsNaN, SBool, 0, t)) {
			return Value{u: 0x7ff8000000000001}
		}
		return Value{r: t.args[0]}
	}
	if in.branch(in.tb.Un(OFIsNaN, SBool, 0, t)) {
		return Value{u: 0x7ff8000000000001}
	}
	v := in.newVar(SBV(64), in.uniq("#bits"), 0, 0, false)
	in.model[v] = in.tb.Eval(t, in.model)
	in.addPC(in.tb.Eq(in.tb.Un(OFFromBits, SFP64, 0, v), t))
	in.side[t] = v
	return Value{r: v}
}

// host converts a concrete interpreter value to a Go value for formatting.
func (in *Interp) host(t *TI, v Value) (any, bool) {
	if _, ok := v.r.(*Term); ok {
		return nil, false
	}
	switch t.k {
	case TString:
		s, ok := strConc(v)
		return s, ok
	case TScalar:
		switch {
		case t.sort == SBool:
			return v.u == 1, true
		case t.isFlt && t.sort.W == 64:
			return math.Float64frombits(v.u), true
		case t.isFlt:
			return math.Float32frombits(uint32(v.u)), true
		case t.signed:
			if b, ok := t.t.(*types.Basic); ok && b.Kind() == types.Int32 {
				return int32(v.u), true
			}
			return int(sext(v.u, t.sort.W)), true
		default:
			if t.sort.W == 8 {
				return uint8(v.u), true
			}
			return v.u, true
		}
	case TSlice:
		cs := cells(v)
		out := make([]any, len(cs))
		for i, c := range cs {
			x, ok := in.host(t.elem, in.load(c))
			if !ok {
				return nil, false
			}
			out[i] = x
		}
		return out, true
	case TIface:
		i, ok := v.r.(*IfaceV)
		if !ok {
			return nil, true
		}
		return in.host(i.t, i.v)
	}
	if v.r == nil {
		return nil, true
	}
	return t.t.String(), true
}

func (in *Interp) hostArgs(v Value) ([]any, bool) {
	var out []any
	okAll := true
	for _, c := range cells(v) {
		i, ok := c.v.r.(*IfaceV)
		if !ok {
			out = append(out, nil)
			continue
		}
		x, ok := in.host(i.t, i.v)
		if !ok {
			okAll = false
			x = "?"
		}
		out = append(out, x)
	}
	return out, okAll
}

func (in *Interp) format(f, args Value) (string, bool) {
	s, ok := strConc(f)
	if !ok {
		return "", false
	}
	a, ok2 := in.hostArgs(args)
	return fmt.Sprintf(s, a...), ok2
}

// jsonCopy models marshal-then-unmarshal of a value of type t into dst:
// exported fields only, NaN and infinities refused.
func (in *Interp) jsonCopy(t *TI, v, dst Value) (Value, bool) {
	switch t.k {
	case TStruct:
		st := t.t.Underlying().(*types.Struct)
		src, _ := v.r.(*AggV)
		d, _ := dst.r.(*AggV)
		out := &AggV{f: append([]Value(nil), d.f...)}
		for i := range t.fields {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" || (!f.Exported() && !f.Embedded()) {
				continue
			}
			_, opts, _ := strings.Cut(tag, ",")
			if strings.Contains(opts, "string") || strings.Contains(opts, "omitzero") {
				in.unsup("json tag " + tag)
			}
			if strings.Contains(opts, "omitempty") && in.jsonEmpty(t.fields[i], src.f[i]) {
				continue
			}
			x, bad := in.jsonCopy(t.fields[i], src.f[i], d.f[i])
			if bad {
				return v, true
			}
			out.f[i] = x
		}
		return Value{r: out}, false
	case TScalar:
		if t.isFlt {
			if x, ok := v.r.(*Term); ok {
				if in.branch(in.tb.Un(OFIsNaN, SBool, 0, x)) || in.branch(in.tb.Un(OFIsInf, SBool, 0, x)) {
					return v, true
				}
			} else if f := math.Float64frombits(v.u); t.sort.W == 64 && (f != f || math.IsInf(f, 0)) {
				return v, true
			}
		}
		return v, false
	case TString:
		return v, false
	case TSlice:
		if v.r == nil {
			return Value{}, false
		}
		cs := cells(v)
		out := in.newCells(len(cs), t.elem)
		for i, c := range cs {
			x, bad := in.jsonCopy(t.elem, in.load(c), in.zero(t.elem))
			if bad {
				return v, true
			}
			in.store(out[i], x)
		}
		return Value{r: &SliceV{out}}, false
	case TMap:
		m, _ := v.r.(*MapObj)
		if m == nil {
			return Value{}, false
		}
		out := newMap(false)
		in.mapIDs++
		out.id = in.mapIDs
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			x, bad := in.jsonCopy(t.elem, e.val, in.zero(t.elem))
			if bad {
				return v, true
			}
			in.mapSet(t, out, e.key, x)
		}
		return Value{r: out}, false
	case TPtr:
		c, _ := v.r.(*Cell)
		if c == nil {
			return Value{}, false
		}
		et := in.ti(t.t.Underlying().(*types.Pointer).Elem())
		x, bad := in.jsonCopy(et, in.load(c), in.zero(et))
		if bad {
			return v, true
		}
		nc := in.newCell(et)
		in.store(nc, x)
		return Value{r: nc}, false
	case TArray:
		src := v.r.(*AggV)
		out := &AggV{f: make([]Value, len(src.f))}
		for i := range src.f {
			x, bad := in.jsonCopy(t.elem, src.f[i], in.zero(t.elem))
			if bad {
				return v, true
			}
			out.f[i] = x
		}
		return Value{r: out}, false
	}
	if v.r == nil {
		return v, false
	}
	in.unsup("json of " + t.t.String())
	return v, true
}

// jsonEmpty is encoding/json's notion of an empty value.
func (in *Interp) jsonEmpty(t *TI, v Value) bool {
	switch t.k {
	case TScalar:
		if x, ok := v.r.(*Term); ok {
			if x.sort == SBool {
				return !in.branch(x)
			}
			if t.isFlt {
				return in.branch(in.tb.Cmp(OFEq, x, in.tb.Const(SFP64, 0)))
			}
			return in.branch(in.tb.Eq(x, in.tb.Const(x.sort, 0)))
		}
		if t.isFlt {
			return math.Float64frombits(v.u) == 0
		}
		return v.u == 0
	case TString:
		return strLen(v) == 0
	case TSlice:
		return len(cells(v)) == 0
	case TMap:
		m, _ := v.r.(*MapObj)
		if m == nil {
			return true
		}
		for _, e := range m.ents {
			if !e.dead {
				return false
			}
		}
		return true
	case TPtr:
		c, _ := v.r.(*Cell)
		return c == nil
	}
	return v.r == nil
}

func (in *Interp) deepEq(a, b Value) *Term {
	x, ok1 := a.r.(*IfaceV)
	y, ok2 := b.r.(*IfaceV)
	if !ok1 || !ok2 {
		return in.tb.Bool(ok1 == ok2)
	}
	if x.t != y.t {
		return in.tb.F
	}
	return in.deepEqT(x.t, x.v, y.v)
}

func (in *Interp) deepEqT(t *TI, a, b Value) *Term {
	switch t.k {
	case TSlice:
		if (a.r == nil) != (b.r == nil) {
			return in.tb.F
		}
		x, y := cells(a), cells(b)
		if len(x) != len(y) {
			return in.tb.F
		}
		r := in.tb.T
		for i := range x {
			r = in.tb.And(r, in.deepEqT(t.elem, in.load(x[i]), in.load(y[i])))
		}
		return r
	case TStruct:
		x, y := a.r.(*AggV), b.r.(*AggV)
		r := in.tb.T
		for i, f := range t.fields {
			r = in.tb.And(r, in.deepEqT(f, x.f[i], y.f[i]))
		}
		return r
	case TIface:
		return in.deepEq(a, b)
	case TMap:
		x, _ := a.r.(*MapObj)
		y, _ := b.r.(*MapObj)
		if x == nil || y == nil {
			return in.tb.Bool(x == y)
		}
		if x.n != y.n {
			return in.tb.F
		}
		r := in.tb.T
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := in.mapFind(t, y, e.key)
			if f == nil {
				return in.tb.F
			}
			r = in.tb.And(r, in.deepEqT(t.elem, e.val, f.val))
		}
		return r
	}
	return in.eq(t, a, b)
}
