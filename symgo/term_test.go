package main

import (
	"math"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

// rawT is an unsimplified term, evaluated directly; t is what the table makes
// of the same term. TestSimplifier compares both on random models.
type rawT struct {
	t    *Term
	eval func(m Model) uint64
}

type rgen struct {
	*rand.Rand
	tb   *Table
	vars []*Term
	pool map[Sort][]rawT
}

func (g *rgen) pick(s Sort) rawT {
	p := g.pool[s]
	if g.Intn(3) > 0 && len(p) > 6 {
		return p[len(p)-1-g.Intn(6)]
	}
	return p[g.Intn(len(p))]
}

func (g *rgen) cst(s Sort, v uint64) rawT {
	t := g.tb.Const(s, v)
	return rawT{t, func(Model) uint64 { return t.val }}
}

func (g *rgen) add(r rawT) rawT {
	if r.t.size < 4000 {
		g.pool[r.t.sort] = append(g.pool[r.t.sort], r)
	}
	return r
}

func (g *rgen) variable(t *Term) {
	g.vars = append(g.vars, t)
	g.add(rawT{t, func(m Model) uint64 { return m[t] }})
}

var rFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 3, math.NaN(), math.Inf(1), math.Inf(-1), 1e-300, 1e300}

func (g *rgen) float() rawT {
	return g.cst(SFP64, math.Float64bits(rFloats[g.Intn(len(rFloats))]))
}

func (g *rgen) bv(s Sort) rawT {
	return g.cst(s, []uint64{0, 1, 2, 3, 7, 8, 255, ^uint64(0), 1 << 7, 1 << 63, uint64(g.Intn(20))}[g.Intn(11)])
}

func (g *rgen) step() rawT {
	sorts := []Sort{SBool, SBV(8), SBV(32), SBV(64), SFP64}
	bvs := sorts[1:4]
	tb := g.tb
	bin := func(op Op, a, b rawT, t *Term) rawT {
		as, rs := a.t.sort, t.sort
		return g.add(rawT{t, func(m Model) uint64 {
			return canonFP(rs, evalOp(op, rs, 0, as, a.eval(m), b.eval(m)))
		}})
	}
	switch k := g.Intn(16); k {
	case 0:
		return g.add(g.float())
	case 1:
		return g.add(g.bv(bvs[g.Intn(3)]))
	case 2:
		a := g.pick(SBool)
		return g.add(rawT{tb.Not(a.t), func(m Model) uint64 { return 1 - a.eval(m) }})
	case 3:
		a, b := g.pick(SBool), g.pick(SBool)
		return g.add(rawT{tb.And(a.t, b.t), func(m Model) uint64 { return a.eval(m) & b.eval(m) }})
	case 4:
		a, b := g.pick(SBool), g.pick(SBool)
		return g.add(rawT{tb.Or(a.t, b.t), func(m Model) uint64 { return a.eval(m) | b.eval(m) }})
	case 5, 6, 7:
		s := sorts[g.Intn(5)]
		if k == 7 {
			s = SFP64
		}
		c, a, b := g.pick(SBool), g.pick(s), g.pick(s)
		return g.add(rawT{tb.Ite(c.t, a.t, b.t), func(m Model) uint64 {
			if c.eval(m) == 1 {
				return a.eval(m)
			}
			return b.eval(m)
		}})
	case 8, 9:
		s := sorts[g.Intn(5)]
		a, b := g.pick(s), g.pick(s)
		if g.Intn(3) == 0 && s.K == KBV {
			b = g.bv(s)
		}
		return g.add(rawT{tb.Eq(a.t, b.t), func(m Model) uint64 { return b2u(canonFP(s, a.eval(m)) == canonFP(s, b.eval(m))) }})
	case 10:
		s := bvs[g.Intn(3)]
		op := []Op{OUlt, OUle, OSlt, OSle}[g.Intn(4)]
		a, b := g.pick(s), g.pick(s)
		return bin(op, a, b, tb.Cmp(op, a.t, b.t))
	case 11:
		op := []Op{OFLt, OFLe, OFEq}[g.Intn(3)]
		a, b := g.pick(SFP64), g.pick(SFP64)
		return bin(op, a, b, tb.Cmp(op, a.t, b.t))
	case 12:
		s := bvs[g.Intn(3)]
		op := []Op{OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr}[g.Intn(13)]
		a, b := g.pick(s), g.pick(s)
		if g.Intn(3) == 0 {
			b = g.bv(s)
		}
		return bin(op, a, b, tb.Bin(op, a.t, b.t))
	case 13:
		op := []Op{OFAdd, OFSub, OFMul, OFDiv}[g.Intn(4)]
		a, b := g.pick(SFP64), g.pick(SFP64)
		return bin(op, a, b, tb.Bin(op, a.t, b.t))
	case 14:
		op := []Op{OFNeg, OFAbs, OFSqrt, OFIsNaN, OFIsInf, OFSignBit}[g.Intn(6)]
		a := g.pick(SFP64)
		rs := SFP64
		if op == OFIsNaN || op == OFIsInf || op == OFSignBit {
			rs = SBool
		}
		return bin(op, a, a, tb.Un(op, rs, 0, a.t))
	default:
		switch g.Intn(4) {
		case 0:
			a := g.pick(SBV(64))
			return bin(OFFromS, a, a, tb.Un(OFFromS, SFP64, 0, a.t))
		case 1:
			from := bvs[g.Intn(2)]
			op := []Op{OZExt, OSExt}[g.Intn(2)]
			a := g.pick(from)
			return bin(op, a, a, tb.Un(op, SBV(64), 0, a.t))
		case 2:
			a := g.pick(SBV(64))
			to := bvs[g.Intn(2)]
			return bin(OTrunc, a, a, tb.Un(OTrunc, to, 0, a.t))
		default:
			a := g.pick(SBV(32))
			return bin(OTrunc, a, a, tb.Un(OTrunc, SBV(8), 0, a.t))
		}
	}
}

func TestSimplifier(t *testing.T) {
	rounds := 600
	if s := os.Getenv("ROUNDS"); s != "" {
		rounds, _ = strconv.Atoi(s)
	}
	checked := 0
	for round := 0; round < rounds; round++ {
		tb := NewTable()
		g := &rgen{Rand: rand.New(rand.NewSource(int64(round))), tb: tb, pool: map[Sort][]rawT{}}
		for _, s := range []Sort{SBV(8), SBV(32), SBV(64)} {
			g.add(g.bv(s))
			g.variable(tb.Var(s, "r", 0, 2, true))
			g.variable(tb.Var(s, "q", -1, 3, true))
			g.variable(tb.Var(s, "f", 0, 0, false))
		}
		g.variable(tb.Var(SBool, "p", 0, 0, false))
		g.variable(tb.Var(SBool, "q", 0, 0, false))
		g.add(g.cst(SBool, 1))
		if round%3 > 0 {
			g.variable(tb.Var(SFP64, "x", 0, 0, false))
		} else {
			g.add(g.float())
		}
		for i := 0; i < 3; i++ { // values of finite support
			v := g.vars[g.Intn(len(g.vars)-3)]
			r := g.float()
			for k := uint64(0); k < 3; k++ {
				k, o, f := tb.Const(v.sort, k), r, g.float()
				r = rawT{tb.Ite(tb.Eq(v, k), f.t, o.t), func(m Model) uint64 {
					if m[v] == k.val {
						return f.t.val
					}
					return o.eval(m)
				}}
			}
			g.add(r)
		}
		models := make([]Model, 12)
		for i := range models {
			m := Model{}
			for _, v := range g.vars {
				switch {
				case v.sort == SBool:
					m[v] = uint64(g.Intn(2))
				case v.sort.K == KFP:
					m[v] = g.float().t.val
				case v.name == "f":
					m[v] = g.bv(v.sort).t.val
				default:
					m[v] = uint64(v.lo+g.Int63n(v.hi-v.lo+1)) & maskW(v.sort.W)
				}
			}
			models[i] = m
		}
		for i := 0; i < 120; i++ {
			r := g.step()
			for _, m := range models {
				checked++
				got, want := tb.Eval(r.t, m), r.eval(m)
				if canonFP(r.t.sort, got) != canonFP(r.t.sort, want) {
					t.Fatalf("round %d step %d: simplified to %x, is %x (op %d)", round, i, got, want, r.t.op)
				}
				if r.t.sort.K == KBV {
					if s := sext(got, r.t.sort.W); s < r.t.lo || s > r.t.hi {
						t.Fatalf("round %d step %d: %d outside its range %d:%d (op %d)", round, i, s, r.t.lo, r.t.hi, r.t.op)
					}
				}
			}
		}
	}
	t.Logf("%d evaluations agree", checked)
}

// TestSolverAgrees has the solver confirm what evaluation says about random
// terms: with all variables fixed, a term can only have its evaluated value.
func TestSolverAgrees(t *testing.T) {
	rounds := 150
	if s := os.Getenv("ROUNDS"); s != "" {
		rounds, _ = strconv.Atoi(s)
	}
	n := 0
	for round := 0; round < rounds; round++ {
		tb := NewTable()
		g := &rgen{Rand: rand.New(rand.NewSource(int64(round))), tb: tb, pool: map[Sort][]rawT{}}
		for _, s := range []Sort{SBV(8), SBV(32), SBV(64)} {
			g.add(g.bv(s))
			g.variable(tb.Var(s, "r"+strconv.Itoa(int(s.W)), 0, 2, true))
			g.variable(tb.Var(s, "f"+strconv.Itoa(int(s.W)), 0, 0, false))
		}
		g.variable(tb.Var(SBool, "p", 0, 0, false))
		g.variable(tb.Var(SFP64, "x", 0, 0, false))
		m := Model{}
		var pc []*Term
		for _, v := range g.vars {
			switch {
			case v.sort == SBool:
				m[v] = uint64(g.Intn(2))
			case v.sort.K == KFP:
				m[v] = g.float().t.val
			case v.name[0] == 'f':
				m[v] = g.bv(v.sort).t.val
			default:
				m[v] = uint64(v.lo+g.Int63n(v.hi-v.lo+1)) & maskW(v.sort.W)
			}
			if v.sort == SBool {
				if m[v] == 1 {
					pc = append(pc, v)
				} else {
					pc = append(pc, tb.Not(v))
				}
			} else {
				pc = append(pc, tb.mk(OEq, SBool, 0, "", v, tb.Const(v.sort, m[v])))
			}
		}
		sv := NewSolver("z3", tb, 20000)
		bad := tb.F
		for i := 0; i < 40; i++ {
			r := g.step()
			if r.t.isConst() {
				continue
			}
			val := tb.Const(r.t.sort, tb.Eval(r.t, m))
			bad = tb.mk(OOr, SBool, 0, "", bad, tb.mk(ONot, SBool, 0, "", tb.mk(OEq, SBool, 0, "", r.t, val)))
			n++
		}
		res, _ := sv.Check(pc, bad)
		sv.kill()
		if res != Unsat {
			t.Fatalf("round %d: %v %s", round, res, sv.lastErr)
		}
	}
	t.Logf("%d terms agree", n)
}
