package main

import (
	"math"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Number formatting and parsing of concrete values runs natively; symbolic
// integers and strings go through the library's source; symbolic floats are
// formatted only when they have finite support.

func (in *Interp) finiteFloat(v Value, fn string) float64 {
	t, ok := v.r.(*Term)
	if !ok {
		return math.Float64frombits(v.u)
	}
	if dd(t) == 0 {
		in.noSpec()
		in.unsup(fn + " of an arbitrary symbolic float")
	}
	for t.op == OIte {
		if in.branch(t.args[0]) {
			t = t.args[1]
		} else {
			t = t.args[2]
		}
	}
	return math.Float64frombits(t.val)
}

func init() {
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if a[1].r != nil || a[2].r != nil || a[3].r != nil {
			in.unsup("FormatFloat with symbolic format")
		}
		f := in.finiteFloat(a[0], "FormatFloat")
		return ret(mkString(strconv.FormatFloat(f, byte(a[1].u), int(int64(a[2].u)), int(int64(a[3].u)))))
	}, "strconv.FormatFloat", "internal/strconv.FormatFloat")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if s, ok := strConc(a[0]); ok && a[1].r == nil && in.spec == nil {
			if f, err := strconv.ParseFloat(s, int(int64(a[1].u))); err == nil {
				return ret(Value{r: &AggV{f: []Value{mkFloat(f), {}}}})
			}
		}
		return Value{}, in.pushReal(g, fn, a, dst)
	}, "strconv.ParseFloat")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if s, ok := strConc(a[0]); ok && a[1].r == nil && a[2].r == nil && in.spec == nil {
			if i, err := strconv.ParseInt(s, int(int64(a[1].u)), int(int64(a[2].u))); err == nil {
				return ret(Value{r: &AggV{f: []Value{mkInt(int(i)), {}}}})
			}
		}
		return Value{}, in.pushReal(g, fn, a, dst)
	}, "strconv.ParseInt")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if a[0].r == nil && a[1].r == nil {
			return ret(mkString(strconv.FormatInt(int64(a[0].u), int(int64(a[1].u)))))
		}
		return Value{}, in.pushReal(g, fn, a, dst)
	}, "strconv.FormatInt")
	reg(func(in *Interp, g *G, a []Value, fn *ssa.Function, dst int) (Value, ctl) {
		if a[0].r == nil {
			return ret(mkString(strconv.Itoa(int(int64(a[0].u)))))
		}
		return Value{}, in.pushReal(g, fn, a, dst)
	}, "strconv.Itoa")
}
