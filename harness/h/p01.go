package h

import (
	"math"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"verifharness/sym"
)

// near compares up to rounding; NaN equals NaN.
func near(a, b float64) bool {
	return sym.Or(sym.Same(a, b), math.Abs(a-b) <= 1e-9*(1+math.Abs(b)))
}

// floatFrame has float columns "x" (given) and "y", and one column of every
// other type.
func floatFrame(x []float64) *mdl {
	n := len(x)
	m := &mdl{cols: map[string]*col{"x": {k: kF, f: x}, "y": newCol(kF, n), "i": newCol(kI, n), "b": newCol(kB, n), "s": newCol(kS, n), "o": newCol(kO, n)}, idx: iota_(n)}
	for r := range m.cols["y"].f {
		m.cols["y"].f[r] = []float64{4, math.NaN(), 8, 6}[r]
	}
	return m
}

// sums of 0.1 are rounded
var trainValues = []float64{-2, 0.5, 0.1, 3, 1024}

// numbers is n arbitrary training values, missing ones included.
func numbers(name string, n int) []float64 {
	var r []float64
	for i := 0; i < n; i++ {
		r = append(r, sym.OneOf(name, append([]float64{math.NaN()}, trainValues[:sym.Quick(3, 5)]...)...))
	}
	return r
}

// present splits off the missing values: 1 for a present value, and its value.
func present(x float64) (k, v float64) {
	nan := math.IsNaN(x)
	return sym.IfFloat(nan, 0, 1), sym.IfFloat(nan, 0, x)
}

// refScaling is the documented shift and scale of a column; scale 0 means that
// any positive finite scale will do (a constant column).
func refScaling(x []float64, o preprocessing.ScalerOptions) (shift, scale float64) {
	n, sum := 0.0, 0.0
	for _, v := range x {
		k, w := present(v)
		n, sum = n+k, sum+w
	}
	if o.MinMax {
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, v := range x {
			lo = sym.IfFloat(v < lo, v, lo)
			hi = sym.IfFloat(v > hi, v, hi)
		}
		none := n == 0
		shift = sym.IfFloat(none, 0, -lo)
		d := sym.IfFloat(none, 0, hi-lo)
		scale = sym.IfFloat(d == 0, 0, 1/d)
		return
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, v := range x {
		lo = sym.IfFloat(v < lo, v, lo)
		hi = sym.IfFloat(v > hi, v, hi)
	}
	// the mean of equal values is that value, however sums are rounded
	mean := sym.IfFloat(n == 0, 0, sym.IfFloat(lo == hi, lo, sum/n))
	if o.Centering {
		shift = -mean
	}
	scale = 1
	if o.Scaling {
		sq := 0.0
		for _, v := range x {
			k, w := present(v)
			sq += k * (w - mean) * (w - mean)
		}
		scale = sym.IfFloat(sq == 0, 0, math.Sqrt(n/sq))
	}
	return
}

func scalerOptions() (o preprocessing.ScalerOptions) {
	switch sym.Choose("options", 6) {
	case 0:
		o.MinMax = true
	case 1:
		o.Centering = true
	case 2:
		o.Scaling = true
	case 3:
		o.Centering, o.Scaling = true, true
	case 4:
		o.MinMax, o.Centering, o.Scaling = true, true, true
	}
	return
}

// P01_Fit: fitting, transforming the training data and going back.
// bound: 1..3 rows, cells arbitrary among missing, -2, 0.5, 0.1 (thorough also 3 and 1024) times 2^-40, 1 or 2^40, a second column of fixed cells, 6 option combinations, training frame as is or reversed
// cover: constant missing spread
func P01_Fit() {
	n := 1 + sym.Choose("n", 3)
	x := numbers("x", n)
	// the unit of the column does not matter
	switch sym.Choose("unit", 3) {
	case 1:
		for i := range x {
			x[i] *= 1.0 / (1 << 40)
		}
	case 2:
		for i := range x {
			x[i] *= 1 << 40
		}
	}
	m := floatFrame(x)
	o := scalerOptions()
	df := m.build()
	if sym.Choose("view", 2) == 1 {
		df, m = df.ReverseView(), m.pick(rev(n))
	}
	before := m.freeze()
	scaler := preprocessing.NewScaler(o)
	sym.Assert(scaler.Fit(df) == nil, "Fit fails")
	before.check(df, "frame after Fit")
	sym.Assert(scaler.TransformInplace(df) == nil, "TransformInplace fails")
	shift, scale := refScaling(x, o)
	free := scale == 0
	got := df.Floats("x")
	for j, r := range m.idx {
		v := x[r]
		nan := math.IsNaN(v)
		g := got.Get(j)
		sym.Assert(math.IsNaN(g) == nan, "a missing value appears or disappears")
		// a constant column is centered but not divided by zero
		sym.Assert(sym.Implies(!nan, sym.And(!math.IsInf(g, 0), !math.IsNaN(g))), "a scaled value is not finite")
		sym.Assert(sym.Implies(sym.And(!nan, !free), math.Abs(g-(v+shift)*scale) <= 1e-9*(1+math.Abs(v)*scale)), "scaled value")
		sym.Assert(sym.Implies(sym.And(sym.And(!nan, free), v+shift == 0), math.Abs(g) <= 1e-9*(1+math.Abs(v))), "value of a constant column")
		for i := 0; i < j; i++ {
			w := x[m.idx[i]]
			sym.Assert(sym.Implies(v == w, sym.Same(g, got.Get(i))), "equal values scaled differently")
		}
	}
	if n > 1 {
		if free && !math.IsNaN(x[0]) {
			sym.Cover("constant")
		}
		if scale == 1/2.5 {
			sym.Cover("spread")
		}
	}
	if math.IsNaN(x[0]) {
		sym.Cover("missing")
	}
	before.checkCells(df, "other columns after TransformInplace", "i", "b", "s", "o")
	before.checkHeaders(df, "columns after TransformInplace")
	sym.Assert(scaler.InverseTransformInplace(df) == nil, "InverseTransformInplace fails")
	for j, r := range m.idx {
		sym.Assert(near(got.Get(j), x[r]), "InverseTransformInplace does not restore the value")
		sym.Assert(near(df.Floats("y").Get(j), m.cols["y"].f[r]), "InverseTransformInplace does not restore the value")
	}
	before.checkCells(df, "other columns after InverseTransformInplace", "i", "b", "s", "o")
}

// P01_Views: transforming any view changes exactly the cells it shows, once.
// bound: scaler with shift -0.25 and/or scale 4, backing frame of 1..3 rows (quick 1..2), cells arbitrary among missing, -1, 0.5, 6, transformed through a view with up to 3 arbitrary indices, then inverted; machine of 1 or 2 CPUs
// cover: repeated
func P01_Views() {
	sym.NumCPU(2)
	n := 1 + sym.Choose("n", sym.Quick(2, 3))
	var x []float64
	for i := 0; i < n; i++ {
		x = append(x, sym.OneOf("x", math.NaN(), -1, 0.5, 6))
	}
	m := floatFrame(x)
	df := m.build()
	sibling := df.ShallowCopy()
	df.SetMaxCPU(0)
	s := &preprocessing.Scaler{Shift: map[string]float64{}, Scale: map[string]float64{}}
	shift, scale := 0.0, 1.0
	if sym.Choose("shifted", 2) == 1 {
		shift = -0.25
		s.Shift["x"] = shift
		s.Shift["y"] = 1
	}
	if sym.Choose("scaled", 2) == 1 {
		scale = 4
		s.Scale["x"] = scale
		s.Scale["y"] = 1
	}
	idx := symIdx("idx", sym.Choose("len", 4), n)
	v, vm := df.IndexView(idx), m.pick(idx)
	if len(idx) == 2 && idx[0] == idx[1] {
		sym.Cover("repeated")
	}
	before := m.freeze()
	want := m.freeze()
	for r := range x {
		shown := false
		for _, k := range vm.idx {
			shown = sym.Or(shown, k == r)
		}
		want.cols["x"].f[r] = sym.IfFloat(shown, (x[r]+shift)*scale, x[r])
		if len(s.Shift) > 0 {
			y := want.cols["y"].f[r]
			want.cols["y"].f[r] = sym.IfFloat(shown, y+1, y)
		}
	}
	sym.Assert(s.TransformInplace(v) == nil, "TransformInplace fails")
	want.check(df, "base after TransformInplace of a view")
	want.check(sibling, "sibling after TransformInplace of a view")
	sym.Assert(s.InverseTransformInplace(v) == nil, "InverseTransformInplace fails")
	before.check(df, "base after InverseTransformInplace of a view")
	sym.NoLeak("a worker never finishes")
}

// P02_Fit: the fallback of each policy and what is filled.
// bound: 1..3 rows, cells arbitrary among missing, -2, 0.5, 0.1 (thorough also 3 and 1024), all policies, training frame as is, reversed or a slice; transform of the training frame
// cover: all
func P02_Fit() {
	n := 1 + sym.Choose("n", 3)
	x := numbers("x", n)
	m := floatFrame(x)
	base := m.build()
	df := base
	switch sym.Choose("view", 3) {
	case 1:
		df, m = df.ReverseView(), m.pick(rev(n))
	case 2:
		if n > 1 {
			df, m = df.SliceView(1, n), m.pick(iota_(n)[1:])
		}
	}
	before := m.freeze()
	policy := []preprocessing.ImputingPolicy{preprocessing.Mean, preprocessing.Zero, preprocessing.One}[sym.Choose("policy", 3)]
	imputer := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: policy})
	sym.Assert(imputer.Fit(df) == nil, "Fit fails")
	before.check(df, "frame after Fit")
	cnt, sum := 0.0, 0.0
	for _, r := range m.idx {
		k, w := present(x[r])
		cnt, sum = cnt+k, sum+w
	}
	if cnt == 0 {
		sym.Cover("all")
	}
	want := 0.0
	switch policy {
	case preprocessing.Mean:
		want = sum / cnt
	case preprocessing.One:
		want = 1
	}
	none := sym.And(policy == preprocessing.Mean, cnt == 0)
	sym.Assert(imputer.TransformInplace(df) == nil, "TransformInplace fails")
	got := base.Floats("x")
	first := math.NaN()
	for r := range x {
		shown := false
		for _, k := range m.idx {
			shown = sym.Or(shown, k == r)
		}
		g := got.Get(r)
		nan := math.IsNaN(x[r])
		sym.Assert(sym.Implies(sym.Or(!shown, !nan), sym.Same(g, x[r])), "a cell that is not missing, or not shown, changes")
		fill := sym.And(shown, nan)
		sym.Assert(sym.Implies(fill, sym.And(!math.IsNaN(g), !math.IsInf(g, 0))), "a missing value is not replaced by a number")
		sym.Assert(sym.Implies(sym.And(fill, !none), near(g, want)), "fallback value")
		sym.Assert(sym.Implies(sym.And(fill, !math.IsNaN(first)), sym.Same(g, first)), "missing values replaced by different numbers")
		first = sym.IfFloat(fill, g, first)
	}
	for j := range m.idx {
		sym.Assert(!math.IsNaN(df.Floats("y").Get(j)) || (policy == preprocessing.Mean && m.rows() == 1 && m.idx[0] == 1), "a missing value remains")
	}
	before.checkCells(df, "other columns after TransformInplace", "i", "b", "s", "o")
	before.checkHeaders(df, "columns after TransformInplace")
}

// P02_Views: any fitted imputer on any view.
// bound: fallback any float64 that is not missing, backing frame of 1..3 rows of arbitrary float64 cells, view with up to 3 arbitrary indices
// cover: filled
func P02_Views() {
	n := 1 + sym.Choose("n", 3)
	var x []float64
	for i := 0; i < n; i++ {
		x = append(x, sym.Float64("x"))
	}
	m := floatFrame(x)
	df := m.build()
	sibling := df.View()
	fallback := sym.Float64("fallback")
	sym.Assume(!math.IsNaN(fallback))
	s := &preprocessing.FloatImputer{Fallback: map[string]float64{"x": fallback}}
	idx := symIdx("idx", sym.Choose("len", 4), n)
	v, vm := df.IndexView(idx), m.pick(idx)
	want := m.freeze()
	for r := range x {
		shown := false
		for _, k := range vm.idx {
			shown = sym.Or(shown, k == r)
		}
		want.cols["x"].f[r] = sym.IfFloat(sym.And(shown, math.IsNaN(x[r])), fallback, x[r])
	}
	if math.IsNaN(x[0]) {
		sym.Cover("filled")
	}
	sym.Assert(s.TransformInplace(v) == nil, "TransformInplace fails")
	want.check(df, "base after TransformInplace of a view")
	want.check(sibling, "sibling after TransformInplace of a view")
	observe(df, "df")
}

var _ dataframe.DataFrame

// refitFrame has float columns x and the given other one.
func refitFrame(other string, x []float64) *mdl {
	m := &mdl{cols: map[string]*col{"x": {k: kF, f: x}, other: {k: kF, f: []float64{5, 9, 1}[:len(x)]}, "i": newCol(kI, len(x))}, idx: iota_(len(x))}
	return m.freeze()
}

// P01_Refit: fitting again forgets the earlier fit.
// bound: fitted on columns x and old of 3 rows, then on x and y of 1..2 rows (cells arbitrary among missing, -2, 0.5, 0.1 (thorough also 3 and 1024)), 6 option combinations; training data of the second fit and a frame with the three columns transformed and inverted, against a scaler fitted only once
// cover: constant
func P01_Refit() {
	n := 1 + sym.Choose("n", 2)
	x := numbers("x", n)
	o := scalerOptions()
	s, fresh := preprocessing.NewScaler(o), preprocessing.NewScaler(o)
	sym.Assert(s.Fit(refitFrame("old", []float64{2, 4, 1000}).build()) == nil, "Fit fails")
	sym.Assert(s.Fit(refitFrame("y", x).build()) == nil, "second Fit fails")
	sym.Assert(fresh.Fit(refitFrame("y", x).build()) == nil, "Fit fails")
	if n == 2 && x[0] == x[1] {
		sym.Cover("constant")
	}
	m := refitFrame("y", x)
	if sym.Choose("old", 2) == 1 {
		m.cols["old"] = &col{k: kF, f: []float64{3, 6}[:n]}
	}
	a, b := m.freeze().build(), m.freeze().build()
	sym.Assert(s.TransformInplace(a) == nil, "TransformInplace fails")
	sym.Assert(fresh.TransformInplace(b) == nil, "TransformInplace fails")
	for _, c := range sorted(m.names()) {
		if m.cols[c].k == kF {
			for j := 0; j < n; j++ {
				sym.Assert(near(a.Floats(c).Get(j), b.Floats(c).Get(j)), "value scaled by a scaler that was fitted twice")
			}
		}
	}
	sym.Assert(s.InverseTransformInplace(a) == nil, "InverseTransformInplace fails")
	for _, c := range sorted(m.names()) {
		if m.cols[c].k == kF {
			for j := 0; j < n; j++ {
				sym.Assert(near(a.Floats(c).Get(j), m.cols[c].f[j]), "InverseTransformInplace does not restore the value")
			}
		}
	}
}

// P02_Refit: fitting again forgets the earlier fit.
// bound: fitted on columns x and old of 3 rows, then on x and y of 1..2 rows (cells arbitrary among missing, -2, 0.5, 0.1 (thorough also 3 and 1024)), all policies; a frame with columns x and y, and one with old too, transformed, against an imputer fitted only once
func P02_Refit() {
	n := 1 + sym.Choose("n", 2)
	x := numbers("x", n)
	o := preprocessing.FloatImputerOptions{Policy: []preprocessing.ImputingPolicy{preprocessing.Mean, preprocessing.Zero, preprocessing.One}[sym.Choose("policy", 3)]}
	s, fresh := preprocessing.NewFloatImputer(o), preprocessing.NewFloatImputer(o)
	sym.Assert(s.Fit(refitFrame("old", []float64{2, 4, 1000}).build()) == nil, "Fit fails")
	sym.Assert(s.Fit(refitFrame("y", x).build()) == nil, "second Fit fails")
	sym.Assert(fresh.Fit(refitFrame("y", x).build()) == nil, "Fit fails")
	m := refitFrame("y", x)
	for j := range x {
		m.cols["x"].f[j] = math.NaN()
	}
	if sym.Choose("old", 2) == 1 {
		m.cols["old"] = &col{k: kF, f: []float64{math.NaN(), 6}[:n]}
	}
	a, b := m.freeze().build(), m.freeze().build()
	sym.Assert(s.TransformInplace(a) == nil, "TransformInplace fails")
	sym.Assert(fresh.TransformInplace(b) == nil, "TransformInplace fails")
	for _, c := range sorted(m.names()) {
		if m.cols[c].k == kF {
			for j := 0; j < n; j++ {
				sym.Assert(near(a.Floats(c).Get(j), b.Floats(c).Get(j)), "value filled by an imputer that was fitted twice")
			}
		}
	}
}
