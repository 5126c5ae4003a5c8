package h

import (
	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// lossFrame holds two float columns and may be seen through any view.
func lossFrame(a, b []float64) (*dataframe.DataFrame, *mdl) {
	m := &mdl{cols: map[string]*col{"p": {k: kF, f: a}, "t": {k: kF, f: b}}, idx: iota_(len(a))}
	df := m.build()
	if n := m.rows(); n > 0 {
		switch sym.Choose("view", 3) {
		case 1:
			return df.ReverseView(), m.pick(rev(n))
		case 2:
			sym.Assume(n < 4)
			idx := symIdx("idx", n, n)
			return df.IndexView(idx), m.pick(idx)
		}
	}
	return df, m
}

// L03_Value: the mean itself, where it is exactly representable.
// bound: 1, 2 or 4 rows (a power of two makes the mean exact in any order of summation), cells arbitrary among -1.5, 0, 0.25, 2, 3 (4 rows: -1.5 or 2), frame as is, reversed or (up to 2 rows) under an arbitrary index list
func L03_Value() {
	n := 1 << sym.Choose("log", 3)
	var a, b []float64
	for i := 0; i < n; i++ {
		if n == 4 {
			a, b = append(a, sym.OneOf("p", -1.5, 2)), append(b, sym.OneOf("t", -1.5, 2))
			continue
		}
		a = append(a, sym.OneOf("p", -1.5, 0, 0.25, 2, 3))
		b = append(b, sym.OneOf("t", -1.5, 0, 0.25, 2, 3))
	}
	df, m := lossFrame(a, b)
	se, ae := 0.0, 0.0
	for _, r := range m.idx {
		d := a[r] - b[r]
		se += d * d
		ae += sym.IfFloat(d < 0, -d, d)
	}
	if sym.Choose("loss", 2) == 0 {
		got := algorithms.MSE(df.Floats("p"), df.Floats("t"))
		sym.Assert(got == se/float64(n), "MSE: not the mean squared difference")
		sym.Observe("mse", got)
	} else {
		got := algorithms.MAE(df.Floats("p"), df.Floats("t"))
		sym.Assert(got == ae/float64(n), "MAE: not the mean absolute difference")
		sym.Observe("mae", got)
	}
	m.check(df, "input")
}

// L03_Laws: for every float64.
// sym: timeout=8000
// bound: 1..2 rows (thorough 3), arbitrary float64 cells (NaN, infinities included)
// cover: nan finite
func L03_Laws() {
	n := 1 + sym.Choose("n", sym.Quick(2, 3))
	var a, b []float64
	nan := false
	for i := 0; i < n; i++ {
		x, y := sym.Float64("p"), sym.Float64("t")
		a, b = append(a, x), append(b, y)
		nan = sym.Or(nan, sym.Or(x != x, y != y))
	}
	m := &mdl{cols: map[string]*col{"p": {k: kF, f: a}, "t": {k: kF, f: b}}, idx: iota_(n)}
	df := m.build()
	p, t := df.Floats("p"), df.Floats("t")
	loss := algorithms.MSE
	if sym.Choose("loss", 2) == 1 {
		loss = algorithms.MAE
	}
	x, y := loss(p, t), loss(t, p)
	sym.Assert(sym.Same(x, y), "not symmetric")
	sym.Assert(sym.Or(x >= 0, x != x), "negative")
	sym.Assert(sym.Implies(nan, x != x), "NaN does not propagate")
	if nan {
		sym.Cover("nan")
	} else {
		sym.Cover("finite")
	}
	z := loss(p, p)
	fin := true
	for _, v := range a {
		fin = sym.And(fin, v-v == 0)
	}
	sym.Assert(sym.Implies(fin, z == 0), "not zero for equal columns")
}

// L03_Zero: the loss is zero only for equal columns.
// bound: 1..2 rows, one cell arbitrary, differences of at least 2^-500
func L03_Zero() {
	n := 1 + sym.Choose("n", 2)
	at := sym.Choose("at", n)
	var a, b []float64
	for i := 0; i < n; i++ {
		a, b = append(a, 1), append(b, 1)
	}
	a[at] = sym.Float64("x")
	d := a[at] - 1
	sym.Assume(sym.Or(d > 0x1p-50, d < -0x1p-50))
	m := &mdl{cols: map[string]*col{"p": {k: kF, f: a}, "t": {k: kF, f: b}}, idx: iota_(n)}
	df := m.build()
	sym.Assert(algorithms.MSE(df.Floats("p"), df.Floats("t")) > 0, "MSE of different columns is not positive")
	sym.Assert(algorithms.MAE(df.Floats("p"), df.Floats("t")) > 0, "MAE of different columns is not positive")
}

// L03_Sizes: columns of different lengths.
// bound: 0..3 and 0..3 rows
// cover: differ
func L03_Sizes() {
	na, nb := sym.Choose("na", 4), sym.Choose("nb", 4)
	sym.Assume(na != nb)
	x := (&mdl{cols: map[string]*col{"p": {k: kF, f: make([]float64, na)}}, idx: iota_(na)}).build()
	y := (&mdl{cols: map[string]*col{"t": {k: kF, f: make([]float64, nb)}}, idx: iota_(nb)}).build()
	sym.Assert(sym.Panics(func() { algorithms.MSE(x.Floats("p"), y.Floats("t")) }), "MSE accepts different lengths")
	sym.Assert(sym.Panics(func() { algorithms.MAE(x.Floats("p"), y.Floats("t")) }), "MAE accepts different lengths")
	sym.Cover("differ")
}
