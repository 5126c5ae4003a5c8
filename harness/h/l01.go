package h

import (
	"math"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// trained is a model for the features x, y (float) and b (bool) whose target
// was fitted on the values lo and hi, with the weights replaced by wx, wy, wb.
// It returns the prediction as a function of the features.
func trained(target string, lo, hi, wx, wy, wb float64) (*algorithms.LinearRegressor, func(x, y float64, b bool) float64) {
	b := newBuilder()
	b.AddFloats("x", 1, 2).AddFloats("y", 0, 1).AddBools("b", true, false).AddFloats(target, lo, hi)
	reg := algorithms.NewLinearRegressor()
	sym.Assert(reg.Fit(b.ToDataFrame(), target, algorithms.LinRegTrainParams{Epochs: 1, BatchSize: 2, LR: 0.25}) == nil, "Fit fails")
	sym.Assert(len(reg.Features) == 3 && len(reg.Weights) == 3, "Fit: number of features")
	for k, f := range reg.Features {
		switch f {
		case "x":
			reg.Weights[k] = wx
		case "y":
			reg.Weights[k] = wy
		case "b":
			reg.Weights[k] = wb
		default:
			sym.Assert(false, "Fit: a feature that is not one")
		}
	}
	mean, std := (lo+hi)/2, math.Abs(hi-lo)/2
	return reg, func(x, y float64, b bool) float64 {
		return (x*wx+y*wy+sym.IfFloat(b, wb, 0))*std + mean
	}
}

func anyWeights() (wx, wy, wb float64) {
	return sym.OneOf("wx", -1, 0.5), []float64{0, 1}[sym.Choose("wy", 2)], 4
}

// anyRows is one of several views with concrete rows.
func anyRows(df *dataframe.DataFrame, m *mdl) (*dataframe.DataFrame, *mdl) {
	n := m.rows()
	k := sym.Choose("rows", 7)
	if n == 0 {
		k = k % 2
	}
	var idx []int
	switch k {
	case 0:
		return df, m
	case 1:
		return df.View(), m.view()
	case 2:
		return df.ReverseView(), m.pick(rev(n))
	case 3:
		idx = []int{n - 1, 0, 0, n - 1}
	case 4:
		idx = []int{0}
	case 5:
		return df.SliceView(n/2, n), m.pick(iota_(n)[n/2:])
	case 6:
		idx = []int{}
	}
	return df.IndexView(idx), m.pick(idx)
}

// checkPrediction asserts that got holds vm's rows in some order, each with its
// own prediction, with the columns of vm and the result column.
func checkPrediction(got *dataframe.DataFrame, vm *mdl, result string, f func(x, y float64, b bool) float64, label string) {
	sym.Assert(got.NumRows() == vm.rows(), label+": number of rows")
	hm := vm.view()
	hm.cols[result] = &col{k: kF}
	hm.checkHeaders(got, label)
	id := got.Ints("id")
	sameRows(got.NumRows(), id.Get, vm, vm.rows(), label)
	pm := vm.view()
	delete(pm.cols, result)
	pm.idx = make([]int, got.NumRows())
	for j := range pm.idx {
		pm.idx[j] = id.Get(j)
	}
	pm.checkCells(got, label+": other columns")
	p := got.Floats(result)
	for j, r := range pm.idx {
		want := f(vm.cols["x"].f[r], vm.cols["y"].f[r], vm.cols["b"].b[r])
		sym.Assert(near(p.Get(j), want), label+": prediction of a row")
	}
}

// predModel has features x, y, b, a row id, and columns of all types.
func predModel(n int) *mdl {
	m := newModel("", n)
	m.cols["x"], m.cols["y"], m.cols["b"], m.cols["id"] = newCol(kF, n), newCol(kF, n), newCol(kB, n), newCol(kI, n)
	for r := 0; r < n; r++ {
		m.cols["x"].f[r] = sym.OneOf("x", math.NaN(), -1, 0.5, 3)
		m.cols["y"].f[r] = float64(r) - 1
		m.cols["b"].b[r] = sym.Bool("b")
		m.cols["id"].i[r] = r
	}
	return m
}

// L01_Predict: any view, any result column.
// sym: steps=3000000
// bound: 0..3 backing rows (thorough 4), 7 kinds of views (permuting, repeating and dropping rows), cells of features arbitrary among a few (missing included), weights arbitrary among 2 values each, target scaling of 2 training sets, result column fresh, "_target", or an existing column of any type that is no feature
// cover: fresh exists
func L01_Predict() {
	n := sym.Choose("n", sym.Quick(4, 5))
	m := predModel(n)
	lo, hi := 0.0, 4.0
	if sym.Choose("scaling", 2) == 1 {
		lo, hi = 1, -2
	}
	wx, wy, wb := anyWeights()
	reg, f := trained("f1", lo, hi, wx, wy, wb)
	df := m.build()
	v, vm := anyRows(df, m)
	sib := v.View()
	before, fv := m.freeze(), vm.freeze()
	result := []string{"p", "_target", "f1", "i1", "b1", "s1", "o1"}[sym.Choose("result", 7)]
	got, err := reg.Predict(v, result)
	sym.Assert(err == nil, "Predict fails")
	before.check(df, "backing frame after Predict")
	fv.check(v, "input after Predict")
	fv.check(sib, "other view after Predict")
	checkPrediction(got, fv, result, f, "Predict")
	if result == "p" {
		sym.Cover("fresh")
	} else {
		sym.Cover("exists")
	}
	if got.NumRows() > 0 {
		got.Floats(result).Set(0, 1234)
		before.check(df, "backing frame after a change to the prediction")
		fv.check(v, "input after a change to the prediction")
	}
}

// L01_Names: columns with the names used during training.
// bound: 2 rows; a column "_target" of every type (also as target), predicting into it, into the target or into a feature
// cover: own
func L01_Names() {
	n := 2
	m := predModel(n)
	target := []string{"t", "_target"}[sym.Choose("target", 2)]
	wx, wy, wb := anyWeights()
	reg, f := trained(target, 0, 4, wx, wy, wb)
	own := m.cols[[]string{"f1", "i1", "b1", "s1", "o1"}[sym.Choose("type", 5)]]
	m.cols["_target"] = own.clone()
	df := m.build()
	v, vm := anyRows(df, m)
	before := m.freeze()
	fv := vm.freeze()
	result := []string{"p", "_target", "t", "x"}[sym.Choose("result", 4)]
	got, err := reg.Predict(v, result)
	sym.Assert(err == nil, "Predict fails")
	before.check(df, "backing frame after Predict")
	fv.check(v, "input after Predict")
	if result == "p" {
		sym.Cover("own")
	}
	checkPrediction(got, fv, result, f, "Predict")
}

// L01_Batches: more rows than a prediction batch holds.
// bound: batch of 4194304/weights rows is reached by a model with many weights only: 40 rows with 131072 weights are out of reach, so 3 weights and 40 rows
// cover: done
func L01_Batches() {
	n := 40
	m := predModel(n)
	for r := 0; r < n; r++ {
		m.cols["x"].f[r] = float64(r % 7)
	}
	wx, wy, wb := anyWeights()
	reg, f := trained("t", 0, 4, wx, wy, wb)
	df := m.build()
	v, vm := df.ReverseView(), m.pick(rev(n))
	got, err := reg.Predict(v, "p")
	sym.Assert(err == nil, "Predict fails")
	checkPrediction(got, vm, "p", f, "Predict")
	sym.Cover("done")
}

// L01_Features: models of few features, of any type, predicting into any column.
// bound: 1..2 features, each float or bool; 1..2 rows in reverse, a feature value missing or not, result column fresh, a feature, the target, or a column of another type
// cover: one overwritten
func L01_Features() {
	n := 2
	b := newBuilder()
	names := []string{"x", "b", "y", "c"}
	var feats []string
	k := 1 + sym.Choose("features", 2)
	for i := 0; i < k; i++ {
		j := 2*i + sym.Choose("type", 2)
		feats = append(feats, names[j])
		if j%2 == 0 {
			b.AddFloats(names[j], 1, float64(2+i))
		} else {
			b.AddBools(names[j], i == 0, i != 0)
		}
	}
	reg := algorithms.NewLinearRegressor()
	sym.Assert(reg.Fit(b.AddFloats("f1", 0, 4).ToDataFrame(), "f1", algorithms.LinRegTrainParams{Epochs: 1, BatchSize: 2, LR: 0.25}) == nil, "Fit fails")
	sym.Assert(len(reg.Features) == k && len(reg.Weights) == k, "Fit: number of features")
	m := predModel(n)
	m.cols["c"] = newCol(kB, n)
	for r := 0; r < n; r++ {
		m.cols["c"].b[r] = sym.Bool("c")
	}
	w := map[string]float64{}
	for i, f := range reg.Features {
		sym.Assert(in(f, feats), "Fit: a feature that is not one")
		w[f] = []float64{-1, 0.5}[i]
		reg.Weights[i] = w[f]
	}
	sym.Assert(len(w) == k, "Fit: a feature is repeated")
	df := m.build()
	v, vm := df, m
	if sym.Choose("reverse", 2) == 1 {
		v, vm = df.ReverseView(), m.pick(rev(n))
	}
	sib := v.View()
	result := []string{"p", feats[0], "f1", "y", "b", "s1"}[sym.Choose("result", 6)]
	if result != "p" {
		sym.Cover("overwritten")
	}
	if k == 1 {
		sym.Cover("one")
	}
	before, fv := m.freeze(), vm.freeze()
	got, err := reg.Predict(v, result)
	sym.Assert(err == nil, "Predict fails")
	before.check(df, "backing frame after Predict")
	fv.check(v, "input after Predict")
	fv.check(sib, "other view after Predict")
	sym.Assert(got.NumRows() == n, "number of rows")
	for j := 0; j < n; j++ {
		r := got.Ints("id").Get(j)
		want := 0.0
		for f, x := range w {
			if c := m.cols[f]; c.k == kF {
				want += c.f[r] * x
			} else {
				want += sym.IfFloat(c.b[r], x, 0)
			}
		}
		sym.Assert(near(got.Floats(result).Get(j), want*2+2), "prediction of a row")
	}
	got.Floats(result).Set(0, 1234)
	before.check(df, "backing frame after a change to the prediction")
}

// L01_Alone: a frame that has the features only, one of them overwritten or not.
// bound: 0..2 rows of one feature, arbitrary among 4 values, plain, reversed or repeated; result column fresh or the feature itself
// cover: own fresh
func L01_Alone() {
	n := sym.Choose("n", 3)
	reg := algorithms.NewLinearRegressor()
	sym.Assert(reg.Fit(newBuilder().AddFloats("x", 1, 2).AddFloats("t", 0, 4).ToDataFrame(), "t", algorithms.LinRegTrainParams{Epochs: 1, BatchSize: 2, LR: 0.25}) == nil, "Fit fails")
	sym.Assert(len(reg.Weights) == 1, "Fit: number of features")
	reg.Weights[0] = 0.5
	m := &mdl{cols: map[string]*col{"x": newCol(kF, n)}, idx: iota_(n)}
	for r := 0; r < n; r++ {
		m.cols["x"].f[r] = sym.OneOf("x", math.NaN(), -1, 0.5, 3)
	}
	df := m.build()
	v, vm := df, m
	switch sym.Choose("view", 3) {
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 2:
		if n == 2 {
			v, vm = df.IndexView([]int{1, 1}), m.pick([]int{1, 1})
		}
	}
	fv := vm.freeze()
	result := []string{"p", "x"}[sym.Choose("result", 2)]
	sym.Cover([]string{"fresh", "own"}[b2i(result == "x")])
	got, err := reg.Predict(v, result)
	sym.Assert(err == nil, "Predict fails")
	fv.check(v, "input after Predict")
	sym.Assert(got.NumRows() == n, "number of rows")
	cols := []string{"x", "p"}[:1+b2i(result == "p")]
	sym.Assert(hasExactly(got.Header(), cols) && hasExactly(got.FloatHeader(), cols), "columns")
	p := got.Floats(result)
	want := func(j int) float64 { return vm.cols["x"].f[vm.idx[j]]*0.5*2 + 2 }
	if n == 1 {
		sym.Assert(near(p.Get(0), want(0)), "prediction of a row")
	} else if n == 2 {
		sym.Assert(sym.Or(sym.And(near(p.Get(0), want(0)), near(p.Get(1), want(1))), sym.And(near(p.Get(0), want(1)), near(p.Get(1), want(0)))), "predictions of the rows")
	}
}
