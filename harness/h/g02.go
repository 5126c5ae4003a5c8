package h

import (
	"math"
	"math/rand"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// G02_Debug: frames in debug mode behave like others.
// sym: steps=3000000
// bound: 1..3 rows with arbitrary cells of all column types, a frame or view in debug mode, 15 ways of deriving a frame, then one arbitrary write, creation of a column or structural change, debug mode switched off in between or not
// cover: done
func G02_Debug() {
	n := 1 + sym.Choose("n", sym.Quick(2, 3))
	m := newModel("", n)
	df := m.build()
	v, vm := df, m
	if sym.Choose("on", 2) == 1 {
		v, vm = df.ReverseView(), m.pick(rev(n))
	}
	sym.Assert(v.Debug(true) == v, "Debug returns another frame")
	vm.same(v, "frame in debug mode")
	w, wm, _ := derived(v, vm, "op")
	wm.check(w, "frame derived in debug mode")
	if sym.Choose("off", 2) == 1 {
		w.Debug(false)
	}
	switch sym.Choose("then", 3) {
	case 0:
		write(w, wm, "w")
	case 1:
		w, wm = w.View(), wm.view()
		create(w, wm, wm.cols["f1"].rows(), "c")
	case 2:
		w, wm = w.View(), wm.view()
		w.Rename("f1", "fresh")
		wm.rename("f1", "fresh")
		w.Drop("i2")
		delete(wm.cols, "i2")
	}
	wm.check(w, "changed frame")
	vm.check(v, "frame in debug mode afterwards")
	m.check(df, "base afterwards")
	sym.Cover("done")
}

// G02_Concat: concatenations and conversions of frames in debug mode.
// bound: 2 frames of 0..2 rows with all column types, any of them in debug mode; row and column concatenation, hashing, label and float conversion, encoding
// cover: done
func G02_Concat() {
	n := sym.Choose("n", 3)
	a, b := newModel("", n), newModel("z", n)
	da, db := a.build(), b.build()
	da.Debug(true)
	if sym.Choose("both", 2) == 1 {
		db.Debug(true)
	}
	switch sym.Choose("what", 4) {
	case 0:
		got, err := dataframe.ColumnSmartConcat(da, db)
		sym.Assert(err == nil, "ColumnSmartConcat fails")
		want := a.view()
		for name, c := range b.cols {
			want.cols[name] = c
		}
		want.same(got, "ColumnSmartConcat")
	case 1:
		got, err := dataframe.RowConcat(da, da.ReverseView())
		sym.Assert(err == nil, "RowConcat fails")
		stack(a, a.pick(rev(n))).same(got, "RowConcat")
	case 2:
		got := da.HashStringsView("s1")
		want := a.view()
		want.cols["s1"] = newCol(kI, n)
		for r := 0; r < n; r++ {
			want.cols["s1"].i[r] = got.Ints("s1").Get(r)
		}
		want.same(got, "HashStringsView")
		labels, mapping := da.LabelToInt("s1")
		sym.Assert(len(labels) == n && len(mapping) == n, "LabelToInt")
	case 3:
		v := da.View()
		v.IntToFloats("i2")
		v.BoolToFloats("b1")
		for r := 0; r < n; r++ {
			sym.Assert(v.Floats("i2").Get(r) == float64(a.cols["i2"].i[r]), "IntToFloats")
			sym.Assert(v.Floats("b1").Get(r) == sym.IfFloat(a.cols["b1"].b[r], 1, 0), "BoolToFloats")
		}
	}
	a.same(da, "first frame afterwards")
	b.same(db, "second frame afterwards")
	sym.Cover("done")
}

// G02_Verbose: training tells about its progress without another result.
// sym: steps=3000000
// bound: 1..3 rows of 2 features (one arbitrary among 3 values) and a target, batches of 1..3 rows, 1 or 2 epochs, momentum, weight decay and LowMemory on or off, one random sequence
// cover: done
func G02_Verbose() {
	n := 1 + sym.Choose("n", 3)
	m := &mdl{cols: map[string]*col{"x": newCol(kF, n), "b": newCol(kB, n), "t": newCol(kF, n)}, idx: iota_(n)}
	for r := 0; r < n; r++ {
		m.cols["x"].f[r], m.cols["b"].b[r], m.cols["t"].f[r] = float64(r)-0.5, r == 1, float64(2*r)
	}
	m.cols["x"].f[0] = sym.OneOf("x", -1, 0.5, 3)
	p := algorithms.LinRegTrainParams{Epochs: 1 + sym.Choose("epochs", 2), LR: 0.25, BatchSize: 1 + sym.Choose("batch", 3)}
	if sym.Choose("extras", 2) == 1 {
		p.Momentum, p.WeightDecay = 0.5, 0.125
	}
	p.LowMemory = sym.Choose("low", 2) == 1
	train := func(verbose bool) *algorithms.LinearRegressor {
		df := m.build()
		if verbose && sym.Choose("debug", 2) == 1 {
			df.Debug(true)
		}
		p.Verbose = verbose
		rand.Seed(5)
		reg := algorithms.NewLinearRegressor()
		sym.Assert(reg.Fit(df, "t", p) == nil, "Fit fails")
		m.same(df, "training frame afterwards")
		return reg
	}
	a, b := train(false), train(true)
	sym.Assert(len(a.Weights) == len(b.Weights) && len(a.Features) == len(b.Features), "number of weights")
	for k := range a.Features {
		if a.Features[k] != b.Features[k] {
			return // another order of the features, another meaning of the choices
		}
	}
	for k := range a.Weights {
		sym.Assert(math.Abs(a.Weights[k]-b.Weights[k]) <= 1e-9, "verbose training gives other weights")
	}
	sym.Cover("done")
}
