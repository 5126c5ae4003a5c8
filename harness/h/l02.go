package h

import (
	"math"
	"math/rand"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// permutations lists all orders of 0..n-1.
func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range permutations(n - 1) {
		for k := 0; k <= len(p); k++ {
			q := append([]int(nil), p[:k]...)
			q = append(q, n-1)
			r = append(r, append(q, p[k:]...))
		}
	}
	return r
}

// lrState is the weights and the previous gradients.
type lrState struct{ w, prev []float64 }

// epoch is the documented training rule for one order of the rows.
func (s lrState) epoch(x [][]float64, y []float64, order []int, p algorithms.LinRegTrainParams) lrState {
	w, prev := append([]float64(nil), s.w...), append([]float64(nil), s.prev...)
	for at := 0; at < len(order); at += p.BatchSize {
		g := make([]float64, len(w))
		for _, r := range order[at:min(at+p.BatchSize, len(order))] {
			d := -y[r]
			for k := range w {
				d += w[k] * x[r][k]
			}
			for k := range w {
				g[k] += d * x[r][k]
			}
		}
		for k := range w {
			g[k] += p.Momentum * prev[k]
			prev[k] = g[k]
			w[k] = (w[k] - p.LR*g[k]) * (1 - p.WeightDecay)
		}
	}
	return lrState{w, prev}
}

// follows tells whether the weights are what the rule gives for some order of
// the rows in every epoch.
func follows(s lrState, got []float64, x [][]float64, y []float64, p algorithms.LinRegTrainParams, epochs int) bool {
	if epochs == 0 {
		ok := true
		for k := range got {
			ok = sym.And(ok, math.Abs(got[k]-s.w[k]) <= 1e-9)
		}
		return ok
	}
	ok := false
	for _, order := range permutations(len(y)) {
		ok = sym.Or(ok, follows(s.epoch(x, y, order, p), got, x, y, p, epochs-1))
	}
	return ok
}

// lrModel has features x (arbitrary) and b, target t, and columns that are no
// features.
func lrModel(n int) *mdl {
	m := &mdl{cols: map[string]*col{"x": newCol(kF, n), "b": newCol(kB, n), "t": newCol(kF, n), "i": newCol(kI, n), "s": newCol(kS, n)}, idx: iota_(n)}
	for r := 0; r < n; r++ {
		m.cols["x"].f[r] = sym.OneOf("x", -1, 0.5)
		m.cols["b"].b[r] = r != 1
		m.cols["t"].f[r] = []float64{0, 4, 2}[r]
		m.cols["i"].i[r] = 7 + r
		m.cols["s"].o[r] = "s"
	}
	return m
}

// features are the rows of vm as the model sees them, in the order of names,
// and the scaled targets.
func (m *mdl) features(names []string) (x [][]float64, y []float64) {
	mean, sq := 0.0, 0.0
	n := float64(m.rows())
	for _, r := range m.idx {
		mean += m.cols["t"].f[r] / n
	}
	for _, r := range m.idx {
		d := m.cols["t"].f[r] - mean
		sq += d * d / n
	}
	for _, r := range m.idx {
		var row []float64
		for _, name := range names {
			if c := m.cols[name]; c != nil && c.k == kF {
				row = append(row, c.f[r])
			} else if c != nil && c.k == kB {
				row = append(row, sym.IfFloat(c.b[r], 1, 0))
			}
		}
		x = append(x, row)
		y = append(y, (m.cols["t"].f[r]-mean)/math.Sqrt(sq))
	}
	return
}

// train fits from scratch with the random choices of the given seed.
func train(df *dataframe.DataFrame, p algorithms.LinRegTrainParams, seed int64) *algorithms.LinearRegressor {
	rand.Seed(seed)
	reg := algorithms.NewLinearRegressor()
	sym.Assert(reg.Fit(df, "t", p) == nil, "Fit fails")
	return reg
}

// L02_Rule: the weights after training follow the documented rule.
// sym: steps=5000000
// bound: 2 or 3 training rows (features x arbitrary among 2 values, and a bool), seen through a frame or a reversed or repeating view, initial weights arbitrary among 3 values each, every shuffle, batches of 1..4 rows, 1 or 2 epochs (2 epochs with 2 rows only), momentum and weight decay on or off, with and without LowMemory
// cover: momentum two
func L02_Rule() {
	n := 2 + sym.Choose("n", 2)
	epochs := 1
	if n == 2 {
		epochs += sym.Choose("epochs", 2)
	}
	m := lrModel(n)
	df := m.build()
	v, vm := df, m
	switch sym.Choose("view", 3) {
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 2:
		if n == 2 && epochs == 1 {
			v, vm = df.IndexView([]int{0, 1, 0}), m.pick([]int{0, 1, 0})
		}
	}
	p := algorithms.LinRegTrainParams{Epochs: epochs, LR: 0.25, BatchSize: 1 + sym.Choose("batch", 4), LowMemory: sym.Choose("low", 2) == 1}
	switch sym.Choose("extra", 3) {
	case 1:
		p.Momentum = 0.5
		sym.Cover("momentum")
	case 2:
		p.Momentum, p.WeightDecay = 0.25, 0.125
	}
	before, fv := m.freeze(), vm.freeze()
	sym.SymbolicRand(true)
	frozen := p
	frozen.LR, frozen.Epochs, frozen.Momentum, frozen.WeightDecay = 1e-300, 1, 0, 0
	start := train(v, frozen, 3)
	reg := train(v, p, 3)
	sym.SymbolicRand(false)
	before.check(df, "backing frame after Fit")
	fv.check(v, "input after Fit")
	sym.Assert(len(reg.Features) == 2 && len(reg.Weights) == 2, "number of features")
	sym.Assert(in("x", reg.Features) && in("b", reg.Features), "features")
	x, y := fv.features(reg.Features)
	s := lrState{start.Weights, make([]float64, len(reg.Weights))}
	sym.Assert(follows(s, reg.Weights, x, y, p, epochs), "weights do not follow the rule for any order of the rows")
	if epochs == 2 {
		sym.Cover("two")
	}
	// scaling of the target
	got, err := reg.Predict(v, "p")
	sym.Assert(err == nil, "Predict fails")
	sym.Assert(got.NumRows() == vm.rows(), "Predict: number of rows")
}

// L02_Batches: batches of the given size, the last one smaller.
// sym: steps=20000000
// bound: 4 or 5 training rows of distinct features and targets, batches of 1..6 rows, every shuffle and initial weights arbitrary among 3 values each (5 rows, quick: one random sequence), one epoch, with and without LowMemory, momentum on or off
// cover: rest
func L02_Batches() {
	n := 4 + sym.Choose("n", 2)
	m := &mdl{cols: map[string]*col{"x": {k: kF, f: []float64{-1, 0.5, 2, -0.25, 1}[:n]}, "b": {k: kB, b: []bool{true, false, true, true, false}[:n]}, "t": {k: kF, f: []float64{0, 4, 2, -3, 1}[:n]}}, idx: iota_(n)}
	df := m.build()
	p := algorithms.LinRegTrainParams{Epochs: 1, LR: 0.25, BatchSize: 1 + sym.Choose("batch", 6), LowMemory: sym.Choose("low", 2) == 1}
	if sym.Choose("momentum", 2) == 1 {
		p.Momentum = 0.5
	}
	if p.BatchSize < n && n%p.BatchSize > 0 {
		sym.Cover("rest")
	}
	sym.SymbolicRand(n == 4 || sym.Tier() == 1)
	frozen := p
	frozen.LR, frozen.Momentum = 1e-300, 0
	start := train(df, frozen, 3)
	reg := train(df, p, 3)
	sym.SymbolicRand(false)
	x, y := m.features(reg.Features)
	s := lrState{start.Weights, make([]float64, len(reg.Weights))}
	sym.Assert(follows(s, reg.Weights, x, y, p, 1), "weights do not follow the rule for any order of the rows")
}

// L02_LowMemory: the same initial weights give the same weights where the order
// of the rows does not matter.
// sym: steps=3000000
// bound: 2 training rows in one batch, 1 feature arbitrary among 2 values and a bool, every shuffle and initial weight, 2 epochs
// cover: done
func L02_LowMemory() {
	m := lrModel(2)
	p := algorithms.LinRegTrainParams{Epochs: 2, LR: 0.25, BatchSize: 2 + sym.Choose("batch", 2), Momentum: 0.5}
	v := m.build()
	if sym.Choose("view", 2) == 1 {
		v = v.ReverseView()
	}
	sym.SymbolicRand(true)
	a := train(v, p, 5)
	p.LowMemory = true
	b := train(v, p, 5)
	sym.SymbolicRand(false)
	sym.Assert(len(a.Weights) == len(b.Weights), "number of weights")
	for k := range a.Weights {
		if a.Features[k] != b.Features[k] {
			return // another order of the features, another meaning of the choices
		}
	}
	for k := range a.Weights {
		sym.Assert(math.Abs(a.Weights[k]-b.Weights[k]) <= 1e-9, "LowMemory gives other weights")
	}
	sym.Cover("done")
}

// L02_Defaults: hyper-parameters left to zero, features of any name.
// bound: 2 training rows, every subset of Epochs, LR and BatchSize left to 0, a feature named "_target" or not, also as target
// cover: done
func L02_Defaults() {
	m := lrModel(2)
	m.cols["u"] = m.cols["b"].clone()
	p := algorithms.LinRegTrainParams{}
	if sym.Choose("epochs", 2) == 1 {
		p.Epochs = 2
	}
	if sym.Choose("lr", 2) == 1 {
		p.LR = 0.25
	}
	if sym.Choose("batch", 2) == 1 {
		p.BatchSize = 2
	}
	target := "t"
	switch sym.Choose("name", 4) {
	case 1:
		m.rename("x", "_target")
	case 2:
		m.rename("t", "_target")
		target = "_target"
	case 3:
		m.rename("b", "_target")
	}
	df := m.build()
	reg := algorithms.NewLinearRegressor()
	before := m.freeze()
	sym.Assert(reg.Fit(df, target, p) == nil, "Fit fails")
	before.check(df, "input after Fit")
	sym.Assert(len(reg.Features) == 3, "number of features")
	sym.Assert(!in(target, reg.Features), "the target is a feature")
	for _, w := range reg.Weights {
		sym.Assert(!math.IsNaN(w), "a weight is not a number")
		sym.Assert(!math.IsInf(w, 0), "a weight is not a number")
	}
	if p.Epochs == 0 || p.LR == 0 || p.BatchSize == 0 {
		// usable defaults: training changes the weights
		frozen := algorithms.LinRegTrainParams{Epochs: 1, LR: 1e-300, BatchSize: 1}
		rand.Seed(1)
		a := algorithms.NewLinearRegressor()
		sym.Assert(a.Fit(df, target, p) == nil, "Fit fails")
		rand.Seed(1)
		b := algorithms.NewLinearRegressor()
		sym.Assert(b.Fit(df, target, frozen) == nil, "Fit fails")
		moved := false
		for k := range a.Weights {
			moved = sym.Or(moved, a.Weights[k] != b.Weights[k])
		}
		sym.Assert(moved, "default hyper-parameters do not train")
	}
	sym.Cover("done")
}
