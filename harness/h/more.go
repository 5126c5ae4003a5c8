package h

import (
	"math"
	"math/rand"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"verifharness/sym"
)

// L02_Epochs: several epochs and features, where the order of the rows does not
// matter.
// sym: steps=60000000
// bound: 9 training rows in one batch of 9, 10 or 64; 1, 3 or 10 features, bools among them, one cell arbitrary among 2 values; 1, 3, 5 or 12 epochs; momentum and weight decay each on or off; with and without LowMemory; a frame or a reversed view
// cover: many one
func L02_Epochs() {
	n := 9
	d := []int{1, 3, 10}[sym.Choose("features", 3)]
	m := &mdl{cols: map[string]*col{"t": newCol(kF, n), "s": newCol(kS, n), "i": newCol(kI, n)}, idx: iota_(n)}
	for k := 0; k < d; k++ {
		c := newCol(kF, n)
		if k%4 == 1 {
			c = newCol(kB, n)
		}
		for r := 0; r < n; r++ {
			if c.k == kF {
				c.f[r] = float64((r*(k+2)+k)%7)/4 - 0.5
			} else {
				c.b[r] = (r+k)%3 == 0
			}
		}
		m.cols["x"+itoa(k)] = c
	}
	for r := 0; r < n; r++ {
		m.cols["t"].f[r] = float64((r * r) % 5)
		m.cols["s"].o[r] = "s"
	}
	m.cols["x0"].f[n-1] = sym.OneOf("x", 0.5, -0.25)
	p := algorithms.LinRegTrainParams{Epochs: []int{1, 3, 5, 12}[sym.Choose("epochs", 4)], LR: 1.0 / 64, LowMemory: sym.Choose("low", 2) == 1}
	p.BatchSize = []int{n, n + 1, 64}[sym.Choose("batch", 3)]
	if sym.Choose("momentum", 2) == 1 {
		p.Momentum = 0.75
	}
	if sym.Choose("decay", 2) == 1 {
		p.WeightDecay = 0.0625
	}
	df := m.build()
	v, vm := df, m
	if sym.Choose("reverse", 2) == 1 {
		v, vm = df.ReverseView(), m.pick(rev(n))
	}
	frozen := p
	frozen.LR, frozen.Momentum, frozen.WeightDecay, frozen.Epochs = 1e-300, 0, 0, 1
	start, reg := train(v, frozen, 3), train(v, p, 3)
	m.same(df, "input")
	sym.Assert(len(reg.Features) == d && len(reg.Weights) == d && len(start.Weights) == d, "number of features")
	for k := 0; k < d; k++ {
		sym.Assert(in("x"+itoa(k), reg.Features), "features")
	}
	x, y := vm.features(reg.Features)
	s := lrState{start.Weights, make([]float64, d)}
	for e := 0; e < p.Epochs; e++ {
		s = s.epoch(x, y, iota_(n), p)
	}
	for k := range reg.Weights {
		sym.Assert(math.Abs(s.w[k]-reg.Weights[k]) <= 1e-9, "weights do not follow the rule")
	}
	if d == 1 {
		sym.Cover("one")
	} else {
		sym.Cover("many")
	}
}

// L02_Shuffled: the rows come in another order in every epoch.
// sym: steps=20000000
// bound: 3 training rows in batches of one, one feature cell arbitrary among 2 values, 8 random sequences, 2 epochs, with and without LowMemory, a frame or a reversed view
// cover: done
func L02_Shuffled() {
	m := &mdl{cols: map[string]*col{"x": {k: kF, f: []float64{-1, 0.5, 2}}, "b": {k: kB, b: []bool{true, false, true}}, "t": {k: kF, f: []float64{0, 4, 1}}}, idx: iota_(3)}
	m.cols["x"].f[1] = sym.OneOf("x", 0.5, 0.75)
	df := m.build()
	if sym.Choose("reverse", 2) == 1 {
		df = df.ReverseView()
	}
	p := algorithms.LinRegTrainParams{Epochs: 2, LR: 0.25, BatchSize: 1, LowMemory: sym.Choose("low", 2) == 1}
	frozen := p
	frozen.LR = 1e-300
	again := true
	firsts := make([]bool, 6) // orders of the first epoch that explain all runs
	for o := range firsts {
		firsts[o] = true
	}
	for seed := int64(1); seed <= 8; seed++ {
		start, reg := train(df, frozen, seed), train(df, p, seed)
		x, y := m.features(reg.Features)
		s := lrState{start.Weights, make([]float64, 2)}
		known := false
		for o, first := range permutations(3) {
			s1 := s.epoch(x, y, first, p)
			any := false
			for o2, second := range permutations(3) {
				s2 := s1.epoch(x, y, second, p)
				fits := math.Abs(s2.w[0]-reg.Weights[0]) <= 1e-9 && math.Abs(s2.w[1]-reg.Weights[1]) <= 1e-9
				any = any || fits
				if o == o2 {
					known = known || fits
				}
			}
			firsts[o] = firsts[o] && any
		}
		again = again && known
	}
	sym.Assert(!again, "no random sequence gives two epochs different orders of the rows")
	for o := range firsts {
		sym.Assert(!firsts[o], "all random sequences give the first epoch the same order of the rows")
	}
	sym.Cover("done")
}

// L01_Many: models of many features.
// sym: steps=20000000
// bound: models of 1, 5 or 12 features in an arbitrary one of three orders, float and bool columns among other columns, 1..3 rows or none, seen through 3 views; one weight and one cell arbitrary among 3 values
// cover: done none
func L01_Many() {
	d := []int{1, 5, 12}[sym.Choose("features", 3)]
	n := 3
	m := &mdl{cols: map[string]*col{"id": {k: kI, i: iota_(n)}, "z": newCol(kF, n), "s": newCol(kS, n)}, idx: iota_(n)}
	reg := &algorithms.LinearRegressor{Weights: make([]float64, d), Features: make([]string, d)}
	for k := 0; k < d; k++ {
		c := newCol(kF, n)
		if k%3 == 1 {
			c = newCol(kB, n)
		}
		for r := 0; r < n; r++ {
			if c.k == kF {
				c.f[r] = float64(r*r+k) - 1.5
			} else {
				c.b[r] = (r+k)%2 == 0
			}
		}
		m.cols["x"+itoa(k)] = c
	}
	m.cols["x0"].f[1] = sym.OneOf("x", -3, 0, 40)
	order := iota_(d)
	switch sym.Choose("order", 3) {
	case 1:
		order = rev(d)
	case 2:
		for k := range order {
			order[k] = (k*5 + 2) % d
		}
		if d == 5 {
			order = []int{2, 0, 4, 1, 3}
		}
	}
	for k, o := range order {
		reg.Features[k], reg.Weights[k] = "x"+itoa(o), float64(k+1)/4
	}
	reg.Weights[d-1] = sym.OneOf("w", -2, 0, 1)
	reg.TargetScaler = preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true})
	sym.Assert(reg.TargetScaler.Fit(newBuilder().AddFloats("t", 0, 4).ToDataFrame()) == nil, "Fit fails")
	df := m.build()
	v, vm := df, m
	switch sym.Choose("view", 4) {
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 2:
		v, vm = df.IndexView([]int{1, 1, 0}), m.pick([]int{1, 1, 0})
	case 3:
		v, vm = df.SliceView(0, 0), m.pick(nil)
		sym.Cover("none")
	}
	got, err := reg.Predict(v, "p")
	sym.Assert(err == nil, "Predict fails")
	m.same(df, "base")
	vm.same(v, "input")
	sym.Assert(got.NumRows() == vm.rows(), "number of rows")
	for j := 0; j < vm.rows(); j++ {
		r := got.Ints("id").Get(j)
		want := 0.0
		for k, o := range order {
			c := m.cols["x"+itoa(o)]
			if c.k == kF {
				want += reg.Weights[k] * c.f[r]
			} else if c.b[r] {
				want += reg.Weights[k]
			}
		}
		sym.Assert(near(got.Floats("p").Get(j), want*2+2), "prediction of a row")
	}
	sameRows(got.NumRows(), got.Ints("id").Get, vm, vm.rows(), "Predict")
	sym.Cover("done")
}

// L02_Names: what a column is called does not matter.
// bound: 3 training rows of one float or bool feature (one cell arbitrary among 2 values), feature and target named x, _target, _target_, scaled, a name with quotes, spaces or none at all; 1..2 epochs, with and without LowMemory
// cover: renamed
func L02_Names() {
	names := []string{"x", "_target", "_target_", "scaled", "a \"b\",c", ""}
	feature, target := names[sym.Choose("feature", 6)], names[sym.Choose("target", 6)]
	sym.Assume(feature != target)
	build := func(f, t string, c *col) *dataframe.DataFrame {
		m := &mdl{cols: map[string]*col{f: c.clone(), t: {k: kF, f: []float64{1, 5, -2}}, "o": {k: kO, o: []interface{}{nil, 1, "x"}}}, idx: iota_(3)}
		return m.build()
	}
	c := &col{k: kB, b: []bool{true, false, sym.Bool("cell")}}
	if sym.Choose("float", 2) == 1 {
		c = &col{k: kF, f: []float64{1, 2, sym.OneOf("cell", -1, 4)}}
	}
	p := algorithms.LinRegTrainParams{Epochs: 1 + sym.Choose("epochs", 2), LR: 0.25, BatchSize: 2, LowMemory: sym.Choose("low", 2) == 1}
	a, b := build("feature", "goal", c), build(feature, target, c)
	ra, rb := algorithms.NewLinearRegressor(), algorithms.NewLinearRegressor()
	rand.Seed(3)
	sym.Assert(ra.Fit(a, "goal", p) == nil, "Fit fails")
	rand.Seed(3)
	sym.Assert(rb.Fit(b, target, p) == nil, "Fit fails")
	sym.Assert(len(rb.Features) == 1 && rb.Features[0] == feature, "the feature")
	sym.Assert(math.Abs(ra.Weights[0]-rb.Weights[0]) <= 1e-9, "the weights depend on the names of the columns")
	pa, err := ra.Predict(a, "p")
	sym.Assert(err == nil, "Predict fails")
	pb, err := rb.Predict(b, "p")
	sym.Assert(err == nil, "Predict fails")
	for j := 0; j < 3; j++ {
		sym.Assert(math.Abs(pa.Floats("p").Get(j)-pb.Floats("p").Get(j)) <= 1e-9, "predictions depend on the names of the columns")
	}
	sym.Cover("renamed")
}

// R01_Wide: columns are read independently of each other.
// sym: steps=20000000
// bound: 3, 50 or 300 rows of 6 columns, of which every other has missing markers (NA, empty or a space) in rows of its own, the others none (but an empty text); values ints, floats, bools, strings in 3 arrangements, one digit arbitrary; 1, 2 or 4 CPUs
// cover: read
func R01_Wide() {
	n := []int{3, 50, 300}[sym.Choose("n", 3)]
	sym.SetNumCPU([]int{1, 2, 4}[sym.Choose("cpu", 3)])
	marker := []string{"NA", "", " "}[sym.Choose("marker", 3)]
	o := dataframe.CSVReadingSpec{MissingValues: []string{"NA", marker}}
	shift := sym.Choose("shift", 3)
	fields := make([][]string, 6)
	text := "c0,c1,c2,c3,c4,c5\n"
	digit := string([]byte{byte(sym.IntRange("digit", '2', '9'))})
	for r := 0; r < n; r++ {
		for c := range fields {
			s := []string{itoa(r + 2), itoa(r) + ".5", "t" + itoa(r)}[(c+shift)%3]
			if s[0] == 't' && r%3 == 1 {
				s = ""
			}
			if c%2 == 0 && r%5 == c/2 {
				s = marker
			}
			if c == 1 && r == n-1 {
				s = digit
			}
			fields[c] = append(fields[c], s)
			text += s + string(",\n"[c/5])
		}
	}
	raw, err := dataframe.FromCSV(strings.NewReader(text), o)
	sym.Assert(err == nil, "a well-formed CSV is rejected")
	df := raw.ToDataFrame()
	sym.Assert(df.NumRows() == n && df.NumColumns() == 6, "shape")
	m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	for c := range fields {
		m.cols["c"+itoa(c)] = csvCol(fields[c], o)
	}
	for c := range fields {
		m.checkCells2(df, "c"+itoa(c), "read")
	}
	sym.Cover("read")
}
