package h

import (
	"math"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"verifharness/sym"
)

// sameFrames compares two frames column by column.
func sameFrames(a, b *dataframe.DataFrame, label string) {
	sym.Assert(a.NumRows() == b.NumRows(), label+": number of rows")
	sym.Assert(hasExactly(a.FloatHeader(), b.FloatHeader().NameList()), label+": float columns")
	sym.Assert(hasExactly(a.IntHeader(), b.IntHeader().NameList()), label+": int columns")
	sym.Assert(hasExactly(a.BoolHeader(), b.BoolHeader().NameList()), label+": bool columns")
	sym.Assert(hasExactly(a.StringHeader(), b.StringHeader().NameList()), label+": string columns")
	sym.Assert(hasExactly(a.ObjectHeader(), b.ObjectHeader().NameList()), label+": object columns")
	ok := true
	for j := 0; j < a.NumRows(); j++ {
		for _, c := range a.FloatHeader().NameList() {
			ok = sym.And(ok, sym.Same(a.Floats(c).Get(j), b.Floats(c).Get(j)))
		}
		for _, c := range a.IntHeader().NameList() {
			ok = sym.And(ok, a.Ints(c).Get(j) == b.Ints(c).Get(j))
		}
		for _, c := range a.BoolHeader().NameList() {
			ok = sym.And(ok, a.Bools(c).Get(j) == b.Bools(c).Get(j))
		}
		for _, c := range a.ObjectHeader().NameList() {
			ok = sym.And(ok, sameObj(a.Objects(c).Get(j), b.Objects(c).Get(j)))
		}
	}
	sym.Assert(ok, label+": cells")
}

// P05_Scaler: any fitted scaler.
// bound: 1..3 training rows (0..3 thorough), cells arbitrary among missing, -2, 0.5, 0.1 (thorough also 3 and 1024), 6 option combinations, 2 rows of arbitrary cells transformed and inverted
// cover: all
func P05_Scaler() {
	n := 1 + sym.Choose("n", 3)
	x := numbers("x", n)
	train := floatFrame(x).build()
	s := preprocessing.NewScaler(scalerOptions())
	sym.Assert(s.Fit(train) == nil, "Fit fails")
	var t preprocessing.Scaler
	sym.Assert(sym.JSONRoundTrip(s, &t), "Scaler cannot be serialized")
	m := floatFrame([]float64{sym.OneOf("v", math.NaN(), -1, 0, 6), 2})
	a, b := m.build(), m.build()
	sym.Assert(s.TransformInplace(a) == nil, "TransformInplace fails")
	sym.Assert(t.TransformInplace(b) == nil, "TransformInplace fails after serialization")
	sameFrames(a, b, "Scaler")
	sym.Assert(s.InverseTransformInplace(a) == nil, "InverseTransformInplace fails")
	sym.Assert(t.InverseTransformInplace(b) == nil, "InverseTransformInplace fails after serialization")
	sameFrames(a, b, "inverse Scaler")
	sym.Assert(len(t.TransformedColumns()) == len(s.TransformedColumns()), "Scaler: columns")
	for _, c := range s.TransformedColumns() {
		sym.Assert(in(c, t.TransformedColumns()), "Scaler: columns")
	}
	if math.IsNaN(x[0]) && n == 1 {
		sym.Cover("all")
	}
}

// P05_Imputer: any fitted imputer.
// bound: 1..3 training rows, cells arbitrary among missing, -2, 0.5, 0.1 (thorough also 3 and 1024), all policies, 2 rows of arbitrary cells transformed
// cover: all
func P05_Imputer() {
	n := 1 + sym.Choose("n", 3)
	x := numbers("x", n)
	train := floatFrame(x).build()
	policy := []preprocessing.ImputingPolicy{preprocessing.Mean, preprocessing.Zero, preprocessing.One}[sym.Choose("policy", 3)]
	s := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: policy})
	sym.Assert(s.Fit(train) == nil, "Fit fails")
	var t preprocessing.FloatImputer
	sym.Assert(sym.JSONRoundTrip(s, &t), "FloatImputer cannot be serialized")
	m := floatFrame([]float64{sym.OneOf("v", math.NaN(), -1), math.NaN()})
	a, b := m.build(), m.build()
	sym.Assert(s.TransformInplace(a) == nil, "TransformInplace fails")
	sym.Assert(t.TransformInplace(b) == nil, "TransformInplace fails after serialization")
	sameFrames(a, b, "FloatImputer")
	if math.IsNaN(x[0]) && n == 1 {
		sym.Cover("all")
	}
}

// P05_Encoders: any fitted HashEncoder and OneHotEncoder.
// sym: steps=3000000
// bound: 0..2 training rows (thorough 3) of arbitrary ints, every pair of policies, KeepUsedColumns or not, 2 rows transformed: one arbitrary int and one missing value; strings of 0..1 arbitrary bytes or missing
// cover: error empty
func P05_Encoders() {
	n := sym.Choose("n", sym.Quick(3, 4))
	m := &mdl{cols: map[string]*col{"c": newCol(kI, n), "s": newCol(kS, n)}, idx: iota_(n)}
	for r := 0; r < n; r++ {
		m.cols["c"].i[r] = sym.Int("x")
	}
	later := &mdl{cols: map[string]*col{"c": newCol(kI, 2), "s": newCol(kS, 2), "b": newCol(kB, 2)}, idx: iota_(2)}
	later.cols["c"].i[0], later.cols["c"].i[1] = sym.Int("v"), -1
	df := m.build()
	if sym.Choose("hash", 2) == 1 {
		later.cols["s"].o[0] = sym.Bytes("s", sym.Choose("len", 2))
		e := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		sym.Assert(e.Fit(df) == nil, "Fit fails")
		var t preprocessing.HashEncoder
		sym.Assert(sym.JSONRoundTrip(e, &t), "HashEncoder cannot be serialized")
		a, err := e.TransformView(later.build())
		sym.Assert(err == nil, "TransformView fails")
		b, err := t.TransformView(later.build())
		sym.Assert(err == nil, "TransformView fails after serialization")
		sameFrames(a, b, "HashEncoder")
		return
	}
	e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: policies[sym.Choose("missing", 5)], UnknownPolicy: policies[sym.Choose("unknown", 5)], KeepUsedColumns: sym.Choose("keep", 2) == 1})
	sym.Assert(e.Fit(df) == nil, "Fit fails")
	var t preprocessing.OneHotEncoder
	sym.Assert(sym.JSONRoundTrip(e, &t), "OneHotEncoder cannot be serialized")
	in := later.build()
	if sym.Choose("view", 2) == 1 {
		in = in.SliceView(0, 1)
	}
	a, err := e.TransformView(in)
	b, err2 := t.TransformView(in)
	sym.Assert((err == nil) == (err2 == nil), "OneHotEncoder: error")
	if err != nil {
		sym.Cover("error")
	} else if a != nil && b != nil {
		sameFrames(a, b, "OneHotEncoder")
	}
	if n == 0 {
		sym.Cover("empty")
	}
}

// P05_Auto: any fitted AutoPreprocessor.
// sym: steps=3000000
// bound: 2 training rows, every column mix, options, 8 exclusion lists, cells as in P06_Auto, transforming the training frame and a reversed view of it
// cover: done
func P05_Auto() {
	n := 2
	m := mixedFrame(n, sym.Choose("floats", 2) == 1, sym.Choose("strings", 2) == 1, sym.Choose("ints", 2) == 1)
	df := m.build()
	p := preprocessing.NewAutoPreprocessor(autoOptions())
	sym.Assert(p.Fit(df) == nil, "Fit fails")
	t := &preprocessing.AutoPreprocessor{}
	sym.Assert(sym.JSONRoundTrip(p, t), "AutoPreprocessor cannot be serialized")
	v := df
	if sym.Choose("view", 2) == 1 {
		v = df.ReverseView()
	}
	a, err := p.TransformView(v)
	sym.Assert(err == nil, "TransformView fails")
	b, err := t.TransformView(v)
	sym.Assert(err == nil, "TransformView fails after serialization")
	sameFrames(a, b, "AutoPreprocessor")
	sym.Cover("done")
}

// P05_LinearRegressor: any trained model.
// bound: 2 training rows, features x (arbitrary among 3 values), y and b, target t constant or not, predicting 2 rows of arbitrary cells
// cover: done
func P05_LinearRegressor() {
	m := &mdl{cols: map[string]*col{"x": newCol(kF, 2), "y": newCol(kF, 2), "b": newCol(kB, 2), "t": newCol(kF, 2)}, idx: iota_(2)}
	for r := 0; r < 2; r++ {
		m.cols["x"].f[r] = sym.OneOf("x", -1, 0.5, 2)
		m.cols["y"].f[r] = float64(r)
		m.cols["b"].b[r] = r == 0
		m.cols["t"].f[r] = float64(3 * r)
	}
	if sym.Choose("constant", 2) == 1 {
		m.cols["t"].f[1] = 0
	}
	reg := algorithms.NewLinearRegressor()
	sym.Assert(reg.Fit(m.build(), "t", algorithms.LinRegTrainParams{Epochs: sym.Choose("epochs", 2) + 1, BatchSize: 2, LR: 0.5}) == nil, "Fit fails")
	var t algorithms.LinearRegressor
	sym.Assert(sym.JSONRoundTrip(reg, &t), "LinearRegressor cannot be serialized")
	for r := 0; r < 2; r++ {
		m.cols["x"].f[r] = sym.OneOf("later", -1, 0, 4)
	}
	df := m.build()
	a, err := reg.Predict(df, "p")
	sym.Assert(err == nil, "Predict fails")
	b, err := t.Predict(df, "p")
	sym.Assert(err == nil, "Predict fails after serialization")
	sameFrames(a, b, "LinearRegressor")
	sym.Cover("done")
}
