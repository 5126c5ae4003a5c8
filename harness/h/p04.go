package h

import (
	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"verifharness/sym"
)

// passModel is newModel with cells that preprocessors can handle: the strings
// and ints are arbitrary among a few (quick: fixed but for one int).
func passModel(n int) *mdl {
	m := newModel("", n)
	for r := 0; r < n; r++ {
		m.cols["f1"].f[r] = sym.OneOf("f1", -1, 2, 8)
		m.cols["i1"].i[r] = 3
		if r == 0 || sym.Tier() == 1 {
			m.cols["i1"].i[r] = sym.IntRange("i1", -1, 0)
		}
		m.cols["s1"].o[r] = []interface{}{nil, "u", "v"}[(r+1)%3]
		if sym.Tier() == 1 && r == 0 {
			m.cols["s1"].o[r] = []interface{}{nil, "u", "v"}[sym.Choose("s1", 3)]
		}
	}
	return m
}

// P04_Transform: a transformation of any view leaves everything else alone.
// sym: steps=3000000
// bound: 2 backing rows (thorough 0..2), all column types, all view kinds (thorough: and a view of them), HashEncoder, OneHotEncoder and AutoPreprocessor trained on all or on some of the columns, each with every option, then a change to the result
// cover: subset
func P04_Transform() {
	n := 2
	if sym.Tier() == 1 {
		n = sym.Choose("n", 3)
	}
	m := passModel(n)
	df := m.build()
	v1, m1 := rowOp(df, m, "v1")
	sib := v1.View()
	v, vm := v1, m1
	if sym.Tier() == 1 && sym.Choose("deep", 2) == 1 {
		v, vm = v1.View(), m1.view()
	}
	before, fm1, fv := m.freeze(), m1.freeze(), vm.freeze()
	train := df
	used := []string{"f1", "f2", "i1", "i2", "s1"}
	subset := sym.Choose("subset", 4)
	switch subset {
	case 1:
		used = []string{"f1", "i1", "s1"}
	case 2:
		used = []string{"b1", "o1"}
	case 3:
		used = []string{"f1", "i1"}
	}
	if subset > 0 {
		train = df.ColumnView(used...)
		sym.Cover("subset")
	}
	unchanged := func(label string) {
		before.check(df, "backing frame "+label)
		fm1.check(v1, "frame the view was taken from "+label)
		fm1.check(sib, "sibling view "+label)
		fv.check(v, "input "+label)
	}
	var got *dataframe.DataFrame
	var err error
	changed := map[string]bool{}
	switch sym.Choose("what", 4) {
	case 0:
		e := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		sym.Assert(e.Fit(train) == nil, "Fit fails")
		unchanged("after Fit")
		got, err = e.TransformView(v)
		changed["s1"] = in("s1", used)
	case 1:
		keep := sym.Choose("keep", 2) == 1
		p := policies[sym.Choose("policy", 4)]
		e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{KeepUsedColumns: keep, MissingPolicy: p, UnknownPolicy: preprocessing.SharedSeparateCategory})
		sym.Assert(e.Fit(train) == nil, "Fit fails")
		unchanged("after Fit")
		got, err = e.TransformView(v)
		changed["i1"], changed["i2"] = !keep && in("i1", used), !keep && in("i2", used)
	case 2:
		o := preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true}
		if sym.Choose("float", 2) == 0 {
			o = preprocessing.AutoPreprocOptions{}
		}
		p := preprocessing.NewAutoPreprocessor(o)
		sym.Assert(p.Fit(train) == nil, "Fit fails")
		unchanged("after Fit")
		got, err = p.TransformView(v)
		changed["s1"], changed["f1"], changed["f2"] = in("s1", used), o.Scaling && in("f1", used), o.Scaling && in("f2", used)
		if !in("s1", used) && in("i1", used) {
			// without strings, ints are flagged
			changed["i1"] = got != nil && !got.IntHeader().NameSet()["i1"]
		}
	case 3:
		p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Scaling: true, Exclude: []string{"s1", "f2"}})
		sym.Assert(p.Fit(train) == nil, "Fit fails")
		unchanged("after Fit")
		got, err = p.TransformView(v)
		changed["f1"] = in("f1", used)
		// all strings are excluded: ints are either flagged or left alone
		changed["i1"], changed["i2"] = got != nil && !got.IntHeader().NameSet()["i1"], got != nil && !got.IntHeader().NameSet()["i2"]
	}
	sym.Assert(err == nil, "TransformView fails")
	unchanged("after TransformView")
	sym.Assert(got != nil && got.NumRows() == vm.rows(), "number of rows")
	var pass []string
	for _, name := range vm.names() {
		if !changed[name] {
			pass = append(pass, name)
			set := got.FloatHeader().NameSet()
			switch vm.cols[name].k {
			case kI:
				set = got.IntHeader().NameSet()
			case kB:
				set = got.BoolHeader().NameSet()
			case kS:
				set = got.StringHeader().NameSet()
			case kO:
				set = got.ObjectHeader().ExceptHeader(got.StringHeader()).NameSet()
			}
			sym.Assert(set[name], "a column that is not transformed is gone")
		}
	}
	fv.checkCells(got, "columns that are not transformed", pass...)
	// structure and transformed cells of the result are its own
	then := 0
	if subset < 2 {
		then = sym.Choose("then", 3)
	}
	switch then {
	case 0:
		got.Drop("f2", "o1", "i1", "s1")
	case 1:
		if got.NumRows() > 0 {
			if changed["f1"] {
				got.Floats("f1").Set(0, 1234)
			}
			for _, c := range got.BoolHeader().Except("b1").NameList() {
				got.Bools(c).Set(0, true)
			}
			if got.IntHeader().NameSet()["s1"] {
				got.Ints("s1").Set(0, 1234)
			}
		}
	case 2:
		got.Rename("b1", "fresh")
		got.AllocStrings("o1")
	}
	unchanged("after a change to the result")
}

// P04_Fit: fitting anything leaves its input alone.
// sym: steps=3000000
// bound: 2 backing rows (thorough 1..3), all column types, all view kinds; Scaler, FloatImputer, LinearRegressor; HashEncoder, OneHotEncoder and AutoPreprocessor also by FitTransform
// cover: done
func P04_Fit() {
	n := 2
	if sym.Tier() == 1 {
		n = 1 + sym.Choose("n", 3)
	}
	m := passModel(n)
	df := m.build()
	v1, m1 := rowOp(df, m, "v1")
	v, vm := anyView(v1, m1, "v")
	if vm.rows() == 0 || vm.cols["f2"] == nil {
		return
	}
	sib, fs := v.View(), vm.freeze()
	before, fm1 := m.freeze(), m1.freeze()
	var err error
	switch sym.Choose("what", 4) {
	case 0:
		err = preprocessing.NewScaler(scalerOptions()).Fit(v)
	case 1:
		err = preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.Mean}).Fit(v)
	case 2:
		err = algorithms.NewLinearRegressor().Fit(v, []string{"f1", "f2"}[sym.Choose("target", 2)], algorithms.LinRegTrainParams{Epochs: 1, BatchSize: 1, LR: 0.25, LowMemory: sym.Choose("low", 2) == 1})
	case 3:
		got := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true}).FitTransform(v)
		sym.Assert(got.NumRows() == vm.rows(), "FitTransform: number of rows")
	}
	sym.Assert(err == nil, "Fit fails")
	before.check(df, "backing frame after Fit")
	fm1.check(v1, "frame the view was taken from after Fit")
	fs.check(v, "input after Fit")
	fs.check(sib, "sibling view after Fit")
	sym.Cover("done")
}
