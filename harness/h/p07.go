package h

import (
	"math"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"verifharness/sym"
)

// listed asserts what TransformedColumns promises: each column once, only
// columns of the training frame, every column the transformation changes, and
// no other column is needed for the same result.
func listed(cols []string, transform func(*dataframe.DataFrame) (*dataframe.DataFrame, error), train, m *mdl, df *dataframe.DataFrame, label string) {
	for i, c := range cols {
		sym.Assert(train.cols[c] != nil, label+": a column is listed that was not there in training")
		for j := 0; j < i; j++ {
			sym.Assert(cols[j] != c, label+": a column is listed twice")
		}
	}
	got, err := transform(df)
	sym.Assert(err == nil, label+": transformation fails")
	var pass []string
	for _, c := range m.names() {
		if !in(c, cols) {
			pass = append(pass, c)
			sym.Assert(got.Header().NameSet()[c], label+": a column that is not listed is gone")
		}
	}
	if len(pass) > 0 {
		m.checkCells(got, label+": a column that is not listed", pass...)
	}
	if len(cols) == 0 {
		return
	}
	alone, err := transform(df.ColumnView(cols...))
	sym.Assert(err == nil, label+": transformation of the listed columns fails")
	var rest []string
	for _, c := range got.Header().NameList() {
		if !in(c, pass) {
			rest = append(rest, c)
		}
	}
	if len(rest) == 0 {
		sym.Assert(alone.NumColumns() == 0, label+": listed columns alone")
		return
	}
	sameFrames(got.ColumnView(rest...), alone, label+": listed columns alone")
}

// P07_Lists: what the preprocessors say they use.
// sym: steps=3000000
// bound: 2 rows (thorough 1..3), every column mix, a float cell arbitrary among missing and 2 values, a column with missing values only, constant or not; Scaler with 6 options, FloatImputer, HashEncoder, OneHotEncoder with and without KeepUsedColumns, AutoPreprocessor with every option and 8 exclusion lists, trained on all or some of the columns, as fitted or read back
// cover: scaler imputer hash onehot auto
func P07_Lists() {
	n := 2
	if sym.Tier() == 1 {
		n = 1 + sym.Choose("n", 3)
	}
	m := mixedFrame(n, sym.Choose("floats", 2) == 1, sym.Choose("strings", 2) == 1, sym.Choose("ints", 2) == 1)
	if m.cols["t"] != nil {
		k := sym.Choose("column", 3)
		for r := range m.cols["t"].f {
			switch k {
			case 1:
				m.cols["t"].f[r] = math.NaN()
			case 2:
				m.cols["t"].f[r] = 3
			}
		}
	}
	df := m.build()
	tdf, train := df, m
	if sym.Choose("subset", 2) == 1 {
		tdf, train = df.ColumnView("x", "s2", "i1", "b"), m.only("x", "s2", "i1", "b")
	}
	want := func(cols []string, k kind, except ...string) {
		num := 0
		for _, c := range train.names() {
			if train.cols[c].k == k && !in(c, except) {
				num++
				sym.Assert(in(c, cols), "a column that is used is not listed")
			}
		}
		sym.Assert(len(cols) == num, "number of columns listed")
	}
	inplace := func(f func(*dataframe.DataFrame) error) func(*dataframe.DataFrame) (*dataframe.DataFrame, error) {
		return func(v *dataframe.DataFrame) (*dataframe.DataFrame, error) {
			d := v.DetachedView()
			return d, f(d)
		}
	}
	again := sym.Choose("again", 2) == 1
	switch sym.Choose("what", 5) {
	case 0:
		o := scalerOptions()
		s := preprocessing.NewScaler(o)
		sym.Assert(s.Fit(tdf) == nil, "Fit fails")
		if again {
			t := new(preprocessing.Scaler)
			sym.Assert(sym.JSONRoundTrip(s, t), "Scaler cannot be serialized")
			s = t
		}
		if o.Centering || o.Scaling || o.MinMax {
			want(s.TransformedColumns(), kF)
		}
		listed(s.TransformedColumns(), inplace(s.TransformInplace), train, m, df, "Scaler")
		listed(s.TransformedColumns(), inplace(s.InverseTransformInplace), train, m, df, "inverse Scaler")
		sym.Cover("scaler")
	case 1:
		s := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.Mean})
		sym.Assert(s.Fit(tdf) == nil, "Fit fails")
		if again {
			t := new(preprocessing.FloatImputer)
			sym.Assert(sym.JSONRoundTrip(s, t), "FloatImputer cannot be serialized")
			s = t
		}
		want(s.TransformedColumns(), kF)
		listed(s.TransformedColumns(), inplace(s.TransformInplace), train, m, df, "FloatImputer")
		sym.Cover("imputer")
	case 2:
		s := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		sym.Assert(s.Fit(tdf) == nil, "Fit fails")
		if again {
			t := new(preprocessing.HashEncoder)
			sym.Assert(sym.JSONRoundTrip(s, t), "HashEncoder cannot be serialized")
			s = t
		}
		want(s.TransformedColumns(), kS)
		listed(s.TransformedColumns(), s.TransformView, train, m, df, "HashEncoder")
		sym.Cover("hash")
	case 3:
		s := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{KeepUsedColumns: sym.Choose("keep", 2) == 1, MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SharedSeparateCategory})
		sym.Assert(s.Fit(tdf) == nil, "Fit fails")
		if again {
			t := new(preprocessing.OneHotEncoder)
			sym.Assert(sym.JSONRoundTrip(s, t), "OneHotEncoder cannot be serialized")
			s = t
		}
		want(s.TransformedColumns(), kI)
		listed(s.TransformedColumns(), s.TransformView, train, m, df, "OneHotEncoder")
		sym.Cover("onehot")
	case 4:
		o := autoOptions()
		s := preprocessing.NewAutoPreprocessor(o)
		if sym.Choose("one", 2) == 1 {
			s.FitTransform(tdf)
		} else {
			sym.Assert(s.Fit(tdf) == nil, "Fit fails")
		}
		if again {
			t := new(preprocessing.AutoPreprocessor)
			sym.Assert(sym.JSONRoundTrip(s, t), "AutoPreprocessor cannot be serialized")
			s = t
		}
		for _, c := range s.TransformedColumns() {
			sym.Assert(!in(c, o.Exclude), "an excluded column is listed")
		}
		listed(s.TransformedColumns(), s.TransformView, train, m, df, "AutoPreprocessor")
		sym.Cover("auto")
	}
}
