package h

import (
	"math"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"verifharness/sym"
)

// mixedFrame has float columns x, y, t, a bool column, an object column and,
// where asked, string columns s1, s2 and int columns i1, i2.
func mixedFrame(n int, floats, strings, ints bool) *mdl {
	m := &mdl{cols: map[string]*col{"b": newCol(kB, n), "o": newCol(kO, n)}, idx: iota_(n)}
	add := func(name string, k kind) *col {
		m.cols[name] = newCol(k, n)
		return m.cols[name]
	}
	for r := 0; r < n; r++ {
		m.cols["b"].b[r] = sym.Bool("b")
		m.cols["o"].o[r] = 100 + r
	}
	if floats {
		x, y, t := add("x", kF), add("y", kF), add("t", kF)
		for r := 0; r < n; r++ {
			x.f[r] = sym.OneOf("x", math.NaN(), -1, 2, 8)
			y.f[r] = []float64{math.NaN(), 4, 0.5, 6}[r]
			t.f[r] = []float64{1, math.NaN(), -1, 2}[r]
		}
	}
	if strings {
		s1, s2 := add("s1", kS), add("s2", kS)
		for r := 0; r < n; r++ {
			// quick: only the first row is arbitrary
			k := 1
			if r < sym.Quick(1, n) {
				k = sym.Choose("s1", 3)
			}
			s1.o[r] = []interface{}{nil, "u", "v"}[k]
			s2.o[r] = []string{"p", "q", "p", "r"}[r]
		}
	}
	if ints {
		i1, i2 := add("i1", kI), add("i2", kI)
		for r := 0; r < n; r++ {
			i1.i[r] = sym.IntRange("i1", -1, sym.Quick(0, 1))
			i2.i[r] = []int{7, 7, 9, -1}[r]
		}
	}
	return m
}

func in(name string, list []string) bool {
	for _, x := range list {
		if x == name {
			return true
		}
	}
	return false
}

// isFlags tells whether the new bool columns of got are, row by row, one flag
// per categorical column, equal exactly where the values are equal.
// ids[k] are the values of the k-th categorical column, row by row.
func checkFlags(got *dataframe.DataFrame, old []string, ids [][]int, label string) {
	var fresh []string
	for _, c := range sorted(got.BoolHeader().NameList()) {
		if !in(c, old) {
			fresh = append(fresh, c)
		}
	}
	var fs [][]string
	for j := 0; j < got.NumRows(); j++ {
		f := flags(got, j, fresh)
		sym.Assert(len(f) == len(ids), label+": not one flag per categorical column")
		for i, g := range fs {
			same, eq := 0, 0
			for _, a := range f {
				if in(a, g) {
					same++
				}
			}
			for _, id := range ids {
				eq += sym.IfInt(id[i] == id[j], 1, 0)
			}
			sym.Assert(same == eq, label+": flags do not tell the categories apart")
		}
		fs = append(fs, f)
	}
}

// ids numbers the cells of a string or int column.
func (m *mdl) ids(name string) []int {
	c := m.cols[name]
	var r []int
	for _, k := range m.idx {
		if c.k == kI {
			r = append(r, c.i[k])
			continue
		}
		id := -1
		if c.o[k] != nil {
			id = int(c.o[k].(string)[0])
		}
		r = append(r, id)
	}
	return r
}

func autoOptions() (o preprocessing.AutoPreprocOptions) {
	switch sym.Choose("auto", 4) {
	case 1:
		o.Imputing = true
	case 2:
		o.Scaling = true
	case 3:
		o.Imputing, o.Scaling = true, true
	}
	switch sym.Choose("exclude", 8) {
	case 1:
		o.Exclude = []string{"t"}
	case 2:
		o.Exclude = []string{"t", "x", "y"}
	case 3:
		o.Exclude = []string{"s1"}
	case 4:
		o.Exclude = []string{"s2", "s1", "nothing", "y"}
	case 5:
		o.Exclude = []string{"i1", "b"}
	case 6:
		o.Exclude = []string{"i1", "x", "i2", "o"}
	case 7:
		o.Exclude = []string{"i2", "i1", "s1", "s2", "t", "x", "y"}
	}
	return
}

// checkAuto compares a transformed frame with the documented result. train is
// what was fitted, m what was transformed.
func checkAuto(got *dataframe.DataFrame, o preprocessing.AutoPreprocOptions, train, m *mdl, label string) {
	sym.Assert(got.NumRows() == m.rows(), label+": number of rows")
	var flagged []string
	for _, k := range []kind{kS, kI} {
		if len(flagged) > 0 {
			break
		}
		for _, n := range m.names() {
			// where all strings are excluded, ints may be flagged or not
			if m.cols[n].k == k && !in(n, o.Exclude) && !(k == kI && m.cols["s1"] != nil && got.IntHeader().NameSet()[n]) {
				flagged = append(flagged, n)
			}
		}
	}
	want, only := m.view(), []string{}
	for _, n := range m.names() {
		c := m.cols[n]
		if in(n, flagged) {
			delete(want.cols, n)
			continue
		}
		if c.k != kF || in(n, o.Exclude) || !o.Imputing && !o.Scaling {
			only = append(only, n)
			continue
		}
		delete(want.cols, n)
		var x []float64
		for _, r := range train.idx {
			x = append(x, train.cols[n].f[r])
		}
		shift, scale := 0.0, 1.0
		cnt, sum := 0.0, 0.0
		for _, v := range x {
			k, w := present(v)
			cnt, sum = cnt+k, sum+w
		}
		mean := sum / cnt
		if o.Scaling {
			shift, scale = refScaling(x, preprocessing.ScalerOptions{Centering: true, Scaling: true})
		}
		a := got.Floats(n)
		for j, r := range m.idx {
			v, g := c.f[r], a.Get(j)
			if math.IsNaN(v) {
				sym.Assert(math.IsNaN(g) == !o.Imputing, label+": a missing value is imputed exactly when asked")
				if !o.Imputing || cnt == 0 {
					continue
				}
				v = mean
			}
			if scale != 0 {
				sym.Assert(near(g, (v+shift)*scale), label+": imputed and scaled value")
			} else {
				sym.Assert(sym.Or(v+shift != 0, near(g, 0)), label+": value of a constant column")
			}
		}
	}
	want.checkCells(got, label+": columns that are not transformed", append(only, "o")...)
	sym.Assert(hasExactly(got.FloatHeader(), m.floats()), label+": float columns")
	ints := 0
	for _, n := range m.names() {
		if m.cols[n].k == kI && !in(n, flagged) {
			ints++
			sym.Assert(got.IntHeader().NameSet()[n], label+": an int column is gone")
		}
		if m.cols[n].k == kS && !in(n, flagged) {
			sym.Assert(got.StringHeader().NameSet()[n], label+": a string column is gone")
		}
	}
	sym.Assert(got.IntHeader().Num() == ints, label+": int columns")
	sym.Assert(got.ObjectHeader().NameSet()["o"], label+": object column is gone")
	sym.Assert(got.BoolHeader().NameSet()["b"], label+": bool column is gone")
	if train.rows() == m.rows() {
		var ids [][]int
		for _, n := range flagged {
			ids = append(ids, m.ids(n))
		}
		checkFlags(got, []string{"b"}, ids, label)
	}
}

func (m *mdl) floats() (r []string) {
	for _, n := range m.names() {
		if m.cols[n].k == kF {
			r = append(r, n)
		}
	}
	return
}

// P06_Auto: every option combination and column mix.
// sym: steps=3000000
// bound: 2 rows (thorough 1..3), every column mix, options, 8 exclusion lists, x cells arbitrary among missing, -1, 2, 8, strings and ints arbitrary among 3 resp. 2 values (quick: the string of one row), frame as is, reversed, sliced or repeating rows; machine of 1..2 CPUs
// cover: strings ints neither
func P06_Auto() {
	sym.NumCPU(2)
	n := 2
	if sym.Tier() == 1 {
		n = 1 + sym.Choose("n", 3)
	}
	floats := sym.Choose("floats", 2) == 1
	strings := sym.Choose("strings", 2) == 1
	ints := sym.Choose("ints", 2) == 1
	m := mixedFrame(n, floats, strings, ints)
	df := m.build()
	v, vm := df, m
	switch sym.Choose("view", 4) {
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 2:
		idx := []int{n - 1, 0, 0}
		v, vm = df.IndexView(idx), m.pick(idx)
	case 3:
		v, vm = df.SliceView(0, 1), m.pick([]int{0})
	}
	sibling := df.View()
	o := autoOptions()
	before := m.freeze()
	one := preprocessing.NewAutoPreprocessor(o)
	two := preprocessing.NewAutoPreprocessor(o)
	a := one.FitTransform(v)
	before.same(df, "frame after FitTransform")
	sym.Assert(two.Fit(v) == nil, "Fit fails")
	before.same(df, "frame after Fit")
	b, err := two.TransformView(v)
	sym.Assert(err == nil, "TransformView fails")
	before.same(df, "frame after TransformView")
	before.same(sibling, "other view of the frame")
	checkAuto(a, o, vm, vm, "FitTransform")
	checkAuto(b, o, vm, vm, "Fit and TransformView")
	c, err := one.TransformView(v)
	sym.Assert(err == nil, "TransformView after FitTransform fails")
	checkAuto(c, o, vm, vm, "TransformView after FitTransform")
	// the result is a frame of its own
	if a.NumRows() > 0 {
		a.Drop("b")
		a.AllocFloats("fresh")
		b.Rename("o", "fresh")
		if floats && (o.Imputing || o.Scaling) && !in("y", o.Exclude) {
			a.Floats("y").Set(0, 1234)
			b.Floats("y").Set(0, 1234)
		}
		before.same(df, "frame after a change to the result")
	}
	cols := one.TransformedColumns()
	for _, name := range cols {
		sym.Assert(vm.cols[name] != nil, "TransformedColumns lists an unknown column")
		sym.Assert(!in(name, o.Exclude), "TransformedColumns lists an excluded column")
	}
	for _, name := range vm.names() {
		k := vm.cols[name].k
		if in(name, o.Exclude) {
			continue
		}
		if k == kS || k == kF && (o.Imputing || o.Scaling) {
			sym.Assert(in(name, cols), "TransformedColumns lacks a transformed column")
		}
	}
	sym.NoLeak("a worker never finishes")
	if strings {
		sym.Cover("strings")
	} else if ints {
		sym.Cover("ints")
	} else {
		sym.Cover("neither")
	}
}

// P06_Floats: what imputing and scaling learn when they are combined.
// sym: steps=3000000
// bound: float columns x and y of 3 rows (thorough 4), x arbitrary among missing, -1, 2, 8, one value of y missing, y excluded or not, imputing and scaling on or off; FitTransform and Fit alike, then a later frame of one row through both
// cover: missing
func P06_Floats() {
	n := sym.Quick(3, 4)
	m := &mdl{cols: map[string]*col{"x": newCol(kF, n), "y": newCol(kF, n), "b": newCol(kB, n), "o": newCol(kO, n)}, idx: iota_(n)}
	l := &mdl{cols: map[string]*col{"x": newCol(kF, 1), "y": newCol(kF, 1), "b": newCol(kB, 1), "o": newCol(kO, 1)}, idx: iota_(1)}
	for r := 0; r < n; r++ {
		m.cols["x"].f[r] = sym.OneOf("x", math.NaN(), -1, 2, 8)
		m.cols["y"].f[r] = []float64{4, math.NaN(), 0.5, 6}[r]
	}
	if sym.Choose("missing", 2) == 1 {
		m.cols["x"].f[0] = math.NaN()
		sym.Cover("missing")
	}
	l.cols["x"].f[0] = []float64{math.NaN(), 3}[sym.Choose("later", 2)]
	l.cols["y"].f[0] = 1
	var o preprocessing.AutoPreprocOptions
	o.Imputing, o.Scaling = sym.Choose("imputing", 2) == 1, sym.Choose("scaling", 2) == 1
	if sym.Choose("exclude", 2) == 1 {
		o.Exclude = []string{"y"}
	}
	df := m.build()
	one, two := preprocessing.NewAutoPreprocessor(o), preprocessing.NewAutoPreprocessor(o)
	checkAuto(one.FitTransform(df), o, m, m, "FitTransform")
	m.same(df, "frame after FitTransform")
	sym.Assert(two.Fit(df) == nil, "Fit fails")
	for k, p := range []*preprocessing.AutoPreprocessor{one, two} {
		label := []string{"FitTransform then a later frame", "Fit then a later frame"}[k]
		later := l.build()
		got, err := p.TransformView(later)
		sym.Assert(err == nil, label+": error")
		checkAuto(got, o, m, l, label)
		l.same(later, label+": frame")
	}
}

// P06_Refit: fitting again forgets the previous training.
// bound: 1 row, then 2 rows, every pair of column mixes, options
// cover: done
func P06_Refit() {
	m1 := mixedFrame(1, sym.Choose("f1", 2) == 1, sym.Choose("s1", 2) == 1, sym.Choose("i1", 2) == 1)
	m2 := mixedFrame(2, sym.Choose("f2", 2) == 1, sym.Choose("s2", 2) == 1, sym.Choose("i2", 2) == 1)
	o := preprocessing.AutoPreprocOptions{Imputing: true, Scaling: sym.Choose("scaling", 2) == 1}
	p := preprocessing.NewAutoPreprocessor(o)
	sym.Assert(p.Fit(m1.build()) == nil, "Fit fails")
	df := m2.build()
	sym.Assert(p.Fit(df) == nil, "second Fit fails")
	got, err := p.TransformView(df)
	sym.Assert(err == nil, "TransformView fails")
	m2.same(df, "frame after second Fit")
	checkAuto(got, o, m2, m2, "after second Fit")
	sym.Cover("done")
}

// P06_Later: transforming another frame than the one used for training.
// sym: steps=3000000
// bound: trained on 2 fixed rows, transforming a view of 2 rows with cells arbitrary among missing, 2 seen and 1 unseen value, extra columns of every type
// cover: unseen missing
func P06_Later() {
	train := mixedFrameFixed()
	strings := sym.Choose("strings", 2) == 1
	if !strings {
		delete(train.cols, "s1")
	} else {
		delete(train.cols, "i1")
	}
	o := preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true}
	p := preprocessing.NewAutoPreprocessor(o)
	sym.Assert(p.Fit(train.build()) == nil, "Fit fails")
	n := 2
	m := newModel("", n)
	for _, name := range []string{"i1", "s1"} {
		delete(m.cols, name)
	}
	if strings {
		delete(m.cols, "i2")
	}
	x := newCol(kF, n)
	c := newCol(kI, n)
	s := newCol(kS, n)
	for r := 0; r < n; r++ {
		x.f[r] = sym.OneOf("x", math.NaN(), 0, 2, 4, 5)
		if strings {
			switch sym.Choose("s", 4) {
			case 1:
				s.o[r], c.i[r] = "u", 0
			case 2:
				s.o[r], c.i[r] = "v", 1
			case 3:
				s.o[r], c.i[r] = sym.Bytes("z", 2), 2
				sym.Cover("unseen")
			default:
				c.i[r] = -1
				sym.Cover("missing")
			}
		} else {
			c.i[r] = sym.IntRange("c", -1, 3)
			if c.i[r] == -1 {
				sym.Cover("missing")
			}
			c.i[r] = sym.IfInt(c.i[r] == 3, 2, c.i[r])
		}
	}
	m.cols["x"] = x
	if strings {
		m.cols["s1"] = s
	} else {
		m.cols["i1"] = c
	}
	df := m.build()
	v, vm := df, m
	if sym.Choose("view", 2) == 1 {
		v, vm = df.ReverseView(), m.pick(rev(n))
	}
	before := m.freeze()
	got, err := p.TransformView(v)
	sym.Assert(err == nil, "TransformView fails")
	before.same(df, "frame after TransformView")
	sym.Assert(got.NumRows() == n, "TransformView: number of rows")
	before.pick(vm.idx).checkCells(got, "columns unknown to the preprocessor", "f1", "f2", "b1", "o1")
	for j, r := range vm.idx {
		g := got.Floats("x").Get(j)
		w := sym.IfFloat(math.IsNaN(x.f[r]), 0, (x.f[r]-2)/2)
		sym.Assert(near(g, w), "imputed and scaled value")
	}
	// missing and unseen values share one flag: missing was not in the
	// training data, where "v" (1) is the most frequent category
	id := make([]int, n)
	for j, r := range vm.idx {
		k := c.i[r]
		id[j] = sym.IfInt(sym.Or(k == -1, k == 2), 1, k)
	}
	ids := [][]int{id}
	checkFlags(got, []string{"b1"}, ids, "later frame")
}

func mixedFrameFixed() *mdl {
	m := &mdl{cols: map[string]*col{}, idx: iota_(3)}
	m.cols["x"] = &col{k: kF, f: []float64{0, 4, math.NaN()}}
	m.cols["i1"] = &col{k: kI, i: []int{1, 0, 1}}
	m.cols["s1"] = &col{k: kS, o: []interface{}{"v", "u", "v"}}
	return m
}
