package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// checkPartition asserts that the parts, in order, are exactly vm's rows.
func checkPartition(parts []*dataframe.DataFrame, sizes []int, vm *mdl, label string) {
	sym.Assert(len(parts) == len(sizes), label+": number of frames")
	at := 0
	for k, p := range parts {
		vm.pick(iota_(vm.rows())[at:at+sizes[k]]).check(p, label)
		at += sizes[k]
	}
	sym.Assert(at == vm.rows(), label+": all rows")
}

// realSizes reads the sizes and asserts that they add up.
func realSizes(parts []*dataframe.DataFrame, total int, label string) []int {
	var s []int
	sum := 0
	for _, p := range parts {
		sym.Assert(p != nil, label+": nil frame")
		s = append(s, p.NumRows())
		sum += p.NumRows()
	}
	sym.Assert(sum == total, label+": rows lost or repeated")
	return s
}

// V02_SplitView: every batch size, arbitrary base.
// bound: 0..4 backing rows (thorough 6), all column types, 1 arbitrary earlier view operation, batch size 1..6 (8)
// cover: partial full
func V02_SplitView() {
	n := sym.Choose("n", sym.Quick(5, 7))
	m := newModel("", n)
	df := m.build()
	v, vm := rowOp(df, m, "op")
	b := 1 + sym.Choose("b", sym.Quick(6, 8))
	parts := v.SplitView(b)
	var sizes []int
	for left := vm.rows(); left > 0; left -= b {
		if left < b {
			sizes = append(sizes, left)
			sym.Cover("partial")
		} else {
			sizes = append(sizes, b)
			sym.Cover("full")
		}
	}
	if vm.rows() == 0 {
		sizes = []int{0}
	}
	checkPartition(parts, sizes, vm, "SplitView")
	vm.check(v, "parent after SplitView")
	m.check(df, "base after SplitView")
	sym.Observe("parts", len(parts))
}

// V02_SplitNView: every n, arbitrary base; results are usable frames.
// bound: 0..4 backing rows (thorough 6), all column types, 1 arbitrary earlier view operation, n in 0..6 (8)
// cover: more-parts-than-rows no-rows
func V02_SplitNView() {
	n := sym.Choose("n", sym.Quick(5, 7))
	m := newModel("", n)
	df := m.build()
	v, vm := rowOp(df, m, "op")
	k := sym.Choose("k", sym.Quick(7, 9))
	parts := v.SplitNView(k)
	if k == 0 {
		sym.Assert(parts == nil, "SplitNView(0) is nil")
		return
	}
	sym.Assert(len(parts) == k, "SplitNView: exactly n frames")
	sizes := realSizes(parts, vm.rows(), "SplitNView")
	checkPartition(parts, sizes, vm, "SplitNView")
	if k > vm.rows() {
		sym.Cover("more-parts-than-rows")
	}
	if vm.rows() == 0 {
		sym.Cover("no-rows")
	}
	// the parts are ordinary frames: putting them together again works
	if k > 1 {
		all, err := dataframe.RowConcat(parts...)
		sym.Assert(err == nil, "SplitNView: parts can be concatenated")
		vm.check(all, "SplitNView parts concatenated")
	}
	vm.check(v, "parent after SplitNView")
	m.check(df, "base after SplitNView")
	sym.Observe("parts", len(parts))
}

// V02_SplitLarge: batches long enough for the contiguous fast path.
// bound: 25 rows (thorough 40), 1 int column, batch size 1..27 (42), 1..4 parts
// cover: long
func V02_SplitLarge() {
	n := sym.Quick(25, 40)
	m := &mdl{cols: map[string]*col{"i": {k: kI}}, idx: iota_(n)}
	for r := 0; r < n; r++ {
		m.cols["i"].i = append(m.cols["i"].i, sym.Int("i"))
	}
	df := m.build()
	v, vm := df, m
	if sym.Choose("pre", 2) == 1 {
		v, vm = df.SliceView(2, n), m.pick(iota_(n)[2:])
	}
	var parts []*dataframe.DataFrame
	if sym.Choose("how", 2) == 0 {
		b := 1 + sym.Choose("b", n+2)
		parts = v.SplitView(b)
		for i, p := range parts {
			sym.Assert(p.NumRows() == b || (i == len(parts)-1 && p.NumRows() < b), "SplitView: full batches")
		}
		if b > 10 {
			sym.Cover("long")
		}
	} else {
		k := 1 + sym.Choose("k", 4)
		parts = v.SplitNView(k)
		sym.Assert(len(parts) == k, "SplitNView: exactly n frames")
	}
	checkPartition(parts, realSizes(parts, vm.rows(), "split"), vm, "split")
	// splitting the parts again
	p := parts[sym.Choose("part", len(parts))]
	pm := vm
	at := 0
	for _, q := range parts {
		if q == p {
			pm = vm.pick(iota_(vm.rows())[at : at+q.NumRows()])
			break
		}
		at += q.NumRows()
	}
	sub := p.SplitView(11)
	checkPartition(sub, realSizes(sub, pm.rows(), "split of split"), pm, "split of split")
	vm.check(v, "parent after split")
	m.check(df, "base after split")
}

// V02_TrainTest: every ratio in a grid of dyadic and decimal fractions.
// bound: 0..5 rows (thorough 8), all column types, 1 arbitrary earlier view operation, ratios {0, 1/8, 1/4, 0.3, 1/2, 0.7, 3/4, 0.99, 1}
// cover: some
func V02_TrainTest() {
	n := sym.Choose("n", sym.Quick(6, 9))
	m := newModel("", n)
	df := m.build()
	v, vm := rowOp(df, m, "op")
	ratios := []float64{0, 0.125, 0.25, 0.3, 0.5, 0.7, 0.75, 0.99, 1}
	r := ratios[sym.Choose("ratio", len(ratios))]
	train, test := v.SplitTrainTestViews(r)
	k := int(r * float64(vm.rows()))
	sym.Assert(test.NumRows() == k, "SplitTrainTestViews: floor(ratio*rows) test rows")
	checkPartition([]*dataframe.DataFrame{train, test}, []int{vm.rows() - k, k}, vm, "SplitTrainTestViews")
	if k > 0 && k < vm.rows() {
		sym.Cover("some")
	}
	vm.check(v, "parent after SplitTrainTestViews")
	sym.Observe("test", test.NumRows())
}

// V02_TrainTestAnyRatio: the whole interval of ratios.
// bound: 3 rows, 1 int column, every float64 ratio in [0, 1]
func V02_TrainTestAnyRatio() {
	m := &mdl{cols: map[string]*col{"i": {k: kI, i: []int{sym.Int("i"), sym.Int("i"), sym.Int("i")}}}, idx: iota_(3)}
	df := m.build()
	r := sym.Float64("ratio")
	sym.Assume(sym.And(r >= 0, r <= 1))
	train, test := df.SplitTrainTestViews(r)
	k := test.NumRows()
	sym.Assert(train.NumRows()+k == 3, "SplitTrainTestViews: rows lost or repeated")
	sym.Assert(sym.And(float64(k) <= 3*r, 3*r < float64(k+1)), "SplitTrainTestViews: floor(ratio*rows) test rows")
	checkPartition([]*dataframe.DataFrame{train, test}, []int{3 - k, k}, m, "SplitTrainTestViews")
}

// V02_Ratios: ratios of whole percents, where rows*ratio is rounded to or next
// to a whole number.
// sym: steps=30000000
// bound: 1..12, 29, 50, 100, 127, 150 or 1000 rows of one int column, plain or reversed; the ratios 0.00, 0.01, ... 1.00 and all k/rows
// cover: exact
func V02_Ratios() {
	n := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 29, 50, 100, 127, 150, 1000}[sym.Choose("n", 18)]
	m := &mdl{cols: map[string]*col{"i": {k: kI, i: iota_(n)}}, idx: iota_(n)}
	v, vm := m.build(), m
	if sym.Choose("reverse", 2) == 1 {
		v, vm = v.ReverseView(), m.pick(rev(n))
	}
	first := sym.Choose("first", 2)
	for k := 0; k <= max(n, 100); k++ {
		r := float64(k) / 100
		if first == 1 {
			r = float64(k) / float64(n)
		}
		if r > 1 {
			break
		}
		train, test := v.SplitTrainTestViews(r)
		c := int(r * float64(n))
		sym.Assert(test.NumRows() == c && train.NumRows() == n-c, "SplitTrainTestViews: floor(ratio*rows) test rows")
		if c > 0 && c < n {
			// the last row of the one and the first of the other
			sym.Assert(train.Ints("i").Get(n-c-1) == vm.cols["i"].i[vm.idx[n-c-1]], "SplitTrainTestViews: training rows")
			sym.Assert(test.Ints("i").Get(0) == vm.cols["i"].i[vm.idx[n-c]], "SplitTrainTestViews: test rows")
			sym.Assert(test.Ints("i").Get(c-1) == vm.cols["i"].i[vm.idx[n-1]], "SplitTrainTestViews: test rows")
		}
		if float64(c) == r*float64(n) {
			sym.Cover("exact")
		}
	}
}
