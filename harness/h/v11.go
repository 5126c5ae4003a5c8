package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// V11_Rows: asking for rows that are not there.
// bound: 0..3 backing rows in 8 kinds of view (some show fewer rows than there are, sampled, top, sliced, split ones too), SliceView bounds 1..3 beyond the end or before the beginning, IndexView of 1..2 indices of which one is arbitrary outside of the frame, MaskView of 1..2 rows too many, accessors at an arbitrary row outside of the frame
// cover: slice index mask access
func V11_Rows() {
	n := sym.Choose("n", 4)
	m := newModel("", n)
	df := m.build()
	v, vm := df, m
	switch sym.Choose("view", 8) {
	case 1:
		v, vm = df.SliceView(0, n/2), m.pick(iota_(n)[:n/2])
	case 2:
		v, vm = df.SampleView(n/2, false), nil
	case 3:
		v, vm = df.TopView("f2", n/2, true, true), m.pick(iota_(n)[:n/2])
	case 4:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 5:
		mask := df.ZeroMask()
		for j := range mask {
			mask[j] = j == 0
		}
		v, vm = df.MaskView(mask), m.pick(iota_(n)[:min(n, 1)])
	case 6:
		parts := df.SplitNView(2)
		v, vm = parts[0], m.pick(iota_(n)[:parts[0].NumRows()])
	case 7:
		train, _ := df.SplitTrainTestViews(0.5)
		v, vm = train, m.pick(iota_(n)[:train.NumRows()])
	}
	if vm == nil {
		vm = m.view()
		vm.idx = nil
		for j := 0; j < v.NumRows(); j++ {
			vm.idx = append(vm.idx, v.Ints("i2").Get(j)-10)
		}
	}
	k := vm.rows()
	outside := func(label string, limit int) int {
		x := sym.Int(label)
		sym.Assume(sym.Or(x < -limit, x >= k))
		return x
	}
	switch sym.Choose("what", 4) {
	case 0:
		by := 1 + sym.Choose("by", 3)
		from, to := 0, k+by
		switch sym.Choose("slice", 4) {
		case 1:
			from, to = k+by, 0
		case 2:
			from, to = -k-1-by, k
		case 3:
			from = k
		}
		sym.Assert(sym.Panics(func() { v.SliceView(from, to) }), "SliceView shows rows that are not in the frame")
		sym.Cover("slice")
	case 1:
		idx := []int{outside("index", 0)}
		if k > 0 && sym.Choose("second", 2) == 1 {
			idx = []int{0, idx[0]}
		}
		sym.Assert(sym.Panics(func() { v.IndexView(idx) }), "IndexView shows rows that are not in the frame")
		sym.Cover("index")
	case 2:
		mask := make([]bool, k+1+sym.Choose("extra", 2))
		mask[len(mask)-1] = true
		sym.Assert(sym.Panics(func() { v.MaskView(mask) }), "MaskView shows rows that are not in the frame")
		sym.Cover("mask")
	case 3:
		x := outside("row", 0)
		sym.Assert(sym.Panics(func() { v.Floats("f1").Get(x) }), "a row that is not in the frame is read")
		sym.Assert(sym.Panics(func() { v.Ints("i1").Get(x) }), "a row that is not in the frame is read")
		sym.Assert(sym.Panics(func() { v.Strings("s1").Get(x) }), "a row that is not in the frame is read")
		sym.Assert(sym.Panics(func() { v.Floats("f1").Set(x, 5) }), "a row that is not in the frame is written")
		sym.Assert(sym.Panics(func() { v.Bools("b1").Set(x, true) }), "a row that is not in the frame is written")
		sym.Assert(sym.Panics(func() { v.Objects("o1").Set(x, nil) }), "a row that is not in the frame is written")
		sym.Cover("access")
	}
	vm.same(v, "view afterwards")
	m.same(df, "base afterwards")
}

// V11_Arguments: arguments that are documented to panic.
// bound: 0..2 rows and all column types, frame or view of it; every negative part count, batch size below 1, negative TopView count, ratio below 0 or above 1, 6 impossible sample sizes, sampling with replacement, sorting by unsortable or unknown columns
// cover: sizes sorting
func V11_Arguments() {
	n := sym.Choose("n", 3)
	m := newModel("", n)
	df := m.build()
	v, vm := df, m
	if sym.Choose("view", 2) == 1 {
		v, vm = df.ReverseView(), m.pick(rev(n))
	}
	switch sym.Choose("what", 8) {
	case 0:
		k := sym.Int("k")
		sym.Assume(k < 0)
		sym.Assert(sym.Panics(func() { v.SplitNView(k) }), "SplitNView into a negative number of parts")
		sym.Cover("sizes")
	case 1:
		k := sym.Int("k")
		sym.Assume(k <= 0)
		sym.Assert(sym.Panics(func() { v.SplitView(k) }), "SplitView into batches of no rows")
	case 2:
		k := sym.Int("k")
		sym.Assume(k < 0)
		sym.Assert(sym.Panics(func() { v.TopView("i1", k, sym.Choose("asc", 2) == 1, sym.Choose("sorted", 2) == 1) }), "TopView of a negative number of rows")
	case 3:
		r := sym.Float64("ratio")
		sym.Assume(sym.Or(r < 0, r > 1))
		sym.Assert(sym.Panics(func() { v.SplitTrainTestViews(r) }), "SplitTrainTestViews with a ratio outside [0, 1]")
	case 4:
		k := []int{-1, -7, n + 1, n + 2, 1000, -1 << 63}[sym.Choose("k", 6)]
		sym.Assert(sym.Panics(func() { v.SampleView(k, false) }), "SampleView of too many rows")
	case 5:
		sym.Assert(sym.Panics(func() { v.SampleView(sym.Choose("k", n+1), true) }), "SampleView with replacement")
	case 6:
		col := []string{"s1", "o1", "unknown"}[sym.Choose("col", 3)]
		sym.Assert(sym.Panics(func() { v.SortedView(col) }), "SortedView by a column that cannot be sorted")
		sym.Cover("sorting")
	case 7:
		col := []string{"s1", "o1", "unknown"}[sym.Choose("col", 3)]
		k, asc, srt := sym.Choose("k", n+2), sym.Choose("asc", 2) == 1, sym.Choose("sorted", 2) == 1
		sym.Assert(sym.Panics(func() { v.TopView(col, k, asc, srt) }), "TopView by a column that cannot be sorted")
	}
	vm.same(v, "view afterwards")
	m.same(df, "base afterwards")
}

// V11_Columns: columns that do not exist or have another type.
// bound: 0..2 rows and all column types, in a frame, a view, a shallow copy, a column view or a detached view; all accessors, LabelToInt, CopyValuesToInterfaces, Rename, DenseMatrix with each wrong kind of column, alone or with others
// cover: accessor dense
func V11_Columns() {
	n := sym.Choose("n", 3)
	m := newModel("", n)
	df := m.build()
	v, vm := df, m
	switch sym.Choose("view", 5) {
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 2:
		v, vm = df.ShallowCopy(), m.view()
	case 3:
		v, vm = df.ColumnView("f1", "i1", "b1", "s1", "o1"), m.only("f1", "i1", "b1", "s1", "o1")
	case 4:
		v, vm = df.DetachedView("f1"), m.detach("f1")
	}
	of := map[string]kind{"f1": kF, "i1": kI, "b1": kB, "s1": kS, "o1": kO, "unknown": -1}
	col := []string{"f1", "i1", "b1", "s1", "o1", "unknown"}[sym.Choose("col", 6)]
	k := of[col]
	panics := func(want bool, f func(), label string) {
		sym.Assert(sym.Panics(f) == want, label+": columns of the right type, and no other ones, are accepted")
	}
	switch sym.Choose("what", 4) {
	case 0:
		panics(k != kF, func() { v.Floats(col) }, "Floats")
		panics(k != kI, func() { v.Ints(col) }, "Ints")
		panics(k != kB, func() { v.Bools(col) }, "Bools")
		panics(k != kS && k != kO, func() { v.Objects(col) }, "Objects")
		panics(k != kS, func() { v.Strings(col) }, "Strings")
		sym.Cover("accessor")
	case 1:
		panics(k != kS, func() { v.LabelToInt(col) }, "LabelToInt")
		panics(k < 0, func() { v.CopyValuesToInterfaces(col) }, "CopyValuesToInterfaces")
	case 2:
		cols := []string{col}
		if sym.Choose("more", 2) == 1 {
			cols = []string{"i1", col, "b1"}
		}
		panics(k < 0 || k == kS || k == kO || n == 0, func() { dataframe.NewDense64Batching(cols).DenseMatrix(v) }, "DenseMatrix")
		sym.Cover("dense")
	case 3:
		if k < 0 {
			panics(true, func() { v.Rename(col, "f1") }, "Rename")
		} else {
			panics(false, func() { v.View().Rename(col, "unknown") }, "Rename")
		}
	}
	vm.same(v, "view afterwards")
	m.same(df, "base afterwards")
}

// V11_Large: rows behind a long slice.
// sym: steps=3000000
// bound: 40 rows of 1 int column, slices of 12..30 rows (sharing data or indices), up to 20 rows beyond them, split parts, samples and top rows of 12..30 rows
// cover: slice part
func V11_Large() {
	m := &mdl{cols: map[string]*col{"i": newCol(kI, 40)}, idx: iota_(40)}
	for r := range m.cols["i"].i {
		m.cols["i"].i[r] = sym.Int("i")
	}
	df := m.build()
	k := []int{12, 20, 30}[sym.Choose("k", 3)]
	var v *dataframe.DataFrame
	switch sym.Choose("how", 4) {
	case 0:
		v = df.SliceView(3, 3+k)
		sym.Cover("slice")
	case 1:
		v = df.SplitView(k)[0]
		sym.Cover("part")
	case 2:
		v = df.ReverseView().SliceView(3, 3+k)
	case 3:
		v = df.SampleView(k, false)
	}
	by := []int{1, 2, 10, 20}[sym.Choose("by", 4)]
	sym.Assert(sym.Panics(func() { v.SliceView(0, k+by) }), "SliceView shows rows that are not in the frame")
	sym.Assert(sym.Panics(func() { v.SliceView(k+by, 0) }), "SliceView shows rows that are not in the frame")
	sym.Assert(sym.Panics(func() { v.IndexView([]int{k + by - 1}) }), "IndexView shows rows that are not in the frame")
	sym.Assert(sym.Panics(func() { v.Ints("i").Get(k + by - 1) }), "a row that is not in the frame is read")
	sym.Assert(v.NumRows() == k, "number of rows afterwards")
	m.same(df, "base afterwards")
}
