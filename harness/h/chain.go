package h

import (
	"math"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"verifharness/sym"
)

// chain is a frame, one derived from it in an arbitrary way and one derived
// from that, with models sharing columns as the frames share data.
func chain() (vs []*dataframe.DataFrame, ms []*mdl) {
	return chainOf(newModel("", 3).withNil("s1", 1))
}

func chainOf(m *mdl) (vs []*dataframe.DataFrame, ms []*mdl) {
	df := m.build()
	if sym.Choose("start", 2) == 1 {
		df, m = df.IndexView([]int{2, 0, 2}), m.pick([]int{2, 0, 2})
	}
	v1, m1, _ := derived(df, m, "first")
	if v1 == df {
		v1, m1 = df.View(), m.view()
	}
	second := "second"
	if !m1.ranked() {
		second = "second.unsorted"
	}
	v2, m2, _ := derived(v1, m1, second)
	if v2 == v1 {
		v2, m2 = v1.View(), m1.view()
	}
	return []*dataframe.DataFrame{df, v1, v2}, []*mdl{m, m1, m2}
}

// ranked tells whether sorting by f2 or i2 is the order of the backing rows,
// which derived relies on when it sorts.
func (m *mdl) ranked() bool {
	c := m.cols["f2"]
	for r := 0; r+1 < len(c.f); r++ {
		if !(c.f[r] < c.f[r+1]) {
			return false
		}
	}
	return true
}

func (m *mdl) back() int { return m.cols["f2"].rows() }

// V05_Chain: one cell written in one of three frames derived from each other.
// sym: steps=3000000
// bound: 3 backing rows, as they are or in an index view repeating one; 15 x 15 ways to derive a frame and another one from that (views, splits, sorts, masks, copies, concatenations), one arbitrary value written to one or every row of a float, int, bool or string column of any of the three
// cover: seen
func V05_Chain() {
	vs, ms := chain()
	w := sym.Choose("where", 3)
	v, m := vs[w], ms[w]
	if m.rows() == 0 {
		return
	}
	row := sym.Choose("end", 2) * (m.rows() - 1)
	switch sym.Choose("type", sym.Quick(2, 4)) {
	case 0:
		x := sym.Float64("x")
		v.Floats("f1").Set(row, x)
		m.setF("f1", row, x)
	case 1:
		xs := make([]bool, m.rows())
		for j := range xs {
			xs[j] = sym.Bool("x")
			m.setB("b1", j, xs[j])
		}
		v.OverwriteBools("b1", xs)
	case 2:
		x := sym.Int("x")
		v.Ints("i1").Set(row, x)
		m.setI("i1", row, x)
	case 3:
		v.Strings("s1").Set(row, "new")
		m.setO("s1", row, "new")
	}
	for k, v := range vs {
		ms[k].check(v, []string{"first frame", "second frame", "third frame"}[k])
	}
	sym.Cover("seen")
}

// V06_Chain: one structural change to one of three frames derived from each other.
// sym: steps=3000000
// bound: 3 backing rows, as they are or in an index view repeating one; 15 x 15 ways to derive a frame and another one from that, 4 structural operations (thorough 22), some on any column, on the second or the third
// cover: changed
func V06_Chain() {
	vs, ms := chain()
	// a view may follow the structure of the frame it was taken from
	w := 1 + sym.Choose("where", 2)
	vs, ms = vs[:w+1], ms[:w+1]
	ms[w] = ms[w].view() // the others keep their columns
	fs := []*mdl{}
	for _, m := range ms {
		fs = append(fs, m.freeze())
	}
	op := 0
	if sym.Tier() == 1 {
		op = sym.Choose("op", 22)
	} else {
		op = []int{3, 9, 15, 13}[sym.Choose("op", 4)]
	}
	restructure(vs[w], ms[w], ms[w].back(), op, "op")
	for k, v := range vs {
		label := []string{"first frame", "second frame", "third frame"}[k]
		if k == w {
			ms[k].check(v, label)
		} else {
			fs[k].same(v, label)
		}
	}
	sym.Cover("changed")
}

// V07_Chain: columns detached in one of three frames derived from each other.
// sym: steps=3000000
// bound: 3 backing rows, as they are or in an index view repeating one; 15 x 15 ways to derive a frame and another one from that; float and string columns, or all, detached in place in the second or third or in a view of it, then every cell of a float, a string and an int column written there
// cover: detached
func V07_Chain() {
	vs, ms := chain()
	w := 1 + sym.Choose("where", 2)
	vs, ms = vs[:w+1], ms[:w+1]
	var cols []string
	if sym.Choose("all", 2) == 0 {
		cols = []string{"f1", "s1"}
	}
	d, dm := vs[w], ms[w].detach(cols...)
	if sym.Choose("inplace", 2) == 1 {
		d.Unshare(cols...)
		vs, ms = append([]*dataframe.DataFrame{}, vs...), append([]*mdl{}, ms...)
		ms[w] = dm
	} else {
		d = d.DetachedView(cols...)
		vs, ms = append(vs, d), append(ms, dm)
	}
	dm.check(d, "detached frame before writing")
	x := sym.Float64("x")
	for j := 0; j < dm.rows(); j++ {
		d.Floats("f1").Set(j, x)
		dm.setF("f1", j, x)
		d.Strings("s1").Set(j, "new"+itoa(j))
		dm.setO("s1", j, "new"+itoa(j))
	}
	if cols == nil && dm.rows() > 0 {
		y := sym.Int("y")
		d.Ints("i1").Set(0, y)
		dm.setI("i1", 0, y)
	}
	for k, v := range vs {
		ms[k].check(v, []string{"first frame", "second frame", "third frame", "detached frame"}[k])
	}
	sym.Cover("detached")
}

// plainModel is newModel with cells that are concrete, all different, but for
// one arbitrary one of x in the first float column.
func plainModel(n int, x ...float64) *mdl {
	m := newModel("", n).withNil("s1", 1)
	for r := 0; r < n; r++ {
		m.cols["f1"].f[r] = float64(10*r) + 1.5
		m.cols["i1"].i[r] = 20 - r
		m.cols["b1"].b[r] = r == 1
	}
	if len(x) > 0 {
		m.cols["f1"].f[1] = sym.OneOf("x", x...)
	}
	return m
}

// V01_Chain: row views of frames derived from derived frames.
// sym: steps=3000000
// bound: 3 backing rows, as they are or in an index view repeating one, 15 x 15 ways to derive a frame and another one from that, then a slice, a mask, a reversal or an index view
// cover: done
func V01_Chain() {
	vs, ms := chain()
	v, m := vs[2], ms[2]
	n := m.rows()
	got, want := v, m
	switch sym.Choose("op", 5) {
	case 0:
		if n > 0 {
			got, want = v.SliceView(0, -2), m.pick(iota_(n)[:n-1])
		}
	case 1:
		mask := v.ZeroMask()
		sym.Assert(len(mask) == n, "ZeroMask: length")
		var idx []int
		for j := range mask {
			sym.Assert(!mask[j], "ZeroMask: entry")
			if j%2 == 0 {
				mask[j] = true
				idx = append(idx, j)
			}
		}
		got, want = v.MaskView(mask), m.pick(idx)
	case 2:
		got, want = v.ReverseView(), m.pick(rev(n))
	case 3:
		if n > 0 {
			got, want = v.IndexView([]int{n - 1, n - 1, 0}), m.pick([]int{n - 1, n - 1, 0})
		}
	case 4:
		if n > 1 {
			got, want = v.SliceView(n, 1), m.pick(rev(n)[:n-1])
		}
	}
	want.check(got, "view")
	for k, v := range vs {
		ms[k].check(v, []string{"first frame", "second frame", "third frame"}[k])
	}
	observe(got, "view")
	sym.Cover("done")
}

// V02_Chain: splits of frames derived from derived frames.
// sym: steps=3000000
// bound: as V01_Chain, split in batches of 1 or 2, in 3 parts, or for training
// cover: done
func V02_Chain() {
	vs, ms := chain()
	v, m := vs[2], ms[2]
	n := m.rows()
	var parts []*dataframe.DataFrame
	switch sym.Choose("op", 4) {
	case 0, 1:
		b := 1 + sym.Choose("batch", 2)
		parts = v.SplitView(b)
		for j, p := range parts {
			sym.Assert(p.NumRows() == b || j == len(parts)-1, "SplitView: size of a batch")
		}
	case 2:
		parts = v.SplitNView(3)
		sym.Assert(len(parts) == 3, "SplitNView: number of parts")
	case 3:
		train, test := v.SplitTrainTestViews(0.5)
		sym.Assert(test.NumRows() == n/2, "SplitTrainTestViews: size of the test set")
		parts = []*dataframe.DataFrame{train, test}
	}
	at := 0
	for _, p := range parts {
		k := p.NumRows()
		sym.Assert(at+k <= n, "too many rows")
		m.pick(iota_(n)[at:at+k]).check(p, "part")
		at += k
	}
	sym.Assert(at == n, "rows lost")
	m.check(v, "frame after splitting")
	sym.Cover("done")
}

// V03_Chain: sorting and ranking frames derived from derived frames.
// sym: steps=3000000
// bound: as V01_Chain, sorted by an int or a float column, or the best 2 rows
// cover: done
func V03_Chain() {
	vs, ms := chainOf(plainModel(3))
	v, m := vs[2], ms[2]
	n := m.rows()
	name, sign := []string{"f1", "i1"}[sym.Choose("column", 2)], 1.0
	key := func(r int) float64 {
		if name == "f1" {
			return sign * m.cols["f1"].f[r]
		}
		return sign * float64(m.cols["i1"].i[r])
	}
	var got *dataframe.DataFrame
	k := n
	if sym.Choose("op", 2) == 0 {
		got = v.SortedView(name)
	} else {
		if k > 2 {
			k = 2
		}
		sign = -1
		got = v.TopView(name, 2, false, true)
	}
	sym.Assert(got.NumRows() == k, "number of rows")
	idx := append([]int{}, m.idx...)
	for i := range idx {
		for j := 0; j+1 < n-i; j++ {
			if key(idx[j]) > key(idx[j+1]) {
				idx[j], idx[j+1] = idx[j+1], idx[j]
			}
		}
	}
	m.withIdx(idx[:k]).checkCells(got, "sorted rows")
	m.check(v, "frame after sorting")
	sym.Cover("done")
}

// V04_Chain: shuffles and samples of frames derived from derived frames.
// sym: steps=3000000
// bound: as V01_Chain, ShuffleView, SampleView of 2 rows and ResetIndexView, one random sequence
// cover: done
func V04_Chain() {
	vs, ms := chainOf(plainModel(3))
	v, m := vs[2], ms[2]
	k := m.rows()
	sym.SymbolicRand(false)
	var got *dataframe.DataFrame
	switch sym.Choose("op", 3) {
	case 0:
		got = v.ShuffleView()
	case 1:
		if k < 2 {
			return
		}
		k = 2
		got = v.SampleView(2, false)
	case 2:
		got = v.ResetIndexView()
		m.withIdx(sortedIdx(m.idx)).check(got, "ResetIndexView")
	}
	sym.Assert(got.NumRows() == k, "number of rows")
	// every row is one of the frame's, as often at most
	left := append([]int{}, m.idx...)
	at := make([]int, k)
	for j := range at {
		at[j] = -1
		for q, r := range left {
			if r >= 0 && at[j] < 0 && m.cols["i1"].i[r] == got.Ints("i1").Get(j) {
				at[j], left[q] = r, -1
			}
		}
		sym.Assert(at[j] >= 0, "a row that is not there, or not as often")
	}
	m.withIdx(at).check(got, "rows")
	m.check(v, "frame after shuffling")
	sym.Cover("done")
}

// V08_Chain: copies of frames derived from derived frames.
// sym: steps=3000000
// bound: as V01_Chain; Copy, then one cell written in the copy or the frame; ShallowCopy, then one column dropped
// cover: done
func V08_Chain() {
	vs, ms := chain()
	v, m := vs[2], ms[2]
	c, cm := v.Copy(), m.compact()
	s, sm := v.ShallowCopy(), m.view()
	d, dm := []*dataframe.DataFrame{c, v}, []*mdl{cm, m}
	if w := sym.Choose("side", 2); m.rows() > 0 {
		x := sym.Float64("x")
		d[w].Floats("f1").Set(0, x)
		dm[w].setF("f1", 0, x)
	}
	s.Drop("i1")
	delete(sm.cols, "i1")
	c.Drop("i2", "s1")
	delete(cm.cols, "i2")
	delete(cm.cols, "s1")
	cm.check(c, "copy")
	sm.check(s, "shallow copy")
	for k, v := range vs {
		ms[k].check(v, []string{"first frame", "second frame", "third frame"}[k])
	}
	sym.Cover("done")
}

// C01_Chain: frames derived from derived frames stacked on each other.
// sym: steps=3000000
// bound: as V01_Chain; the third frame and the first, or the third twice, stacked
// cover: done
func C01_Chain() {
	vs, ms := chain()
	o := 2 * sym.Choose("twice", 2)
	f2, fo := ms[2].freeze(), ms[o].freeze()
	got, err := dataframe.RowConcat(vs[2], vs[o])
	sym.Assert(err == nil, "RowConcat fails")
	want := stack(ms[2], ms[o])
	want.check(got, "stacked frame")
	if want.rows() > 0 {
		x := sym.Float64("x")
		got.Floats("f1").Set(0, x)
		want.setF("f1", 0, x)
		want.check(got, "stacked frame after writing")
	}
	f2.check(vs[2], "input")
	fo.check(vs[o], "other input")
	sym.Cover("done")
}

// C02_Chain: columns of frames derived from derived frames side by side.
// sym: steps=3000000
// bound: as V01_Chain; columns of the second and the third frame, or of the third and the third reversed, concatenated by each of the functions
// cover: aligned refused
func C02_Chain() {
	vs, ms := chain()
	a, am := vs[2].ColumnView("f1", "s1"), ms[2].only("f1", "s1")
	b, bm := vs[1].ColumnView("i1", "b1"), ms[1].only("i1", "b1")
	if sym.Choose("reversed", 2) == 1 {
		r := vs[2].ReverseView()
		b, bm = r.ColumnView("i1", "b1"), ms[2].pick(rev(ms[2].rows())).only("i1", "b1")
	}
	var got *dataframe.DataFrame
	var err error
	how := sym.Choose("how", 3)
	switch how {
	case 0:
		got, err = dataframe.ColumnSmartConcat(a, b)
	case 1:
		got, err = dataframe.ColumnCopyConcat(a, b)
	case 2:
		got, err = dataframe.ColumnConcatView(a, b)
	}
	if err != nil {
		// only a view can be refused for its rows, unless there are not as many
		same := am.rows() == bm.rows()
		if same && how == 2 {
			for j := range am.idx {
				same = same && am.idx[j] == bm.idx[j]
			}
			same = same && am.back2() == bm.back2()
		}
		sym.Assert(!same, "frames with the same rows are refused")
		sym.Cover("refused")
		return
	}
	sym.Cover("aligned")
	sym.Assert(got.NumRows() == am.rows(), "number of rows")
	am.checkCells(got, "columns of the first")
	bm.checkCells(got, "columns of the second")
	am.check(a, "first input")
	bm.check(b, "second input")
}

func (m *mdl) back2() int {
	for _, c := range m.cols {
		return c.rows()
	}
	return 0
}

// D03_Chain: iterating over frames derived from derived frames.
// sym: steps=3000000
// bound: as V01_Chain; an iterator of three columns made for the third frame, or reset to it after one row of the first
// cover: done
func D03_Chain() {
	vs, ms := chain()
	cols := []string{"i1", "f1", "b1"}
	k := 2 * sym.Choose("first", 2)
	ite := dataframe.NewFloat32Iterator(vs[k], append([]string{}, cols...))
	if k == 0 {
		iterate(ite, vs[0], ms[0], cols, 1, "first frame")
		ite.Reset(vs[2], true)
	}
	iterate(ite, vs[2], ms[2], cols, -1, "third frame")
	sym.Cover("done")
}

// D02_Chain: one dense batching for frames derived from each other.
// sym: steps=3000000
// bound: as V01_Chain; matrices of the third frame, of the second or the first, and of the third again
// cover: done
func D02_Chain() {
	vs, ms := chain()
	o := sym.Choose("other", 2)
	bat := dataframe.NewDense64Batching([]string{"f1", "b1", "f2"})
	for _, k := range []int{2, o, 2} {
		n := ms[k].rows()
		if n == 0 {
			continue
		}
		x := bat.DenseMatrix(vs[k])
		r, c := x.Dims()
		sym.Assert(r == n && c == 3, "dimensions")
		for j, q := range ms[k].idx {
			sym.Assert(sym.Same(x.At(j, 0), ms[k].cols["f1"].f[q]), "float cell")
			sym.Assert(x.At(j, 1) == sym.IfFloat(ms[k].cols["b1"].b[q], 1, 0), "bool cell")
			sym.Assert(x.At(j, 2) == ms[k].cols["f2"].f[q], "second float cell")
		}
	}
	for k, v := range vs {
		ms[k].check(v, []string{"first frame", "second frame", "third frame"}[k])
	}
	sym.Cover("done")
}

// D04_Chain: conversions in frames derived from derived frames.
// sym: steps=3000000
// bound: as V01_Chain; an int and a bool column converted to floats in the third frame, or its labels numbered
// cover: done
func D04_Chain() {
	vs, ms := chain()
	v, m := vs[2], ms[2]
	f0, f1 := ms[0].freeze(), ms[1].freeze()
	if sym.Choose("labels", 2) == 1 {
		got, mapping := v.LabelToInt("s1")
		sym.Assert(len(got) == m.rows(), "LabelToInt: number of rows")
		seen := map[string]int{}
		for j, r := range m.idx {
			s, _ := m.cols["s1"].o[r].(string)
			if m.cols["s1"].o[r] == nil {
				sym.Assert(got[j] == -1, "LabelToInt: missing value")
				continue
			}
			if _, ok := seen[s]; !ok {
				seen[s] = len(seen)
			}
			sym.Assert(got[j] >= 0 && got[j] == mapping[s], "LabelToInt: label")
		}
		sym.Assert(len(mapping) == len(seen), "LabelToInt: size of the mapping")
		m.check(v, "frame after LabelToInt")
	} else {
		v.IntToFloats("i1")
		v.BoolToFloats("b1")
		m = m.view()
		i, b := newCol(kF, ms[2].back()), newCol(kF, ms[2].back())
		for r := range i.f {
			i.f[r] = float64(m.cols["i1"].i[r])
			b.f[r] = sym.IfFloat(m.cols["b1"].b[r], 1, 0)
		}
		m.cols["i1"], m.cols["b1"] = i, b
		m.check(v, "converted frame")
	}
	f0.check(vs[0], "first frame")
	f1.check(vs[1], "second frame")
	sym.Cover("done")
}

// H01_Chain: hashing in frames derived from derived frames.
// sym: steps=3000000
// bound: as V01_Chain; the string column hashed in the third frame and in the first
// cover: done
func H01_Chain() {
	vs, ms := chainOf(plainModel(3))
	want := map[string]int{}
	first := vs[0].HashStringsView("s1").Ints("s1")
	for j, r := range ms[0].idx {
		if s, ok := ms[0].cols["s1"].o[r].(string); ok {
			want[s] = first.Get(j)
			sym.Assert(want[s] != -1, "hash of a string")
		} else {
			sym.Assert(first.Get(j) == -1, "hash of a missing value")
		}
	}
	v, m := vs[2], ms[2]
	got := v.HashStringsView("s1")
	sym.Assert(got.NumRows() == m.rows(), "number of rows")
	h := got.Ints("s1")
	for j, r := range m.idx {
		if s, ok := m.cols["s1"].o[r].(string); ok {
			sym.Assert(h.Get(j) == want[s], "hash of a string differs")
		} else {
			sym.Assert(h.Get(j) == -1, "hash of a missing value")
		}
	}
	m.checkCells(got, "other columns", "f1", "f2", "i1", "i2", "b1", "o1")
	for k, v := range vs {
		ms[k].check(v, []string{"first frame", "second frame", "third frame"}[k])
	}
	sym.Cover("done")
}

// R02_Chain: writing frames derived from derived frames.
// sym: steps=3000000
// bound: as V01_Chain; the third frame written in order, or in any order, and read again
// cover: done
func R02_Chain() {
	vs, ms := chainOf(plainModel(3))
	v, m := vs[2].ColumnView("f1", "i1", "b1", "s1"), ms[2].only("f1", "i1", "b1", "s1")
	v.SetMaxCPU(1)
	order := sym.Choose("order", 2) == 1
	w := &strings.Builder{}
	sym.Assert(v.To1CSV(w, dataframe.CSVWritingSpec{MaintainOrder: order, StringMissingMarker: "NA"}) == nil, "To1CSV fails")
	if m.rows() == 0 {
		return
	}
	got := reread(w.String(), dataframe.CSVReadingSpec{MissingValues: []string{"NA"}}, "To1CSV")
	sym.Assert(got.NumRows() == m.rows(), "number of rows")
	left := append([]int{}, m.idx...)
	for j := range m.idx {
		at := -1
		for q, r := range left {
			if r >= 0 && at < 0 && m.cols["i1"].i[r] == got.Ints("i1").Get(j) && (!order || q == j) {
				at, left[q] = r, -1
			}
		}
		sym.Assert(at >= 0, "a row that is not there, or at another place")
		sym.Assert(got.Floats("f1").Get(j) == m.cols["f1"].f[at], "float cell")
		want, isS := m.cols["s1"].o[at].(string)
		if !got.ObjectHeader().NameSet()["s1"] {
			sym.Assert(!isS, "string column is gone")
			continue
		}
		if s := got.Objects("s1").Get(j); isS {
			sym.Assert(s == want, "string cell")
		} else {
			sym.Assert(s == nil, "missing string cell")
		}
	}
	m.check(v, "frame after writing")
	sym.Cover("done")
}

// P01_Chain: scaling frames derived from derived frames.
// sym: steps=3000000
// bound: as V01_Chain, one cell arbitrary among missing, 4 and -1; scaler trained on the third frame, which is transformed and restored through a copy
// cover: done
func P01_Chain() {
	vs, ms := chainOf(plainModel(3, math.NaN(), 4, -1))
	v, m := vs[2], ms[2]
	if m.rows() == 0 {
		return
	}
	s := preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true})
	sym.Assert(s.Fit(v.ColumnView("f1")) == nil, "Fit fails")
	for k, v := range vs {
		ms[k].check(v, "frame after Fit")
	}
	mean, n := 0.0, 0
	for _, r := range m.idx {
		if x := m.cols["f1"].f[r]; x == x {
			mean += x
			n++
		}
	}
	if n > 0 {
		mean /= float64(n)
	}
	c, cm := v.Copy(), m.compact()
	s.TransformInplace(c)
	got := c.Floats("f1")
	for j, r := range m.idx {
		x := m.cols["f1"].f[r]
		if x == x {
			d := got.Get(j) - (x - mean)
			sym.Assert(sym.And(d <= 1e-9, d >= -1e-9), "centered value")
		} else {
			sym.Assert(got.Get(j) != got.Get(j), "missing value")
		}
	}
	cm.checkCells(c, "other columns", "f2", "i1", "i2", "b1", "s1", "o1")
	s.InverseTransformInplace(c)
	for j, r := range m.idx {
		x := m.cols["f1"].f[r]
		if x == x {
			d := got.Get(j) - x
			sym.Assert(sym.And(d <= 1e-9, d >= -1e-9), "restored value")
		}
	}
	sym.Cover("done")
}

// P02_Chain: imputing frames derived from derived frames.
// sym: steps=3000000
// bound: as V01_Chain, one cell arbitrary among missing, 4 and -1; imputer trained on the first, applied in place to the second or the third (the frame and those sharing its data change alike)
// cover: done
func P02_Chain() {
	vs, ms := chainOf(plainModel(3, math.NaN(), 4, -1))
	w := 1 + sym.Choose("where", 2)
	imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.Mean})
	sym.Assert(imp.Fit(vs[0].ColumnView("f1")) == nil, "Fit fails")
	mean, n := 0.0, 0
	for _, r := range ms[0].idx {
		if x := ms[0].cols["f1"].f[r]; x == x {
			mean += x
			n++
		}
	}
	if n > 0 {
		mean /= float64(n)
	}
	imp.TransformInplace(vs[w])
	for j, r := range ms[w].idx {
		x := ms[w].cols["f1"].f[r]
		d := vs[w].Floats("f1").Get(j) - mean
		if x == x {
			d = vs[w].Floats("f1").Get(j) - x
		}
		sym.Assert(sym.And(d <= 1e-9, d >= -1e-9), "imputed value")
	}
	for j := range ms[w].idx {
		ms[w].setF("f1", j, vs[w].Floats("f1").Get(j))
	}
	for k, v := range vs {
		ms[k].check(v, []string{"first frame", "second frame", "third frame"}[k])
	}
	sym.Cover("done")
}

// P03_Chain: encoding categories of frames derived from derived frames.
// sym: steps=3000000
// bound: as V01_Chain; categories learned from the first frame, encoded in the third
// cover: done
func P03_Chain() {
	vs, ms := chainOf(plainModel(3))
	e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{KeepUsedColumns: true, UnknownPolicy: preprocessing.SharedSeparateCategory})
	sym.Assert(e.Fit(vs[0].ColumnView("i1")) == nil, "Fit fails")
	v, m := vs[2], ms[2]
	got, err := e.TransformView(v)
	sym.Assert(err == nil, "TransformView fails")
	sym.Assert(got.NumRows() == m.rows(), "number of rows")
	flag := map[int]string{}
	var cols []string
	for _, c := range got.BoolHeader().NameList() {
		if c != "b1" {
			cols = append(cols, c)
		}
	}
	for j, r := range m.idx {
		var set []string
		for _, c := range cols {
			if got.Bools(c).Get(j) {
				set = append(set, c)
			}
		}
		sym.Assert(len(set) == 1, "number of flags")
		x := m.cols["i1"].i[r]
		if prev, ok := flag[x]; ok {
			sym.Assert(prev == set[0], "equal values have different flags")
		}
		for y, f := range flag {
			sym.Assert(y == x || f != set[0], "different values have the same flag")
		}
		flag[x] = set[0]
	}
	m.checkCells(got, "other columns", "f1", "f2", "i1", "i2", "b1", "s1", "o1")
	for k, v := range vs {
		ms[k].check(v, []string{"first frame", "second frame", "third frame"}[k])
	}
	sym.Cover("done")
}

// L01_Chain: predictions for frames derived from derived frames.
// sym: steps=3000000
// bound: as V01_Chain, fixed weights of three features; stored in a new column or instead of a feature
// cover: done
func L01_Chain() {
	m0 := plainModel(3)
	m0.cols["x"], m0.cols["y"], m0.cols["b"] = m0.cols["f1"], m0.cols["f2"], m0.cols["b1"]
	delete(m0.cols, "f1")
	delete(m0.cols, "b1")
	m0.cols["f2"] = m0.cols["y"].clone()
	reg, want := trained("z", 2, 6, 2, -1, 4)
	m0.cols["f1"], m0.cols["b1"] = m0.cols["x"].clone(), m0.cols["b"].clone()
	vs, ms := chainOf(m0)
	v, m := vs[2], ms[2]
	target := []string{"result", "x", "s1"}[sym.Choose("target", 3)]
	got, err := reg.Predict(v, target)
	sym.Assert(err == nil, "Predict fails")
	sym.Assert(got.NumRows() == m.rows(), "number of rows")
	// the order of rows may be another one: rows are told by their i1
	left := append([]int{}, m.idx...)
	for j := range m.idx {
		at := -1
		for q, r := range left {
			if r >= 0 && at < 0 && m.cols["i1"].i[r] == got.Ints("i1").Get(j) {
				at, left[q] = r, -1
			}
		}
		sym.Assert(at >= 0, "a row that is not there")
		d := got.Floats(target).Get(j) - want(m.cols["x"].f[at], m.cols["y"].f[at], m.cols["b"].b[at])
		sym.Assert(sym.And(d <= 1e-9, d >= -1e-9), "prediction")
	}
	for k, v := range vs {
		ms[k].check(v, []string{"first frame", "second frame", "third frame"}[k])
	}
	sym.Cover("done")
}

// L03_Chain: errors measured on frames derived from derived frames.
// sym: steps=3000000
// bound: as V01_Chain, one cell arbitrary among 3 values
// cover: done
func L03_Chain() {
	vs, ms := chainOf(plainModel(3, 2.5, 40, -1))
	v, m := vs[2], ms[2]
	n := m.rows()
	if n == 0 {
		return
	}
	sq, ab := 0.0, 0.0
	for _, r := range m.idx {
		d := m.cols["f1"].f[r] - m.cols["f2"].f[r]
		sq += d * d
		ab += sym.IfFloat(d < 0, -d, d)
	}
	mse, mae := algorithms.MSE(v.Floats("f1"), v.Floats("f2")), algorithms.MAE(v.Floats("f1"), v.Floats("f2"))
	d, e := mse-sq/float64(n), mae-ab/float64(n)
	sym.Assert(sym.And(d <= 1e-6, d >= -1e-6), "MSE")
	sym.Assert(sym.And(e <= 1e-6, e >= -1e-6), "MAE")
	m.check(v, "frame after evaluation")
	sym.Cover("done")
}
