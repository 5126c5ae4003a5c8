package h

import (
	"math"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"verifharness/sym"
)

// tallPre is a frame of n rows and three columns, plain, reversed, sliced or
// with more rows than its data.
func tallPre(m *mdl, label string) (df, v *dataframe.DataFrame, vm *mdl) {
	df = m.build()
	n := m.rows()
	switch sym.Choose(label, 4) {
	case 1:
		return df, df.ReverseView(), m.pick(rev(n))
	case 2:
		return df, df.SliceView(7, n), m.pick(iota_(n)[7:])
	case 3:
		idx := append(rev(n), iota_(n)[:40]...)
		return df, df.IndexView(idx), m.pick(idx)
	}
	return df, df, m
}

// V02_Tall: many rows and many parts.
// sym: steps=30000000
// bound: views of 293..340 rows, batches of 1, 2, 63, 64, 65, 100, 128, 256 and 300 rows, 2..130 and 300 parts, 6 train/test ratios
// cover: batches parts ratio
func V02_Tall() {
	m := smallModel("", 300).only("f1", "s1")
	df, v, vm := tallPre(m, "pre")
	k := vm.rows()
	switch sym.Choose("how", 3) {
	case 0:
		b := []int{1, 2, 63, 64, 65, 100, 128, 256, 300}[sym.Choose("b", 9)]
		parts := v.SplitView(b)
		var sizes []int
		for left := k; left > 0; left -= b {
			if left < b {
				sizes = append(sizes, left)
			} else {
				sizes = append(sizes, b)
			}
		}
		tallPartition(parts, sizes, vm, "SplitView")
		sym.Cover("batches")
	case 1:
		c := []int{2, 3, 7, 10, 16, 17, 33, 64, 100, 130, 300}[sym.Choose("c", 11)]
		parts := v.SplitNView(c)
		sym.Assert(len(parts) == c, "SplitNView: exactly n frames")
		tallPartition(parts, realSizes(parts, k, "SplitNView"), vm, "SplitNView")
		sym.Cover("parts")
	case 2:
		r := []float64{0.01, 0.1, 1. / 3, 0.5, 0.9, 0.995}[sym.Choose("ratio", 6)]
		train, test := v.SplitTrainTestViews(r)
		t := int(r * float64(k))
		sym.Assert(test.NumRows() == t, "SplitTrainTestViews: floor(ratio*rows) test rows")
		tallPartition([]*dataframe.DataFrame{train, test}, []int{k - t, t}, vm, "SplitTrainTestViews")
		sym.Cover("ratio")
	}
	vm.same(v, "parent afterwards")
	m.same(df, "base afterwards")
}

func tallPartition(parts []*dataframe.DataFrame, sizes []int, vm *mdl, label string) {
	sym.Assert(len(parts) == len(sizes), label+": number of frames")
	at := 0
	for k, p := range parts {
		vm.pick(iota_(vm.rows())[at:at+sizes[k]]).same(p, label)
		at += sizes[k]
	}
	sym.Assert(at == vm.rows(), label+": all rows")
}

// V04_Tall: many rows.
// sym: steps=30000000
// bound: views of 293..340 rows, shuffled, samples of 1, 10, 128, 290 rows and of all of them, back in order; one random sequence
// cover: shuffle sample reset
func V04_Tall() {
	m := idModel(300)
	df, v, vm := tallPre(m, "pre")
	k := vm.rows()
	g, want, label := v, k, ""
	switch sym.Choose("how", 3) {
	case 0:
		g, label = v.ShuffleView(), "ShuffleView"
		sym.Cover("shuffle")
	case 1:
		want = []int{1, 10, 128, 290, k}[sym.Choose("k", 5)]
		g, label = v.SampleView(want, false), "SampleView"
		sym.Cover("sample")
	case 2:
		g, label = v.ResetIndexView(), "ResetIndexView"
		sym.Cover("reset")
	}
	sym.Assert(g.NumRows() == want, label+": number of rows")
	left := make([]int, 300)
	for _, r := range vm.idx {
		left[r]++
	}
	pm := m.view()
	pm.idx = make([]int, want)
	for j := range pm.idx {
		r := g.Ints("id").Get(j)
		sym.Assert(r >= 0 && r < 300, label+": only known rows")
		pm.idx[j] = r
		left[r]--
		sym.Assert(left[r] >= 0, label+": a row occurs too often")
		if label == "ResetIndexView" && j > 0 {
			sym.Assert(pm.idx[j-1] <= r, "ResetIndexView: order of the underlying data")
		}
	}
	pm.same(g, label+" rows")
	vm.same(v, "parent after "+label)
	m.same(df, "base after "+label)
}

// V05_Tall: writes to many rows.
// sym: steps=30000000
// bound: views of 293..340 rows; each Overwrite of a whole column there is or of a new one, AllocFloats etc. and a single cell
// cover: overwritten created
func V05_Tall() {
	m := smallModel("", 300)
	df, v, vm := tallPre(m, "pre")
	k := vm.rows()
	sib, sm := df.SliceView(0, 150), m.pick(iota_(300)[:150])
	how := sym.Choose("how", 7)
	name := []string{"f1", "i1", "b1", "s1", "o1", "f1", "s1"}[how]
	created := sym.Choose("new", 2) == 1
	back := m.cols[name]
	if created {
		name = "new"
		back = newCol(back.k, 300)
		vm = vm.view()
		vm.cols[name] = back
		if v == df {
			m = vm
		}
		sym.Cover("created")
	} else {
		sym.Cover("overwritten")
	}
	switch how {
	case 0:
		xs := make([]float64, k)
		for j, r := range vm.idx {
			xs[j] = float64(j) + 0.5
			back.f[r] = xs[j]
		}
		v.OverwriteFloats64(name, xs)
		xs[0], xs[k-1] = -1, -1
	case 1:
		xs := make([]int, k)
		for j, r := range vm.idx {
			xs[j] = j + 5
			back.i[r] = xs[j]
		}
		v.OverwriteInts(name, xs)
		xs[0], xs[k-1] = -1, -1
	case 2:
		xs := make([]bool, k)
		for j, r := range vm.idx {
			xs[j] = j%3 == 1
			back.b[r] = xs[j]
		}
		v.OverwriteBools(name, xs)
		xs[0], xs[k-1] = !xs[0], !xs[k-1]
	case 3:
		xs := make([]string, k)
		for j, r := range vm.idx {
			xs[j] = "z" + itoa(j)
			back.o[r] = xs[j]
		}
		v.OverwriteStrings(name, xs)
		xs[0], xs[k-1] = "no", "no"
	case 4, 6:
		xs := make([]interface{}, k)
		for j, r := range vm.idx {
			xs[j] = "z" + itoa(j)
			if j%5 == 0 {
				xs[j] = nil
			}
			back.o[r] = xs[j]
		}
		if how == 4 {
			v.OverwriteObjects(name, xs, dataframe.AnyObject)
		} else {
			v.OverwriteObjects(name, xs, dataframe.StringObject)
		}
		xs[0], xs[k-1] = "no", "no"
	case 5:
		xs := make([]float32, k)
		for j, r := range vm.idx {
			xs[j] = float32(j) + 0.25
			back.f[r] = float64(j) + 0.25
		}
		v.OverwriteFloats32(name, xs)
		xs[0], xs[k-1] = -1, -1
	}
	row := []int{0, 127, 128, 257, k - 1}[sym.Choose("row", 5)]
	x := sym.Float64("x")
	v.Floats("f1").Set(row, x)
	m.cols["f1"].f[vm.idx[row]] = x
	vm.same(v, "written frame")
	m.same(df, "base")
	sm.same(sib, "sibling view")
}

// V10_Tall: masks of many rows, and of views larger than their data.
// sym: steps=30000000
// bound: views of 293..680 rows, thread-safe or not, 3 stale masks, one arbitrary bit among them
// cover: larger masked
func V10_Tall() {
	m := smallModel("", 300).only("f1", "s1")
	df, v, vm := tallPre(m, "pre")
	if sym.Choose("safe", 2) == 1 {
		v = v.ThreadSafeMasking(true)
	}
	for j := range v.EmptyMask() {
		v.EmptyMask()[j] = true
	}
	if sym.Choose("twice", 2) == 1 {
		k := vm.rows()
		v, vm = v.IndexView(append(rev(k), iota_(k)...)), vm.pick(append(rev(k), iota_(k)...))
		sym.Cover("larger")
	}
	k := vm.rows()
	mask := v.EmptyMask()
	sym.Assert(len(mask) == k, "EmptyMask: one entry per row")
	for j := range mask {
		mask[j] = true
	}
	mask = v.ZeroMask()
	sym.Assert(len(mask) == k, "ZeroMask: one entry per row")
	for j := range mask {
		sym.Assert(!mask[j], "ZeroMask: all false")
	}
	step := []int{1, 3, 128}[sym.Choose("step", 3)]
	var pick []int
	for j := 0; j < k; j++ {
		mask[j] = j%step == 0
		if j == 256 {
			mask[j] = sym.Choose("bit", 2) == 1
		}
		if mask[j] {
			pick = append(pick, j)
		}
	}
	got := v.MaskView(mask)
	vm.pick(pick).same(got, "MaskView")
	sym.Assert(len(got.ZeroMask()) == len(pick), "ZeroMask of the masked view")
	vm.same(v, "frame after masking")
	m.same(df, "base after masking")
	sym.Cover("masked")
}

// C01_Tall: many frames.
// sym: steps=30000000
// bound: 1..40 frames of 0..9 rows each of all column types, some of them views, one empty one anywhere
// cover: many
func C01_Tall() {
	k := []int{5, 9, 17, 40}[sym.Choose("frames", 4)]
	empty := []int{-1, 0, 3, k - 1}[sym.Choose("empty", 4)]
	var dfs []*dataframe.DataFrame
	var ms []*mdl
	for j := 0; j < k; j++ {
		n := 1 + j*7%9
		if j == empty {
			n = 0
		}
		m := smallModel("", n)
		for r := 0; r < n; r++ {
			m.cols["o1"].o[r] = 100*j + r
		}
		df := m.build()
		switch j % 3 {
		case 1:
			df, m = df.ReverseView(), m.pick(rev(n))
		case 2:
			idx := append(iota_(n), iota_(n)...)
			df, m = df.IndexView(idx), m.pick(idx)
		}
		dfs, ms = append(dfs, df), append(ms, m)
	}
	got, err := dataframe.RowConcat(dfs...)
	sym.Assert(err == nil, "RowConcat fails")
	stack(ms...).same(got, "RowConcat")
	for j := range dfs {
		ms[j].same(dfs[j], "input of RowConcat")
	}
	sym.Cover("many")
}

// C02_Many: many frames side by side.
// sym: steps=30000000
// bound: 2..9 frames of 12 rows and 2 columns each (views of one frame, copies or other frames), reversed or not, all three functions
// cover: done
func C02_Many() {
	k := 2 + sym.Choose("frames", 8)
	n := 12
	kindOf := sym.Choose("kind", 3)
	base := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	for j := 0; j < k; j++ {
		f, s := newCol(kF, n), newCol(kS, n)
		for r := 0; r < n; r++ {
			f.f[r], s.o[r] = sym.Float64("f"), "s"+itoa(100*j+r)
		}
		base.cols["f"+itoa(j)], base.cols["s"+itoa(j)] = f, s
	}
	df := base.build()
	dfs := make([]*dataframe.DataFrame, k)
	want := base
	reversed := sym.Choose("reversed", 2) == 1
	if reversed {
		df, want = df.ReverseView(), base.pick(rev(n))
	}
	for j := range dfs {
		part := want.only("f"+itoa(j), "s"+itoa(j))
		switch kindOf {
		case 0:
			dfs[j] = df.ColumnView("f"+itoa(j), "s"+itoa(j))
		case 1:
			dfs[j] = df.ColumnView("f"+itoa(j), "s"+itoa(j)).Copy()
		case 2:
			dfs[j] = part.compact().build()
		}
	}
	how := sym.Choose("how", 3)
	f := []func(...*dataframe.DataFrame) (*dataframe.DataFrame, error){dataframe.ColumnConcatView, dataframe.ColumnSmartConcat, dataframe.ColumnCopyConcat}[how]
	got, err := f(dfs...)
	sym.Assert(err == nil, "concatenation fails")
	want.same(got, "concatenation")
	for j := range dfs {
		want.only("f"+itoa(j), "s"+itoa(j)).same(dfs[j], "input of the concatenation")
	}
	sym.Cover("done")
}

// B01_Tall: many inputs, many rows.
// sym: steps=30000000
// bound: 2, 5 or 20 inputs of 0..13 rows appended, or of 60 rows side by side, one column of each type each; cells added in 1, 7 or 60 calls
// cover: rows columns
func B01_Tall() {
	k := []int{2, 5, 20}[sym.Choose("inputs", 3)]
	rows := sym.Choose("rows", 2) == 1
	calls := []int{1, 7, 60}[sym.Choose("calls", 3)]
	var list []*dataframe.RawData
	var ms []*mdl
	all := &mdl{cols: map[string]*col{}, idx: iota_(60)}
	for j := 0; j < k; j++ {
		n, p := 60, "p"+itoa(j)
		if rows {
			n, p = j*5%14, ""
		}
		m := smallModel(p, n)
		b := newBuilder()
		for _, c := range m.names() {
			x := m.cols[c]
			step := (n + calls) / calls
			for at := 0; at < n; at += step {
				to := at + step
				if to > n {
					to = n
				}
				b = fill1b(b, c, x, at, to)
			}
			if n == 0 {
				b = fill1b(b, c, x, 0, 0)
			}
			all.cols[c] = x
		}
		list, ms = append(list, b.RawData), append(ms, m)
	}
	if rows {
		df := dataframe.MergeRawDataRows(list).ToDataFrame()
		stack(ms...).same(df, "merged rows")
		sym.Cover("rows")
	} else {
		df := dataframe.MergeRawDataColumns(list).ToDataFrame()
		all.same(df, "merged columns")
		sym.Cover("columns")
	}
	for j := range list {
		ms[j].same(list[j].ToDataFrame(), "input afterwards")
	}
}

func fill1b(b dataframe.DataBuilder, name string, c *col, from, to int) dataframe.DataBuilder {
	fill1(b, name, c, from, to)
	return b
}

// wideModel has k columns of each type and n rows.
func wideModel(k, n int) *mdl {
	m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	for j := 0; j < k; j++ {
		for t := kF; t <= kO; t++ {
			c := newCol(t, n)
			for r := 0; r < n; r++ {
				switch t {
				case kF:
					c.f[r] = float64(100*j+r) + 0.5
				case kI:
					c.i[r] = 100*j + r
				case kB:
					c.b[r] = (j+r)%3 == 0
				case kS:
					c.o[r] = "s" + itoa(100*j+r)
				case kO:
					c.o[r] = 1000*j + r
				}
			}
			m.cols[string("fibso"[t])+"col"+itoa(j)] = c
		}
	}
	return m
}

// V09_Tall: many columns.
// sym: steps=30000000
// bound: frames of 5..60 columns, 4 rows; column views of every second, all or one of them, with unknown and repeated names; headers united and reduced
// cover: view headers
func V09_Tall() {
	k := []int{1, 4, 12}[sym.Choose("k", 3)]
	m := wideModel(k, 4)
	df := m.build()
	v, vm := df, m
	if sym.Choose("reverse", 2) == 1 {
		v, vm = df.ReverseView(), m.pick(rev(4))
	}
	names := m.names()
	step := []int{1, 2, 5, 100}[sym.Choose("step", 4)]
	var pick []string
	for j := 0; j < len(names); j += step {
		pick = append(pick, names[j])
	}
	if sym.Choose("what", 2) == 0 {
		asked := append(append(append([]string{}, pick...), "unknown"), pick[len(pick)/2:]...)
		got := v.ColumnView(asked...)
		vm.only(pick...).same(got, "ColumnView")
		sym.Cover("view")
	} else {
		h := v.Header()
		sym.Assert(hasExactly(h, names), "Header")
		sym.Assert(hasExactly(v.FloatHeader().And(v.IntHeader(), v.BoolHeader(), v.StringHeader(), v.ObjectHeader()), names), "And")
		var rest []string
		for _, c := range names {
			if !in(c, pick) {
				rest = append(rest, c)
			}
		}
		sym.Assert(hasExactly(v.Header().Except(pick...), rest), "Except")
		sym.Assert(hasExactly(v.Header().ExceptHeader(dataframe.Columns(pick...), dataframe.Columns("unknown")), rest), "ExceptHeader")
		sym.Cover("headers")
	}
	vm.same(v, "parent")
	m.same(df, "base")
}

// V06_Tall: restructuring frames of many columns.
// sym: steps=30000000
// bound: frames of 5..60 columns, 4 rows; every second column dropped or renamed (to new names or around a cycle) in the frame, a view, a shallow copy or a detached view
// cover: drop rename
func V06_Tall() {
	k := []int{1, 4, 12}[sym.Choose("k", 3)]
	m := wideModel(k, 4)
	df := m.build()
	v, vm := df.View(), m.view()
	switch sym.Choose("of", 3) {
	case 1:
		v, vm = df.ShallowCopy(), m.view()
	case 2:
		v, vm = df.DetachedView(), m.detach()
	}
	sib := df.ReverseView()
	var some []string
	for j, c := range m.names() {
		if j%2 == 0 {
			some = append(some, c)
		}
	}
	switch sym.Choose("how", 3) {
	case 0:
		v.Drop(append([]string{"unknown"}, some...)...)
		for _, c := range some {
			delete(vm.cols, c)
		}
		sym.Cover("drop")
	case 1:
		for _, c := range some {
			v.Rename(c, "new "+c)
			vm.rename(c, "new "+c)
		}
		sym.Cover("rename")
	case 2:
		v.Rename(some[0], "tmp")
		vm.rename(some[0], "tmp")
		for j := 1; j < len(some); j++ {
			v.Rename(some[j], some[j-1])
			vm.rename(some[j], some[j-1])
		}
	}
	vm.same(v, "restructured frame")
	vm.same(v.Copy(), "restructured frame, copied")
	m.same(df, "parent")
	m.pick(rev(4)).same(sib, "sibling")
}

// V08_Tall: copies of large frames.
// sym: steps=30000000
// bound: views of 293..340 rows and 5 columns, and frames of 60 columns and 4 rows; Copy and ShallowCopy, then every cell of a column written in one of the two
// cover: copy shallow
func V08_Tall() {
	m := smallModel("", 300)
	if sym.Choose("wide", 2) == 1 {
		m = wideModel(12, 48)
	}
	df, v, vm := tallPre(m, "pre")
	var g *dataframe.DataFrame
	gm := vm
	if sym.Choose("shallow", 2) == 1 {
		g, gm = v.ShallowCopy(), vm.view()
		sym.Cover("shallow")
	} else {
		g, gm = v.Copy(), vm.compact()
		sym.Cover("copy")
	}
	gm.same(g, "copy")
	name := m.only(m.names()...).firstOf(kF)
	w, wm := g, gm
	if sym.Choose("original", 2) == 1 {
		w, wm = v, vm
	}
	a := w.Floats(name)
	for j, r := range wm.idx {
		a.Set(j, float64(j)-0.25)
		wm.cols[name].f[r] = float64(j) - 0.25
	}
	gm.same(g, "copy afterwards")
	vm.same(v, "original afterwards")
	m.same(df, "base afterwards")
}

// firstOf is the name of the first column of the kind.
func (m *mdl) firstOf(k kind) string {
	for _, n := range m.names() {
		if m.cols[n].k == k {
			return n
		}
	}
	return ""
}

// V07_Tall: detaching some of many columns.
// sym: steps=30000000
// bound: frames of 5..60 columns and 4 rows, 300 rows and 5 columns; every second column or all of them detached, then every cell of a float column written in one of the frames
// cover: some
func V07_Tall() {
	m := smallModel("", 300)
	if k := sym.Choose("wide", 4); k > 0 {
		m = wideModel([]int{1, 4, 12}[k-1], 48)
	}
	df, v, vm := tallPre(m, "pre")
	var some []string
	for j, c := range m.names() {
		if j%2 == 0 {
			some = append(some, c)
		}
	}
	g, gm := v, vm
	if sym.Choose("all", 2) == 1 {
		g, gm = v.DetachedView(), vm.detach()
	} else {
		g, gm = v.DetachedView(some...), vm.detach(some...)
		sym.Cover("some")
	}
	for _, name := range m.names() {
		if m.cols[name].k != kF {
			continue
		}
		w, wm := g, gm
		if sym.Choose("original", 2) == 1 {
			w, wm = v, vm
		}
		a := w.Floats(name)
		for j, r := range wm.idx {
			a.Set(j, float64(j)-0.25)
			wm.cols[name].f[r] = float64(j) - 0.25
		}
		break
	}
	gm.same(g, "detached view")
	vm.same(v, "original")
	m.same(df, "base")
}

// D02_Many: many columns in one batch.
// sym: steps=30000000
// bound: 3..36 columns (floats, ints and bools in turns), batches of 1, 7 and 40 rows, one Dense64Batching for 3 frames
// cover: done
func D02_Many() {
	k := []int{1, 4, 12}[sym.Choose("k", 3)]
	m := wideModel(k, 40)
	df := m.build()
	var names []string
	for j := 0; j < k; j++ {
		names = append(names, "icol"+itoa(k-1-j), "fcol"+itoa(j), "bcol"+itoa(j))
	}
	v, vm := df, m
	if sym.Choose("reverse", 2) == 1 {
		v, vm = df.ReverseView(), m.pick(rev(40))
	}
	batching := dataframe.NewDense64Batching(names)
	sizes := []int{[]int{1, 7, 40}[sym.Choose("a", 3)], []int{1, 7, 40}[sym.Choose("b", 3)], 13}
	for _, b := range sizes {
		part, pm := v.SliceView(0, b), vm.pick(iota_(40)[:b])
		mx := batching.DenseMatrix(part)
		r, c := mx.Dims()
		sym.Assert(r == b && c == len(names), "DenseMatrix: dimensions")
		for j := range pm.idx {
			for i, n := range names {
				sym.Assert(mx.At(j, i) == numAt(pm.cols[n], pm.idx[j]), "DenseMatrix: cells")
			}
		}
		vec := part.Floats("fcol0").VecDense()
		sym.Assert(vec.Len() == b, "VecDense: length")
		for j := range pm.idx {
			sym.Assert(vec.AtVec(j) == pm.cols["fcol0"].f[pm.idx[j]], "VecDense: cells")
		}
	}
	m.same(df, "base")
	sym.Cover("done")
}

// prepModel is a frame of n rows with two float, two int, one bool and two
// string columns as preprocessors like them.
func prepModel(n int) *mdl {
	m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	f, g, i, c, b, s, t, o := newCol(kF, n), newCol(kF, n), newCol(kI, n), newCol(kI, n), newCol(kB, n), newCol(kS, n), newCol(kS, n), newCol(kO, n)
	for r := 0; r < n; r++ {
		f.f[r], g.f[r] = float64(r*7%13)-6, float64(r%2)*8
		if r%5 == 3 {
			f.f[r] = math.NaN()
		}
		i.i[r], c.i[r], b.b[r], o.o[r] = r, r*3%11-1, r%3 == 0, r
		s.o[r], t.o[r] = "name "+itoa(r%9), "t"+itoa(r)
		if r%6 == 2 {
			s.o[r] = nil
		}
	}
	m.cols["f"], m.cols["g"], m.cols["i"], m.cols["c"], m.cols["b"], m.cols["s"], m.cols["t"], m.cols["o"] = f, g, i, c, b, s, t, o
	return m
}

// fitAny fits one of the preprocessors and returns its transformation, the
// one of its serialized form, and the columns it leaves alone.
func fitAny(train *dataframe.DataFrame) (a, b func(*dataframe.DataFrame) (*dataframe.DataFrame, error), pass []string) {
	switch sym.Choose("what", 5) {
	case 0:
		e := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		sym.Assert(e.Fit(train) == nil, "Fit fails")
		var t preprocessing.HashEncoder
		sym.Assert(sym.JSONRoundTrip(e, &t), "HashEncoder cannot be serialized")
		return e.TransformView, t.TransformView, []string{"f", "g", "i", "c", "b", "o"}
	case 1:
		e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SharedSeparateCategory, UnknownPolicy: preprocessing.SharedSeparateCategory})
		sym.Assert(e.Fit(train) == nil, "Fit fails")
		var t preprocessing.OneHotEncoder
		sym.Assert(sym.JSONRoundTrip(e, &t), "OneHotEncoder cannot be serialized")
		return e.TransformView, t.TransformView, []string{"f", "g", "b", "s", "t", "o"}
	case 2:
		e := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true})
		sym.Assert(e.Fit(train) == nil, "Fit fails")
		var t preprocessing.AutoPreprocessor
		sym.Assert(sym.JSONRoundTrip(e, &t), "AutoPreprocessor cannot be serialized")
		return e.TransformView, t.TransformView, []string{"b", "o"}
	case 3:
		e := preprocessing.NewScaler(preprocessing.ScalerOptions{})
		sym.Assert(e.Fit(train) == nil, "Fit fails")
		var t preprocessing.Scaler
		sym.Assert(sym.JSONRoundTrip(e, &t), "Scaler cannot be serialized")
		in := func(s *preprocessing.Scaler) func(v *dataframe.DataFrame) (*dataframe.DataFrame, error) {
			return func(v *dataframe.DataFrame) (*dataframe.DataFrame, error) {
				d := v.DetachedView("f", "g")
				return d, s.TransformInplace(d)
			}
		}
		return in(e), in(&t), []string{"i", "c", "b", "s", "t", "o"}
	}
	e := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.Mean})
	sym.Assert(e.Fit(train) == nil, "Fit fails")
	var t preprocessing.FloatImputer
	sym.Assert(sym.JSONRoundTrip(e, &t), "FloatImputer cannot be serialized")
	in := func(s *preprocessing.FloatImputer) func(v *dataframe.DataFrame) (*dataframe.DataFrame, error) {
		return func(v *dataframe.DataFrame) (*dataframe.DataFrame, error) {
			d := v.DetachedView("f", "g")
			return d, s.TransformInplace(d)
		}
	}
	return in(e), in(&t), []string{"i", "c", "b", "s", "t", "o"}
}

// P04_Tall: transformations of many rows leave everything else alone.
// sym: steps=50000000
// bound: 40 rows and 8 columns, plain, reversed, sliced or repeated; each of the five preprocessors
// cover: done
func P04_Tall() {
	m := prepModel(40)
	df, v, vm := tallPre(m, "pre")
	before := m.freeze()
	train := df
	if sym.Choose("train", 2) == 1 {
		train = v
	}
	a, _, pass := fitAny(train)
	before.same(df, "training frame after Fit")
	got, err := a(v)
	sym.Assert(err == nil, "transformation fails")
	before.withIdx(vm.idx).same(v, "input after the transformation")
	before.same(df, "backing frame after the transformation")
	sym.Assert(got.NumRows() == vm.rows(), "number of rows")
	vm.checkCells(got, "columns that are not transformed", pass...)
	for _, c := range got.FloatHeader().NameList() {
		if !in(c, pass) {
			for j := 0; j < got.NumRows(); j++ {
				got.Floats(c).Set(j, -77)
			}
		}
	}
	for _, c := range got.BoolHeader().NameList() {
		if !in(c, pass) {
			for j := 0; j < got.NumRows(); j++ {
				got.Bools(c).Set(j, true)
			}
		}
	}
	before.same(df, "backing frame after a change to the result")
	sym.Cover("done")
}

// P05_Tall: preprocessors fitted on many rows survive serialization.
// sym: steps=50000000
// bound: 40 training rows and 8 columns; each of the five preprocessors and the linear regressor; the training frame or a view of it transformed
// cover: done
func P05_Tall() {
	m := prepModel(40)
	df, v, _ := tallPre(m, "pre")
	if sym.Choose("regressor", 2) == 1 {
		g := m.only("f", "g", "i", "b")
		for r := range g.cols["f"].f {
			g.cols["f"].f[r] = float64(r%4) / 4
			g.cols["i"].i[r] = r % 3
		}
		e := algorithms.NewLinearRegressor()
		sym.Assert(e.Fit(g.build(), "g", algorithms.LinRegTrainParams{Epochs: 2, BatchSize: 16, LR: 0.125}) == nil, "Fit fails")
		var t algorithms.LinearRegressor
		sym.Assert(sym.JSONRoundTrip(e, &t), "LinearRegressor cannot be serialized")
		x, err := e.Predict(g.build(), "p")
		sym.Assert(err == nil, "Predict fails")
		y, err := t.Predict(g.build(), "p")
		sym.Assert(err == nil, "Predict fails after serialization")
		sameFrames(x, y, "LinearRegressor")
		return
	}
	a, b, _ := fitAny(df)
	x, err := a(v)
	sym.Assert(err == nil, "transformation fails")
	y, err := b(v)
	sym.Assert(err == nil, "transformation fails after serialization")
	sameFrames(x, y, "transformed frames")
	sym.Cover("done")
}

// P06_Tall: preparing many rows and many columns.
// sym: steps=50000000
// bound: 30 rows, 1, 5 or 12 float columns with missing values, 0 or 4 string columns or 3 int columns, frame as is or reversed, every option, two exclusion lists, 1..4 CPUs
// cover: strings ints
func P06_Tall() {
	sym.NumCPU(1 + sym.Choose("cpus", 4))
	n := 30
	m := &mdl{cols: map[string]*col{"b": newCol(kB, n), "o": newCol(kO, n)}, idx: iota_(n)}
	k := []int{1, 5, 12}[sym.Choose("floats", 3)]
	for j := 0; j < k; j++ {
		c := newCol(kF, n)
		for r := 0; r < n; r++ {
			c.f[r] = float64((r*(j+2))%8) * 0.5
			if (r+j)%7 == 3 {
				c.f[r] = math.NaN()
			}
		}
		m.cols["x"+itoa(j)] = c
	}
	switch sym.Choose("categories", 3) {
	case 1:
		for j := 1; j <= 4; j++ {
			c := newCol(kS, n)
			for r := 0; r < n; r++ {
				c.o[r] = string(rune('a' + r*j%10))
				if r%9 == j {
					c.o[r] = nil
				}
			}
			m.cols["s"+itoa(j)] = c
		}
		sym.Cover("strings")
	case 2:
		for j := 0; j < 3; j++ {
			c := newCol(kI, n)
			for r := 0; r < n; r++ {
				c.i[r] = r*(j+1)%11 - 1
			}
			m.cols["i"+itoa(j)] = c
		}
		sym.Cover("ints")
	}
	o := preprocessing.AutoPreprocOptions{Imputing: sym.Choose("imputing", 2) == 1, Scaling: sym.Choose("scaling", 2) == 1}
	if sym.Choose("exclude", 2) == 1 {
		o.Exclude = []string{"x3", "x0", "s2", "i1"}
	}
	df := m.build()
	v, vm := df, m
	if sym.Choose("view", 2) == 1 {
		v, vm = df.ReverseView(), m.pick(rev(n))
	}
	before := m.freeze()
	p := preprocessing.NewAutoPreprocessor(o)
	var a *dataframe.DataFrame
	if sym.Choose("how", 2) == 1 {
		a = p.FitTransform(v)
	} else {
		sym.Assert(p.Fit(v) == nil, "Fit fails")
		b, err := p.TransformView(v)
		sym.Assert(err == nil, "TransformView fails")
		a = b
	}
	before.same(df, "frame afterwards")
	checkAuto(a, o, vm, vm, "prepared frame")
	sym.NoLeak("a worker never finishes")
}

// G01_Many: short names of many columns.
// sym: steps=50000000
// bound: 3..14 columns with long names, common beginnings, one a beginning of the other, blanks and characters of several bytes; minimum lengths -1..9; printed as records
// cover: shortened full
func G01_Many() {
	all := []string{"temperature_min", "temperature_max", "temperature", "temp", "humidité", "humidités relatives", "日本語の列", "日本語", "a", "a b", "a b c", "pressure", "pressure (hPa)", "p"}
	k := []int{3, 6, 10, 14}[sym.Choose("columns", 4)]
	names := all[:k]
	if sym.Choose("last", 2) == 1 {
		names = all[len(all)-k:]
	}
	b := newBuilder()
	for j, name := range names {
		b.AddInts(name, 10000+j)
	}
	df := b.ToDataFrame()
	min := sym.Choose("min", 11) - 1
	short := df.GoodShortNames(min)
	if min <= 0 {
		min = 3
	}
	var printed []string
	for _, name := range names {
		s, ok := short[name]
		if !ok {
			printed = append(printed, name)
			sym.Cover("full")
			continue
		}
		sym.Assert(strings.HasPrefix(name, s), "a short name is not a prefix of the name")
		sym.Assert(len(s) >= min, "a short name is shorter than the minimum")
		if len(s) < len(name) {
			sym.Cover("shortened")
		}
		printed = append(printed, s)
	}
	for i := range printed {
		for j := 0; j < i; j++ {
			sym.Assert(printed[i] != printed[j], "two columns are printed under the same name")
		}
	}
	out := sym.Stdout(func() { df.PrintRecords(1, "", short) })
	for j := range names {
		sym.Assert(inOrder(out, []string{" " + printed[j] + ":", itoa(10000 + j)}), "PrintRecords: a column is not printed under its short name")
	}
}
