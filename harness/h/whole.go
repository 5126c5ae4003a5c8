package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"verifharness/sym"
)

const (
	wholeSplit = iota
	wholeSplitMore
	wholeSplitN
	wholeTrain
	wholeTest
	wholeSlice
	wholeSliceTo
	wholeMask
	wholeIndex
	wholeColumns
	wholeAllColumns
	wholeTop
	wholeTopSorted
	wholeSorted
	wholeDetached
	wholeDetachedMissing
	wholeHash
	wholeReset
	wholeSample
	wholeShuffle
	wholeReverse
	wholeConcatView
	wholeSmart
	wholeCopyConcat
	wholeRowConcat
	wholeShallow
	wholeCopy
	wholeEncoder
	wholeOneHot
	wholeAuto
	wholeAutoFit
	wholes
)

// whole is a frame that one of the operations makes of v when it has nothing to
// do: all the rows in the same order, all the columns.
func whole(v *dataframe.DataFrame, vm *mdl, kind int) (*dataframe.DataFrame, *mdl) {
	n := vm.rows()
	one := func(r *dataframe.DataFrame, err error) *dataframe.DataFrame {
		sym.Assert(err == nil, "error for a frame that needs no change")
		return r
	}
	switch kind {
	case wholeSplit, wholeSplitMore:
		parts := v.SplitView(max(n, 1) + 4*(kind-wholeSplit))
		sym.Assert(len(parts) == 1, "SplitView: one batch of all rows")
		return parts[0], vm.view()
	case wholeSplitN:
		return v.SplitNView(1)[0], vm.view()
	case wholeTrain:
		train, _ := v.SplitTrainTestViews(0)
		return train, vm.view()
	case wholeTest:
		_, test := v.SplitTrainTestViews(1)
		return test, vm.view()
	case wholeSlice:
		return v.SliceView(0, -1), vm.view()
	case wholeSliceTo:
		return v.SliceView(0, n), vm.view()
	case wholeMask:
		mask := v.EmptyMask()
		for j := range mask {
			mask[j] = true
		}
		return v.MaskView(mask), vm.view()
	case wholeIndex:
		return v.IndexView(iota_(n)), vm.view()
	case wholeColumns:
		return v.ColumnView(), vm.view()
	case wholeAllColumns:
		return v.ColumnView(vm.names()...), vm.view()
	case wholeTop:
		return v.TopView("f2", n+1, true, false), vm.view()
	case wholeTopSorted:
		return v.TopView("f2", n+1, true, true), vm.withIdx(sortedIdx(vm.idx))
	case wholeSorted:
		return v.SortedView("i2"), vm.withIdx(sortedIdx(vm.idx))
	case wholeDetached:
		return v.DetachedView(), vm.detach()
	case wholeDetachedMissing:
		return v.DetachedView("nothing"), vm.view()
	case wholeHash:
		return v.HashStringsView(), vm.view()
	case wholeReset:
		return v.ResetIndexView(), vm.withIdx(sortedIdx(vm.idx))
	case wholeSample, wholeShuffle, wholeReverse:
		if n > 1 {
			return v.View(), vm.view()
		}
		return []func() *dataframe.DataFrame{func() *dataframe.DataFrame { return v.SampleView(n, false) }, v.ShuffleView, v.ReverseView}[kind-wholeSample](), vm.view()
	case wholeConcatView:
		return one(dataframe.ColumnConcatView(v)), vm.view()
	case wholeSmart:
		return one(dataframe.ColumnSmartConcat(v)), vm.view()
	case wholeCopyConcat:
		return one(dataframe.ColumnCopyConcat(v)), vm.compact()
	case wholeRowConcat:
		return one(dataframe.RowConcat(v)), vm.compact()
	case wholeShallow:
		return v.ShallowCopy(), vm.view()
	case wholeCopy:
		return v.Copy(), vm.compact()
	case wholeEncoder:
		e := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		sym.Assert(e.Fit(v.ColumnView("f1", "i1")) == nil, "Fit fails")
		return one(e.TransformView(v)), vm.view()
	case wholeOneHot:
		e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{})
		sym.Assert(e.Fit(v.ColumnView("f1", "s1")) == nil, "Fit fails")
		return one(e.TransformView(v)), vm.view()
	case wholeAuto, wholeAutoFit:
		p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true, Exclude: vm.names()})
		if kind == wholeAutoFit {
			return p.FitTransform(v), vm.view()
		}
		sym.Assert(p.Fit(v) == nil, "Fit fails")
		return one(p.TransformView(v)), vm.view()
	}
	return v.View(), vm.view()
}

// wholeBase is a frame of a few rows, as it is or reached by some views.
func wholeBase() (df *dataframe.DataFrame, m *mdl, v *dataframe.DataFrame, vm *mdl) {
	n := []int{3, 1, 0}[sym.Choose("rows", 3)]
	m = newModel("", n).withNil("s1", 1)
	df = m.build()
	switch sym.Choose("base", 5) {
	case 1:
		return df, m, df.View(), m.view()
	case 2:
		return df, m, df.ReverseView(), m.pick(rev(n))
	case 3:
		if n > 0 {
			idx := append(iota_(n), 0)
			return df, m, df.IndexView(idx), m.pick(idx)
		}
	case 4:
		return df, m, df.ShallowCopy(), m.view()
	}
	return df, m, df, m
}

// wholeChange makes such a frame and changes its structure, or that of a frame
// made of it in turn.
func wholeChange(kinds ...int) {
	df, m, v, vm := wholeBase()
	r, rm := whole(v, vm, kinds[sym.Choose("kind", len(kinds))])
	again, am := r, rm
	twice := sym.Choose("again", 2) == 1
	if twice {
		again, am = whole(r, rm, kinds[sym.Choose("kind2", min(len(kinds), 4))])
	}
	am = am.view()
	fm, fvm, frm := m.freeze(), vm.freeze(), rm.freeze()
	op := []int{9, 3, 15, 13, 0, 21}[sym.Choose("op", sym.Quick(4, 6))]
	back := am.back()
	restructure(again, am, back, op, "op")
	am.same(again, "changed frame")
	if twice {
		frm.same(r, "frame it was made of")
	}
	fvm.same(v, "frame")
	fm.same(df, "backing frame")
	sym.Cover("changed")
}

// wholeDetach makes such a frame, detaches columns of it and writes to them.
func wholeDetach(kinds ...int) {
	df, m, v, vm := wholeBase()
	r, rm := whole(v, vm, kinds[sym.Choose("kind", len(kinds))])
	var cols []string
	if sym.Choose("some", 2) == 1 {
		cols = []string{"f1", "s1", "b1", "o1"}
	}
	fm, fvm, frm := m.freeze(), vm.freeze(), rm.freeze()
	d, dm := r, rm.detach(cols...)
	inPlace := sym.Choose("inplace", 2) == 1
	if inPlace {
		r.Unshare(cols...)
	} else {
		d = r.DetachedView(cols...)
	}
	for j := 0; j < dm.rows(); j++ {
		x, b := float64(j)-40, sym.Bool("b")
		d.Floats("f1").Set(j, x)
		dm.setF("f1", j, x)
		d.Bools("b1").Set(j, b)
		dm.setB("b1", j, b)
		d.Strings("s1").Set(j, "w")
		dm.setO("s1", j, "w")
		d.Objects("o1").Set(j, j)
		dm.setO("o1", j, j)
	}
	dm.check(d, "detached frame")
	if !inPlace {
		frm.same(r, "frame it was detached from")
	}
	fvm.same(v, "frame")
	fm.same(df, "backing frame")
	sym.Cover("detached")
}

// wholeWrite makes such a frame and writes a cell of one of them.
func wholeWrite(kinds ...int) {
	df, m, v, vm := wholeBase()
	r, rm := whole(v, vm, kinds[sym.Choose("kind", len(kinds))])
	w, wm := r, rm
	if sym.Choose("old", 2) == 1 {
		w, wm = v, vm
	}
	if wm.rows() == 0 {
		return
	}
	row := sym.Choose("end", 2) * (wm.rows() - 1)
	x, i, b := sym.Float64("x"), sym.Int("i"), sym.Bool("b")
	w.Floats("f1").Set(row, x)
	wm.setF("f1", row, x)
	w.Ints("i1").Set(row, i)
	wm.setI("i1", row, i)
	w.Bools("b1").Set(row, b)
	wm.setB("b1", row, b)
	w.Strings("s1").Set(row, "w")
	wm.setO("s1", row, "w")
	w.Objects("o1").Set(row, "v")
	wm.setO("o1", row, "v")
	rm.check(r, "result")
	vm.check(v, "frame")
	m.same(df, "backing frame")
	sym.Cover("written")
}

func upTo(from, to int) []int { return iota_(to + 1)[from:] }

// V02_Whole: splitting into a single part.
// sym: steps=3000000
// bound: 0, 1 or 3 rows, as they are or in 4 kinds of view, split into one part with all rows in 5 ways, and that part once more; 4 structural changes of the last (thorough 6)
// cover: changed
func V02_Whole() { wholeChange(wholeSplit, wholeSplitMore, wholeSplitN, wholeTrain, wholeTest) }

// V06_Whole: structural changes of a frame made by an operation that has nothing to do.
// sym: steps=3000000
// bound: 0, 1 or 3 rows, as they are or in 4 kinds of view; 31 operations with arguments that keep all rows and columns (a split into one part, a full slice, mask, index, column list, a sort or one-frame concatenation, encoders without columns to encode, everything excluded ...), once or twice; 4 structural changes (thorough 6) of the last frame
// cover: changed
func V06_Whole() { wholeChange(upTo(0, wholes-1)...) }

// V07_Whole: columns detached in a frame made by an operation that has nothing to do.
// sym: steps=3000000
// bound: 0, 1 or 3 rows, as they are or in 4 kinds of view; 31 operations with arguments that keep all rows and columns; some columns or all detached in place or in a view, then every cell of a float, bool, string and object column written
// cover: detached
func V07_Whole() { wholeDetach(upTo(0, wholes-1)...) }

// V05_Whole: writes to a frame made by an operation that has nothing to do.
// sym: steps=3000000
// bound: 0, 1 or 3 rows, as they are or in 4 kinds of view; 31 operations with arguments that keep all rows and columns; an arbitrary value written to the first or last cell of 5 columns of the result or of the frame
// cover: written
func V05_Whole() { wholeWrite(upTo(0, wholes-1)...) }

// C01_Whole: the concatenation of one frame is another frame.
// sym: steps=3000000
// bound: 0, 1 or 3 rows, as they are or in 4 kinds of view, one-frame RowConcat, written to in 5 columns on either side
// cover: written
func C01_Whole() { wholeWrite(wholeRowConcat) }

// C02_Whole: the concatenation of one frame is another frame.
// sym: steps=3000000
// bound: 0, 1 or 3 rows, as they are or in 4 kinds of view, one-frame column concatenations, once or twice, and 4 structural changes (thorough 6) of the last
// cover: changed
func C02_Whole() { wholeChange(wholeConcatView, wholeSmart, wholeCopyConcat) }

// P04_Whole: encoders with nothing to encode still make another frame.
// sym: steps=3000000
// bound: 0, 1 or 3 rows, as they are or in 4 kinds of view; encoders and preprocessors without columns to transform, once or twice, and 4 structural changes (thorough 6) of the last frame
// cover: changed
func P04_Whole() { wholeChange(wholeEncoder, wholeOneHot, wholeAuto, wholeAutoFit) }

// V06_RenameOnto: every column renamed to the name of every other.
// sym: steps=3000000
// bound: 0 or 2 backing rows, 7 columns of all types, the frame itself or any of 7 kinds of view of it or of its reverse; every pair of columns; afterwards a new column under the freed name or not
// cover: renamed
func V06_RenameOnto() {
	n := 2 - 2*sym.Choose("none", 2)
	m := newModel("", n).withNil("s1", 1)
	df := m.build()
	base, bm := df, m
	if sym.Choose("reverse", 2) == 1 {
		base, bm = df.ReverseView(), m.pick(rev(n))
	}
	v, vm := base, bm
	if sym.Choose("itself", 2) == 0 {
		v, vm = anyView(base, bm, "v")
	}
	names := vm.names()
	old := names[sym.Choose("old", len(names))]
	new := names[sym.Choose("new", len(names))]
	if old == new {
		return
	}
	vm = vm.view()
	fm, fbm := m.freeze(), bm.freeze()
	v.Rename(old, new)
	vm.rename(old, new)
	if sym.Choose("refill", 2) == 1 {
		createAs(v, vm, vm.backOr(n), old, sym.Choose("type", 7), "fill")
	}
	vm.check(v, "renamed")
	if v != base {
		fbm.same(base, "frame the view was taken from")
	}
	if v != df {
		fm.same(df, "base")
	}
	c := v.Copy()
	vm.compact().check(c, "copy of the renamed frame")
	sym.Cover("renamed")
}

// backOr is the number of backing rows, or n without columns.
func (m *mdl) backOr(n int) int {
	for _, c := range m.cols {
		return c.rows()
	}
	return n
}

// V06_TransferOnto: a column of every type transferred onto one of every type.
// sym: steps=3000000
// bound: 0 or 2 backing rows, 7 columns of all types, the frame itself or any of 7 kinds of view of it; a transferred column of any of the 5 types under the name of any column or a new one, with a second new column or not; then a structural change of the result
// cover: transferred
func V06_TransferOnto() {
	n := 2 - 2*sym.Choose("none", 2)
	m := newModel("", n).withNil("s1", 1)
	df := m.build()
	v, vm := df, m
	if sym.Choose("itself", 2) == 0 {
		v, vm = anyView(df, m, "v")
	}
	names := append(vm.names(), "new")
	name := names[sym.Choose("name", len(names))]
	k := []kind{kF, kI, kB, kS, kO}[sym.Choose("type", 5)]
	c := newCol(k, n)
	for r := 0; r < n; r++ {
		switch k {
		case kF:
			c.f[r] = sym.Float64("tf")
		case kI:
			c.i[r] = sym.Int("ti")
		case kB:
			c.b[r] = sym.Bool("tb")
		case kS:
			c.o[r] = "t" + itoa(r)
		case kO:
			c.o[r] = 50 + r
		}
	}
	om := &mdl{cols: map[string]*col{name: c}, idx: iota_(n)}
	if sym.Choose("second", 2) == 1 {
		om.cols["other"] = newCol(kB, n)
	}
	o := om.build()
	vm = vm.view()
	fm := m.freeze()
	v.TransferRawDataFrom(&o.RawData)
	for name, c := range om.cols {
		vm.cols[name] = c
	}
	vm.check(v, "frame after the transfer")
	om.same(o, "source")
	if v != df {
		fm.same(df, "base")
	}
	if sym.Choose("then", 2) == 1 {
		v.Rename(name, "moved")
		v.AllocInts(name)
		vm.rename(name, "moved")
		vm.cols[name] = newCol(kI, n)
		vm.check(v, "frame changed after the transfer")
		om.same(o, "source afterwards")
		if v != df {
			fm.same(df, "base afterwards")
		}
	}
	sym.Cover("transferred")
}
