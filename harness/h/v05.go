package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// write performs one arbitrary in-place write through v and mirrors it.
func write(v *dataframe.DataFrame, vm *mdl, label string) {
	r := vm.rows()
	switch sym.Choose(label, 12) {
	case 0:
		if r > 0 {
			row, x := sym.IntRange(label+".row", 0, r-1), sym.Float64(label+".f")
			v.Floats("f1").Set(row, x)
			vm.setF("f1", row, x)
		}
	case 1:
		if r > 0 {
			row, x := sym.IntRange(label+".row", 0, r-1), sym.Int(label+".i")
			v.Ints("i1").Set(row, x)
			vm.setI("i1", row, x)
		}
	case 2:
		if r > 0 {
			row, x := sym.IntRange(label+".row", 0, r-1), sym.Bool(label+".b")
			v.Bools("b1").Set(row, x)
			vm.setB("b1", row, x)
		}
	case 3:
		if r > 0 {
			row := sym.Choose(label+".row", r)
			v.Strings("s1").Set(row, "zz")
			vm.setO("s1", row, "zz")
		}
	case 4:
		if r > 0 {
			row := sym.Choose(label+".row", r)
			v.Objects("o1").Set(row, nil)
			vm.setO("o1", row, nil)
		}
	case 5:
		xs := make([]float64, r)
		for j := range xs {
			xs[j] = sym.Float64(label + ".f")
			vm.setF("f1", j, xs[j])
		}
		v.OverwriteFloats64("f1", xs)
		for j := range xs {
			xs[j] = -1
		}
	case 6:
		xs := make([]int, r)
		for j := range xs {
			xs[j] = sym.Int(label + ".i")
			vm.setI("i1", j, xs[j])
		}
		v.OverwriteInts("i1", xs)
		for j := range xs {
			xs[j] = -1
		}
	case 7:
		xs := make([]bool, r)
		for j := range xs {
			xs[j] = sym.Bool(label + ".b")
			vm.setB("b1", j, xs[j])
		}
		v.OverwriteBools("b1", xs)
		for j := range xs {
			xs[j] = false
		}
	case 8:
		xs := make([]string, r)
		for j := range xs {
			xs[j] = "z" + string(rune('a'+j))
			vm.setO("s1", j, xs[j])
		}
		v.OverwriteStrings("s1", xs)
		for j := range xs {
			xs[j] = "no"
		}
	case 9:
		xs := make([]interface{}, r)
		for j := range xs {
			xs[j] = 1000 + j
			vm.setO("o1", j, xs[j])
		}
		v.OverwriteObjects("o1", xs, dataframe.AnyObject)
		for j := range xs {
			xs[j] = "no"
		}
	case 10:
		xs := make([]float32, r)
		for j := range xs {
			xs[j] = float32(j) + 0.25
			vm.setF("f1", j, float64(j)+0.25)
		}
		v.OverwriteFloats32("f1", xs)
		for j := range xs {
			xs[j] = -1
		}
	case 11:
		xs := make([]interface{}, r)
		for j := range xs {
			if j%2 == 0 {
				xs[j] = "y" + string(rune('a'+j))
			}
			vm.setO("s1", j, xs[j])
		}
		v.OverwriteObjects("s1", xs, dataframe.StringObject)
		for j := range xs {
			xs[j] = "no"
		}
	}
}

// V05_Writes: one arbitrary write through an arbitrary view.
// bound: 1..3 backing rows, all column types, 2 chained arbitrary view operations, any one write with arbitrary values at an arbitrary row; base, intermediate, sibling and written frame compared
// cover: written
func V05_Writes() {
	n := 1 + sym.Choose("n", sym.Quick(3, 4))
	m := newModel("", n)
	df := m.build()
	sib, sm := df.ReverseView(), m.pick(rev(n))
	v1, m1 := rowOp(df, m, "op")
	v, vm := v1, m1
	if sym.Tier() == 1 {
		v, vm = rowOp(v1, m1, "op2")
	} else if vm.rows() > 1 && sym.Choose("op2", 2) == 1 {
		v, vm = v1.SliceView(1, -1), m1.pick(iota_(m1.rows())[1:])
	}
	write(v, vm, "w")
	vm.check(v, "written frame")
	m1.check(v1, "intermediate frame")
	m.check(df, "base")
	sm.check(sib, "sibling view")
	sym.Cover("written")
	observe(df, "base")
}

// create performs one Overwrite of a missing column and mirrors it (the new
// column of the model is zero outside the view's rows).
func create(v *dataframe.DataFrame, vm *mdl, back int, label string) string {
	createAs(v, vm, back, "new", sym.Choose(label, 7), label)
	return "new"
}

// createAs overwrites a column that does not exist, or has another type, with
// one of 7 methods.
func createAs(v *dataframe.DataFrame, vm *mdl, back int, name string, how int, label string) {
	r := vm.rows()
	switch how {
	case 0:
		c := &col{k: kF, f: make([]float64, back)}
		xs := make([]float64, r)
		vm.cols[name] = c
		for j := range xs {
			xs[j] = sym.Float64(label + ".f")
			vm.setF(name, j, xs[j])
		}
		v.OverwriteFloats64(name, xs)
		for j := range xs {
			xs[j] = -1
		}
	case 1:
		c := &col{k: kI, i: make([]int, back)}
		xs := make([]int, r)
		vm.cols[name] = c
		for j := range xs {
			xs[j] = sym.Int(label + ".i")
			vm.setI(name, j, xs[j])
		}
		v.OverwriteInts(name, xs)
		for j := range xs {
			xs[j] = -1
		}
	case 2:
		c := &col{k: kB, b: make([]bool, back)}
		xs := make([]bool, r)
		vm.cols[name] = c
		for j := range xs {
			xs[j] = sym.Bool(label + ".b")
			vm.setB(name, j, xs[j])
		}
		v.OverwriteBools(name, xs)
		for j := range xs {
			xs[j] = false
		}
	case 3:
		c := &col{k: kS, o: make([]interface{}, back)}
		xs := make([]string, r)
		vm.cols[name] = c
		for j := range xs {
			xs[j] = "z" + string(rune('a'+j))
			vm.setO(name, j, xs[j])
		}
		v.OverwriteStrings(name, xs)
		for j := range xs {
			xs[j] = "no"
		}
	case 4:
		c := &col{k: kO, o: make([]interface{}, back)}
		xs := make([]interface{}, r)
		vm.cols[name] = c
		for j := range xs {
			xs[j] = 1000 + j
			vm.setO(name, j, xs[j])
		}
		v.OverwriteObjects(name, xs, dataframe.AnyObject)
		for j := range xs {
			xs[j] = "no"
		}
	case 6:
		c := &col{k: kS, o: make([]interface{}, back)}
		xs := make([]interface{}, r)
		vm.cols[name] = c
		for j := range xs {
			if j%2 == 0 {
				xs[j] = "z" + itoa(j)
			}
			vm.setO(name, j, xs[j])
		}
		v.OverwriteObjects(name, xs, dataframe.StringObject)
		for j := range xs {
			xs[j] = "no"
		}
	case 5:
		c := &col{k: kF, f: make([]float64, back)}
		xs := make([]float32, r)
		vm.cols[name] = c
		for j := range xs {
			xs[j] = float32(j) + 0.25
			vm.setF(name, j, float64(j)+0.25)
		}
		v.OverwriteFloats32(name, xs)
		for j := range xs {
			xs[j] = -1
		}
	}
}

// V05_Create: overwriting a column that does not exist, through an arbitrary view.
// bound: 1..3 backing rows, all column types, 1 arbitrary view operation on a base or on a view of it, each Overwrite method with arbitrary values
func V05_Create() {
	n := 1 + sym.Choose("n", sym.Quick(3, 4))
	m := newModel("", n)
	df := m.build()
	sib, sm := df.ReverseView(), m.pick(rev(n))
	par, pm := df, m
	if sym.Choose("par", 2) == 1 {
		par, pm = df.View(), m.view()
	}
	v, vm := rowOp(par, pm, "op")
	if v == par {
		v, vm = par.View(), pm.view()
	}
	name := create(v, vm, n, "c")
	vm.check(v, "written frame")
	pm.check(par, "parent")
	m.check(df, "base")
	sm.check(sib, "sibling view")
	// outside of the view's rows the new column is empty
	in := dataframe.DataFrameInternals{DF: v}
	c := vm.cols[name]
	ok := v.NumAllocatedRows() == n
	for r := 0; r < n && ok; r++ {
		switch c.k {
		case kF:
			ok = sym.And(ok, sym.Same(in.FloatData(name)[r], c.f[r]))
		case kI:
			ok = sym.And(ok, in.IntData(name)[r] == c.i[r])
		case kB:
			ok = sym.And(ok, in.BoolData(name)[r] == c.b[r])
		default:
			ok = sym.And(ok, sameObj(in.ObjectData(name)[r], c.o[r]))
		}
	}
	sym.Assert(ok, "created column is empty outside of the view")
	observe(v, "view")
}

// V05_WriteLarge: writes through slices that took the contiguous fast path.
// bound: 24 backing rows, 1 int and 1 float column, slices of more than 20 rows, one arbitrary write of an arbitrary row, then a nested slice
// cover: contiguous
func V05_WriteLarge() {
	n := 24
	m := &mdl{cols: map[string]*col{"i1": {k: kI}, "f1": {k: kF}}, idx: iota_(n)}
	for r := 0; r < n; r++ {
		m.cols["i1"].i = append(m.cols["i1"].i, r)
		m.cols["f1"].f = append(m.cols["f1"].f, float64(r))
	}
	df := m.build()
	from := sym.Choose("from", 3)
	to := n - sym.Choose("cut", 2)
	v, vm := df.SliceView(from, to), m.pick(iota_(n)[from:to])
	if !v.AreIndicesAltered() {
		sym.Cover("contiguous")
	}
	if sym.Choose("sub", 2) == 1 {
		v, vm = v.SliceView(2, 4), vm.pick([]int{2, 3})
	}
	row := sym.IntRange("row", 0, vm.rows()-1)
	if sym.Choose("type", 2) == 0 {
		x := sym.Int("i")
		v.Ints("i1").Set(row, x)
		vm.setI("i1", row, x)
	} else {
		xs := make([]float64, vm.rows())
		for j := range xs {
			xs[j] = sym.Float64("f")
			vm.setF("f1", j, xs[j])
		}
		v.OverwriteFloats64("f1", xs)
	}
	vm.check(v, "written frame")
	m.check(df, "base")
}

// V05_NoColumns: the first column of a frame that has none.
// bound: 1..3 backing rows; an EmptyDataFrame, a frame or a view whose columns were all dropped, or a ColumnView of no existing column, then one arbitrary row view; each Overwrite method with arbitrary values, or an allocated column set in one row
// cover: alloc
func V05_NoColumns() {
	n := 1 + sym.Choose("n", 3)
	m := &mdl{cols: map[string]*col{"f1": newCol(kF, n), "s1": newCol(kS, n)}, idx: iota_(n)}
	for r := 0; r < n; r++ {
		m.cols["f1"].f[r], m.cols["s1"].o[r] = sym.Float64("f1"), "s"
	}
	df := m.build()
	none := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	e := df
	switch sym.Choose("how", 6) {
	case 0:
		e = dataframe.EmptyDataFrame(n, 1)
	case 1:
		e = df.ReverseView()
		e.Drop("f1", "s1")
		none = none.pick(rev(n))
	case 2:
		e = df.SliceView(1, n)
		e = e.ColumnView("nothing")
		none = none.pick(iota_(n)[1:])
	case 3:
		e = df.ShallowCopy()
		e.Drop("s1", "f1")
	case 4:
		e = df.Copy()
		e.Drop("s1")
		e.Drop("f1")
		e = e.ShallowCopy()
	case 5:
		e = df.DetachedView()
		e.Drop("f1", "s1")
		e = e.View()
	}
	v, vm := rowOp(e, none, "op")
	if v == e {
		v, vm = e.View(), none.view()
	}
	if sym.Choose("alloc", 2) == 1 {
		sym.Cover("alloc")
		v.AllocInts("c")
		v.AllocStrings("s")
		vm.cols["c"], vm.cols["s"] = newCol(kI, n), newCol(kS, n)
		if r := vm.rows(); r > 0 {
			row, x := sym.IntRange("row", 0, r-1), sym.Int("x")
			v.Ints("c").Set(row, x)
			vm.setI("c", row, x)
		}
	} else {
		create(v, vm, n, "c")
	}
	vm.check(v, "written frame")
	none.check(e, "frame without columns")
	m.check(df, "base")
}

// otherType is a method of createAs that makes a column of another type than name has.
func otherType(name, label string) int {
	hows := map[string][]int{"f1": {1, 2, 3, 4, 6}, "i1": {0, 2, 3, 4, 5, 6}, "b1": {0, 1, 4, 5, 6}, "s1": {0, 1, 2, 5}, "o1": {0, 1, 2, 5}}[name]
	return hows[sym.Choose(label, len(hows))]
}

// V05_Retype: overwriting a column by one of another type, through an arbitrary view.
// bound: 0..2 backing rows (thorough 3), all column types, 1 arbitrary view operation, a column of each type overwritten by each method of another type, arbitrary values; overwriting objects as strings and strings as objects
// cover: retyped kept
func V05_Retype() {
	n := sym.Choose("n", sym.Quick(3, 4))
	m := newModel("", n)
	df := m.build()
	sib, sm := df.ReverseView(), m.pick(rev(n))
	v, vm := rowOp(df, m, "op")
	if v == df {
		v, vm = df.View(), m.view()
	}
	fm := m.freeze()
	k := sym.Choose("name", 7)
	if k < 5 {
		name := []string{"f1", "i1", "b1", "s1", "o1"}[k]
		createAs(v, vm, n, name, otherType(name, "how"), "c")
		fm.check(df, "base")
		sm.withCols(fm).check(sib, "sibling view")
		sym.Cover("retyped")
	} else {
		// the type of objects is only looked at when the column is new
		name, t := "s1", dataframe.AnyObject
		if k == 6 {
			name, t = "o1", dataframe.StringObject
		}
		xs := make([]interface{}, vm.rows())
		for j := range xs {
			xs[j] = "z" + itoa(j)
			vm.setO(name, j, xs[j])
		}
		v.OverwriteObjects(name, xs, t)
		m.check(df, "base")
		sm.check(sib, "sibling view")
		sym.Cover("kept")
	}
	vm.check(v, "written frame")
}

// withCols is the frame with the same rows of other columns.
func (m *mdl) withCols(o *mdl) *mdl { return &mdl{cols: o.cols, idx: m.idx} }
