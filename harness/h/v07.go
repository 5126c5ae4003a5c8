package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// V07_Detach: detach or unshare columns of an arbitrary view, then write.
// bound: 2 or no backing rows, all column types, 2 chained arbitrary view kinds, with or without an operation on a sub-view first, every choice of detached columns, any write of arbitrary values
// cover: detached
func V07_Detach() {
	n := []int{2, 0}[sym.Choose("n", 2)]
	m := newModel("", n)
	df := m.build()
	v1, m1 := df, m.view()
	if sym.Choose("deep", 2) == 1 {
		v1, m1 = anyView(df, m, "v1")
	}
	v, vm := anyView(v1, m1, "v")
	sib, sm := v1.View(), m1.view()
	// what is done to views of v must not matter to v
	switch sym.Choose("sub", 6) {
	case 1:
		v.ColumnView("f1", "s1", "b1", "i1", "o1").Unshare("f1", "s1")
	case 2:
		v.View().Unshare()
	case 3:
		v.ColumnView("f1").Unshare("f1")
		w := v.View()
		w.Drop("b1", "o1", "i1", "s1", "f1")
	case 4:
		w := v.DetachedView("i1", "b1", "o1")
		w.Rename("i1", "fresh")
		w.AllocFloats("i1")
	case 5:
		w := v.ShallowCopy()
		w.Rename("f1", "tmp")
		w.Rename("s1", "f1")
		w.Drop("o1")
	}
	var cols []string
	switch sym.Choose("cols", 4) {
	case 1:
		cols = []string{"f1", "s1"}
	case 2:
		cols = []string{"i1"}
	case 3:
		cols = []string{"b1", "o1", "nothing"}
	}
	fm, fm1, fvm, fsm := m.freeze(), m1.freeze(), vm.freeze(), sm.freeze()
	d := v
	dm := vm.detach(cols...)
	if sym.Choose("inplace", 2) == 1 {
		d.Unshare(cols...)
	} else {
		d = v.DetachedView(cols...)
	}
	dm.check(d, "detached frame before writing")
	switch len(cols) {
	case 0:
		write(d, dm, "w")
	default:
		for _, c := range cols {
			for j := 0; j < dm.rows(); j++ {
				switch c {
				case "f1":
					x := sym.Float64("x")
					d.Floats("f1").Set(j, x)
					dm.setF("f1", j, x)
				case "i1":
					x := sym.Int("x")
					d.Ints("i1").Set(j, x)
					dm.setI("i1", j, x)
				case "b1":
					x := sym.Bool("x")
					d.Bools("b1").Set(j, x)
					dm.setB("b1", j, x)
				case "s1":
					d.Strings("s1").Set(j, "zz"+itoa(j))
					dm.setO("s1", j, "zz"+itoa(j))
				case "o1":
					d.Objects("o1").Set(j, -j)
					dm.setO("o1", j, -j)
				}
			}
		}
	}
	dm.same(d, "detached frame after writing")
	if d != v {
		fvm.same(v, "frame it was detached from")
	}
	fm1.same(v1, "parent")
	fm.same(df, "base")
	fsm.same(sib, "sibling view")
	sym.Cover("detached")
	observe(d, "d")
}

// V07_Large: the same through slices that get their own maps.
// bound: 73 rows, 5 columns, slice at either end, detach all or some columns (a view or the slice itself), writes to the last row of a bool, string and object column and to an arbitrary row of a float column
// cover: detached others
func V07_Large() {
	n := 73
	m := smallModel("", n)
	df := m.build()
	from := sym.Choose("from", 2)
	v, vm := df.SliceView(from, -2+from), m.pick(iota_(n)[from:n-1+from])
	if sym.Choose("sub", 2) == 1 {
		v.ColumnView("f1", "s1").Unshare("f1")
	}
	fm, fvm := m.freeze(), vm.freeze()
	d, dm := v, vm
	switch sym.Choose("how", 6) {
	case 0:
		d, dm = v.DetachedView("f1", "i1"), vm.detach("f1", "i1")
	case 1:
		d, dm = v.DetachedView(), vm.detach()
	case 2:
		d, dm = v.DetachedView("o1", "s1", "b1"), vm.detach("o1", "s1", "b1")
	case 3:
		v.Unshare("f1", "i1")
		dm = vm.detach("f1", "i1")
		v, fvm = df, fm
	case 4:
		v.Unshare()
		dm = vm.detach()
		v, fvm = df, fm
	case 5:
		v.Unshare("o1", "s1", "b1")
		dm = vm.detach("o1", "s1", "b1")
		v, fvm = df, fm
	}
	if d == v {
		return
	}
	last := vm.rows() - 1
	if sym.Choose("others", 2) == 1 && dm.cols["o1"] != vm.cols["o1"] {
		d.Objects("o1").Set(last, "v")
		dm.setO("o1", last, "v")
		d.Strings("s1").Set(last, "w")
		dm.setO("s1", last, "w")
		b := sym.Bool("b")
		d.Bools("b1").Set(last, b)
		dm.setB("b1", last, b)
		dm.same(d, "detached frame after writing")
		fvm.same(v, "frame it was detached from")
		fm.same(df, "base")
		sym.Cover("others")
	}
	if dm.cols["f1"] == vm.cols["f1"] {
		return
	}
	row, x := sym.IntRange("row", 0, vm.rows()-1), sym.Float64("x")
	d.Floats("f1").Set(row, x)
	dm.setF("f1", row, x)
	d.Ints("i1").Set(last, 5)
	dm.setI("i1", last, 5)
	dm.same(d, "detached frame after writing")
	fvm.same(v, "frame it was detached from")
	fm.same(df, "base")
	sym.Cover("detached")
}

// V07_Steps: columns are detached a few at a time.

// bound: 2 rows, 4 columns (of 4 types), 5 kinds of view, 3 steps (thorough 4) each detaching (in place or by a view) an arbitrary subset of {first, second, third, a missing name} of at least one column, then one write to each column ever detached
// cover: steps
func V07_Steps() {
	m := newModel("", 2).only("f1", "i1", "s1", "b1")
	df := m.build()
	v, vm := df, m.view()
	switch sym.Choose("view", 5) {
	case 0:
		v, vm = df.View(), m.view()
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(2))
	case 2:
		v, vm = df.ShallowCopy(), m.view()
	case 3:
		v, vm = df.ColumnView("f1", "i1", "s1", "b1"), m.view()
	case 4:
		v, vm = df.View(), m.view()
		v.AllocFloats("new")
		vm.cols["new"] = &col{k: kF, f: make([]float64, 2)}
	}
	base := m.freeze()
	names := []string{"f1", "i1", "s1"}
	own := map[string]bool{}
	every := false
	steps := sym.Quick(3, 4)
	for k := 0; k < steps; k++ {
		var cols []string
		set := sym.Choose("set", 15) + 1
		for i, c := range append(names, "missing") {
			if set&(1<<uint(i)) != 0 {
				cols = append(cols, c)
				own[c] = true
			}
		}
		// (as many names as columns are taken as all the columns)
		every = every || len(cols) == len(vm.cols)
		vm = vm.detach(cols...)
		if k&1 == 0 {
			v.Unshare(cols...)
		} else if sym.Choose("inplace", 2) == 0 {
			v = v.DetachedView(cols...)
		} else {
			v.Unshare(cols...)
		}
	}
	for _, c := range names {
		if !own[c] {
			continue
		}
		switch c {
		case "f1":
			x := sym.Float64("x")
			v.Floats(c).Set(1, x)
			vm.setF(c, 1, x)
		case "i1":
			x := sym.Int("x")
			v.Ints(c).Set(0, x)
			vm.setI(c, 0, x)
		case "s1":
			v.Strings(c).Set(1, "changed")
			vm.setO(c, 1, "changed")
		}
	}
	vm.check(v, "detached frame after writing")
	base.same(df, "base")
	if every {
		return
	}
	// what was not detached is still shared
	y := sym.Bool("y")
	df.Bools("b1").Set(0, y)
	sym.Assert(v.Bools("b1").Get(vm.idx[0]) == y, "a column that was not detached is not shared anymore")
	sym.Cover("steps")
}

// V07_History: detaching in between changes of structure and further views.
// bound: 2 rows, 3 columns (float, int, bool), arbitrary order of 3 steps (thorough 5) on the newest frame among 10: detach one column (in place or by a view) or all, rename, exchange two names, take a view, convert a column, replace a column, select columns; then one write to each column of the newest frame
// cover: history
func V07_History() {
	m := newModel("", 2).only("f1", "i1", "b1")
	m.cols["i1"].i[0], m.cols["i1"].i[1] = 3, -4
	df := m.build()
	v, vm := df.View(), m.view()
	dfs, ms := []*dataframe.DataFrame{df}, []*mdl{m}
	next := func(w *dataframe.DataFrame, wm *mdl) {
		dfs, ms = append(dfs, v), append(ms, vm)
		v, vm = w, wm
	}
	fc, ic := "f1", "i1"
	move := func(from, to string) {
		vm.cols[to] = vm.cols[from]
		delete(vm.cols, from)
		v.Rename(from, to)
	}
	steps := sym.Quick(3, 5)
	for k := 0; k < steps; k++ {
		vm = vm.view()
		switch sym.Choose("step", 10) {
		case 0:
			v.Unshare(fc)
			vm = vm.detach(fc)
		case 1:
			next(v.DetachedView(ic), vm.detach(ic))
		case 2:
			v.Unshare(ic)
			vm = vm.detach(ic)
		case 3:
			v.Unshare()
			vm = vm.detach()
		case 4:
			move(fc, fc+"x")
			fc += "x"
		case 5:
			move(fc, "tmp")
			move(ic, fc)
			move("tmp", ic)
			fc, ic = ic, fc
		case 6:
			next(v.View(), vm.view())
		case 7:
			if vm.cols[ic].k == kI {
				v.IntToFloats(ic)
				c := &col{k: kF}
				for _, x := range vm.cols[ic].i {
					c.f = append(c.f, float64(x))
				}
				vm.cols[ic] = c
			}
		case 8:
			v.Drop(fc)
			v.AllocFloats(fc)
			vm.cols[fc] = &col{k: kF, f: make([]float64, 2)}
		case 9:
			next(v.ColumnView(fc, ic), vm.only(fc, ic))
		}
	}
	x := sym.Float64("x")
	v.Floats(fc).Set(1, x)
	vm.setF(fc, 1, x)
	if vm.cols[ic].k == kI {
		y := sym.Int("y")
		v.Ints(ic).Set(0, y)
		vm.setI(ic, 0, y)
	} else {
		v.Floats(ic).Set(0, 7.5)
		vm.setF(ic, 0, 7.5)
	}
	vm.check(v, "newest frame after writing")
	for j := range dfs {
		ms[j].same(dfs[j], "earlier frame "+itoa(j))
	}
	sym.Cover("history")
}

// V07_Raw: frames made of raw data that others share.
// bound: 2 rows, all column types; merged or transferred columns, or the raw data of every view kind; detached in place or by a view, all columns or some, then one write to each
// cover: merged viewed
func V07_Raw() {
	n := 2
	m := newModel("", n)
	df := m.build()
	sib, sm := df.View(), m.view()
	var d *dataframe.DataFrame
	dm := m.view()
	switch sym.Choose("source", 3) {
	case 0:
		rest := m.only("f1", "i1", "s1").names()
		d = dataframe.MergeRawDataColumns([]*dataframe.RawData{
			&df.ColumnView(rest...).RawData, &df.View().RawData}).ToDataFrame()
		sym.Cover("merged")
	case 1:
		d = dataframe.EmptyDataFrame(n, 1)
		d.TransferRawDataFrom(&df.RawData)
	case 2:
		v, vm := anyView(df, m, "v")
		d = v.ToDataFrame()
		dm = &mdl{cols: vm.cols, idx: iota_(n)}
		sym.Cover("viewed")
	}
	dm.same(d, "frame of shared data")
	var cols []string
	if sym.Choose("cols", 2) == 1 {
		cols = []string{"f1", "s1"}
	}
	fm, fs := m.freeze(), sm.freeze()
	dm = dm.detach(cols...)
	if sym.Choose("inplace", 2) == 1 {
		d.Unshare(cols...)
	} else {
		d = d.DetachedView(cols...)
	}
	dm.same(d, "detached frame before writing")
	if len(cols) == 0 {
		write(d, dm, "w")
	} else {
		r := sym.Choose("row", n)
		if c := dm.cols["f1"]; c != nil {
			x := sym.Float64("x")
			d.Floats("f1").Set(r, x)
			dm.setF("f1", r, x)
		}
		if c := dm.cols["s1"]; c != nil {
			d.Strings("s1").Set(r, "new")
			dm.setO("s1", r, "new")
		}
	}
	dm.same(d, "detached frame after writing")
	fm.same(df, "frame whose data was shared")
	fs.same(sib, "view of the frame whose data was shared")
	observe(d, "d")
}
