package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// anyView is one arbitrary view of df (never df itself).
func anyView(df *dataframe.DataFrame, m *mdl, label string) (*dataframe.DataFrame, *mdl) {
	n := m.rows()
	switch sym.Choose(label, 7) {
	case 0:
		return df.View(), m.view()
	case 1:
		if n == 0 {
			return df.IndexView([]int{}), m.pick(nil)
		}
		idx := symIdx(label+".idx", 2, n)
		return df.IndexView(idx), m.pick(idx)
	case 2:
		return df.ShallowCopy(), m.view()
	case 3:
		return df.ColumnView("f1", "i1", "s1", "o1", "b1"), m.only("f1", "i1", "s1", "o1", "b1")
	case 4:
		return df.ColumnView(m.names()...), m.view()
	case 5:
		if n == 0 {
			return df.SliceView(0, 0), m.view()
		}
		return df.SliceView(1, -1), m.pick(iota_(n)[1:])
	}
	return df.DetachedView("f1", "s1"), m.detach("f1", "s1")
}

func (m *mdl) rename(old, new string) {
	c := m.cols[old]
	delete(m.cols, old)
	m.cols[new] = c
}

func zeroCol(k kind, n int) *col {
	return &col{k: k, f: make([]float64, n), i: make([]int, n), b: make([]bool, n), o: make([]interface{}, n)}
}

func trim(c *col) *col {
	switch c.k {
	case kF:
		return &col{k: kF, f: c.f}
	case kI:
		return &col{k: kI, i: c.i}
	case kB:
		return &col{k: kB, b: c.b}
	}
	return &col{k: c.k, o: c.o}
}

func newCol(k kind, n int) *col { return trim(zeroCol(k, n)) }

// restructure applies one arbitrary structural change to v and mirrors it.
// back is the number of rows of the model's backing data.
func restructure(v *dataframe.DataFrame, vm *mdl, back int, op int, label string) {
	has := func(n string) bool { _, ok := vm.cols[n]; return ok }
	switch op {
	case 0: // rename to a fresh name, every type
		old := []string{"f1", "i1", "b1", "s1", "o1"}[sym.Choose(label+".old", 5)]
		if has(old) {
			v.Rename(old, "fresh")
			vm.rename(old, "fresh")
		}
	case 1: // rename onto an existing column of the same type
		k := sym.Choose(label+".old", 3)
		old, new := []string{"f1", "i1", "o1"}[k], []string{"f2", "i2", "s1"}[k]
		if has(old) && has(new) {
			v.Rename(old, new)
			vm.rename(old, new)
		}
	case 2: // drop, every type, missing names ignored
		old := []string{"f1", "i1", "b1", "s1", "o1", "nothing"}[sym.Choose(label+".old", 6)]
		v.Drop(old)
		delete(vm.cols, old)
	case 3:
		v.Drop("f1", "s1", "o1")
		delete(vm.cols, "f1")
		delete(vm.cols, "s1")
		delete(vm.cols, "o1")
	case 4:
		v.AllocFloats("new", "new2")
		vm.cols["new"], vm.cols["new2"] = newCol(kF, back), newCol(kF, back)
	case 5:
		v.AllocInts("new")
		vm.cols["new"] = newCol(kI, back)
	case 6:
		v.AllocBools("new")
		vm.cols["new"] = newCol(kB, back)
	case 7:
		v.AllocObjects("new")
		vm.cols["new"] = newCol(kO, back)
	case 8:
		v.AllocStrings("new", "new2")
		vm.cols["new"], vm.cols["new2"] = newCol(kS, back), newCol(kS, back)
	case 9: // a fresh, zeroed column in place of the shared one
		if has("f1") && has("i1") && has("b1") {
			v.AllocFloats("f1")
			v.AllocInts("i1")
			v.AllocBools("b1")
			vm.cols["f1"], vm.cols["i1"], vm.cols["b1"] = newCol(kF, back), newCol(kI, back), newCol(kB, back)
		}
	case 10:
		create(v, vm, back, label+".create")
	case 11, 12:
		if has("i1") {
			c := newCol(kF, back)
			for r, x := range vm.cols["i1"].i {
				c.f[r] = float64(x)
			}
			v.IntToFloats("i1")
			vm.cols["i1"] = c
		}
	case 13:
		if has("b1") {
			c := newCol(kF, back)
			for r, x := range vm.cols["b1"].b {
				c.f[r] = sym.IfFloat(x, 1, 0)
			}
			v.BoolToFloats("b1")
			vm.cols["b1"] = c
		}
	case 14: // columns of another frame with as many allocated rows
		k := v.NumAllocatedRows()
		b := newBuilder()
		fs, ss := make([]float64, k), make([]interface{}, k)
		for j := range fs {
			fs[j] = 7
			ss[j] = "t"
		}
		b.SetFloats("t1", fs)
		b.SetObjects("t2", ss)
		b.MarkAsString("t2")
		o := b.ToDataFrame()
		v.TransferRawDataFrom(&o.RawData)
		c, d := newCol(kF, back), newCol(kS, back)
		for r := 0; r < back; r++ {
			c.f[r], d.o[r] = 7, "t"
		}
		vm.cols["t1"], vm.cols["t2"] = c, d
	case 15: // name swap through a temporary
		if has("i1") && has("o1") {
			v.Rename("i1", "tmp")
			v.Rename("o1", "i1")
			v.Rename("tmp", "o1")
			a, b := vm.cols["i1"], vm.cols["o1"]
			vm.cols["i1"], vm.cols["o1"] = b, a
		}
	case 16: // rename a string column then make the name again
		if has("s1") {
			v.Rename("s1", "fresh")
			vm.rename("s1", "fresh")
			v.AllocObjects("s1")
			vm.cols["s1"] = newCol(kO, back)
		}
	case 17: // rename onto a column of another type
		if has("i1") && has("f1") {
			v.Rename("i1", "f1")
			vm.rename("i1", "f1")
		}
	case 19: // allocate in place of columns of other types
		if has("f1") && has("i1") && has("b1") && has("s1") && has("o1") {
			v.AllocInts("f1", "s1")
			v.AllocStrings("i1")
			v.AllocFloats("o1")
			v.AllocObjects("b1")
			vm.cols["f1"], vm.cols["s1"] = newCol(kI, back), newCol(kI, back)
			vm.cols["i1"], vm.cols["o1"], vm.cols["b1"] = newCol(kS, back), newCol(kF, back), newCol(kO, back)
		}
	case 21: // columns transferred onto columns of other types
		if has("f1") && has("i1") && has("b1") && has("s1") && has("o1") {
			k := v.NumAllocatedRows()
			b := newBuilder()
			b.SetObjects("s1", make([]interface{}, k))
			b.SetObjects("f1", make([]interface{}, k))
			b.MarkAsString("f1")
			b.SetFloats("i1", make([]float64, k))
			b.SetInts("b1", make([]int, k))
			b.SetBools("o1", make([]bool, k))
			o := b.ToDataFrame()
			v.TransferRawDataFrom(&o.RawData)
			vm.cols["s1"], vm.cols["f1"], vm.cols["i1"] = newCol(kO, back), newCol(kS, back), newCol(kF, back)
			vm.cols["b1"], vm.cols["o1"] = newCol(kI, back), newCol(kB, back)
		}
	case 20: // overwrite a column of another type
		name := []string{"f1", "i1", "b1", "s1", "o1"}[sym.Choose(label+".name", 5)]
		if c := vm.cols[name]; c != nil && c.k == map[string]kind{"f1": kF, "i1": kI, "b1": kB, "s1": kS, "o1": kO}[name] {
			hows := map[string][]int{"f1": {1, 6}, "i1": {0, 4}, "b1": {3, 5}, "s1": {1}, "o1": {2}}[name]
			createAs(v, vm, back, name, hows[sym.Choose(label+".how", len(hows))], label)
		}
	case 18: // rename to the same name
		old := []string{"f1", "i1", "b1", "s1", "o1"}[sym.Choose(label+".old", 5)]
		if has(old) {
			v.Rename(old, old)
		}
	}
}

// V06_Structure: one arbitrary structural change on a view of a view.
// bound: 0 or 2 backing rows (0..3 thorough), all column types, every pair of view kinds, every structural operation; base, intermediate frame, their other views and the changed frame compared
// cover: changed
func V06_Structure() {
	n := []int{2, 0, 1, 3}[sym.Choose("n", sym.Quick(2, 4))]
	m := newModel("", n).withNil("s1", 1)
	df := m.build()
	v1, m1 := df, m.view()
	if sym.Choose("deep", 2) == 1 {
		v1, m1 = anyView(df, m, "v1")
	}
	sib1, sm1 := v1.View(), m1.view()
	if sym.Choose("sib", 2) == 1 && m1.rows() > 0 {
		sib1, sm1 = v1.ColumnView("f1", "s1"), m1.only("f1", "s1")
	}
	v, vm := anyView(v1, m1, "v")
	sib2, sm2 := v1.ReverseView(), m1.pick(rev(m1.rows()))
	// the model's columns are shared: freeze the ones that must not change
	fm, fm1, fs1, fs2 := m.freeze(), m1.freeze(), sm1.freeze(), sm2.freeze()
	if sym.Tier() == 1 && sym.Choose("twice", 2) == 1 {
		v.Drop("f2")
		delete(vm.cols, "f2")
	}
	restructure(v, vm, n, sym.Choose("op", sym.Quick(19, 22)), "op")
	fm1.same(v1, "frame the view was taken from")
	fm.same(df, "base")
	fs1.same(sib1, "earlier view")
	fs2.same(sib2, "later view")
	vm.check(v, "changed frame")
	sym.Cover("changed")
	observe(v, "v")
}

// V06_Retype: columns allocated or overwritten under the name of a column of
// another type, in a view.
// bound: 0 or 2 backing rows, every view kind of the base, every type replaced
// cover: changed
func V06_Retype() {
	n := []int{2, 0}[sym.Choose("n", 2)]
	m := newModel("", n).withNil("s1", 1)
	df := m.build()
	sib1, sm1 := df.View(), m.view()
	v, vm := anyView(df, m, "v")
	fm, fs1 := m.freeze(), sm1.freeze()
	restructure(v, vm, n, 19+sym.Choose("op", 3), "op")
	fm.same(df, "base")
	fs1.same(sib1, "earlier view")
	vm.check(v, "changed frame")
	sym.Cover("changed")
	observe(v, "v")
}

// V06_Raw: a frame made of the raw data of a view can be changed without
// changing the frame the view was taken from.
// bound: 2 backing rows, every view kind of the base, every structural operation
// cover: changed
func V06_Raw() {
	n := 2
	m := newModel("", n).withNil("s1", 1)
	df := m.build()
	sib1, sm1 := df.View(), m.view()
	v, vm := anyView(df, m, "v")
	w := v.ToDataFrame()
	wm := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	for c, x := range vm.cols {
		wm.cols[c] = x
	}
	wm.check(w, "frame of the raw data")
	fm, fs1 := m.freeze(), sm1.freeze()
	restructure(w, wm, n, sym.Choose("op", 22), "op")
	fm.same(df, "base")
	fs1.same(sib1, "another view of the base")
	wm.check(w, "changed frame")
	sym.Cover("changed")
	observe(w, "w")
}

// V06_ThenWrite: after a structural change, unaffected columns are still the
// shared data and replaced ones are not.
// bound: 2 backing rows, every view kind, rename/alloc/convert followed by one write
// cover: done
func V06_ThenWrite() {
	n := 2
	m := newModel("", n)
	df := m.build()
	v, vm := anyView(df, m, "v")
	shared := vm.cols["f1"] == m.cols["f1"]
	switch sym.Choose("op", 3) {
	case 0:
		v.Rename("f1", "fresh")
		vm.rename("f1", "fresh")
		if vm.rows() > 0 {
			x := sym.Float64("x")
			v.Floats("fresh").Set(0, x)
			vm.setF("fresh", 0, x)
		}
	case 1:
		v.AllocFloats("f1")
		vm.cols["f1"] = newCol(kF, n)
		if vm.rows() > 0 {
			x := sym.Float64("x")
			v.Floats("f1").Set(0, x)
			vm.setF("f1", 0, x)
		}
	case 2:
		v.Drop("f1")
		delete(vm.cols, "f1")
		if vm.rows() > 0 {
			x := sym.Int("x")
			v.Ints("i1").Set(0, x)
			vm.setI("i1", 0, x)
		}
	}
	m.same(df, "base")
	vm.check(v, "changed frame")
	if shared {
		sym.Cover("done")
	}
	observe(df, "df")
}

// V06_Large: structural changes on slices big enough to get their own maps.
// bound: 73 rows, 5 columns, slices at both ends, nested
// cover: large
func V06_Large() {
	n := 73
	m := smallModel("", n)
	df := m.build()
	from := sym.Choose("from", 2)
	v1, m1 := df.SliceView(from, n), m.pick(iota_(n)[from:])
	w := v1.SliceView(0, -2)
	wm := m1.pick(iota_(m1.rows())[:m1.rows()-1])
	if sym.Choose("nest", 2) == 0 {
		w, wm = v1.View(), m1.view()
	}
	fm, fm1 := m.freeze(), m1.freeze()
	switch sym.Choose("op", 4) {
	case 0:
		w.Drop("b1")
		delete(wm.cols, "b1")
	case 1:
		w.Rename("s1", "fresh")
		wm.rename("s1", "fresh")
	case 2:
		w.AllocStrings("new")
		wm.cols["new"] = newCol(kS, n)
	case 3:
		w.BoolToFloats("b1")
		c := newCol(kF, n)
		for r, x := range wm.cols["b1"].b {
			c.f[r] = sym.IfFloat(x, 1, 0)
		}
		wm.cols["b1"] = c
	}
	fm.same(df, "base")
	fm1.same(v1, "frame the view was taken from")
	wm.check(w, "changed frame")
	sym.Cover("large")
}
