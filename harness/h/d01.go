package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// D01_Access: accessors, vectors and value copies of arbitrary views.
// bound: 0..3 backing rows, all column types, 1 arbitrary row view followed by any of 15 ways to derive a frame (views, splits, sorts, masks, copies, concatenations), one write to every copy
// cover: rows contiguous
func D01_Access() {
	n := sym.Choose("n", sym.Quick(3, 4))
	m := newModel("", n).withNil("o1", 0)
	df := m.build()
	v, vm := rowOp(df, m, "op")
	v, vm, own := derived(v, vm, "op2")
	rows := vm.rows()
	fvm := vm.freeze()
	vm.checkCells(v, "accessors")
	s := v.Strings("s1")
	sym.Assert(s.Size() == rows, "Strings: size")
	for j, r := range vm.idx {
		sym.Assert(sameObj(s.Get(j), vm.cols["s1"].o[r]), "Strings: cells")
		// SharedIndex of an accessor is consistent across columns and rows
		sym.Assert(s.SharedIndex(j) == v.Floats("f1").SharedIndex(j), "SharedIndex differs between columns")
	}
	for _, name := range vm.names() {
		c := v.CopyValuesToInterfaces(name)
		sym.Assert(len(c) == rows, "CopyValuesToInterfaces: length")
		for j, r := range vm.idx {
			k := vm.cols[name]
			switch k.k {
			case kF:
				x, ok := c[j].(float64)
				sym.Assert(ok, "CopyValuesToInterfaces: type")
				sym.Assert(sym.Same(x, k.f[r]), "CopyValuesToInterfaces: float")
			case kI:
				x, ok := c[j].(int)
				sym.Assert(ok, "CopyValuesToInterfaces: type")
				sym.Assert(x == k.i[r], "CopyValuesToInterfaces: int")
			case kB:
				x, ok := c[j].(bool)
				sym.Assert(ok, "CopyValuesToInterfaces: type")
				sym.Assert(x == k.b[r], "CopyValuesToInterfaces: bool")
			default:
				sym.Assert(sameObj(c[j], k.o[r]), "CopyValuesToInterfaces: object")
			}
			c[j] = nil
		}
	}
	fvm.check(v, "frame after changing copied values")
	if rows > 0 {
		sym.Cover("rows")
		if !v.AreIndicesAltered() {
			sym.Cover("contiguous")
		}
		d, e := v.Floats("f1").VecDense(), v.Floats("f1").VecDenseCopy()
		sym.Assert(d.Len() == rows && e.Len() == rows, "VecDense: length")
		for j, r := range vm.idx {
			sym.Assert(sym.Same(d.AtVec(j), vm.cols["f1"].f[r]), "VecDense: values")
			sym.Assert(sym.Same(e.AtVec(j), vm.cols["f1"].f[r]), "VecDenseCopy: values")
		}
		for j := 0; j < rows; j++ {
			e.SetVec(j, sym.Float64("x"))
		}
		fvm.check(v, "frame after changing a VecDenseCopy")
	}
	// a write is seen in the frame's own data
	if rows > 0 && !own {
		row, x := sym.Choose("row", rows), sym.Float64("y")
		v.Floats("f1").Set(row, x)
		vm.setF("f1", row, x)
	}
	vm.check(v, "written frame")
	m.same(df, "base")
	observe(v, "v")
}

// D01_Large: the same on slices that keep contiguous data of their own.
// bound: 73 rows, 5 columns, slices at both ends and nested
// cover: contiguous
func D01_Large() {
	n := 73
	m := smallModel("", n)
	df := m.build()
	from := sym.Choose("from", 2)
	v, vm := df.SliceView(from, -2+from), m.pick(iota_(n)[from:n-1+from])
	switch sym.Choose("nested", 3) {
	case 1:
		v, vm = v.SliceView(1, 62), vm.pick(iota_(vm.rows())[1:62])
	case 2:
		v, vm = v.SliceView(5, 10), vm.pick(iota_(vm.rows())[5:10])
	}
	vm.check(v, "large slice")
	d := v.Floats("f1").VecDense()
	e := v.Floats("f1").VecDenseCopy()
	sym.Assert(d.Len() == vm.rows() && e.Len() == vm.rows(), "VecDense: length")
	for j, r := range vm.idx {
		sym.Assert(sym.Same(d.AtVec(j), vm.cols["f1"].f[r]), "VecDense: values")
		sym.Assert(sym.Same(e.AtVec(j), vm.cols["f1"].f[r]), "VecDenseCopy: values")
		e.SetVec(j, -1)
	}
	vm.check(v, "large slice after changing a VecDenseCopy")
	if !v.AreIndicesAltered() {
		sym.Cover("contiguous")
	}
}

// D01_Internals: the data behind a view.
// bound: 0..3 backing rows, all column types, 1 arbitrary row view and one of 15 derived frames
// cover: done
func D01_Internals() {
	n := sym.Choose("n", sym.Quick(3, 4))
	m := newModel("", n)
	df := m.build()
	v, vm := rowOp(df, m, "op")
	if vm.rows() > 0 {
		v, vm, _ = derived(v, vm, "op2")
	}
	in := dataframe.DataFrameInternals{DF: v}
	idx := in.GetIndices()
	sym.Assert(len(idx) == vm.rows(), "GetIndices: one index per row")
	sym.Assert(len(in.GetMask()) >= vm.rows(), "GetMask: one entry per row")
	f, i, b, s, o := in.FloatData("f1"), in.IntData("i1"), in.BoolData("b1"), in.ObjectData("s1"), in.ObjectData("o1")
	ok := true
	for j, r := range vm.idx {
		ok = sym.And(ok, idx[j] == v.Floats("f1").SharedIndex(j))
		ok = sym.And(ok, sym.Same(f[idx[j]], vm.cols["f1"].f[r]))
		ok = sym.And(ok, i[idx[j]] == vm.cols["i1"].i[r])
		ok = sym.And(ok, b[idx[j]] == vm.cols["b1"].b[r])
		ok = sym.And(ok, sameObj(s[idx[j]], vm.cols["s1"].o[r]))
		ok = sym.And(ok, sameObj(o[idx[j]], vm.cols["o1"].o[r]))
	}
	sym.Assert(ok, "internal data at the internal indices")
	for _, name := range []string{"f1", "i1", "b1", "s1", "o1", "unknown"} {
		if c := vm.cols[name]; c == nil {
			sym.Assert(len(in.FloatData(name)) == 0 && len(in.IntData(name)) == 0 && len(in.BoolData(name)) == 0 && len(in.ObjectData(name)) == 0, "data of an unknown column")
		} else if len(idx) > 0 {
			sym.Assert((len(in.FloatData(name)) > 0) == (c.k == kF), "FloatData of another column")
			sym.Assert((len(in.IntData(name)) > 0) == (c.k == kI), "IntData of another column")
			sym.Assert((len(in.BoolData(name)) > 0) == (c.k == kB), "BoolData of another column")
			sym.Assert((len(in.ObjectData(name)) > 0) == (c.k == kS || c.k == kO), "ObjectData of another column")
		}
	}
	sym.Cover("done")
}
