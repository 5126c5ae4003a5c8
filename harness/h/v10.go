package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// maskBase is a frame obtained in one of the ways frames come into being.
func maskBase(n int) (*dataframe.DataFrame, *mdl) {
	m := smallModel("", n)
	df := m.build()
	switch sym.Choose("base", 7) {
	case 1:
		return df.Copy(), m
	case 2:
		r, err := dataframe.RowConcat(df, df)
		sym.Assert(err == nil, "RowConcat fails")
		return r, m.pick(append(iota_(n), iota_(n)...))
	case 3:
		k := m.only("i1")
		k.cols["extra"] = k.cols["i1"]
		b := newBuilder()
		b.SetInts("extra", append([]int{}, m.cols["i1"].i...))
		r, err := dataframe.ColumnConcatView(b.ToDataFrame(), df.ColumnView("i1"))
		sym.Assert(err == nil, "ColumnConcatView fails")
		return r, k
	case 4:
		s := df.SplitNView(2)
		if n == 0 {
			return s[1], m
		}
		return s[0], m.pick(iota_(n)[:(n+1)/2])
	case 5:
		return df.ShallowCopy(), m
	case 6:
		return df.DetachedView(), m
	}
	return df, m
}

// V10_Masks: masks of arbitrary views, and masking with them.
// bound: 0..2 backing rows in 7 kinds of base frame, 2 chained arbitrary row views (views larger than their parents included), every mask after arbitrary stale contents, both modes
// cover: larger masked
func V10_Masks() {
	n := sym.Choose("n", sym.Quick(3, 4))
	df, m := maskBase(n)
	if sym.Choose("safe", 2) == 1 {
		df = df.ThreadSafeMasking(true)
	}
	v, vm := rowOp(df, m, "op")
	if sym.Tier() == 1 {
		v, vm = rowOp(v, vm, "op2")
	} else if vm.rows() > 0 {
		switch sym.Choose("op2", 3) {
		case 1:
			// one more row than the parent
			idx := append(iota_(vm.rows()), sym.IntRange("again", 0, vm.rows()-1))
			v, vm = v.IndexView(idx), vm.pick(idx)
		case 2:
			v, vm = v.SliceView(0, 1), vm.pick([]int{0})
		}
	}
	rows := vm.rows()
	e := v.EmptyMask()
	sym.Assert(len(e) == rows, "EmptyMask: one entry per row")
	for j := range e {
		e[j] = sym.Bool("stale")
	}
	var z []bool
	if sym.Choose("zero", 2) == 1 {
		z = v.ZeroMask()
		sym.Assert(len(z) == rows, "ZeroMask: one entry per row")
		for j := range z {
			sym.Assert(!z[j], "ZeroMask: all false")
		}
	} else {
		z = v.EmptyMask()
		sym.Assert(len(z) == rows, "EmptyMask: one entry per row")
	}
	var pick []int
	for j := 0; j < rows; j++ {
		z[j] = sym.Choose("mask", 2) == 1
		if z[j] {
			pick = append(pick, j)
		}
	}
	got := v.MaskView(z)
	vm.pick(pick).same(got, "MaskView of a filled mask")
	// the masks of the result are complete, too
	sym.Assert(len(got.ZeroMask()) == len(pick), "ZeroMask of the masked view")
	vm.same(v, "frame after masking")
	if rows > m.rows() {
		sym.Cover("larger")
	}
	sym.Cover("masked")
	observe(got, "r")
}

// V10_ThreadSafe: in thread-safe mode masks never share memory.
// bound: 1..3 rows, all pairs of masks out of frame, view, view of view, copies; arbitrary mask contents
// cover: pair
func V10_ThreadSafe() {
	n := 1 + sym.Choose("n", 3)
	df := smallModel("", n).build().ThreadSafeMasking(true)
	idx := append(iota_(n), 0)
	frame := func(label string) *dataframe.DataFrame {
		switch sym.Choose(label, 9) {
		case 0:
			return df
		case 1:
			return df.View()
		case 2:
			return df.IndexView(idx)
		case 3:
			return df.IndexView(idx).ReverseView()
		case 4:
			return df.ShallowCopy()
		case 5:
			return df.SliceView(0, 1)
		case 6:
			return df.ColumnView("f1")
		case 7:
			return df.DetachedView("f1").MaskView(df.ZeroMask())
		}
		return df.Copy()
	}
	mask := func(f *dataframe.DataFrame, label string) []bool {
		if sym.Choose(label, 2) == 1 {
			return f.ZeroMask()
		}
		return f.EmptyMask()
	}
	f, g := frame("f"), frame("g")
	a := mask(f, "maskf")
	w := make([]bool, len(a))
	for j := range a {
		w[j] = sym.Bool("bit")
		a[j] = w[j]
	}
	b := mask(g, "maskg")
	sym.Assert(len(b) == g.NumRows(), "mask length")
	for j := range a {
		sym.Assert(a[j] == w[j], "asking for a mask changes another one")
	}
	for j := range b {
		b[j] = sym.Bool("bit2")
	}
	for j := range a {
		sym.Assert(a[j] == w[j], "masks share memory in thread-safe mode")
	}
	sym.Cover("pair")
}

// masksApart asserts that masks of two independent frames are independent.
func masksApart(f, g *dataframe.DataFrame, label string) {
	a := f.EmptyMask()
	w := make([]bool, len(a))
	for j := range a {
		w[j] = sym.Bool("bit")
		a[j] = w[j]
	}
	b := g.ZeroMask()
	for j := range b {
		b[j] = sym.Bool("bit2")
	}
	for j := range a {
		sym.Assert(a[j] == w[j], label+": masks of independent frames share memory")
	}
}
