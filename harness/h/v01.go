package h

import (
	"verifharness/sym"
)

// V01_IndexView: arbitrary positions, with repetition, on an arbitrary base.
// bound: 0..3 backing rows (thorough 4), 7 columns of all 5 types with arbitrary cells, 1 arbitrary earlier view operation, 0..4 arbitrary positions
// cover: larger empty
func V01_IndexView() {
	n := sym.Choose("n", sym.Quick(4, 5))
	m := newModel("", n)
	df := m.build()
	v, vm := rowOp(df, m, "op")
	k := 0
	if vm.rows() > 0 {
		k = sym.Choose("k", 5)
	}
	idx := symIdx("idx", k, vm.rows())
	given := append([]int(nil), idx...)
	got := v.IndexView(given)
	// the caller's slice is not kept
	for j := range given {
		given[j] = 0
	}
	vm.pick(idx).check(got, "IndexView")
	vm.check(v, "parent after IndexView")
	m.check(df, "base after IndexView")
	if k > n {
		sym.Cover("larger")
	}
	if k == 0 {
		sym.Cover("empty")
	}
	observe(got, "r")
}

// V01_SliceView: arbitrary bounds, negative and reversed ones included.
// bound: 0..4 backing rows (thorough 6), all column types, 1 arbitrary earlier view operation, bounds arbitrary in [-rows-1, rows]
// cover: reversed negative
func V01_SliceView() {
	n := sym.Choose("n", sym.Quick(5, 7))
	m := newModel("", n)
	df := m.build()
	v, vm := rowOp(df, m, "op")
	r := vm.rows()
	from := sym.IntRange("from", -r-1, r)
	to := sym.IntRange("to", -r-1, r)
	if from < 0 || to < 0 {
		sym.Cover("negative")
	}
	got := v.SliceView(from, to)
	a, b := from, to
	if a < 0 {
		a += r + 1
	}
	if b < 0 {
		b += r + 1
	}
	var idx []int
	if a <= b {
		for i := a; i < b; i++ {
			idx = append(idx, i)
		}
	} else {
		sym.Cover("reversed")
		for i := a - 1; i >= b; i-- {
			idx = append(idx, i)
		}
	}
	vm.pick(idx).check(got, "SliceView")
	vm.check(v, "parent after SliceView")
	m.check(df, "base after SliceView")
	observe(got, "r")
}

// V01_SliceLarge: slices long enough for the contiguous fast path, then another view.
// bound: 13 (thorough 24) backing rows, 1 int column, arbitrary bounds, then one arbitrary IndexView, SliceView or ReverseView
// cover: long short
func V01_SliceLarge() {
	n := sym.Quick(13, 24)
	m := &mdl{cols: map[string]*col{"i": {k: kI}}, idx: iota_(n)}
	for r := 0; r < n; r++ {
		m.cols["i"].i = append(m.cols["i"].i, sym.Int("i"))
	}
	df := m.build()
	pre := sym.Choose("pre", 3)
	v, vm := df, m
	if pre == 1 {
		v, vm = df.SliceView(1, n), m.pick(iota_(n)[1:])
	} else if pre == 2 {
		v, vm = df.ReverseView(), m.pick(rev(n))
	}
	r := vm.rows()
	from := sym.IntRange("from", 0, r)
	to := sym.IntRange("to", 0, r)
	sym.Assume(from <= to)
	got := v.SliceView(from, to)
	from, to = fixed(from, 0, r), fixed(to, 0, r)
	if to-from > 10 {
		sym.Cover("long")
	} else {
		sym.Cover("short")
	}
	gm := vm.pick(iota_(r)[from:to])
	gm.check(got, "SliceView")
	k := gm.rows()
	switch sym.Choose("post", 3) {
	case 0:
		if k > 0 {
			idx := symIdx("idx", 2, k)
			gm.pick(idx).check(got.IndexView(idx), "IndexView of SliceView")
		}
	case 1:
		gm.pick(rev(k)).check(got.ReverseView(), "ReverseView of SliceView")
	case 2:
		if k > 1 {
			gm.pick(iota_(k)[1:k]).check(got.SliceView(1, -1), "SliceView of SliceView")
		}
	}
	vm.check(v, "parent after SliceView")
	m.check(df, "base after SliceView")
}

// fixed turns a symbolic int into a concrete one by forking.
func fixed(x, lo, hi int) int {
	for i := lo; i < hi; i++ {
		if x == i {
			return i
		}
	}
	return hi
}

// V01_MaskView: arbitrary masks, arbitrary base; ReverseView.
// bound: 0..3 backing rows (thorough 5), all column types, 1 arbitrary earlier view operation, every mask of one entry per row or one less
// cover: none all
func V01_MaskView() {
	n := sym.Choose("n", sym.Quick(4, 6))
	m := newModel("", n)
	df := m.build()
	v, vm := rowOp(df, m, "op")
	r := vm.rows()
	// a mask may stop before the last row
	mask := make([]bool, max(0, r-sym.Choose("short", 2)))
	for i := range mask {
		mask[i] = sym.Bool("mask")
	}
	given := append([]bool(nil), mask...)
	got := v.MaskView(given)
	var idx []int
	for i, b := range mask {
		if b {
			idx = append(idx, i)
		}
	}
	vm.pick(idx).check(got, "MaskView")
	vm.check(v, "parent after MaskView")
	m.check(df, "base after MaskView")
	if len(idx) == 0 {
		sym.Cover("none")
	}
	if len(idx) == r {
		sym.Cover("all")
	}
	rv := got.ReverseView()
	g := vm.pick(idx)
	g.pick(rev(g.rows())).check(rv, "ReverseView")
	g.check(got, "parent after ReverseView")
	observe(rv, "r")
}
