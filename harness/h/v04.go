package h

import (
	"verifharness/sym"
)

// V04_Shuffle: every outcome of the random generator.
// bound: 0..4 rows (thorough 5), every shuffle, all column types, base as is or any one view operation
func V04_Shuffle() {
	n := sym.Choose("n", sym.Quick(5, 6))
	m := idModel(n)
	m.cols["f"] = &col{k: kF, f: []float64{}}
	m.cols["b"] = &col{k: kB, b: []bool{}}
	for r := 0; r < n; r++ {
		m.cols["f"].f = append(m.cols["f"].f, sym.Float64("f"))
		m.cols["b"].b = append(m.cols["b"].b, sym.Bool("b"))
	}
	df := m.build()
	v, vm := df, m
	switch sym.Choose("pre", 4) {
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 2:
		if n > 1 {
			v, vm = df.SliceView(1, n), m.pick(iota_(n)[1:])
		}
	case 3:
		if n > 1 {
			v, vm = df.IndexView([]int{1, 0, 1}), m.pick([]int{1, 0, 1})
		}
	}
	sym.SymbolicRand(true)
	got := v.ShuffleView()
	sym.SymbolicRand(false)
	sameRows(got.NumRows(), got.Ints("id").Get, vm, vm.rows(), "ShuffleView")
	pm := m.view()
	pm.idx = make([]int, got.NumRows())
	for j := range pm.idx {
		pm.idx[j] = got.Ints("id").Get(j)
	}
	pm.check(got, "ShuffleView rows")
	vm.check(v, "parent after ShuffleView")
	m.check(df, "base after ShuffleView")
}

// sameRows asserts that the k rows are part of m's rows counting repetitions
// (exactly m's rows when k is their number).
func sameRows(n int, id func(int) int, m *mdl, k int, label string) {
	sym.Assert(n == k, label+": number of rows")
	size := 0
	for _, c := range m.cols {
		size = c.rows()
	}
	for r := 0; r < size; r++ {
		have, want := 0, 0
		for j := 0; j < k; j++ {
			have += sym.IfInt(id(j) == r, 1, 0)
		}
		for _, q := range m.idx {
			if q == r {
				want++
			}
		}
		if k == m.rows() {
			sym.Assert(have == want, label+": same rows, each as often")
		} else {
			sym.Assert(have <= want, label+": no row more often than it occurs")
		}
	}
	in := true
	for j := 0; j < k; j++ {
		in = sym.And(in, sym.And(id(j) >= 0, id(j) < size))
	}
	sym.Assert(in, label+": only known rows")
}

// V04_Sample: sampling without replacement, every outcome.
// bound: 1..4 rows (thorough 5), sample size 0..rows, every random outcome, base as is, reversed or with a repeated row
func V04_Sample() {
	n := 1 + sym.Choose("n", sym.Quick(4, 5))
	m := idModel(n)
	df := m.build()
	v, vm := df, m
	switch sym.Choose("pre", 3) {
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 2:
		if n > 1 {
			v, vm = df.IndexView([]int{1, 0, 1}), m.pick([]int{1, 0, 1})
		}
	}
	k := sym.Choose("k", vm.rows()+1)
	sym.SymbolicRand(true)
	got := v.SampleView(k, false)
	sym.SymbolicRand(false)
	sameRows(got.NumRows(), got.Ints("id").Get, vm, k, "SampleView")
	pm := m.view()
	pm.idx = make([]int, got.NumRows())
	for j := range pm.idx {
		pm.idx[j] = got.Ints("id").Get(j)
	}
	pm.check(got, "SampleView rows")
	sym.Assert(sym.Panics(func() { v.SampleView(vm.rows()+1, false) }), "SampleView: too large a sample panics")
	vm.check(v, "parent after SampleView")
	m.check(df, "base after SampleView")
}

// V04_ResetIndex: back to the order of the underlying data.
// bound: 1..4 backing rows, 0..4 (thorough 5) arbitrary rows with repetition in arbitrary order
// cover: repeated
func V04_ResetIndex() {
	n := 1 + sym.Choose("n", 4)
	m := idModel(n)
	df := m.build()
	k := sym.Choose("k", sym.Quick(5, 6))
	idx := symIdx("idx", k, n)
	v, vm := df.IndexView(idx), m.pick(idx)
	got := v.ResetIndexView()
	sameRows(got.NumRows(), got.Ints("id").Get, vm, k, "ResetIndexView")
	pm := m.view()
	pm.idx = make([]int, got.NumRows())
	for j := range pm.idx {
		pm.idx[j] = got.Ints("id").Get(j)
		if j > 0 {
			sym.Assert(pm.idx[j-1] <= pm.idx[j], "ResetIndexView: order of the underlying data")
			if pm.idx[j-1] == pm.idx[j] {
				sym.Cover("repeated")
			}
		}
	}
	pm.check(got, "ResetIndexView rows")
	vm.check(v, "parent after ResetIndexView")
	m.check(df, "base after ResetIndexView")
	observe(got, "r")
}

// V04_Large: small samples and shuffles of a large view, with few different rows in it or all different.
// bound: 24 rows over 3 or 24 backing rows (all the same row, two rows alternating, all different), samples of 1..6 and 23 rows, one random sequence
// cover: repeated
func V04_Large() {
	n := 24
	kind := sym.Choose("kind", 3)
	m := idModel(3)
	if kind == 2 {
		m = idModel(n)
	}
	df := m.build()
	idx := make([]int, n)
	for j := range idx {
		switch kind {
		case 0:
			idx[j] = 1
		case 1:
			idx[j] = 2 * (j % 2)
		case 2:
			idx[j] = n - 1 - j
		}
	}
	v, vm := df.IndexView(idx), m.pick(idx)
	k := []int{1, 2, 3, 6, 23, n}[sym.Choose("k", 6)]
	sym.StepLimit(5000000)
	label, g := "ShuffleView", df
	if k < n {
		label, g = "SampleView", v.SampleView(k, false)
	} else {
		g = v.ShuffleView()
	}
	sameRows(g.NumRows(), g.Ints("id").Get, vm, k, label)
	pm := m.view()
	pm.idx = make([]int, g.NumRows())
	for j := range pm.idx {
		pm.idx[j] = g.Ints("id").Get(j)
	}
	pm.check(g, label+" rows")
	vm.same(v, "parent after "+label)
	m.same(df, "base after "+label)
	if kind < 2 {
		sym.Cover("repeated")
	}
}
