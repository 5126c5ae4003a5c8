package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// ranked returns the rows of m as a permutation found from a unique int column.
// tag columns make whole rows identifiable: column "id" holds the row number.
func idModel(n int) *mdl {
	m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	id, o, s := &col{k: kI, i: []int{}}, &col{k: kO, o: []interface{}{}}, &col{k: kS, o: []interface{}{}}
	for r := 0; r < n; r++ {
		id.i = append(id.i, r)
		o.o = append(o.o, 100+r)
		s.o = append(s.o, "s"+string(rune('a'+r)))
	}
	m.cols["id"], m.cols["o"], m.cols["s"] = id, o, s
	return m
}

// perm reads the row numbers back and asserts that they are k of m's rows, none
// more often than m shows it, whole rows moving together.
func perm(got interface {
	NumRows() int
}, ids func(int) int, m *mdl, k int, label string) []int {
	sym.Assert(got.NumRows() == k, label+": number of rows")
	var p []int
	for j := 0; j < k; j++ {
		p = append(p, ids(j))
	}
	for a := 0; a < k; a++ {
		has, shown := count(p, p[a]), count(m.idx, p[a])
		sym.Assert(shown > 0, label+": an unknown row appears")
		sym.Assert(has <= shown, label+": a row is repeated")
	}
	return p
}

// count is the number of x in p.
func count(p []int, x int) int {
	n := 0
	for _, q := range p {
		n += sym.IfInt(q == x, 1, 0)
	}
	return n
}

// variant is one of several views of df: itself, reversed, sliced, much smaller,
// with repeated rows.
func variant(df *dataframe.DataFrame, m *mdl) (*dataframe.DataFrame, *mdl) {
	n := m.rows()
	switch sym.Choose("pre", 5) {
	case 1:
		return df.ReverseView(), m.pick(rev(n))
	case 2:
		if n > 1 {
			return df.SliceView(1, n), m.pick(iota_(n)[1:])
		}
	case 3:
		if n > 1 {
			return df.SliceView(0, 1), m.pick([]int{0})
		}
	case 4:
		if n > 1 {
			idx := []int{n - 1, 0, n - 1}
			return df.IndexView(idx), m.pick(idx)
		}
	}
	return df, m
}

// V03_SortInts: every int compared exactly.
// bound: 0..4 rows (thorough 5), arbitrary 64-bit ints, base frame as is, reversed, sliced, cut to one row, or repeating rows
// cover: big
func V03_SortInts() {
	n := sym.Choose("n", sym.Quick(5, 6))
	m := idModel(n)
	k := &col{k: kI, i: []int{}}
	for r := 0; r < n; r++ {
		k.i = append(k.i, sym.Int("key"))
	}
	m.cols["key"] = k
	df := m.build()
	v, vm := variant(df, m)
	got := v.SortedView("key")
	p := perm(got, got.Ints("id").Get, vm, vm.rows(), "SortedView")
	pm := m.view()
	pm.idx = p
	pm.check(got, "SortedView rows")
	for j := 1; j < len(p); j++ {
		sym.Assert(k.i[p[j-1]] <= k.i[p[j]], "SortedView: ints non-decreasing")
		if k.i[p[j]] > 1<<60 {
			sym.Cover("big")
		}
	}
	vm.check(v, "parent after SortedView")
	m.check(df, "base after SortedView")
	observe(got, "r")
}

// V03_SortFloats: any floats without NaN.
// bound: 0..3 rows (thorough 4), arbitrary float64 (infinities, denormals, signed zeros) except NaN, base as is, reversed, sliced, cut to one row, or repeating rows
func V03_SortFloats() {
	n := sym.Choose("n", sym.Quick(4, 5))
	m := idModel(n)
	k := &col{k: kF, f: []float64{}}
	for r := 0; r < n; r++ {
		x := sym.Float64("key")
		sym.Assume(x == x)
		k.f = append(k.f, x)
	}
	m.cols["key"] = k
	df := m.build()
	v, vm := variant(df, m)
	got := v.SortedView("key")
	p := perm(got, got.Ints("id").Get, vm, vm.rows(), "SortedView")
	pm := m.view()
	pm.idx = p
	pm.check(got, "SortedView rows")
	for j := 1; j < len(p); j++ {
		sym.Assert(k.f[p[j-1]] <= k.f[p[j]], "SortedView: floats non-decreasing")
	}
	vm.check(v, "parent after SortedView")
	m.check(df, "base after SortedView")
	observe(got, "r")
}

// V03_SortBools: false first, each group in its original order.
// bound: 0..5 rows (thorough 8), every combination of bools, 1 arbitrary earlier view operation
func V03_SortBools() {
	n := sym.Choose("n", sym.Quick(6, 9))
	m := newModel("", n)
	df := m.build()
	v, vm := df, m
	if n < 4 {
		v, vm = rowOp(df, m, "op")
	}
	got := v.SortedView("b1")
	var idx []int
	for pass := 0; pass < 2; pass++ {
		for j, r := range vm.idx {
			if m.cols["b1"].b[r] == (pass == 1) {
				idx = append(idx, j)
			}
		}
	}
	vm.pick(idx).check(got, "SortedView on bools")
	vm.check(v, "parent after SortedView")
	m.check(df, "base after SortedView")
	observe(got, "r")
}

// V03_TopView: the n best rows, sorted on demand.
// bound: 0..4 rows (thorough 5), key column of arbitrary ints in [-3, 3], floats or bools, n in 0..6, both directions, sorted or not, base as is, reversed, sliced, cut to one row, or repeating rows
// cover: ties all
func V03_TopView() {
	n := sym.Choose("n", sym.Quick(5, 6))
	m := idModel(n)
	kindOf := sym.Choose("kind", 3)
	key := make([]int, n)
	c := &col{}
	for r := 0; r < n; r++ {
		switch kindOf {
		case 0:
			key[r] = sym.IntRange("key", -3, 3)
			c.k, c.i = kI, append(c.i, key[r])
		case 1:
			x := sym.OneOf("key", -1.5, 0, 0.5, 1e300)
			key[r] = sym.IfInt(x < 0, -1, sym.IfInt(x == 0, 0, sym.IfInt(x < 1, 1, 2)))
			c.k, c.f = kF, append(c.f, x)
		case 2:
			b := sym.Bool("key")
			key[r] = b2i(b)
			c.k, c.b = kB, append(c.b, b)
		}
	}
	if n == 0 {
		c = &col{k: kI, i: []int{}}
	}
	m.cols["key"] = c
	df := m.build()
	v, vm := variant(df, m)
	k := sym.Choose("top", 7)
	asc := sym.Choose("asc", 2) == 1
	srt := sym.Choose("sorted", 2) == 1
	got := v.TopView("key", k, asc, srt)
	want := k
	if want > vm.rows() {
		want = vm.rows()
		sym.Cover("all")
	}
	p := perm(got, got.Ints("id").Get, vm, want, "TopView")
	pm := m.view()
	pm.idx = p
	pm.check(got, "TopView rows")
	better := func(a, b int) bool { // strictly
		if asc {
			return key[a] < key[b]
		}
		return key[a] > key[b]
	}
	for _, r := range vm.idx {
		in := count(p, r) == count(vm.idx, r)
		for _, q := range p {
			sym.Assert(sym.Or(in, !better(r, q)), "TopView: a better row is left out")
		}
	}
	if srt {
		for j := 1; j < len(p); j++ {
			sym.Assert(!better(p[j], p[j-1]), "TopView: best first")
		}
	}
	for j := 1; j < len(p); j++ {
		if key[p[j-1]] == key[p[j]] {
			sym.Cover("ties")
		}
	}
	// the result is a view: changing its structure does not change the frame
	got.Drop("o")
	vm.check(v, "parent after TopView")
	m.check(df, "base after TopView")
}
