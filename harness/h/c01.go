package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

func appendCol(a, b *col) *col {
	return &col{a.k, append(append([]float64(nil), a.f...), b.f...), append(append([]int(nil), a.i...), b.i...),
		append(append([]bool(nil), a.b...), b.b...), append(append([]interface{}(nil), a.o...), b.o...)}
}

// stack is the model of a row-wise concatenation.
func stack(ms ...*mdl) *mdl {
	r := ms[0].compact()
	for _, m := range ms[1:] {
		c := m.compact()
		for n := range r.cols {
			r.cols[n] = appendCol(r.cols[n], c.cols[n])
		}
		r.idx = iota_(len(r.idx) + len(c.idx))
	}
	return r
}

// C01_Stack: one to three frames with the same columns.
// bound: 1..3 frames of 0..2 backing rows, each seen through 1 arbitrary row view (the last two fresh or reversed), all column types, one write to the result or an input afterwards
// cover: three
func C01_Stack() {
	k := 1 + sym.Choose("frames", 3)
	var dfs []*dataframe.DataFrame
	var ms, fs []*mdl
	for j := 0; j < k; j++ {
		n := sym.Choose("n", 3)
		m := newModel("", n).withNil("s1", j)
		df := m.build()
		if j == 0 {
			df.SetMaxCPU(1)
			df, m = rowOp(df, m, "op")
		} else if sym.Choose("op", 2) == 1 {
			df, m = df.ReverseView(), m.pick(rev(n))
		}
		dfs, ms, fs = append(dfs, df), append(ms, m), append(fs, m.freeze())
	}
	got, err := dataframe.RowConcat(dfs...)
	sym.Assert(err == nil, "RowConcat of frames with the same columns fails")
	want := stack(ms...)
	want.check(got, "RowConcat")
	sym.Assert(got.ActualMaxCPU() == 1, "RowConcat: CPU limit")
	for j := range dfs {
		fs[j].check(dfs[j], "input after RowConcat")
	}
	switch sym.Choose("then", 3) {
	case 1:
		if want.rows() > 0 {
			row, x := sym.IntRange("row", 0, want.rows()-1), sym.Float64("x")
			got.Floats("f1").Set(row, x)
			want.setF("f1", row, x)
		}
		got.Drop("i1")
		delete(want.cols, "i1")
		got.Rename("s1", "fresh")
		want.rename("s1", "fresh")
		for j := range dfs {
			fs[j].check(dfs[j], "input after changing the result")
		}
	case 2:
		for j := range dfs {
			for r := 0; r < dfs[j].NumRows(); r++ {
				dfs[j].Floats("f1").Set(r, -1)
				dfs[j].Strings("s1").Set(r, "no")
			}
		}
	}
	want.check(got, "RowConcat result afterwards")
	if k == 3 {
		sym.Cover("three")
	}
	observe(got, "r")
}

// C01_Mismatch: columns that differ are reported.
// bound: 2 or 3 frames of 0..2 rows, every single difference (column missing or extra in any frame, each pair of types)
// cover: reported
func C01_Mismatch() {
	k := 2 + sym.Choose("frames", 2)
	odd := sym.Choose("odd", k)
	name := []string{"f1", "i1", "b1", "s1", "o1"}[sym.Choose("name", 5)]
	how := sym.Choose("how", 3)
	var dfs []*dataframe.DataFrame
	for j := 0; j < k; j++ {
		n := sym.Choose("n", 2) * 2
		m := newModel("", n)
		if j == odd {
			switch how {
			case 0:
				delete(m.cols, name)
			case 1:
				m.cols["extra"] = m.cols[name].clone()
			case 2:
				t := []kind{kF, kI, kB, kO}[sym.Choose("type", 4)]
				if old := m.cols[name].k; t == old || (t == kO && old == kS) {
					return
				}
				m.cols[name] = newCol(t, n)
			}
		}
		dfs = append(dfs, m.build())
	}
	got, err := dataframe.RowConcat(dfs...)
	sym.Assert(err != nil, "RowConcat of frames with different columns reports no error")
	sym.Assert(got == nil, "RowConcat returns a frame together with an error")
	sym.Cover("reported")
}

// C01_None: no frame at all is an error.
// bound: the one call
func C01_None() {
	got, err := dataframe.RowConcat()
	sym.Assert(err != nil && got == nil, "RowConcat of nothing reports no error")
}

// C01_Large: many rows, views larger than their backing data.
// bound: frames of 40 and 60 rows, the second one reversed, sliced or repeated
// cover: large
func C01_Large() {
	a, b := smallModel("", 40), smallModel("", 30)
	da, db := a.build(), b.build()
	va, ma := da.SliceView(3, -1), a.pick(iota_(40)[3:])
	if sym.Choose("a", 2) == 1 {
		va, ma = da.ReverseView(), a.pick(rev(40))
	}
	idx := append(iota_(30), rev(30)...)
	vb, mb := db.IndexView(idx), b.pick(idx)
	got, err := dataframe.RowConcat(vb, va)
	sym.Assert(err == nil, "RowConcat fails")
	stack(mb, ma).check(got, "RowConcat")
	sym.Cover("large")
}
