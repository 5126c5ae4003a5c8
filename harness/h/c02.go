package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// concatSide is one arbitrary view of a frame with columns named after p.
func concatSide(p string, m *mdl, df *dataframe.DataFrame) (*dataframe.DataFrame, *mdl) {
	n := m.rows()
	switch sym.Choose(p+"op", 5) {
	case 1:
		if n > 0 {
			idx := symIdx(p+"idx", sym.Choose(p+"k", sym.Quick(3, 4)), n)
			return df.IndexView(idx), m.pick(idx)
		}
	case 2:
		if n > 0 {
			return df.SliceView(1, -1), m.pick(iota_(n)[1:])
		}
	case 3:
		return df.ReverseView(), m.pick(rev(n))
	case 4:
		return df.View(), m.view()
	}
	return df, m
}

// zip is the model of a column-wise concatenation.
func zip(ms ...*mdl) *mdl {
	r := ms[0].compact()
	for _, m := range ms[1:] {
		for n, c := range m.compact().cols {
			r.cols[n] = c
		}
	}
	return r
}

func renamed(m *mdl, p string) *mdl {
	r := &mdl{cols: map[string]*col{}, idx: m.idx}
	for n, c := range m.cols {
		r.cols[p+n] = c
	}
	return r
}

// C02_Align: two frames seen through arbitrary views.
// bound: frames of 1..2 and 0..3 backing rows (thorough 0..3 and 0..3), all column types, 1 arbitrary view each (arbitrary index lists up to length 2, thorough 3), all three functions, use of the result afterwards
// cover: shared-view error copied
func C02_Align() {
	sym.AnyMapOrder()
	na := 1 + sym.Choose("na", 2)
	if sym.Tier() == 1 {
		na = sym.Choose("na2", 4)
	}
	nb := sym.Choose("nb", 4)
	ma := smallModel("", na).withNil("s1", 0)
	mb := renamed(smallModel("", nb), "z")
	da, db := ma.build(), mb.build()
	va, vma := concatSide("a", ma, da)
	vb, vmb := concatSide("b", mb, db)
	fa, fb := vma.freeze(), vmb.freeze()
	same := vma.rows() == vmb.rows()
	which := sym.Choose("which", 3)
	var got *dataframe.DataFrame
	var err error
	switch which {
	case 0:
		got, err = dataframe.ColumnConcatView(va, vb)
	case 1:
		got, err = dataframe.ColumnSmartConcat(va, vb)
	case 2:
		got, err = dataframe.ColumnCopyConcat(va, vb)
	}
	if !same {
		sym.Assert(err != nil, "row counts differ and no error is reported")
		sym.Assert(got == nil, "a frame is returned together with an error")
	} else if which > 0 {
		sym.Assert(err == nil, "frames with as many rows cannot be concatenated")
	}
	fa.same(va, "first input")
	fb.same(vb, "second input")
	if err != nil {
		sym.Cover("error")
		return
	}
	want := zip(vma, vmb)
	want.same(got, "result")
	if which == 0 && va.AreIndicesAltered() {
		sym.Cover("shared-view")
	}
	if which == 2 {
		masksApart(va, got, "ColumnCopyConcat")
		sym.Cover("copied")
	}
	switch sym.Choose("then", 6) {
	case 0:
		want.same(got.Copy(), "copy of the result")
	case 1:
		if want.rows() > 0 {
			for _, n := range []string{"f1", "zf1"} {
				vec := got.Floats(n).VecDense()
				sym.Assert(vec.Len() == want.rows(), "VecDense of the result: length")
				for j, x := range want.cols[n].f {
					sym.Assert(sym.Same(vec.AtVec(j), x), "VecDense of the result")
				}
			}
		}
	case 2:
		r := rev(want.rows())
		want.pick(r).same(got.ReverseView(), "view of the result")
	case 3: // write through the result
		// ColumnSmartConcat may or may not share data, depending on the indices
		if want.rows() > 0 && which != 1 {
			row, x := sym.IntRange("row", 0, want.rows()-1), sym.Float64("x")
			got.Floats("zf1").Set(row, x)
			want.setF("zf1", row, x)
			if which == 0 {
				vmb.setF("zf1", row, x)
				want = zip(vma, vmb)
				vmb.same(vb, "second input after writing to the shared result")
			} else if which == 2 {
				fb.same(vb, "second input after writing to the copied result")
			}
			want.same(got, "result after writing")
			fa.same(va, "first input after writing to the result")
		}
	case 4: // structural changes
		got.Drop("s1", "zi1")
		got.Rename("zs1", "fresh")
		got.AllocFloats("new")
		delete(want.cols, "s1")
		delete(want.cols, "zi1")
		want.rename("zs1", "fresh")
		want.cols["new"] = newCol(kF, want.rows())
		want.same(got, "result after structural changes")
		fa.same(va, "first input after structural changes")
		fb.same(vb, "second input after structural changes")
	case 5:
		if want.rows() > 0 {
			want.pick(iota_(want.rows())[1:]).same(got.SliceView(1, -1), "slice of the result")
		}
	}
	observe(got, "r")
}

// C02_SameView: congruent frames must be joined without copying.
// bound: 1..2 rows, two or three frames each plain or seen through the same arbitrary index list
// cover: joined
func C02_SameView() {
	n := 1 + sym.Choose("n", 2)
	ma, mb := smallModel("", n), renamed(smallModel("", n), "z")
	mc := renamed(smallModel("", n), "y")
	da, db, dc := ma.build(), mb.build(), mc.build()
	if sym.Choose("viewed", 2) == 1 {
		idx := symIdx("idx", 2, n)
		da, db, dc = da.IndexView(idx), db.IndexView(idx), dc.IndexView(idx)
		ma, mb, mc = ma.pick(idx), mb.pick(idx), mc.pick(idx)
	}
	dfs, ms := []*dataframe.DataFrame{da, db}, []*mdl{ma, mb}
	if sym.Choose("three", 2) == 1 {
		dfs, ms = append(dfs, dc), append(ms, mc)
	}
	got, err := dataframe.ColumnConcatView(dfs...)
	sym.Assert(err == nil, "congruent frames cannot be joined")
	zip(ms...).check(got, "result")
	x := sym.Int("x")
	got.Ints("zi1").Set(0, x)
	sym.Assert(db.Ints("zi1").Get(0) == x, "ColumnConcatView does not share data")
	db.Ints("zi1").Set(0, 7)
	sym.Assert(got.Ints("zi1").Get(0) == 7, "ColumnConcatView does not share data")
	sym.Cover("joined")
}

// C02_Overlap: a column name appearing twice is an error in all functions.
// bound: 2..3 frames of 1 row, every pair of types for the repeated name
// cover: overlap
func C02_Overlap() {
	k := 2 + sym.Choose("k", 2)
	i := sym.Choose("i", k)
	j := sym.Choose("j", k)
	sym.Assume(i < j)
	var dfs []*dataframe.DataFrame
	for x := 0; x < k; x++ {
		m := renamed(smallModel("", 1), string(rune('p'+x)))
		if x == i || x == j {
			m.cols["twice"] = newCol([]kind{kF, kI, kB, kS, kO}[sym.Choose("type", 5)], 1)
		}
		dfs = append(dfs, m.build())
	}
	var got *dataframe.DataFrame
	var err error
	switch sym.Choose("which", 3) {
	case 0:
		got, err = dataframe.ColumnConcatView(dfs...)
	case 1:
		got, err = dataframe.ColumnSmartConcat(dfs...)
	case 2:
		got, err = dataframe.ColumnCopyConcat(dfs...)
	}
	sym.Assert(err != nil && got == nil, "repeated column name not reported")
	sym.Cover("overlap")
}
