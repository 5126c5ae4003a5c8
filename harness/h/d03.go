package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// iterate reads up to limit rows (all when negative, then the end marker) and
// checks them.
func iterate(ite *dataframe.Float32Iterator, v *dataframe.DataFrame, vm *mdl, cols []string, limit int, label string) {
	shared := v.Floats("f1")
	for j := 0; limit < 0 || j < limit; j++ {
		row, at, backing := ite.NextRow()
		if j >= vm.rows() {
			sym.Assert(row == nil, label+": too many rows")
			sym.Assert(at == vm.rows(), label+": number of rows at the end")
			sym.Assert(backing == v.NumAllocatedRows(), label+": number of allocated rows at the end")
			row, at, _ = ite.NextRow()
			sym.Assert(row == nil && at == vm.rows(), label+": does not stay at the end")
			return
		}
		sym.Assert(row != nil, label+": stops too early")
		sym.Assert(len(row) == len(cols), label+": row length")
		sym.Assert(at == j, label+": view index")
		sym.Assert(backing == shared.SharedIndex(j), label+": index in the underlying data")
		for k, name := range cols {
			c := vm.cols[name]
			var want float32
			switch c.k {
			case kF:
				want = float32(c.f[vm.idx[j]])
			case kI:
				want = float32(c.i[vm.idx[j]])
			case kB:
				want = float32(sym.IfFloat(c.b[vm.idx[j]], 1, 0))
			}
			ok := row[k] == want
			if c.k == kF {
				ok = sym.Or(ok, sym.And(row[k] != row[k], want != want))
			}
			sym.Assert(ok, label+": values")
			row[k] = 99
		}
	}
}

// D03_Rows: arbitrary views, column orders, and Reset at any point.
// bound: two frames of 0..3 rows with arbitrary cells, 1 arbitrary row view each, 4 column orders, Reset after any number of rows
// cover: reset-early reset-late
func D03_Rows() {
	cols := [][]string{{"f1", "i1", "b1"}, {"b1", "f2", "f1"}, {"i1"}, {"f1", "f1", "i2", "b1"}}[sym.Choose("cols", 4)]
	m := newModel("", sym.Choose("n", 4))
	df := m.build()
	v, vm := rowOp(df, m, "op")
	if sym.Tier() == 1 {
		v, vm, _ = derived(v, vm, "op2")
	}
	ite := dataframe.NewFloat32Iterator(v, append([]string{}, cols...))
	limit := sym.Choose("limit", vm.rows()+2)
	if limit == vm.rows()+1 {
		limit = -1
	}
	iterate(ite, v, vm, cols, limit, "first frame")
	m2 := newModel("", 1+sym.Choose("n2", 2))
	df2 := m2.build()
	v2, vm2 := df2, m2
	if sym.Choose("op2", 2) == 1 {
		v2, vm2 = df2.ReverseView(), m2.pick(rev(m2.rows()))
	}
	ite.Reset(v2, sym.Choose("check", 2) == 1)
	iterate(ite, v2, vm2, cols, -1, "after Reset")
	got := ite.Columns()
	sym.Assert(len(got) == len(cols), "Columns: number")
	for k := range cols {
		sym.Assert(got[k] == cols[k], "Columns: order")
	}
	m.check(df, "first frame after iterating")
	m2.check(df2, "second frame after iterating")
	if limit == vm.rows() || limit < 0 {
		sym.Cover("reset-late")
	} else {
		sym.Cover("reset-early")
	}
}

// D03_Batches: row counts around multiples of the internal batch size, and
// Reset in the middle of a batch.
// bound: frames of 127, 128, 129, 256 and 257 rows, plain or reversed, Reset at every batch boundary or off by one, then a frame of 3 or 130 rows
// cover: long
func D03_Batches() {
	cols := []string{"i1", "f1", "b1"}
	n := []int{127, 128, 129, 256, 257}[sym.Choose("n", 5)]
	m := smallModel("", n)
	df := m.build()
	v, vm := df, m
	if sym.Choose("rev", 2) == 1 {
		v, vm = df.ReverseView(), m.pick(rev(n))
	}
	ite := dataframe.NewFloat32Iterator(v, cols)
	limit := []int{-1, 1, 127, 128, 129, n}[sym.Choose("limit", 6)]
	if limit > n {
		limit = n
	}
	iterate(ite, v, vm, cols, limit, "first frame")
	m2 := smallModel("", []int{3, 130}[sym.Choose("n2", 2)])
	df2 := m2.build()
	ite.Reset(df2, true)
	iterate(ite, df2, m2, cols, -1, "after Reset")
	sym.Cover("long")
}
