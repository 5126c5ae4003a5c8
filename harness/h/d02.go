package h

import (
	"gonum.org/v1/gonum/mat"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

func numAt(c *col, r int) float64 {
	switch c.k {
	case kF:
		return c.f[r]
	case kI:
		return float64(c.i[r])
	}
	return sym.IfFloat(c.b[r], 1, 0)
}

// D02_Reuse: one batching structure, several frames one after the other.
// bound: 2..3 calls (thorough 4) with frames of 1..3 rows growing and shrinking in any order, each plain or seen through an arbitrary view, 5 column lists (repeated columns included), every cell value; writes to the returned matrix
// cover: grow shrink
func D02_Reuse() {
	cols := [][]string{{"f1", "i1", "b1"}, {"b1", "f2", "f1"}, {"i1"}, {"f1", "f1", "i2", "b1"}, {"f2"}}[sym.Choose("cols", 5)]
	bat := dataframe.NewDense64Batching(append([]string{}, cols...))
	prev := 0
	calls := sym.Quick(3, 4)
	for call := 0; call < calls; call++ {
		n := 1 + sym.Choose("n", 3)
		m := newModel("", n)
		df := m.build()
		v, vm := df, m
		switch sym.Choose("view", sym.Quick(2, 4)) {
		case 1:
			k := 1 + sym.Choose("k", 2)
			idx := symIdx("idx", k, n)
			v, vm = df.IndexView(idx), m.pick(idx)
		case 2:
			v, vm = df.SliceView(1, -1), m.pick(iota_(n)[1:])
			if n == 1 {
				v, vm = df.View(), m
			}
		case 3:
			v, vm = df.ReverseView(), m.pick(rev(n))
		}
		mx := bat.DenseMatrix(v)
		r, c := mx.Dims()
		sym.Assert(r == vm.rows() && c == len(cols), "DenseMatrix: dimensions")
		for j, row := range vm.idx {
			for k, name := range cols {
				sym.Assert(sym.Same(mx.At(j, k), numAt(vm.cols[name], row)), "DenseMatrix: values")
			}
		}
		if t, ok := mx.(mat.Transpose); ok {
			if d, ok := t.Matrix.(*mat.Dense); ok {
				for j := 0; j < r; j++ {
					for k := 0; k < c; k++ {
						d.Set(k, j, -5)
					}
				}
			}
		}
		m.check(df, "frame after writing to the matrix")
		if call > 0 && r > prev {
			sym.Cover("grow")
		}
		if call > 0 && r < prev {
			sym.Cover("shrink")
		}
		prev = r
	}
}

// D02_Derived: frames made in any way, two after the other.
// bound: two frames of 1..3 rows (thorough 4) with arbitrary float and bool cells, each an arbitrary row view of it followed by any of 15 ways to derive a frame
func D02_Derived() {
	cols := []string{"f1", "i2", "b1"}
	bat := dataframe.NewDense64Batching(cols)
	for call := 0; call < 2; call++ {
		n := 1 + sym.Choose("n", sym.Quick(3, 4))
		m := newModel("", n)
		v, vm := m.build(), m
		if call == 0 {
			v, vm = rowOp(v, vm, "op")
			v, vm, _ = derived(v, vm, "op2")
		}
		if vm.rows() == 0 {
			return
		}
		mx := bat.DenseMatrix(v)
		r, c := mx.Dims()
		sym.Assert(r == vm.rows() && c == len(cols), "DenseMatrix: dimensions")
		ok := true
		for j, row := range vm.idx {
			for k, name := range cols {
				ok = sym.And(ok, sym.Same(mx.At(j, k), numAt(vm.cols[name], row)))
			}
		}
		sym.Assert(ok, "DenseMatrix: values")
	}
}

// D02_Large: contiguous and viewed frames of many rows through one structure.
// bound: frames of 73, 20 and 150 rows in any order of two, slices at both ends
// cover: grow
func D02_Large() {
	cols := []string{"b1", "f1", "i1"}
	bat := dataframe.NewDense64Batching(cols)
	prev := 0
	for call := 0; call < 2; call++ {
		n := []int{73, 20, 150}[sym.Choose("n", 3)]
		m := smallModel("", n)
		df := m.build()
		from := sym.Choose("from", 2)
		v, vm := df.SliceView(from, -2+from), m.pick(iota_(n)[from:n-1+from])
		mx := bat.DenseMatrix(v)
		r, c := mx.Dims()
		sym.Assert(r == vm.rows() && c == len(cols), "DenseMatrix: dimensions")
		for j, row := range vm.idx {
			for k, name := range cols {
				sym.Assert(sym.Same(mx.At(j, k), numAt(vm.cols[name], row)), "DenseMatrix: values")
			}
		}
		if r > prev && prev > 0 {
			sym.Cover("grow")
		}
		prev = r
	}
}

// D02_Types: a column has another type from one frame to the next.
// bound: 2 calls (thorough 3) with frames of 1..2 rows, two columns each float, int or bool in any frame, every cell value, plain or reversed
// cover: changed
func D02_Types() {
	bat := dataframe.NewDense64Batching([]string{"x", "y"})
	prev := -1
	for call := 0; call < sym.Quick(2, 3); call++ {
		n := 1 + sym.Choose("n", 2)
		m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
		t := sym.Choose("types", 9)
		for i, name := range []string{"x", "y"} {
			c := newCol([]kind{kF, kI, kB}[[]int{t % 3, t / 3}[i]], n)
			for r := 0; r < n; r++ {
				switch c.k {
				case kF:
					c.f[r] = sym.Float64(name)
				case kI:
					c.i[r] = sym.Int(name)
				default:
					c.b[r] = sym.Bool(name)
				}
			}
			m.cols[name] = c
		}
		if prev >= 0 && prev != t {
			sym.Cover("changed")
		}
		prev = t
		df := m.build()
		v, vm := df, m
		if n > 1 && sym.Choose("reverse", 2) == 1 {
			v, vm = df.ReverseView(), m.pick(rev(n))
		}
		mx := bat.DenseMatrix(v)
		r, c := mx.Dims()
		sym.Assert(r == n && c == 2, "DenseMatrix: dimensions")
		for j, row := range vm.idx {
			sym.Assert(sym.Same(mx.At(j, 0), numAt(m.cols["x"], row)) && sym.Same(mx.At(j, 1), numAt(m.cols["y"], row)), "DenseMatrix: values")
		}
		m.check(df, "frame")
	}
}
