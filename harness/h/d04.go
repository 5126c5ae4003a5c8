package h

import (
	"verifharness/sym"
)

// D04_LabelToInt: arbitrary strings, missing values and views.
// bound: 0..3 rows (thorough 4) of strings of 0..2 arbitrary bytes or missing, 1 arbitrary row view
// cover: same missing
func D04_LabelToInt() {
	n := sym.Choose("n", sym.Quick(4, 5))
	m := &mdl{cols: map[string]*col{"s1": {k: kS, o: []interface{}{}}, "f1": newCol(kF, n)}, idx: iota_(n)}
	for r := 0; r < n; r++ {
		var o interface{}
		if k := sym.Choose("len", 4); k < 3 {
			o = sym.Bytes("s", k)
		}
		m.cols["s1"].o = append(m.cols["s1"].o, o)
	}
	df := m.build()
	v, vm := df, m
	switch sym.Choose("op", 4) {
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 2:
		if n > 0 {
			idx := append(iota_(n), 0)
			v, vm = df.IndexView(idx), m.pick(idx)
		}
	case 3:
		if n > 1 {
			v, vm = df.SliceView(1, n), m.pick(iota_(n)[1:])
		}
	}
	ints, mapping := v.LabelToInt("s1")
	sym.Assert(len(ints) == vm.rows(), "LabelToInt: one number per row")
	next := 0
	for j, r := range vm.idx {
		o := vm.cols["s1"].o[r]
		if o == nil {
			sym.Assert(ints[j] == -1, "LabelToInt: missing is -1")
			sym.Cover("missing")
			continue
		}
		first := -1
		for i := 0; i < j; i++ {
			p := vm.cols["s1"].o[vm.idx[i]]
			if p != nil && p.(string) == o.(string) {
				first = i
				break
			}
		}
		if first >= 0 {
			sym.Assert(ints[j] == ints[first], "LabelToInt: equal strings, different numbers")
			sym.Cover("same")
		} else {
			sym.Assert(ints[j] == next, "LabelToInt: numbered from zero in order of appearance")
			next++
		}
		k, ok := mapping[o.(string)]
		sym.Assert(ok && k == ints[j], "LabelToInt: mapping")
	}
	sym.Assert(len(mapping) == next, "LabelToInt: size of the mapping")
	m.check(df, "frame after LabelToInt")
}

// D04_ToFloats: numeric conversions on arbitrary views.
// bound: 0..2 rows, arbitrary cells (float rounding of huge ints included), every subset of the int and bool columns, base or 1 arbitrary row view, int and bool conversions in either order, columns of other types named before or not
// cover: both
func D04_ToFloats() {
	n := sym.Choose("n", 3)
	m := newModel("", n)
	df := m.build()
	v, vm := df, m.view()
	if sym.Choose("view", 2) == 1 {
		v, vm = rowOp(df, m, "op")
	}
	isBase := v == df
	var ic, bc []string
	for _, c := range []string{"i1", "i2"} {
		if sym.Choose("has "+c, 2) == 1 {
			ic = append(ic, c)
		}
	}
	if sym.Choose("has b1", 2) == 1 {
		bc = append(bc, "b1")
	}
	fm := m.freeze()
	if sym.Choose("others", 2) == 1 {
		v.IntToFloats("f1", "b1", "s1", "nothing")
		v.BoolToFloats("f2", "o1", "i2")
	}
	for step := 0; step < 2; step++ {
		if (step == 0) == (sym.Choose("order", 2) == 0) {
			v.IntToFloats(ic...)
			ic2 := ic
			for _, c := range ic2 {
				if vm.cols[c].k != kI {
					continue
				}
				d := newCol(kF, n)
				for r, x := range vm.cols[c].i {
					d.f[r] = float64(x)
				}
				vm.cols[c] = d
			}
			ic = nil
		} else {
			v.BoolToFloats(bc...)
			for _, c := range bc {
				if vm.cols[c].k != kB {
					continue
				}
				d := newCol(kF, n)
				for r, x := range vm.cols[c].b {
					d.f[r] = sym.IfFloat(x, 1, 0)
				}
				vm.cols[c] = d
			}
			bc = nil
		}
	}
	vm.check(v, "converted frame")
	if !isBase {
		fm.check(df, "base after converting a view")
	}
	sym.Cover("both")
	observe(v, "v")
}
