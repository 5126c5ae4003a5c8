package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// V09_ColumnView: every subset of the columns.
// bound: 2 rows, every subset of 7 columns of all types plus a missing and a repeated name, from a frame, a row view or a detached view
// cover: some
func V09_ColumnView() {
	m := newModel("", 2).withNil("s1", 1)
	df := m.build()
	v, vm := df, m.view()
	switch sym.Choose("pre", sym.Quick(3, 5)) {
	case 1:
		idx := symIdx("idx", 3, 2)
		v, vm = df.IndexView(idx), m.pick(idx)
	case 2:
		v, vm = df.ColumnView("f1", "i1", "b1", "s1", "o1"), m.only("f1", "i1", "b1", "s1", "o1")
	case 3:
		v, vm = df.DetachedView("f1"), m.detach("f1")
	case 4:
		v, vm = df.ShallowCopy(), m.view()
	}
	var cols []string
	for _, n := range vm.names() {
		if sym.Choose("has "+n, 2) == 1 {
			cols = append(cols, n)
		}
	}
	if len(cols) == 0 {
		cols = append(cols, "f1")
	}
	want := vm.only(cols...)
	switch sym.Choose("extra", 3) {
	case 1:
		cols = append(cols, "nothing")
	case 2:
		cols = append(cols, cols[0])
	}
	got := v.ColumnView(cols...)
	want.check(got, "ColumnView")
	vm.check(v, "parent after ColumnView")
	if len(want.cols) > 1 && len(want.cols) < len(vm.cols) {
		sym.Cover("some")
	}
	observe(got, "r")
}

// V09_Headers: headers partition the columns and are snapshots.
// bound: 1 row, every subset of 7 columns of all types, every way of editing a returned header
// cover: edited
func V09_Headers() {
	m := newModel("", 1)
	for _, n := range m.names() {
		if sym.Choose("has "+n, 2) == 0 {
			delete(m.cols, n)
		}
	}
	if len(m.cols) == 0 {
		return
	}
	df := m.build()
	v := df.View()
	m.checkHeaders(v, "headers")
	sym.Assert(hasExactly(v.Header(), m.names()), "Header is the union")
	l := v.Header().NameList()
	sym.Assert(len(l) == len(m.cols), "NameList has every column once")
	for _, n := range l {
		_, ok := m.cols[n]
		sym.Assert(ok, "NameList has only columns")
	}
	var h dataframe.ColumnHeader
	switch sym.Choose("which", 6) {
	case 0:
		h = v.FloatHeader()
	case 1:
		h = v.IntHeader()
	case 2:
		h = v.BoolHeader()
	case 3:
		h = v.StringHeader()
	case 4:
		h = v.ObjectHeader()
	case 5:
		h = v.Header()
	}
	names := h.NameList()
	h.And(dataframe.Columns("extra"))
	h.NameSet()["more"] = true
	h.Except(names...)
	h.ExceptHeader(dataframe.Columns(names...))
	for i := range names {
		names[i] = "gone"
	}
	m.checkHeaders(v, "headers after editing a returned header")
	m.checkHeaders(df, "headers of the parent after editing a returned header")
	sym.Assert(hasExactly(v.Header(), m.names()), "Header after editing a returned header")
	sym.Cover("edited")
}

// V09_Algebra: And, Except, ExceptHeader, Copy, Num, NameSet and NameList on
// arbitrary names.
// bound: two headers of up to 2 and one of 1 arbitrary one-byte names (repetitions included), and headers never written to
// cover: overlap
func V09_Algebra() {
	pick := func(label string, n int) []string {
		k := sym.Choose(label+".len", n+1)
		var r []string
		for i := 0; i < k; i++ {
			r = append(r, sym.Bytes(label, 1))
		}
		return r
	}
	a, b, c := pick("a", 2), pick("b", 2), pick("c", 1)
	in := func(x string, l []string) bool {
		r := false
		for _, y := range l {
			r = sym.Or(r, x == y)
		}
		return r
	}
	mk := func(l []string) dataframe.ColumnHeader {
		if len(l) == 0 && sym.Choose("nil", 2) == 1 {
			return dataframe.ColumnHeader{}
		}
		return dataframe.Columns(l...)
	}
	all := append(append(append([]string{"q"}, a...), b...), c...)
	// is checks that h holds exactly the names for which want holds.
	is := func(h dataframe.ColumnHeader, want func(string) bool, label string) {
		set := h.NameSet()
		list := h.NameList()
		sym.Assert(len(set) == h.Num(), label+": Num")
		sym.Assert(len(list) == h.Num(), label+": NameList length")
		for _, x := range all {
			w := want(x)
			sym.Assert(set[x] == w, label+": NameSet")
			sym.Assert(in(x, list) == w, label+": NameList")
		}
		for i := range list {
			sym.Assert(want(list[i]), label+": extra name")
			for j := 0; j < i; j++ {
				sym.Assert(list[i] != list[j], label+": name listed twice")
			}
		}
	}
	inA := func(x string) bool { return in(x, a) }
	inB := func(x string) bool { return in(x, b) }
	is(mk(a), inA, "Columns")
	hb, hc := mk(b), mk(c)
	switch sym.Choose("op", 5) {
	case 0:
		is(mk(a).And(hb), func(x string) bool { return sym.Or(in(x, a), in(x, b)) }, "And")
	case 1:
		is(mk(a).And(hb, hc), func(x string) bool { return sym.Or(in(x, a), sym.Or(in(x, b), in(x, c))) }, "And of three")
	case 2:
		is(mk(a).Except(append(append([]string{}, b...), c...)...), func(x string) bool { return sym.And(in(x, a), !sym.Or(in(x, b), in(x, c))) }, "Except")
	case 3:
		is(mk(a).ExceptHeader(hb, hc), func(x string) bool { return sym.And(in(x, a), !sym.Or(in(x, b), in(x, c))) }, "ExceptHeader")
	case 4:
		h := mk(a)
		k := h.Copy()
		is(k, inA, "Copy")
		k2 := k.And(dataframe.Columns("q"))
		is(k2, func(x string) bool { return sym.Or(in(x, a), x == "q") }, "And after Copy")
		is(h, inA, "original after changing its copy")
		h.Except(a...)
		is(k2, func(x string) bool { return sym.Or(in(x, a), x == "q") }, "copy after changing the original")
	}
	is(hb, inB, "argument afterwards")
	if len(a) > 0 && len(b) > 0 && a[0] == b[0] {
		sym.Cover("overlap")
	}
}
