package h

import (
	"golang.org/x/text/encoding/charmap"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// compact is the model of a deep copy: its own data, in view order.
func (m *mdl) compact() *mdl {
	r := &mdl{cols: map[string]*col{}, idx: iota_(len(m.idx))}
	for n, c := range m.cols {
		d := &col{k: c.k}
		for _, i := range m.idx {
			switch c.k {
			case kF:
				d.f = append(d.f, c.f[i])
			case kI:
				d.i = append(d.i, c.i[i])
			case kB:
				d.b = append(d.b, c.b[i])
			default:
				d.o = append(d.o, c.o[i])
			}
		}
		r.cols[n] = d
	}
	return r
}

// V08_Copy: a deep copy of an arbitrary view, then a write or a structural
// change on either side.
// bound: 0..2 backing rows, all column types, 1 arbitrary row view and 1 arbitrary view kind before copying, every write and structural change on either side
// cover: copied
func V08_Copy() {
	n := sym.Choose("n", sym.Quick(3, 4))
	m := newModel("", n).withNil("s1", 1)
	df := m.build()
	df.SetMaxCPU(1 + n%2)
	v1, m1 := df, m.view()
	if sym.Choose("deep", 2) == 1 {
		v1, m1 = rowOp(df, m, "v1")
	}
	v, vm := anyView(v1, m1, "v")
	c := v.Copy()
	cm := vm.compact()
	cm.check(c, "copy")
	sym.Assert(c.ActualMaxCPU() == v.ActualMaxCPU(), "copy: CPU limit")
	masksApart(v, c, "copy")
	masksApart(c, df, "base of the copy")
	fm, fvm, fcm := m.freeze(), vm.freeze(), cm.freeze()
	if sym.Choose("side", 2) == 0 {
		if sym.Choose("how", 2) == 0 {
			write(c, cm, "w")
		} else {
			restructure(c, cm, cm.rows(), sym.Choose("op", sym.Quick(19, 22)), "op")
		}
		cm.same(c, "changed copy")
		fvm.same(v, "original after changing the copy")
		fm.same(df, "base after changing the copy")
	} else {
		if sym.Choose("how", 2) == 0 {
			write(v, vm, "w")
		} else {
			restructure(v, vm, n, sym.Choose("op", sym.Quick(19, 22)), "op")
		}
		fcm.same(c, "copy after changing the original")
	}
	sym.Cover("copied")
	observe(c, "c")
}

// V08_Shallow: a shallow copy shares the cells but not the structure.
// bound: 1..2 backing rows, all column types, base or 1 arbitrary view kind, every write and structural change on either side
// cover: copied
func V08_Shallow() {
	n := 1 + sym.Choose("n", 2)
	m := newModel("", n).withNil("s1", 1)
	df := m.build()
	df.SetMaxCPU(1 + n%2)
	v, vm := df, m.view()
	ops := 22
	if sym.Choose("deep", 2) == 1 {
		ops = sym.Quick(19, 22)
		v, vm = anyView(df, m, "v")
	}
	c, cm := v.ShallowCopy(), vm.view()
	cm.check(c, "shallow copy")
	sym.Assert(c.ActualMaxCPU() == v.ActualMaxCPU(), "shallow copy: CPU limit")
	fvm, fcm := vm.freeze(), cm.freeze()
	switch sym.Choose("do", 4) {
	case 0:
		write(c, cm, "w")
		vm.same(v, "original after writing through the shallow copy")
		cm.same(c, "shallow copy after writing")
	case 1:
		write(v, vm, "w")
		vm.same(v, "original after writing")
		cm.same(c, "shallow copy after writing through the original")
	case 2:
		restructure(c, cm, n, sym.Choose("op", ops), "op")
		fvm.same(v, "original after restructuring the shallow copy")
		cm.check(c, "restructured shallow copy")
	case 3:
		restructure(v, vm, n, sym.Choose("op", ops), "op")
		fcm.same(c, "shallow copy after restructuring the original")
	}
	sym.Cover("copied")
	observe(c, "c")
}

// V08_CopyLarge: copies of large slices, which keep their own contiguous data.
// bound: 73 rows, 5 columns, slices at both ends, one write at an arbitrary row
// cover: copied
func V08_CopyLarge() {
	n := 73
	m := smallModel("", n)
	df := m.build()
	from := sym.Choose("from", 2)
	v, vm := df.SliceView(from, -2+from), m.pick(iota_(n)[from:n-1+from])
	if sym.Choose("nested", 2) == 1 {
		v, vm = v.SliceView(0, 60), vm.pick(iota_(vm.rows())[:60])
	}
	c, cm := v.Copy(), vm.compact()
	cm.check(c, "copy")
	row, x := sym.IntRange("row", 0, vm.rows()-1), sym.Int("x")
	fvm := vm.freeze()
	c.Ints("i1").Set(row, x)
	cm.setI("i1", row, x)
	cm.same(c, "changed copy")
	fvm.same(v, "original after changing the copy")
	sym.Cover("copied")
}

// V08_Encoding: copies remember the text encoding of their strings.
// bound: 2 rows of Latin-1 text, copies of the frame, of a view and of a copy
// cover: accent
func V08_Encoding() {
	b := newBuilder()
	b.SetObjects("s", []interface{}{"\xe9t\xe9", nil})
	b.MarkAsString("s")
	b.AddInts("i", 1, 2)
	if sym.Choose("object", 2) == 1 {
		b.AddObjects("o", 1, nil)
	}
	df := b.TextEncoding(charmap.ISO8859_1).ToDataFrame()
	v := df
	switch sym.Choose("v", 5) {
	case 4:
		v = df.ColumnView("s", "i")
	case 1:
		v = df.View()
	case 2:
		v = df.ReverseView().ReverseView()
	case 3:
		v = df.ColumnView("s")
	}
	var c *dataframe.DataFrame
	switch sym.Choose("c", 4) {
	case 0:
		c = v.Copy()
	case 1:
		c = v.ShallowCopy()
		sym.Assert(c.Strings("s").Get(0) == "\xe9t\xe9", "shallow copy: text")
		if sym.Choose("detach", 2) == 1 {
			c = c.DetachedView("s")
		} else {
			c = c.DetachedView()
		}
	case 2:
		c = v.Copy().Copy()
	case 3:
		r, err := dataframe.RowConcat(v)
		sym.Assert(err == nil, "RowConcat of one frame fails")
		c = r
	}
	sym.Assert(c.Encode(nil) == nil, "encoding to UTF-8 fails")
	sym.Assert(c.Strings("s").Get(0) == "\u00e9t\u00e9", "text encoding lost by the copy")
	sym.Assert(c.Objects("s").Get(1) == nil, "missing string not missing any more")
	sym.Assert(df.Strings("s").Get(0) == "\xe9t\xe9", "original changed")
	sym.Cover("accent")
}
