package h

import (
	"golang.org/x/text/encoding/charmap"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// fill builds column name with k cells in one of several ways.
func fill(b dataframe.DataBuilder, m *mdl, name string, t kind, k int, how int) dataframe.DataBuilder {
	c := newCol(t, k)
	for r := 0; r < k; r++ {
		switch t {
		case kF:
			c.f[r] = sym.Float64(name)
		case kI:
			c.i[r] = sym.Int(name)
		case kB:
			c.b[r] = sym.Bool(name)
		case kS:
			c.o[r] = sym.Bytes(name, 1)
		case kO:
			c.o[r] = sym.Int(name)
		}
	}
	m.cols[name] = c
	half := k / 2
	if how == 2 { // replaced by Set
		junk := newCol(t, 3)
		fill1(b, name, junk, 0, 3)
	}
	switch how {
	case 0:
		fill1(b, name, c, 0, k)
	case 1:
		fill1(b, name, c, 0, half)
		fill1(b, name, c, half, k)
	default:
		d := c.clone()
		switch t {
		case kF:
			b.SetFloats(name, d.f)
		case kI:
			b.SetInts(name, d.i)
		case kB:
			b.SetBools(name, d.b)
		default:
			b.SetObjects(name, d.o)
		}
	}
	if t == kS && how >= 2 {
		b = b.MarkAsString(name)
	}
	return b
}

func fill1(b dataframe.DataBuilder, name string, c *col, from, to int) {
	switch c.k {
	case kF:
		b.AddFloats(name, c.f[from:to]...)
	case kI:
		b.AddInts(name, c.i[from:to]...)
	case kB:
		b.AddBools(name, c.b[from:to]...)
	case kO:
		b.AddObjects(name, c.o[from:to]...)
	case kS:
		var s []string
		for _, x := range c.o[from:to] {
			if x == nil {
				x = ""
			}
			s = append(s, x.(string))
		}
		b.AddStrings(name, s...)
	}
}

// B01_Build: any columns of any lengths.
// bound: 1..3 columns of any of the 5 types, 0..2 cells each (thorough 3), filled by one Add, two Adds, Set, or Add then Set
// cover: built refused
func B01_Build() {
	b := newBuilder()
	m := &mdl{cols: map[string]*col{}}
	k := 1 + sym.Choose("columns", 3)
	size, same := 0, true
	for j := 0; j < k; j++ {
		n := sym.Choose("size", sym.Quick(3, 4))
		if j > 0 && n != size {
			same = false
		}
		size = n
		how := 0
		if j < 2 {
			how = sym.Choose("how", 4)
		}
		b = fill(b, m, string(rune('p'+j)), kind(sym.Choose("type", 5)), n, how)
	}
	m.idx = iota_(size)
	var df *dataframe.DataFrame
	refused := sym.Panics(func() { df = b.ToDataFrame() })
	sym.Assert(refused == !same, "ToDataFrame panics exactly when the lengths differ")
	if refused {
		sym.Cover("refused")
		return
	}
	m.check(df, "built frame")
	sym.Cover("built")
	observe(df, "r")
}

// B01_Copies: Add copies the values it is given.
// bound: 1..2 cells of each type
// cover: copied
func B01_Copies() {
	b := newBuilder()
	k := 1 + sym.Choose("k", 2)
	m := &mdl{cols: map[string]*col{}, idx: iota_(k)}
	f, i, o, bs := make([]float64, k), make([]int, k), make([]interface{}, k), make([]bool, k)
	for r := 0; r < k; r++ {
		f[r], i[r], o[r], bs[r] = sym.Float64("f"), sym.Int("i"), r, sym.Bool("b")
	}
	m.cols["f"], m.cols["i"], m.cols["o"], m.cols["b"] = (&col{k: kF, f: f}).clone(), (&col{k: kI, i: i}).clone(), (&col{k: kO, o: o}).clone(), (&col{k: kB, b: bs}).clone()
	df := b.AddFloats("f", f...).AddInts("i", i...).AddObjects("o", o...).AddBools("b", bs...).ToDataFrame()
	f[0], i[0], o[0], bs[0] = 7, 7, "seven", !bs[0]
	m.same(df, "frame after changing the added slices")
	sym.Cover("copied")
}

// B01_Columns: merging different columns.
// bound: 1..3 inputs of 0..2 rows, each with 2 columns, the first of any type (of one type in the third), text encoding set or not; columns of the result or of an input dropped or renamed afterwards
// cover: many
func B01_Columns() {
	k := 1 + sym.Choose("inputs", 3)
	n := sym.Choose("n", 3)
	m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	latin := sym.Choose("latin", 2) == 1
	var list []*dataframe.RawData
	for j := 0; j < k; j++ {
		b := newBuilder()
		if latin {
			b = b.TextEncoding(charmap.ISO8859_1)
		}
		b.RawData.SetMaxCPU(1)
		for c := 0; c < 2; c++ {
			t := kS
			if c == 0 || j == 0 {
				t = kind(sym.Choose("type", 5))
			}
			if j == 2 {
				t = kind(n) + 2
			}
			b = fill(b, m, string(rune('p'+j))+string(rune('0'+c)), t, n, 0)
		}
		list = append(list, b.RawData)
	}
	got := dataframe.MergeRawDataColumns(list)
	df := got.ToDataFrame()
	m.check(df, "merged columns")
	sym.Assert(got.ActualMaxCPU() == 1, "merged columns: CPU limit")
	checkLatin(df, m, latin, "merged columns")
	// the inputs and the result are structures of their own
	in := list[0].ToDataFrame()
	im := &mdl{cols: map[string]*col{"p0": m.cols["p0"], "p1": m.cols["p1"]}, idx: iota_(n)}
	got.Drop("p0")
	got.Rename("p1", "elsewhere")
	im.check(in, "input after changing the merged columns")
	im.check(list[0].ToDataFrame(), "input after changing the merged columns, again a frame")
	list[0].Drop("p0", "p1")
	rest := &mdl{cols: map[string]*col{"elsewhere": m.cols["p1"]}, idx: iota_(n)}
	for c, x := range m.cols {
		if c != "p0" && c != "p1" {
			rest.cols[c] = x
		}
	}
	rest.check(got.ToDataFrame(), "merged columns after changing an input")
	if k == 3 {
		sym.Cover("many")
	}
}

// checkLatin observes the recorded text encoding: a Latin-1 frame re-encodes.
func checkLatin(df *dataframe.DataFrame, m *mdl, latin bool, label string) {
	probe := df.View()
	probe.AllocStrings("probe")
	if probe.NumRows() == 0 || probe.NumAllocatedRows() == 0 {
		return
	}
	probe = probe.ColumnView("probe")
	for r := 0; r < probe.NumRows(); r++ {
		probe.Objects("probe").Set(r, "\xe9")
	}
	sym.Assert(probe.Encode(nil) == nil, label+": encoding fails")
	want := "\xe9"
	if latin {
		want = "\u00e9"
	}
	sym.Assert(probe.Strings("probe").Get(0) == want, label+": text encoding")
}

// B01_Rows: appending rows.
// bound: 1..3 inputs of 0..2 rows with all column types, text encoding set or not; a write to the result or the inputs afterwards
// cover: many
func B01_Rows() {
	k := 1 + sym.Choose("inputs", 3)
	latin := sym.Choose("latin", 2) == 1
	var list []*dataframe.RawData
	var dfs []*dataframe.DataFrame
	var ms []*mdl
	for j := 0; j < k; j++ {
		n := sym.Choose("n", 3)
		m := newModel("", n).withNil("s1", j)
		b := newBuilder()
		if latin {
			b = b.TextEncoding(charmap.ISO8859_1)
		}
		b.RawData.SetMaxCPU(1)
		for _, c := range m.names() {
			d := m.cols[c].clone()
			switch d.k {
			case kF:
				b.SetFloats(c, d.f)
			case kI:
				b.SetInts(c, d.i)
			case kB:
				b.SetBools(c, d.b)
			default:
				b.SetObjects(c, d.o)
				if d.k == kS {
					b.MarkAsString(c)
				}
			}
		}
		list, ms, dfs = append(list, b.RawData), append(ms, m), append(dfs, b.ToDataFrame())
	}
	got := dataframe.MergeRawDataRows(list)
	want := stack(ms...)
	df := got.ToDataFrame()
	want.check(df, "merged rows")
	sym.Assert(got.ActualMaxCPU() == 1, "merged rows: CPU limit")
	checkLatin(df, want, latin, "merged rows")
	for j := range dfs {
		for r := 0; r < ms[j].rows(); r++ {
			dfs[j].Floats("f1").Set(r, -1)
			dfs[j].Objects("s1").Set(r, "no")
		}
	}
	want.same(df, "merged rows after changing the inputs")
	if want.rows() > 0 {
		df.Ints("i1").Set(0, 5)
		for j := range dfs {
			ms[j].checkCells(dfs[j], "input after changing the merged rows", "i1", "b1", "o1")
		}
	}
	if k == 3 {
		sym.Cover("many")
	}
}

// B01_Overlap: of columns of the same name, the last one is kept.
// bound: 2 or 3 inputs of 2 rows with columns p and q; p of any type in the first two inputs
// cover: retyped
func B01_Overlap() {
	k := 2 + sym.Choose("inputs", 2)
	m := &mdl{cols: map[string]*col{}, idx: iota_(2)}
	var list []*dataframe.RawData
	for j := 0; j < k; j++ {
		b := newBuilder()
		t := kind(j)
		if j < 2 {
			t = kind(sym.Choose("type", 5))
		}
		if old := m.cols["p"]; old != nil && old.k != t {
			sym.Cover("retyped")
		}
		b = fill(b, m, "p", t, 2, 0)
		b = fill(b, m, string(rune('q'+j)), kF, 2, 0)
		list = append(list, b.RawData)
	}
	df := dataframe.MergeRawDataColumns(list).ToDataFrame()
	m.check(df, "merged columns")
	observe(df, "r")
}

// B01_Marks: a column that any of the inputs marks as a string column is a string column of the result.
// bound: 2..3 inputs of 0..1 rows, three object columns of strings, each marked or not in each input
// cover: late
func B01_Marks() {
	k := 2 + sym.Choose("inputs", 2)
	cols := []string{"p", "q", "r"}
	marked := map[string]bool{}
	var list []*dataframe.RawData
	var ms []*mdl
	for j := 0; j < k; j++ {
		n := sym.Choose("n", 2)
		b := newBuilder()
		m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
		for i, c := range cols {
			d := &col{k: kO}
			for r := 0; r < n; r++ {
				d.o = append(d.o, "s"+itoa(10*j+i))
			}
			m.cols[c] = d
			b.SetObjects(c, d.clone().o)
			if (i == 0 || k == 2 || j < 2) && sym.Choose("mark", 2) == 1 {
				b.MarkAsString(c)
				if len(marked) > 0 && !marked[c] {
					sym.Cover("late")
				}
				marked[c] = true
			}
		}
		list, ms = append(list, b.RawData), append(ms, m)
	}
	want := stack(ms...)
	for _, c := range cols {
		if marked[c] {
			want.cols[c].k = kS
		}
	}
	want.check(dataframe.MergeRawDataRows(list).ToDataFrame(), "merged rows")
}
