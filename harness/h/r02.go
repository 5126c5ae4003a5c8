package h

import (
	"math"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

var separators = []rune{0, ';', '\t', '|'}

// writeOptions is an arbitrary choice of options; the reading options that go
// with it are returned too.
func writeOptions() (w dataframe.CSVWritingSpec, r dataframe.CSVReadingSpec) {
	w.MaintainOrder = sym.Choose("order", 2) == 1
	w.UseCRLF = sym.Choose("crlf", 2) == 1
	w.Comma = separators[sym.Choose("comma", sym.Quick(2, 4))]
	r.Comma = w.Comma
	w.StringMissingMarker = []string{"", "NA", "?\"; "}[sym.Choose("marker", sym.Quick(2, 3))]
	r.MissingValues = []string{w.StringMissingMarker}
	return
}

func reread(text string, o dataframe.CSVReadingSpec, label string) *dataframe.DataFrame {
	raw, err := dataframe.FromCSV(strings.NewReader(text), o)
	sym.Assert(err == nil, label+": the output cannot be read")
	return raw.ToDataFrame()
}

// R02_Strings: arbitrary string contents survive, whatever needs quoting.
// bound: 1..2 rows, strings of 0..2 (thorough 3) arbitrary bytes except carriage returns, a missing cell, 8 (thorough 24) combinations of delimiter, CRLF and missing marker; strings equal to the marker excluded
// cover: quoted comma newline
func R02_Strings() {
	w, r := writeOptions()
	w.MaintainOrder = true
	n := 1 + sym.Choose("n", sym.Quick(1, 2))
	m := &mdl{cols: map[string]*col{"s": {k: kS}, "t": {k: kS}, "i": {k: kI}}, idx: iota_(n + 2)}
	for j := 0; j < n+2; j++ {
		var c interface{}
		if j < n {
			k := sym.Choose("len", sym.Quick(3, 4))
			if j == 1 && k > 1 {
				k = 1
			}
			s := sym.Bytes("s", k)
			for i := 0; i < k; i++ {
				sym.Assume(s[i] != '\r')
			}
			sym.Assume(s != w.StringMissingMarker)
			if strings.IndexByte(s, '"') >= 0 {
				sym.Cover("quoted")
			}
			if strings.IndexByte(s, ',') >= 0 {
				sym.Cover("comma")
			}
			if strings.IndexByte(s, '\n') >= 0 {
				sym.Cover("newline")
			}
			c = s
		} else if j == n {
			c = "zz"
		}
		m.cols["s"].o = append(m.cols["s"].o, c)
		m.cols["t"].o = append(m.cols["t"].o, "t"+itoa(j))
		m.cols["i"].i = append(m.cols["i"].i, 5*j)
	}
	df := m.build()
	var b strings.Builder
	sym.Assert(df.To1CSV(&b, w) == nil, "writing fails")
	got := reread(b.String(), r, "strings")
	m.same(got, "reread")
	m.same(df, "frame after writing")
	observe(got, "reread")
}

var someFloats = []float64{0.1 + 0.2, -0.5, 1e300, 5e-324, math.MaxFloat64, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), 123456789.125, 1e21, 1 << 53, 2.5}

// R02_Numbers: ints, floats and bools.
// bound: 2..3 rows; one int symbolic in -120..120 and one of 4 extremes, or two floats of any of 13 notable values (subnormal, largest, negative zero, infinities, missing, 17 digits), or arbitrary bools
func R02_Numbers() {
	m := &mdl{cols: map[string]*col{"i": {k: kI}, "f": {k: kF}, "b": {k: kB}}, idx: iota_(3)}
	what := sym.Choose("what", 3)
	for j := 0; j < 3; j++ {
		i, f, b := 2+j, 7.5, j == 1
		switch {
		case what == 0 && j == 0:
			i = sym.IntRange("i", -120, 120)
		case what == 0 && j == 1:
			i = []int{math.MaxInt64, math.MinInt64, -1, 1 << 53}[sym.Choose("big", 4)]
		case what == 1 && j < 2:
			f = sym.OneOf("f", someFloats...)
		case what == 2:
			b = sym.Bool("b")
		}
		m.cols["i"].i = append(m.cols["i"].i, i)
		m.cols["f"].f = append(m.cols["f"].f, f)
		m.cols["b"].b = append(m.cols["b"].b, b)
	}
	df := m.build()
	var b strings.Builder
	sym.Assert(df.To1CSV(&b, dataframe.CSVWritingSpec{MaintainOrder: sym.Choose("order", 2) == 1}) == nil, "writing fails")
	got := reread(b.String(), dataframe.CSVReadingSpec{}, "numbers")
	m.same(got, "reread")
	sym.Observe("text", b.String())
}

// checkPermuted asserts that the frame's rows, identified by column id, are a
// permutation of want's rows (with repetitions) and moves whole rows together.
func checkPermuted(got *dataframe.DataFrame, want *mdl, label string) {
	sym.Assert(got.NumRows() == want.rows(), label+": number of rows")
	count := map[int]int{}
	for _, r := range want.idx {
		count[r]++
	}
	ids := got.Ints("id")
	pm := want.view()
	pm.idx = nil
	for j := 0; j < got.NumRows(); j++ {
		r := ids.Get(j) - 10
		sym.Assert(count[r] > 0, label+": a row is lost, repeated or unknown")
		count[r]--
		pm.idx = append(pm.idx, r)
	}
	pm.checkCells(got, label)
}

// csvModel has columns of all types; rows are identified by column id.
func csvModel(n int) *mdl {
	m := &mdl{cols: map[string]*col{"id": {k: kI}, "s": {k: kS}, "f": {k: kF}, "b": {k: kB}}, idx: iota_(n)}
	for j := 0; j < n; j++ {
		m.cols["id"].i = append(m.cols["id"].i, 10+j)
		var c interface{} = "s" + itoa(j)
		if j == 1 {
			c = nil
		}
		m.cols["s"].o = append(m.cols["s"].o, c)
		m.cols["f"].f = append(m.cols["f"].f, float64(j)+0.5)
		m.cols["b"].b = append(m.cols["b"].b, sym.Bool("b"))
	}
	return m
}

// readTyped makes a frame of the output with the types that m has, even when
// there is no row.
func (m *mdl) readTyped(text, label string) *dataframe.DataFrame {
	df := reread(text, dataframe.CSVReadingSpec{MissingValues: []string{""}}, label)
	sym.Assert(df.NumColumns() == len(m.cols), label+": number of columns")
	for _, n := range m.names() {
		sym.Assert(df.Header().NameSet()[n], label+": a column is missing")
	}
	return df
}

// R02_Views: any view, with and without MaintainOrder.
// bound: 0..3 backing rows seen through 2 row views with arbitrary indices, optionally ColumnView or an object column that CSV does not hold
// cover: order repeated
func R02_Views() {
	n := sym.Choose("n", 4)
	m := csvModel(n)
	df := m.build()
	m0, base := m, df
	df, m = rowOp(df, m, "op1")
	if sym.Choose("two", 2) == 1 {
		if sym.Choose("rev", 2) == 1 {
			df, m = df.ReverseView(), m.pick(rev(m.rows()))
		} else if m.rows() > 1 {
			df, m = df.SliceView(1, m.rows()), m.pick(iota_(m.rows())[1:])
		}
	}
	if m.rows() > n {
		sym.Cover("repeated")
	}
	var w dataframe.CSVWritingSpec
	w.MaintainOrder = sym.Choose("order", 2) == 1
	var b strings.Builder
	sym.Assert(df.To1CSV(&b, w) == nil, "writing fails")
	got := m.readTyped(b.String(), "views")
	if m.rows() > 0 {
		// a column of missing strings or of whole numbers may come back with another type
		if w.MaintainOrder {
			sym.Cover("order")
			sym.Assert(got.NumRows() == m.rows(), "reread: number of rows")
			m.checkCells(got, "reread", "id", "f", "b")
		} else {
			checkPermuted(got, m.only("id", "f", "b"), "reread")
		}
	} else {
		sym.Assert(got.NumRows() == 0, "reread: number of rows")
	}
	m.same(df, "frame after writing")
	m0.same(base, "base after writing")
	sym.Observe("text", b.String())
}

// R02_Batch: sizes around the internal write batch.
// bound: 254..258 and 511..513 rows, two symbolic rows per batch, missing strings and floats in every batch, written as nothing or as NA, with and without MaintainOrder, as is, reversed or sliced
func R02_Batch() {
	n := []int{255, 256, 257, 258, 512, 513}[sym.Choose("n", sym.Quick(4, 6))]
	sym.StepLimit(10000000)
	m := &mdl{cols: map[string]*col{"id": {k: kI}, "b": {k: kB}, "s": {k: kS}, "f": {k: kF}}, idx: iota_(n)}
	for j := 0; j < n; j++ {
		m.cols["id"].i = append(m.cols["id"].i, 10+j)
		b := j%3 == 0
		if j == 255 || j == 256 || j == 1 {
			b = sym.Bool("b")
		}
		m.cols["b"].b = append(m.cols["b"].b, b)
		var c interface{} = "s" + itoa(j)
		f := float64(j) + 0.5
		if j == 2 || j == 255 || j == 257 || j == 511 {
			c, f = nil, math.NaN()
		}
		m.cols["s"].o = append(m.cols["s"].o, c)
		m.cols["f"].f = append(m.cols["f"].f, f)
	}
	df := m.build()
	switch sym.Choose("view", 3) {
	case 1:
		df, m = df.ReverseView(), m.pick(rev(n))
	case 2:
		df, m = df.SliceView(1, n), m.pick(iota_(n)[1:])
	}
	var w dataframe.CSVWritingSpec
	w.MaintainOrder = sym.Choose("order", 2) == 1
	r := dataframe.CSVReadingSpec{MissingValues: []string{""}}
	if sym.Choose("marker", 2) == 1 {
		w.StringMissingMarker = "NA"
		r.MissingValues = []string{"NA", ""}
	}
	var b strings.Builder
	sym.Assert(df.To1CSV(&b, w) == nil, "writing fails")
	got := reread(b.String(), r, "batch")
	if w.MaintainOrder {
		m.same(got, "reread")
	} else {
		checkPermuted(got, m, "reread")
	}
}

// R02_OneColumn: frames of one column, also with empty or missing cells and an empty name.
// bound: 0..3 rows, one string column of cells among missing, empty and two texts, one float column with missing cells, or an unnamed column; CRLF or not
// cover: empty
func R02_OneColumn() {
	n := sym.Choose("n", 4)
	var w dataframe.CSVWritingSpec
	w.UseCRLF = sym.Choose("crlf", 2) == 1
	name := []string{"s", ""}[sym.Choose("name", 2)]
	c := &col{k: kS}
	for j := 0; j < n; j++ {
		v := []interface{}{"zz", nil, "a b"}[sym.Choose("cell", 3)]
		if v == nil {
			sym.Cover("empty")
		}
		c.o = append(c.o, v)
	}
	// one cell decides the type
	c.o = append(c.o, "zz")
	m := &mdl{cols: map[string]*col{name: c}, idx: iota_(n + 1)}
	df := m.build()
	var b strings.Builder
	sym.Assert(df.To1CSV(&b, w) == nil, "writing fails")
	got := reread(b.String(), dataframe.CSVReadingSpec{MissingValues: []string{""}}, "one column")
	m.same(got, "reread")
	sym.Observe("text", b.String())
}
