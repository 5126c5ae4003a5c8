package h

import (
	"io"
	"math"
	"os"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"verifharness/sym"
)

// parallel turns on the exploration of every schedule, with race detection,
// for a frame on a machine of 3 CPUs, and returns the CPU limit to use.
func parallel() int {
	sym.SetNumCPU(3)
	k := 2 + sym.Choose("limit", sym.Quick(1, 2))
	sym.SymbolicRand(true)
	sym.AllSchedules(sym.Quick(1, 2))
	sym.DetectRaces()
	return k
}

// built is the frame of a model that repeats rows.
func (m *mdl) built() *dataframe.DataFrame { return m.build().IndexView(m.idx) }

// stringFrame has k string columns of 2 rows and an int column.
func stringFrame(k int) *mdl {
	m := &mdl{cols: map[string]*col{"i": newCol(kI, 2)}, idx: []int{1, 0, 1}}
	for c := 0; c < k; c++ {
		m.cols["s"+itoa(c)] = &col{k: kS, o: []interface{}{"v" + itoa(c), []interface{}{nil, "w"}[c&1]}}
	}
	m.cols["s0"].o[0] = sym.Bytes("cell", 1)
	return m
}

// Q02_Hash: hashing columns concurrently.
// bound: 2..3 string columns (thorough 4) of 3 rows in a view repeating a row, one cell an arbitrary byte, CPU limit 2 (thorough 2..3), every goroutine schedule with at most 2 preemptions, accesses checked for races
// cover: hashed
func Q02_Hash() {
	k := 2 + sym.Choose("k", sym.Quick(2, 3))
	m := stringFrame(k)
	df := m.built()
	var cols []string
	for c := 0; c < k; c++ {
		cols = append(cols, "s"+itoa(c))
	}
	df.SetMaxCPU(1)
	want := modelOf(df.HashStringsView(cols...))
	before := modelOf(df)
	df.SetMaxCPU(parallel())
	sym.AllSchedules(2)
	got := df.HashStringsView(cols...)
	want.same(got, "hashed view")
	sym.OneSchedule()
	sym.NoLeak("a worker outlives HashStringsView")
	want.same(got, "hashed view after the workers")
	before.same(df, "hashed frame")
	sym.Cover("hashed")
}

// floatColumns has k float columns of 2 rows, shown in a view repeating a row.
func floatColumns(k int) *mdl {
	m := &mdl{cols: map[string]*col{"i": newCol(kI, 2)}, idx: []int{1, 0, 1}}
	for c := 0; c < k; c++ {
		m.cols["f"+itoa(c)] = &col{k: kF, f: []float64{float64(c), []float64{4, math.NaN(), 1}[c]}}
	}
	m.cols["f0"].f[1] = sym.OneOf("cell", math.NaN(), 4, -1)
	return m
}

// Q02_Scaler: fitting, scaling and scaling back concurrently.
// bound: 2..3 float columns of 3 rows in a view repeating a row, an arbitrary cell among missing, 4, -1, two option combinations, CPU limit 2 (thorough 2..3), every goroutine schedule of fitting, of transforming or of transforming back with at most 1 preemption (thorough 2), accesses checked for races
// cover: fit transform inverse
func Q02_Scaler() {
	k := 2 + sym.Choose("k", 2)
	m := floatColumns(k)
	var o preprocessing.ScalerOptions
	if sym.Choose("options", 2) == 0 {
		o.MinMax = true
	} else {
		o.Centering, o.Scaling = true, true
	}
	one, df := m.built(), m.built()
	one.SetMaxCPU(1)
	df.SetMaxCPU(1)
	ref, s := preprocessing.NewScaler(o), preprocessing.NewScaler(o)
	sym.Assert(ref.Fit(one) == nil, "Fit fails")
	part := sym.Choose("part", 3)
	if part == 0 {
		df.SetMaxCPU(parallel())
	}
	sym.Assert(s.Fit(df) == nil, "Fit fails")
	sameNumbers(ref.Shift, s.Shift)
	sameNumbers(ref.Scale, s.Scale)
	switch part {
	case 0:
		sym.Cover("fit")
	case 1:
		sym.Assert(ref.TransformInplace(one) == nil, "TransformInplace fails")
		df.SetMaxCPU(parallel())
		sym.Assert(s.TransformInplace(df) == nil, "TransformInplace fails")
		sym.Cover("transform")
	case 2:
		sym.Assert(ref.InverseTransformInplace(one) == nil, "InverseTransformInplace fails")
		df.SetMaxCPU(parallel())
		sym.Assert(s.InverseTransformInplace(df) == nil, "InverseTransformInplace fails")
		sym.Cover("inverse")
	}
	want := modelOf(one)
	want.same(df, "scaled frame")
	sym.OneSchedule()
	sym.NoLeak("a worker outlives the scaler")
	want.same(df, "scaled frame after the workers")
}

func sameNumbers(a, b map[string]float64) {
	sym.Assert(len(a) == len(b), "fitted columns depend on the schedule")
	for k, v := range a {
		w, ok := b[k]
		sym.Assert(ok, "fitted columns depend on the schedule")
		sym.Assert(near(v, w), "fitted values depend on the schedule")
	}
}

// Q02_Imputer: fitting the imputer concurrently.
// bound: 2..3 float columns of 3 rows in a view repeating a row, an arbitrary cell among missing, 4, -1, CPU limit 2 (thorough 2..3), every goroutine schedule of fitting with at most 1 preemption (thorough 2), accesses checked for races
// cover: imputed
func Q02_Imputer() {
	k := 2 + sym.Choose("k", 2)
	m := floatColumns(k)
	one, df := m.built(), m.built()
	one.SetMaxCPU(1)
	run := func(df *dataframe.DataFrame) {
		e := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
		sym.Assert(e.Fit(df) == nil, "Fit fails")
		sym.Assert(e.TransformInplace(df) == nil, "TransformInplace fails")
	}
	run(one)
	want := modelOf(one)
	df.SetMaxCPU(parallel())
	run(df)
	want.same(df, "imputed frame")
	sym.OneSchedule()
	sym.NoLeak("a worker outlives the imputer")
	want.same(df, "imputed frame after the workers")
	sym.Cover("imputed")
}

// Q02_OneHot: fitting and encoding concurrently.
// bound: 2..3 int columns of 3 rows in a view repeating a row, an arbitrary cell, an unknown value in one of the columns or none (errors), CPU limit 2 (thorough 2..3), every goroutine schedule of fitting, or of encoding, with at most 1 preemption (thorough 2), accesses checked for races; the numbering of the categories may differ between trainings
// cover: encoded error
func Q02_OneHot() {
	k := 2 + sym.Choose("k", 2)
	m := &mdl{cols: map[string]*col{"f": newCol(kF, 2)}, idx: []int{1, 0, 1}}
	for c := 0; c < k; c++ {
		m.cols["c"+itoa(c)] = &col{k: kI, i: []int{c, 7}}
	}
	v := sym.Int("cell")
	sym.Assume(v != -1)
	m.cols["c0"].i[0] = v
	o := preprocessing.OneHotOptions{UnknownPolicy: preprocessing.ReturnError, MissingPolicy: preprocessing.ImputeWithMostFrequent}
	train := m.built()
	bad := sym.Choose("unknown", 3)
	if bad > 0 {
		w := sym.Int("unseen")
		m.cols["c"+itoa(bad-1)].i[1] = w
		sym.Assume(w != -1)
		sym.Assume(w != train.Ints("c"+itoa(bad-1)).Get(0))
		sym.Assume(w != train.Ints("c"+itoa(bad-1)).Get(1))
	}
	df := m.built()
	before := modelOf(df)
	e := preprocessing.NewOneHotEncoder(o)
	fit := sym.Choose("which", 2) == 0
	train.SetMaxCPU(1)
	df.SetMaxCPU(1)
	if fit {
		train.SetMaxCPU(parallel())
	}
	sym.Assert(e.Fit(train) == nil, "Fit fails")
	if fit {
		sym.OneSchedule()
		sym.NoLeak("a worker outlives Fit")
	} else {
		df.SetMaxCPU(parallel())
	}
	got, err := e.TransformView(df)
	sym.Assert((err != nil) == (bad > 0), "the error depends on the schedule")
	done := func() {
		before.same(df, "encoded frame")
		if err != nil {
			sym.Cover("error")
			return
		}
		sym.Cover("encoded")
		// one flag per row and column: the same for the same value only
		sym.Assert(got.NumRows() == 3, "encoded view: number of rows")
		sym.Assert(got.IntHeader().Num() == 0, "encoded view: a column is not encoded")
		all := sorted(got.BoolHeader().NameList())
		f0, f1, f2 := flags(got, 0, all), flags(got, 1, all), flags(got, 2, all)
		sym.Assert(len(f0) == k && len(f1) == k && len(f2) == k, "encoded view: not one flag per column")
		for i := range f0 {
			same := i == 0 && before.cols["c0"].i[0] == before.cols["c0"].i[1]
			sym.Assert(f0[i] == f2[i], "encoded view: equal rows, different flags")
			sym.Assert((f0[i] == f1[i]) == same, "encoded view: flags of different values")
		}
	}
	done()
	sym.OneSchedule()
	sym.NoLeak("a worker outlives the encoder")
	done()
}

// Q02_Read: parsing the columns of a CSV file concurrently.
// bound: 2..3 columns of 2 rows (each int, float, string or bool), CPU limit 2 (thorough 2..3), every goroutine schedule with at most 1 preemption (thorough 2), accesses checked for races
// cover: read
func Q02_Read() {
	k := 2 + sym.Choose("k", sym.Quick(1, 2))
	cells := [][2]string{{"1", "2"}, {"1.5", ""}, {"x", ""}, {"true", "false"}}
	names := []string{"a", "b", "c"}[:k]
	var l1, l2 []string
	for range names {
		c := cells[sym.Choose("type", 4)]
		l1, l2 = append(l1, c[0]), append(l2, c[1])
	}
	text := strings.Join(names, ",") + "\n" + strings.Join(l1, ",") + "\n" + strings.Join(l2, ",") + "\n"
	read := func(limit int) *dataframe.RawData {
		raw, err := dataframe.FromCSV(strings.NewReader(text), dataframe.CSVReadingSpec{MaxCPU: limit, MissingValues: []string{""}})
		sym.Assert(err == nil, "reading fails")
		return raw
	}
	want := modelOf(read(1).ToDataFrame())
	got := read(parallel())
	sym.OneSchedule()
	sym.NoLeak("a worker outlives FromCSV")
	want.same(got.ToDataFrame(), "parsed frame")
	sym.Cover("read")
}

// Q02_Files: reading several files concurrently.
// bound: 2 files (thorough 3) of 1 row of an int and a string column, one of them broken or none, CPU limit 2 (thorough 2..3), every goroutine schedule with at most 1 preemption, accesses checked for races
// cover: read error
func Q02_Files() {
	k := 2 + sym.Choose("files", sym.Quick(1, 2))
	bad := sym.Choose("broken", k+1)
	dir := sym.TempDir()
	for i := 0; i < k; i++ {
		text := "id,s\n" + itoa(10+i) + ",s" + itoa(i) + "\n"
		if i == bad {
			text += "1,2,3,4\n"
		}
		os.WriteFile(dir+"/f"+itoa(i), []byte(text), 0600)
	}
	o := dataframe.CSVReadingSpec{MaxCPU: parallel()}
	sym.AllSchedules(1)
	raw, err := dataframe.FromCSVFilePattern(dir+"/f*", o)
	sym.OneSchedule()
	sym.NoLeak("a worker outlives FromCSVFilePattern")
	sym.Assert((err != nil) == (bad < k), "the error depends on the schedule")
	if err != nil {
		sym.Cover("error")
		return
	}
	df := raw.ToDataFrame()
	sym.Assert(df.NumRows() == k, "number of rows")
	seen := make([]bool, k)
	for j := 0; j < k; j++ {
		id := df.Ints("id").Get(j) - 10
		sym.Assert(id >= 0 && id < k && !seen[id], "a file is lost or read twice")
		seen[id] = true
		sym.Assert(df.Objects("s").Get(j) == "s"+itoa(id), "cells of different files are mixed")
	}
	sym.Cover("read")
}

// Q02_Write: writing several files concurrently.
// bound: 2..3 writers, one of them failing or none, 3 rows of an int and a string column, with and without MaintainOrder, CPU limit 3, every goroutine schedule with at most 1 preemption (thorough 2), accesses checked for races
// cover: written error
func Q02_Write() {
	k := 2 + sym.Choose("writers", 2)
	bad := sym.Choose("failing", k+1)
	m := csvModel(3).only("id", "s")
	m.idx = []int{2, 0, 1}
	df := m.built()
	o := dataframe.CSVWritingSpec{MaintainOrder: sym.Choose("order", 2) == 1}
	parallel()
	df.SetMaxCPU(3)
	ws := make([]*brokenWriter, k)
	out := make([]*strings.Builder, k)
	writers := make([]io.Writer, k)
	for i := range ws {
		out[i] = &strings.Builder{}
		writers[i] = out[i]
		if i == bad {
			ws[i] = &brokenWriter{}
			writers[i] = ws[i]
		}
	}
	err := df.ToCSVs(writers, o)
	sym.OneSchedule()
	sym.NoLeak("a worker outlives ToCSVs")
	sym.Assert((err != nil) == (bad < k), "the error depends on the schedule")
	if err != nil {
		sym.Cover("error")
		return
	}
	lines := 0
	text := ""
	for i := range out {
		text += out[i].String()
		lines += strings.Count(out[i].String(), "\n")
	}
	sym.Assert(lines == 3+k, "number of lines")
	for j, s := range []string{"s0", "", "s2"} {
		sym.Assert(strings.Contains(text, itoa(10+j)+","+s+"\n"), "a row is lost")
	}
	sym.Cover("written")
}

// modelOf is a snapshot of what a frame shows.
func modelOf(df *dataframe.DataFrame) *mdl {
	n := df.NumRows()
	m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	for _, c := range df.FloatHeader().NameList() {
		k := &col{k: kF}
		for j := 0; j < n; j++ {
			k.f = append(k.f, df.Floats(c).Get(j))
		}
		m.cols[c] = k
	}
	for _, c := range df.IntHeader().NameList() {
		k := &col{k: kI}
		for j := 0; j < n; j++ {
			k.i = append(k.i, df.Ints(c).Get(j))
		}
		m.cols[c] = k
	}
	for _, c := range df.BoolHeader().NameList() {
		k := &col{k: kB}
		for j := 0; j < n; j++ {
			k.b = append(k.b, df.Bools(c).Get(j))
		}
		m.cols[c] = k
	}
	strs := df.StringHeader().NameSet()
	for _, c := range df.ObjectHeader().NameList() {
		k := &col{k: kO}
		if strs[c] {
			k.k = kS
		}
		for j := 0; j < n; j++ {
			k.o = append(k.o, df.Objects(c).Get(j))
		}
		m.cols[c] = k
	}
	return m
}
