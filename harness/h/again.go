package h

import (
	"math"
	"math/rand"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"github.com/rom1mouret/ml-essentials/utils"
	"golang.org/x/text/encoding/charmap"
	"verifharness/sym"
)

// Q01_OneThread: a queue worked off by the goroutine that made it.
// bound: 0..6 names, limits 1..4, notifying after each job or after all of them, Results or Wait
// cover: more
func Q01_OneThread() {
	n := sym.Choose("n", 7)
	limit := 1 + sym.Choose("limit", 4)
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, "c"+itoa(i))
	}
	if n > limit {
		sym.Cover("more")
	}
	q := utils.CreateStringQueue(names, limit)
	late := sym.Choose("late", 2) == 1
	var got []string
	for name, more := q.Next(); more; name, more = q.Next() {
		got = append(got, name)
		if !late {
			q.Notify(utils.ProcessedJob{Key: name, Result: len(got)})
		}
	}
	if late {
		for i, name := range got {
			q.Notify(utils.ProcessedJob{Key: name, Result: i + 1})
		}
	}
	sym.Assert(len(got) == n, "queue: number of jobs handed out")
	if sym.Choose("wait", 2) == 1 {
		q.Wait()
		return
	}
	res := q.Results()
	sym.Assert(len(res) == n, "Results: not one result per name")
	for _, name := range names {
		k := 0
		for _, r := range res {
			if r.Key == name {
				k++
				sym.Assert(got[r.Result.(int)-1] == name, "Results: result of another job")
			}
		}
		sym.Assert(k == 1, "Results: a name without exactly one result")
	}
}

// P03_Again: an encoder that keeps the columns it encodes is applied to its own output.
// sym: steps=3000000
// bound: 1..2 training rows of arbitrary ints, every pair of policies but errors, 2 rows transformed with arbitrary ints (quick: one a missing value and then a training value), whose cells then change to arbitrary other ints in the result, in a copy or a view of it, and are encoded again
// cover: changed
func P03_Again() { encodeAgain(true) }

// P04_Again: encoding an encoder's own output again leaves that output alone.
// sym: steps=3000000
// bound: as P03_Again
// cover: changed
func P04_Again() { encodeAgain(false) }

func encodeAgain(flagsOnly bool) {
	n := 1 + sym.Choose("n", 2)
	x := make([]int, n)
	for r := range x {
		x[r] = sym.Int("x")
	}
	e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: policies[sym.Choose("missing", 4)], UnknownPolicy: policies[sym.Choose("unknown", 4)], KeepUsedColumns: true})
	sym.Assert(e.Fit(intFrame("c", x...)) == nil, "one-hot: Fit fails")
	v := []int{sym.Int("v"), sym.Int("v")}
	w := []int{sym.Int("w"), sym.Int("w")}
	if sym.Tier() == 0 {
		v[1], w[1] = -1, x[0]
	}
	in := intFrame("c", v...)
	once, err := e.TransformView(in)
	sym.Assert(err == nil, "one-hot: error")
	cols := sorted(once.BoolHeader().NameList())
	read := func(df *dataframe.DataFrame) []bool {
		var r []bool
		for _, c := range cols {
			for i := 0; i < df.NumRows(); i++ {
				r = append(r, df.Bools(c).Get(i))
			}
		}
		return r
	}
	first := read(once)
	next := once
	switch sym.Choose("how", 3) {
	case 1:
		next = once.Copy()
	case 2:
		next = once.ReverseView()
	}
	for i := range w {
		next.Ints("c").Set(i, w[i])
	}
	if v[0] != w[0] {
		sym.Cover("changed")
	}
	again, err := e.TransformView(next)
	sym.Assert(err == nil, "one-hot: error when encoding again")
	if !flagsOnly {
		for k, b := range read(once) {
			sym.Assert(b == first[k], "encoding again changes what was encoded before")
		}
		return
	}
	fresh, err := e.TransformView(intFrame("c", w...))
	sym.Assert(err == nil, "one-hot: error")
	sym.Assert(again.NumRows() == 2, "one-hot: number of rows when encoding again")
	want := read(fresh)
	for k, b := range read(again) {
		sym.Assert(b == want[k], "encoding again does not give the flags of the new values")
	}
}

// V08_NoColumns: copies of frames without columns have their rows.
// bound: 1..3 rows; an EmptyDataFrame, a frame whose columns were all dropped, or a ColumnView of no existing column, then one arbitrary row view; Copy, ShallowCopy or both, then a column is allocated or set in the copy and written
// cover: viewed
func V08_NoColumns() {
	n := 1 + sym.Choose("n", 3)
	var e *dataframe.DataFrame
	m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	switch sym.Choose("base", 3) {
	case 0:
		e = dataframe.EmptyDataFrame(n, 1)
	case 1:
		e = intFrame("c", iota_(n)...)
		e.Drop("c")
	case 2:
		e = intFrame("c", iota_(n)...).ColumnView("nothing")
	}
	v, vm := rowOp(e, m, "view")
	if vm.rows() != n {
		sym.Cover("viewed")
	}
	c := v
	switch sym.Choose("copy", 4) {
	case 0:
		c = v.Copy()
	case 1:
		c = v.ShallowCopy()
	case 2:
		c = v.ShallowCopy().Copy()
	case 3:
		c = v.Copy().ShallowCopy()
	}
	sym.Assert(c.NumRows() == vm.rows(), "rows of a copy without columns")
	if vm.rows() == 0 {
		return
	}
	r := sym.IntRange("row", 0, vm.rows()-1)
	x := sym.Int("x")
	if sym.Choose("how", 2) == 1 {
		c.AllocInts("new")
		c.Ints("new").Set(r, x)
		sym.Assert(c.Ints("new").Get(r) == x, "cell of a column allocated in a copy without columns")
	} else {
		vals := make([]int, vm.rows())
		for i := range vals {
			vals[i] = i
		}
		for i := range vm.idx {
			for j := 0; j < i; j++ {
				if vm.idx[i] == vm.idx[j] {
					return // rows that repeat
				}
			}
		}
		c.OverwriteInts("new", vals)
		for i := range vals {
			sym.Assert(c.Ints("new").Get(i) == i, "cells overwritten in a copy without columns")
		}
	}
	sym.Assert(v.NumColumns() == 0, "a column of the copy shows in its source")
	sym.Assert(e.NumColumns() == 0, "a column of the copy shows in its source")
}

// V07_RawBoth: a view and a frame made of its raw data are both detached from their parent.
// bound: 2 rows, all column types; a frame made of the raw data of every view kind, or holding transferred or merged raw data of it; both detached, in either order, all columns or some, by Unshare or a DetachedView, then every cell of some columns of both written; at any depth of one or two views
// cover: deep
func V07_RawBoth() {
	n := 2
	m := newModel("", n)
	df := m.build()
	v, vm := anyView(df, m, "v")
	if sym.Choose("deep", 2) == 1 {
		v, vm = v.View(), vm.view()
		sym.Cover("deep")
	}
	var d *dataframe.DataFrame
	switch sym.Choose("source", 3) {
	case 0:
		d = v.ToDataFrame()
	case 1:
		d = dataframe.EmptyDataFrame(v.NumAllocatedRows(), 1)
		d.TransferRawDataFrom(&v.RawData)
	case 2:
		d = dataframe.MergeRawDataColumns([]*dataframe.RawData{&v.RawData}).ToDataFrame()
	}
	fm := m.freeze()
	var cols []string
	if sym.Choose("cols", 2) == 1 {
		cols = []string{"f1", "s1"}
	}
	both := []*dataframe.DataFrame{d, v}
	if sym.Choose("first", 2) == 1 {
		both = []*dataframe.DataFrame{v, d}
	}
	how := sym.Choose("how", 3)
	for k := range both {
		if how == k+1 {
			both[k] = both[k].DetachedView(cols...)
		} else {
			both[k].Unshare(cols...)
		}
	}
	for _, w := range both {
		for r := 0; r < w.NumRows(); r++ {
			w.Floats("f1").Set(r, -5)
			w.Objects("s1").Set(r, "written")
			if len(cols) == 0 {
				w.Ints("i1").Set(r, -5)
				w.Bools("b1").Set(r, !w.Bools("b1").Get(r))
				w.Objects("o1").Set(r, "written")
			}
		}
		fm.same(df, "frame that others were detached from")
	}
}

// C01_Encoding: the text encoding of stacked frames is kept.
// bound: 1..3 frames of 0..2 rows, with or without a text encoding, as they are, reversed or a ShallowCopy
// cover: one
func C01_Encoding() {
	k := 1 + sym.Choose("frames", 3)
	latin := sym.Choose("latin", 2) == 1
	var dfs []*dataframe.DataFrame
	var ms []*mdl
	for j := 0; j < k; j++ {
		n := sym.Choose("n", 3)
		m := &mdl{cols: map[string]*col{"s": newCol(kS, n), "i": newCol(kI, n)}, idx: iota_(n)}
		b := newBuilder()
		if latin {
			b = b.TextEncoding(charmap.ISO8859_1)
		}
		for r := 0; r < n; r++ {
			m.cols["s"].o[r], m.cols["i"].i[r] = "s"+itoa(10*j+r), 10*j+r
		}
		b.SetObjects("s", m.cols["s"].clone().o)
		b.MarkAsString("s")
		b.SetInts("i", m.cols["i"].clone().i)
		df := b.ToDataFrame()
		switch sym.Choose("op", 3) {
		case 1:
			df, m = df.ReverseView(), m.pick(rev(n))
		case 2:
			df = df.ShallowCopy()
		}
		dfs, ms = append(dfs, df), append(ms, m)
	}
	got, err := dataframe.RowConcat(dfs...)
	sym.Assert(err == nil, "RowConcat of frames with the same columns fails")
	want := stack(ms...)
	want.check(got, "RowConcat")
	checkLatin(got, want, latin, "RowConcat")
	if k == 1 {
		sym.Cover("one")
	}
}

// Q02_Refused: encoding columns of which some are refused.
// bound: 2..3 int columns of 2 rows, in each a known, a missing or an unknown value, neither of which has a category, CPU limit 1..3, every goroutine schedule with at most 1 preemption, every order of the columns
// cover: all some
func Q02_Refused() {
	k := 2 + sym.Choose("k", sym.Quick(1, 2))
	train := &mdl{cols: map[string]*col{}, idx: iota_(2)}
	test := &mdl{cols: map[string]*col{}, idx: iota_(2)}
	bad := 0
	for c := 0; c < k; c++ {
		train.cols["c"+itoa(c)] = &col{k: kI, i: []int{3, 4}}
		v := []int{3, -1, 8}[sym.Choose("value", 3)]
		if v != 3 {
			bad++
		}
		test.cols["c"+itoa(c)] = &col{k: kI, i: []int{v, 4}}
	}
	e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{UnknownPolicy: preprocessing.ReturnError, MissingPolicy: preprocessing.ReturnError})
	sym.Assert(e.Fit(train.build()) == nil, "Fit fails")
	df := test.build()
	sym.SetNumCPU(3)
	df.SetMaxCPU(1 + sym.Choose("cpu", 3))
	sym.SymbolicRand(true)
	sym.AllSchedules(1)
	_, err := e.TransformView(df)
	sym.OneSchedule()
	sym.SymbolicRand(false)
	sym.Assert((err != nil) == (bad > 0), "an error exactly for what has no category")
	sym.NoLeak("a worker outlives the encoder")
	if bad == k {
		sym.Cover("all")
	} else if bad > 0 {
		sym.Cover("some")
	}
	test.same(df, "encoded frame")
}

// V05_AllocMany: columns allocated together are separate columns.
// bound: 1..3 rows in a frame, a view or a builder's raw data; 2..3 columns of each type allocated in one call, of which some may exist with any type, one of them then written
// cover: retyped
func V05_AllocMany() {
	n := 1 + sym.Choose("n", 3)
	m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	b := fill(newBuilder(), m, "p", kind(sym.Choose("type", 5)), n, 0)
	if sym.Choose("more", 2) == 1 {
		b = fill(b, m, "f", kF, n, 0)
	}
	names := [][]string{{"p", "q"}, {"q", "p", "r"}, {"q", "r"}}[sym.Choose("names", 3)]
	t := kind(sym.Choose("alloc", 5))
	if m.cols["p"].k != t && names[0] == "p" {
		sym.Cover("retyped")
	}
	df := b.ToDataFrame()
	raw := b.RawData
	how := sym.Choose("how", 3)
	var r interface {
		AllocFloats(...string)
		AllocInts(...string)
		AllocBools(...string)
		AllocObjects(...string)
		AllocStrings(...string)
	}
	fm := m.freeze()
	var v *dataframe.DataFrame
	switch how {
	case 0:
		r = raw
	case 1:
		v, m = df.ReverseView(), m.pick(rev(n))
		r = v
	case 2:
		v = df.Copy()
		r = v
	}
	switch t {
	case kF:
		r.AllocFloats(names...)
	case kI:
		r.AllocInts(names...)
	case kB:
		r.AllocBools(names...)
	case kS:
		r.AllocStrings(names...)
	case kO:
		r.AllocObjects(names...)
	}
	m = m.view()
	for _, c := range names {
		m.cols[c] = newCol(t, n)
	}
	if how == 0 {
		v = raw.ToDataFrame()
	} else {
		fm.same(df, "frame before allocating")
	}
	m.same(v, "allocated columns")
	c := names[sym.Choose("write", len(names))]
	row := sym.Choose("row", n)
	switch t {
	case kF:
		v.Floats(c).Set(row, 2)
		m.setF(c, row, 2)
	case kI:
		v.Ints(c).Set(row, 2)
		m.setI(c, row, 2)
	case kB:
		v.Bools(c).Set(row, true)
		m.setB(c, row, true)
	default:
		v.Objects(c).Set(row, "w")
		m.setO(c, row, "w")
	}
	m.same(v, "a write to one of several columns allocated together")
}

// E01_Derived: every frame derived from an encoded one can be encoded back.
// bound: a Latin-1 or UTF-8 frame of 3 rows and all column types, 34 operations that derive a frame from it (33 of a Latin-1 one), and once more one of 4 of them
// cover: latin twice
func E01_Derived() {
	latin := sym.Choose("latin", 2) == 1
	raw := "é"
	b := newBuilder()
	if latin {
		raw = "\xe9"
		b = b.TextEncoding(charmap.ISO8859_1)
		sym.Cover("latin")
	}
	b.AddFloats("f1", 1, 2, 3).AddInts("i1", 3, 4, 5).AddBools("b1", true, false, true).AddStrings("s1", raw, raw+"b", "c").AddObjects("o1", 1, 2, 3)
	df := b.ToDataFrame()
	other := (&mdl{cols: map[string]*col{"other": newCol(kI, 3)}, idx: iota_(3)}).build()
	which := sym.Choose("op", 34)
	if which == 23 && latin {
		sym.Assume(false) // merges raw data of different encodings
	}
	got := inheriting(df, other, which)
	switch sym.Choose("twice", 5) {
	case 1:
		got = got.ReverseView()
	case 2:
		got = got.ShallowCopy()
	case 3:
		got = got.Copy()
	case 4:
		got = got.ColumnView(got.Header().NameList()...)
		sym.Cover("twice")
	}
	if which == 19 {
		got.AllocStrings("s1")
		for r := 0; r < got.NumRows(); r++ {
			got.Objects("s1").Set(r, raw)
		}
	}
	before := modelOf(got)
	sym.Assert(got.Encode(nil) == nil, "Encode to UTF-8 fails")
	for r, k := range before.idx {
		s := before.cols["s1"].o[k].(string)
		want := map[string]string{raw: "é", raw + "b": "éb", "c": "c"}[s]
		sym.Assert(got.Strings("s1").Get(r) == want, "a derived frame is not encoded from the encoding it has")
	}
}

// L02_Refit: training a regressor again forgets the earlier training.
// bound: 2 training rows, features x (one cell arbitrary among 2 values) and possibly b; trained before on the same frame, on one of another scale, on one with other or more features, or with other options, directly or after serialization; 1..2 epochs, momentum on or off
// cover: other
func L02_Refit() {
	m := lrModel(2)
	m.cols["x"].f[1] = 2
	if sym.Choose("one", 2) == 1 {
		delete(m.cols, "b")
	}
	p := algorithms.LinRegTrainParams{Epochs: 1 + sym.Choose("epochs", 2), LR: 0.25, BatchSize: 2}
	if sym.Choose("momentum", 2) == 1 {
		p.Momentum = 0.5
	}
	fresh := train(m.build(), p, 5)
	reg := algorithms.NewLinearRegressor()
	first, fp := m.freeze(), p
	switch sym.Choose("first", 5) {
	case 1:
		first.cols["t"].f[0] = 100
	case 2:
		first.cols["z"] = &col{k: kF, f: []float64{3, 4}}
		sym.Cover("other")
	case 3:
		first.rename("x", "w")
		sym.Cover("other")
	case 4:
		fp.BatchSize, fp.WeightDecay, fp.LowMemory = 1, 0.25, true
	}
	rand.Seed(9)
	sym.Assert(reg.Fit(first.build(), "t", fp) == nil, "Fit fails")
	if sym.Choose("json", 2) == 1 {
		back := algorithms.NewLinearRegressor()
		sym.Assert(sym.JSONRoundTrip(reg, back), "LinearRegressor cannot be serialized")
		reg = back
	}
	df := m.build()
	rand.Seed(5)
	sym.Assert(reg.Fit(df, "t", p) == nil, "Fit fails when training again")
	sym.Assert(len(reg.Features) == len(fresh.Features), "number of features")
	sym.Assert(len(reg.Weights) == len(fresh.Weights), "number of weights")
	for k := range fresh.Features {
		if reg.Features[k] != fresh.Features[k] {
			return // another meaning of the random choices
		}
	}
	for k := range fresh.Weights {
		sym.Assert(math.Abs(reg.Weights[k]-fresh.Weights[k]) <= 1e-9, "training again does not give what training once gives")
	}
	a, err := reg.Predict(m.build(), "p")
	sym.Assert(err == nil, "Predict fails")
	b, err := fresh.Predict(m.build(), "p")
	sym.Assert(err == nil, "Predict fails")
	for j := 0; j < 2; j++ {
		sym.Assert(math.Abs(a.Floats("p").Get(j)-b.Floats("p").Get(j)) <= 1e-9, "a regressor trained again predicts other values")
	}
}
