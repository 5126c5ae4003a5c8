package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"verifharness/sym"
)

var policies = []preprocessing.CategoryPolicy{preprocessing.SeparateCategoryIfSeen, preprocessing.SharedSeparateCategory, preprocessing.SeparateCategory, preprocessing.ImputeWithMostFrequent, preprocessing.ReturnError}

// intFrame is a frame with one int column.
func intFrame(name string, x ...int) *dataframe.DataFrame {
	m := &mdl{cols: map[string]*col{name: {k: kI, i: x}}, idx: iota_(len(x))}
	if len(x) == 0 {
		m.cols[name].i = []int{}
	}
	return m.build()
}

// flags are the names of the bool columns that are true in the given row.
func flags(df *dataframe.DataFrame, row int, cols []string) (r []string) {
	for _, c := range cols {
		if df.Bools(c).Get(row) {
			r = append(r, c)
		}
	}
	return r
}

// encodeOne is the flag an encoder gives to a value, "" for an error.
func encodeOne(e *preprocessing.OneHotEncoder, v int) string {
	got, err := e.TransformView(intFrame("c", v))
	if err != nil {
		return ""
	}
	sym.Assert(got.NumRows() == 1, "one-hot: number of rows")
	sym.Assert(got.IntHeader().Num() == 0, "one-hot: the encoded column is kept")
	f := flags(got, 0, sorted(got.BoolHeader().NameList()))
	sym.Assert(len(f) == 1, "one-hot: not exactly one flag")
	return f[0]
}

// P03_Policies: which flag every kind of value gets.
// sym: steps=3000000
// bound: training column of 0..3 rows (thorough 4), all values arbitrary ints (-1 included), every pair of policies, one more arbitrary unknown value, then a view of all of these in reverse order with repetition
// cover: unknown tie empty missing
func P03_Policies() {
	missing, unknown := policies[sym.Choose("missing", 5)], policies[sym.Choose("unknown", 5)]
	n := sym.Choose("n", sym.Quick(4, 5))
	var x []int
	for i := 0; i < n; i++ {
		x = append(x, sym.Int("x"))
	}
	w := sym.Int("w")
	sym.Assume(w != -1)
	for _, v := range x {
		sym.Assume(w != v)
	}
	if sym.Tier() == 1 && n < 4 {
		sym.AnyMapOrder()
	}
	e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: missing, UnknownPolicy: unknown})
	sym.Assert(e.Fit(intFrame("c", x...)) == nil, "one-hot: Fit fails")

	// the categories
	var flag []string
	var cnt []int
	most, seen, cats := 0, false, 0
	for i, v := range x {
		flag, cnt = append(flag, ""), append(cnt, 0)
		if v == -1 {
			seen = true
			continue
		}
		cats++
		flag[i] = encodeOne(e, v)
		sym.Assert(flag[i] != "", "one-hot: error for a category of the training data")
		for k, u := range x {
			if u == v {
				cnt[i]++
			}
			if k < i && u != -1 {
				sym.Assert((flag[k] == flag[i]) == (u == v), "one-hot: categories share a flag, or a category has two")
			}
		}
		if cnt[i] > most {
			most = cnt[i]
		}
	}
	own := func(f string) bool {
		for i, v := range x {
			if v != -1 && flag[i] == f {
				return true
			}
		}
		return false
	}
	frequent := func(f, what string) {
		if cats == 0 {
			return // nothing to impute with: any flag
		}
		ok := false
		for i, v := range x {
			if v != -1 && flag[i] == f && cnt[i] == most {
				ok = true
			}
		}
		sym.Assert(ok, what+" is not imputed with the most frequent category")
	}
	fm, fu := encodeOne(e, -1), encodeOne(e, w)
	sym.Assert((fm == "") == (missing == preprocessing.ReturnError), "one-hot: error for a missing value, or none")
	sym.Assert((fu == "") == (unknown == preprocessing.ReturnError), "one-hot: error for an unknown value, or none")
	separate := func(f, what string) { sym.Assert(!own(f), what+" does not get its own category") }
	switch missing {
	case preprocessing.SeparateCategory:
		separate(fm, "missing")
	case preprocessing.SeparateCategoryIfSeen:
		if seen {
			separate(fm, "missing")
		} else {
			frequent(fm, "missing")
		}
	case preprocessing.ImputeWithMostFrequent:
		frequent(fm, "missing")
	case preprocessing.SharedSeparateCategory:
		if unknown == preprocessing.ReturnError || unknown == preprocessing.SharedSeparateCategory {
			separate(fm, "missing")
		} else {
			sym.Assert(fm == fu, "missing does not share the flag of unknown")
		}
	}
	switch unknown {
	case preprocessing.SeparateCategory, preprocessing.SeparateCategoryIfSeen:
		separate(fu, "unknown")
		if missing == preprocessing.SeparateCategory || missing == preprocessing.SeparateCategoryIfSeen && seen {
			sym.Assert(fm != fu, "unknown and missing share a category")
		}
	case preprocessing.ImputeWithMostFrequent:
		frequent(fu, "unknown")
	case preprocessing.SharedSeparateCategory:
		if missing == preprocessing.ReturnError {
			separate(fu, "unknown")
		} else {
			sym.Assert(fm == fu, "unknown does not share the flag of missing")
		}
	}

	// all of them at once
	vals := append([]int(nil), x...)
	if fm != "" {
		vals, flag = append(vals, -1), append(flag, fm)
	}
	bad := false
	for i, v := range x {
		if v == -1 {
			flag[i] = fm
			bad = bad || fm == ""
		}
	}
	if fu != "" {
		vals, flag = append(vals, w), append(flag, fu)
	}
	if k := len(vals); k > 0 {
		idx := append(rev(k), 0)
		got, err := e.TransformView(intFrame("c", vals...).IndexView(idx))
		sym.Assert((err != nil) == bad, "one-hot: error for many rows")
		if !bad {
			cols := sorted(got.BoolHeader().NameList())
			for j, r := range idx {
				f := flags(got, j, cols)
				sym.Assert(len(f) == 1, "one-hot: not exactly one flag in a row of many")
				sym.Assert(f[0] == flag[r], "one-hot: flag depends on other rows")
			}
		}
	}
	if fu != "" {
		sym.Cover("unknown")
	}
	if cats == 0 {
		sym.Cover("empty")
	}
	if seen && fm != "" {
		sym.Cover("missing")
	}
	if n == 2 && most == 1 && cats == 2 {
		sym.Cover("tie")
	}
}

// P03_Columns: several encoded columns next to all kinds of other columns,
// also with the names that the encoder would choose.
// sym: steps=3000000
// bound: training frame of 3 rows with int columns c and d (cells arbitrary in -1..1), one column of every other type under one of 4 name sets, as is, reversed, repeating rows or without rows as test frame, KeepUsedColumns or not, 1..2 CPUs
// cover: clash kept
func P03_Columns() {
	sym.SetNumCPU(2)
	names := [][]string{{"b", "f", "s", "o"}, {"c_missing", "c_unk", "c_onehot0", "d_onehot1"}, {"c_onehot0", "c_onehot1", "d_unk", "d_missing"}, {"c_unk", "c_missing", "c_missing_", "c_onehot"}}[sym.Choose("names", 4)]
	other := []string{"d", "c_onehot0", "c_missing", "c_unk"}[sym.Choose("second", 4)]
	if names[0] == "b" || other == "d" {
		sym.Cover("kept")
	}
	n := 3
	m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	for k, name := range names {
		if name == other {
			return
		}
		m.cols[name] = newCol([]kind{kB, kF, kS, kO}[k], n)
	}
	for r := 0; r < n; r++ {
		m.cols[names[0]].b[r] = sym.Bool("b")
		m.cols[names[1]].f[r] = float64(r)
		m.cols[names[2]].o[r] = "s" + itoa(r)
		m.cols[names[3]].o[r] = r
	}
	m.cols["c"], m.cols[other] = newCol(kI, n), newCol(kI, n)
	for r := 0; r < n; r++ {
		m.cols["c"].i[r] = sym.IntRange("c", -1, sym.Quick(0, 1))
		m.cols[other].i[r] = []int{3, -1, 4}[r]
	}
	df := m.build()
	df.SetMaxCPU(1 + sym.Choose("cpu", 2))
	keep := sym.Choose("keep", 2) == 1
	opt := preprocessing.OneHotOptions{KeepUsedColumns: keep}
	if sym.Choose("policies", 2) == 1 {
		opt.MissingPolicy, opt.UnknownPolicy = preprocessing.SeparateCategory, preprocessing.SeparateCategory
	}
	e := preprocessing.NewOneHotEncoder(opt)
	sym.Assert(e.Fit(df) == nil, "one-hot: Fit fails")
	before := m.freeze()
	before.check(df, "frame after one-hot Fit")
	v, vm := df, m
	switch sym.Choose("view", 4) {
	case 3:
		v, vm = df.SliceView(1, 1), m.pick(nil)
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 2:
		idx := []int{2, 0, 0}
		v, vm = df.IndexView(idx), m.pick(idx)
	}
	got, err := e.TransformView(v)
	sym.Assert(err == nil, "one-hot: error for training data")
	before.check(df, "frame after one-hot TransformView")
	if got == nil {
		return
	}
	sym.Assert(got.NumRows() == vm.rows(), "one-hot: number of rows")
	want := vm.only(names...)
	if keep {
		want = vm.view()
	}
	sym.Assert(hasExactly(got.FloatHeader(), names[1:2]), "one-hot: float columns")
	sym.Assert(hasExactly(got.StringHeader(), names[2:3]), "one-hot: string columns")
	sym.Assert(hasExactly(got.ObjectHeader(), names[2:4]), "one-hot: object columns")
	if keep {
		sym.Assert(hasExactly(got.IntHeader(), []string{"c", other}), "one-hot: int columns")
	} else {
		sym.Assert(got.IntHeader().Num() == 0, "one-hot: int columns")
	}
	sym.Assert(got.BoolHeader().NameSet()[names[0]], "one-hot: a bool column is gone")
	sym.Assert(got.Header().Num() == got.NumColumns(), "one-hot: two columns of the same name")
	want.checkCells(got, "columns that are not encoded")
	// the new columns split in those of c and those of the other one: every
	// row has exactly two flags, and equal rows have the same two
	var fresh []string
	for _, c := range sorted(got.BoolHeader().NameList()) {
		if c != names[0] {
			fresh = append(fresh, c)
		}
	}
	sym.Assert(hasExactly(got.BoolHeader(), append([]string{names[0]}, e.NewColumns...)), "one-hot: NewColumns are not the new columns")
	var fs [][]string
	for j, r := range vm.idx {
		f := flags(got, j, fresh)
		sym.Assert(len(f) == 2, "one-hot: not exactly one flag per column")
		for i, q := range vm.idx[:j] {
			g := fs[i]
			same := 0
			for _, a := range f {
				for _, b := range g {
					if a == b {
						same++
					}
				}
			}
			eq := 0
			if m.cols["c"].i[r] == m.cols["c"].i[q] {
				eq++
			}
			if r == q {
				eq++
			}
			if opt.MissingPolicy == preprocessing.SeparateCategory {
				sym.Assert(same == eq, "one-hot: rows share a flag exactly where they are equal")
			} else {
				sym.Assert(same >= eq, "one-hot: equal rows have different flags")
			}
		}
		fs = append(fs, f)
	}
	if names[0] != "b" {
		sym.Cover("clash")
	}
}

// P03_TwoColumns: known, missing and unknown values of two columns together.
// sym: steps=3000000
// bound: two int columns fitted on {1,2} and {1,2,5} (thorough also with a missing value each), every pair of policies, test frame of all 9 combinations of a known, a missing and an unknown value, then one wrong value in one column or in both, 1..2 CPUs, both orders of processing
func P03_TwoColumns() {
	sym.SetNumCPU(2)
	missing, unknown := policies[sym.Choose("missing", 5)], policies[sym.Choose("unknown", 5)]
	c, d := []int{1, 2, 2}, []int{5, 1, 1}
	if sym.Tier() == 1 && sym.Choose("seen", 2) == 1 {
		c, d = append(c, -1), append(d, -1)
	}
	if sym.Tier() == 1 {
		sym.AnyMapOrder()
	}
	frame := func(c, d []int) *dataframe.DataFrame {
		m := &mdl{cols: map[string]*col{"c": {k: kI, i: c}, "d": {k: kI, i: d}}, idx: iota_(len(c))}
		return m.build()
	}
	e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: missing, UnknownPolicy: unknown})
	sym.Assert(e.Fit(frame(c, d)) == nil, "one-hot: Fit fails")
	vals := []int{1, -1, 9}
	wrong := func(v int) bool {
		return v == -1 && missing == preprocessing.ReturnError || v == 9 && unknown == preprocessing.ReturnError
	}
	var tc, td []int
	for _, a := range vals {
		for _, b := range vals {
			if !wrong(a) && !wrong(b) {
				tc, td = append(tc, a), append(td, b)
			}
		}
	}
	df := frame(tc, td)
	df.SetMaxCPU(1 + sym.Choose("cpu", 2))
	sym.SymbolicRand(true)
	got, err := e.TransformView(df)
	sym.SymbolicRand(false)
	sym.Assert(err == nil, "one-hot: error for values that have a category")
	names := sorted(got.BoolHeader().NameList())
	var sets [][]string
	for j := range tc {
		f := flags(got, j, names)
		sym.Assert(len(f) == 2, "one-hot: not exactly one flag per column")
		sets = append(sets, f)
	}
	// the flags common to all rows with the same value in a column
	common := func(x []int, v int) (r []string) {
		for _, n := range names {
			all := true
			for j := range x {
				has := false
				for _, f := range sets[j] {
					has = has || f == n
				}
				all = all && (x[j] != v || has)
			}
			if all {
				r = append(r, n)
			}
		}
		return r
	}
	for _, v := range vals {
		if wrong(v) {
			continue
		}
		sym.Assert(len(common(tc, v)) > 0, "one-hot: the flag of a value depends on another column")
		sym.Assert(len(common(td, v)) > 0, "one-hot: the flag of a value depends on another column")
	}
	for _, v := range vals {
		if wrong(v) {
			one := []*dataframe.DataFrame{frame([]int{1, 1}, []int{1, v}), frame([]int{v, 1}, []int{1, 1}), frame([]int{1, v}, []int{v, 1})}[sym.Choose("wrong", 3)]
			one.SetMaxCPU(1 + sym.Choose("cpu", 2))
			sym.SymbolicRand(true)
			_, err = e.TransformView(one)
			sym.SymbolicRand(false)
			sym.Assert(err != nil, "one-hot: no error for a value without category")
		}
	}
}

// P03_Refit: fitting again forgets the earlier fit.
// sym: steps=3000000
// bound: fitted on int columns c and e (cells 1, 2, missing), then on columns c and d of 2 rows (arbitrary in -1..3), every pair of policies that has no error; the second training frame transformed
func P03_Refit() {
	sym.SetNumCPU(1)
	k := len(policies) - 1
	e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: policies[sym.Choose("missing", k)], UnknownPolicy: policies[sym.Choose("unknown", k)]})
	old := &mdl{cols: map[string]*col{"c": {k: kI, i: []int{1, 2, -1}}, "e": {k: kI, i: []int{-1, 1, 2}}}, idx: iota_(3)}
	sym.Assert(e.Fit(old.build()) == nil, "one-hot: Fit fails")
	m := &mdl{cols: map[string]*col{"c": {k: kI}, "d": {k: kI, i: []int{7, 8}}, "f": {k: kF, f: []float64{1, 2}}}, idx: iota_(2)}
	m.cols["c"].i = []int{sym.IntRange("c", -1, 3), sym.IntRange("c", -1, 3)}
	df := m.build()
	sym.Assert(e.Fit(df) == nil, "one-hot: second Fit fails")
	sym.Assert(len(e.TransformedColumns()) == 2, "one-hot: columns after the second Fit")
	got, err := e.TransformView(df)
	sym.Assert(err == nil, "one-hot: error after the second Fit")
	sym.Assert(got.IntHeader().Num() == 0, "one-hot: int columns after the second Fit")
	fresh := sorted(got.BoolHeader().NameList())
	sym.Assert(hasExactly(got.BoolHeader(), e.NewColumns), "one-hot: NewColumns after the second Fit")
	o := preprocessing.NewOneHotEncoder(e.Options)
	sym.Assert(o.Fit(df) == nil, "one-hot: Fit fails")
	sym.Assert(len(o.NewColumns) == len(fresh), "one-hot: number of columns after the second Fit")
	a, b := flags(got, 0, fresh), flags(got, 1, fresh)
	sym.Assert(len(a) == 2 && len(b) == 2, "one-hot: not exactly one flag per column after the second Fit")
	same := 0
	for _, x := range a {
		for _, y := range b {
			if x == y {
				same++
			}
		}
	}
	if m.cols["c"].i[0] == m.cols["c"].i[1] {
		sym.Assert(same == 1, "one-hot: flags of equal values after the second Fit")
	} else if m.cols["c"].i[0] != -1 && m.cols["c"].i[1] != -1 {
		sym.Assert(same == 0, "one-hot: flags of different values after the second Fit")
	}
}
