package h

import (
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"github.com/rom1mouret/ml-essentials/utils"
	"golang.org/x/text/encoding/charmap"
	"verifharness/sym"
)

// Frames with more rows, columns, files or names than the other harnesses
// have. They are about what depends on a size: batches, chunks per worker,
// thresholds, padding.

// V01_Tall: many rows.
// sym: steps=20000000
// bound: 300 rows of arbitrary cells of 5 columns, slices at 9 bounds each, repeating and reordering index lists, masks of 3 patterns, plain or of a view
// cover: slice index mask
func V01_Tall() {
	n := 300
	m := smallModel("", n)
	df := m.build()
	v, vm := df, m
	switch sym.Choose("pre", 3) {
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 2:
		v, vm = df.SliceView(5, n), m.pick(iota_(n)[5:])
	}
	k := vm.rows()
	switch sym.Choose("op", 3) {
	case 0:
		bounds := []int{0, 1, 127, 128, 129, 255, 256, 257, k}
		a, b := bounds[sym.Choose("from", 9)], bounds[sym.Choose("to", 9)]
		got := v.SliceView(a, b)
		if a <= b {
			vm.pick(iota_(k)[a:b]).same(got, "SliceView")
		} else {
			vm.pick(rev(k)[k-a:k-b]).same(got, "SliceView backwards")
		}
		sym.Cover("slice")
	case 1:
		idx := iota_(k)
		switch sym.Choose("index", 3) {
		case 0:
			idx = append(rev(k), idx...)
		case 1:
			idx[0], idx[k-1] = k-1, 0
		case 2:
			idx[200] = 0
		}
		vm.pick(idx).same(v.IndexView(idx), "IndexView")
		sym.Cover("index")
	case 2:
		mask := v.ZeroMask()
		sym.Assert(len(mask) == k, "ZeroMask: number of entries")
		step := []int{1, 2, 97}[sym.Choose("step", 3)]
		var idx []int
		for j := 0; j < k; j += step {
			mask[j] = true
			idx = append(idx, j)
		}
		vm.pick(idx).same(v.MaskView(mask), "MaskView")
		sym.Cover("mask")
	}
	vm.same(v, "parent")
	m.same(df, "base")
}

// V03_Tall: sorting many rows.
// sym: steps=20000000
// bound: 45 rows, concrete keys with ties and one arbitrary key (a bool, an int in -3..9 or a float among 4), plain or reversed, SortedView and TopView of 0, 1, 20 and 44 rows in both directions, sorted or not
// cover: sort top
func V03_Tall() {
	n := 45
	m := idModel(n)
	b, i, f := &col{k: kB}, &col{k: kI}, &col{k: kF}
	for r := 0; r < n; r++ {
		b.b, i.i, f.f = append(b.b, r%3 == 0), append(i.i, r*7%10), append(f.f, float64(r*5%11)-4.5)
	}
	at := []int{0, 17, 44}[sym.Choose("at", 3)]
	by := sym.Choose("by", 3)
	switch by {
	case 0:
		b.b[at] = sym.Choose("b", 2) == 1
	case 1:
		i.i[at] = sym.IntRange("i", -3, 9)
	case 2:
		f.f[at] = sym.OneOf("f", math.Inf(1), -4.5, 0.25, math.Inf(-1))
	}
	m.cols["b"], m.cols["i"], m.cols["f"] = b, i, f
	df := m.build()
	v, vm := df, m
	if sym.Choose("reverse", 2) == 1 {
		v, vm = df.ReverseView(), m.pick(rev(n))
	}
	key := []string{"b", "i", "f"}[by]
	le := func(x, y int) bool {
		switch by {
		case 0:
			return !b.b[x] || b.b[y]
		case 1:
			return i.i[x] <= i.i[y]
		}
		return f.f[x] <= f.f[y]
	}
	if sym.Choose("op", 2) == 0 {
		got := v.SortedView(key)
		p := perm(got, got.Ints("id").Get, vm, n, "SortedView")
		pm := m.view()
		pm.idx = p
		pm.same(got, "SortedView rows")
		place := make([]int, n)
		for j, r := range vm.idx {
			place[r] = j
		}
		for j := 1; j < n; j++ {
			sym.Assert(le(p[j-1], p[j]), "SortedView: non-decreasing")
			if by == 0 && b.b[p[j-1]] == b.b[p[j]] {
				sym.Assert(place[p[j-1]] < place[p[j]], "SortedView: bools keep their order")
			}
		}
		sym.Cover("sort")
	} else {
		k := []int{0, 1, 20, 44}[sym.Choose("k", 4)]
		asc, srt := sym.Choose("asc", 2) == 1, sym.Choose("sorted", 2) == 1
		got := v.TopView(key, k, asc, srt)
		p := perm(got, got.Ints("id").Get, vm, k, "TopView")
		pm := m.view()
		pm.idx = p
		pm.same(got, "TopView rows")
		for r := 0; r < n; r++ {
			shown := count(p, r) > 0
			for _, q := range p {
				ok := false
				if asc {
					ok = le(q, r)
				} else {
					ok = le(r, q)
				}
				sym.Assert(sym.Or(shown, ok), "TopView: a better row is left out")
			}
		}
		for j := 1; j < k && srt; j++ {
			if asc {
				sym.Assert(le(p[j-1], p[j]), "TopView: order")
			} else {
				sym.Assert(le(p[j], p[j-1]), "TopView: order")
			}
		}
		sym.Cover("top")
	}
	m.same(df, "base")
}

// C02_Tall: many rows side by side.
// sym: steps=20000000
// bound: frames of 150 rows, plain, sliced or reversed or both with the same or other rows, all three functions
// cover: view copy refused
func C02_Tall() {
	n := 150
	a, b := smallModel("", n), smallModel("", n)
	for _, name := range b.names() {
		b.cols["z"+name] = b.cols[name]
		delete(b.cols, name)
	}
	da, db := a.build(), b.build()
	pick := func(label string, df *dataframe.DataFrame, m *mdl) (*dataframe.DataFrame, *mdl) {
		switch sym.Choose(label, 5) {
		case 1:
			return df.ReverseView(), m.pick(rev(n))
		case 2:
			return df.SliceView(20, n), m.pick(iota_(n)[20:])
		case 3:
			idx := iota_(n)
			idx[130], idx[131] = 131, 130
			return df.IndexView(idx), m.pick(idx)
		case 4:
			return df.SliceView(0, n-20), m.pick(iota_(n)[:n-20])
		}
		return df, m
	}
	va, ma := pick("a", da, a)
	vb, mb := pick("b", db, b)
	how := sym.Choose("how", 3)
	f := []func(...*dataframe.DataFrame) (*dataframe.DataFrame, error){dataframe.ColumnConcatView, dataframe.ColumnSmartConcat, dataframe.ColumnCopyConcat}[how]
	got, err := f(va, vb)
	if ma.rows() != mb.rows() {
		sym.Assert(err != nil, "frames of different sizes are concatenated")
		sym.Cover("refused")
		return
	}
	if how > 0 {
		sym.Assert(err == nil, "concatenation fails")
		sym.Cover("copy")
	} else {
		sym.Cover("view")
	}
	if err == nil {
		want := ma.detach()
		for name, c := range mb.cols {
			d := newCol(c.k, n)
			for j, r := range mb.idx {
				at := ma.idx[j]
				switch c.k {
				case kF:
					d.f[at] = c.f[r]
				case kI:
					d.i[at] = c.i[r]
				case kB:
					d.b[at] = c.b[r]
				default:
					d.o[at] = c.o[r]
				}
			}
			want.cols[name] = d
		}
		want.same(got, "concatenation")
	}
	a.same(da, "first base")
	b.same(db, "second base")
}

// D04_Tall: many labels.
// sym: steps=20000000
// bound: 300 rows of 1, 10, 257 or 300 different labels and one missing value, one label of 1 arbitrary byte, plain or reversed
// cover: done
func D04_Tall() {
	n := 300
	k := []int{1, 10, 257, 300}[sym.Choose("labels", 4)]
	s := &col{k: kS}
	for r := 0; r < n; r++ {
		s.o = append(s.o, "label"+itoa(r%k))
	}
	s.o[150] = nil
	s.o[290] = sym.Bytes("s", 1)
	m := &mdl{cols: map[string]*col{"s": s}, idx: iota_(n)}
	df := m.build()
	if sym.Choose("reverse", 2) == 1 {
		df, m = df.ReverseView(), m.pick(rev(n))
	}
	got, mapping := df.LabelToInt("s")
	sym.Assert(len(got) == n, "LabelToInt: number of rows")
	known, next := map[string]int{}, 0
	for j, r := range m.idx {
		if s.o[r] == nil {
			sym.Assert(got[j] == -1, "LabelToInt: missing value")
			continue
		}
		x := s.o[r].(string)
		id, ok := known[x]
		if !ok {
			id = next
			next++
			known[x] = id
		}
		sym.Assert(got[j] == id, "LabelToInt: label")
		at, ok := mapping[x]
		sym.Assert(ok && at == id, "LabelToInt: mapping")
	}
	sym.Assert(len(mapping) == next, "LabelToInt: size of the mapping")
	m.same(df, "frame")
	sym.Cover("done")
}

// H01_Tall: many rows, many columns, long strings.
// sym: steps=40000000
// bound: 130 rows of 1 or 9 string columns, strings of 0..300 bytes with one arbitrary byte at the start or the end, a missing cell; 1, 2 or 4 CPUs; plain or reversed
// cover: done
func H01_Tall() {
	n := 130
	k := []int{1, 9}[sym.Choose("columns", 2)]
	m := &mdl{cols: map[string]*col{"i": {k: kI, i: iota_(n)}}, idx: iota_(n)}
	long := strings.Repeat("long", 75)
	byt := sym.Bytes("s", 1)
	var names []string
	for c := 0; c < k; c++ {
		s := &col{k: kS}
		for r := 0; r < n; r++ {
			switch r % 5 {
			case 0:
				s.o = append(s.o, long+itoa(r%20))
			case 1:
				s.o = append(s.o, "")
			case 2:
				s.o = append(s.o, nil)
			default:
				s.o = append(s.o, "v"+itoa((r+c)%40))
			}
		}
		m.cols["s"+itoa(c)] = s
		names = append(names, "s"+itoa(c))
	}
	s0 := m.cols["s0"]
	if sym.Choose("where", 2) == 0 {
		s0.o[128] = "v" + byt
	} else {
		s0.o[128] = byt + "3"
	}
	sym.SetNumCPU(4)
	df := m.build()
	df.SetMaxCPU([]int{1, 2, 4}[sym.Choose("cpu", 3)])
	if sym.Choose("reverse", 2) == 1 {
		df, m = df.ReverseView(), m.pick(rev(n))
	}
	before := m.freeze()
	got := df.HashStringsView(names...)
	sym.Assert(got.NumRows() == n && got.StringHeader().Num() == 0 && got.ObjectHeader().Num() == 0, "hash: columns")
	before.checkCells(got, "hash: other columns", "i")
	hash := map[string]int{}
	var seen []string
	for c := 0; c < k; c++ {
		a := got.Ints(names[c])
		for j, r := range m.idx {
			v := m.cols[names[c]].o[r]
			if v == nil {
				sym.Assert(a.Get(j) == -1, "hash: missing value")
				continue
			}
			x := v.(string)
			if c == 0 && r == 128 {
				continue
			}
			h, ok := hash[x]
			if !ok {
				h = a.Get(j)
				sym.Assert(h >= 0, "hash: negative")
				hash[x] = h
				seen = append(seen, x)
			}
			sym.Assert(a.Get(j) == h, "hash: equal strings")
		}
	}
	for i, x := range seen {
		for _, y := range seen[:i] {
			sym.Assert(len(x)+len(y) > 20 || hash[x] != hash[y], "hash: different short strings")
		}
	}
	x := s0.o[128].(string)
	for j, r := range m.idx {
		if r == 128 {
			h := got.Ints("s0").Get(j)
			for _, y := range seen {
				if len(y) == len(x) {
					sym.Assert((h == hash[y]) == (x == y), "hash: string with an arbitrary byte")
				}
			}
		}
	}
	before.same(df, "frame")
	sym.Cover("done")
}

// E01_Tall: long strings and many rows.
// sym: steps=60000000
// bound: 1 or 130 rows; strings of 5000 letters, or 130 short ones, the last one with an arbitrary letter U+00E0 to U+00E2 or one that cannot be encoded, first or last
// cover: encoded refused
func E01_Tall() {
	n := []int{1, 130}[sym.Choose("n", 2)]
	word := "\u00e9t\u00e9 "
	lat := "\xe9t\xe9 "
	k := 1
	if n == 1 {
		k = 1000
	}
	m := &mdl{cols: map[string]*col{"s": {k: kS}, "u": {k: kS}}, idx: iota_(n)}
	enc := &mdl{cols: map[string]*col{"s": {k: kS}, "u": {k: kS}}, idx: iota_(n)}
	for r := 0; r < n; r++ {
		a, b := strings.Repeat(word, k)+itoa(r), strings.Repeat(lat, k)+itoa(r)
		m.cols["s"].o, enc.cols["s"].o = append(m.cols["s"].o, a), append(enc.cols["s"].o, b)
		m.cols["u"].o, enc.cols["u"].o = append(m.cols["u"].o, "\u00fc"+itoa(r)), append(enc.cols["u"].o, "\xfc"+itoa(r))
	}
	c := []string{"s", "u"}[sym.Choose("column", 2)]
	bad := sym.Choose("bad", 2) == 1
	x := sym.IntRange("letter", 0xe0, 0xe2)
	au, al := string(utf8.AppendRune(nil, rune(x))), string([]byte{byte(x)})
	if bad {
		au, al = "\u0416", "?"
	}
	first := sym.Choose("first", 2) == 1
	for _, t := range []*mdl{m, enc} {
		add := au
		if t == enc {
			add = al
		}
		s := t.cols[c].o[n-1].(string)
		if first {
			t.cols[c].o[n-1] = add + s
		} else {
			t.cols[c].o[n-1] = s + add
		}
	}
	df := m.build()
	err := df.Encode(charmap.ISO8859_1)
	sym.Assert((err != nil) == bad, "Encode: an error exactly for what cannot be encoded")
	if bad {
		m.same(df, "frame after a refused Encode")
		sym.Assert(df.Encode(nil) == nil, "Encode after a refused Encode: error")
		m.same(df, "frame after a refused Encode, then Encode to UTF-8")
		sym.Cover("refused")
		return
	}
	enc.same(df, "frame after Encode")
	sym.Assert(df.Encode(nil) == nil, "Encode back: error")
	m.same(df, "frame after encoding back")
	sym.Cover("encoded")
}

// R01_Tall: the type of a column is decided by all of its values.
// sym: steps=80000000
// bound: 300 rows (without options also 1100) of one literal out of 4, one other literal out of 9 (or a digit that is arbitrary) in the first, a middle or the last row; no option, BinaryAsFloat, BoolAsFloat or IntAsFloat; 11 columns more, 2 CPUs
// cover: float int bool string
func R01_Tall() {
	n := 300
	sym.NumCPU(2)
	o := dataframe.CSVReadingSpec{MissingValues: []string{"NA"}}
	switch sym.Choose("option", 5) {
	case 1:
		o.BinaryAsFloat = true
	case 2:
		o.BoolAsFloat = true
	case 3:
		o.IntAsFloat = true
	case 4:
		n = 1100
	}
	fields := make([]string, n)
	common := []string{"1", "-7", "1.5", "true"}[sym.Choose("common", 4)]
	for r := range fields {
		fields[r] = common
	}
	at := []int{0, n * 2 / 3, n - 1}[sym.Choose("at", 3)]
	k := sym.Choose("other", 10)
	if n == 1100 && k > 5 {
		sym.Assume(false)
	}
	if k == 9 {
		fields[at] = string([]byte{byte(sym.IntRange("digit", '0', '9'))})
	} else {
		fields[at] = []string{"x", "2", "0.25", "NA", "false", "1e400", "true", "0", "9223372036854775808"}[k]
	}
	text := "c,a0,a1,a2,a3,a4,a5,a6,a7,a8,a9\n"
	for _, f := range fields {
		text += f + ",,,,,,,,,,\n"
	}
	raw, err := dataframe.FromCSV(strings.NewReader(text), o)
	sym.Assert(err == nil, "a well-formed CSV is rejected")
	df := raw.ToDataFrame()
	c := csvCol(fields, o)
	sym.Cover([]string{"float", "int", "bool", "string"}[c.k])
	m := &mdl{cols: map[string]*col{"c": c}, idx: iota_(n)}
	sym.Assert(df.NumRows() == n && df.NumColumns() == 11, "shape")
	m.checkCells2(df, "c", "read")
}

// csvTall is csvModel with one arbitrary cell.
func csvTall(n int) *mdl {
	m := &mdl{cols: map[string]*col{"id": {k: kI}, "s": {k: kS}, "f": {k: kF}, "b": {k: kB}}, idx: iota_(n)}
	for j := 0; j < n; j++ {
		m.cols["id"].i = append(m.cols["id"].i, 10+j)
		m.cols["s"].o = append(m.cols["s"].o, "s"+itoa(j))
		m.cols["f"].f = append(m.cols["f"].f, float64(j)+0.5)
		m.cols["b"].b = append(m.cols["b"].b, j%3 == 0)
	}
	if n > 0 {
		m.cols["b"].b[n-1] = sym.Bool("b")
	}
	return m
}

// R03_ManyFiles: a directory of more than nine or ninety-nine files.
// sym: steps=40000000
// bound: a machine of 12 or 120 CPUs, MinRowsPerFile 1, as many rows as CPUs, one less or twice as many, CPU limit unset or one less; the list returned is compared with the directory
// cover: ten hundred
func R03_ManyFiles() {
	cpu := []int{12, 120}[sym.Choose("cpu", 2)]
	sym.SetNumCPU(cpu)
	n := []int{cpu, cpu - 1, 2 * cpu}[sym.Choose("n", 3)]
	m := csvTall(n)
	df := m.build()
	if sym.Choose("limit", 2) == 1 {
		df.SetMaxCPU(cpu - 1)
	}
	var w dataframe.CSVWritingSpec
	w.MinRowsPerFile = 1
	w.MaintainOrder = true
	dir := sym.TempDir()
	limit := df.ActualMaxCPU()
	paths, err := df.ToCSVDir(w, dir+"/out")
	sym.Assert(err == nil, "writing fails")
	sym.Assert(len(paths) <= limit, "more files than the CPU limit")
	names, err := filepath.Glob(dir + "/*")
	sym.Assert(err == nil && len(names) == len(paths), "the list is not that of the files written")
	var texts []string
	for i, p := range paths {
		for _, q := range paths[:i] {
			sym.Assert(p != q, "the same file twice")
		}
		b, err := os.ReadFile(p)
		sym.Assert(err == nil, "a reported file does not exist")
		texts = append(texts, string(b))
	}
	m.checkParts(texts, "files")
	if len(paths) >= 100 {
		sym.Cover("hundred")
	} else if len(paths) >= 10 {
		sym.Cover("ten")
	}
}

// R04_ManyWriters: one writer among many fails.
// sym: steps=20000000
// bound: 12 writers, 0, 5, 12 or 40 rows, any one of them failing after 0 or 20 bytes, or none
// cover: failed fine
func R04_ManyWriters() {
	n := []int{0, 5, 12, 40}[sym.Choose("n", 4)]
	df := csvTall(n).build()
	bad := sym.Choose("bad", 13)
	var ws []io.Writer
	var f *failing
	for i := 0; i < 12; i++ {
		if i == bad {
			f = &failing{left: 20 * sym.Choose("after", 2)}
			ws = append(ws, f)
		} else {
			ws = append(ws, &strings.Builder{})
		}
	}
	err := df.ToCSVs(ws, dataframe.CSVWritingSpec{MaintainOrder: sym.Choose("order", 2) == 1})
	if f != nil && f.failed {
		sym.Assert(err != nil, "a failure is not reported")
		sym.Cover("failed")
	} else {
		sym.Assert(err == nil, "an error without a failure")
		sym.Cover("fine")
	}
	sym.NoLeak("a writer never finishes")
}

// failing is a writer that takes some bytes only.
type failing struct {
	left   int
	failed bool
}

func (f *failing) Write(b []byte) (int, error) {
	if len(b) > f.left {
		f.failed = true
		return 0, io.ErrShortWrite
	}
	f.left -= len(b)
	return len(b), nil
}

// R05_Many: more files than workers.
// sym: steps=20000000
// bound: 5, 12 or 30 files of 1..3 rows, a machine of 1, 4 or 16 CPUs, MaxCPU 0, 1 or 3, one of the files malformed (first, middle, last) or none
// cover: bad good
func R05_Many() {
	k := []int{5, 12, 30}[sym.Choose("files", 3)]
	sym.SetNumCPU([]int{1, 4, 16}[sym.Choose("cpu", 3)])
	dir := sym.TempDir()
	bad := []int{-1, 0, k / 2, k - 1}[sym.Choose("bad", 4)]
	id := 0
	for i := 0; i < k; i++ {
		text := "id,s\n"
		for j := 0; j <= i%3; j++ {
			text += itoa(10+id) + ",s" + itoa(i) + "\n"
			id++
		}
		if i == bad {
			text = "id,s\n1,a,b\n"
		}
		os.WriteFile(dir+"/f"+itoa(10+i), []byte(text), 0600)
	}
	raw, err := dataframe.FromCSVFilePattern(dir+"/f*", dataframe.CSVReadingSpec{MaxCPU: []int{0, 1, 3}[sym.Choose("maxcpu", 3)]})
	sym.Assert((err != nil) == (bad >= 0), "a bad file is not reported, or a good one is rejected")
	sym.NoLeak("a worker never finishes")
	if bad >= 0 {
		sym.Cover("bad")
		return
	}
	sym.Cover("good")
	df := raw.ToDataFrame()
	sym.Assert(df.NumRows() == id, "number of rows")
	seen := make([]bool, id)
	ids, s := df.Ints("id"), df.Strings("s")
	for j := 0; j < id; j++ {
		x := ids.Get(j) - 10
		sym.Assert(x >= 0 && x < id && !seen[x], "a row is lost or repeated")
		seen[x] = true
		if j > 0 && s.Get(j) == s.Get(j-1) {
			sym.Assert(ids.Get(j-1)+1 == ids.Get(j), "rows of a file out of order")
		}
	}
}

// Q01_Many: more names and workers.
// sym: steps=20000000
// bound: 5, 12 or 40 names, limits 1, 4, 11, 12, 13 and 64, Results or Wait, notifying at once or on return, one schedule
// cover: many
func Q01_Many() {
	n := []int{5, 12, 40}[sym.Choose("n", 3)]
	limit := []int{1, 4, 11, 12, 13, 64}[sym.Choose("limit", 6)]
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, "name"+itoa(i*i%n))
	}
	keep := append([]string(nil), names...)
	q := utils.CreateStringQueue(names, limit)
	sym.Assert(q.NumJobs == n && q.Workers >= 1 && q.Workers <= limit && q.Workers <= n, "queue: sizes")
	wait := sym.Choose("wait", 2) == 1
	res, seen, _ := drain(q, sym.Choose("deferred", 2) == 1, wait)
	sym.NoLeak("queue: a worker never finishes")
	var all, keys []string
	for _, s := range seen {
		all = append(all, s...)
	}
	for _, r := range res {
		keys = append(keys, r.Key)
	}
	for i, name := range keep {
		sym.Assert(names[i] == name, "queue: the list of names is changed")
		sym.Assert(times(name, all) == times(name, keep), "queue: a name is not handed out exactly once")
		sym.Assert(wait || times(name, keys) == times(name, keep), "Results: a name without exactly one result")
	}
	sym.Assert(len(all) == n && (wait || len(res) == n), "queue: number of jobs")
	sym.Cover("many")
}

// tallFloats is a frame of k float columns of n rows with missing values.
func tallFloats(n, k int) *mdl {
	m := &mdl{cols: map[string]*col{"i": {k: kI, i: iota_(n)}}, idx: iota_(n)}
	for c := 0; c < k; c++ {
		f := &col{k: kF}
		for r := 0; r < n; r++ {
			x := float64((r*r+c)%23) - float64(c)
			if r%7 == c%7 {
				x = math.NaN()
			}
			f.f = append(f.f, x)
		}
		m.cols["c"+itoa(c)] = f
	}
	// any value anywhere
	m.cols["c0"].f[[]int{0, n / 2, n - 1}[sym.Choose("at", 3)]] = sym.OneOf("x", math.NaN(), 50, -1)
	return m
}

// P01_Tall: many rows and columns.
// sym: steps=40000000
// bound: 131 rows of 1 or 11 float columns with missing values, one cell arbitrary among missing, 50, -1; 6 option combinations; 1 or 4 CPUs; plain, reversed or half of the rows; transformed and inverted
// cover: done
func P01_Tall() {
	n := 131
	k := []int{1, 11}[sym.Choose("columns", 2)]
	m := tallFloats(n, k)
	sym.SetNumCPU(4)
	df := m.build()
	df.SetMaxCPU([]int{1, 4}[sym.Choose("cpu", 2)])
	v, vm := df, m
	switch sym.Choose("view", 3) {
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 2:
		v, vm = df.SliceView(0, 65), m.pick(iota_(n)[:65])
	}
	o := scalerOptions()
	s := preprocessing.NewScaler(o)
	sym.Assert(s.Fit(v) == nil, "Fit fails")
	m.same(df, "frame after Fit")
	sym.Assert(s.TransformInplace(v) == nil, "TransformInplace fails")
	inView := make([]bool, n)
	for _, r := range vm.idx {
		inView[r] = true
	}
	for c := 0; c < k; c++ {
		name := "c" + itoa(c)
		f := m.cols[name].f
		var x []float64
		for _, r := range vm.idx {
			x = append(x, f[r])
		}
		shift, scale := refScaling(x, o)
		a := df.Floats(name)
		for r := 0; r < n; r++ {
			want := f[r]
			if inView[r] {
				want = (f[r] + shift) * scale
			}
			sym.Assert(near(a.Get(r), want), "scaled value, or a value outside the view")
		}
	}
	sym.Assert(s.InverseTransformInplace(v) == nil, "InverseTransformInplace fails")
	for c := 0; c < k; c++ {
		name := "c" + itoa(c)
		for r := 0; r < n; r++ {
			sym.Assert(near(df.Floats(name).Get(r), m.cols[name].f[r]), "inverted value")
		}
	}
	m.checkCells(df, "other columns", "i")
	sym.Cover("done")
}

// P02_Tall: many rows and columns.
// sym: steps=40000000
// bound: 131 rows of 1 or 11 float columns with missing values, one cell arbitrary among missing, 50, -1; all policies; 1 or 4 CPUs; plain, reversed or half of the rows
// cover: done
func P02_Tall() {
	n := 131
	k := []int{1, 11}[sym.Choose("columns", 2)]
	m := tallFloats(n, k)
	sym.SetNumCPU(4)
	df := m.build()
	df.SetMaxCPU([]int{1, 4}[sym.Choose("cpu", 2)])
	v, vm := df, m
	switch sym.Choose("view", 3) {
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 2:
		v, vm = df.SliceView(0, 65), m.pick(iota_(n)[:65])
	}
	policy := []preprocessing.ImputingPolicy{preprocessing.Mean, preprocessing.Zero, preprocessing.One}[sym.Choose("policy", 3)]
	s := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: policy})
	sym.Assert(s.Fit(v) == nil, "Fit fails")
	m.same(df, "frame after Fit")
	sym.Assert(s.TransformInplace(v) == nil, "TransformInplace fails")
	inView := make([]bool, n)
	for _, r := range vm.idx {
		inView[r] = true
	}
	for c := 0; c < k; c++ {
		name := "c" + itoa(c)
		f := m.cols[name].f
		cnt, sum := 0.0, 0.0
		for _, r := range vm.idx {
			p, w := present(f[r])
			cnt, sum = cnt+p, sum+w
		}
		fill := []float64{sum / cnt, 0, 1}[policy]
		a := df.Floats(name)
		for r := 0; r < n; r++ {
			want := f[r]
			if inView[r] {
				want = sym.IfFloat(math.IsNaN(want), fill, want)
			}
			sym.Assert(near(a.Get(r), want), "imputed value, or a value that is to stay")
		}
	}
	m.checkCells(df, "other columns", "i")
	sym.Cover("done")
}

// P03_Tall: many categories, rows and columns.
// sym: steps=60000000
// bound: 1 or 3 int columns named c, c_onehot1 and c_onehot, 60 rows of 12 or 60 categories, one of them arbitrary (missing included, unless it is imputed), 4 pairs of policies, 1 or 4 CPUs; the training frame and one with a missing and two unknown values encoded
// cover: done
func P03_Tall() {
	n := 60
	k := []int{12, 60}[sym.Choose("categories", 2)]
	names := []string{"c", "c_onehot1", "c_onehot"}[:[]int{1, 3}[sym.Choose("columns", 2)]]
	m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	for i, name := range names {
		c := &col{k: kI}
		for r := 0; r < n; r++ {
			c.i = append(c.i, (r*7+i)%k)
		}
		m.cols[name] = c
	}
	sym.SetNumCPU(4)
	p := sym.Choose("policies", 4)
	low := -1
	if p == 2 {
		low = 0
	}
	m.cols["c"].i[30] = sym.IntRange("c", low, 1)
	df := m.build()
	df.SetMaxCPU([]int{1, 4}[sym.Choose("cpu", 2)])
	missing := []preprocessing.CategoryPolicy{preprocessing.SeparateCategory, preprocessing.SeparateCategoryIfSeen, preprocessing.ImputeWithMostFrequent, preprocessing.SharedSeparateCategory}[p]
	unknown := []preprocessing.CategoryPolicy{preprocessing.SeparateCategory, preprocessing.SharedSeparateCategory, preprocessing.ImputeWithMostFrequent, preprocessing.SeparateCategory}[p]
	e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: missing, UnknownPolicy: unknown})
	sym.Assert(e.Fit(df) == nil, "Fit fails")
	got, err := e.TransformView(df)
	sym.Assert(err == nil, "TransformView fails")
	m.same(df, "frame")
	sym.Assert(got.NumRows() == n && got.IntHeader().Num() == 0, "shape")
	var ids [][]int
	for _, name := range names {
		ids = append(ids, m.ids(name))
	}
	checkFlags(got, nil, ids, "training frame")
	later := &mdl{cols: map[string]*col{}, idx: iota_(4)}
	for _, name := range names {
		later.cols[name] = &col{k: kI, i: []int{2, -1, 777, -5}}
	}
	l, err := e.TransformView(later.build())
	sym.Assert(err == nil, "TransformView of a later frame fails")
	cols := sorted(l.BoolHeader().NameList())
	for j := 0; j < 4; j++ {
		sym.Assert(len(flags(l, j, cols)) == len(names), "later frame: not one flag per column")
	}
	sym.Assert(strings.Join(flags(l, 2, cols), "|") == strings.Join(flags(l, 3, cols), "|"), "later frame: unknown values have different flags")
	if p == 0 {
		sym.Assert(strings.Join(flags(l, 2, cols), "|") != strings.Join(flags(l, 1, cols), "|"), "later frame: unknown and missing share a flag")
	}
	sym.Cover("done")
}

// L01_Tall: predictions made in many batches.
// sym: steps=2000000000
// bound: models of 131072 or 70000 weights (the same two features repeated), so that a batch holds 32 or 59 rows; 31, 32, 33, 64 or 65 rows (70000 weights: 59 and 60), in reverse
// cover: several
func L01_Tall() {
	w := []int{131072, 70000}[sym.Choose("weights", 2)]
	n := 0
	if w == 131072 {
		n = []int{32, 33, 64, 65}[sym.Choose("rows", 4)]
	} else {
		n = []int{59, 60}[sym.Choose("rows", 2)]
	}
	reg := &algorithms.LinearRegressor{Weights: make([]float64, w), Features: make([]string, w)}
	for k := 0; k < w; k++ {
		reg.Features[k] = "x"
	}
	reg.Features[w-1] = "y"
	reg.Weights[0], reg.Weights[w-2], reg.Weights[w-1] = 2, 1, -0.5
	reg.TargetScaler = preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true})
	sym.Assert(reg.TargetScaler.Fit(newBuilder().AddFloats("t", 0, 4).ToDataFrame()) == nil, "Fit fails")
	m := &mdl{cols: map[string]*col{"x": {k: kF}, "y": {k: kF}, "id": {k: kI, i: iota_(n)}}, idx: iota_(n)}
	for r := 0; r < n; r++ {
		m.cols["x"].f = append(m.cols["x"].f, float64(r%9))
		m.cols["y"].f = append(m.cols["y"].f, float64(r))
	}
	m.cols["y"].f[n-1] = sym.OneOf("y", 1, -7)
	df := m.build()
	v := df.ReverseView()
	got, err := reg.Predict(v, "p")
	sym.Assert(err == nil, "Predict fails")
	m.same(df, "base")
	sym.Assert(got.NumRows() == n, "number of rows")
	for j := 0; j < n; j++ {
		r := got.Ints("id").Get(j)
		x, y := m.cols["x"].f[r], m.cols["y"].f[r]
		sym.Assert(near(got.Floats("p").Get(j), (3*x-0.5*y)*2+2), "prediction of a row")
	}
	sameRows(n, got.Ints("id").Get, m, n, "Predict")
	sym.Cover("several")
}

// L02_Tall: many rows, where their order does not matter.
// sym: steps=60000000
// bound: 40 training rows, either all alike in batches of 7, 13, 39 or 40 rows, or different ones in one batch of 40 or 64; one x arbitrary among 2 values; 2 epochs, momentum and weight decay on or off, with and without LowMemory, plain or reversed
// cover: alike different
func L02_Tall() {
	n := 40
	alike := sym.Choose("alike", 2) == 1
	m := &mdl{cols: map[string]*col{"x": {k: kF}, "b": {k: kB}, "t": {k: kF}}, idx: iota_(n)}
	x0 := sym.OneOf("x", 0.5, -0.25)
	for r := 0; r < n; r++ {
		if alike {
			m.cols["x"].f, m.cols["b"].b, m.cols["t"].f = append(m.cols["x"].f, x0), append(m.cols["b"].b, true), append(m.cols["t"].f, 3)
		} else {
			m.cols["x"].f, m.cols["b"].b, m.cols["t"].f = append(m.cols["x"].f, float64(r%5)/8), append(m.cols["b"].b, r%3 == 0), append(m.cols["t"].f, float64(r%11))
		}
	}
	m.cols["x"].f[n-1] = x0
	p := algorithms.LinRegTrainParams{Epochs: 2, LR: 1.0 / 128, LowMemory: sym.Choose("low", 2) == 1}
	if alike {
		p.BatchSize = []int{7, 13, 39, 40}[sym.Choose("batch", 4)]
		sym.Cover("alike")
	} else {
		p.BatchSize = []int{40, 64}[sym.Choose("batch", 2)]
		sym.Cover("different")
	}
	if sym.Choose("extra", 2) == 1 {
		p.Momentum, p.WeightDecay = 0.25, 0.125
	}
	df := m.build()
	if sym.Choose("reverse", 2) == 1 {
		df, m = df.ReverseView(), m.pick(rev(n))
	}
	frozen := p
	frozen.LR, frozen.Momentum, frozen.WeightDecay = 1e-300, 0, 0
	start, reg := train(df, frozen, 3), train(df, p, 3)
	x, y := m.features(reg.Features)
	if alike {
		for j := range y {
			y[j] = 0
		}
	}
	s := lrState{start.Weights, make([]float64, len(reg.Weights))}
	for e := 0; e < 2; e++ {
		s = s.epoch(x, y, iota_(n), p)
	}
	for k := range reg.Weights {
		sym.Assert(math.Abs(s.w[k]-reg.Weights[k]) <= 1e-9, "weights do not follow the rule")
	}
	m.same(df, "input")
}

// L03_Tall: the losses of many rows.
// bound: 3, 5, 7, 8, 9, 17, 64, 100 or 257 rows of whole numbers, one pair of cells arbitrary among 3 values each, first or last; plain or reversed
// cover: mse mae
func L03_Tall() {
	n := []int{3, 5, 7, 8, 9, 17, 64, 100, 257}[sym.Choose("n", 9)]
	m := &mdl{cols: map[string]*col{"p": {k: kF}, "t": {k: kF}}, idx: iota_(n)}
	for r := 0; r < n; r++ {
		m.cols["p"].f = append(m.cols["p"].f, float64(r%13))
		m.cols["t"].f = append(m.cols["t"].f, float64(r*r%11))
	}
	at := []int{0, n - 1}[sym.Choose("at", 2)]
	m.cols["p"].f[at] = sym.OneOf("p", -40, 0, 7)
	m.cols["t"].f[at] = sym.OneOf("t", -40, 3, 7)
	df := m.build()
	p, t := df.Floats("p"), df.Floats("t")
	if sym.Choose("reverse", 2) == 1 {
		v := df.ReverseView()
		p, t = v.Floats("p"), v.Floats("t")
	}
	se, ae := 0.0, 0.0
	for r := 0; r < n; r++ {
		d := m.cols["p"].f[r] - m.cols["t"].f[r]
		se += d * d
		ae += sym.IfFloat(d < 0, -d, d)
	}
	if sym.Choose("loss", 2) == 0 {
		sym.Assert(near(algorithms.MSE(p, t), se/float64(n)), "MSE: not the mean squared difference")
		sym.Cover("mse")
	} else {
		sym.Assert(near(algorithms.MAE(p, t), ae/float64(n)), "MAE: not the mean absolute difference")
		sym.Cover("mae")
	}
	m.same(df, "input")
}

// G01_Tall: printing many rows.
// sym: steps=40000000
// bound: 0, 9, 10, 11, 100 or 101 rows of two columns, one cell arbitrary in 0..9; all, one less, 10 or 11 of them printed as records or as columns, plain or reversed
// cover: records head
func G01_Tall() {
	n := []int{0, 9, 10, 11, 100, 101}[sym.Choose("n", 6)]
	m := &mdl{cols: map[string]*col{"num": {k: kI}, "txt": {k: kS}}, idx: iota_(n)}
	for r := 0; r < n; r++ {
		m.cols["num"].i = append(m.cols["num"].i, 5000+r)
		m.cols["txt"].o = append(m.cols["txt"].o, "t"+itoa(7000+r)+"t")
	}
	df := m.build()
	if sym.Choose("reverse", 2) == 1 {
		df, m = df.ReverseView(), m.pick(rev(n))
	}
	limit := []int{-1, n, n - 1, 10, 11}[sym.Choose("limit", 5)]
	rows := limit
	if limit < 0 || limit > n {
		rows = n
	}
	head := sym.Choose("head", 2) == 1
	out := sym.Stdout(func() {
		if head {
			df.PrintHead(limit, "")
		} else {
			df.PrintRecords(limit, "", nil)
		}
	})
	m.same(df, "printed frame")
	for j, r := range m.idx {
		a, b := itoa(5000+r), "t"+itoa(7000+r)+"t"
		sym.Assert(strings.Contains(out, a) == (j < rows), "the rows printed are not the first ones")
		sym.Assert(strings.Contains(out, b) == (j < rows), "the rows printed are not the first ones")
	}
	if head {
		sym.Cover("head")
		return
	}
	sym.Cover("records")
	lines := strings.Split(out, "\n")
	sym.Assert(len(lines) == rows+1, "PrintRecords: not one line per row")
	for j := 0; j < rows; j++ {
		sym.Assert(inOrder(lines[j], []string{" num:", itoa(5000 + m.idx[j]), " txt:", "t" + itoa(7000+m.idx[j]) + "t"}), "PrintRecords: line")
	}
}
