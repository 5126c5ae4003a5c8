package h

import (
	"fmt"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// The reference: a frame is a list of backing-row numbers over named columns.
// Frames that share data share *col pointers. All reference operations are the
// documented numpy-like semantics written directly, without forking on data.

type kind int

const (
	kF kind = iota
	kI
	kB
	kS
	kO
)

type col struct {
	k kind
	f []float64
	i []int
	b []bool
	o []interface{}
}

func (c *col) rows() int {
	switch c.k {
	case kF:
		return len(c.f)
	case kI:
		return len(c.i)
	case kB:
		return len(c.b)
	}
	return len(c.o)
}

func (c *col) clone() *col {
	return &col{c.k, append([]float64(nil), c.f...), append([]int(nil), c.i...), append([]bool(nil), c.b...), append([]interface{}(nil), c.o...)}
}

type mdl struct {
	cols map[string]*col
	idx  []int
}

func (m *mdl) names() []string {
	r := make([]string, 0, len(m.cols))
	for n := range m.cols {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func (m *mdl) rows() int { return len(m.idx) }

// view is a frame sharing all data.
func (m *mdl) view() *mdl {
	r := &mdl{cols: map[string]*col{}, idx: m.idx}
	for n, c := range m.cols {
		r.cols[n] = c
	}
	return r
}

// pick selects rows (positions may be symbolic).
func (m *mdl) pick(idx []int) *mdl {
	r := m.view()
	r.idx = make([]int, len(idx))
	for j, k := range idx {
		r.idx[j] = m.idx[k]
	}
	return r
}

// only keeps the given columns.
func (m *mdl) only(names ...string) *mdl {
	r := &mdl{cols: map[string]*col{}, idx: m.idx}
	for _, n := range names {
		if c, ok := m.cols[n]; ok {
			r.cols[n] = c
		}
	}
	return r
}

// detach gives the frame its own data for the given columns (all when none).
func (m *mdl) detach(names ...string) *mdl {
	r := m.view()
	if len(names) == 0 {
		names = m.names()
	}
	for _, n := range names {
		if c, ok := r.cols[n]; ok {
			r.cols[n] = c.clone()
		}
	}
	return r
}

// freeze is an independent snapshot.
func (m *mdl) freeze() *mdl { return m.detach() }

func (m *mdl) setF(n string, row int, v float64) {
	c := m.cols[n]
	for r := range c.f {
		c.f[r] = sym.IfFloat(m.idx[row] == r, v, c.f[r])
	}
}

func (m *mdl) setI(n string, row int, v int) {
	c := m.cols[n]
	for r := range c.i {
		c.i[r] = sym.IfInt(m.idx[row] == r, v, c.i[r])
	}
}

func (m *mdl) setB(n string, row int, v bool) {
	c := m.cols[n]
	for r := range c.b {
		c.b[r] = sym.Or(sym.And(m.idx[row] == r, v), sym.And(m.idx[row] != r, c.b[r]))
	}
}

func (m *mdl) setO(n string, row int, v interface{}) {
	c := m.cols[n]
	for r := range c.o {
		if m.idx[row] == r {
			c.o[r] = v
		}
	}
}

func b2i(b bool) int { return sym.IfInt(b, 1, 0) }

// sameObj compares object cells.
func sameObj(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return ok && x == y
	case int:
		y, ok := b.(int)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && sym.Same(x, y)
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	}
	return false
}

func hasExactly(h dataframe.ColumnHeader, names []string) bool {
	set := h.NameSet()
	if len(set) != len(names) || h.Num() != len(names) {
		return false
	}
	for _, n := range names {
		if !set[n] {
			return false
		}
	}
	return true
}

// checkHeaders asserts that the frame has exactly the model's columns and types.
func (m *mdl) checkHeaders(df *dataframe.DataFrame, label string) {
	var byKind [5][]string
	for _, n := range m.names() {
		byKind[m.cols[n].k] = append(byKind[m.cols[n].k], n)
	}
	sym.Assert(hasExactly(df.FloatHeader(), byKind[kF]), label+": float columns")
	sym.Assert(hasExactly(df.IntHeader(), byKind[kI]), label+": int columns")
	sym.Assert(hasExactly(df.BoolHeader(), byKind[kB]), label+": bool columns")
	sym.Assert(hasExactly(df.StringHeader(), byKind[kS]), label+": string marks")
	sym.Assert(hasExactly(df.ObjectHeader(), append(append([]string(nil), byKind[kS]...), byKind[kO]...)), label+": object columns")
	sym.Assert(df.NumColumns() == len(m.cols), label+": number of columns")
}

// checkCells asserts the cells of the given columns (all when none).
func (m *mdl) checkCells(df *dataframe.DataFrame, label string, names ...string) {
	if len(names) == 0 {
		names = m.names()
	}
	for _, n := range names {
		c := m.cols[n]
		ok := true
		switch c.k {
		case kF:
			a := df.Floats(n)
			sym.Assert(a.Size() == len(m.idx), label+": accessor size")
			for j, r := range m.idx {
				ok = sym.And(ok, sym.Same(a.Get(j), c.f[r]))
			}
			sym.Assert(ok, label+": float cells")
		case kI:
			a := df.Ints(n)
			sym.Assert(a.Size() == len(m.idx), label+": accessor size")
			for j, r := range m.idx {
				ok = sym.And(ok, a.Get(j) == c.i[r])
			}
			sym.Assert(ok, label+": int cells")
		case kB:
			a := df.Bools(n)
			sym.Assert(a.Size() == len(m.idx), label+": accessor size")
			for j, r := range m.idx {
				ok = sym.And(ok, a.Get(j) == c.b[r])
			}
			sym.Assert(ok, label+": bool cells")
		default:
			a := df.Objects(n)
			sym.Assert(a.Size() == len(m.idx), label+": accessor size")
			for j, r := range m.idx {
				ok = sym.And(ok, sameObj(a.Get(j), c.o[r]))
			}
			sym.Assert(ok, label+": object cells")
		}
	}
}

// same asserts that the frame is exactly the model.
func (m *mdl) same(df *dataframe.DataFrame, label string) {
	sym.Assert(df.NumRows() == len(m.idx), label+": number of rows")
	m.checkHeaders(df, label)
	m.checkCells(df, label)
}

// check asserts that the frame is exactly the model and that the operations
// which depend on how a frame was made agree: Copy, VecDense, DenseMatrix, masks.
func (m *mdl) check(df *dataframe.DataFrame, label string) {
	m.same(df, label)
	rows := len(m.idx)
	if rows*len(m.cols) > 200 {
		return
	}
	m.same(df.Copy(), label+", copied")
	sym.Assert(len(df.EmptyMask()) == rows, label+": EmptyMask length")
	z := df.ZeroMask()
	sym.Assert(len(z) == rows, label+": ZeroMask length")
	for _, b := range z {
		sym.Assert(!b, label+": ZeroMask values")
	}
	if rows == 0 {
		return
	}
	var nums []string
	for _, n := range m.names() {
		switch c := m.cols[n]; c.k {
		case kF:
			d := df.Floats(n).VecDense()
			sym.Assert(d.Len() == rows, label+": VecDense length")
			ok := true
			for j, r := range m.idx {
				ok = sym.And(ok, sym.Same(d.AtVec(j), c.f[r]))
			}
			sym.Assert(ok, label+": VecDense")
			nums = append(nums, n)
		case kI, kB:
			nums = append(nums, n)
		}
	}
	if len(nums) == 0 {
		return
	}
	mx := dataframe.NewDense64Batching(nums).DenseMatrix(df)
	a, b := mx.Dims()
	sym.Assert(a == rows && b == len(nums), label+": DenseMatrix dimensions")
	ok := true
	for k, n := range nums {
		for j, r := range m.idx {
			ok = sym.And(ok, sym.Same(mx.At(j, k), numAt(m.cols[n], r)))
		}
	}
	sym.Assert(ok, label+": DenseMatrix")
}

// observe records the frame for comparing the engine with the real code.
func observe(df *dataframe.DataFrame, label string) {
	sym.Observe(label+".rows", df.NumRows())
	sym.Observe(label+".cols", df.NumColumns())
	for _, n := range sorted(df.FloatHeader().NameList()) {
		for j := 0; j < df.NumRows(); j++ {
			sym.Observe(label+"."+n, df.Floats(n).Get(j))
		}
	}
	for _, n := range sorted(df.IntHeader().NameList()) {
		for j := 0; j < df.NumRows(); j++ {
			sym.Observe(label+"."+n, df.Ints(n).Get(j))
		}
	}
	for _, n := range sorted(df.BoolHeader().NameList()) {
		for j := 0; j < df.NumRows(); j++ {
			sym.Observe(label+"."+n, df.Bools(n).Get(j))
		}
	}
	for _, n := range sorted(df.ObjectHeader().NameList()) {
		for j := 0; j < df.NumRows(); j++ {
			sym.Observe(label+"."+n, df.Objects(n).Get(j))
		}
	}
}

func sorted(s []string) []string {
	r := append([]string(nil), s...)
	sort.Strings(r)
	return r
}

func iota_(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// ---- construction ----

func newBuilder() dataframe.DataBuilder {
	return dataframe.DataBuilder{RawData: dataframe.NewRawData()}
}

// build makes the real frame holding the model's backing data.
func (m *mdl) build() *dataframe.DataFrame {
	b := newBuilder()
	for _, n := range m.names() {
		c := m.cols[n].clone()
		switch c.k {
		case kF:
			b.SetFloats(n, c.f)
		case kI:
			b.SetInts(n, c.i)
		case kB:
			b.SetBools(n, c.b)
		case kS:
			b.SetObjects(n, c.o)
			b.MarkAsString(n)
		case kO:
			b.SetObjects(n, c.o)
		}
	}
	return b.ToDataFrame()
}

// newModel is an n-row model with arbitrary cells: two floats, two ints, one
// bool, one string and one object column. Names carry the prefix p.
func newModel(p string, n int) *mdl {
	m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	f1, f2, i1, i2, b1, s1, o1 := &col{k: kF}, &col{k: kF}, &col{k: kI}, &col{k: kI}, &col{k: kB}, &col{k: kS}, &col{k: kO}
	f1.f, f2.f = []float64{}, []float64{}
	i1.i, i2.i = []int{}, []int{}
	b1.b = []bool{}
	s1.o, o1.o = []interface{}{}, []interface{}{}
	for r := 0; r < n; r++ {
		f1.f = append(f1.f, sym.Float64(p+"f1"))
		f2.f = append(f2.f, float64(r)+0.5)
		i1.i = append(i1.i, sym.Int(p+"i1"))
		i2.i = append(i2.i, 10+r)
		b1.b = append(b1.b, sym.Bool(p+"b1"))
		s1.o = append(s1.o, "s"+string(rune('a'+r)))
		o1.o = append(o1.o, 100+r)
	}
	m.cols[p+"f1"], m.cols[p+"f2"], m.cols[p+"i1"], m.cols[p+"i2"] = f1, f2, i1, i2
	m.cols[p+"b1"], m.cols[p+"s1"], m.cols[p+"o1"] = b1, s1, o1
	return m
}

// smallModel has one column of each type.
func smallModel(p string, n int) *mdl {
	m := newModel(p, n)
	delete(m.cols, p+"f2")
	delete(m.cols, p+"i2")
	return m
}

// withNil puts missing values in the string column at the given rows.
func (m *mdl) withNil(name string, rows ...int) *mdl {
	for _, r := range rows {
		if r < len(m.cols[name].o) {
			m.cols[name].o[r] = nil
		}
	}
	return m
}

// symIdx is k arbitrary positions below n.
func symIdx(label string, k, n int) []int {
	r := make([]int, k)
	for j := range r {
		r[j] = sym.IntRange(label, 0, n-1)
	}
	return r
}

// rowOps is one arbitrary row-selecting or copying view operation.
// It is used to reach arbitrary base states; the operations themselves are
// checked against the reference by V01 and friends.
func rowOp(df *dataframe.DataFrame, m *mdl, label string) (*dataframe.DataFrame, *mdl) {
	n := m.rows()
	switch sym.Choose(label, 6) {
	case 0:
		return df, m
	case 1:
		return df.View(), m.view()
	case 2:
		// arbitrary selection with repetition and reordering
		if n == 0 {
			return df.IndexView(nil), m.pick(nil)
		}
		k := sym.Choose(label+".len", 4)
		idx := symIdx(label+".idx", k, n)
		return df.IndexView(idx), m.pick(idx)
	case 3:
		from := sym.Choose(label+".from", n+1)
		to := from + sym.Choose(label+".len", n-from+1)
		return df.SliceView(from, to), m.pick(iota_(n)[from:to])
	case 4:
		return df.ReverseView(), m.pick(rev(n))
	}
	return df.ShallowCopy(), m.view()
}

func rev(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = n - 1 - i
	}
	return r
}

func itoa(i int) string { return fmt.Sprint(i) }

// sortedIdx is the frame's backing rows in ascending order.
func sortedIdx(idx []int) []int {
	r := append([]int(nil), idx...)
	for i := range r {
		for j := 0; j+1 < len(r)-i; j++ {
			a, b := r[j], r[j+1]
			r[j], r[j+1] = sym.IfInt(a <= b, a, b), sym.IfInt(a <= b, b, a)
		}
	}
	return r
}

// withIdx is a frame sharing all data with the given backing rows.
func (m *mdl) withIdx(idx []int) *mdl {
	r := m.view()
	r.idx = idx
	return r
}

// derived is a frame made from v by one of the operations that leave hidden
// traces (contiguity, shared maps, masks); it needs newModel's columns f2, i2.
// The result shares its data with v unless own is true.
func derived(v *dataframe.DataFrame, vm *mdl, label string) (r *dataframe.DataFrame, rm *mdl, own bool) {
	n := vm.rows()
	kind := 0
	if strings.HasSuffix(label, ".unsorted") {
		kind = []int{0, 1, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14}[sym.Choose(label, 12)]
	} else {
		kind = sym.Choose(label, 15)
	}
	switch kind {
	case 1:
		return v.ResetIndexView(), vm.withIdx(sortedIdx(vm.idx)), false
	case 2:
		return v.SortedView("i2"), vm.withIdx(sortedIdx(vm.idx)), false
	case 3:
		k := n / 2
		s := sortedIdx(vm.idx)
		return v.TopView("f2", n-k, false, true), vm.withIdx(s).pick(rev(n)).pick(iota_(n)[:n-k]), false
	case 4:
		mask := v.ZeroMask()
		idx := []int{}
		for j := range mask {
			mask[j] = j != 1
			if mask[j] {
				idx = append(idx, j)
			}
		}
		return v.MaskView(mask), vm.pick(idx), false
	case 5:
		parts := v.SplitNView(2)
		return parts[1], vm.pick(iota_(n)[parts[0].NumRows():]), false
	case 6:
		train, _ := v.SplitTrainTestViews(0.5)
		return train, vm.pick(iota_(n)[:train.NumRows()]), false
	case 7:
		parts := v.SplitView(2)
		return parts[len(parts)-1], vm.pick(iota_(n)[2*(len(parts)-1):]), false
	case 8:
		return v.ColumnView(vm.names()...), vm.view(), false
	case 9:
		return v.DetachedView(), vm.detach(), true
	case 10:
		return v.Copy(), vm.compact(), true
	case 11:
		r, err := dataframe.RowConcat(v, v)
		sym.Assert(err == nil, "RowConcat of a frame with itself fails")
		return r, vm.pick(append(iota_(n), iota_(n)...)).compact(), true
	case 12:
		var others []string
		for _, name := range vm.names() {
			if name != "f1" && name != "i1" {
				others = append(others, name)
			}
		}
		r, err := dataframe.ColumnSmartConcat(v.ColumnView("f1", "i1"), v.ColumnView(others...))
		sym.Assert(err == nil, "ColumnSmartConcat of two parts of a frame fails")
		return r, vm.view(), false
	case 13:
		sym.SymbolicRand(false)
		s := v.ShuffleView().SortedView("f2")
		return s, vm.withIdx(sortedIdx(vm.idx)), false
	case 14:
		idx := append(iota_(n), rev(n)...)
		return v.IndexView(idx), vm.pick(idx), false
	}
	return v, vm, false
}
