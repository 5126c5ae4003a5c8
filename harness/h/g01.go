package h

import (
	"fmt"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// G01_Names: short names of arbitrary columns.
// sym: steps=3000000
// bound: 1..3 columns of all types, names of 1..4 bytes (thorough 0..4, quick the third one 1..3), each byte a or b, minimum lengths -1..3, every map order of up to 3 columns
// cover: shortened full
func G01_Names() {
	k := 1 + sym.Choose("columns", 3)
	b := newBuilder()
	var names []string
	for c := 0; c < k; c++ {
		l := 1 + sym.Choose("len", 4)
		if sym.Tier() == 0 && c == 2 {
			l = 3
		}
		name := sym.Bytes("name", l)
		for i := 0; i < l; i++ {
			sym.Assume(sym.Or(name[i] == 'a', name[i] == 'b'))
		}
		for _, other := range names {
			sym.Assume(name != other)
		}
		names = append(names, name)
		switch c {
		case 0:
			b.AddFloats(name, 1)
		case 1:
			b.AddStrings(name, "x")
		case 2:
			b.AddInts(name, 1)
		}
	}
	df := b.ToDataFrame()
	min := sym.Choose("min", 5) - 1
	sym.AnyMapOrder()
	short := df.GoodShortNames(min)
	if min <= 0 {
		min = 3
	}
	// what is printed for each column
	var printed []string
	for _, name := range names {
		s, ok := short[name]
		if !ok {
			printed = append(printed, name)
			sym.Cover("full")
			continue
		}
		sym.Assert(strings.HasPrefix(name, s), "a short name is not a prefix of the name")
		sym.Assert(len(s) >= min, "a short name is shorter than the minimum")
		if len(s) < len(name) {
			sym.Cover("shortened")
		}
		printed = append(printed, s)
	}
	sym.Assert(len(short) <= k, "short names for unknown columns")
	for i := range printed {
		for j := 0; j < i; j++ {
			sym.Assert(printed[i] != printed[j], "two columns are printed under the same name")
		}
	}
}

// inOrder tells whether the parts occur one after the other.
func inOrder(s string, parts []string) bool {
	for _, p := range parts {
		k := strings.Index(s, p)
		if k < 0 {
			return false
		}
		s = s[k+len(p):]
	}
	return true
}

// printModel has printable cells that are all different.
func printModel(n int) *mdl {
	names := [][]string{{"flt", "int", "boo", "str"}, {"100%d", "%s", "%!", "a b:"}}[sym.Choose("names", 2)]
	m := &mdl{cols: map[string]*col{names[0]: newCol(kF, n), names[1]: newCol(kI, n), names[2]: newCol(kB, n), names[3]: newCol(kS, n)}, idx: iota_(n)}
	for r := 0; r < n; r++ {
		m.cols[names[0]].f[r] = 100.125 + float64(r)
		m.cols[names[1]].i[r] = 2000 + r
		m.cols[names[2]].b[r] = r%2 == 0
		m.cols[names[3]].o[r] = "text" + itoa(r)
	}
	return m.withNil(names[3], 2)
}

// cell is how a cell must appear.
func (m *mdl) cell(name string, r int) string {
	c := m.cols[name]
	switch c.k {
	case kF:
		return fmt.Sprintf("%.3f", c.f[r])
	case kI:
		return itoa(c.i[r])
	case kB:
		if c.b[r] {
			return " 1"
		}
		return " 0"
	}
	if c.o[r] == nil {
		return "missing"
	}
	return c.o[r].(string)
}

// G01_Print: the first n rows are printed, names literally, nothing changes.
// sym: steps=3000000
// bound: 0..4 rows with distinct cells of every type but objects, plain names and names with formatting verbs, frame as is, reversed, sliced or repeating rows, limits -1..5, PrintHead, PrintRecords with and without short names, PrintSummary
// cover: records head
func G01_Print() {
	n := sym.Choose("n", 5)
	m := printModel(n)
	df := m.build()
	v, vm := df, m
	switch sym.Choose("view", 4) {
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 2:
		if n > 1 {
			v, vm = df.SliceView(1, n), m.pick(iota_(n)[1:])
		}
	case 3:
		if n > 1 {
			v, vm = df.IndexView([]int{1, 0, 1}), m.pick([]int{1, 0, 1})
		}
	}
	limit := sym.Choose("limit", 7) - 1
	rows := limit
	if limit < 0 || limit > vm.rows() {
		rows = vm.rows()
	}
	before := vm.freeze()
	how := sym.Choose("how", 4)
	var ret *dataframe.DataFrame
	short := map[string]string{}
	if how == 3 {
		short = v.GoodShortNames(1)
	}
	out := sym.Stdout(func() {
		switch how {
		case 0:
			ret = v.PrintHead(limit, "")
		case 1:
			ret = v.PrintRecords(limit, "%.3f", nil)
		case 2:
			ret = v.PrintSummary()
		case 3:
			ret = v.PrintRecords(limit, "", short)
		}
	})
	before.check(v, "printed frame")
	sym.Assert(ret == v, "printing returns another frame")
	lines := strings.Split(out, "\n")
	sym.Assert(lines[len(lines)-1] == "", "the last line is not ended")
	lines = lines[:len(lines)-1]
	switch how {
	case 0:
		sym.Cover("head")
		for _, name := range vm.names() {
			found := 0
			for _, l := range lines {
				if strings.HasPrefix(l, name+":") {
					found++
					var parts []string
					for _, r := range vm.idx[:rows] {
						parts = append(parts, vm.cell(name, r))
					}
					sym.Assert(inOrder(l[len(name)+1:], parts), "PrintHead: cells of a column")
					sym.Assert(len(strings.Fields(l[len(name)+1:])) == rows, "PrintHead: number of cells")
				}
			}
			sym.Assert(found == 1, "PrintHead: not one line per column")
		}
	case 1, 3:
		sym.Cover("records")
		sym.Assert(len(lines) == rows, "PrintRecords: not one line per row")
		for j, l := range lines {
			for _, name := range vm.names() {
				shown := name
				if s, ok := short[name]; ok {
					shown = s
				}
				k := strings.Index(l, " "+shown+":")
				sym.Assert(k >= 0, "PrintRecords: a column's name is not printed as it is")
				sym.Assert(strings.Contains(l[k:], vm.cell(name, vm.idx[j])), "PrintRecords: cell")
			}
		}
	case 2:
		for _, name := range vm.names() {
			sym.Assert(strings.Contains(out, name), "PrintSummary: a column is not listed")
		}
	}
}
