package h

import (
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"golang.org/x/text/encoding/charmap"
	"verifharness/sym"
)

// csvCol is the documented column for the given fields.
func csvCol(fields []string, o dataframe.CSVReadingSpec) *col {
	missing := func(s string) bool {
		for _, m := range o.MissingValues {
			if s == m {
				return true
			}
		}
		return false
	}
	binary, boolean, ints, floats := true, true, true, true
	for _, s := range fields {
		if s != "0" && s != "1" {
			binary = false
		}
		if _, err := strconv.ParseBool(s); err != nil {
			boolean = false
		}
		if missing(s) {
			continue
		}
		if _, err := strconv.ParseInt(s, 10, 64); err != nil {
			ints = false
			if _, err := strconv.ParseFloat(s, 64); err != nil {
				floats = false
			}
		}
	}
	c := &col{}
	switch {
	case boolean:
		asFloat := o.BoolAsFloat || binary && o.BinaryAsFloat
		c.k = kB
		if asFloat {
			c.k = kF
		}
		for _, s := range fields {
			b, _ := strconv.ParseBool(s)
			if asFloat {
				c.f = append(c.f, sym.IfFloat(b, 1, 0))
			} else {
				c.b = append(c.b, b)
			}
		}
	case ints && !o.IntAsFloat:
		c.k = kI
		for _, s := range fields {
			v := int64(-1)
			if !missing(s) {
				v, _ = strconv.ParseInt(s, 10, 64)
			}
			c.i = append(c.i, int(v))
		}
	case floats:
		c.k = kF
		for _, s := range fields {
			v := math.NaN()
			if !missing(s) {
				v, _ = strconv.ParseFloat(s, 64)
			}
			c.f = append(c.f, v)
		}
	default:
		c.k = kS
		for _, s := range fields {
			if missing(s) {
				c.o = append(c.o, nil)
			} else {
				c.o = append(c.o, s)
			}
		}
	}
	return c
}

func readOptions() dataframe.CSVReadingSpec {
	var o dataframe.CSVReadingSpec
	o.IntAsFloat = sym.Bool("IntAsFloat")
	o.BoolAsFloat = sym.Bool("BoolAsFloat")
	o.BinaryAsFloat = sym.Bool("BinaryAsFloat")
	o.MissingValues = [][]string{nil, {"NA", ""}, {"-7"}, {"x", "+", "nan"}}[sym.Choose("markers", 4)]
	return o
}

// plainBytes is k arbitrary bytes without CSV meaning.
func plainBytes(name string, k int) string {
	s := sym.Bytes(name, k)
	for i := 0; i < k; i++ {
		sym.Assume(sym.And(sym.And(s[i] != ',', s[i] != '"'), sym.And(s[i] != '\n', s[i] != '\r')))
	}
	return s
}

// R01_Bytes: type inference and parsing of arbitrary field contents.
// bound: 1 (quick) or 1..2 rows, fields of 0..2 arbitrary bytes except comma, quote and line ends, every combination of the type options, 4 lists of missing markers (none that parses as a bool)
// cover: bool int float string missing
func R01_Bytes() {
	n := 1 + sym.Choose("rows", sym.Quick(1, 2))
	o := readOptions()
	fields := make([]string, n)
	text := "c,z\n"
	for r := range fields {
		fields[r] = plainBytes("field", sym.Choose("len", 3))
		text += fields[r] + ",zz\n"
	}
	raw, err := dataframe.FromCSV(strings.NewReader(text), o)
	sym.Assert(err == nil, "a well-formed CSV is rejected")
	df := raw.ToDataFrame()
	c := csvCol(fields, o)
	sym.Cover([]string{"float", "int", "bool", "string"}[c.k])
	for _, m := range o.MissingValues {
		if m == fields[0] {
			sym.Cover("missing")
		}
	}
	z := &col{k: kS}
	for r := 0; r < n; r++ {
		z.o = append(z.o, "zz")
	}
	m := &mdl{cols: map[string]*col{"c": c, "z": z}, idx: iota_(n)}
	m.same(df, "read")
	observe(df, "read")
}

var literals = []string{"0", "1", "true", "F", "-7", "9223372036854775807", "9223372036854775808", "1.5", "1e400", "NaN", "", "NA", "abc", "+5", "0x10", "1_000", "-0", "TRUE", "h\u00e9", " 1"}

// R01_Literals: combinations of notable literals over the rows of a column.
// bound: 0..2 rows (3 in thorough runs) from 20 literals (integer limits, out-of-range, signs, hexadecimal, underscores, missing markers, non-ASCII, spaces), every combination of the type options, 4 lists of missing markers (none that parses as a bool)
// cover: bool int float string
func R01_Literals() {
	n := sym.Choose("rows", sym.Quick(3, 4))
	o := readOptions()
	fields := make([]string, n)
	text := "z,c\n"
	for r := range fields {
		k := len(literals)
		if r == 2 {
			k = 12
		}
		fields[r] = literals[sym.Choose("literal", k)]
		text += "zz," + fields[r] + "\n"
	}
	raw, err := dataframe.FromCSV(strings.NewReader(text), o)
	sym.Assert(err == nil, "a well-formed CSV is rejected")
	df := raw.ToDataFrame()
	c := csvCol(fields, o)
	sym.Cover([]string{"float", "int", "bool", "string"}[c.k])
	m := &mdl{cols: map[string]*col{"c": c}, idx: iota_(n)}
	sym.Assert(df.NumRows() == n, "number of rows")
	sym.Assert(df.NumColumns() == 2, "number of columns")
	if n > 0 {
		m.checkCells2(df, "c", "read")
	}
	observe(df, "read")
}

// R01_Long: one field unlike the rest of a longer column.
// bound: columns of 2..5 rows (thorough also 40) of one literal with one other literal at an arbitrary row, out of 12 literals, 4 combinations of the type options, 2 lists of missing markers
// cover: bool int float string
func R01_Long() {
	n := []int{2, 3, 4, 5, 40}[sym.Choose("rows", sym.Quick(4, 5))]
	var o dataframe.CSVReadingSpec
	switch sym.Choose("options", 4) {
	case 1:
		o.BinaryAsFloat, o.IntAsFloat = true, true
	case 2:
		o.BoolAsFloat = true
	case 3:
		o.BinaryAsFloat = true
	}
	o.MissingValues = [][]string{nil, {"NA", ""}}[sym.Choose("markers", 2)]
	lits := []string{"0", "1", "true", "-7", "9223372036854775808", "1.5", "NaN", "", "NA", "abc", "+5", "F"}
	fields := make([]string, n)
	common := lits[sym.Choose("common", len(lits))]
	for r := range fields {
		fields[r] = common
	}
	at := n - 1
	if n <= 5 {
		at = sym.Choose("at", n)
	} else if sym.Choose("at", 2) == 0 {
		at = n / 2
	}
	fields[at] = lits[sym.Choose("other", len(lits))]
	text := "z,c\n"
	for _, f := range fields {
		text += "zz," + f + "\n"
	}
	raw, err := dataframe.FromCSV(strings.NewReader(text), o)
	sym.Assert(err == nil, "a well-formed CSV is rejected")
	df := raw.ToDataFrame()
	c := csvCol(fields, o)
	sym.Cover([]string{"float", "int", "bool", "string"}[c.k])
	m := &mdl{cols: map[string]*col{"c": c}, idx: iota_(n)}
	sym.Assert(df.NumRows() == n, "number of rows")
	m.checkCells2(df, "c", "read")
	observe(df, "read")
}

// checkCells2 asserts that the named column has the model's type and cells.
func (m *mdl) checkCells2(df *dataframe.DataFrame, n, label string) {
	have := []bool{df.FloatHeader().NameSet()[n], df.IntHeader().NameSet()[n], df.BoolHeader().NameSet()[n], df.StringHeader().NameSet()[n]}
	for k, h := range have {
		sym.Assert(h == (m.cols[n].k == kind(k)), label+": column type")
	}
	sym.Assert(df.ObjectHeader().NameSet()[n] == (m.cols[n].k == kS), label+": column type")
	m.checkCells(df, label, n)
}

// R01_Layout: header, delimiter, comment, exclusion, row and column order, any number of CPUs.
// bound: tables of 0..3 rows and 3 columns with symbolic digits, every subset excluded (also unknown names), header in the file or given, comma or semicolon, a comment line or none, machine of 1..4 CPUs and any MaxCPU
// cover: excluded header
func R01_Layout() {
	cpu := sym.NumCPU(4)
	n := sym.Choose("rows", 4)
	var o dataframe.CSVReadingSpec
	o.MaxCPU = sym.Int("maxcpu")
	names := []string{"a", "b", "c"}
	sep := ","
	if sym.Choose("semicolon", 2) == 1 {
		sep = ";"
		o.Comma = ';'
	}
	text := ""
	if sym.Choose("header", 2) == 1 {
		sym.Cover("header")
		o.Header = []string{"a", "b", "c"}
		sym.Assume(n > 0)
	} else {
		text = strings.Join(names, sep) + "\n"
	}
	gone := sym.Choose("exclude", 8)
	for i, c := range names {
		if gone>>uint(i)&1 == 1 {
			sym.Cover("excluded")
			o.Exclude = append(o.Exclude, c)
		}
	}
	if gone == 0 {
		o.Exclude = []string{"unknown"}
	}
	comment := sym.Choose("comment", 2)
	if comment == 1 {
		o.Comment = '#'
	}
	a, b, c := &col{k: kI}, &col{k: kF}, &col{k: kS}
	for r := 0; r < n; r++ {
		d := sym.IntRange("digit", 0, 9)
		ch := string([]byte{byte('0' + d)})
		text += "1" + ch + sep + "-1." + strconv.Itoa(r) + "5" + sep + "x" + ch + "\n"
		if comment == 1 && r == 1 {
			text += "#1" + sep + "comment\n"
		}
		a.i = append(a.i, 10+d)
		b.f = append(b.f, []float64{-1.05, -1.15, -1.25}[r])
		c.o = append(c.o, "x"+ch)
	}
	if n == 0 {
		a, b, c = &col{k: kB}, &col{k: kB}, &col{k: kB}
	}
	m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	for i, x := range []*col{a, b, c} {
		if gone>>uint(i)&1 == 0 {
			m.cols[names[i]] = x
		}
	}
	raw, err := dataframe.FromCSV(strings.NewReader(text), o)
	sym.Assert(err == nil, "a well-formed CSV is rejected")
	sym.Assert(raw.ActualMaxCPU() == limitFor(o.MaxCPU, cpu), "CPU limit")
	if gone == 7 {
		sym.Assert(len(raw.Header().NameList()) == 0, "excluded columns are read")
		return
	}
	df := raw.ToDataFrame()
	if n > 0 {
		m.same(df, "read")
	} else {
		sym.Assert(df.NumRows() == 0, "number of rows")
		sym.Assert(df.NumColumns() == len(m.cols), "number of columns")
	}
	sym.NoLeak("a worker never finishes")
	observe(df, "read")
}

// R01_Shape: malformed tables are errors.
// bound: 6 kinds of malformed or empty input, with one or several CPUs
func R01_Shape() {
	sym.NumCPU(2)
	var o dataframe.CSVReadingSpec
	text := ""
	wantErr := true
	switch sym.Choose("kind", 7) {
	case 0: // nothing at all
	case 1:
		text = "a,b\n1,2,3\n"
	case 2:
		text = "a,b\n1\n"
	case 3:
		text = "a,b\n1,\"x\n"
	case 4:
		text = "a,b\n1,x\"y\n"
	case 5:
		text = "a,b\n1,x\"y\n"
		o.LazyQuotes = true
		wantErr = false
	case 6:
		text = "1,2\n3,4\n"
		o.Header = []string{"a", "b", "c"}
	}
	raw, err := dataframe.FromCSV(strings.NewReader(text), o)
	sym.Assert((err != nil) == wantErr, "malformed input is not reported, or a good one is rejected")
	if !wantErr {
		sym.Assert(raw.ToDataFrame().NumRows() == 1, "number of rows")
	}
	sym.NoLeak("a worker never finishes")
}

// R01_Parser: the options handed on to the CSV parser, alone and together.
// bound: tables of 2 rows of 4 columns with an arbitrary digit; bare quotes or none, spaces before fields or none, a first line with the comment character or none; every combination of LazyQuotes, TrimLeadingSpace, Comment and Header, 3 delimiters, machine of 2 CPUs
// cover: lazy refused trimmed
func R01_Parser() {
	sym.NumCPU(2)
	var o dataframe.CSVReadingSpec
	o.LazyQuotes = sym.Choose("lazy", 2) == 1
	o.TrimLeadingSpace = sym.Choose("trim", 2) == 1
	sep := ","
	switch sym.Choose("comma", 3) {
	case 1:
		sep, o.Comma = ";", ';'
	case 2:
		sep, o.Comma = "|", '|'
	}
	bare := sym.Choose("bare", 2) == 1
	space := []string{"", " "}[sym.Choose("space", 2)]
	if sym.Choose("comment", 2) == 1 {
		o.Comment = '%'
	}
	digit := string([]byte{byte('0' + sym.IntRange("digit", 0, 9))})
	text := ""
	names := []string{"%a", "i", "f", "s"}
	if sym.Choose("header", 2) == 1 {
		o.Header = names
	} else {
		// as the first line's first field would be a comment
		names[0] = "a"
		text = strings.Join(names, sep) + "\n"
	}
	first := []string{"%x", "z"}
	i := []string{space + "3" + digit, space + "-4"}
	f := []string{space + "0.5", space + "7"}
	s := []string{space + "u", "v"}
	if bare {
		s[1] = "v\"w"
	}
	lo := 0
	for r := range first {
		text += strings.Join([]string{first[r], i[r], f[r], s[r]}, sep) + "\n"
	}
	if o.Comment != 0 {
		lo = 1
	}
	raw, err := dataframe.FromCSV(strings.NewReader(text), o)
	if bare && !o.LazyQuotes {
		sym.Cover("refused")
		sym.Assert(err != nil, "a bare quote is accepted")
		return
	}
	sym.Assert(err == nil, "a well-formed CSV is rejected")
	if bare {
		sym.Cover("lazy")
	}
	cols := [][]string{first[lo:], i[lo:], f[lo:], s[lo:]}
	m := &mdl{cols: map[string]*col{}, idx: iota_(2 - lo)}
	for k, c := range cols {
		if o.TrimLeadingSpace {
			for r := range c {
				c[r] = strings.TrimLeft(c[r], " ")
			}
			if space != "" {
				sym.Cover("trimmed")
			}
		}
		m.cols[names[k]] = csvCol(c, o)
	}
	df := raw.ToDataFrame()
	m.same(df, "read")
	sym.NoLeak("a worker never finishes")
	observe(df, "read")
}

// R01_Encoding: strings are read as they are and the encoding is remembered.
// bound: 1..2 rows of two string columns, one letter arbitrary in U+00E0..U+00FF, read as ISO 8859-1, as ISO 8859-15 or as nothing, then re-encoded to UTF-8
// cover: decoded
func R01_Encoding() {
	sym.NumCPU(2)
	n := 1 + sym.Choose("rows", 2)
	var o dataframe.CSVReadingSpec
	o.MaxCPU = sym.Choose("maxcpu", 3)
	given := true
	switch sym.Choose("encoding", 3) {
	case 0:
		o.Encoding = charmap.ISO8859_1
	case 1:
		o.Encoding = charmap.ISO8859_15
	case 2:
		given = false
	}
	b := byte(sym.IntRange("letter", 0xe0, 0xff))
	text := "s,t,i\n"
	s, t, i := &col{k: kS}, &col{k: kS}, &col{k: kI}
	us, ut := &col{k: kS}, &col{k: kS}
	for r := 0; r < n; r++ {
		x := string([]byte{'a', b})
		u := string(utf8.AppendRune([]byte{'a'}, rune(b)))
		if r > 0 {
			x, u = "b\xe9", "b\u00e9"
		}
		text += x + ",t" + x + ",1" + itoa(r) + "\n"
		s.o, t.o, i.i = append(s.o, x), append(t.o, "t"+x), append(i.i, 10+r)
		us.o, ut.o = append(us.o, u), append(ut.o, "t"+u)
	}
	raw, err := dataframe.FromCSV(strings.NewReader(text), o)
	sym.Assert(err == nil, "a well-formed CSV is rejected")
	df := raw.ToDataFrame()
	m := &mdl{cols: map[string]*col{"s": s, "t": t, "i": i}, idx: iota_(n)}
	m.same(df, "read")
	if given {
		sym.Cover("decoded")
		sym.Assert(df.Encode(nil) == nil, "the encoding of the file is not known")
		m.cols["s"], m.cols["t"] = us, ut
		m.same(df, "re-encoded")
	} else {
		sym.Assert(df.Encode(nil) == nil, "strings without an encoding are UTF-8")
		m.same(df, "strings without an encoding")
	}
	observe(df, "read")
}
