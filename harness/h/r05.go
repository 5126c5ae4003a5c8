package h

import (
	"math"
	"os"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"golang.org/x/text/encoding/charmap"
	"verifharness/sym"
)

// R05_Pattern: any number of files, any CPU limit.
// bound: 0..3 files (thorough 4) of 0..2 rows each, MaxCPU among -1..7 and the extreme ints, machine of 1..5 CPUs, a directory and a non-matching file alongside
// cover: none several
func R05_Pattern() {
	cpu := sym.NumCPU(5)
	k := sym.Choose("files", sym.Quick(4, 5))
	dir := sym.TempDir()
	os.WriteFile(dir+"/other", []byte("id,s\n7,x\n"), 0600)
	os.Mkdir(dir+"/f_dir", 0700)
	var o dataframe.CSVReadingSpec
	o.MaxCPU = []int{0, 1, 2, 3, 4, 5, 7, -1, math.MaxInt64, math.MinInt64}[sym.Choose("maxcpu", 10)]
	id := 0
	var rows [][]int
	for i := 0; i < k; i++ {
		n := 1 + sym.Choose("rows", 2)
		text := "id,s\n"
		var r []int
		for j := 0; j < n; j++ {
			text += itoa(10+id) + ",s" + itoa(id) + "\n"
			r = append(r, id)
			id++
		}
		rows = append(rows, r)
		os.WriteFile(dir+"/f"+itoa(i), []byte(text), 0600)
	}
	raw, err := dataframe.FromCSVFilePattern(dir+"/f*", o)
	sym.Assert(err == nil, "reading fails")
	if k == 0 {
		sym.Cover("none")
		sym.Assert(raw == nil, "a result without files")
		return
	}
	sym.Assert(raw != nil, "no result")
	if k > 1 {
		sym.Cover("several")
	}
	df := raw.ToDataFrame()
	sym.Assert(df.NumRows() == id, "number of rows")
	sym.Assert(df.NumColumns() == 2, "number of columns")
	sym.Assert(df.ActualMaxCPU() == limitFor(o.MaxCPU, cpu), "CPU limit")
	// rows of a file stay together and in order
	at := 0
	seen := map[int]bool{}
	for at < id {
		first := df.Ints("id").Get(at) - 10
		ok := false
		for i, r := range rows {
			if r[0] == first && !seen[i] {
				seen[i], ok = true, true
				for _, x := range r {
					sym.Assert(df.Ints("id").Get(at) == 10+x, "rows of a file out of order")
					sym.Assert(df.Strings("s").Get(at) == "s"+itoa(x), "cells of a row mixed up")
					at++
				}
			}
		}
		sym.Assert(ok, "a file is lost or repeated")
	}
	sym.NoLeak("a worker never finishes")
}

// R05_Errors: files that cannot be read or parsed.
// bound: 1..3 files of which any may be malformed, empty, a link to a file elsewhere or a link to nothing (removed between listing and opening is not modelled), MaxCPU 0..2, machine of 1..3 CPUs
// cover: bad good dangling linked
func R05_Errors() {
	sym.NumCPU(3)
	k := 1 + sym.Choose("files", 3)
	dir := sym.TempDir()
	bad := false
	for i := 0; i < k; i++ {
		text := "id,s\n1,a\n"
		switch sym.Choose("content", 5) {
		case 1:
			text = "id,s\n1,a,b\n"
			bad = true
		case 2:
			text = ""
			bad = true
		case 3:
			os.Symlink(dir+"/nothing", dir+"/f"+itoa(i))
			bad = true
			sym.Cover("dangling")
			continue
		case 4:
			os.WriteFile(dir+"/g"+itoa(i), []byte(text), 0600)
			os.Symlink(dir+"/g"+itoa(i), dir+"/f"+itoa(i))
			sym.Cover("linked")
			continue
		}
		os.WriteFile(dir+"/f"+itoa(i), []byte(text), 0600)
	}
	var o dataframe.CSVReadingSpec
	o.MaxCPU = sym.Choose("maxcpu", 3)
	raw, err := dataframe.FromCSVFilePattern(dir+"/f*", o)
	if bad {
		sym.Cover("bad")
	} else {
		sym.Cover("good")
		sym.Assert(raw.ToDataFrame().NumRows() == k, "number of rows")
	}
	sym.Assert((err != nil) == bad, "a bad file is not reported, or a good one is rejected")
	sym.NoLeak("a worker never finishes")
	_, err = dataframe.FromCSVFile(dir+"/missing", o)
	sym.Assert(err != nil, "a missing file is not reported")
}

// R05_Schedules: the file workers under every schedule.
// bound: 2 (thorough 3) files of one row, 1..3 workers, all schedules with at most 1 preemption, data races detected
func R05_Schedules() {
	k := 2 + sym.Choose("files", sym.Quick(1, 2))
	sym.SetNumCPU(k)
	dir := sym.TempDir()
	bad := sym.Choose("bad", 2) == 1
	for i := 0; i < k; i++ {
		text := "id,s\n" + itoa(10+i) + ",a\n"
		if bad && i == 0 {
			text = "id\n1,2\n"
		}
		os.WriteFile(dir+"/f"+itoa(i), []byte(text), 0600)
	}
	var o dataframe.CSVReadingSpec
	o.MaxCPU = 1 + sym.Choose("maxcpu", k)
	sym.DetectRaces()
	sym.AllSchedules(1)
	raw, err := dataframe.FromCSVFilePattern(dir+"/f*", o)
	sym.OneSchedule()
	sym.Assert((err != nil) == bad, "a bad file is not reported, or a good one is rejected")
	if !bad {
		df := raw.ToDataFrame()
		sym.Assert(df.NumRows() == k, "number of rows")
		sum := 0
		for j := 0; j < k; j++ {
			sum += 1 << uint(df.Ints("id").Get(j)-10)
		}
		sym.Assert(sum == 1<<uint(k)-1, "a row is lost or repeated")
	}
	sym.NoLeak("a worker never finishes")
}

// R05_Options: every reading option applies to every file.
// bound: 1..3 files of 1..2 rows of 6 columns, one cell arbitrary, every single option set or all of them; machine of 1 or 4 CPUs, MaxCPU 0..2
// cover: one several all
func R05_Options() {
	sym.SetNumCPU([]int{1, 4}[sym.Choose("cpu", 2)])
	k := 1 + sym.Choose("files", 3)
	dir := sym.TempDir()
	var o dataframe.CSVReadingSpec
	o.MaxCPU = sym.Choose("maxcpu", 3)
	option := sym.Choose("option", 12)
	set := func(x int) bool { return option == x || option == 11 }
	names := []string{"id", "bin", "bool", "int", "s", "e"}
	sep := ","
	if set(1) {
		o.Header = []string{"id", "bin", "bool", "int", "s", "e"}
	}
	if set(2) {
		o.Exclude = []string{"e", "unknown"}
	}
	if set(3) {
		o.MissingValues = []string{"NA", "-"}
	}
	o.IntAsFloat, o.BoolAsFloat, o.BinaryAsFloat = set(4), set(5), set(6)
	if set(7) {
		o.Encoding = charmap.ISO8859_1
	}
	if set(8) {
		sep, o.Comma = ";", ';'
	}
	if set(9) {
		o.Comment = '%'
	}
	if set(10) {
		o.LazyQuotes, o.TrimLeadingSpace = true, true
	}
	if option == 11 {
		sym.Cover("all")
	}
	digit := string([]byte{byte('0' + sym.IntRange("digit", 0, 9))})
	var files [][][]string
	id := 0
	for f := 0; f < k; f++ {
		var rows [][]string
		text := ""
		if !set(1) {
			text = "id" + sep + "bin" + sep + "bool" + sep + "int" + sep + "s" + sep + "e\n"
		}
		n := 2 - f%2
		for r := 0; r < n; r++ {
			row := []string{itoa(10 + id), itoa(id % 2), []string{"true", "false"}[id%2], "4" + digit, "v\xe9" + itoa(id), "x"}
			if r == 1 {
				row[4] = "NA"
			}
			id++
			for c, x := range row {
				if c > 0 {
					text += sep
				}
				if set(10) && c == 3 {
					text += " "
				}
				text += x
			}
			text += "\n"
			if set(9) {
				text += "%comment" + sep + "ignored\n"
			}
			rows = append(rows, row)
		}
		files = append(files, rows)
		os.WriteFile(dir+"/f"+itoa(f), []byte(text), 0600)
	}
	raw, err := dataframe.FromCSVFilePattern(dir+"/f*", o)
	sym.Assert(err == nil && raw != nil, "reading fails")
	sym.Cover([]string{"one", "several"}[min(k-1, 1)])
	df := raw.ToDataFrame()
	sym.Assert(df.NumRows() == id, "number of rows")
	// the files in the order found, each with its own rows
	order := []int{}
	ids := make([]int, id)
	for r := range ids {
		if o.IntAsFloat {
			ids[r] = int(df.Floats("id").Get(r)) - 10
		} else {
			ids[r] = df.Ints("id").Get(r) - 10
		}
	}
	for r := 0; r < id; {
		found := false
		for f, rows := range files {
			if rows[0][0] == itoa(ids[r]+10) {
				order, found = append(order, f), true
				r += len(rows)
				break
			}
		}
		sym.Assert(found, "the rows of a file are not together")
		if !found {
			return
		}
	}
	sym.Assert(len(order) == k, "a file is lost or repeated")
	m := &mdl{cols: map[string]*col{}, idx: iota_(id)}
	for c, name := range names {
		if name == "e" && set(2) {
			continue
		}
		var fields []string
		for _, f := range order {
			for _, row := range files[f] {
				fields = append(fields, row[c])
			}
		}
		m.cols[name] = csvCol(fields, o)
	}
	m.same(df, "read")
	if set(7) {
		sym.Assert(df.Encode(nil) == nil, "the encoding is lost")
		for r, x := range m.cols["s"].o {
			if x != nil && x != "NA" {
				m.cols["s"].o[r] = "v\u00e9" + x.(string)[2:]
			}
		}
		m.same(df, "re-encoded")
	}
	sym.NoLeak("a worker never finishes")
	if k == 1 {
		observe(df, "read")
	}
}
